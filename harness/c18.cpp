// C18 naive Bayes classifiers
#include "common.hpp"
#include "methods/naive_bayes/gaussian_naive_bayes.hpp"
#include "methods/naive_bayes/multinomial_naive_bayes.hpp"
namespace NB = openml::naive_bayes;
typedef long double L;
struct D { Mat X, Z; Vec y; std::vector<double> cls; double par; };
// arbitrary label values; every class occurs; multinomial data are counts
static D gen(Source& s, Ctx& c, bool gauss) {
    D d; size_t K = s.dim(1, 4, 20), n = K + s.dim(0, 12, 300), f = s.dim(1, 5, 40); int st = gauss ? style(s, false) : (int)INT;
    auto used = class_values(s, K);
    d.cls.assign(used.begin(), used.end()); auto p = perm(s, n); d.y.resize((long)n);
    for (size_t i = 0; i < n; ++i) d.y((long)p[i]) = d.cls[i < K ? i : s.draw(K)];
    d.X = mat(s, n, f, st); d.Z = mat(s, s.sz(1, 6), f, s.b() ? st : (int)UNIT);
    if (gauss) { double off = s.chance(20) ? (double)s.small(5) * 20 : 0; d.X.array() += off; if (s.b()) d.Z.array() += off; if (s.chance(15)) d.Z *= 1e4; d.par = s.pick(std::vector<double>{1e-9, 1e-9, 1e-6, 1e-3, 0.1, 0.0}); }
    else { d.X = d.X.cwiseAbs(); d.Z = d.Z.cwiseAbs(); if (s.chance(25)) { d.X *= 0.5; } if (s.chance(15)) d.Z *= 300; d.par = s.pick(std::vector<double>{1.0, 10.0, 0.5, 1e-3, 3.0}); }
    c.log("model", gauss ? "gaussian" : "multinomial"); c.log("X", d.X); c.log("y", d.y.transpose()); c.log("queries", d.Z); c.log("smoothing", d.par);
    c.nt(K > 1 && f > 1 && n > K); c.label(gauss ? "gaussian" : "multinomial"); c.label(K == 1 ? "one class" : K == 2 ? "two classes" : "many classes"); return d;
}
// reference parameters: mean/variance (gaussian) or feature counts (multinomial)
struct Ref { Mat a, b; Vec prior; };
static Ref ref(const D& d, bool gauss) {
    Ref r; long K = (long)d.cls.size(), f = d.X.cols(); r.a = Mat::Zero(K, f); r.b = Mat::Zero(K, f); r.prior.resize(K);
    for (long k = 0; k < K; ++k) for (long j = 0; j < f; ++j) { L m = 0, v = 0; long q = 0; for (long i = 0; i < d.X.rows(); ++i) if (d.y(i) == d.cls[(size_t)k]) { m += d.X(i, j); ++q; } r.prior(k) = (double)q / (double)d.X.rows(); if (!gauss) { r.a(k, j) = (double)m; continue; } m /= q; for (long i = 0; i < d.X.rows(); ++i) if (d.y(i) == d.cls[(size_t)k]) v += ((L)d.X(i, j) - m) * ((L)d.X(i, j) - m); r.a(k, j) = (double)m; r.b(k, j) = (double)(v / q); }
    if (gauss) { double mx = r.b.maxCoeff(); r.b.array() += d.par * mx; } return r;
}
static std::vector<L> joint(const D& d, const Ref& r, bool gauss, long i) {
    long K = r.a.rows(), f = r.a.cols(); std::vector<L> t((size_t)K);
    for (long k = 0; k < K; ++k) { L v = std::log((L)r.prior(k)); L tot = 0; if (!gauss) for (long j = 0; j < f; ++j) tot += r.a(k, j); for (long j = 0; j < f; ++j) { if (gauss) { L z = (L)d.Z(i, j) - r.a(k, j); v -= 0.5L * (z * z / (L)r.b(k, j) + std::log(2 * (L)M_PI * (L)r.b(k, j))); } else v += (L)d.Z(i, j) * std::log(((L)r.a(k, j) + d.par) / (tot + (L)d.par * f)); } t[(size_t)k] = v; } return t;
}
template <class M> static void check(const D& d, bool gauss, M& m) {
    Ref r = ref(d, gauss); long K = (long)d.cls.size(); Mat Z0 = d.Z;
    Vec cl = m.get_classes(), pr = m.get_prior_prob(); REQ(cl.size() == K, "reports ", cl.size(), " classes, data have ", K); for (long k = 0; k < K; ++k) REQ(cl(k) == d.cls[(size_t)k], "class ", k, " is reported as ", cl(k)); same("prior", pr, r.prior, 1e-12);
    Mat P = m.predict_prob(d.Z), LP = m.predict_log_prob(d.Z); Vec y = m.predict(d.Z); REQ(exact(d.Z, Z0), "queries modified"); shape("probabilities", P, d.Z.rows(), K); shape("log probabilities", LP, d.Z.rows(), K); REQ(y.size() == d.Z.rows(), "wrong number of predictions");
    for (long i = 0; i < d.Z.rows(); ++i) {
        auto t = joint(d, r, gauss, i); L mx = *std::max_element(t.begin(), t.end()), sum = 0, big = 0; for (L v : t) { sum += std::exp(v - mx); big = std::max(big, std::fabs(v)); } L lse = mx + std::log(sum); double tol = (double)(1e-9L * (1 + big));
        double tot = 0; for (long k = 0; k < K; ++k) { near_("log posterior", LP(i, k), (double)(t[(size_t)k] - lse), tol); near_("posterior", P(i, k), (double)std::exp(t[(size_t)k] - lse), tol); near_("posterior against its logarithm", P(i, k), std::exp(LP(i, k)), 1e-12); tot += P(i, k); }
        near_("posteriors sum", tot, 1, 1e-9 + 4e-16 * (double)big * (double)K); long q = -1; for (long k = 0; k < K; ++k) if (d.cls[(size_t)k] == y(i)) q = k; REQ(q >= 0, "predicts ", y(i), ", which is no label of the training data"); REQ((double)(mx - t[(size_t)q]) <= tol, "query ", i, " is predicted ", y(i), " although another class is more probable by a factor exp(", (double)(mx - t[(size_t)q]), ")");
    }
}
static bool flat(const Ref& r) { return !(r.b.maxCoeff() > 1e-9); }
LAW(gaussian, 12000) {
    D d = gen(s, c, true); Ref r = ref(d, true); if (flat(r)) pbt::discard(); if (r.b.minCoeff() < 1e-11 * r.b.maxCoeff() || r.b.minCoeff() <= 0) pbt::discard(); NB::GaussianNB<double> m(d.par); if (d.par == 1e-9 && s.b()) { m = NB::GaussianNB<double>(); c.label("default"); } Mat X0 = d.X; Vec y0 = d.y; m.fit(d.X, d.y); REQ(exact(d.X, X0) && exact(d.y, y0), "training data modified");
    double sc = 1 + maxabs(d.X); nearm("mean", m.get_mean(), r.a, 1e-12 * sc); Mat v = m.get_var(); shape("variance", v, r.b.rows(), r.b.cols()); for (long k = 0; k < v.size(); ++k) near_("variance", v.data()[k], r.b.data()[k], 1e-10 * r.b.data()[k] + 1e-26 * sc * sc);
    // variances far below the rounding error of the data cannot be compared
    if (r.b.minCoeff() < 1e-8 * sc * sc) { c.label("tiny variance"); Mat P = m.predict_prob(d.Z); REQ(finite(P), "posterior not finite"); return; }
    check(d, true, m);
}
LAW(multinomial, 12000) {
    D d = gen(s, c, false); NB::MultinomialNB<double> m(d.par); if (d.par == 10.0 && s.b()) { m = NB::MultinomialNB<double>(); c.label("default"); } Mat X0 = d.X; Vec y0 = d.y; m.fit(d.X, d.y); REQ(exact(d.X, X0) && exact(d.y, y0), "training data modified");
    Ref r = ref(d, false); nearm("feature counts", m.get_features_count(), r.a, 1e-12 * (1 + maxabs(r.a))); check(d, false, m);
}
LAW(relabel, 4000) {          // renaming classes and reordering or duplicating samples changes nothing else
    bool g = s.b(); D d = gen(s, c, g); if (g) { Ref r = ref(d, true); double sc = 1 + maxabs(d.X); if (flat(r) || r.b.minCoeff() < 1e-8 * sc * sc) pbt::discard(); }
    size_t n = (size_t)d.X.rows(); auto p = perm(s, n); D e = d; e.X = permute_rows(d.X, p); size_t K = d.cls.size(); auto q = perm(s, K); auto nm = class_values(s, K); std::map<double, double> ren; for (size_t k = 0; k < K; ++k) ren[d.cls[k]] = nm[q[k]]; for (size_t i = 0; i < n; ++i) e.y((long)i) = ren[d.y((long)p[i])];
    bool twice = g && s.b(); if (twice) { Mat X2(2 * e.X.rows(), e.X.cols()); X2 << e.X, e.X; Vec y2(2 * e.y.size()); y2 << e.y, e.y; e.X = X2; e.y = y2; }
    Ref jr = ref(d, g); auto run = [&](auto m1, auto m2) { m1.fit(d.X, d.y); m2.fit(e.X, e.y); Mat P = m1.predict_log_prob(d.Z), Q = m2.predict_log_prob(d.Z); Vec cl = m2.get_classes(); for (long i = 0; i < P.rows(); ++i) { double big = 0; for (L v : joint(d, jr, g, i)) big = std::max(big, (double)std::fabs(v)); for (size_t k = 0; k < K; ++k) { long j = -1; for (long t = 0; t < cl.size(); ++t) if (cl(t) == ren[d.cls[k]]) j = t; REQ(j >= 0, "class lost by renaming"); near_("log posterior after renaming and reordering", Q(i, j), P(i, (long)k), 1e-7 * (1 + std::fabs(P(i, (long)k)) + maxabs(P)) + 1e-9 * big); } } };
    if (g) run(NB::GaussianNB<double>(d.par), NB::GaussianNB<double>(d.par)); else run(NB::MultinomialNB<double>(d.par), NB::MultinomialNB<double>(d.par));
}
#include "pbt_main.hpp"
