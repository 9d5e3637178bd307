// C06 reductions and elementary statistics
#include "common.hpp"
namespace M = openml::math;
static std::vector<std::vector<double>> lanes(const Mat& m, int ax) {   // the groups reduced along an axis
    std::vector<std::vector<double>> r; if (ax == 1) for (long i = 0; i < m.rows(); ++i) { r.emplace_back(); for (long j = 0; j < m.cols(); ++j) r.back().push_back(m(i, j)); }
    else if (ax == 0) for (long j = 0; j < m.cols(); ++j) { r.emplace_back(); for (long i = 0; i < m.rows(); ++i) r.back().push_back(m(i, j)); }
    else { r.emplace_back(); for (long i = 0; i < m.rows(); ++i) for (long j = 0; j < m.cols(); ++j) r.back().push_back(m(i, j)); }
    return r;
}
static Mat any(Source& s, size_t lo = 1) { size_t n = s.dim(lo, 14, 400), d = s.dim(1, 10, 120); Mat m = mat(s, n, d, style(s)); if (s.chance(15)) m.array() += num(s, WIDE); return m; }
static double sumv(const std::vector<double>& v) { long double t = 0; for (double x : v) t += x; return (double)t; }
LAW(sum_mean_var, 9000) {
    Mat m = any(s); int ax = (int)s.i(-1, 1); c.log("m", m); c.log("axis", ax); c.nt(m.rows() > 1 && m.cols() > 1); c.label(cat("axis ", ax)); auto L = lanes(m, ax); Mat S = M::sum<Mat>(m, ax), A = M::mean<Mat>(m, ax), V = M::var<Mat>(m, ax);
    long r = ax == 1 ? m.rows() : 1, q = ax == 0 ? m.cols() : 1; shape("sum", S, r, q); shape("mean", A, r, q); shape("var", V, r, q);
    for (size_t k = 0; k < L.size(); ++k) { double big = 0; for (double x : L[k]) big = std::max(big, std::fabs(x)); double n = (double)L[k].size(), t = sumv(L[k]), mu = t / n; long double v = 0; for (double x : L[k]) v += ((long double)x - mu) * ((long double)x - mu);
        near_("sum", S.data()[k], t, 1e-11 * (n * big + 1e-9)); near_("mean", A.data()[k], mu, 1e-11 * (big + 1e-9)); near_("variance", V.data()[k], (double)v / n, 1e-11 * (double)v / n + 1e-26 * (big * big + 1e-9)); }
}
LAW(cov_, 5000) {
    Mat m = any(s, 2); Mat C = M::cov<Mat>(m); c.log("m", m); c.nt(m.cols() > 1 && m.rows() > 2); long n = m.rows(), d = m.cols(); shape("cov", C, d, d); double big = maxabs(m); Vec mu = m.colwise().mean();
    for (long a = 0; a < d; ++a) for (long b = 0; b < d; ++b) { long double t = 0; for (long i = 0; i < n; ++i) t += ((long double)m(i, a) - mu(a)) * ((long double)m(i, b) - mu(b)); near_("covariance", C(a, b), (double)(t / (n - 1)), 1e-11 * (big * big + 1e-9)); near_("symmetry", C(a, b), C(b, a), 1e-12 * (big * big + 1e-9)); }
}
LAW(median_, 8000) {
    Mat m = any(s); int ax = (int)s.i(-1, 1); c.log("m", m); c.log("axis", ax); c.nt(m.size() > 2); auto L = lanes(m, ax); Mat m0 = m; Vec r = M::median<Mat, Vec>(m, ax); REQ(exact(m, m0), "input modified"); REQ(r.size() == (long)L.size(), "median has ", r.size(), " entries, expected ", L.size());
    for (size_t k = 0; k < L.size(); ++k) { auto v = L[k]; std::sort(v.begin(), v.end()); size_t n = v.size(); double e = n % 2 ? v[n / 2] : (v[n / 2 - 1] + v[n / 2]) / 2; c.label(n % 2 ? "odd" : "even"); same("median", r((long)k), e, 1e-12); }
}
LAW(mode_, 8000) {
    size_t n = s.dim(1, 12, 400), d = s.dim(1, 8, 40); Mat m = mat(s, n, d, s.chance(70) ? (s.b() ? BIN : INT) : style(s)); int ax = (int)s.i(0, 1); c.log("m", m); c.log("axis", ax); c.nt(m.size() > 2); auto L = lanes(m, ax); Mat mo, ct; std::tie(mo, ct) = M::mode<Mat>(m, ax);
    long r = ax == 1 ? m.rows() : 1, q = ax == 0 ? m.cols() : 1; shape("mode", mo, r, q); shape("count", ct, r, q);
    for (size_t k = 0; k < L.size(); ++k) { std::map<double, int> h; int best = 0; for (double x : L[k]) best = std::max(best, ++h[x]); double v = mo.data()[k];
        REQ(h.count(v), "mode ", v, " does not occur in its lane"); REQ(h[v] == best, "mode ", v, " occurs ", h[v], " times, another value ", best); REQ((int)ct.data()[k] == best, "count ", ct.data()[k], ", expected ", best); if (best == 1) { REQ(v == h.begin()->first, "all values distinct: mode should be the smallest"); c.label("all distinct"); } else c.label("repeated"); }
}
LAW(cumsum_, 5000) {
    Mat m = any(s); int ax = (int)s.i(-1, 1); c.log("m", m); c.log("axis", ax); c.nt(m.rows() > 1 && m.cols() > 1); Mat r = M::cumsum<Mat, Vec>(m, ax); double tol = 1e-11 * (maxabs(m) * (double)m.size() + 1e-9);
    if (ax == -1) { shape("cumsum", r, m.size(), 1); double t = 0; long k = 0; for (long i = 0; i < m.rows(); ++i) for (long j = 0; j < m.cols(); ++j) { t += m(i, j); near_("cumsum", r(k++, 0), t, tol); } return; }
    shape("cumsum", r, m.rows(), m.cols());
    for (long i = 0; i < m.rows(); ++i) for (long j = 0; j < m.cols(); ++j) { double t = 0; if (ax == 0) for (long k = 0; k <= i; ++k) t += m(k, j); else for (long k = 0; k <= j; ++k) t += m(i, k); near_("cumsum", r(i, j), t, tol); }
}
LAW(center_, 4000) {
    Mat m = any(s), r = M::center<Mat>(m); c.log("m", m); c.nt(m.rows() > 1); shape("center", r, m.rows(), m.cols()); double tol = 1e-11 * (maxabs(m) + 1e-9);
    for (long j = 0; j < m.cols(); ++j) { double mu = m.col(j).mean(); near_("column mean after centering", r.col(j).mean(), 0, tol); for (long i = 0; i < m.rows(); ++i) near_("centered entry", r(i, j), m(i, j) - mu, tol); }
}
LAW(elementwise, 5000) {
    Mat m = any(s); double ex = s.pick(std::vector<double>{2, 1, 3, 0, 0.5, -1, 1.5}); Mat p = m; bool frac = ex != std::floor(ex) || ex < 0; if (frac) p = m.cwiseAbs().array() + 0.25; Mat a = M::abs<Mat>(m), g2 = M::sign<Mat>(m), w = M::power<Mat>(p, ex); c.log("m", m); c.log("exponent", ex); c.nt(m.size() > 1);
    shape("abs", a, m.rows(), m.cols()); shape("sign", g2, m.rows(), m.cols()); shape("power", w, m.rows(), m.cols());
    for (long i = 0; i < m.size(); ++i) { double x = m.data()[i]; REQ(a.data()[i] == std::fabs(x), "abs(", x, ")"); REQ(g2.data()[i] == (x > 0) - (x < 0), "sign(", x, ") gave ", g2.data()[i]); same("power", w.data()[i], std::pow(p.data()[i], ex), 1e-10); }
}
LAW(norms, 5000) {
    Mat m = any(s); int ax = (int)s.i(0, 1); Vec r = M::norm2<Mat, Vec>(m, ax); auto L = lanes(m, ax); c.log("m", m); c.log("axis", ax); c.nt(m.rows() > 1 && m.cols() > 1); REQ(r.size() == (long)L.size(), "norm2 has ", r.size(), " entries"); for (size_t k = 0; k < L.size(); ++k) { double t = 0; for (double x : L[k]) t += x * x; same("norm2", r((long)k), std::sqrt(t), 1e-11); }
    Mat q = M::row_norms<Mat, Vec>(m, true), u = M::row_norms<Mat, Vec>(m, false); auto R = lanes(m, 1); REQ(q.size() == m.rows() && u.size() == m.rows(), "row_norms size"); for (size_t k = 0; k < R.size(); ++k) { double t = 0; for (double x : R[k]) t += x * x; same("squared row norm", q.data()[k], t, 1e-11); same("row norm", u.data()[k], std::sqrt(t), 1e-11); }
    Vec v = vec(s, s.sz(1, 8), style(s)); Mat D = M::diagmat<Mat, Vec>(v); shape("diagmat", D, v.size(), v.size()); for (long i = 0; i < v.size(); ++i) for (long j = 0; j < v.size(); ++j) REQ(D(i, j) == (i == j ? v(i) : 0.0), "diagmat(", i, ",", j, ") is ", D(i, j));
}
LAW(bad_axis, 800) {
    Mat m = any(s); int ax = s.b() ? (int)s.i(2, 9) : (int)s.i(-9, -2); c.log("axis", ax); c.nt();
    must_throw<std::invalid_argument>("sum", [&] { M::sum<Mat>(m, ax); }); must_throw<std::invalid_argument>("mean", [&] { M::mean<Mat>(m, ax); }); must_throw<std::invalid_argument>("var", [&] { M::var<Mat>(m, ax); });
    must_throw<std::invalid_argument>("median", [&] { M::median<Mat, Vec>(m, ax); }); must_throw<std::invalid_argument>("cumsum", [&] { M::cumsum<Mat, Vec>(m, ax); }); must_throw<std::invalid_argument>("mode", [&] { M::mode<Mat>(m, ax); }); must_throw<std::invalid_argument>("norm2", [&] { M::norm2<Mat, Vec>(m, ax); });
}
#include "pbt_main.hpp"
