// C10 randomised SVD and truncated SVD
#include "svd_ext.hpp"
#include "common.hpp"
#include "methods/decomposition/truncated_svd.hpp"
namespace M = openml::math;
static void ortho(const char* what, const Mat& q, double tol = 1e-8) { nearm(what, Mat(q.transpose() * q), Mat(Mat::Identity(q.cols(), q.cols())), tol); }
struct P { Mat x; Vec sv; size_t k, p, it; std::string norm; bool low; };
static P gen(Source& s, Ctx& c) {
    P r; size_t n = s.dim(2, 14, 40, 20), d = s.dim(2, 14, 40, 20), m = std::min(n, d); r.k = s.sz(1, m - 1); r.p = s.sz(0, m - r.k); r.it = s.sz(0, 6); r.norm = s.pick(std::vector<std::string>{"LU", "QR", "None"}); r.low = s.b();
    size_t rank = r.low ? s.sz(1, r.k) : m; Mat A = orth(s, n), B = orth(s, d), S = Mat::Zero((long)n, (long)d); double v = 2 + 3 * s.unit(); for (size_t i = 0; i < rank; ++i) { S((long)i, (long)i) = v; v *= 0.5 + 0.45 * s.unit(); } r.x = A * S * B.transpose(); r.sv = S.diagonal();
    c.log("x", r.x); c.log("k", r.k); c.log("oversamples", r.p); c.log("iters", r.it); c.log("normalizer", r.norm); c.nt(r.k > 1); c.label(r.low ? "rank<=k" : "full rank"); c.label(r.norm); return r;
}
static double lost(const P& g) { double lo = g.sv(0); for (long i = 0; i < g.sv.size(); ++i) if (g.sv(i) > 0) lo = g.sv(i); return std::pow(g.sv(0) / lo, 2 * (double)g.it + 1); }   // digits lost to unnormalised iterations
LAW(rsvd, 6000) {
    P g = gen(s, c); bool flip = s.b(); Mat U, Vt; Vec w; Mat x0 = g.x; std::tie(U, w, Vt) = M::randomized_svd<Mat, Vec, IVec>(g.x, g.k, g.p, g.it, g.norm, flip); long k = (long)g.k; REQ(exact(g.x, x0), "input modified");
    shape("U", U, g.x.rows(), k); shape("Vt", Vt, k, g.x.cols()); REQ(w.size() == k, "there are ", w.size(), " singular values, expected ", k); ortho("U'U", U); ortho("V'V", Mat(Vt.transpose())); double sc = g.sv(0);
    for (long i = 0; i < k; ++i) { REQ(w(i) >= -1e-12, "negative singular value"); if (i) REQ(w(i) <= w(i - 1) + 1e-9, "singular values not descending"); REQ(w(i) <= g.sv(i) + 1e-8 * sc, "singular value ", i, " is ", w(i), ", above the exact ", g.sv(i)); }
    // without normalisation the small directions drown in rounding errors after a few iterations
    bool sharp = g.low && (g.norm != "None" || lost(g) < 1e6);
    if (sharp) { for (long i = 0; i < k; ++i) near_("singular value of a matrix of low rank", w(i), g.sv(i), 1e-6 * sc); nearm("U*S*Vt of a matrix of low rank", Mat(U * w.asDiagonal() * Vt), g.x, 1e-6 * sc); }
    // the left factor is the image of the right one: U S = X V up to the range captured
    Mat low = U * w.asDiagonal() * Vt; nearm("projection: U U' X V V' = U S Vt", Mat(U * (U.transpose() * g.x * Vt.transpose()) * Vt), low, 1e-7 * sc);
    if (flip) for (long j = 0; j < k; ++j) { long i; U.col(j).cwiseAbs().maxCoeff(&i); REQ(U(i, j) > -1e-12, "sign convention of component ", j); }
}
LAW(rsvd_accuracy, 1500) {        // power iterations recover a separated leading subspace
    size_t n = s.sz(4, 16), d = s.sz(4, 16), m = std::min(n, d), k = s.sz(1, m - 2), p = s.sz(1, m - k); Mat A = orth(s, n), B = orth(s, d), S = Mat::Zero((long)n, (long)d); for (size_t i = 0; i < m; ++i) S((long)i, (long)i) = i < k ? 4.0 + (double)(k - i) * 0.5 : 0.02 * s.unit(); Mat x = A * S * B.transpose(); std::string nm = s.pick(std::vector<std::string>{"LU", "QR"});
    size_t it = s.sz(3, 6); Mat U, Vt; Vec w; std::tie(U, w, Vt) = M::randomized_svd<Mat, Vec, IVec>(x, k, p, it, nm, true); c.log("n", n); c.log("d", d); c.log("k", k); c.log("p", p); c.log("iters", it); c.log("normalizer", nm); c.nt(k > 1); c.label(nm);
    for (size_t i = 0; i < k; ++i) near_("leading singular value", w((long)i), S((long)i, (long)i), 1e-4); nearm("best rank-k approximation", Mat(U * w.asDiagonal() * Vt), Mat(A.leftCols((long)k) * S.topLeftCorner((long)k, (long)k) * B.leftCols((long)k).transpose()), 1e-2);
}
// every extra direction and every power iteration counts: on average the leading subspace is found as well as by a plain implementation
LAW(quality, 150) {
    size_t n = s.sz(8, 22), d = s.sz(8, 22), m = std::min(n, d), k = s.sz(1, 4), p = s.sz(0, std::min<size_t>(m - k, 12)), it = s.sz(0, 8); Mat A = orth(s, n), B = orth(s, d), S = Mat::Zero((long)n, (long)d); double q = s.pick(std::vector<double>{0.8, 0.93, 0.98}), v = 1; for (size_t i = 0; i < m; ++i) { S((long)i, (long)i) = v; v *= q; } Mat x = A * S * B.transpose(); std::string nm = s.pick(std::vector<std::string>{"LU", "QR", "None"}); bool est = s.b() && k + p <= m; c.log("n", n); c.log("d", d); c.log("k", k); c.log("p", p); c.log("iters", it); c.log("normalizer", nm); c.log("ratio", q); c.log("estimator", est); c.nt(); c.label(nm); c.label(est ? "estimator" : "function"); pbt::env_state = s.draw(1u << 30); double best = S.diagonal().head((long)k).squaredNorm(); const int N = 40; std::vector<double> a, b;
    for (int t = 0; t < N; ++t) { if (est) { openml::decomposition::TruncatedSVD<double> z(k, p, it, "randomized", nm); z.fit(x); a.push_back(Vec(z.get_singular_values()).squaredNorm() / best); } else { Mat U, V; Vec w; std::tie(U, w, V) = M::randomized_svd<Mat, Vec, IVec>(x, k, p, it, nm); a.push_back(w.squaredNorm() / best); }
        Mat Q((long)d, (long)(k + p)); for (long i = 0; i < Q.size(); ++i) { double u1 = 1 - s.unit(), u2 = s.unit(); Q.data()[i] = std::sqrt(-2 * std::log(u1)) * std::cos(2 * M_PI * u2); } auto on = [](const Mat& z) { return Mat(Eigen::HouseholderQR<Mat>(z).householderQ() * Mat::Identity(z.rows(), z.cols())); }; for (size_t i = 0; i < it; ++i) Q = on(Mat(x.transpose() * on(Mat(x * Q)))); Mat C = on(Mat(x * Q)).transpose() * x; Eigen::SelfAdjointEigenSolver<Mat> es(Mat(C * C.transpose())); b.push_back(es.eigenvalues().tail((long)k).sum() / best); }
    auto st = [&](const std::vector<double>& z, double& mu, double& var) { mu = var = 0; for (double y : z) mu += y / N; for (double y : z) var += (y - mu) * (y - mu) / (N - 1); }; double ma, va, mb, vb; st(a, ma, va); st(b, mb, vb); REQ(ma >= mb - 7 * std::sqrt((va + vb) / N) - 1e-7, "on average ", ma, " of the leading energy is found, ", mb, " by the same number of directions and iterations");
}
LAW(tsvd, 5000) {
    P g = gen(s, c); openml::decomposition::TruncatedSVD<double> t(g.k, g.p, g.it, "randomized", g.norm); t.fit(g.x); long k = (long)g.k; Mat C = t.get_components(), T = t.transform(g.x); Vec w = t.get_singular_values(), ev = t.get_explained_var(), er = t.get_explained_var_ratio();
    shape("components", C, k, g.x.cols()); ortho("components", Mat(C.transpose())); shape("transformed", T, g.x.rows(), k); nearm("transform = X C'", T, Mat(g.x * C.transpose()), 1e-9 * (1 + g.sv(0))); REQ(w.size() == k && ev.size() == k && er.size() == k, "statistics have the wrong length");
    double tot = 0; for (long j = 0; j < g.x.cols(); ++j) { double mu = g.x.col(j).mean(); tot += (g.x.col(j).array() - mu).square().mean(); } double sum = 0;
    for (long j = 0; j < k; ++j) { double mu = T.col(j).mean(), v = (T.col(j).array() - mu).square().mean(); near_("explained variance", ev(j), v, 1e-8 * (1 + g.sv(0) * g.sv(0))); if (tot > 1e-6) near_("explained variance ratio", er(j), v / tot, 1e-6); sum += er(j); REQ(w(j) <= g.sv(j) + 1e-8 * g.sv(0), "singular value ", j, " exceeds the exact one"); if (j) REQ(w(j) <= w(j - 1) + 1e-9, "singular values not descending"); }
    if (tot > 1e-6) REQ(sum <= 1 + 1e-6, "explained variance ratios sum to ", sum); bool sharp = g.low && (g.norm != "None" || lost(g) < 1e6); if (sharp) { nearm("inverse of the projection", Mat(T * C), g.x, 1e-6 * g.sv(0)); for (long j = 0; j < k; ++j) near_("singular value", w(j), g.sv(j), 1e-6 * g.sv(0)); }
    Mat z = cont(s, s.sz(1, 5), (size_t)g.x.cols()); nearm("transform of new data", t.transform(z), Mat(z * C.transpose()), 1e-9);
}
LAW(rejects, 1500) {
    size_t n = s.sz(2, 8), d = s.sz(2, 8), m = std::min(n, d); Mat x = cont(s, n, d); c.nt(); c.log("x", x); int k = (int)s.draw(3); c.label(cat("kind ", k)); openml::decomposition::TruncatedSVD<double> big(s.sz(m, m + 2), s.sz(1, 4), 2, "randomized", "LU"), bs(1, 0, 2, "arpack", "LU"), bn(1, 0, 2, "randomized", "lu");
    if (k == 0) must_throw<std::invalid_argument>("more components than the matrix has", [&] { big.fit(x); }); else if (k == 1) must_throw<std::invalid_argument>("unknown solver", [&] { bs.fit(x); }); else must_throw<std::invalid_argument>("unknown normalizer", [&] { bn.fit(x); });
}
#include "pbt_main.hpp"
