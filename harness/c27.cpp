// C27 principal component analysis
#include "svd_ext.hpp"
#include "common.hpp"
#include "methods/decomposition/pca.hpp"
using PC = openml::decomposition::PCA<double>;
struct In { Mat X, Z, S; Vec ev, mu; size_t k; double tot; };   // S: sample covariance, ev: its eigenvalues, descending
static In gen(Source& s, Ctx& c, size_t kfix = 0) {
    In g; size_t n = s.dim(kfix ? 3 : 2, 18, 150), d = s.dim(kfix ? 2 : 1, 6, 25); g.X = s.chance(70) ? cont(s, n, d) : mat(s, n, d, style(s, false)); if (s.b()) for (long j = 0; j < g.X.cols(); ++j) g.X.col(j) *= std::pow(0.5, (double)j); if (s.b()) g.X = g.X * orth(s, d); if (s.b()) g.X.rowwise() += cont(s, 1, d, s.b() ? 5 : 50).row(0); if (s.chance(15) && d > 1) g.X.col(1) = 2 * g.X.col(0); size_t m = std::min(n, d); g.k = kfix ? kfix : s.sz(1, m); g.Z = cont(s, s.sz(1, 6), d, 4.0);
    g.mu = g.X.colwise().mean().transpose(); Mat Y = g.X.rowwise() - g.mu.transpose(); g.S = Y.transpose() * Y / (double)(n - 1); Eigen::SelfAdjointEigenSolver<Mat> e(g.S); g.ev = e.eigenvalues().reverse().cwiseMax(0); g.tot = g.S.trace(); if (g.tot < 1e-4) pbt::discard(); c.log("X", g.X); c.log("k", g.k); c.log("Z", g.Z); c.nt(n > 2 && d > 1); c.label(g.k == m ? "all components" : "fewer components"); c.label(n > d ? "tall" : "wide"); return g;
}
static double noise(const In& g) { long m = std::min(g.X.rows(), g.X.cols()), k = (long)g.k; return m > k ? g.ev.segment(k, m - k).sum() / (double)(m - k) : 0; }
static Mat model_cov(const In& g, const Mat& C) { double nz = noise(g); long d = g.X.cols(); Mat M = nz * Mat::Identity(d, d); for (long j = 0; j < (long)g.k; ++j) M += std::max(g.ev(j) - nz, 0.0) * C.row(j).transpose() * C.row(j); return M; }
static void projection(const In& g, PC& p) {
    long k = (long)g.k, d = g.X.cols(), n = g.X.rows(); Mat C = p.get_components(), T = p.transform(g.X), Z0 = g.Z, TZ = p.transform(g.Z); Vec ev = p.get_explained_var(), er = p.get_explained_var_ratio(), sv = p.get_singular_values(); REQ(exact(g.Z, Z0), "data modified"); shape("components", C, k, d); shape("transformed", T, n, k); shape("transformed new data", TZ, g.Z.rows(), k); REQ(ev.size() == k && er.size() == k && sv.size() == k, "statistics have the wrong length"); double sc = std::sqrt(g.tot) + 1e-3, off = 1 + g.mu.norm();
    nearm("components orthonormal", C * C.transpose(), Mat::Identity(k, k), 1e-9); nearm("transform of new data", TZ, (g.Z.rowwise() - g.mu.transpose()) * C.transpose(), 1e-10 * (off + 10)); nearm("transform of the training data", T, (g.X.rowwise() - g.mu.transpose()) * C.transpose(), 1e-10 * (off + sc)); nearm("transformed training data centred", T.colwise().sum(), Mat::Zero(1, k), 1e-9 * (off + sc) * (double)n);
    Mat V = T.transpose() * T / (double)(n - 1); for (long j = 0; j < k; ++j) { near_("explained variance", ev(j), g.ev(j), 1e-9 * (g.tot + off * off * 1e-6)); near_("variance of the transformed data", V(j, j), ev(j), 1e-9 * (g.tot + off * off * 1e-6)); near_("explained variance ratio", er(j), g.ev(j) / g.tot, 1e-8); near_("singular value", sv(j), std::sqrt(g.ev(j) * (double)(n - 1)), 1e-6 * sc * std::sqrt((double)n)); if (j) REQ(ev(j) <= ev(j - 1) + 1e-12 * g.tot, "explained variances not descending"); for (long i = 0; i < j; ++i) near_("correlation of two components", V(i, j), 0, 1e-8 * (g.tot + off * off * 1e-6)); }
    for (long j = 0; j < k; ++j) { if (ev(j) < 1e-6 * g.tot) continue; long i; double m = T.col(j).cwiseAbs().maxCoeff(&i); bool tie = false; for (long r = 0; r < n; ++r) if (r != i && std::fabs(T(r, j)) > m * (1 - 1e-7)) tie = true; if (!tie) REQ(T(i, j) > 0, "sign convention of component ", j); }
}
static void gaussian(const In& g, PC& p, int order) {
    Mat C = p.get_components(), M = model_cov(g, C), P, Q; double sc = 0; auto score = [&] { sc = p.score(g.Z); }; auto cov = [&] { Q = p.get_covariance(); }; auto prec = [&] { P = p.get_precision(); }; if (order == 0) { score(); cov(); prec(); } else if (order == 1) { prec(); score(); cov(); } else { cov(); prec(); score(); }
    nearm("covariance of the model", Q, M, 1e-8 * (1 + g.tot + g.mu.squaredNorm() * 1e-6)); Eigen::SelfAdjointEigenSolver<Mat> e(0.5 * (Q + Q.transpose())); long d = M.rows(); if (g.X.rows() > d || g.k == (size_t)std::min(g.X.rows(), g.X.cols())) near_("total variance of the model", Q.trace(), g.tot, 1e-8 * (1 + g.tot + g.mu.squaredNorm() * 1e-6)); if (e.eigenvalues()(0) < 1e-4) return;
    double cond = e.eigenvalues()(d - 1) / e.eigenvalues()(0); nearm("covariance times precision", Q * P, Mat::Identity(d, d), 1e-10 * cond + 1e-9); double want = 0; Mat Y = g.Z.rowwise() - g.mu.transpose(); Mat W = e.eigenvectors(); for (long i = 0; i < Y.rows(); ++i) { double q = 0; for (long j = 0; j < d; ++j) { double t = Y.row(i).dot(W.col(j).transpose()); q += t * t / e.eigenvalues()(j) + std::log(e.eigenvalues()(j)); } want -= 0.5 * (q + (double)d * std::log(2 * M_PI)); } want /= (double)Y.rows(); near_("average log-likelihood", sc, want, 1e-9 * (1 + std::fabs(want)) * (1 + cond));
}
LAW(principal, 8000) { In g = gen(s, c); PC p("svd", g.k); Mat X0 = g.X; p.fit(g.X); REQ(exact(g.X, X0), "data modified"); projection(g, p); gaussian(g, p, (int)s.draw(3)); }
LAW(defaults, 800) { In g = gen(s, c, 2); PC p; p.fit(g.X); projection(g, p); gaussian(g, p, (int)s.draw(3)); }
LAW(reconstruction, 4000) {   // all components lose nothing; fewer lose exactly the discarded variance
    In g = gen(s, c); PC p("svd", g.k); p.fit(g.X); Mat T = p.transform(g.X), R = T * p.get_components(); R.rowwise() += g.mu.transpose(); double lost = (R - g.X).squaredNorm(), want = 0; for (long j = (long)g.k; j < g.ev.size(); ++j) want += g.ev(j) * (double)(g.X.rows() - 1); near_("squared reconstruction error", lost, want, 1e-8 * (1 + g.tot * (double)g.X.rows() + g.mu.squaredNorm() * 1e-6));
}
LAW(invariance, 3000) {       // translation, rotation and order of the data do not change the variances
    In g = gen(s, c); PC p("svd", g.k), q("svd", g.k); p.fit(g.X); Mat Y = permute_rows(g.X, perm(s, (size_t)g.X.rows())); Y = Y * orth(s, (size_t)g.X.cols()); Y.rowwise() += cont(s, 1, (size_t)g.X.cols(), 3).row(0); q.fit(Y); nearm("explained variances", q.get_explained_var(), p.get_explained_var(), 1e-8 * (1 + g.tot + g.mu.squaredNorm() * 1e-6)); nearm("ratios", q.get_explained_var_ratio(), p.get_explained_var_ratio(), 1e-7 * (1 + g.mu.squaredNorm() * 1e-4));
}
LAW(rejects, 1000) { size_t n = s.sz(2, 8), d = s.sz(1, 6); Mat X = cont(s, n, d); int how = (int)s.draw(2); c.log("X", X); c.nt(); c.label(cat("how ", how)); if (how == 0) { PC p(s.pick(std::vector<std::string>{"", "SVD", "full", "eig", "randomized"}), 1); must_throw<std::invalid_argument>("unknown solver", [&] { p.fit(X); }); } else { PC p("svd", std::min(n, d) + s.sz(1, 3)); must_throw<std::invalid_argument>("more components than min(samples, features)", [&] { p.fit(X); }); } }
#include "pbt_main.hpp"
