// C19 Gaussian mixture model
#include "common.hpp"
#include "methods/mixture/gaussian_mixture.hpp"
using GM = openml::mixture_model::GaussianMixture<double>;
struct In { Mat X; size_t k; std::string cov; double reg; pbt::u64 st; };
struct Par { Mat mu; std::vector<Mat> S; Vec w; };
static In gen(Source& s, Ctx& c, size_t kmax = 3) {
    In g; size_t f = s.dim(1, 3, 8, 6); g.k = s.dim(1, kmax, 9, 60); size_t n = g.k + s.dim(2, 18, 150, 6); g.X = cont(s, n, f); if (s.chance(40)) for (long i = 0; i < g.X.rows(); ++i) g.X.row(i).array() += 5.0 * (double)s.draw(3); if (s.chance(20)) { Mat R = orth(s, f); for (long j = 0; j < (long)f; ++j) R.col(j) *= 0.3 + (double)j; g.X = g.X * R; } if (s.chance(15)) g.X.row(1) = g.X.row(0).eval();
    g.cov = s.b() ? "full" : "tied"; g.reg = s.pick(std::vector<double>{1e-2, 1e-3, 0.1, 0.5}); if (n >= 12 * g.k && s.b()) g.reg = 1e-6; g.st = pbt::env_state; c.log("X", g.X); c.log("k", g.k); c.log("covariance", g.cov); c.log("reg", g.reg); c.nt(g.k > 1 && f > 1); c.label(g.cov); c.label(g.k == 1 ? "one component" : "several"); return g;
}
static Par get(const GM& m) { return {m.get_means(), m.get_covariance(), m.get_weights()}; }
// log(w_k N(x; mu_k, S_k)) for every row and component
static Mat logjoint(const Mat& X, const Par& p) { long k = p.w.size(), f = X.cols(); Mat R(X.rows(), k); for (long j = 0; j < k; ++j) { const Mat& S = p.S.size() == 1 ? p.S[0] : p.S[(size_t)j]; Eigen::LDLT<Mat> L(S); double ld = 0; for (long i = 0; i < f; ++i) ld += std::log(L.vectorD()(i)); Mat D = X.rowwise() - p.mu.row(j); Mat Y = L.solve(D.transpose()); for (long i = 0; i < X.rows(); ++i) R(i, j) = std::log(p.w(j)) - 0.5 * (D.row(i).dot(Y.col(i)) + ld + (double)f * std::log(2 * M_PI)); } return R; }
static double mean_ll(const Mat& R) { double t = 0; for (long i = 0; i < R.rows(); ++i) { double m = R.row(i).maxCoeff(); t += m + std::log((R.row(i).array() - m).exp().sum()); } return t / (double)R.rows(); }
static Mat resp(const Mat& R) { Mat Q = R; for (long i = 0; i < R.rows(); ++i) { double m = R.row(i).maxCoeff(); Q.row(i) = (R.row(i).array() - m).exp(); Q.row(i) /= Q.row(i).sum(); } return Q; }
static Par mstep(const In& g, const Mat& Q) {
    Par p; long k = Q.cols(), f = g.X.cols(), n = g.X.rows(); p.mu = Mat::Zero(k, f); p.w.resize(k); std::vector<Mat> S; for (long j = 0; j < k; ++j) { double nk = Q.col(j).sum(); p.w(j) = nk / (double)n; p.mu.row(j) = (Q.col(j).transpose() * g.X) / nk; Mat D = g.X.rowwise() - p.mu.row(j); S.push_back((D.transpose() * Q.col(j).asDiagonal() * D).eval()); if (g.cov == "full") { S.back() /= nk; S.back() += g.reg * Mat::Identity(f, f); } }
    if (g.cov == "full") p.S = S; else { Mat T = Mat::Zero(f, f); for (auto& m : S) T += m; p.S = {(T / (double)n + g.reg * Mat::Identity(f, f)).eval()}; } return p;
}
// 1: converged, 0: reported as not converged
static bool fit(const In& g, size_t iters, size_t inits, double tol, std::unique_ptr<GM>& m) { m.reset(new GM(iters, inits, g.k, "random", g.cov, tol, g.reg)); Mat X0 = g.X; try { m->fit(g.X); } catch (const std::runtime_error&) { m.reset(); } REQ(exact(g.X, X0), "data modified"); return (bool)m; }
static void invariants(const In& g, GM& m, double scale) {
    Par p = get(m); long k = (long)g.k, f = g.X.cols(), n = g.X.rows(); shape("means", p.mu, k, f); REQ(p.w.size() == k, p.w.size(), " weights for ", k, " components"); REQ(p.S.size() == (g.cov == "full" ? g.k : 1), p.S.size(), " covariances"); near_("weights sum", p.w.sum(), 1, 1e-9); for (long j = 0; j < k; ++j) REQ(p.w(j) > 0, "weight ", j, " is ", p.w(j));
    Mat T = Mat::Zero(f, f), mean = Mat::Zero(1, f); for (long j = 0; j < k; ++j) { const Mat& S = p.S[g.cov == "full" ? (size_t)j : 0]; shape("covariance", S, f, f); nearm("covariance symmetry", S, S.transpose(), 1e-9 * scale); Eigen::SelfAdjointEigenSolver<Mat> e(0.5 * (S + S.transpose())); REQ(e.eigenvalues()(0) >= g.reg * 0.99 - 1e-10 * scale, "covariance eigenvalue ", e.eigenvalues()(0), " below the regularisation ", g.reg); T += p.w(j) * (S - g.reg * Mat::Identity(f, f) + p.mu.row(j).transpose() * p.mu.row(j)); mean += p.w(j) * p.mu.row(j); }
    nearm("mixture mean against the sample mean", mean, g.X.colwise().mean(), 1e-8 * scale); nearm("mixture second moment against the sample's", T, (g.X.transpose() * g.X / (double)n).eval(), 1e-8 * scale);
    auto P = m.get_precisions(); auto C = m.get_precisions_cholesky(); REQ(P.size() == p.S.size() && C.size() == p.S.size(), P.size(), " precisions and ", C.size(), " factors for ", p.S.size(), " covariances"); for (size_t j = 0; j < P.size(); ++j) { double cd = p.S[j].norm() / g.reg; nearm("covariance times precision", p.S[j] * P[j], Mat::Identity(f, f), 1e-12 * cd * cd + 1e-8); nearm("factor times its transpose", C[j] * C[j].transpose(), P[j], 1e-9 * (1 + P[j].norm())); }
}
static void predictions(Source& s, Ctx& c, const In& g, GM& m) {
    Mat Z = s.b() ? g.X : cont(s, s.sz(1, 6), (size_t)g.X.cols(), s.pick(std::vector<double>{3.0, 15.0, 200.0})), Z0 = Z; c.log("Z", Z); Vec y = m.predict(Z); Mat P = m.predict_prob(Z); REQ(exact(Z, Z0), "queries modified"); shape("probabilities", P, Z.rows(), (long)g.k); REQ(y.size() == Z.rows(), "wrong number of labels"); Mat R = logjoint(Z, get(m)), Q = resp(R); double tol = 1e-9 * (1 + maxabs(R)); for (long i = 0; i < Z.rows(); ++i) { for (long j = 0; j < P.cols(); ++j) near_("membership probability", P(i, j), Q(i, j), 1e-6 + tol); near_("probabilities sum", P.row(i).sum(), 1, 1e-9 + 1e-14 * maxabs(R)); long q = (long)y(i); REQ(q >= 0 && q < (long)g.k && (double)q == y(i), "label ", y(i)); REQ(R(i, q) >= R.row(i).maxCoeff() - tol, "row ", i, " is given component ", q, " although another one is more probable"); }
}
LAW(em, 3500) {               // later iterates are exact EM steps, with the documented stopping rule
    In g = gen(s, c); double tol = s.pick(std::vector<double>{1e-3, 1e-2, 1e-6, 1e-4, 1e-5}); size_t T = s.sz(2, 80); c.log("tol", tol); c.log("max_iter", T); std::unique_ptr<GM> a, b; double scale = 1 + g.X.squaredNorm();
    pbt::env_state = g.st; REQ(fit(g, 2, 1, 1e300, a), "a run with an unlimited tolerance does not converge"); invariants(g, *a, scale); Par p = get(*a); double lb = a->get_lower_bound(); pbt::env_state = g.st; bool c2 = fit(g, 2, 1, tol, b); bool conv = c2; size_t it = 2;
    if (!conv) for (; it < T && !conv; ++it) { Mat R = logjoint(g.X, p); double nl = mean_ll(R); Par q = mstep(g, resp(R)); double d = std::fabs(std::fabs(nl - lb) - tol); if (d < 1e-6 * (1 + std::fabs(nl))) pbt::discard(); conv = std::fabs(nl - lb) < tol; lb = nl; p = q; }
    pbt::env_state = g.st; bool ok = fit(g, T, 1, tol, b); c.label(conv ? it == 2 ? "converged at once" : it < 10 ? "converged early" : "converged late" : "not converged"); REQ(ok == conv, ok ? "reports convergence although the likelihood still changes" : "reports no convergence although the likelihood has settled after ", ok ? 0 : it, " iterations"); if (!ok) return; double t2 = g.reg <= 1e-5 ? 1e-3 : 1e-5; near_("lower bound", b->get_lower_bound(), lb, t2 * (1 + std::fabs(lb))); nearm("means", b->get_means(), p.mu, t2 * scale); nearm("weights", b->get_weights(), p.w, t2); for (size_t j = 0; j < p.S.size(); ++j) nearm("covariance", b->get_covariance()[j], p.S[j], t2 * scale); invariants(g, *b, scale); predictions(s, c, g, *b);
}
LAW(start, 2500) {            // the first bound reported is the likelihood of an admissible start, EM does not lower it
    In g = gen(s, c); double scale = 1 + g.X.squaredNorm(); std::unique_ptr<GM> a, b; pbt::env_state = g.st; REQ(fit(g, 2, 1, 1e300, a), "no convergence with unlimited tolerance"); double prev = a->get_lower_bound(), ll = mean_ll(logjoint(g.X, get(*a))); if (g.k == 1) { Par r = mstep(g, Mat::Ones(g.X.rows(), 1)); nearm("mean of one component", a->get_means(), r.mu, 1e-8 * scale); nearm("covariance of one component", a->get_covariance()[0], r.S[0], 1e-8 * scale); near_("bound of one component", prev, ll, 1e-6 * (1 + std::fabs(ll))); }
    for (size_t t = 3; t < 8; ++t) { pbt::env_state = g.st; (void)fit(g, t, 1, -1, b); REQ(!b, "a negative tolerance is reported as converged"); }
    // with an almost vanishing regularisation EM is monotone
    if (g.cov == "full" && g.reg > 1e-5) return; if (g.reg <= 1e-5) REQ(ll >= prev - 1e-3 * (1 + std::fabs(prev)), "the likelihood falls from ", prev, " to ", ll);
}
LAW(restarts, 1500) {         // several initialisations keep the best one
    In g = gen(s, c); size_t q = s.sz(2, 4); double tol = s.pick(std::vector<double>{1e-3, 1e-2, 0.1}); size_t T = s.sz(3, 60); c.log("num_init", q); c.log("tol", tol); c.log("max_iter", T); std::vector<std::unique_ptr<GM>> r(q); pbt::env_state = g.st; size_t conv = 0; for (auto& m : r) conv += fit(g, T, 1, tol, m); std::unique_ptr<GM> all; pbt::env_state = g.st; bool ok = fit(g, T, q, tol, all); c.label(conv == q ? "all converge" : conv ? "some converge" : "none converges");
    REQ(ok == (conv > 0), ok ? "reports convergence although no initialisation converges" : "reports no convergence although an initialisation converges"); if (!ok) return; long best = -1; for (size_t i = 0; i < q; ++i) if (r[i]) { REQ(all->get_lower_bound() >= r[i]->get_lower_bound() - 1e-9 * (1 + std::fabs(r[i]->get_lower_bound())), "bound ", all->get_lower_bound(), " although initialisation ", i, " alone reaches ", r[i]->get_lower_bound()); if (best < 0 || r[i]->get_lower_bound() > r[(size_t)best]->get_lower_bound()) best = (long)i; }
    invariants(g, *all, 1 + g.X.squaredNorm()); predictions(s, c, g, *all); if (conv < q) return; near_("bound of the best initialisation", all->get_lower_bound(), r[(size_t)best]->get_lower_bound(), 1e-9 * (1 + std::fabs(all->get_lower_bound()))); bool match = false; for (size_t i = 0; i < q; ++i) match |= std::fabs(r[i]->get_lower_bound() - all->get_lower_bound()) < 1e-9 * (1 + std::fabs(all->get_lower_bound())) && (r[i]->get_means() - all->get_means()).norm() < 1e-8 * (1 + all->get_means().norm()) && (r[i]->get_weights() - all->get_weights()).norm() < 1e-8 && (r[i]->get_covariance()[0] - all->get_covariance()[0]).norm() < 1e-8 * (1 + all->get_covariance()[0].norm()); REQ(match, "the parameters are not those of an initialisation reaching the reported bound");
}
LAW(defaults, 60) {           // default construction: three components, full covariance
    Mat X(45, 2); for (long i = 0; i < 45; ++i) { X(i, 0) = s.sym() + 8.0 * (double)(i % 3); X(i, 1) = s.sym() - 6.0 * (double)(i % 3 == 1); } c.log("X", X); c.nt(); GM m; try { m.fit(X); } catch (const std::runtime_error&) { pbt::discard(); } In g; g.X = X; g.k = 3; g.cov = "full"; g.reg = 1e-6; REQ(m.get_means().rows() == 3 && m.get_covariance().size() == 3, "default is not three full components"); invariants(g, m, 1 + X.squaredNorm()); predictions(s, c, g, m);
}
LAW(rejects, 1500) {
    In g = gen(s, c); int how = (int)s.draw(4); c.log("how", how); c.label(cat("how ", how)); c.nt(); if (how == 0) { GM m(10, 1, (size_t)g.X.rows() + s.sz(1, 3), "random", g.cov, 1e-3, g.reg); must_throw<std::out_of_range>("more components than samples", [&] { m.fit(g.X); }); } else if (how == 1) { GM m(10, 1, g.k, "random", s.pick(std::vector<std::string>{"diag", "", "Full", "spherical"}), 1e-3, g.reg); must_throw<std::invalid_argument>("unknown covariance type", [&] { m.fit(g.X); }); } else if (how == 2) { GM m(10, 1, g.k, s.pick(std::vector<std::string>{"kmeans", "", "Random"}), g.cov, 1e-3, g.reg); must_throw<std::invalid_argument>("unknown initialisation", [&] { m.fit(g.X); }); } else { GM m(s.sz(0, 1), s.sz(1, 3), g.k, "random", g.cov, 1e-3, g.reg); must_throw<std::runtime_error>("a single iteration cannot have converged", [&] { m.fit(g.X); }); }
}
#include "pbt_main.hpp"
