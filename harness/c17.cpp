// C17 logistic regression, softmax regression and perceptron
#include "common.hpp"
#include "methods/linear_model/logistic_regression.hpp"
#include "methods/linear_model/softmax_regression.hpp"
#include "methods/linear_model/perceptron.hpp"
namespace LM = openml::linear_model;
using Log = LM::LogisticRegression<double>; using Soft = LM::SoftmaxRegression<double>; using Per = LM::Perceptron<double>;
static Mat aug(const Mat& X, bool ic) { Mat A(X.rows(), X.cols() + (ic ? 1 : 0)); A.leftCols(X.cols()) = X; if (ic) A.col(X.cols()).setOnes(); return A; }
// value and gradient of the three objectives, k: 0 log, 1 softmax, 2 perceptron (labels -1/1)
static double lossv(int k, double lam, const Mat& A, const Vec& y, const Mat& W) {
    double t = 0; Mat Z = A * W; long n = A.rows(); for (long i = 0; i < n; ++i) { if (k == 0) { double z = Z(i, 0); t += std::max(z, 0.0) - y(i) * z + std::log1p(std::exp(-std::fabs(z))); } else if (k == 1) { double m = Z.row(i).maxCoeff(); t += m + std::log((Z.row(i).array() - m).exp().sum()) - Z(i, (long)y(i)); } else t += std::max(0.0, -y(i) * Z(i, 0)); } return (k == 2 ? t : t / (double)n) + lam * W.squaredNorm() / (2.0 * (double)n);
}
static Mat lossg(int k, double lam, const Mat& A, const Vec& y, const Mat& W) {
    long n = A.rows(); Mat Z = A * W, D = Mat::Zero(n, W.cols()); for (long i = 0; i < n; ++i) { if (k == 0) D(i, 0) = (1 / (1 + std::exp(-Z(i, 0))) - y(i)) / (double)n; else if (k == 1) { double m = Z.row(i).maxCoeff(); Mat e = (Z.row(i).array() - m).exp(); e /= e.sum(); e(0, (long)y(i)) -= 1; D.row(i) = e / (double)n; } else D(i, 0) = y(i) * Z(i, 0) > 0 ? 0 : -y(i); } return A.transpose() * D + lam / (double)n * W;
}
struct In { int k; Mat X; Vec y; size_t K; bool ic; double alpha, lam, tol; size_t batch, iters, pat; unsigned seed; };
static In gen(Source& s, Ctx& c, int k) {
    In g; g.k = k; size_t n = s.dim(2, 16, 120, 40), d = s.dim(1, 4, 15); g.X = cont(s, n, d); g.K = k == 1 ? s.sz(2, n > 30 ? 12 : std::min<size_t>(n, 4)) : 1; g.ic = k == 2 ? s.b() : true; g.y.resize((long)n); if (k == 1) { for (size_t i = 0; i < n; ++i) g.y((long)i) = i < g.K ? (double)i : (double)s.draw(g.K); auto p = perm(s, n); Vec t = g.y; for (size_t i = 0; i < n; ++i) g.y((long)i) = t((long)p[i]); } else { Vec t = vec(s, d, UNIT); for (size_t i = 0; i < n; ++i) g.y((long)i) = s.chance(70) ? (double)(g.X.row((long)i).dot(t.transpose()) > 0) : (double)s.draw(2); if (s.chance(6)) { g.y.setConstant((double)s.draw(2)); c.label("one class"); } if (k == 2 && s.chance(30)) { g.y = (g.y.array() * 2 - 1).matrix(); c.label("labels -1, 1"); } }
    g.alpha = 0.01 + s.unit() * 0.5; g.lam = s.b() ? 0 : s.unit(); g.tol = s.pick(std::vector<double>{1e-4, 1e-3, 1e-2}); g.batch = s.chance(30) ? n : s.sz(1, n); g.iters = s.b() ? 200 : s.sz(1, 25); g.pat = s.sz(1, 5); g.seed = (unsigned)s.draw(10000);
    c.log("model", k == 0 ? "logistic" : k == 1 ? "softmax" : "perceptron"); c.log("X", g.X); c.log("y", g.y.transpose()); c.log("intercept", g.ic); c.log("alpha", g.alpha); c.log("lambda", g.lam); c.log("tol", g.tol); c.log("batch", g.batch); c.log("max_iter", g.iters); c.log("patience", g.pat); c.nt(n > 2); c.label(k == 0 ? "logistic" : k == 1 ? "softmax" : "perceptron"); return g;
}
static bool fit(const In& g, double alpha, const std::string& solver, bool shuffle, Mat& w) {
    std::srand(g.seed);
    try { if (g.k == 0) { Log m(alpha, g.lam, g.tol, g.batch, g.iters, g.pat, solver, g.lam == 0 ? "None" : "l2", shuffle, false); m.fit(g.X, g.y); w = m.get_coef(); } else if (g.k == 1) { Soft m(alpha, g.lam, g.tol, g.batch, g.iters, g.pat, "sgd", g.lam == 0 ? "None" : "l2", shuffle, false); m.fit(g.X, g.y); w = m.get_coef(); } else { Per m(alpha, g.lam, g.tol, g.batch, g.iters, g.pat, "l2", g.ic, shuffle, false); m.fit(g.X, g.y); w = m.get_coef(); } return true; } catch (const std::runtime_error&) { return false; }
}
// the start point, observed through a fit whose learning rate is zero
static Mat start(const In& g, const std::string& solver) { In h = g; h.iters = 50; h.lam = 0; Mat w; REQ(fit(h, 0.0, solver, false, w), "a fit with learning rate zero does not converge"); return w; }
LAW(training, 8000) {         // stochastic training follows mini-batch descent on the model's own loss
    In g = gen(s, c, (int)s.draw(3)); std::string solver = g.k == 0 && s.b() ? "sag" : "sgd"; bool full = s.chance(25); if (full) g.batch = (size_t)g.X.rows(); bool sh = full && g.k != 2 && s.b(); c.label(solver); c.log("solver", solver); c.log("shuffle", sh); Mat W = start(g, solver); Mat A = aug(g.X, g.ic); Vec y = g.y; if (g.k == 2) for (long i = 0; i < y.size(); ++i) y(i) = y(i) > 0 ? 1 : -1; REQ(W.rows() == A.cols() && W.cols() == (long)g.K, "coefficients are ", W.rows(), "x", W.cols(), ", expected ", A.cols(), "x", g.K); REQ(finite(W), "start point not finite");
    size_t nb = (size_t)A.rows() / g.batch, bad = 0; std::vector<Mat> hist(nb, Mat::Zero(W.rows(), W.cols())); Mat avg = Mat::Zero(W.rows(), W.cols()); double best = INFINITY; bool conv = false;
    for (size_t it = 0; it < g.iters && !conv; ++it) { double lr = g.alpha * std::pow(0.5, (double)(it / 10)), tot = 0; for (size_t j = 0; j < nb; ++j) { Mat B = A.middleRows((long)(j * g.batch), (long)g.batch); Vec yb = y.segment((long)(j * g.batch), (long)g.batch); if (g.k == 2 && ((B * W).array().abs() < 1e-8).any()) pbt::discard(); Mat G = lossg(g.k, g.lam, B, yb, W); if (solver == "sag") { avg += (G - hist[j]) / (double)nb; hist[j] = G; W -= lr * avg; } else W -= lr * G; tot += lossv(g.k, g.lam, B, yb, W); } double lim = best - g.tol * (double)g.batch; if (std::fabs(tot - lim) < 1e-8 * (1 + std::fabs(tot))) pbt::discard(); bad = tot > lim ? bad + 1 : 0; best = std::min(best, tot); conv = bad >= g.pat; if (!(maxabs(W) < 1e5)) pbt::discard(); }
    Mat w, X0 = g.X; Vec y0 = g.y; bool ok = fit(g, g.alpha, solver, sh, w); c.label(conv ? "converged" : "not converged"); REQ(exact(g.X, X0) && exact(g.y, y0), "input modified"); REQ(ok == conv, ok ? "reports convergence although the descent does not" : "reports no convergence although the descent does"); if (ok) nearm("coefficients", w, W, 1e-6 * (1 + maxabs(W)));
}
static void check_pred(Source& s, const In& g, const Mat& w, const Vec& p, const Mat& P, const Mat& Z) {
    Mat B = aug(Z, g.ic) * w; REQ(p.size() == Z.rows(), "prediction has ", p.size(), " entries for ", Z.rows(), " rows"); if (g.k != 2) shape("probabilities", P, Z.rows(), g.k == 0 ? 2 : (long)g.K);
    for (long i = 0; i < Z.rows(); ++i) { if (g.k != 1) { double z = B(i, 0); if (std::fabs(z) > 1e-12 * (1 + (Z.row(i).transpose().array() * w.col(0).head(Z.cols()).array()).abs().sum() + maxabs(w))) REQ(p(i) == (z > 0 ? 1.0 : 0.0), "row ", i, " on the ", z > 0 ? "positive" : "negative", " side (", z, ") is predicted ", p(i)); if (g.k == 0) { near_("probability of class 1", P(i, 1), z >= 0 ? 1 / (1 + std::exp(-z)) : std::exp(z) / (1 + std::exp(z)), 1e-9); near_("probability of class 0", P(i, 0), 1 - P(i, 1), 1e-12); } }
        else { double m = B.row(i).maxCoeff(); Mat e = (B.row(i).array() - m).exp(); e /= e.sum(); for (long j = 0; j < e.cols(); ++j) near_("class probability", P(i, j), e(0, j), 1e-9); near_("probabilities sum", P.row(i).sum(), 1, 1e-9); long q = (long)p(i); REQ(q >= 0 && q < e.cols() && p(i) == (double)q, "predicted class ", p(i)); REQ(B(i, q) >= m - 1e-11 * (1 + (Z.row(i).cwiseAbs() * w.topRows(Z.cols()).cwiseAbs()).maxCoeff() + maxabs(w)), "row ", i, " is predicted ", q, " although another class is more probable"); } }
}
// queries moved to within a hair of the boundary between the two most likely classes
static Mat close_calls(Source& s, const In& g, const Mat& w, Mat Z) {
    for (long i = 0; i < Z.rows(); ++i) { Mat b = aug(Mat(Z.row(i)), g.ic) * w; Vec n = w.col(0).head(Z.cols()); double v = b(0, 0); if (g.k == 1) { long p, q; b.row(0).maxCoeff(&p); b(0, p) = -INFINITY; b.row(0).maxCoeff(&q); b = aug(Mat(Z.row(i)), g.ic) * w; n = (w.col(p) - w.col(q)).head(Z.cols()); v = b(0, p) - b(0, q); } double e = (s.b() ? 1 : -1) * std::pow(10.0, -4 - 7 * s.unit()); if (n.squaredNorm() > 1e-6) Z.row(i) -= ((v - e) / n.squaredNorm() * n).transpose(); } return Z;
}
LAW(prediction, 8000) {       // predictions and probabilities follow the fitted coefficients
    In g = gen(s, c, (int)s.draw(3)); g.iters = 200; g.lam = 0; std::srand(g.seed); Mat Z = cont(s, s.sz(1, 6), (size_t)g.X.cols(), s.b() ? 3 : 60), Z0 = Z; int how = (int)s.draw(g.k == 0 ? 4 : 1); c.log("Z", Z);
    try { if (g.k == 0) { Log a(g.alpha, g.lam, g.tol, g.batch, g.iters, g.pat, how == 1 ? "sag" : "sgd", "None", s.b(), false), b(1e-4, 1e-4, 1e-6, 0.9, 100, 5, 3, 40, "lbfgs", "None", "backtracking", "WOLFE", false, false), d(0.01, 4.0, 200, "scd", "l1", false, false); Log& m = how == 2 ? b : how == 3 ? d : a; c.label(how == 2 ? "lbfgs" : how == 3 ? "scd" : "sgd/sag"); m.fit(g.X, g.y); check_pred(s, g, m.get_coef(), m.predict(Z), m.predict_prob(Z), Z); { Mat q = close_calls(s, g, m.get_coef(), Z); check_pred(s, g, m.get_coef(), m.predict(q), m.predict_prob(q), q); } check_pred(s, g, m.get_coef(), m.predict(g.X), m.predict_prob(g.X), g.X); }
    else if (g.k == 1) { Soft m(g.alpha, g.lam, g.tol, g.batch, g.iters, g.pat, "sgd", "None", s.b(), false); m.fit(g.X, g.y); check_pred(s, g, m.get_coef(), m.predict(Z), m.predict_prob(Z), Z); { Mat q = close_calls(s, g, m.get_coef(), Z); check_pred(s, g, m.get_coef(), m.predict(q), m.predict_prob(q), q); } check_pred(s, g, m.get_coef(), m.predict(g.X), m.predict_prob(g.X), g.X); }
    else { Per m(g.alpha, g.lam, g.tol, g.batch, g.iters, g.pat, "l2", g.ic, s.b(), false); m.fit(g.X, g.y); Mat no; check_pred(s, g, m.get_coef(), m.predict(Z), no, Z); { Mat q = close_calls(s, g, m.get_coef(), Z); check_pred(s, g, m.get_coef(), m.predict(q), no, q); } check_pred(s, g, m.get_coef(), m.predict(g.X), no, g.X); } }
    catch (const std::runtime_error&) { c.label("not converged"); pbt::discard(); }
    REQ(exact(Z, Z0), "predict modifies its input");
}
LAW(lbfgs_optimal, 3000) {    // L-BFGS ends at a stationary point of the logistic loss
    In g = gen(s, c, 0); double tol = s.b() ? 1e-4 : 1e-6; std::string pol = s.b() ? "backtracking" : "bracketing", cond = s.pick(std::vector<std::string>{"WOLFE", "STRONG_WOLFE", "ARMIJO"}); std::srand(g.seed); Log m(tol, 1e-4, 0.0, 0.9, 400, s.sz(3, 8), s.sz(0, 3), 60, "lbfgs", s.b() ? "None" : "l2", pol, cond, s.b(), false); m.fit(g.X, g.y); Mat w = m.get_coef(), A = aug(g.X, true); c.log("policy", pol); c.log("condition", cond); REQ(w.rows() == A.cols() && w.cols() == 1, "coefficient has ", w.size(), " entries"); double gn = lossg(0, 0, A, g.y, w).norm(); REQ(gn <= 3 * tol * std::max(1.0, w.norm()) + 1e-7, "gradient norm ", gn, " after L-BFGS with tolerance ", tol); Mat z = Mat::Zero(w.rows(), 1); REQ(lossv(0, 0, A, g.y, w) <= lossv(0, 0, A, g.y, z) + 1e-6 + 3 * tol, "worse than zero coefficients");
}
LAW(scd_optimal, 400) {       // coordinate descent: stationarity with the penalties of the l1 model
    In g = gen(s, c, 0); Mat A = aug(g.X, true); double n = (double)A.rows(), lam = 0.05 + s.unit() * 0.3, cur = 0; for (long j = 0; j < A.cols(); ++j) cur = std::max(cur, A.col(j).squaredNorm() / n / 4); cur += lam / n; std::srand(g.seed); Log m(lam, cur, 2500, "scd", "l1", s.b(), false); m.fit(g.X, g.y); Mat w = m.get_coef(), gr = lossg(0, lam, A, g.y, w); c.log("lambda", lam); for (long j = 0; j < w.size(); ++j) { if (w(j) > 1e-5) near_("stationarity of a positive weight", gr(j), -lam, 2e-3); else if (w(j) < -1e-5) near_("stationarity of a negative weight", gr(j), lam, 2e-3); else REQ(std::fabs(gr(j)) <= lam + 2e-3, "a zero weight has gradient ", gr(j)); } c.label((w.array().abs() < 1e-9).any() ? "sparse" : "dense");
}
LAW(options, 4000) {          // every option of the l-bfgs and coordinate descent models reaches the optimiser
    In g = gen(s, c, 0); Mat A = aug(g.X, true); bool lb = s.chance(60); namespace O = openml::optimizer; using Ls = openml::loss::LogLoss<double>; size_t iters = s.sz(1, 12), mem = s.sz(1, 7), past = s.sz(0, 4), ml = s.sz(2, 40); double tol = std::pow(10.0, -2 - 6 * s.unit()), ftol = s.pick(std::vector<double>{1e-4, 1e-2, 0.3}), wolfe = s.pick(std::vector<double>{0.9, 0.6, 0.35, 0.31}), delta = s.pick(std::vector<double>{0, 1e-6, 1e-3, 0.05}); std::string pol = s.b() ? "backtracking" : "bracketing", cond = s.pick(std::vector<std::string>{"WOLFE", "STRONG_WOLFE", "ARMIJO"}); double lam = s.b() ? 0.02 : s.unit() * 0.5, cur = 0.3 + 4 * s.unit(); c.log("solver", lb ? "lbfgs" : "scd"); c.label(lb ? "lbfgs" : "scd");
    std::ostringstream mute; auto* old = std::cout.rdbuf(mute.rdbuf()); struct Back { std::streambuf* b; ~Back() { std::cout.rdbuf(b); } } back{old}; Mat w, st, e;
    if (lb) { c.log("options", cat(tol, " ", ftol, " ", delta, " ", wolfe, " ", iters, " ", mem, " ", past, " ", ml, " ", pol, " ", cond)); std::srand(g.seed); Log z(1e12, ftol, delta, wolfe, iters, mem, past, ml, "lbfgs", "None", pol, cond, false, false); z.fit(g.X, g.y); st = z.get_coef(); REQ(st.rows() == A.cols() && st.cols() == 1, "coefficient has ", st.size(), " entries"); std::srand(g.seed); Log m(tol, ftol, delta, wolfe, iters, mem, past, ml, "lbfgs", s.b() ? "None" : "l2", pol, cond, s.b(), s.b()); m.fit(g.X, g.y); w = m.get_coef(); O::LBFGS<double, Ls, O::LineSearchParams<double>> o(Vec(st), Ls(0.0), O::LineSearchParams<double>(ftol, wolfe, ml, cond), iters, mem, past, tol, delta, pol, false, false); o.optimize(A, g.y); e = o.get_coef(); }
    else { c.log("options", cat(lam, " ", cur, " ", iters)); std::srand(g.seed); Log z(0.0, 1e200, 1, "scd", "l1", false, false); z.fit(g.X, g.y); st = z.get_coef(); std::srand(g.seed); Log m(lam, cur, iters, "scd", "l1", false, s.b()); m.fit(g.X, g.y); w = m.get_coef(); O::SCD<double, Ls> o(Vec(st), Ls(lam), iters, cur, lam, false, false); o.optimize(A, g.y); e = o.get_coef(); }
    nearm("coefficients of the model and of its optimiser with the same options", w, e, 1e-9 * (1 + maxabs(e))); c.label(maxabs(Mat(w - st)) > 0 ? "moved" : "unmoved");
}
LAW(separable, 1200) {        // well separated classes are learned
    int k = (int)s.draw(2); size_t d = s.sz(1, 3), K = k ? s.sz(2, 3) : 2, per = s.sz(3, 8), n = K * per; if (k && d == 1) d = 2; Mat C = Mat::Zero((long)K, (long)d); if (k == 0) { C(0, 0) = -2; C(1, 0) = 2; if (s.b()) C *= -1; } else for (size_t q = 0; q < K; ++q) { C((long)q, 0) = 3 * std::cos(2 * M_PI * (double)q / (double)K); C((long)q, 1) = 3 * std::sin(2 * M_PI * (double)q / (double)K); } Mat X((long)n, (long)d); Vec y((long)n); for (size_t i = 0; i < n; ++i) { X.row((long)i) = C.row((long)(i % K)); for (size_t j = 0; j < d; ++j) X((long)i, (long)j) += s.sym() * 0.7; y((long)i) = (double)(i % K); } c.log("X", X); c.log("y", y.transpose()); c.nt(); c.label(k ? "softmax" : "logistic"); std::srand((unsigned)s.draw(1000));
    if (k == 0) { Log m(1e-4, 1e-4, 0.0, 0.9, 200, 5, 0, 60, "lbfgs", "None", "backtracking", "WOLFE", false, false); m.fit(X, y); REQ(exact(Vec(m.predict(X)), y), "separable classes are not separated"); } else { try { Soft m(0.2, 0.0, 1e-4, std::min<size_t>(n, 4), 2000, 3, "sgd", "None", true, false); m.fit(X, y); long hit = (m.predict(X).array() == y.array()).count(); REQ(hit == (long)n, "softmax regression gets ", hit, " of ", n, " well separated samples"); } catch (const std::runtime_error&) { c.label("not converged"); } }
}
LAW(rejects, 2500) {
    In g = gen(s, c, 0); int k = (int)s.draw(4); c.nt(); c.label(cat("kind ", k)); Mat w; std::string bad = s.pick(std::vector<std::string>{"", "SGD", "newton", "none", "L2"});
    if (k == 0) { Log m(0.1, 0.1, 1e-3, 1, 10, 2, s.b() ? "scd" : bad, s.b() ? "l2" : "None", false, false); must_throw<std::invalid_argument>("solver that does not support the penalty", [&] { m.fit(g.X, g.y); }); } else if (k == 1) { Log m(0.1, 1.0, 10, s.pick(std::vector<std::string>{"sgd", "sag", "lbfgs", bad}), "l1", false, false); must_throw<std::invalid_argument>("solver that does not support l1", [&] { m.fit(g.X, g.y); }); } else if (k == 2) { Log m(0.1, 0.1, 1e-3, 1, 10, 2, "sgd", s.pick(std::vector<std::string>{"", "none", "L2", "elastic"}), false, false); must_throw<std::invalid_argument>("unknown penalty", [&] { m.fit(g.X, g.y); }); }
    else { g.k = (int)s.draw(3); g.K = 2; g.batch = (size_t)g.X.rows() + s.sz(1, 9); must_throw<std::invalid_argument>("batch larger than the data", [&] { fit(g, 0.1, "sgd", false, w); }); }
}
#include "pbt_main.hpp"
