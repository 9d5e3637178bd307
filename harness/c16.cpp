// C16 linear, ridge and lasso regression
#include "common.hpp"
#include "methods/linear_model/linear_regression.hpp"
#include "methods/linear_model/ridge_regression.hpp"
#include "methods/linear_model/lasso_regression.hpp"
#include <eigen3/Eigen/Eigenvalues>
namespace LM = openml::linear_model;
static Mat aug(const Mat& X, bool ic) { Mat A(X.rows(), X.cols() + (ic ? 1 : 0)); A.leftCols(X.cols()) = X; if (ic) A.col(X.cols()).setOnes(); return A; }
struct In { Mat X; Vec y; bool ic; };
static In gen(Source& s, Ctx& c, bool fullrank) {
    In g; g.ic = s.b(); size_t d = s.dim(1, 6, 20), n = fullrank ? d + 1 + s.dim(0, 14, 200) : s.dim(1, 14, 200); int k = (int)s.draw(3); g.X = k == 0 ? mat(s, n, d, INT, false) : cont(s, n, d); if (k == 2) for (long j = 0; j < (long)d; ++j) { g.X.col(j) *= std::pow(10.0, s.sym()); g.X.col(j).array() += s.sym() * 3; } g.y = s.b() ? vec(s, n, UNIT) : vec(s, n, INT); if (s.chance(20)) g.y.array() += 50;
    c.log("X", g.X); c.log("y", g.y.transpose()); c.log("intercept", g.ic); c.nt(d > 1 && n > d + 1); c.label(g.ic ? "intercept" : "no intercept"); return g;
}
static void conditioned(const Mat& A) { Eigen::SelfAdjointEigenSolver<Mat> e(Mat(A.transpose() * A)); double lo = e.eigenvalues()(0), hi = e.eigenvalues()(A.cols() - 1); if (!(lo > 1e-5 * hi) || lo < 1e-6) pbt::discard(); }
template <class Mdl> static void predicts(Source& s, const Mdl& m, const In& g, const Vec& w) {
    Mat Z = cont(s, s.sz(1, 6), (size_t)g.X.cols(), 5); Mat Z0 = Z; Vec p = m.predict(Z); REQ(exact(Z, Z0), "predict modifies its input"); REQ(p.size() == Z.rows(), "prediction has ", p.size(), " entries for ", Z.rows(), " rows"); nearm("prediction", p, Vec(aug(Z, g.ic) * w), 1e-9 * (1 + maxabs(w) * 30)); nearm("prediction of the training data", m.predict(g.X), Vec(aug(g.X, g.ic) * w), 1e-9 * (1 + maxabs(w) * (1 + maxabs(g.X)) * 6));
}
static double scale(const Mat& A, const Vec& y) { return 1 + A.norm() * (1 + y.norm()); }
LAW(least_squares, 12000) {
    In g = gen(s, c, true); Mat A = aug(g.X, g.ic); if (A.rows() < A.cols()) pbt::discard(); conditioned(A); Mat X0 = g.X; Vec y0 = g.y; LM::LinearRegression<double> d0, m1(g.ic); bool def = g.ic && s.b(); auto& m = def ? d0 : m1; m.fit(g.X, g.y); Vec w = m.get_coef(); REQ(exact(g.X, X0) && exact(g.y, y0), "input modified"); REQ(w.size() == A.cols(), "coefficient has ", w.size(), " entries, expected ", A.cols());
    nearm("normal equations", Vec(A.transpose() * (A * w - g.y)), Vec(Vec::Zero(A.cols())), 1e-7 * scale(A, g.y)); predicts(s, m, g, w); if (g.ic) near_("sum of the residuals", (g.y - m.predict(g.X)).sum(), 0, 1e-6 * scale(A, g.y));
}
LAW(exact_fit, 6000) {        // noise-free data give the generating coefficients back
    In g = gen(s, c, true); Mat A = aug(g.X, g.ic); if (A.rows() < A.cols()) pbt::discard(); conditioned(A); Vec t = vec(s, (size_t)A.cols(), INT); g.y = A * t; LM::LinearRegression<double> m(g.ic); m.fit(g.X, g.y); nearm("coefficients", Vec(m.get_coef()), t, 1e-5); c.log("true", t.transpose());
}
LAW(units, 5000) {            // measurements in very small or large units
    In g = gen(s, c, true); Mat A0 = aug(g.X, g.ic); if (A0.rows() < A0.cols()) pbt::discard(); conditioned(A0); int e = g.ic ? (int)s.i(-12, 12) : (int)s.i(-40, 40), f = (int)s.i(-20, 20); g.X *= std::ldexp(1.0, e); g.y *= std::ldexp(1.0, f); c.log("exponents", cat(e, " ", f)); c.label(e < -6 ? "small" : e > 6 ? "large" : "about one"); Mat A = aug(g.X, g.ic); LM::LinearRegression<double> m(g.ic); m.fit(g.X, g.y); Vec w = m.get_coef(); REQ(w.size() == A.cols(), "coefficient has ", w.size(), " entries"); Vec r = A * w - g.y, q = A.transpose() * r; for (long j = 0; j < A.cols(); ++j) near_("normal equation, relative to its terms", q(j) / (A.col(j).norm() * g.y.norm() + 1e-300), 0, 1e-7);
}
LAW(ridge, 12000) {
    In g = gen(s, c, false); Mat A = aug(g.X, g.ic); double lam = s.b() ? 0.01 + s.unit() : 10 * s.unit() + 0.01; LM::RidgeRegression<double> d0, m1(lam, g.ic); bool def = g.ic && s.chance(30); if (def) lam = 0.5; auto& m = def ? d0 : m1; c.log("lambda", lam); c.label(def ? "default" : "explicit"); m.fit(g.X, g.y); Vec w = m.get_coef(); REQ(w.size() == A.cols(), "coefficient has ", w.size(), " entries"); nearm("regularised normal equations", Vec(A.transpose() * (A * w - g.y) + lam * w), Vec(Vec::Zero(A.cols())), 1e-7 * scale(A, g.y)); predicts(s, m, g, w);
    double l2 = lam * (1.5 + s.unit()); LM::RidgeRegression<double> h(l2, g.ic); h.fit(g.X, g.y); REQ(h.get_coef().norm() <= w.norm() * (1 + 1e-7) + 1e-9, "a larger penalty gives larger coefficients");
}
LAW(ridge_limit, 3000) {      // no penalty: least squares; huge penalty: zero
    In g = gen(s, c, true); Mat A = aug(g.X, g.ic); if (A.rows() < A.cols()) pbt::discard(); conditioned(A); LM::RidgeRegression<double> r(0.0, g.ic), z(1e12, g.ic); LM::LinearRegression<double> l(g.ic); r.fit(g.X, g.y); l.fit(g.X, g.y); z.fit(g.X, g.y); nearm("ridge without penalty against least squares", r.get_coef(), l.get_coef(), 1e-6 * (1 + maxabs(l.get_coef()))); nearm("ridge with a dominating penalty", z.get_coef(), Mat(Mat::Zero(A.cols(), 1)), 1e-4);
}
static double soft(double w, double gr, double b, double l) { double u = w - gr / b, t = l / b; return u > t ? u - t : u < -t ? u + t : 0; }
LAW(lasso, 700) {             // optimality of mean squared error / 2 + lambda * |w|_1
    In g = gen(s, c, true); g.X = cont(s, (size_t)g.X.rows(), (size_t)g.X.cols(), 1.5); Mat A = aug(g.X, g.ic); if (A.rows() < A.cols()) pbt::discard(); conditioned(A); double n = (double)A.rows(); { Eigen::SelfAdjointEigenSolver<Mat> e(Mat(A.transpose() * A) / n); if (e.eigenvalues()(0) < 0.03) pbt::discard(); } double cur = 0; for (long j = 0; j < A.cols(); ++j) cur = std::max(cur, A.col(j).squaredNorm() / n); double lam = s.chance(30) ? 0.001 : s.unit() * 2; bool sh = s.b(); LM::LassoRegression<double> m(2500, lam, cur, sh, s.chance(10), g.ic); c.log("lambda", lam); m.fit(g.X, g.y); Vec w = m.get_coef(); REQ(w.size() == A.cols(), "coefficient has ", w.size(), " entries"); Vec gr = A.transpose() * (A * w - g.y) / n; double tol = 1e-3 * (1 + maxabs(g.y));
    for (long j = 0; j < w.size(); ++j) { if (w(j) > 1e-6) near_("stationarity of a positive weight", gr(j), -lam, tol); else if (w(j) < -1e-6) near_("stationarity of a negative weight", gr(j), lam, tol); else REQ(std::fabs(gr(j)) <= lam + tol, "a zero weight has gradient ", gr(j), " beyond the penalty ", lam); } predicts(s, m, g, w); c.label((w.array() == 0).any() ? "sparse" : "dense");
}
LAW(lasso_iterations, 5000) { // bounded runs follow greedy coordinate descent from zero
    In g = gen(s, c, false); Mat A = aug(g.X, g.ic); double n = (double)A.rows(), cur = 0; for (long j = 0; j < A.cols(); ++j) cur = std::max(cur, A.col(j).squaredNorm() / n); if (cur < 0.01) pbt::discard(); double lam = s.unit() * 0.5, b = cur * (1 + s.unit()); size_t T = s.dim(0, 15, 80); c.log("lambda", lam); c.log("beta", b); c.log("iters", T); Vec w = Vec::Zero(A.cols());
    for (size_t t = 0; t < T; ++t) { Vec gr = A.transpose() * (A * w - g.y) / n; double b1 = -1, b2 = -1, nv = 0; long bj = 0; for (long j = 0; j < w.size(); ++j) { double z = soft(w(j), gr(j), b, lam), e = z - w(j), p = -e * gr(j) - b / 2 * e * e - lam * std::fabs(z) + lam * std::fabs(w(j)); if (p > b1) { b2 = b1; b1 = p; bj = j; nv = z; } else b2 = std::max(b2, p); } if (b1 <= 1e-12) break; if (b1 - b2 < 1e-9 * (1 + b1)) pbt::discard(); w(bj) = nv; }
    LM::LassoRegression<double> m(T, lam, b, s.b(), false, g.ic); m.fit(g.X, g.y); nearm("coefficients", Vec(m.get_coef()), w, 1e-4 * (1 + maxabs(w)));
}
LAW(lasso_default, 25) {      // default construction fits with an intercept and a mild penalty
    size_t d = s.sz(1, 3), n = 12 + s.sz(0, 8); In g; g.ic = true; g.X = cont(s, n, d, 1.0); Mat A = aug(g.X, true); { Eigen::SelfAdjointEigenSolver<Mat> e(Mat(A.transpose() * A) / (double)n); if (e.eigenvalues()(0) < 0.05) pbt::discard(); } g.y = vec(s, n, UNIT); c.log("X", g.X); c.log("y", g.y.transpose()); c.nt(); LM::LassoRegression<double> m; m.fit(g.X, g.y); Vec w = m.get_coef(), gr = A.transpose() * (A * w - g.y) / (double)n; REQ(w.size() == A.cols(), "coefficient has ", w.size(), " entries"); for (long j = 0; j < w.size(); ++j) REQ(std::fabs(gr(j)) <= 0.001 + 1e-3, "gradient ", gr(j), " after a default lasso fit");
}
#include "pbt_main.hpp"
