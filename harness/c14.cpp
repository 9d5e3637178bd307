// C14 stochastic coordinate descent
#include "common.hpp"
namespace O = openml::optimizer; namespace L = openml::loss;
struct AnyLoss {
    int k = 0; double lam = 0; AnyLoss() {} AnyLoss(int kk, double l): k(kk), lam(l) {}
    double evaluate(const Mat& X, const Vec& y, const Vec& w) const { return k == 0 ? L::MSE<double>(lam).evaluate(X, y, w) : L::LogLoss<double>(lam).evaluate(X, y, w); }
    Vec gradient(const Mat& X, const Vec& y, const Vec& w) const { if (k == 0) return L::MSE<double>(lam).gradient(X, y, w); return L::LogLoss<double>(lam).gradient(X, y, w); }
};
struct Cfg { int loss; double ridge, l1, beta; Mat X; Vec y, x0; size_t iters; bool sh; };
static Cfg gen(Source& s, Ctx& c, double mul) {
    Cfg g; size_t n = s.dim(1, 14, 120), d = s.dim(1, 5, 20); g.loss = (int)s.draw(2); g.ridge = s.b() ? 0 : s.unit() * 2; g.l1 = s.chance(20) ? 0 : s.unit() * s.unit(); g.X = cont(s, n, d); g.y.resize((long)n); for (size_t i = 0; i < n; ++i) g.y((long)i) = g.loss ? (double)s.draw(2) : s.sym() * 3; g.x0 = s.b() ? Vec(Vec::Zero((long)d)) : Vec(cont(s, d, 1)); g.iters = s.dim(0, 30, 150, 20); g.sh = s.b();
    double cur = 0; for (long j = 0; j < (long)d; ++j) cur = std::max(cur, g.X.col(j).squaredNorm() / (double)n * (g.loss ? 0.25 : 1.0)); cur += g.ridge / (double)n; g.beta = cur * mul * (1 + s.unit()); g.beta = std::max(g.beta, 0.01);
    c.log("loss", g.loss ? "log" : "mse"); c.log("X", g.X); c.log("y", g.y.transpose()); c.log("x0", g.x0.transpose()); c.log("ridge", g.ridge); c.log("l1", g.l1); c.log("beta", g.beta); c.log("iters", g.iters); c.log("shuffle", g.sh); c.label(g.loss ? "log" : "mse"); c.nt(d > 1 && n > 1); return g;
}
static Vec run(const Cfg& g, size_t it, bool verbose = false) { O::SCD<double, AnyLoss> o(g.x0, AnyLoss(g.loss, g.ridge), it, g.beta, g.l1, g.sh, verbose); o.optimize(g.X, g.y); return o.get_coef(); }
static double obj(const Cfg& g, const Vec& w) { return AnyLoss(g.loss, g.ridge).evaluate(g.X, g.y, w) + g.l1 * w.cwiseAbs().sum(); }
// the minimiser of the quadratic model along one coordinate
static double eta(double w, double gr, double b, double l) { double u = w - gr / b, t = l / b; double z = u > t ? u - t : u < -t ? u + t : 0; return z - w; }
LAW(recursion, 9000) {        // greedy choice of the coordinate with the largest predicted decrease
    Cfg g = gen(s, c, s.b() ? 1.0 : 0.3 + s.unit()); Vec w = g.x0; AnyLoss l(g.loss, g.ridge); Mat X0 = g.X;
    for (size_t t = 0; t < g.iters; ++t) { Vec gr = l.gradient(g.X, g.y, w); double b1 = -1, b2 = -1, be = 0; long bj = 0; for (long j = 0; j < w.size(); ++j) { double e = eta(w(j), gr(j), g.beta, g.l1), p = -e * gr(j) - g.beta / 2 * e * e - g.l1 * std::fabs(w(j) + e) + g.l1 * std::fabs(w(j)); if (p > b1) { b2 = b1; b1 = p; bj = j; be = e; } else b2 = std::max(b2, p); }
        if (b1 - b2 < 1e-9 * (1 + b1) && b1 > 1e-12) { c.label("tie"); pbt::discard(); } if (b1 <= 1e-12) break; w(bj) += be; if (!(maxabs(w) < 1e4)) pbt::discard(); }
    Vec r = run(g, g.iters, s.chance(20)); REQ(exact(g.X, X0), "input modified"); nearm("coefficients", r, w, 1e-4 * (1 + maxabs(w)));
}
LAW(descent, 4000) {          // with a curvature bound, every iteration changes one coordinate and lowers the objective
    Cfg g = gen(s, c, 1.0); Vec p = run(g, 0); nearm("no iteration: start point", p, g.x0, 0); double f = obj(g, p); size_t T = s.sz(1, 12); c.nt(T > 1);
    for (size_t t = 1; t <= T; ++t) { Vec w = run(g, t); double h = obj(g, w); REQ(h <= f + 1e-10 * (1 + std::fabs(f)), "iteration ", t, " raises the objective from ", f, " to ", h); int ch = 0; for (long j = 0; j < w.size(); ++j) ch += std::fabs(w(j) - p(j)) > 1e-9; REQ(ch <= 1, "iteration ", t, " changes ", ch, " coordinates"); p = w; f = h; }
}
LAW(optimal, 250) {          // a long run satisfies the optimality conditions of loss + l1 * |w|_1
    Cfg g = gen(s, c, 1.0); if (g.X.rows() > 14 || g.X.cols() > 5) pbt::discard(); if (g.ridge == 0) g.ridge = 0.5; g.ridge += 0.5; double n = (double)g.X.rows(); double cur = 0; for (long j = 0; j < g.X.cols(); ++j) cur = std::max(cur, g.X.col(j).squaredNorm() / n); g.beta = cur + g.ridge / n; Vec w = run(g, 3000); Vec gr = AnyLoss(g.loss, g.ridge).gradient(g.X, g.y, w);
    for (long j = 0; j < w.size(); ++j) { if (w(j) > 1e-6) near_("stationarity of a positive weight", gr(j), -g.l1, 1e-4); else if (w(j) < -1e-6) near_("stationarity of a negative weight", gr(j), g.l1, 1e-4); else REQ(std::fabs(gr(j)) <= g.l1 + 1e-4, "a zero weight has gradient ", gr(j), " beyond the penalty ", g.l1); } c.label((w.array().abs() < 1e-9).any() ? "sparse" : "dense");
}
LAW(strong_penalty, 1500) {   // a penalty above every gradient keeps zero weights
    Cfg g = gen(s, c, 1.0); g.x0.setZero(); Vec gr = AnyLoss(g.loss, g.ridge).gradient(g.X, g.y, g.x0); g.l1 = gr.cwiseAbs().maxCoeff() * (1.001 + s.unit()); Vec w = run(g, s.sz(1, 40)); REQ(maxabs(w) == 0, "weights under a dominating penalty: ", w.transpose());
}
#include "pbt_main.hpp"
