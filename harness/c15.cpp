// C15 line searches and L-BFGS
#include "common.hpp"
namespace O = openml::optimizer; namespace L = openml::loss;
static long evals = 0;
struct AnyLoss {
    int k = 0; double lam = 0; AnyLoss() {} AnyLoss(int kk, double l): k(kk), lam(l) {}
    double evaluate(const Mat& X, const Vec& y, const Vec& w) const { ++evals; return k == 0 ? L::MSE<double>(lam).evaluate(X, y, w) : L::LogLoss<double>(lam).evaluate(X, y, w); }
    Vec gradient(const Mat& X, const Vec& y, const Vec& w) const { if (k == 0) return L::MSE<double>(lam).gradient(X, y, w); return L::LogLoss<double>(lam).gradient(X, y, w); }
};
using LP = O::LineSearchParams<double>;
struct Pr { int k; double lam; Mat X; Vec y, x0; AnyLoss loss() const { return AnyLoss(k, lam); } };
static Pr prob(Source& s, Ctx& c) {
    Pr p; size_t n = s.dim(1, 14, 120), d = s.dim(1, 6, 20); p.k = (int)s.draw(2); p.lam = 0.3 + 3 * s.unit(); p.X = cont(s, n, d); p.y.resize((long)n); for (size_t i = 0; i < n; ++i) p.y((long)i) = p.k ? (double)s.draw(2) : s.sym() * 4; p.x0 = s.chance(40) ? Vec(Vec::Zero((long)d)) : Vec(cont(s, d, 1, 3)); c.log("loss", p.k ? "log" : "mse"); c.log("lambda", p.lam); c.log("X", p.X); c.log("y", p.y.transpose()); c.log("x0", p.x0.transpose()); c.label(p.k ? "log" : "mse"); c.nt(d > 1); return p;
}
static const std::vector<std::string> conds{"ARMIJO", "WOLFE", "STRONG_WOLFE"};
LAW(linesearch, 9000) {
    Pr p = prob(s, c); std::string cond = s.pick(conds); bool brk = s.b(); bool plain = s.b(); double ft = plain ? 1e-4 : 0.001 + 0.3 * s.unit(), wo = plain ? 0.9 : ft + (1 - ft) * (0.05 + 0.9 * s.unit()); size_t mx = s.b() ? 60 : s.sz(1, 8); double dec = plain ? 0.5 : 0.2 + 0.6 * s.unit(), inc = plain ? 2.1 : 1.2 + 2 * s.unit(), hi = s.chance(15) ? 0.5 + s.unit() : 1e20, lo = s.chance(15) ? 0.01 + 0.1 * s.unit() : 1e-20; double hi_ = hi, lo_ = lo; LP par(dec, inc, ft, wo, hi, lo, mx, cond); if (plain && hi > 1e19 && lo < 1e-19 && s.b()) par = LP(ft, wo, mx, cond), dec = 0.5, inc = 2.1;
    AnyLoss l = p.loss(); Vec g0 = l.gradient(p.X, p.y, p.x0), d = -g0; if (g0.norm() < 1e-3) pbt::discard(); int dir = (int)s.draw(4); if (dir >= 2) { d = cont(s, (size_t)d.size(), 1); if (dir == 2 && d.dot(g0) > 0) d = -d; } double dg0 = d.dot(g0); if (std::fabs(dg0) < 1e-3) pbt::discard();
    double step = s.chance(10) ? -s.unit() : std::pow(10.0, s.sym() * 2.5), step0 = step; double f0 = l.evaluate(p.X, p.y, p.x0), fx = f0; Vec x = p.x0, g = g0, d1 = d; c.log("d", d.transpose()); c.log("step", step); c.log("ftol", ft); c.log("wolfe", wo); c.log("condition", cond); c.log("policy", brk ? "bracketing" : "backtracking"); c.log("max", mx); c.label(cond); c.label(brk ? "bracketing" : "backtracking");
    evals = 0; int r; if (brk) { O::LineSearchBracketing<double, AnyLoss, LP> q(p.X, p.y, l, par); r = q.search(x, fx, g, d1, step, p.x0, g0); } else { O::LineSearchBacktracking<double, AnyLoss, LP> q(p.X, p.y, l, par); r = q.search(x, fx, g, d1, step, p.x0, g0); }
    nearm("direction", d1, d, 0); REQ(evals <= (long)mx, evals, " evaluations, the limit is ", mx);
    if (step0 <= 0) { REQ(r < 0, "a step of ", step0, " is accepted"); c.label("bad step"); return; } if (dg0 > 0) { REQ(r < 0, "an ascent direction is accepted"); c.label("ascent"); return; }
    c.label(r > 0 ? "found" : "not found"); if (r > 1) c.label("several trials");
    if (r > 0) { REQ(r <= (int)mx, "count ", r, " above the limit"); REQ(step > 0, "step is ", step); nearm("x = xp + step*d", x, Vec(p.x0 + step * d), 1e-12 * (1 + maxabs(p.x0) + step * maxabs(d))); same("returned value", fx, l.evaluate(p.X, p.y, x), 1e-12); nearm("returned gradient", g, l.gradient(p.X, p.y, x), 1e-12); double sl = 1e-10 * (1 + std::fabs(f0)); REQ(fx <= f0 + ft * step * dg0 + sl, "no sufficient decrease: ", fx, " from ", f0, " with step ", step); double dg = d.dot(g); if (cond != "ARMIJO") REQ(dg >= wo * dg0 - sl, "curvature condition violated: slope ", dg, " from ", dg0); if (cond == "STRONG_WOLFE") REQ(dg <= -wo * dg0 + sl, "strong curvature condition violated: slope ", dg, " from ", dg0); }
    else if (hi > 1e19 && lo < 1e-19 && mx == 60) { REQ(!(brk || cond == "ARMIJO"), "no step found along a descent direction of a convex function (", cond, ", ", brk ? "bracketing" : "backtracking", ")"); }
    // the whole sequence of trials
    { double t = step0, up = INFINITY, dn = 0; int n = 0, e = 0; bool unsure = false; for (;;) { Vec x1 = p.x0 + t * d; double f1 = l.evaluate(p.X, p.y, x1), dg = d.dot(l.gradient(p.X, p.y, x1)); ++n; auto below = [&](double u, double v) { if (std::fabs(u - v) <= 1e-9 * (1 + std::fabs(u) + std::fabs(f0))) unsure = true; return u < v; }; double w = 0; if (!std::isfinite(f1) || !std::isfinite(dg)) unsure = true; if (below(f0 + t * ft * dg0, f1)) w = dec; else if (cond == "ARMIJO") { e = n; break; } else if (below(dg, wo * dg0)) w = inc; else if (cond == "WOLFE") { e = n; break; } else if (below(-wo * dg0, dg)) w = dec; else { e = n; break; } if (t < lo_ || t > hi_ || n >= (int)mx) { e = -1; break; } if (std::fabs(t - lo_) < 1e-9 * t || std::fabs(t - hi_) < 1e-9 * t) unsure = true; if (!brk) t *= w; else { (w == inc ? dn : up) = t; t = std::isinf(up) ? 2 * t : (dn + up) / 2; } if (unsure) break; } if (!unsure) { c.label(e < 0 ? "model: fails" : "model: succeeds"); REQ((e > 0) == (r > 0), e > 0 ? "finds no step, trial " : "reports a step, although no trial up to ", n, e > 0 ? " satisfies the conditions" : " satisfies the conditions within the limits"); if (e > 0) { REQ(r == e, "reports ", r, " trials, the conditions are met at trial ", e); REQ(std::fabs(step - t) <= 1e-9 * t, "step ", step, ", the trials lead to ", t); } } }
    // the first trial is accepted when it already satisfies the conditions
    { Vec x1 = p.x0 + step0 * d; double f1 = l.evaluate(p.X, p.y, x1), dg1 = d.dot(l.gradient(p.X, p.y, x1)); bool ok = f1 < f0 + ft * step0 * dg0 - 1e-9; if (cond != "ARMIJO") ok = ok && dg1 > wo * dg0 + 1e-9; if (cond == "STRONG_WOLFE") ok = ok && dg1 < -wo * dg0 - 1e-9; if (ok) REQ(r == 1 && step == step0, "the proposed step satisfies the conditions but is not taken"); }
}
struct Run { Vec w; };
static Vec fit(const Pr& p, size_t it, size_t mem, size_t past, double tol, double delta, const std::string& pol, const LP& par, bool verbose = false) { O::LBFGS<double, AnyLoss, LP> o(p.x0, p.loss(), par, it, mem, past, tol, delta, pol, false, verbose); o.optimize(p.X, p.y); return o.get_coef(); }
static Vec optimum(const Pr& p) { double n = (double)p.X.rows(); long d = p.X.cols(); Vec w = Vec::Zero(d); for (int t = 0; t < 60; ++t) { Mat H = Mat::Identity(d, d) * (p.lam / n); Vec z = p.X * w; for (long i = 0; i < p.X.rows(); ++i) { double q = p.k ? 1 / (1 + std::exp(-z(i))) : 0; H += (p.k ? q * (1 - q) : 1.0) / n * p.X.row(i).transpose() * p.X.row(i); } Vec g = p.loss().gradient(p.X, p.y, w); Vec st = H.ldlt().solve(g); w -= st; if (st.norm() < 1e-13) break; } return w; }
LAW(optimal, 3000) {          // reaches the minimiser of a strongly convex objective
    Pr p = prob(s, c); std::string pol = s.b() ? "backtracking" : "bracketing", cond = s.pick(conds); size_t mem = s.dim(1, 10, 40, 40), past = s.dim(0, 4, 12, 60); LP par(1e-4, 0.9, 60, cond); double tol = s.b() ? 1e-5 : 1e-7; Vec w = fit(p, s.b() ? 0 : 500, mem, past, tol, 0.0, pol, par, s.chance(20)); c.log("policy", pol); c.log("condition", cond); c.log("mem", mem); c.log("past", past); c.log("tol", tol);
    Vec e = optimum(p); double lm = p.lam / (double)p.X.rows(); Vec g = p.loss().gradient(p.X, p.y, w); REQ(w.size() == p.x0.size(), "coefficient has ", w.size(), " entries"); REQ(g.norm() <= 10 * tol * std::max(1.0, w.norm()) + 1e-7, "gradient at the result has norm ", g.norm(), " for tolerance ", tol); REQ((w - e).norm() <= (10 * tol * std::max(1.0, w.norm()) + 1e-6) / lm, "distance to the minimiser is ", (w - e).norm());
    REQ(p.loss().evaluate(p.X, p.y, w) <= p.loss().evaluate(p.X, p.y, p.x0) + 1e-10, "the objective increased");
}
LAW(trajectory, 3000) {       // directions of the limited-memory BFGS matrix, monotone descent, stopping rules
    Pr p = prob(s, c); std::string pol = s.b() ? "backtracking" : "bracketing", cond = s.pick(std::vector<std::string>{"WOLFE", "STRONG_WOLFE"}); bool longer = s.chance(35); if (longer) { for (long j = 0; j < p.X.cols(); ++j) p.X.col(j) *= std::pow(10.0, s.sym()); c.log("scaled X", p.X); } size_t mem = longer ? s.sz(1, 14) : s.sz(1, 5), T = longer ? s.sz(8, 24) : s.sz(2, 9); LP par(1e-4, 0.9, 60, cond); AnyLoss l = p.loss(); c.log("policy", pol); c.log("condition", cond); c.log("mem", mem); c.log("T", T);
    std::vector<Vec> x{p.x0}, g{l.gradient(p.X, p.y, p.x0)}; std::vector<double> f{l.evaluate(p.X, p.y, p.x0)}; if (g[0].norm() < 1e-3) pbt::discard();
    for (size_t k = 1; k <= T; ++k) { Vec w = fit(p, k, mem, 0, 0.0, 0.0, pol, par); x.push_back(w); g.push_back(l.gradient(p.X, p.y, w)); f.push_back(l.evaluate(p.X, p.y, w)); REQ(f[k] <= f[k - 1] + 1e-12 * (1 + f[0]), "iteration ", k, " raises the objective from ", f[k - 1], " to ", f[k]); if (g[k].norm() < 1e-4) break; }
    size_t K = x.size() - 1; c.nt(K > 2); if (K > 10) c.label("over ten iterations"); if (K > mem + 1) c.label("memory wraps");
    for (size_t k = 0; k < K; ++k) {
        // dense L-BFGS matrix from the last mem pairs
        long d = p.x0.size(); Mat H = Mat::Identity(d, d); size_t a = k > mem ? k - mem : 0; bool ok = true; if (k > 0) { Vec sv = x[k] - x[k - 1], yv = g[k] - g[k - 1]; H *= sv.dot(yv) / yv.dot(yv); } for (size_t q = a; q < k; ++q) { Vec sv = x[q + 1] - x[q], yv = g[q + 1] - g[q]; double ys = sv.dot(yv); if (!(ys > 1e-10)) { ok = false; break; } Mat V = Mat::Identity(d, d) - yv * sv.transpose() / ys; H = (V.transpose() * H * V + sv * sv.transpose() / ys).eval(); } if (!ok) break;
        Vec dir = -H * g[k], st = x[k + 1] - x[k]; if (st.norm() < 1e-6) break; double cosv = st.dot(dir) / (st.norm() * dir.norm()); REQ(cosv > 1 - 1e-6, "step ", k + 1, " is not along the limited-memory BFGS direction (cosine ", cosv, ")"); REQ(f[k + 1] <= f[k] + 1e-4 * st.dot(g[k]) + 1e-10, "step ", k + 1, " has no sufficient decrease");
        if (k > 0) { Vec x1 = x[k] + dir; double f1 = l.evaluate(p.X, p.y, x1), dg = dir.dot(l.gradient(p.X, p.y, x1)), d0 = dir.dot(g[k]); if (f1 < f[k] + 1e-4 * d0 - 1e-8 && dg > 0.9 * d0 + 1e-8 && dg < -0.9 * d0 - 1e-8) REQ((st - dir).norm() <= 1e-5 * (1 + dir.norm()), "the unit step satisfies the conditions but is not taken"); }
    }
    // stopping rules, judged on the trajectory
    double tol = std::pow(10.0, -1 - 2 * s.unit()), delta = std::pow(10.0, -1 - 3 * s.unit()); size_t past = longer ? s.sz(0, 9) : s.sz(0, 4); bool byd = s.b(); if (byd) tol = 0; else delta = 0; size_t stop = K; bool unsure = false; auto crit = [&](size_t k) { return g[k].norm() / std::max(1.0, x[k].norm()); };
    for (size_t k = 0; k <= K; ++k) { if (!byd) { if (std::fabs(crit(k) - tol) < 1e-9) unsure = true; if (crit(k) <= tol) { stop = k; break; } } else if (k >= 1 && past > 0 && k >= past) { double r = std::fabs(f[k - past] - f[k]) / std::max(1.0, std::fabs(f[k])); if (std::fabs(r - delta) < 1e-12) unsure = true; if (r < delta) { stop = k; break; } } }
    c.log("tol", tol); c.log("delta", delta); c.log("past", past); if (!unsure) { c.label(byd ? "delta rule" : "gradient rule"); c.label(stop < K ? "stops early" : "runs to max_iter"); Vec w = fit(p, K, mem, past, tol, delta, pol, par); REQ((w - x[stop]).norm() <= 1e-8 * (1 + x[stop].norm()), "does not stop at iteration ", stop, " of ", K, " (", byd ? "objective" : "gradient", " rule)"); }
}
LAW(failing_search, 2000) {   // a search that fails ends the descent at the last point reached
    Pr p = prob(s, c); p.X *= s.pick(std::vector<double>{1, 3, 10}); std::string pol = s.b() ? "backtracking" : "bracketing", cond = s.pick(conds); double ft = 0.001 + 0.4 * s.unit(), wo = ft + (1 - ft) * (0.05 + 0.9 * s.unit()); size_t mx = s.sz(1, 4), mem = s.sz(1, 5), T = s.sz(2, 7); LP par(0.2 + 0.6 * s.unit(), 1.2 + 2 * s.unit(), ft, wo, s.chance(20) ? 0.5 : 1e20, s.chance(20) ? 0.1 : 1e-20, mx, cond); c.log("scaled X", p.X); c.log("policy", pol); c.log("condition", cond); c.log("ftol", ft); c.log("wolfe", wo); c.log("max", mx); AnyLoss l = p.loss(); Vec prev = p.x0; double f = l.evaluate(p.X, p.y, p.x0); bool ended = false;
    for (size_t k = 1; k <= T; ++k) { Vec w = fit(p, k, mem, 0, 1e-9, 0, pol, par); double f1 = l.evaluate(p.X, p.y, w); if (ended) { REQ(exact(w, prev), "the search had failed, a larger iteration limit moves the result"); continue; } if (exact(w, prev)) { ended = true; c.label("ends"); } Vec gp = l.gradient(p.X, p.y, prev), st = w - prev; REQ(f1 <= f + ft * st.dot(gp) + 1e-9 * (1 + std::fabs(f)), "iteration ", k, " accepts a step without sufficient decrease: ", f, " to ", f1); if (!ended && cond != "ARMIJO") REQ(st.dot(l.gradient(p.X, p.y, w)) >= wo * st.dot(gp) - 1e-9 * (1 + std::fabs(st.dot(gp))), "iteration ", k, " accepts a step violating the curvature condition"); prev = w; f = f1; }
}
LAW(start_optimal, 800) {     // an optimal start is returned as it is
    Pr p = prob(s, c); p.x0 = optimum(p); Vec w = fit(p, s.sz(0, 20), 4, s.sz(0, 3), 1e-5, s.b() ? 0 : 1e-6, s.b() ? "backtracking" : "bracketing", LP(1e-4, 0.9, 40, s.pick(conds))); REQ(w.size() == p.x0.size(), "coefficient has ", w.size(), " entries"); nearm("coefficient", w, p.x0, 1e-9);
}
LAW(bad_policy, 300) { Pr p = prob(s, c); c.nt(); std::string pol = s.pick(std::vector<std::string>{"", "Backtracking", "none", "wolfe"}); must_throw<std::invalid_argument>("unknown line search policy", [&] { fit(p, 5, 4, 3, 1e-5, 1e-6, pol, LP()); }); }
#include "pbt_main.hpp"
