// C13 stochastic gradient optimisers follow their recursion and stopping rule
#include "common.hpp"
#include "core/loss/huber_loss.hpp"
#include "core/optimizer/sgd/update_policies/nesterov_momentum_update.hpp"
namespace O = openml::optimizer; namespace L = openml::loss;

// a policy chosen at run time, so that one instantiation covers all of them
struct AnyUpdate {
    int k = 0; O::VanillaUpdate<double> v; O::MomentumUpdate<double> m{0.0}; O::NesterovMomentumUpdate<double> n{0.0};
    AnyUpdate() {} AnyUpdate(int kk, double mu): k(kk), m(mu), n(mu) {}
    Mat update(const Mat& W, const Mat& g, double lr) const { return k == 0 ? v.update(W, g, lr) : k == 1 ? m.update(W, g, lr) : n.update(W, g, lr); }
};
struct AnyDecay {
    int k = 0; O::StepDecay<double> s; O::ExponentialDecay<double> e;
    AnyDecay() {} AnyDecay(int kk, double base, double ga, size_t step): k(kk), s(base, ga, step), e(base, ga) {}
    double compute(size_t ep) { return k == 0 ? s.compute(ep) : e.compute(ep); }
};
static std::vector<std::pair<Mat, Vec>> seen;    // gradient calls
struct AnyLoss {
    int k = 0; double lam = 0; bool rec = false;
    AnyLoss() {} AnyLoss(int kk, double l, bool r = false): k(kk), lam(l), rec(r) {}
    double evaluate(const Mat& X, const Vec& y, const Mat& W) const { Vec w = W.col(0); return k == 0 ? L::MSE<double>(lam).evaluate(X, y, w) : k == 1 ? L::LogLoss<double>(lam).evaluate(X, y, w) : k == 2 ? L::HingeLoss<double>(lam, 1.0).evaluate(X, y, w) : L::SoftmaxLoss<double>(lam).evaluate(X, y, W); }
    Mat gradient(const Mat& X, const Vec& y, const Mat& W) const { if (rec) seen.push_back({X, y}); Vec w = W.col(0); if (k == 0) return L::MSE<double>(lam).gradient(X, y, w); if (k == 1) return L::LogLoss<double>(lam).gradient(X, y, w); if (k == 2) return L::HingeLoss<double>(lam, 1.0).gradient(X, y, w); return L::SoftmaxLoss<double>(lam).gradient(X, y, W); }
};
struct Cfg { int alg, loss, upd, dec; size_t n, d, K, batch, iters, patience, step; double lam, mu, base, gamma, tol, alpha, l1; Mat X, x0; Vec y; };
static Cfg gen(Source& s, Ctx& c) {
    Cfg g; g.alg = (int)s.draw(3); g.loss = (int)s.draw(g.alg == 0 ? 4 : 3); g.upd = (int)s.draw(3); g.dec = (int)s.draw(2); g.n = s.dim(1, 16, 150); g.d = s.dim(1, 4, 20); g.K = g.loss == 3 ? s.sz(2, 4) : 1; if (g.n < g.K) g.n = g.K;
    g.batch = s.chance(25) ? g.n : s.sz(1, g.n); g.iters = s.b() ? s.sz(1, 12) : s.sz(20, 120); g.patience = s.dim(1, 5, 15, 30); g.step = s.dim(1, 6, 30, 30); g.lam = s.chance(50) ? 0 : s.unit(); g.mu = s.unit() * 0.9; g.base = 0.005 + 0.25 * s.unit() * s.unit(); g.gamma = g.dec == 0 ? 0.3 + 0.7 * s.unit() : 0.3 * s.unit(); g.tol = s.pick(std::vector<double>{1e-3, 1e-2, 1e-4, 0.05, 0.0}); g.alpha = s.unit() * 0.5; g.l1 = s.unit();
    g.X = cont(s, g.n, g.d); g.x0 = s.b() ? Mat(Mat::Zero((long)g.d, (long)g.K)) : cont(s, g.d, g.K, 1.0); g.y.resize((long)g.n); for (size_t i = 0; i < g.n; ++i) g.y((long)i) = g.loss == 0 ? s.sym() * 3 : g.loss == 1 ? (double)s.draw(2) : g.loss == 2 ? (s.b() ? 1.0 : -1.0) : (i < g.K ? (double)i : (double)s.draw(g.K));
    static const char* an[] = {"sgd", "sag", "truncated gradient"}; static const char* un[] = {"vanilla", "momentum", "nesterov"}; c.label(an[g.alg]); c.label(un[g.upd]); c.log("algorithm", an[g.alg]); c.log("loss", g.loss); c.log("update", un[g.upd]); c.log("decay", g.dec ? "exp" : "step"); c.log("X", g.X); c.log("y", g.y.transpose()); c.log("x0", g.x0); c.log("batch", g.batch); c.log("max_iter", g.iters); c.log("patience", g.patience); c.log("step", g.step); c.log("lambda", g.lam); c.log("mu", g.mu); c.log("base", g.base); c.log("gamma", g.gamma); c.log("tol", g.tol); c.log("alpha", g.alpha); c.log("l1_ratio", g.l1);
    return g;
}
struct Res { bool conv = false, unsure = false; Mat w; size_t epochs = 0; };
// the documented recursion
static Res model(const Cfg& g) {
    Res r; AnyLoss loss(g.loss, g.lam); Mat W = g.x0, V = Mat::Zero(W.rows(), W.cols()); size_t nb = g.n / g.batch; std::vector<Mat> hist(nb, Mat::Zero(W.rows(), W.cols())); Mat avg = Mat::Zero(W.rows(), W.cols()); double best = INFINITY, u = 0; Mat q = Mat::Zero(W.rows(), W.cols()); size_t bad = 0;
    for (size_t it = 0; it < g.iters; ++it) {
        double lr = g.dec == 0 ? g.base * std::pow(g.gamma, (double)(it / g.step)) : g.base * std::exp(-g.gamma * (double)it), tot = 0;
        for (size_t j = 0; j < nb; ++j) {
            Mat X = g.X.middleRows((long)(j * g.batch), (long)g.batch); Vec y = g.y.segment((long)(j * g.batch), (long)g.batch); Mat G = loss.gradient(X, y, W);
            if (g.loss == 2) { Vec z = X * W.col(0); for (long i = 0; i < z.size(); ++i) if (std::fabs(z(i) * y(i) - 1) < 1e-8) r.unsure = true; }
            for (long i = 0; i < G.size(); ++i) G.data()[i] = std::max(-1e10, std::min(1e10, G.data()[i]));
            Mat D = G; if (g.alg == 1) { avg += (G - hist[j]) / (double)nb; hist[j] = G; D = avg; }
            if (g.upd == 0) W -= lr * D; else if (g.upd == 1) { V = g.mu * V + lr * D; W -= V; } else { V = g.mu * V + lr * D; W -= g.mu * V + lr * D; }
            if (g.alg == 2) { u += g.l1 * lr * g.alpha; for (long i = 0; i < W.size(); ++i) { double z = W(i); if (z > 0) W(i) = std::max(0.0, z - (u + q(i))); else if (z < 0) W(i) = std::min(0.0, z + (u - q(i))); q(i) += W(i) - z; } }
            tot += loss.evaluate(X, y, W);
        }
        ++r.epochs; if (!(maxabs(W) < 1e5) || !std::isfinite(tot)) { r.unsure = true; return r; }
        if (std::fabs(tot - (best - g.tol * (double)g.batch)) < 1e-8 * (1 + std::fabs(tot))) r.unsure = true;
        if (tot > best - g.tol * (double)g.batch) ++bad; else bad = 0;
        best = std::min(best, tot); if (bad >= g.patience) { r.conv = true; r.w = W; return r; }
    }
    return r;
}
static bool run(const Cfg& g, bool shuffle, Mat& w, bool rec = false, bool verbose = false) {
    AnyLoss loss(g.loss, g.lam, rec); AnyUpdate up(g.upd, g.mu); AnyDecay de(g.dec, g.base, g.gamma, g.step);
    try {
        if (g.alg == 0) { O::SGD<double, AnyLoss, AnyUpdate, AnyDecay> o(g.x0, loss, up, de, g.iters, g.batch, g.patience, g.tol, shuffle, verbose, g.K > 1); o.optimize(g.X, g.y); w = o.get_coef(); }
        else if (g.alg == 1) { O::SAG<double, AnyLoss, AnyUpdate, AnyDecay> o(g.x0, loss, up, de, g.iters, g.batch, g.patience, g.tol, shuffle, verbose); o.optimize(g.X, g.y); w = o.get_coef(); }
        else { O::TruncatedGradient<double, AnyLoss, AnyUpdate, AnyDecay> o(g.x0, loss, up, de, g.iters, g.batch, g.patience, g.tol, g.alpha, g.l1, shuffle, verbose); o.optimize(g.X, g.y); w = o.get_coef(); }
        return true;
    } catch (const std::runtime_error&) { return false; }
}
LAW(recursion, 4000) {
    Cfg g = gen(s, c); bool vb = s.chance(20); Res r = model(g); c.nt(r.epochs > 1 && g.n > 1); if (r.unsure) { c.label("diverging or borderline"); pbt::discard(); } c.label(r.conv ? "converged" : "not converged");
    Mat w, X0 = g.X; bool ok = run(g, false, w, false, vb); REQ(exact(g.X, X0), "input modified"); if (r.conv) { REQ(ok, "reports no convergence, the recursion converges after ", r.epochs, " epochs"); nearm("coefficients", w, r.w, 1e-7 * (1 + maxabs(r.w))); } else REQ(!ok, "reports convergence within ", g.iters, " epochs, the recursion does not converge");
}
LAW(recursion_full_batch_shuffled, 1500) {        // shuffling is invisible with one batch per epoch
    Cfg g = gen(s, c); g.batch = g.n; if (g.loss == 2) g.loss = 0; for (size_t i = 0; i < g.n; ++i) if (g.loss == 0 && g.y((long)i) == 0) g.y((long)i) = 0.5; Res r = model(g); c.nt(r.epochs > 1 && g.n > 1); if (r.unsure) pbt::discard(); Mat w; bool ok = run(g, true, w); REQ(ok == r.conv, "convergence differs under shuffling of a single batch"); if (ok) nearm("coefficients under shuffling of a single batch", w, r.w, 1e-6 * (1 + maxabs(r.w)));
}
LAW(batches, 2500) {          // every epoch visits distinct samples, paired with their labels
    Cfg g = gen(s, c); bool sh = s.b(); if (g.iters > 30) g.iters = 30; c.log("shuffle", sh); seen.clear(); Mat w; run(g, sh, w, true); size_t nb = g.n / g.batch; c.nt(g.n > 2 && nb > 0); REQ(!seen.empty() && seen.size() % nb == 0, seen.size(), " batches for ", nb, " per epoch"); REQ(seen.size() <= nb * g.iters, "more than max_iter epochs: ", seen.size() / nb);
    std::map<std::vector<double>, long> all; auto key = [&](const Mat& X, const Vec& y, long i) { std::vector<double> k; for (long j = 0; j < X.cols(); ++j) k.push_back(X(i, j)); k.push_back(y(i)); return k; }; for (long i = 0; i < (long)g.n; ++i) all[key(g.X, g.y, i)]++;
    bool any_order = false;
    for (size_t e = 0; e < seen.size() / nb; ++e) { auto left = all; for (size_t j = 0; j < nb; ++j) { auto& b = seen[e * nb + j]; REQ(b.first.rows() == (long)g.batch && b.second.size() == (long)g.batch, "a batch has ", b.first.rows(), " samples instead of ", g.batch); for (long i = 0; i < (long)g.batch; ++i) { auto k = key(b.first, b.second, i); auto it = left.find(k); REQ(it != left.end() && it->second > 0, "epoch ", e, " visits a sample twice, or with the label of another"); it->second--; if (!sh) REQ(k == key(g.X, g.y, (long)(j * g.batch) + i), "without shuffling the samples are not visited in order"); } }
        if (sh && e && !exact(seen[e * nb].first, seen[(e - 1) * nb].first)) any_order = true; }
    if (sh && g.n >= 8 && g.batch >= 4 && seen.size() / nb >= 4) REQ(any_order, "shuffling never changes the order between epochs");
    seen.clear();
}
LAW(decay, 6000) {
    double base = 0.001 + s.unit(), ga = s.unit() * 2; size_t step = s.dim(1, 12, 60, 50), ep = s.dim(0, 100, 3000, 50); O::StepDecay<double> a(base, ga, step); O::ExponentialDecay<double> b(base, ga); c.log("base", base); c.log("gamma", ga); c.log("step", step); c.log("epoch", ep); c.nt(ep > 0); same("step decay", a.compute(ep), base * std::pow(ga, (double)(ep / step)), 1e-12); same("exponential decay", b.compute(ep), base * std::exp(-ga * (double)ep), 1e-12);
    REQ(b.compute(ep + 1) <= b.compute(ep), "exponential decay grows"); near_("first rate", a.compute(0), base, 1e-15); near_("first rate", b.compute(0), base, 1e-15); O::StepDecay<double> d0; O::ExponentialDecay<double> e0; same("default step decay", d0.compute(ep), 0.1 * std::pow(0.5, (double)(ep / 10)), 1e-12); same("default exponential decay", e0.compute(ep), 0.1 * std::exp(-0.5 * (double)ep), 1e-12);
    O::StepDecay<double> d1(base); same("step decay with defaults", d1.compute(ep), base * std::pow(0.5, (double)(ep / 10)), 1e-12);
}
LAW(policies, 4000) {         // histories of updates
    size_t r = s.dim(1, 4, 40), q = s.dim(1, 3, 12), T = s.dim(1, 8, 60); double mu = s.unit(); O::VanillaUpdate<double> v; O::MomentumUpdate<double> m(mu); O::NesterovMomentumUpdate<double> n(mu); Mat Wv = cont(s, r, q), Wm = Wv, Wn = Wv, ev = Wv, em = Wv, en = Wv, Vm = Mat::Zero((long)r, (long)q), Vn = Vm; c.log("mu", mu); c.log("W", Wv); c.log("steps", T); c.nt(T > 2);
    for (size_t t = 0; t < T; ++t) { Mat G = cont(s, r, q); double lr = 0.01 + s.unit(); Wv = v.update(Wv, G, lr); Wm = m.update(Wm, G, lr); Wn = n.update(Wn, G, lr); ev -= lr * G; Vm = mu * Vm + lr * G; em -= Vm; Vn = mu * Vn + lr * G; en -= mu * Vn + lr * G; nearm("vanilla update", Wv, ev, 1e-9); nearm("momentum update", Wm, em, 1e-9); nearm("nesterov update", Wn, en, 1e-9); }
}
LAW(policies_shapes, 1500) {  // parameters of another shape start with no velocity
    double mu = s.unit(); O::MomentumUpdate<double> m(mu); O::NesterovMomentumUpdate<double> n(mu); size_t r = s.sz(1, 3), q = s.sz(1, 3), T = s.sz(3, 9); Mat V = Mat::Zero((long)r, (long)q); c.log("mu", mu); c.nt(); std::string shp; for (size_t t = 0; t < T; ++t) { if (s.chance(35)) { size_t r2 = s.sz(1, 3), q2 = s.sz(1, 3); if (s.chance(60)) { if (s.b()) r2 = r; else q2 = q; } if (r2 != r || q2 != q) { r = r2; q = q2; V = Mat::Zero((long)r, (long)q); c.label("new shape"); } } shp += cat(r, "x", q, " "); Mat W = cont(s, r, q), G = cont(s, r, q); double lr = 0.01 + s.unit(); Mat V2 = mu * V + lr * G; nearm("momentum update", Mat(m.update(W, G, lr)), Mat(W - V2), 1e-9); nearm("nesterov update", Mat(n.update(W, G, lr)), Mat(W - (mu * V2 + lr * G)), 1e-9); V = V2; } c.log("shapes", shp);
}
LAW(clipping, 2000) {         // gradients are limited to 1e10 in magnitude
    Cfg g = gen(s, c); if (g.loss == 2) g.loss = 0, g.y = vec(s, g.n, UNIT); double sc = g.loss == 0 ? 1e6 : 3e10; g.X *= sc; g.y *= g.loss == 0 ? sc : 1; g.base = 1e-10 * (0.2 + s.unit()); g.tol = 1e30; g.iters = 12; g.alpha *= 0.1; c.log("scaled by", sc); c.log("base", g.base); Res r = model(g); if (r.unsure) pbt::discard(); c.nt(g.n > 1); Mat G = AnyLoss(g.loss, g.lam).gradient(g.X, g.y, g.x0); c.label(maxabs(G) > 1e10 ? "clipped" : "not clipped"); Mat w; bool ok = run(g, false, w); REQ(ok == r.conv, "convergence differs from the recursion"); if (ok) nearm("coefficients", w, r.w, 1e-6 * (1 + maxabs(r.w)));
}
LAW(sparsity, 600) {          // a large truncation removes every weight, none leaves them alone
    Cfg g = gen(s, c); g.alg = 2; if (g.loss == 3) pbt::discard(); g.upd = 0; Cfg z = g; z.alpha = 0; z.alg = 0; g.alpha = 0; Mat a, b; bool u = run(g, false, a), v = run(z, false, b); c.nt(g.n > 1); REQ(u == v, "convergence of the untruncated gradient differs from plain SGD"); if (u) nearm("untruncated gradient against plain SGD", a, b, 1e-7 * (1 + maxabs(b)));
}
LAW(batch_rejected, 1500) {
    Cfg g = gen(s, c); g.batch = s.b() ? 0 : g.n + s.sz(1, 5); c.log("bad batch", g.batch); c.nt(); Mat w; must_throw<std::invalid_argument>("batch size", [&] { run(g, s.b(), w); });
}
#include "pbt_main.hpp"
