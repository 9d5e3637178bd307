// C12 losses: value, gradient, stability, convexity
#include "common.hpp"
#include "core/loss/huber_loss.hpp"
namespace L = openml::loss;
using LD = long double;
enum Kind { MSE, LOG, HINGE, HUBER, SOFT, NK };
static const char* kname[] = {"mse", "log", "hinge", "huber", "softmax"};
struct In { int k; Mat X; Vec y; Mat W; double lam, thr, delta; size_t K; };
// reference value in long double
static double ref(const In& g, const Mat& W) {
    long n = g.X.rows(), d = g.X.cols(); LD t = 0;
    for (long i = 0; i < n; ++i) {
        if (g.k == SOFT) {
            std::vector<LD> z; LD mx = -INFINITY; for (long q = 0; q < W.cols(); ++q) { LD v = 0; for (long j = 0; j < d; ++j) v += (LD)g.X(i, j) * W(j, q); z.push_back(v); mx = std::max(mx, v); }
            LD e = 0; for (LD v : z) e += std::exp(v - mx); t += mx + std::log(e) - z[(size_t)g.y(i)];
        } else {
            LD z = 0; for (long j = 0; j < d; ++j) z += (LD)g.X(i, j) * W(j, 0); LD y = g.y(i);
            if (g.k == MSE) t += (y - z) * (y - z) / 2;
            else if (g.k == LOG) t += std::max(z, (LD)0) - y * z + std::log1p(std::exp(-std::fabs(z)));
            else if (g.k == HINGE) t += std::max((LD)0, (LD)g.thr - y * z);
            else { LD r = std::fabs(y - z), D = g.delta; t += r <= D ? r * r / 2 : D * r - D * D / 2; }
        }
    }
    LD reg = 0; for (long i = 0; i < W.size(); ++i) reg += (LD)W.data()[i] * W.data()[i];
    return (double)((g.k == HINGE ? t : t / n) + g.lam * reg / (2 * n));
}
static double val(const In& g, const Mat& W) {
    Vec w = W.col(0);
    switch (g.k) {
        case MSE: return g.lam == 0 ? L::MSE<double>().evaluate(g.X, g.y, w) : L::MSE<double>(g.lam).evaluate(g.X, g.y, w);
        case LOG: return L::LogLoss<double>(g.lam).evaluate(g.X, g.y, w);
        case HINGE: return L::HingeLoss<double>(g.lam, g.thr).evaluate(g.X, g.y, w);
        case HUBER: return L::HuberLoss<double>(g.lam, g.delta).evaluate(g.X, g.y, w);
        default: return L::SoftmaxLoss<double>(g.lam).evaluate(g.X, g.y, W);
    }
}
static Mat grad(const In& g, const Mat& W) {
    Vec w = W.col(0);
    switch (g.k) {
        case MSE: return L::MSE<double>(g.lam).gradient(g.X, g.y, w);
        case LOG: return L::LogLoss<double>(g.lam).gradient(g.X, g.y, w);
        case HINGE: return L::HingeLoss<double>(g.lam, g.thr).gradient(g.X, g.y, w);
        case HUBER: return L::HuberLoss<double>(g.lam, g.delta).gradient(g.X, g.y, w);
        default: return L::SoftmaxLoss<double>(g.lam).gradient(g.X, g.y, W);
    }
}
static In gen(Source& s, Ctx& c, bool smooth) {
    In g; g.k = (int)s.draw(NK); size_t n = s.dim(1, 14, 200), d = s.dim(1, 6, 30); int st = style(s, false);
    g.X = smooth || s.b() ? cont(s, n, d) : mat(s, n, d, st); g.K = g.k == SOFT ? s.sz(2, 5) : 1;
    g.W = smooth || s.b() ? cont(s, d, g.K) : mat(s, d, g.K, INT); g.y.resize((long)n);
    for (size_t i = 0; i < n; ++i) g.y((long)i) = g.k == LOG ? (double)s.draw(2) : g.k == HINGE ? (s.b() ? 1.0 : -1.0) : g.k == SOFT ? (double)s.draw(g.K) : (smooth ? s.sym() * 4 : num(s, st));
    g.lam = s.chance(35) ? 0 : s.chance(12) ? std::pow(10.0, s.unit() * 3) : s.unit() * 3; g.thr = s.b() ? 1.0 : s.unit() * 2; g.delta = s.b() ? 1.0 : 0.1 + 2 * s.unit();
    c.log("loss", kname[g.k]); c.log("X", g.X); c.log("y", g.y.transpose()); c.log("W", g.W); c.log("lambda", g.lam); c.log("threshold", g.thr); c.log("delta", g.delta); c.label(kname[g.k]); c.nt(n > 1 && d > 1);
    return g;
}
LAW(value, 16000) {
    In g = gen(s, c, false); double sc = s.b() ? 1 : std::pow(10.0, (double)s.i(0, 3)); g.W *= sc; c.log("scale", sc); Mat X0 = g.X, W0 = g.W; Vec y0 = g.y;
    double v = val(g, g.W), e = ref(g, g.W); REQ(exact(g.X, X0) && exact(g.W, W0) && exact(g.y, y0), "input modified"); same("loss value", v, e, 1e-10);
    if (g.lam >= 0) REQ(v >= -1e-12, "negative loss ", v);
    // order of the samples does not matter
    auto p = perm(s, (size_t)g.X.rows()); In h = g; h.X = permute_rows(g.X, p); for (size_t i = 0; i < p.size(); ++i) h.y((long)i) = g.y((long)p[i]); same("value after reordering the samples", val(h, g.W), v, 1e-10);
}
LAW(gradient, 16000) {       // the gradient is the derivative of the value
    In g = gen(s, c, true); Mat G = grad(g, g.W); shape("gradient", G, g.W.rows(), g.W.cols());
    // stay away from the kinks
    if (g.k == HINGE || g.k == HUBER) { Vec z = g.X * g.W.col(0); for (long i = 0; i < z.size(); ++i) { double m = g.k == HINGE ? std::fabs(g.thr - g.y(i) * z(i)) : std::fabs(std::fabs(g.y(i) - z(i)) - g.delta); if (m < 1e-3) { c.label("near a kink"); pbt::discard(); } } }
    double h = 1e-5;
    for (long j = 0; j < g.W.size(); ++j) { Mat A = g.W, B = g.W; A.data()[j] += h; B.data()[j] -= h; double nd = (ref(g, A) - ref(g, B)) / (2 * h); near_("gradient entry", G.data()[j], nd, 2e-6 * (1 + std::fabs(nd) + (double)g.X.rows())); }
}
LAW(gradient_exact, 8000) {  // against the closed form, at any scale and at the kinks
    In g = gen(s, c, false); double sc = s.b() ? 1 : std::pow(10.0, (double)s.i(0, 3)); g.W *= sc; Mat G = grad(g, g.W); shape("gradient", G, g.W.rows(), g.W.cols()); long n = g.X.rows(); Mat E = g.W * (g.lam / (double)n);
    for (long i = 0; i < n; ++i) {
        if (g.k == SOFT) { Vec z = (g.X.row(i) * g.W).transpose(); Vec p = (z.array() - z.maxCoeff()).exp(); p /= p.sum(); p((long)g.y(i)) -= 1; E += g.X.row(i).transpose() * p.transpose() / (double)n; continue; }
        double z = g.X.row(i).dot(g.W.col(0).transpose()), r = z - g.y(i), f = 0;
        if (g.k == MSE) f = r / (double)n; else if (g.k == LOG) f = (1 / (1 + std::exp(-z)) - g.y(i)) / (double)n; else if (g.k == HUBER) f = std::max(-g.delta, std::min(g.delta, r)) / (double)n;
        else { double m = g.y(i) * z; if (std::fabs(m - g.thr) < 1e-9) { c.label("at the kink: any subgradient"); pbt::discard(); } f = m < g.thr ? -g.y(i) : 0; }
        E += g.X.row(i).transpose() * f;
    }
    double tol = 1e-10 * (1 + maxabs(E) + maxabs(g.X) * (maxabs(g.X) * maxabs(g.W) * (double)g.W.rows() + maxabs(g.y))); nearm("gradient", G, E, tol);
}
LAW(convex, 10000) {         // chord above, tangent below
    In g = gen(s, c, false); Mat A = g.W, B = mat(s, (size_t)g.W.rows(), g.K, INT); double t = s.unit(); double fa = val(g, A), fb = val(g, B), fm = val(g, Mat(t * A + (1 - t) * B)); double sl = 1e-9 * (1 + std::fabs(fa) + std::fabs(fb));
    REQ(fm <= t * fa + (1 - t) * fb + sl, "the loss is not convex: ", fm, " above the chord ", t * fa + (1 - t) * fb);
    Mat G = grad(g, A); double lin = fa + (G.array() * (B - A).array()).sum(); REQ(fb >= lin - 1e-8 * (1 + std::fabs(fa) + std::fabs(fb) + std::fabs(lin)), "the gradient is not a subgradient: value ", fb, " below the tangent ", lin);
}
LAW(extreme, 8000) {         // saturated margins give finite values and gradients
    In g = gen(s, c, true); double sc = std::pow(10.0, (double)s.i(2, 8)); g.W *= sc; c.log("scale", sc); if (s.b()) g.lam = 0; double v = val(g, g.W), e = ref(g, g.W); REQ(std::isfinite(v), "the loss is ", v, " at a finite point, expected ", e); same("loss value at extreme margins", v, e, 1e-9); REQ(finite(grad(g, g.W)), "the gradient is not finite at a finite point");
}
LAW(defaults, 300) {         // default construction: no penalty, unit threshold and delta
    In g = gen(s, c, true); g.lam = 0; g.thr = 1; g.delta = 1; Vec w = g.W.col(0); double v = g.k == MSE ? L::MSE<double>().evaluate(g.X, g.y, w) : g.k == LOG ? L::LogLoss<double>().evaluate(g.X, g.y, w) : g.k == HINGE ? L::HingeLoss<double>().evaluate(g.X, g.y, w) : g.k == HUBER ? L::HuberLoss<double>().evaluate(g.X, g.y, w) : L::SoftmaxLoss<double>().evaluate(g.X, g.y, g.W); same("value with default parameters", v, ref(g, g.W), 1e-10);
}
#include "pbt_main.hpp"
