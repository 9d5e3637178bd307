// C37 single precision gives the results of double precision up to rounding
#include "precision.hpp"
#include "core/loss/log_loss.hpp"
#include "core/loss/softmax_loss.hpp"
#include "core/loss/hinge_loss.hpp"
#include "core/loss/huber_loss.hpp"
namespace L = openml::loss;

template <class T> static std::vector<Mat> arrays(const Mat& x0, int how) {
    MX<T> x = to<T>(x0); using A = MX<T>; using V = VX<T>; std::vector<Mat> o; auto P = [&](const auto& m) { o.push_back(up(m)); };
    for (int ax = 0; ax < 2; ++ax) switch (how) {
    case 0: { IVec a = K::argmax<A, V, IVec>(x, ax), b = K::argmin<A, V, IVec>(x, ax); P(a); P(b); break; }
    case 1: { for (int rv = 0; rv < 2; ++rv) { IMat a = K::argsort<A, IMat, IVec>(x, ax, rv); P(a); A b = K::sort<A>(x, ax, rv); P(b); } break; }
    case 2: P(A(M::sum<A>(x, ax))); P(A(M::mean<A>(x, ax))); P(A(M::var<A>(x, ax))); if (ax) { P(A(M::sum<A>(x))); P(A(M::mean<A>(x))); P(A(M::var<A>(x))); } break;
    case 3: P(V(M::median<A, V>(x, ax))); P(V(M::norm2<A, V>(x, ax))); P(A(M::cumsum<A, V>(x, ax))); break;
    case 4: { auto q = M::mode<A>(x, ax); P(A(std::get<0>(q))); P(A(std::get<1>(q))); break; }
    case 5: if (x.rows() > 1 && x.cols() > 1) P(A(M::softmax<A>(x, ax))); P(A(M::sigmoid<A>(x))); P(A(M::row_norms<A, V>(x, ax))); break;
    case 6: P(V(M::logsumexp<A, V>(x, ax))); P(A(M::center<A>(x))); break;
    case 7: { V f = K::flatten<A, V>(x), u, n; std::tie(u, n) = K::unique<V>(f); P(u); P(n); P(A(K::repeat<A>(x, 2, ax))); P(A(K::clip<A>(x, (T)1.5, (T)-0.75))); V one = x.col(0); P(V(M::sign<V>(one))); o.push_back(Mat::Constant(1, 1, M::entropy<V>(one))); o.push_back(Mat::Constant(1, 1, M::gini<V>(one))); V w = one.cwiseAbs().array() + (T)0.5; o.push_back(Mat::Constant(1, 1, M::entropy<V>(one, w))); o.push_back(Mat::Constant(1, 1, M::gini<V>(one, w))); break; }
    default: { A p = x * x.transpose() + A::Identity(x.rows(), x.rows()); P(A(M::cholesky<A>(p))); o.push_back(Mat::Constant(1, 1, (double)M::logdet<A>(p))); A l, u, q; std::tie(q, l, u) = M::lu<A>(p, false); P(A(q * l * u)); A c, r; std::tie(c, r) = M::qr<A>(p, false); P(A(c * r)); break; }
    }
    return o;
}
// scores, residuals and margins far beyond the range of a single precision exponential
LAW(range_, 6000) {
    size_t r = s.sz(2, 7), d = s.sz(2, 5); double top = s.pick(std::vector<double>{30, 90, 110, 300, 720, 800, 3000, 30000}); Mat x = grid(s, r, d, (int)(top * 8)); if (s.chance(40)) x.array() += (s.b() ? 1 : -1) * std::floor(top * s.unit()); int how = (int)s.draw(6); c.log("x", x); c.log("function", how); c.nt(); c.label(top < 89 ? "below 89" : top < 700 ? "89 to 700" : "above 700"); c.label(cat("function ", how));
    std::vector<long> cl((size_t)r); for (auto& v : cl) v = (long)s.draw(d); double lam = (double)s.draw(3) / 4, thr = (double)s.sz(1, 8) / 4; bool neg = s.b(); c.log("lambda", lam); c.log("threshold", thr);
    auto f = [&](auto z) { using T = decltype(z); using A = MX<T>; using V = VX<T>; A u = to<T>(x); std::vector<Mat> o; auto P = [&](const auto& m) { o.push_back(up(m)); }; auto N = [&](double v) { o.push_back(Mat::Constant(1, 1, v)); };
        A I = A::Identity((long)d, (long)d); V w((long)d), y((long)r), t((long)r), yc((long)r); for (long i = 0; i < w.size(); ++i) w(i) = (T)(i ? (i % 2 ? 0 : 0.5) : 1); for (long i = 0; i < y.size(); ++i) { y(i) = (T)(cl[(size_t)i] % 2 ? 1 : -1); t(i) = (T)(cl[(size_t)i] % 2); yc(i) = (T)cl[(size_t)i]; }
        switch (how) {
        case 0: P(A(M::softmax<A>(u, 0))); P(A(M::softmax<A>(u, 1))); break;
        case 1: P(A(M::sigmoid<A>(u))); break;
        case 2: P(V(M::logsumexp<A, V>(u, 0))); P(V(M::logsumexp<A, V>(u, 1))); break;
        case 3: { L::LogLoss<T> l(lam); N(l.evaluate(u, t, w)); P(V(l.gradient(u, t, w))); break; }
        case 4: { L::SoftmaxLoss<T> l(lam); N(l.evaluate(u, yc, I)); P(A(l.gradient(u, yc, I))); break; }
        default: if (neg) { L::HingeLoss<T> l(lam, thr); N(l.evaluate(u, y, w)); P(V(l.gradient(u, y, w))); } else { L::HuberLoss<T> l(lam, thr); N(l.evaluate(u, y, w)); P(V(l.gradient(u, y, w))); }
        }
        return o; };
    auto a = f(1.0), b = f(1.0f); REQ(a.size() == b.size(), "results"); for (size_t i = 0; i < a.size(); ++i) near(how < 3 ? "array function" : "loss", a[i], b[i], how < 3 ? 2e-5 : 2e-5 + 1e-6 * maxabs(x));
}
LAW(arrays_, 9000) {
    size_t r = s.sz(1, 9), d = s.sz(1, 6); int how = (int)s.draw(9); if (how == 8) { r = std::min<size_t>(r, 4); } Mat x = grid(s, r, d); c.log("x", x); c.log("function", how); c.label(cat("function ", how)); c.nt(r > 1 && d > 1); auto a = arrays<double>(x, how), b = arrays<float>(x, how); REQ(a.size() == b.size(), "results"); for (size_t i = 0; i < a.size(); ++i) near("array function", a[i], b[i], how == 8 ? 2e-2 : 2e-5);
}
#include "pbt_main.hpp"
