// C07 exponential-family primitives are exact and stable over the whole finite range
#include "common.hpp"
namespace M = openml::math;
static double val(Source& s) { int k = (int)s.draw(6); if (k < 3) return num(s, k); if (k == 3) return s.sym() * 50; if (k == 4) return s.sym() * 2000; return s.sym() * std::pow(10.0, (double)s.i(0, 300)); }
static Mat m_(Source& s) { size_t n = s.dim(1, 8, 200), d = s.dim(1, 8, 40); Mat m((long)n, (long)d); bool big = s.chance(60); int st = style(s); double off = s.chance(30) ? s.sym() * 1500 : 0; for (long i = 0; i < m.size(); ++i) m.data()[i] = big ? val(s) : num(s, st) + off; return m; }
LAW(sigmoid_, 9000) {
    Mat m = m_(s), r = M::sigmoid<Mat>(m), q = M::sigmoid<Mat>(Mat(-m)); c.log("m", m); c.nt(m.size() > 1); shape("sigmoid", r, m.rows(), m.cols());
    for (long i = 0; i < m.size(); ++i) { double x = m.data()[i], y = r.data()[i]; REQ(y >= 0 && y <= 1, "sigmoid(", x, ") is ", y);
        long double e = x >= 0 ? 1.0L / (1.0L + std::exp((long double)-x)) : std::exp((long double)x) / (1.0L + std::exp((long double)x)); near_("sigmoid", y, (double)e, 1e-12 * (double)std::max(e, (long double)1e-300) + 1e-300); near_("s(x)+s(-x)", y + q.data()[i], 1, 1e-12);
        for (long j = 0; j < m.size(); ++j) if (m.data()[j] <= x) REQ(r.data()[j] <= y * (1 + 1e-12) + 1e-300, "sigmoid is not monotone: ", m.data()[j], " -> ", r.data()[j], " but ", x, " -> ", y); }
}
LAW(softmax_, 9000) {
    Mat m = m_(s); int ax = (int)s.i(-1, 1); long len = ax == 0 ? m.rows() : ax == 1 ? m.cols() : m.size(); c.log("m", m); c.log("axis", ax); c.nt(m.rows() > 1 && m.cols() > 1); c.label(len == 1 ? "degenerate axis" : cat("axis ", ax));
    if (len == 1) { must_throw<std::invalid_argument>("softmax over a single entry", [&] { M::softmax<Mat>(m, ax); }); return; }
    Mat r = M::softmax<Mat>(m, ax); shape("softmax", r, m.rows(), m.cols()); double sh = s.sym() * 100; Mat r2 = maxabs(m) < 1e5 ? M::softmax<Mat>(Mat(m.array() + sh), ax) : r; nearm("shift invariance of softmax", r2, r, 1e-9);
    auto check = [&](std::vector<double> x, std::vector<double> y) { long double mx = -INFINITY; for (double v : x) mx = std::max(mx, (long double)v); long double t = 0; for (double v : x) t += std::exp((long double)v - mx); double sum = 0; for (size_t i = 0; i < x.size(); ++i) { sum += y[i]; near_("softmax entry", y[i], (double)(std::exp((long double)x[i] - mx) / t), 1e-12); } near_("softmax sum", sum, 1, 1e-12); };
    if (ax == 0) for (long j = 0; j < m.cols(); ++j) { std::vector<double> a, b; for (long i = 0; i < m.rows(); ++i) { a.push_back(m(i, j)); b.push_back(r(i, j)); } check(a, b); }
    else if (ax == 1) for (long i = 0; i < m.rows(); ++i) { std::vector<double> a, b; for (long j = 0; j < m.cols(); ++j) { a.push_back(m(i, j)); b.push_back(r(i, j)); } check(a, b); }
    else check(std::vector<double>(m.data(), m.data() + m.size()), std::vector<double>(r.data(), r.data() + r.size()));
}
LAW(logsumexp_, 9000) {
    Mat m = m_(s); int ax = (int)s.i(-1, 1); Vec r = M::logsumexp<Mat, Vec>(m, ax); c.log("m", m); c.log("axis", ax); c.nt(m.rows() > 1 && m.cols() > 1); c.label(cat("axis ", ax)); long L = ax == 1 ? m.rows() : ax == 0 ? m.cols() : 1; REQ(r.size() == L, "logsumexp has ", r.size(), " entries, expected ", L);
    for (long k = 0; k < L; ++k) { Vec x = ax == 1 ? Vec(m.row(k).transpose()) : ax == 0 ? Vec(m.col(k)) : Vec(Eigen::Map<const Vec>(m.data(), m.size())); long double mx = x.maxCoeff(), t = 0; for (long i = 0; i < x.size(); ++i) t += std::exp((long double)x(i) - mx); same("logsumexp", r(k), (double)(mx + std::log(t)), 1e-12); }
}
LAW(gauss, 9000) {
    double x = num(s, style(s)), u = num(s, style(s)), v = std::fabs(num(s, style(s))) + 1e-3; c.log("x", x); c.log("mean", u); c.log("var", v); c.nt(x != u); double r = M::gaussian_fn<double>(x, u, v), e = -(x - u) * (x - u) / (2 * v) - 0.5 * std::log(2 * M_PI * v); same("log density", r, e, 1e-10);
    same("symmetry around the mean", M::gaussian_fn<double>(2 * u - x, u, v), r, 1e-7); REQ(M::gaussian_fn<double>(u, u, v) >= r - 1e-12, "density is not largest at the mean");
}
LAW(gauss_integral, 400) {        // the density integrates to one
    double u = num(s, QUARTER), sd = 0.2 + std::fabs(num(s, QUARTER)); c.log("mean", u); c.log("sd", sd); c.nt(); double t = 0; int N = 400; for (int i = 0; i <= N; ++i) { double x = u + sd * (-8 + 16.0 * i / N); t += std::exp(M::gaussian_fn<double>(x, u, sd * sd)) * (i == 0 || i == N ? 0.5 : 1.0); } near_("integral of the density", t * sd * 16.0 / N, 1, 1e-6);
}
LAW(bad_axis, 600) { Mat m = mat(s, 2, 2, INT); int ax = s.b() ? (int)s.i(2, 9) : (int)s.i(-9, -2); c.log("axis", ax); c.nt(); must_throw<std::invalid_argument>("softmax", [&] { M::softmax<Mat>(m, ax); }); must_throw<std::invalid_argument>("logsumexp", [&] { M::logsumexp<Mat, Vec>(m, ax); }); }
#include "pbt_main.hpp"
