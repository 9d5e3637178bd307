// C11 metrics and distances
#include "common.hpp"
namespace K = openml::metric;
LAW(distances, 9000) {
    size_t n = s.dim(1, 12, 600); int st = style(s); auto a = svec(s, n, st), b = s.chance(15) ? a : svec(s, n, st); double e2 = 0, e1 = 0, ei = 0; for (size_t i = 0; i < n; ++i) { double d = std::fabs(a[i] - b[i]); e2 += d * d; e1 += d; ei = std::max(ei, d); } e2 = std::sqrt(e2); c.log("a", a); c.log("b", b); c.nt(n > 1 && ei > 0);
    same("euclidean", K::euclidean_distance<double>(a, b), e2, 1e-11); same("manhattan", K::manhattan_distance<double>(a, b), e1, 1e-11); Mat A = Eigen::Map<Mat>(a.data(), 1, (long)n), B = Eigen::Map<Mat>(b.data(), 1, (long)n); if (s.b()) { A.transposeInPlace(); B.transposeInPlace(); }
    same("minkowski 2", K::minkowski_distance<Mat>(A, B, 2), e2, 1e-11); same("minkowski 1", K::minkowski_distance<Mat>(A, B, 1), e1, 1e-11); same("minkowski inf", K::minkowski_distance<Mat>(A, B, Eigen::Infinity), ei, 1e-11);
}
LAW(metric_axioms, 6000) {
    size_t n = s.dim(1, 8, 200); int st = style(s); Mat a = mat(s, n, 1, st), b = mat(s, n, 1, st), d = mat(s, n, 1, st); int p = s.pick(std::vector<int>{2, 1, Eigen::Infinity}); c.log("a", a); c.log("b", b); c.log("c", d); c.log("p", p); c.nt(n > 1); auto D = [&](const Mat& x, const Mat& y) { return K::minkowski_distance<Mat>(x, y, p); }; double sc = 1e-11 * (1 + maxabs(a) + maxabs(b) + maxabs(d)) * (double)n;
    REQ(D(a, a) == 0, "distance to itself is ", D(a, a)); REQ(D(a, b) >= 0, "negative distance"); near_("symmetry", D(a, b), D(b, a), sc); REQ(D(a, d) <= D(a, b) + D(b, d) + sc, "triangle inequality"); if (!exact(a, b)) REQ(D(a, b) > 0, "distinct points at distance zero"); Mat t = mat(s, n, 1, INT); near_("translation", D(a + t, b + t), D(a, b), sc + 1e-9);
}
LAW(minkowski_rejects, 1500) {
    size_t n = s.sz(1, 6), m = s.sz(1, 6); Mat a = mat(s, n, m, INT), b = mat(s, n, m, INT); int p = (int)s.small(50); if (p == 1 || p == 2 || p == Eigen::Infinity) p = 3; c.log("p", p); c.nt(); must_throw<std::invalid_argument>("unknown order", [&] { K::minkowski_distance<Mat>(a, b, p); });
    Mat d = mat(s, n + 1, m, INT); must_throw<std::invalid_argument>("different sizes", [&] { K::minkowski_distance<Mat>(a, d, 2); }); if (n != m) { Mat t = b.transpose(); must_throw<std::invalid_argument>("different shapes", [&] { K::minkowski_distance<Mat>(a, t, 2); }); }
}
LAW(regression, 9000) {
    size_t n = s.dim(2, 20, 600); int st = style(s); Vec y = vec(s, n, st), p = s.chance(15) ? y : vec(s, n, st); double e = 0, mu = 0, md = 0, vy = 0, vd = 0; for (long i = 0; i < (long)n; ++i) { e += (y(i) - p(i)) * (y(i) - p(i)); mu += y(i); md += p(i) - y(i); } mu /= (double)n; md /= (double)n; for (long i = 0; i < (long)n; ++i) { vy += (y(i) - mu) * (y(i) - mu); vd += (p(i) - y(i) - md) * (p(i) - y(i) - md); } vy /= (double)n; vd /= (double)n; c.log("y", y.transpose()); c.log("p", p.transpose()); c.nt(vy > 0 && vd > 0);
    same("mean of squared errors", K::mean_absolute_error<Vec>(y, p), e / (double)n, 1e-10); double big = maxabs(y); if (vy > 1e-3 * (1 + big * big)) { double r = K::explained_variance_score<Vec>(y, p), x = 1 - vd / vy; near_("explained variance", r, x, 1e-7 * (1 + std::fabs(x))); REQ(r <= 1 + 1e-9, "explained variance ", r, " exceeds one"); near_("explained variance of a perfect prediction", K::explained_variance_score<Vec>(y, y), 1, 1e-12); Vec sh = y.array() + num(s, INT); near_("explained variance ignores a constant shift", K::explained_variance_score<Vec>(y, sh), 1, 1e-7); Vec co = Vec::Constant((long)n, num(s, INT)); near_("explained variance of a constant prediction", K::explained_variance_score<Vec>(y, co), 0, 1e-7); c.label("scored"); }
}
#include "pbt_main.hpp"
