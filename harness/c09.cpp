// C09 matrix factorisations
#include "svd_ext.hpp"
#include "common.hpp"
namespace M = openml::math;
static Mat any(Source& s, size_t hi, Ctx& c) {
    size_t n = s.dim(1, hi, 60), d = s.dim(1, hi, 60); Mat m = mat(s, n, d, style(s)); int k = (int)s.draw(4); if (k == 1 && std::min(n, d) > 1) { size_t r = s.sz(1, std::min(n, d) - 1); m = mat(s, n, r, INT, false) * mat(s, r, d, INT, false); c.label("rank deficient"); } else if (k == 2) { m = cont(s, n, d); }
    else if (k == 3 && s.chance(20)) m.setZero(); c.log("x", m); c.nt(n > 1 && d > 1 && maxabs(m) > 0); c.label(n == d ? "square" : n > d ? "tall" : "wide"); return m;
}
static void ortho(const char* what, const Mat& q, double tol = 1e-9) { nearm(what, Mat(q.transpose() * q), Mat(Mat::Identity(q.cols(), q.cols())), tol); }
LAW(lu_, 6000) {
    Mat x = any(s, 9, c); bool pl = s.b(); long n = x.rows(), d = x.cols(), k = std::min(n, d); Mat P, L, U; std::tie(P, L, U) = M::lu<Mat>(x, pl); double tol = 1e-9 * (1 + maxabs(x)); c.label(pl ? "P*L" : "P");
    shape("L", L, n, k); shape("U", U, k, d); for (long i = 0; i < n; ++i) for (long j = 0; j < k; ++j) { if (i == j) REQ(L(i, j) == 1, "L diagonal is ", L(i, j)); if (j > i) REQ(L(i, j) == 0, "L is not lower triangular"); REQ(std::fabs(L(i, j)) <= 1 + 1e-12, "multiplier ", L(i, j), " exceeds one: pivoting is not partial pivoting"); } for (long i = 0; i < k; ++i) for (long j = 0; j < i; ++j) REQ(U(i, j) == 0, "U is not upper triangular");
    if (pl) { shape("P*L", P, n, k); nearm("P*L*U", Mat(P * U), x, tol); }
    else { shape("P", P, n, n); for (long i = 0; i < n; ++i) { long r1 = 0, c1 = 0; for (long j = 0; j < n; ++j) { REQ(P(i, j) == 0 || P(i, j) == 1, "P is not a permutation"); r1 += P(i, j) == 1; c1 += P(j, i) == 1; } REQ(r1 == 1 && c1 == 1, "P is not a permutation"); } nearm("P*L*U", Mat(P * L * U), x, tol); Mat Q, L2, U2; std::tie(Q, L2, U2) = M::lu<Mat>(x, true); nearm("permuted L", Q, Mat(P * L), 1e-12); }
}
LAW(qr_, 6000) {
    Mat x = any(s, 9, c); bool full = s.b(); long n = x.rows(), d = x.cols(), k = std::min(n, d); Mat Q, R; std::tie(Q, R) = M::qr<Mat>(x, full); c.label(full ? "full" : "thin"); shape("Q", Q, n, full ? n : k); shape("R", R, full ? n : k, d); ortho("Q'Q", Q); nearm("Q*R", Mat(Q * R), x, 1e-9 * (1 + maxabs(x))); for (long i = 0; i < R.rows(); ++i) for (long j = 0; j < std::min(i, d); ++j) REQ(R(i, j) == 0, "R is not upper triangular");
}
static void svd_check(Mat x, bool full, Ctx& c) {
    long n = x.rows(), d = x.cols(), k = std::min(n, d); Mat U, V; Vec w; std::tie(U, w, V) = M::exact_svd<Mat, Vec>(x, full); double sc = 1 + x.norm(); c.label(d < 16 ? "jacobi" : "divide and conquer");
    shape("U", U, n, full ? n : k); shape("V", V, d, full ? d : k); REQ(w.size() == k, "there are ", w.size(), " singular values, expected ", k); ortho("U'U", U); ortho("V'V", V); for (long i = 0; i < k; ++i) { REQ(w(i) >= 0, "negative singular value"); if (i) REQ(w(i) <= w(i - 1) + 1e-12 * sc, "singular values are not descending"); } nearm("U*S*V'", Mat(U.leftCols(k) * w.asDiagonal() * V.leftCols(k).transpose()), x, 1e-9 * sc); near_("energy", w.squaredNorm(), x.squaredNorm(), 1e-9 * sc * sc);
    Mat U2, Vt; std::tie(U2, Vt) = M::svd_flip<Mat, Vec, IVec>(Mat(U.leftCols(k)), Mat(V.leftCols(k).transpose())); nearm("flipped U*S*V'", Mat(U2 * w.asDiagonal() * Vt), x, 1e-9 * sc);
}
LAW(svd_small, 4000) { Mat x = any(s, 9, c); bool f = s.b(); svd_check(x, f, c); }
LAW(svd_large, 400) { size_t n = s.sz(10, 26), d = s.sz(14, 26); Mat x = s.b() ? cont(s, n, d) : mat(s, n, d, INT); c.log("x", x); c.nt(); svd_check(x, s.b(), c); }
LAW(svd_flip_, 5000) {
    size_t n = s.dim(1, 8, 60), k = s.sz(1, 6), d = s.dim(1, 8, 60); Mat U = cont(s, n, k), Vt = cont(s, k, d), A, B; bool ub = s.b(); Vec w((long)k); for (size_t i = 0; i < k; ++i) w((long)i) = 0.5 + s.unit(); std::tie(A, B) = M::svd_flip<Mat, Vec, IVec>(U, Vt, ub); c.log("U", U); c.log("Vt", Vt); c.log("u_based", ub); c.nt(k > 1); shape("U", A, (long)n, (long)k); shape("Vt", B, (long)k, (long)d);
    for (long j = 0; j < (long)k; ++j) { double m = 0, v = 0; if (ub) { for (long i = 0; i < (long)n; ++i) if (std::fabs(A(i, j)) > m) { m = std::fabs(A(i, j)); v = A(i, j); } } else for (long i = 0; i < (long)d; ++i) if (std::fabs(B(j, i)) > m) { m = std::fabs(B(j, i)); v = B(j, i); }
        bool tie = false; if (ub) { for (long i = 0; i < (long)n; ++i) if (std::fabs(A(i, j)) == m && A(i, j) != v) tie = true; } else for (long i = 0; i < (long)d; ++i) if (std::fabs(B(j, i)) == m && B(j, i) != v) tie = true; if (m == 0 || tie) { c.label("tie"); pbt::discard(); }
        REQ(v >= 0, "the largest loading of component ", j, " is negative"); nearm("component", Mat(A.col(j) * B.row(j)), Mat(U.col(j) * Vt.row(j)), 1e-12); nearm("magnitude of U", A.cwiseAbs(), U.cwiseAbs(), 0); nearm("magnitude of Vt", B.cwiseAbs(), Vt.cwiseAbs(), 0); }
    Mat A2, B2; Mat U2 = U, V2 = Vt; for (long j = 0; j < (long)k; ++j) if (s.b()) { U2.col(j) *= -1; V2.row(j) *= -1; } std::tie(A2, B2) = M::svd_flip<Mat, Vec, IVec>(U2, V2, ub); nearm("determinism under sign changes (U)", A2, A, 0); nearm("determinism under sign changes (Vt)", B2, B, 0);
}
static Mat spd(Source& s, size_t n, double lo = 0.1, double hi = 4) { Mat q = orth(s, n); Vec e((long)n); for (size_t i = 0; i < n; ++i) e((long)i) = lo + (hi - lo) * s.unit(); Mat m = q * e.asDiagonal() * q.transpose(); return (m + m.transpose()) / 2; }
LAW(cholesky_, 5000) {
    size_t n = s.dim(1, 9, 60); Mat x = spd(s, n); c.log("x", x); c.nt(n > 1); Mat L = M::cholesky<Mat>(x, true), U = M::cholesky<Mat>(x, false); shape("L", L, (long)n, (long)n); nearm("L*L'", Mat(L * L.transpose()), x, 1e-10); nearm("U'*U", Mat(U.transpose() * U), x, 1e-10); for (long i = 0; i < (long)n; ++i) { REQ(L(i, i) > 0, "diagonal of L is not positive"); for (long j = 0; j < i; ++j) REQ(L(j, i) == 0 && U(i, j) == 0, "factor is not triangular"); }
    // an indefinite matrix has no factor
    Mat q = orth(s, n); Vec e = Vec::Ones((long)n); e((long)s.sz(0, n - 1)) = -0.5 - s.unit(); Mat bad = q * e.asDiagonal() * q.transpose(); must_throw<std::runtime_error>("cholesky of an indefinite matrix", [&] { M::cholesky<Mat>(bad, true); });
}
LAW(pinv_, 5000) {
    size_t n = s.sz(1, 8), d = s.sz(1, 8), k = std::min(n, d), r = s.sz(0, k); Mat A = orth(s, n), B = orth(s, d), S = Mat::Zero((long)n, (long)d); for (size_t i = 0; i < r; ++i) S((long)i, (long)i) = 0.05 + 5 * s.unit(); Mat x = A * S * B.transpose(), p = M::pinv<Mat, Vec>(x); c.log("x", x); c.log("rank", r); c.nt(k > 1); c.label(r == k ? "full rank" : "rank deficient"); shape("pinv", p, (long)d, (long)n);
    nearm("A A+ A", Mat(x * p * x), x, 1e-8); nearm("A+ A A+", Mat(p * x * p), p, 1e-7); nearm("(A A+)'", Mat((x * p).transpose()), Mat(x * p), 1e-8); nearm("(A+ A)'", Mat((p * x).transpose()), Mat(p * x), 1e-8);
    double tol = 6; Mat z = M::pinv<Mat, Vec>(x, tol); nearm("pinv with a cutoff above every singular value", z, Mat(Mat::Zero((long)d, (long)n)), 1e-12);
}
LAW(scaled_, 4000) {          // the unit of measurement: factors of 2^e x are those of x, scaled
    int how = (int)s.draw(4); size_t n = s.dim(1, 8, 30), d = how == 3 ? n : s.dim(1, 8, 30); int e = (s.b() ? 1 : -1) * (int)s.sz(10, 150); double u = std::ldexp(1.0, e); Mat x = how == 3 ? spd(s, n) : s.chance(30) ? mat(s, n, d, INT) : cont(s, n, d), y = x * u; long k = (long)std::min(n, d); bool full = s.b(); c.log("x", x); c.log("exponent", e); c.log("factorisation", how); c.log("full", full); c.nt(n > 1 && d > 1); static const char* N[] = {"lu", "qr", "svd", "cholesky"}; c.label(N[how]); c.label(e < 0 ? "small" : "large"); double sc = 1e-9 * (1 + x.norm());
    if (how == 0) { Mat P, L, U; std::tie(P, L, U) = M::lu<Mat>(y, false); nearm("P*L*U", Mat(P * L * (U / u)), x, sc); for (long i = 0; i < L.rows(); ++i) for (long j = 0; j < k; ++j) { if (i == j) REQ(L(i, j) == 1, "L diagonal is ", L(i, j)); if (j > i) REQ(L(i, j) == 0, "L is not lower triangular"); REQ(std::fabs(L(i, j)) <= 1 + 1e-12, "multiplier ", L(i, j), " exceeds one"); } for (long i = 0; i < k; ++i) for (long j = 0; j < i; ++j) REQ(U(i, j) == 0, "U is not upper triangular"); Mat Q; std::tie(Q, L, U) = M::lu<Mat>(y, true); }
    else if (how == 1) { Mat Q, R; std::tie(Q, R) = M::qr<Mat>(y, full); ortho("Q'Q", Q); nearm("Q*R", Mat(Q * (R / u)), x, sc); for (long i = 0; i < R.rows(); ++i) for (long j = 0; j < std::min(i, (long)d); ++j) REQ(R(i, j) == 0, "R is not upper triangular"); }
    else if (how == 2) { Mat U, V; Vec w; std::tie(U, w, V) = M::exact_svd<Mat, Vec>(y, full); ortho("U'U", U); ortho("V'V", V); Vec z = w / u; nearm("U*S*V'", Mat(U.leftCols(k) * z.asDiagonal() * V.leftCols(k).transpose()), x, sc); for (long i = 1; i < k; ++i) REQ(w(i) <= w(i - 1) * (1 + 1e-12), "singular values are not descending"); }
    else { e = e / 2 * 2; u = std::ldexp(1.0, e); double h = std::ldexp(1.0, e / 2); Mat L = M::cholesky<Mat>(Mat(x * u), true), U = M::cholesky<Mat>(Mat(x * u), false); nearm("L*L'", Mat((L / h) * (L / h).transpose()), x, sc); nearm("U'*U", Mat((U / h).transpose() * (U / h)), x, sc); }
}
LAW(pinv_cutoff, 4000) {      // exactly the singular values above the cutoff are inverted, however far apart they are
    size_t n = s.dim(1, 8, 24), d = s.dim(1, 8, 24), k = std::min(n, d); Mat A = orth(s, n), B = orth(s, d), S = Mat::Zero((long)n, (long)d), T = Mat::Zero((long)d, (long)n); double tol = s.b() ? 1e-6 : std::pow(10.0, s.sym() * 5), lo = INFINITY; bool dflt = tol == 1e-6; double span = s.pick(std::vector<double>{1, 4, 7}); size_t kept = 0, cut = 0;
    for (size_t i = 0; i < k; ++i) { bool keep = s.chance(70); double v = keep ? tol * std::pow(10.0, 0.3 + span * s.unit()) : tol * std::pow(10.0, -0.3 - 2 * s.unit()); S((long)i, (long)i) = v; if (keep) { T((long)i, (long)i) = 1 / v; lo = std::min(lo, v); ++kept; } else ++cut; }
    Mat x = A * S * B.transpose(), e = B * T * A.transpose(); if (cut && S.maxCoeff() * 1e-13 > tol * 0.01) { pbt::discard(); } c.log("x", x); c.log("cutoff", tol); c.log("singular values", S.diagonal().transpose()); c.nt(k > 1); c.label(cut ? kept ? "some cut" : "all cut" : "none cut"); Mat p = dflt ? M::pinv<Mat, Vec>(x) : M::pinv<Mat, Vec>(x, tol); shape("pinv", p, (long)d, (long)n); nearm("pinv", p, e, kept ? 1e-12 * (1 + S.maxCoeff() / lo) / lo * 10 : 1e-300);
}
LAW(logdet_, 6000) {
    size_t n = s.sz(1, 8); Mat x; int k = (int)s.draw(3); double e; if (k == 0) { x = spd(s, n); } else if (k == 1) { Mat q = orth(s, n); Vec v((long)n); for (size_t i = 0; i < n; ++i) v((long)i) = (0.2 + 3 * s.unit()) * (s.b() ? 1 : -1); x = q * v.asDiagonal() * q.transpose(); } else x = mat(s, n, n, INT);
    Eigen::FullPivLU<Mat> f(x); double det = f.determinant(); c.log("x", x); c.nt(n > 1); c.label(det > 1e-6 ? "positive" : det < -1e-6 ? "negative" : "singular"); double r = M::logdet<Mat>(x);
    if (det > 1e-6) { e = std::log(det); near_("log determinant", r, e, 1e-7 * (1 + std::fabs(e))); } else if (det < -1e-6) REQ(r == -INFINITY, "log determinant of a matrix with determinant ", det, " is ", r); else REQ(r == -INFINITY || r < -10, "log determinant of a singular matrix is ", r);
}
LAW(logdet_scaled, 3000) {          // the determinant itself may leave the range of a double, its sign and logarithm do not
    size_t n = s.sz(1, 24); Mat q = orth(s, n), p = orth(s, n); Vec v((long)n); for (size_t i = 0; i < n; ++i) v((long)i) = (0.3 + 2 * s.unit()) * (s.b() ? 1 : -1);
    Mat x = q * v.asDiagonal() * p.transpose(); double base = v.array().abs().log().sum(); Eigen::FullPivLU<Mat> f(x); bool pos = f.determinant() > 0;
    int e = (int)s.i(-150, 150); double off = 0; x *= std::ldexp(1.0, e); off = (double)n * e * std::log(2.0);
    if (s.b()) { for (size_t i = 0; i < n; ++i) { int k = (int)s.i(-8, 8); x.row((long)i) *= std::ldexp(1.0, k); off += k * std::log(2.0); } }
    c.log("n", n); c.log("exponent", e); c.log("determinant", pos ? "positive" : "negative"); c.nt(n > 1 && e != 0); c.label(pos ? "positive" : "negative"); c.label(std::fabs(base + off) > 700 ? "determinant outside the range of a double" : "determinant representable");
    double r = M::logdet<Mat>(x);
    if (pos) near_("log determinant", r, base + off, 1e-8 * (1 + std::fabs(base + off))); else REQ(r == -INFINITY, "log determinant of a matrix with negative determinant is ", r);
}
#include "pbt_main.hpp"
