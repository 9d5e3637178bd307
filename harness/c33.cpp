// C33 sample order, feature order, units and label names do not matter
#include "models.hpp"
using namespace mdl;
struct Task { int k; size_t d; Mat X, Z; Vec y; Make mk; };
static bool is_tree(int k) { return k == 13 || k == 14; }
static Task task(Source& s, Ctx& c, const std::vector<int>& kinds) {
    Task t; t.k = s.pick(kinds); t.d = dims_for(s, t.k); size_t n = min_rows(t.k, t.d) + s.dim(0, 12, 120, 10); training(s, t.k, n, t.d, t.X, t.y); Cfg g = config(s, c, t.k, limit(t.k, n, t.d)); g.ic = true; if (t.k == 15 || t.k == 16) { g.kk |= 1; double lo = t.y.minCoeff(), hi = t.y.maxCoeff(); for (long i = 0; i < t.y.size(); ++i) if (t.y(i) > lo) t.y(i) = hi; } t.mk = make(g); t.Z = cont(s, 6, t.d, 3); if (t.k == 10) t.Z = (t.Z.array().abs() * 2).floor().matrix(); c.log("X", t.X); c.log("y", t.y.transpose()); c.log("Z", t.Z); c.nt(n > 4);
    if (t.k == 0) { Mat A(t.X.rows(), t.X.cols() + 1); A << t.X, Vec::Ones(t.X.rows()); Eigen::SelfAdjointEigenSolver<Mat> e(A.transpose() * A); if (e.eigenvalues()(0) < 1e-4 * e.eigenvalues().maxCoeff()) pbt::discard(); }
    if (t.k == 17) { Mat C = t.X.rowwise() - t.X.colwise().mean(); Eigen::SelfAdjointEigenSolver<Mat> e(C.transpose() * C); auto v = e.eigenvalues(); for (long i = 0; i < v.size(); ++i) if (v(i) < 1e-3 * v.maxCoeff() || (i && v(i) - v(i - 1) < 1e-3 * v.maxCoeff())) pbt::discard(); }
    if (t.k == 9) { for (long i = 0; i < t.X.rows(); ++i) for (long j = 0; j < t.X.cols(); ++j) for (long h = 0; h < i; ++h) if (t.X(i, j) == t.X(h, j)) pbt::discard(); double lo = 1e300; bool any = false; for (long i = 0; i < t.y.size(); ++i) { long m = (t.y.array() == t.y(i)).count(); any |= m > 1; } (void)lo; if (!any) pbt::discard(); }
    if (t.k == 15 || t.k == 16) for (long i = 0; i < t.X.rows(); ++i) for (long h = 0; h < i; ++h) if (t.X.row(i) == t.X.row(h)) pbt::discard();
    return t;
}
static Mat answers(Source& s, const Task& t, const Mat& X, const Vec& y, const Mat& Z) { auto a = t.mk(); if (!mdl::fit(*a, X, y, 17, 3)) pbt::discard(); (void)s; return a->rows(Z); }
// label column (if any) must agree unless the probabilities tie; the rest within tolerance
static void agree(const Task& t, Mat A, Mat B, const char* what) {
    REQ(A.rows() == B.rows() && A.cols() == B.cols(), what, ": another shape of outputs"); bool lab = t.k >= 9 && t.k != 14 && t.k < 17; for (long i = 0; i < A.rows(); ++i) { if (t.k == 17) { continue; } if (lab && !eq(A(i, 0), B(i, 0))) { REQ(A.cols() > 1, what, ": query ", i, " is labelled ", A(i, 0), ", then ", B(i, 0)); long nc = t.k == 9 || t.k == 10 ? (A.cols() - 1) / 2 : A.cols() - 1; std::vector<double> p; for (long q = 1; q <= nc; ++q) p.push_back(A(i, q)); std::sort(p.rbegin(), p.rend()); REQ(p[0] - p[1] < 1e-6, what, ": query ", i, " is labelled ", A(i, 0), ", then ", B(i, 0)); pbt::discard(); }
        for (long j = lab; j < A.cols(); ++j) { double u = A(i, j), v = B(i, j); if (eq(u, v)) continue; REQ(std::fabs(u - v) <= 1e-6 * (1 + std::max(std::fabs(u), std::fabs(v))), what, ": output (", i, ",", j, ") is ", u, ", then ", v); } }
    if (t.k == 17) for (long j = 0; j < A.cols(); ++j) { double tol = 1e-5 * (1 + maxabs(A)); REQ((A.col(j) - B.col(j)).cwiseAbs().maxCoeff() <= tol || (A.col(j) + B.col(j)).cwiseAbs().maxCoeff() <= tol, what, ": component ", j, " of the projections differs by more than its sign"); }
}
// distances to the k-th and (k+1)-th neighbour must not tie after rounding
LAW(rows, 6000) {             // the order of the training samples
    Task t = task(s, c, {0, 1, 9, 10, 13, 14, 15, 16, 17}); auto p = perm(s, (size_t)t.X.rows()); Vec y2(t.y.size()); for (size_t i = 0; i < p.size(); ++i) y2((long)i) = t.y((long)p[i]); const Mat& Q = is_tree(t.k) ? t.X : t.Z; agree(t, answers(s, t, t.X, t.y, Q), answers(s, t, permute_rows(t.X, p), y2, Q), "samples reordered");
}
LAW(columns, 5000) {          // the order of the features
    Task t = task(s, c, {0, 1, 9, 10, 15, 16, 17}); auto p = perm(s, t.d); Mat X2 = t.X, Z2 = t.Z; for (size_t j = 0; j < p.size(); ++j) { X2.col((long)j) = t.X.col((long)p[j]); Z2.col((long)j) = t.Z.col((long)p[j]); } agree(t, answers(s, t, t.X, t.y, t.Z), answers(s, t, X2, t.y, Z2), "features reordered");
}
LAW(origin, 5000) {           // the origin of the measurements (exactly representable shifts)
    Task t = task(s, c, {0, 9, 13, 14, 15, 16, 17}); Mat X2 = t.X, Z2 = t.Z; for (size_t j = 0; j < t.d; ++j) { double o = (double)s.small(40); X2.col((long)j).array() += o; Z2.col((long)j).array() += o; } agree(t, answers(s, t, t.X, t.y, t.Z), answers(s, t, X2, t.y, Z2), "measurements shifted");
}
LAW(units, 5000) {            // the unit of all measurements (powers of two)
    Task t = task(s, c, {0, 9, 13, 14, 15, 16, 17}); double f = is_tree(t.k) || t.k == 15 || t.k == 16 ? std::ldexp(1.0, (int)s.small(40)) : s.pick(std::vector<double>{0.25, 0.5, 2, 16}); c.log("factor", f); Mat A = answers(s, t, t.X, t.y, t.Z), B = answers(s, t, t.X * f, t.y, t.Z * f); if (t.k == 17) B /= f; if (t.k == 9) { long nc = (A.cols() - 1) / 2; A = A.leftCols(nc + 1).eval(); B = B.leftCols(nc + 1).eval(); for (long i = 0; i < A.rows(); ++i) { long a, b; A.row(i).tail(nc).maxCoeff(&a); B.row(i).tail(nc).maxCoeff(&b); REQ(a == b || std::fabs(A(i, 1 + a) - A(i, 1 + b)) < 1e-6, "unit changed: query ", i, " is labelled otherwise"); for (long j = 1; j <= nc; ++j) near_("probability after a change of unit", B(i, j), A(i, j), 1e-6); } return; } agree(t, A, B, "unit changed");
}
LAW(names, 5000) {            // the names of the classes (order kept)
    Task t = task(s, c, {9, 10, 13, 15, 16}); double a = s.pick(std::vector<double>{0.5, 2, 10}), b = (double)s.small(30); Vec y2 = (t.y.array() * a + b).matrix(); Mat A = answers(s, t, t.X, t.y, t.Z), B = answers(s, t, t.X, y2, t.Z); A.col(0) = (A.col(0).array() * a + b).matrix(); agree(t, A, B, "classes renamed");
}
LAW(targets, 4000) {          // the unit and origin of the target
    Task t = task(s, c, {0}); double a = s.pick(std::vector<double>{0.5, 2, 8}); Vec y2 = t.y * a; Mat A = answers(s, t, t.X, t.y, t.Z), B; double b = (double)s.small(20); y2.array() += b; B = answers(s, t, t.X, y2, t.Z); A = (A.array() * a + b).matrix(); agree(t, A, B, "target rescaled");
}
#include "pbt_main.hpp"
