// Includes the library under test and the shared generators.
#pragma once
#include "pbt.hpp"
#include "core.hpp"

namespace g {
using pbt::Source; using pbt::Ctx; using pbt::cat; using pbt::fail;
using Mat = Eigen::MatrixXd;
using Vec = Eigen::VectorXd;
using IVec = Eigen::Matrix<Eigen::Index, Eigen::Dynamic, 1>;
using IMat = Eigen::Matrix<Eigen::Index, Eigen::Dynamic, Eigen::Dynamic>;
using VV = std::vector<std::vector<double>>;
using std::size_t;

enum Style { INT, QUARTER, UNIT, WIDE, BIN, NSTYLE };
inline double num(Source& s, int style) {
    switch (style) {
        case INT: return (double)s.small(6);
        case QUARTER: return (double)s.small(40) / 4.0;
        case UNIT: return s.sym() * 4.0;
        case WIDE: { double m = s.sym(); return m * std::pow(10.0, (double)s.i(0, 6) - 2.0); }
        default: return (double)s.draw(2);
    }
}
inline int style(Source& s, bool wide = true) { int k = (int)s.draw(wide ? 5 : 4); return wide ? k : (k == 3 ? (int)BIN : k); }
inline const char* sname(int k) { static const char* n[] = {"int", "quarter", "unit", "wide", "bin"}; return n[k]; }

// matrix with occasional duplicated rows / constant columns
inline Mat mat(Source& s, size_t r, size_t c, int st, bool degenerate = true) {
    Mat m((long)r, (long)c);
    for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) m((long)i, (long)j) = num(s, st);
    if (degenerate && s.chance(25) && r > 1) {
        for (size_t i = 1; i < r; ++i) if (s.chance(30)) m.row((long)i) = m.row((long)s.sz(0, i - 1)).eval();
    }
    if (degenerate && r > 0 && s.chance(10)) { long j = (long)s.sz(0, c - 1); m.col(j).setConstant(m(0, j)); }
    return m;
}
inline Vec vec(Source& s, size_t n, int st) { Vec v((long)n); for (size_t i = 0; i < n; ++i) v((long)i) = num(s, st); return v; }
inline std::vector<double> svec(Source& s, size_t n, int st) { std::vector<double> v(n); for (auto& x : v) x = num(s, st); return v; }
// continuous data: no ties, well scaled
inline Mat cont(Source& s, size_t r, size_t c, double scale = 2.0) {
    Mat m((long)r, (long)c);
    for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) m((long)i, (long)j) = s.sym() * scale;
    return m;
}

// distinct class values, ascending: 0..K-1, quarters, nearly equal, tiny, huge or beyond the range of int
inline std::vector<double> class_values(Source& s, size_t K) {
    std::set<long> u; int how = (int)s.draw(8);
    double step = how == 2 ? std::ldexp(1.0, -30) : how == 3 ? 1e-12 : how == 4 ? 3e10 : how == 5 ? 0.1 : how == 6 ? 1e6 : 1, base = how == 2 ? 1 : how >= 4 ? (double)s.small(4) * step / 2 : 0;
    if (how == 1) step = 0.25; for (size_t k = 0; k < K; ++k) { long v = how == 0 ? (long)k : (long)s.small(how == 1 ? 60 : 9); while (!u.insert(v).second) ++v; }
    std::vector<double> r; for (long v : u) r.push_back(base + step * (double)v); return r;   // never closer than a step
}

inline bool close(double a, double b, double tol = 1e-9) {
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    if (std::isinf(a) || std::isinf(b)) return a == b;
    return std::fabs(a - b) <= tol * (1.0 + std::max(std::fabs(a), std::fabs(b)));
}
inline double maxabs(const Mat& m) { return m.size() ? m.cwiseAbs().maxCoeff() : 0.0; }
inline bool finite(const Mat& m) { for (long i = 0; i < m.size(); ++i) if (!std::isfinite(m.data()[i])) return false; return true; }

inline void same(const char* what, double a, double b, double tol = 1e-9) {
    if (!close(a, b, tol)) fail(cat(what, ": got ", a, ", expected ", b));
}
// |a-b| <= tol * (1 + scale)
inline void near_(const char* what, double a, double b, double abs_tol) {
    if (std::isnan(a) || std::isnan(b) || !(std::fabs(a - b) <= abs_tol)) {
        if (std::isinf(a) && a == b) return;
        fail(cat(what, ": got ", a, ", expected ", b, " (tolerance ", abs_tol, ")"));
    }
}
template <class A, class B> void same(const char* what, const Eigen::MatrixBase<A>& a0, const Eigen::MatrixBase<B>& b0, double tol = 1e-9) {
    auto a = a0.eval(); auto b = b0.eval();
    if (a.rows() != b.rows() || a.cols() != b.cols())
        fail(cat(what, ": shape ", a.rows(), "x", a.cols(), ", expected ", b.rows(), "x", b.cols()));
    for (long i = 0; i < a.rows(); ++i) for (long j = 0; j < a.cols(); ++j)
        if (!close((double)a(i, j), (double)b(i, j), tol))
            fail(cat(what, " at (", i, ",", j, "): got ", (double)a(i, j), ", expected ", (double)b(i, j)));
}
// absolute tolerance, elementwise
template <class A, class B> void nearm(const char* what, const Eigen::MatrixBase<A>& a0, const Eigen::MatrixBase<B>& b0, double abs_tol) {
    auto a = a0.eval(); auto b = b0.eval();
    if (a.rows() != b.rows() || a.cols() != b.cols())
        fail(cat(what, ": shape ", a.rows(), "x", a.cols(), ", expected ", b.rows(), "x", b.cols()));
    for (long i = 0; i < a.rows(); ++i) for (long j = 0; j < a.cols(); ++j) {
        double x = (double)a(i, j), y = (double)b(i, j);
        if (!(std::fabs(x - y) <= abs_tol)) fail(cat(what, " at (", i, ",", j, "): got ", x, ", expected ", y, " (tolerance ", abs_tol, ")"));
    }
}
inline void shape(const char* what, const Mat& a, long r, long c) {
    if (a.rows() != r || a.cols() != c) fail(cat(what, ": shape ", a.rows(), "x", a.cols(), ", expected ", r, "x", c));
}
// bytewise equality, NaN-tolerant
template <class A, class B> bool exact(const A& a, const B& b) {
    if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
    for (long i = 0; i < a.rows(); ++i) for (long j = 0; j < a.cols(); ++j) {
        double x = (double)a(i, j), y = (double)b(i, j);
        if (!(x == y || (std::isnan(x) && std::isnan(y)))) return false;
    }
    return true;
}
// does calling f throw something derived from std::exception?
template <class F> bool throws(F f) { try { f(); } catch (const pbt::Failure&) { throw; } catch (const std::exception&) { return true; } return false; }
template <class E, class F> void must_throw(const char* what, F f) {
    bool t = false;
    try { f(); } catch (const pbt::Failure&) { throw; } catch (const E&) { t = true; }
    catch (const std::exception& e) { fail(cat(what, ": rejected with another kind of exception: ", e.what())); }
    if (!t) fail(cat(what, ": accepted silently"));
}
inline Mat permute_rows(const Mat& m, const std::vector<size_t>& p) { Mat r(m.rows(), m.cols()); for (size_t i = 0; i < p.size(); ++i) r.row((long)i) = m.row((long)p[i]); return r; }
inline std::vector<size_t> perm(Source& s, size_t n) {
    std::vector<size_t> p(n); for (size_t i = 0; i < n; ++i) p[i] = i;
    for (size_t i = n; i > 1; --i) { size_t j = i - 1 - s.sz(0, i - 1); std::swap(p[i - 1], p[j]); }
    return p;
}
// a random orthogonal matrix as a product of Householder reflections
inline Mat orth(Source& s, size_t n) {
    Mat q = Mat::Identity((long)n, (long)n);
    for (size_t k = 0; k < std::min<size_t>(n, 3); ++k) {
        Vec v((long)n); for (size_t i = 0; i < n; ++i) v((long)i) = s.sym();
        double nn = v.squaredNorm(); if (nn < 1e-3) continue;
        q -= (2.0 / nn) * v * (v.transpose() * q).eval();
    }
    return q;
}
// scratch directory owned by this process
struct Scratch {
    std::string dir;
    Scratch() { char t[] = "/tmp/pbtXXXXXX"; if (!mkdtemp(t)) fail("mkdtemp"); dir = t; }
    ~Scratch() { for (auto& f : files) unlink(f.c_str()); rmdir(dir.c_str()); }
    std::vector<std::string> files;
    std::string file(const std::string& n) { std::string f = dir + "/" + n; files.push_back(f); return f; }
};
} // namespace g
using namespace g;
