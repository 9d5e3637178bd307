// C04 matrix manipulation primitives agree with their element-wise definitions
#include "common.hpp"
namespace C = openml::common;
using BVec = Eigen::Matrix<bool, Eigen::Dynamic, 1>;
static std::vector<double> lane(const Mat& m, int ax, long k) {     // ax 1: row k, ax 0: column k
    std::vector<double> v; if (ax == 1) for (long j = 0; j < m.cols(); ++j) v.push_back(m(k, j)); else for (long i = 0; i < m.rows(); ++i) v.push_back(m(i, k)); return v;
}
LAW(sort_, 6000) {
    size_t n = s.dim(1, 24, 200), d = s.dim(1, 24, 40); if (s.b()) { n = s.dim(1, 6, 200); d = s.dim(1, 6, 40); }
    Mat m = mat(s, n, d, style(s)), m0 = m; int ax = (int)s.i(0, 1); bool rev = s.b();
    c.log("m", m); c.log("axis", ax); c.log("reverse", rev); c.nt(n > 1 && d > 1); c.label(cat("axis ", ax, rev ? " desc" : " asc"));
    Mat r = C::sort<Mat>(m, ax, rev); REQ(exact(m, m0), "input modified"); shape("sort", r, (long)n, (long)d);
    for (long k = 0; k < (ax ? (long)n : (long)d); ++k) {
        auto a = lane(m, ax, k), b = lane(r, ax, k); std::sort(a.begin(), a.end()); if (rev) std::reverse(a.begin(), a.end());
        REQ(a == b, "lane ", k, " along axis ", ax, " is not the sorted lane of the input");
    }
}
LAW(argsort_, 6000) {
    size_t n = s.dim(1, 24, 200), d = s.dim(1, 24, 40); if (s.b()) { n = s.dim(1, 6, 200); d = s.dim(1, 6, 40); }
    Mat m = mat(s, n, d, s.b() ? BIN : style(s)); int ax = (int)s.i(0, 1); bool rev = s.b();
    c.log("m", m); c.log("axis", ax); c.log("reverse", rev); c.nt(n > 1 && d > 1); c.label(cat("axis ", ax, rev ? " desc" : " asc"));
    IMat r = C::argsort<Mat, IMat, IVec>(m, ax, rev); REQ(r.rows() == (long)n && r.cols() == (long)d, "shape of argsort");
    for (long k = 0; k < (ax ? (long)n : (long)d); ++k) {
        auto a = lane(m, ax, k); std::vector<char> seen(a.size(), 0); double prev = 0;
        for (size_t t = 0; t < a.size(); ++t) {
            long ix = ax ? r(k, (long)t) : r((long)t, k);
            REQ(ix >= 0 && ix < (long)a.size(), "index ", ix, " out of range in lane ", k); REQ(!seen[(size_t)ix]++, "index ", ix, " twice in lane ", k);
            double v = a[(size_t)ix]; if (t) REQ(rev ? prev >= v : prev <= v, "lane ", k, " is not in order at position ", t); prev = v;
        }
    }
}
template <bool MAX> static void argx(Source& s, Ctx& c) {
    size_t n = s.dim(1, 12, 200), d = s.dim(1, 12, 40); Mat m = mat(s, n, d, s.b() ? INT : style(s)); int ax = (int)s.i(-1, 1);
    c.log("m", m); c.log("axis", ax); c.nt(n > 1 && d > 1); c.label(cat("axis ", ax));
    IVec r = MAX ? C::argmax<Mat, Vec, IVec>(m, ax) : C::argmin<Mat, Vec, IVec>(m, ax);
    long lanes = ax == 1 ? (long)n : ax == 0 ? (long)d : 1; REQ(r.size() == lanes, "result has ", r.size(), " entries, expected ", lanes);
    for (long k = 0; k < lanes; ++k) {
        std::vector<double> a; if (ax == -1) { for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < d; ++j) a.push_back(m((long)i, (long)j)); } else a = lane(m, ax, k);
        REQ(r(k) >= 0 && r(k) < (long)a.size(), "index ", r(k), " out of range");
        double best = MAX ? *std::max_element(a.begin(), a.end()) : *std::min_element(a.begin(), a.end());
        REQ(a[(size_t)r(k)] == best, "entry ", k, " points at ", a[(size_t)r(k)], ", the extreme value is ", best);
    }
}
LAW(argmax_, 6000) { argx<true>(s, c); }
LAW(argmin_, 6000) { argx<false>(s, c); }
LAW(unique_, 6000) {
    size_t n = s.dim(1, 40, 700); Vec v = vec(s, n, s.b() ? INT : style(s)); Vec val, ix; std::tie(val, ix) = C::unique<Vec>(v);
    c.log("v", v.transpose()); std::set<double> st(v.data(), v.data() + n); c.nt(st.size() > 1 && st.size() < n);
    REQ(val.size() == (long)st.size() && ix.size() == val.size(), "unique gave ", val.size(), " values and ", ix.size(), " indices, there are ", st.size());
    long k = 0; for (double x : st) {
        REQ(val(k) == x, "value ", k, " is ", val(k), ", expected ", x);
        long i = (long)ix(k); REQ(i >= 0 && i < (long)n && v(i) == x, "index ", i, " does not point at value ", x);
        for (long j = 0; j < i; ++j) REQ(v(j) != x, "index ", i, " is not the first occurrence of ", x); ++k;
    }
}
LAW(where_, 3000) {
    size_t n = s.dim(0, 40, 700); BVec v((long)n); for (size_t i = 0; i < n; ++i) v((long)i) = s.b(); IVec r = C::where<BVec, IVec>(v);
    c.log("v", v.transpose()); c.nt(n > 2); long k = 0;
    for (size_t i = 0; i < n; ++i) if (v((long)i)) { REQ(k < r.size() && r(k) == (long)i, "index ", i, " missing from where"); ++k; }
    REQ(k == r.size(), "where gave extra indices");
}
LAW(where_number, 3000) {         // any nonzero value selects its position
    size_t n = s.dim(0, 30, 700); int st = style(s); Vec v = vec(s, n, st); for (size_t i = 0; i < n; ++i) if (s.chance(40)) v((long)i) = s.b() ? 0.0 : -0.0;
    c.log("v", v.transpose()); IVec r = C::where<Vec, IVec>(v); long k = 0; size_t z = 0;
    for (size_t i = 0; i < n; ++i) { if (v((long)i) != 0) { REQ(k < r.size() && r(k) == (long)i, "index ", i, " missing from where"); ++k; } else z++; }
    REQ(k == r.size(), "where gave extra indices"); c.nt(z > 0 && k > 0);
    IVec w = v.template cast<Eigen::Index>(); IVec q = C::where<IVec, IVec>(w); k = 0;
    for (size_t i = 0; i < n; ++i) if (w((long)i) != 0) { REQ(k < q.size() && q(k) == (long)i, "index ", i, " missing from where over integers"); ++k; }
    REQ(k == q.size(), "where gave extra indices");
}
LAW(stack, 4000) {
    size_t n = s.dim(1, 8, 100), d = s.dim(1, 8, 60), e = s.dim(1, 8, 60); int st = style(s); Mat a = mat(s, n, d, st), b = mat(s, n, e, st), h = C::hstack<Mat>(a, b);
    c.log("a", a); c.log("b", b); c.nt(n > 1); shape("hstack", h, (long)n, (long)(d + e));
    REQ(exact(Mat(h.leftCols((long)d)), a) && exact(Mat(h.rightCols((long)e)), b), "hstack is not [a b]");
    Mat at = a.transpose(), bt = b.transpose(), v = C::vstack<Mat>(at, bt); shape("vstack", v, (long)(d + e), (long)n);
    REQ(exact(v, Mat(h.transpose())), "vstack is not [a; b]");
    size_t bad = n + 1 + s.sz(0, 3); Mat w = mat(s, bad, d, st);
    must_throw<std::invalid_argument>("hstack of different heights", [&] { C::hstack<Mat>(a, w); });
    Mat wt = w.transpose(); must_throw<std::invalid_argument>("vstack of different widths", [&] { C::vstack<Mat>(at, wt); });
}
LAW(flatten_vec2mat, 4000) {
    size_t n = s.dim(1, 8, 100), d = s.dim(1, 8, 60); Mat m = mat(s, n, d, style(s)); Vec f = C::flatten<Mat, Vec>(m); c.log("m", m); c.nt(n > 1 && d > 1);
    REQ(f.size() == (long)(n * d), "flatten has ", f.size(), " entries");
    VV vv(n); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < d; ++j) { REQ(f((long)(i * d + j)) == m((long)i, (long)j), "flatten is not row by row at (", i, ",", j, ")"); vv[i].push_back(m((long)i, (long)j)); }
    REQ(exact(C::vec2mat<Mat>(vv), m), "vec2mat differs from the nested list");
    std::vector<double> fl = C::flatten(vv); REQ(exact(C::vec2mat<Vec>(fl), f), "flattened list differs from the flattened matrix");
    if (n > 1) { size_t k = s.sz(1, n - 1); if (s.b()) vv[k].push_back(1); else vv[k].pop_back(); must_throw<std::invalid_argument>("ragged list", [&] { C::vec2mat<Mat>(vv); }); }
}
LAW(repeat_, 3000) {
    size_t n = s.dim(1, 6, 100), d = s.dim(1, 6, 60); int k = (int)s.i(1, 5), ax = (int)s.i(0, 1); Mat m = mat(s, n, d, style(s)), r = C::repeat<Mat>(m, k, ax);
    c.log("m", m); c.log("k", k); c.log("axis", ax); c.nt(k > 1); shape("repeat", r, (long)n * (ax ? 1 : k), (long)d * (ax ? k : 1));
    for (long i = 0; i < r.rows(); ++i) for (long j = 0; j < r.cols(); ++j) REQ(r(i, j) == m(i % (long)n, j % (long)d), "repeat differs at (", i, ",", j, ")");
}
LAW(clip_fmin, 4000) {
    size_t n = s.dim(1, 8, 100), d = s.dim(1, 8, 60); int st = style(s); Mat m = mat(s, n, d, st); double a = num(s, st), b = num(s, st); if (a > b) std::swap(a, b);
    Mat r = C::clip<Mat>(m, b, a), f = C::fmin<Mat>(m, a); c.log("m", m); c.log("lo", a); c.log("hi", b); c.nt(n * d > 2);
    shape("clip", r, (long)n, (long)d); shape("fmin", f, (long)n, (long)d);
    for (long i = 0; i < m.size(); ++i) { double x = m.data()[i];
        REQ(r.data()[i] == (x < a ? a : x > b ? b : x), "clip(", x, ") to [", a, ",", b, "] gave ", r.data()[i]); REQ(f.data()[i] == (x < a ? x : a), "fmin(", x, ",", a, ") gave ", f.data()[i]); }
}
LAW(norm_, 4000) {
    size_t n = s.dim(1, 8, 100), d = s.dim(1, 8, 60); Mat m = mat(s, n, d, style(s)); size_t ax = (size_t)s.i(0, 1); int ord = s.pick(std::vector<int>{2, 1, Eigen::Infinity});
    Mat r = C::norm<Mat>(m, ax, ord); c.log("m", m); c.log("axis", ax); c.log("ord", ord); c.nt(n > 1 && d > 1);
    long L = ax ? (long)n : (long)d; REQ(r.size() == L, "norm has ", r.size(), " entries, expected ", L);
    for (long k = 0; k < L; ++k) { double e = 0; for (double x : lane(m, (int)ax, k)) e = ord == 2 ? e + x * x : ord == 1 ? e + std::fabs(x) : std::max(e, std::fabs(x)); if (ord == 2) e = std::sqrt(e); same("norm", r.data()[k], e); }
}
LAW(map_max, 3000) {
    size_t n = s.sz(1, 20); std::map<int, long> m; for (size_t i = 0; i < n; ++i) m[(int)s.small(20)] = s.small(8); auto r = C::max_element(m); c.log("n", n); c.nt(m.size() > 1);
    REQ(m.count(r.first) && m[r.first] == r.second, "max_element gave a pair that is not in the map"); for (auto& p : m) REQ(p.second <= r.second, "max_element missed value ", p.second);
}
LAW(str_int, 2000) { long v = s.small(100000); std::string t = std::to_string(v); if (s.chance(20)) t = "  " + t; c.log("text", t); c.nt(v != 0); REQ(C::string_to_integer<long>(t) == v, "string_to_integer(", t, ") gave ", C::string_to_integer<long>(t)); }
LAW(bad_axis, 1000) {
    Mat m = mat(s, s.sz(1, 5), s.sz(1, 5), INT); int ax = s.b() ? (int)s.i(2, 9) : (int)s.i(-9, -2); c.log("axis", ax); c.nt();
    must_throw<std::invalid_argument>("argmax", [&] { C::argmax<Mat, Vec, IVec>(m, ax); }); must_throw<std::invalid_argument>("argmin", [&] { C::argmin<Mat, Vec, IVec>(m, ax); });
    must_throw<std::invalid_argument>("sort", [&] { C::sort<Mat>(m, ax); }); must_throw<std::invalid_argument>("argsort", [&] { C::argsort<Mat, IMat, IVec>(m, ax); });
}
#include "pbt_main.hpp"
