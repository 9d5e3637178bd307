// C05 list (std::vector) primitives agree with their set / sequence definitions
#include "common.hpp"
namespace C = openml::common;
static VV table(Source& s, size_t n, size_t d) { int st = s.b() ? BIN : style(s); VV v(n, std::vector<double>(d)); for (auto& r : v) for (auto& x : r) x = num(s, st); if (n > 1 && s.b()) for (size_t i = 1; i < n; ++i) if (s.chance(40)) v[i] = v[s.sz(0, i - 1)]; return v; }
LAW(sortrows_, 6000) {
    size_t n = s.dim(1, 40, 300), d = s.dim(1, 4, 30); bool rev = s.b(); VV v = table(s, n, d), v0 = v, r = C::sortrows<double>(v, rev); c.log("x", v); c.log("reverse", rev); c.nt(n > 2); c.label(n > 16 ? "n>16" : "n<=16");
    REQ(v == v0, "input modified"); VV e = v; std::sort(e.begin(), e.end()); if (rev) std::reverse(e.begin(), e.end()); REQ(r == e, "rows are not in lexicographic order");
}
LAW(sort2d, 6000) {
    size_t n = s.dim(1, 24, 300), d = s.dim(1, 6, 30); int ax = (int)s.i(0, 1); bool rev = s.b(); VV v = table(s, n, d), r = C::sort<double>(v, ax, rev); c.log("x", v); c.log("axis", ax); c.log("reverse", rev); c.nt(n > 1 && d > 1);
    VV e = v; if (ax == 1) for (auto& x : e) { std::sort(x.begin(), x.end()); if (rev) std::reverse(x.begin(), x.end()); }
    else for (size_t j = 0; j < d; ++j) { std::vector<double> t; for (auto& x : v) t.push_back(x[j]); std::sort(t.begin(), t.end()); if (rev) std::reverse(t.begin(), t.end()); for (size_t i = 0; i < n; ++i) e[i][j] = t[i]; }
    REQ(r == e, "2d sort along axis ", ax, " is wrong");
}
LAW(argsort1d, 6000) {
    size_t n = s.dim(0, 40, 700); auto v = svec(s, n, s.b() ? BIN : style(s)); bool rev = s.b(); auto r = C::argsort<double>(v, rev); c.log("x", v); c.log("reverse", rev); c.nt(n > 2);
    REQ(r.size() == n, "argsort has ", r.size(), " entries"); std::vector<char> seen(n, 0);
    for (size_t i = 0; i < n; ++i) { REQ(r[i] < n && !seen[r[i]]++, "not a permutation"); if (i) { REQ(rev ? v[r[i - 1]] >= v[r[i]] : v[r[i - 1]] <= v[r[i]], "not in order at ", i); if (v[r[i - 1]] == v[r[i]]) REQ(r[i - 1] < r[i], "equal values not in input order at ", i); } }
}
LAW(combinations_, 4000) {
    size_t n = s.sz(0, 9), k = s.sz(0, 10); std::vector<long> v(n); for (auto& x : v) x = s.small(20); bool dis = s.b(); if (dis) for (size_t i = 0; i < n; ++i) v[i] = (long)i * 3 + 1;
    auto r = C::combinations<long>(v, k); c.log("x", v); c.log("k", k); c.nt(k > 0 && k < n);
    std::vector<std::vector<long>> e; if (k <= n) for (unsigned m = 0; m < (1u << n); ++m) if ((size_t)__builtin_popcount(m) == k) { std::vector<long> t; for (size_t i = 0; i < n; ++i) if (m >> i & 1) t.push_back(v[i]); e.push_back(t); }
    auto rs = r; std::sort(rs.begin(), rs.end()); std::sort(e.begin(), e.end()); REQ(rs == e, "the ", r.size(), " combinations are not the ", e.size(), " subsequences of length ", k);
}
LAW(contains_, 4000) {
    std::vector<long> a(s.dim(0, 6, 60)), b(s.dim(0, 8, 200)); for (auto& x : a) x = s.small(4); for (auto& x : b) x = s.small(4); bool e = true; for (long x : a) if (std::find(b.begin(), b.end(), x) == b.end()) e = false;
    c.log("a", a); c.log("b", b); c.nt(!a.empty() && !b.empty()); c.label(e ? "subset" : "not subset"); REQ(C::contains<long>(a, b) == e, "contains gave ", !e);
}
LAW(difference_, 6000) {
    std::vector<double> a(s.dim(0, 10, 200)), b(s.dim(0, 10, 200)); for (auto& x : a) x = (double)s.small(6); for (auto& x : b) x = (double)s.small(6); bool dosort = s.b(); if (!dosort) { std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); }
    auto a0 = a, b0 = b; auto r = C::difference<double>(a, b, dosort); c.log("a", a); c.log("b", b); c.log("sort", dosort); c.nt(a.size() > 1 && !b.empty()); REQ(a == a0 && b == b0, "input modified");
    std::set<double> e(a.begin(), a.end()); for (double x : b) e.erase(x); REQ(r == std::vector<double>(e.begin(), e.end()), "difference is wrong: got ", r.size(), " elements, expected ", e.size());
}
LAW(merge_, 3000) {
    std::vector<long> a(s.dim(0, 8, 300)), b(s.dim(0, 8, 300)); long k = 1; for (auto& x : a) x = k++; for (auto& x : b) x = -(k++); auto r = C::merge<long>(a, b); c.log("a", a); c.log("b", b); c.nt(a.size() != b.size() && !a.empty() && !b.empty());
    std::vector<long> e; for (size_t i = 0; i < std::max(a.size(), b.size()); ++i) { if (i < a.size()) e.push_back(a[i]); if (i < b.size()) e.push_back(b[i]); } REQ(r == e, "merge does not interleave the two lists");
}
LAW(dedup, 6000) {
    size_t n = s.dim(1, 24, 300), d = s.dim(1, 3, 30); VV v = table(s, n, d), r = C::remove_duplicate_rows<double>(v); c.log("x", v); VV e; for (auto& x : v) if (std::find(e.begin(), e.end(), x) == e.end()) e.push_back(x);
    c.nt(e.size() > 1 && e.size() < n); c.label(e.size() == n ? "all distinct" : e.size() == 1 ? "all equal" : "mixed"); REQ(r == e, "kept ", r.size(), " rows, there are ", e.size(), " distinct ones (in order of first occurrence)");
}
LAW(is_equal_, 4000) {
    auto a = svec(s, s.sz(0, 8), BIN), b = s.b() ? a : svec(s, s.sz(0, 8), BIN); if (s.chance(30) && !b.empty()) b.pop_back(); if (s.chance(20)) b.push_back(1); c.log("a", a); c.log("b", b); c.nt(a.size() > 1 && b.size() > 1); c.label(a == b ? "equal" : "different");
    REQ(C::is_equal<double>(a, b) == (a == b), "is_equal gave ", !(a == b)); REQ(C::is_equal<double>(b, a) == (a == b), "is_equal is not symmetric");
}
LAW(slice_, 6000) {
    size_t n = s.dim(1, 9, 60), d = s.dim(1, 9, 60); VV v = table(s, n, d); size_t a = s.sz(0, n), b = s.sz(0, n), p = s.sz(0, d), q = s.sz(0, d); c.log("x", v); c.log("r0", a); c.log("r1", b); c.log("c0", p); c.log("c1", q);
    bool ok = a <= b && b < n && p <= q && q < d; c.label(ok ? "valid" : "invalid"); c.nt(ok && b > a);
    if (!ok) must_throw<std::invalid_argument>("slice out of range", [&] { C::slice<double>(v, a, b, p, q); });
    else { VV r = C::slice<double>(v, a, b, p, q); REQ(r.size() == b - a + 1, "slice has ", r.size(), " rows"); for (size_t i = a; i <= b; ++i) REQ(r[i - a] == std::vector<double>(v[i].begin() + (long)p, v[i].begin() + (long)q + 1), "row ", i, " of the slice differs"); }
    std::vector<double> w = v[0]; bool k = p <= q && q < d; if (!k) must_throw<std::invalid_argument>("slice out of range", [&] { C::slice<double>(w, p, q); }); else REQ((C::slice<double>(w, p, q) == std::vector<double>(w.begin() + (long)p, w.begin() + (long)q + 1)), "1d slice differs");
}
LAW(empty_rejected, 500) {
    VV e, f(s.sz(1, 3)); c.nt(); const VV& x = s.b() ? e : f; c.log("rows", x.size());
    must_throw<std::invalid_argument>("sort", [&] { C::sort<double>(x); }); must_throw<std::invalid_argument>("sortrows", [&] { C::sortrows<double>(x); }); must_throw<std::invalid_argument>("remove_duplicate_rows", [&] { C::remove_duplicate_rows<double>(x); });
    VV t = table(s, 2, 2); int ax = (int)s.i(2, 5); must_throw<std::invalid_argument>("sort with a bad axis", [&] { C::sort<double>(t, ax); });
}
#include "pbt_main.hpp"
