// C31 results are a function of inputs and entropy, not of what memory held before
#include "models.hpp"
#include "methods/rule_model/apriori.hpp"
#include <cstring>
#include <alloca.h>
// every block handed out is filled with a chosen byte while `fill` is set
static volatile int fill = -1;
extern "C" void* __libc_malloc(size_t); extern "C" void* __libc_realloc(void*, size_t);
extern "C" void* malloc(size_t n) { void* p = __libc_malloc(n); if (p && fill >= 0) std::memset(p, fill, n); return p; }
__attribute__((noinline)) static void spray(int b) { volatile char* p = (volatile char*)alloca(1 << 16); for (size_t i = 0; i < (1u << 16); ++i) p[i] = (char)b; }
struct Filled { Filled(int b) { spray(b); fill = b; } ~Filled() { fill = -1; } };
static const int BYTES[3] = {0x00, 0xff, 0x3f};
using namespace mdl;
struct Seen { bool ok = false; Mat R; std::vector<double> S; };
static Seen look(int b, const Make& mk, const Mat& X, const Vec& y, const Mat& Z, pbt::u64 st) {
    Seen r; Mat R; { Filled f(b); auto a = mk(); spray(b); r.ok = mdl::fit(*a, X, y, st, 11); if (r.ok) { spray(b); R = a->rows(Z); r.S = a->state(); } } r.R = R; return r;
}
static void agree(const Seen& p, const Seen& q, int b) {
    char h[8]; std::snprintf(h, sizeof h, "0x%02x", b); REQ(p.ok == q.ok, "the fit ", p.ok ? "succeeds" : "fails", " on fresh memory, not on memory holding ", h); if (!p.ok) return; REQ(p.R.rows() == q.R.rows() && p.R.cols() == q.R.cols() && p.S.size() == q.S.size(), "sizes depend on what memory held before (", h, ")"); for (long i = 0; i < p.R.rows(); ++i) for (long j = 0; j < p.R.cols(); ++j) REQ(eq(p.R(i, j), q.R(i, j)), "output (", i, ",", j, ") is ", p.R(i, j), " on zeroed memory, ", q.R(i, j), " on memory holding ", h); for (size_t i = 0; i < p.S.size(); ++i) REQ(eq(p.S[i], q.S[i]), "attribute value ", i, " is ", p.S[i], " on zeroed memory, ", q.S[i], " on memory holding ", h);
}
LAW(memory, 12000) {          // configured models
    int k = (int)s.draw(NKIND); size_t d = dims_for(s, k), n = min_rows(k, d) + s.dim(0, 10, 120, 10); Mat X; Vec y; training(s, k, n, d, X, y); Make mk = maker(s, c, k, limit(k, n, d)); Mat Z = cont(s, 5, d, 4); c.log("X", X); c.log("y", y.transpose()); c.nt(); pbt::u64 st = s.draw(1000000); Seen p = look(0, mk, X, y, Z, st); for (int i = 1; i < 3; ++i) agree(p, look(BYTES[i], mk, X, y, Z, st), BYTES[i]); if (!p.ok) c.label("reported as failed");
}
LAW(defaults, 1500) {         // default-constructed models
    int k = s.pick(std::vector<int>{0, 1, 2, 3, 7, 8, 9, 10, 11, 12, 13, 14, 15, 17, 18}); size_t d = s.sz(4, 6), n = s.sz(40, 60); Mat X; Vec y; training(s, k, n, d, X, y); if (s.b()) X *= 0.1; Mat Z = cont(s, 5, d, 4); c.label(NAMES[k]); c.log("model", NAMES[k]); c.log("X", X); c.log("y", y.transpose()); c.nt(); std::ostringstream quiet; auto* old = std::cout.rdbuf(quiet.rdbuf()); Cfg g; g.k = k; g.mode = 1; Make mk = make(g); pbt::u64 st = s.draw(1000000); Seen p = look(0, mk, X, y, Z, st), q = look(0xff, mk, X, y, Z, st); std::cout.rdbuf(old); agree(p, q, 0xff);
}
LAW(refit, 4000) {            // also on a second fit
    int k = (int)s.draw(NKIND); Mat X[2]; Vec y[2]; size_t lim = 9, d = 1; for (int i = 0; i < 2; ++i) { d = dims_for(s, k); size_t n = min_rows(k, d) + s.dim(0, 8, 120, 10); training(s, k, n, d, X[i], y[i]); lim = std::min(lim, limit(k, n, d)); c.log("X", X[i]); } Make mk = maker(s, c, k, lim); Mat Z = cont(s, 4, d, 4); c.nt(); pbt::u64 st = s.draw(1000000); Seen v[2]; for (int i = 0; i < 2; ++i) { Filled f(BYTES[i]); auto a = mk(); mdl::fit(*a, X[0], y[0], st, 1); spray(BYTES[i]); v[i].ok = mdl::fit(*a, X[1], y[1], st + 1, 1); if (v[i].ok) { v[i].R = a->rows(Z); v[i].S = a->state(); } } agree(v[0], v[1], 0xff);
}
LAW(apriori, 3000) {          // association rules
    std::vector<std::vector<size_t>> t(s.sz(2, 10)); size_t items = s.sz(2, 6); for (auto& x : t) { x.resize(s.sz(1, 5)); for (auto& v : x) v = s.draw(items); } double sup = s.pick(std::vector<double>{0.2, 0.4}); c.log("transactions", t); c.nt(); std::vector<std::pair<bool, decltype(openml::rule_model::Apriori<size_t>().get_rules())>> r; for (int i = 0; i < 3; ++i) { Filled f(BYTES[i]); openml::rule_model::Apriori<size_t> a(sup, 0.4); spray(BYTES[i]); bool ok = true; try { a.fit_transform(t); } catch (const std::runtime_error&) { ok = false; } r.emplace_back(ok, ok ? a.get_rules() : decltype(a.get_rules())()); } for (int i = 1; i < 3; ++i) REQ(r[0] == r[i], "rules depend on what memory held before");
}
#include "pbt_main.hpp"
