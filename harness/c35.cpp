// C35 memory is given back: fitting, refitting, failing and destroying leave nothing behind
#include "models.hpp"
#include "methods/rule_model/apriori.hpp"
#include "core/tree/kd_tree.hpp"
#include "core/tree/hash_tree.hpp"
#include "core/preprocessing/transaction_encoder.hpp"
extern "C" size_t __sanitizer_get_current_allocated_bytes();
using namespace mdl;
static size_t held() { return __sanitizer_get_current_allocated_bytes(); }
// run f several times; what is allocated afterwards must not grow once lazily created statics exist
template <class F> static void steady(const char* what, F f) { f(); f(); size_t a = held(); f(); f(); f(); size_t b = held(); REQ(b <= a, what, " leaves ", b - a, " bytes behind in three repetitions"); }
LAW(lifetimes, 2500) {        // construct, fit (or fail), use, copy, destroy
    int k = (int)s.draw(NKIND); size_t d = dims_for(s, k), n = min_rows(k, d) + s.dim(0, 10, 120, 10); Mat X, Z = cont(s, 4, d, 3); Vec y; training(s, k, n, d, X, y); Cfg g = config(s, c, k, limit(k, n, d)); if (s.chance(20)) { g.it = 1; c.label("short"); } Make mk = make(g); pbt::u64 st = s.draw(1000000); c.log("X", X); c.log("y", y.transpose()); c.nt(); bool cp = s.b();
    steady("a model's lifetime", [&] { auto a = mk(); if (mdl::fit(*a, X, y, st, 5)) { a->rows(Z); a->state(); if (cp) { auto b = a->clone(); if (b) { b->rows(Z); mdl::fit(*b, X, y, st + 1, 5); } } } });
}
LAW(refits, 2500) {           // one long-lived model, fitted and asked again and again
    int k = (int)s.draw(NKIND); size_t d = dims_for(s, k), n = min_rows(k, d) + s.dim(0, 10, 120, 10); Mat X, X2, Z = cont(s, 4, d, 3); Vec y, y2; training(s, k, n, d, X, y); training(s, k, n, d, X2, y2); Make mk = maker(s, c, k, limit(k, n, d)); pbt::u64 st = s.draw(1000000); c.log("X", X); c.log("y", y.transpose()); c.nt(); auto a = mk(); if (!mdl::fit(*a, X, y, st, 5)) c.label("not converged");
    steady("refitting", [&] { if (mdl::fit(*a, X2, y2, st, 5)) a->rows(Z); if (mdl::fit(*a, X, y, st, 5)) { a->rows(Z); a->state(); } });
    if (mdl::fit(*a, X, y, st, 5)) steady("asking a fitted model", [&] { a->rows(Z); a->state(); });
}
LAW(structures, 2500) {       // trees, encoder and miner
    int how = (int)s.draw(4); c.label(how == 0 ? "kd tree" : how == 1 ? "hash tree" : how == 2 ? "encoder" : "apriori"); c.nt();
    if (how == 0) { size_t n = s.sz(1, 30), d = s.sz(1, 3), k = s.sz(1, n), lf = s.sz(1, 6); Mat X = cont(s, n, d), Z = cont(s, 3, d, 3); c.log("X", X); steady("a kd tree", [&] { openml::tree::KDTree<double> t(X, lf, "euclidean"); t.query(Z, k); t.query_radius(Z, 1.0); auto u = t; u.query(Z, 1); }); openml::tree::KDTree<double> t(X, lf, "euclidean"); steady("asking a kd tree", [&] { t.query(Z, k); }); return; }
    std::vector<std::vector<size_t>> t(s.sz(1, 10)); size_t items = s.sz(2, 6); for (auto& x : t) { x.resize(s.sz(how == 1, 4)); for (auto& v : x) v = s.draw(items); } c.log("transactions", t);
    struct N { bool is_leaf; size_t index; std::map<std::vector<size_t>, size_t> bucket; std::map<size_t, std::shared_ptr<N>> children; N() : is_leaf(true), index(0) {} N(bool l, size_t i = 0) : is_leaf(l), index(i) {} };
    if (how == 1) { std::map<size_t, std::vector<std::vector<size_t>>> by; size_t m = s.sz(1, 4), q = s.sz(1, 4); for (auto& x : t) { std::sort(x.begin(), x.end()); by[x.size()].push_back(x); } auto& l = by.begin()->second; steady("a hash tree", [&] { openml::tree::HashTree<N, size_t> h(m, q); for (auto& x : l) h.build_tree(x); for (auto& x : l) h.add_support(x); std::vector<size_t> cn; std::vector<std::vector<size_t>> it; h.compute_frequency_itemsets(1, cn, it); }); }
    else if (how == 2) steady("an encoder", [&] { openml::preprocessing::TransactionEncoder<size_t> e; auto m = e.fit_transform(t); });
    else { double sup = 0.1 + s.unit(); openml::rule_model::Apriori<size_t> a(sup, 0.5); steady("mining", [&] { openml::rule_model::Apriori<size_t> b(sup, 0.5); try { b.fit_transform(t); b.get_rules(); } catch (const std::runtime_error&) {} try { a.fit_transform(t); } catch (const std::runtime_error&) {} }); }
}
#include "pbt_main.hpp"
