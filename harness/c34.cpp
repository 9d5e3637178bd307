// C34 copies of models and search trees are independent values
#include "models.hpp"
#include "methods/rule_model/apriori.hpp"
#include "core/tree/kd_tree.hpp"
using namespace mdl;
struct Seen { Mat r; std::vector<double> s; };
static Seen look(Any& a, const Mat& Z) { Seen o; o.r = a.rows(Z); o.s = a.state(); return o; }
static void same_seen(const char* what, const Seen& a, const Seen& b) { REQ(exact(a.r, b.r), what, ": other outputs"); REQ(a.s.size() == b.s.size(), what, ": attributes of another size"); for (size_t i = 0; i < a.s.size(); ++i) REQ(eq(a.s[i], b.s[i]), what, ": attribute value ", i, " is ", b.s[i], ", not ", a.s[i]); }
struct Two { int k; Mat X, X2, Z, Z2; Vec y, y2; Make mk; pbt::u64 st; };
static Two two(Source& s, Ctx& c) {
    Two t; t.k = (int)s.draw(NKIND); size_t d = dims_for(s, t.k), n = min_rows(t.k, d) + s.dim(0, 8, 120, 10), d2 = dims_for(s, t.k), n2 = min_rows(t.k, d2) + s.dim(0, 8, 120, 10); training(s, t.k, n, d, t.X, t.y); training(s, t.k, n2, d2, t.X2, t.y2); t.mk = maker(s, c, t.k, std::min(limit(t.k, n, d), limit(t.k, n2, d2))); t.Z = cont(s, 4, d, 3); t.Z2 = cont(s, 4, d2, 3); t.st = s.draw(1000000); c.log("X", t.X); c.log("y", t.y.transpose()); c.log("X2", t.X2); c.log("y2", t.y2.transpose()); c.nt(); return t;
}
LAW(copies, 8000) {           // a copy answers like the original, and neither is affected by what happens to the other
    Two t = two(s, c); auto a = t.mk(); if (!mdl::fit(*a, t.X, t.y, t.st, 5)) pbt::discard(); Seen A = look(*a, t.Z); auto b = a->clone(); if (!b) { c.label("not copyable"); return; } same_seen("copy", A, look(*b, t.Z)); same_seen("copied model", A, look(*a, t.Z));
    auto f = t.mk(); bool ok2 = mdl::fit(*f, t.X2, t.y2, t.st + 1, 6); Seen F; if (ok2) F = look(*f, t.Z2);
    switch ((int)s.draw(4)) {
    case 0: c.label("copy destroyed"); b.reset(); { auto q = a->clone(); auto r = q->clone(); } same_seen("model whose copies were destroyed", A, look(*a, t.Z)); break;
    case 1: c.label("original destroyed"); a.reset(); same_seen("copy of a destroyed model", A, look(*b, t.Z)); break;
    case 2: { c.label("original refitted"); bool ok = mdl::fit(*a, t.X2, t.y2, t.st + 1, 6); REQ(ok == ok2, "refit of a copied model ends otherwise"); same_seen("copy of a refitted model", A, look(*b, t.Z)); if (ok) same_seen("refitted model that has a copy", F, look(*a, t.Z2)); break; }
    default: { c.label("copy refitted"); bool ok = mdl::fit(*b, t.X2, t.y2, t.st + 1, 6); REQ(ok == ok2, "refit of a copy ends otherwise"); same_seen("model whose copy was refitted", A, look(*a, t.Z)); if (ok) same_seen("refitted copy", F, look(*b, t.Z2)); } }
}
LAW(assignment, 6000) {       // assigning and moving transfer the whole model
    Two t = two(s, c); auto a = t.mk(), b = t.mk(); if (!mdl::fit(*a, t.X, t.y, t.st, 5)) pbt::discard(); Seen A = look(*a, t.Z); bool used = s.b(), mv = s.b(); if (used) mdl::fit(*b, t.X2, t.y2, t.st + 1, 6); c.label(used ? "onto a fitted model" : "onto a fresh model"); c.label(mv ? "move" : "copy"); c.log("move", mv);
    if (s.chance(30)) { b = a->moved(); if (!b) { c.label("not movable"); return; } same_seen("moved model", A, look(*b, t.Z)); if (s.b()) a.reset(); same_seen("moved model", A, look(*b, t.Z)); return; }
    if (!b->assign(*a, mv)) { c.label("not assignable"); return; } same_seen("assigned model", A, look(*b, t.Z)); if (!mv) same_seen("source of an assignment", A, look(*a, t.Z)); a.reset(); same_seen("assigned model whose source is gone", A, look(*b, t.Z)); auto f = t.mk(); bool okf = mdl::fit(*f, t.X2, t.y2, t.st + 1, 6), okb = mdl::fit(*b, t.X2, t.y2, t.st + 1, 6); REQ(okf == okb, "refit after an assignment ends otherwise"); if (okf) same_seen("model refitted after an assignment", look(*f, t.Z2), look(*b, t.Z2));
}
LAW(kdtree, 4000) {           // search trees
    using T = openml::tree::KDTree<double>; size_t n = s.sz(1, 25), d = s.sz(1, 3), n2 = s.sz(1, 25), k = s.sz(1, std::min(n, n2)), lf = s.sz(1, 6); Mat X = cont(s, n, d), X2 = cont(s, n2, d), Z = cont(s, 3, d, 3); c.log("X", X); c.log("X2", X2); c.log("leaf", lf); c.nt(n > 1); auto mk = [&](const Mat& M) { return std::unique_ptr<T>(new T(M, lf, "euclidean")); };
    auto ask = [&](const T& t) { auto r = t.query(Z, k); Mat i = r.second.template cast<double>(); return beside({r.first, i}); }; auto a = mk(X), o = mk(X2); Mat A = ask(*a), B = ask(*o); int how = (int)s.draw(4); c.label(how == 0 ? "copy destroyed" : how == 1 ? "original destroyed" : how == 2 ? "assigned" : "moved");
    if (how == 0) { { T b(*a); REQ(exact(ask(b), A), "a copied tree answers otherwise"); } REQ(exact(ask(*a), A), "a tree answers otherwise once its copy is gone"); }
    else if (how == 1) { T b(*a); a.reset(); REQ(exact(ask(b), A), "a copied tree answers otherwise once its original is gone"); }
    else if (how == 2) { *o = *a; REQ(exact(ask(*o), A), "an assigned tree answers otherwise"); a.reset(); REQ(exact(ask(*o), A), "an assigned tree answers otherwise once its source is gone"); *o = *mk(X2); REQ(exact(ask(*o), B), "a tree assigned again answers otherwise"); }
    else { T b(std::move(*a)); a.reset(); REQ(exact(ask(b), A), "a moved tree answers otherwise"); std::vector<T> v; for (int i = 0; i < 3; ++i) { v.push_back(T(X, lf, "euclidean")); REQ(exact(ask(v[0]), A), "a tree in a growing vector answers otherwise"); } }
}
LAW(apriori, 1500) {
    using Tr = std::vector<std::vector<size_t>>; auto gen = [&] { Tr t(s.sz(1, 8)); size_t items = s.sz(2, 6); for (auto& x : t) { x.resize(s.sz(0, 4)); for (auto& v : x) v = s.draw(items); } return t; }; Tr t = gen(), u = gen(); c.log("transactions", t); c.log("others", u); using Ap = openml::rule_model::Apriori<size_t>; Ap a(0.3, 0.4); try { a.fit_transform(t); } catch (const std::runtime_error&) { pbt::discard(); } auto R = a.get_rules(); c.nt(!R.empty()); Ap b(a), d(0.9, 0.9); d = a; REQ(b.get_rules() == R && d.get_rules() == R, "a copy has other rules"); try { b.fit_transform(u); } catch (const std::runtime_error&) {} REQ(a.get_rules() == R && d.get_rules() == R, "running a copy changes the rules of the original"); Ap e(0.3, 0.4); bool ok = true, ok2 = true; try { e.fit_transform(u); } catch (const std::runtime_error&) { ok = false; } try { d.fit_transform(u); } catch (const std::runtime_error&) { ok2 = false; } REQ(ok == ok2, "an assigned miner ends otherwise"); if (ok) REQ(d.get_rules() == e.get_rules(), "an assigned miner finds other rules"); REQ(a.get_rules() == R, "running an assigned miner changes its source");
}
#include "pbt_main.hpp"
