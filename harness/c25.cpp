// C25 transaction encoder and hash tree
#include "common.hpp"
static const std::vector<size_t> SPACING{37, 256, 1000, 65537, 100003, (size_t)1 << 32, ((size_t)1 << 40) + 3};   // distances between item identifiers
using Tr = std::vector<std::vector<size_t>>;
static Tr trans(Source& s, size_t nmax, size_t lmax, size_t items) { Tr t(s.dim(0, nmax, 300)); for (auto& x : t) { x.resize(s.sz(0, lmax)); for (auto& v : x) v = s.draw(items); } size_t m = items > 20 && s.b() ? s.pick(SPACING) : 1, o = m > 1 ? s.draw(9) : 0; for (auto& x : t) for (auto& v : x) v = v * m + o; return t; }
LAW(encoder, 12000) {
    size_t items = s.pick(std::vector<size_t>{3, 8, 15, 60}); Tr t = trans(s, 15, 8, items), t0 = t; c.log("transactions", t); std::set<size_t> all; size_t nz = 0; for (auto& x : t) { all.insert(x.begin(), x.end()); nz += std::set<size_t>(x.begin(), x.end()).size(); } c.nt(t.size() > 1 && all.size() > 1); c.label(all.empty() ? "no items" : nz == all.size() * t.size() ? "dense" : "sparse");
    openml::preprocessing::TransactionEncoder<size_t> e; auto sp = e.fit_transform(t); REQ(t == t0, "transactions modified"); REQ(sp.rows() == (long)t.size() && sp.cols() == (long)all.size(), "encoded as ", sp.rows(), "x", sp.cols(), ", expected ", t.size(), "x", all.size()); REQ((size_t)sp.nonZeros() == nz, sp.nonZeros(), " entries stored for ", nz, " (transaction, item) pairs"); std::vector<size_t> col(all.begin(), all.end()); std::set<std::pair<long, long>> got;
    for (long i = 0; i < sp.outerSize(); ++i) for (Eigen::SparseMatrix<size_t, Eigen::RowMajor>::InnerIterator it(sp, i); it; ++it) { REQ(it.col() >= 0 && it.col() < (long)col.size(), "column ", it.col()); REQ(it.value() == col[(size_t)it.col()], "entry of item ", col[(size_t)it.col()], " holds ", it.value()); REQ(std::count(t[(size_t)it.row()].begin(), t[(size_t)it.row()].end(), it.value()) > 0, "transaction ", it.row(), " does not hold item ", it.value()); REQ(got.insert({it.row(), it.col()}).second, "entry stored twice"); }
}
LAW(encoder_int, 2500) {      // signed item identifiers
    std::vector<std::vector<int>> t(s.sz(1, 10)); std::set<int> all; for (auto& x : t) { x.resize(s.sz(0, 6)); for (auto& v : x) { v = (int)s.small(9); all.insert(v); } } c.nt(all.size() > 1); openml::preprocessing::TransactionEncoder<int> e; auto sp = e.fit_transform(t); std::vector<int> col(all.begin(), all.end()); REQ(sp.rows() == (long)t.size() && sp.cols() == (long)col.size(), "shape"); Eigen::MatrixXi D(sp); for (size_t i = 0; i < t.size(); ++i) for (size_t j = 0; j < col.size(); ++j) { bool has = std::count(t[i].begin(), t[i].end(), col[j]) > 0; REQ(D((long)i, (long)j) == (has ? col[j] : 0), "transaction ", i, " item ", col[j], " encoded as ", D((long)i, (long)j)); }
}
struct Node { bool is_leaf = true; std::map<std::vector<size_t>, size_t> bucket; std::map<size_t, std::shared_ptr<Node>> children; };
LAW(hash_tree, 12000) {       // histories of insertions, counts and queries
    size_t len = s.dim(1, 4, 9, 60), items = s.pick(std::vector<size_t>{3, 5, 9, 40}), leaf = s.dim(1, 6, 40, 60), child = s.dim(1, 7, 60, 60); bool dflt = s.chance(10); openml::tree::HashTree<Node, size_t> a(leaf, child), b; auto& t = dflt ? b : a; size_t ops = s.dim(1, 60, 600); std::map<std::vector<size_t>, size_t> m; size_t unit = s.chance(30) ? s.pick(SPACING) : 1, off = unit > 1 ? s.draw(5) : 0; auto item = [&] { std::vector<size_t> v(len); for (auto& x : v) x = s.draw(items) * unit + off; if (s.b()) std::sort(v.begin(), v.end()); return v; }; std::ostringstream log; std::vector<size_t> cl{7}; std::vector<std::vector<size_t>> il{{1}}; size_t hits = 0;
    c.log("length", len); c.log("max_leaf", leaf); c.log("max_child", child); c.log("default", dflt);
    auto query = [&](size_t sup) { t.compute_frequency_itemsets(sup, cl, il); REQ(cl.size() == il.size(), cl.size(), " counts for ", il.size(), " itemsets"); std::map<std::vector<size_t>, size_t> got, want; for (size_t i = 0; i < il.size(); ++i) REQ(got.insert({il[i], cl[i]}).second, "an itemset is reported twice"); for (auto& p : m) if (p.second >= sup) want.insert(p); for (auto& p : want) { REQ(got.count(p.first), "an itemset counted ", p.second, " times is not reported at support ", sup); REQ(got[p.first] == p.second, "an itemset counted ", p.second, " times is reported with ", got[p.first]); } REQ(got.size() == want.size(), got.size(), " itemsets reported at support ", sup, ", expected ", want.size()); };
    for (size_t i = 0; i < ops; ++i) { int k = (int)s.draw(10); if (k < 4) { auto v = item(); t.build_tree(v); m.insert({v, 0}); log << "insert" << pbt::cat(v.size()) << ":"; for (auto x : v) log << x << ","; } else if (k < 9) { auto v = item(); if (!m.empty() && s.chance(70)) { auto it = m.begin(); std::advance(it, (long)s.draw(m.size())); v = it->first; } t.add_support(v); auto it = m.find(v); if (it != m.end()) { ++it->second; ++hits; } log << "count:"; for (auto x : v) log << x << ","; } else { size_t sup = s.sz(0, 4); log << "query " << sup; c.log("ops", log.str()); query(sup); } log << " "; }
    c.log("ops", log.str()); c.nt(m.size() > leaf && hits > 2); c.label(m.size() > leaf ? "splits" : "one leaf"); query(s.sz(0, 3)); query(1); query(0);
}
#include "pbt_main.hpp"
