// C37: trees and neighbours
#include "precision.hpp"
#include "methods/tree/decision_tree_classifier.hpp"
#include "methods/tree/decision_tree_regressor.hpp"
#include "methods/neighbors/k_nearest_neighbors.hpp"
namespace TR = openml::decision_tree;
LAW(trees, 2500) {            // decision trees predict their training data alike
    size_t n = s.sz(4, 20), d = s.sz(1, 3); bool reg = s.b(); Mat X = grid(s, n, d); for (long i = 1; i < X.rows(); ++i) for (long k = 0; k < i; ++k) if (X(i, 0) == X(k, 0)) { X(i, 0) = 100 + (double)i; } Vec y((long)n); for (long i = 0; i < y.size(); ++i) y(i) = reg ? (double)s.small(40) / 8 : (double)s.draw(3); if (!reg) y(0) = 0, y(1) = 1; bool x = s.b(); c.log("X", X); c.log("y", y.transpose()); c.log("criterion", x); c.nt(); c.label(reg ? "regressor" : "classifier");
    auto f = [&](auto z) { using T = decltype(z); MX<T> A = to<T>(X); VX<T> t = tov<T>(y); if (reg) { TR::DecisionTreeRegressor<T> m(x ? "squared_error" : "absolute_error", 2, 0, 50, 1e-7, 1e-9); m.fit(A, t); return up(m.predict(A)); } TR::DecisionTreeClassifier<T> m(x ? "gini" : "entropy", 2, 0, 50, 1e-12); m.fit(A, t); return Mat(up(m.predict(A))); };
    Mat a = f(1.0), b = f(1.0f); if (disagree(a, Mat(y), 1e-9)) { c.label("not grown out"); pbt::discard(); } near("decision tree on its training data", a, b, 1e-5);
}
LAW(neighbours, 2500) {
    size_t n = s.sz(2, 24), d = s.sz(1, 3), k = s.sz(1, std::min<size_t>(n, 5)), leaf = s.sz(1, 6); static const char* MET[] = {"euclidean", "manhattan", "chebyshev"}; std::string met = MET[s.draw(3)]; Mat X = grid(s, n, d), Z = grid(s, 4, d); Vec y((long)n); for (long i = 0; i < y.size(); ++i) y(i) = (double)s.draw(3); double rad = (double)s.draw(40) / 8 + 0.0625; c.log("X", X); c.log("Z", Z); c.log("k", k); c.log("metric", met); c.log("leaf", leaf); c.nt(n > leaf); 
    openml::tree::KDTree<double> a(X, leaf, met); openml::tree::KDTree<float> b(to<float>(X), leaf, met); auto p = a.query(Z, k); auto q = b.query(to<float>(Z), k); near("kd-tree distances", Mat(p.first), up(q.first), 1e-5);
    auto u = a.query_radius(Z, rad); auto v = b.query_radius(to<float>(Z), (float)rad); REQ(u.size() == v.size(), "radius query lists"); for (size_t i = 0; i < u.size(); ++i) { std::set<size_t> e, g; for (auto& w : u[i]) if (std::fabs(w.first - rad) > 1e-4) e.insert(w.second); for (auto& w : v[i]) if (std::fabs(w.first - rad) > 1e-4) g.insert(w.second); REQ(e == g, "radius query ", i, " finds ", g.size(), " samples in single precision, ", e.size(), " in double precision"); }
    if (s.b()) { bool br = s.b() && met != "chebyshev"; openml::neighbors::KNearestNeighbors<double> m(leaf, k, br ? "brute" : "kdtree", met); openml::neighbors::KNearestNeighbors<float> w(leaf, k, br ? "brute" : "kdtree", met); m.fit(X, y); w.fit(to<float>(X), tov<float>(y)); c.label(br ? "brute" : "kdtree"); bool tie = false; for (long i = 0; i < Z.rows(); ++i) { std::vector<double> ds; for (long r = 0; r < X.rows(); ++r) { auto df = (X.row(r) - Z.row(i)).cwiseAbs(); ds.push_back(met == "euclidean" ? df.norm() : met == "manhattan" ? df.sum() : df.maxCoeff()); } std::vector<long> ix(ds.size()); std::iota(ix.begin(), ix.end(), 0L); std::sort(ix.begin(), ix.end(), [&](long g, long h) { return ds[(size_t)g] < ds[(size_t)h]; }); if (k < n && ds[(size_t)ix[k]] - ds[(size_t)ix[k - 1]] < 1e-4) tie = true; std::map<double, int> vote; for (size_t r = 0; r < k; ++r) vote[y(ix[r])]++; int best = 0, cnt = 0; for (auto& t : vote) { if (t.second > best) best = t.second, cnt = 1; else if (t.second == best) ++cnt; } if (cnt > 1) tie = true; } if (tie) { c.label("tie"); return; } near("nearest neighbours", Mat(m.predict(Z)), up(w.predict(to<float>(Z))), 0); }
}
