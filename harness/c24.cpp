// C24 k-nearest-neighbours classifier
#include "common.hpp"
#include "methods/neighbors/k_nearest_neighbors.hpp"
using KN = openml::neighbors::KNearestNeighbors<double>;
static double dist(const Mat& X, long i, const Mat& Z, long q, int m) { double t = 0; for (long j = 0; j < X.cols(); ++j) { double a = std::fabs(X(i, j) - Z(q, j)); t = m == 0 ? t + a * a : m == 1 ? t + a : std::max(t, a); } return m == 0 ? std::sqrt(t) : t; }
static const char* MET[] = {"euclidean", "manhattan", "chebyshev"};
struct D { Mat X, Z; Vec y; };
static D gen(Source& s, Ctx& c, size_t nmin, size_t nmax) {
    D d; size_t n = s.dim(nmin, nmax, 400), f = s.dim(1, 4, 20), K = s.dim(1, 4, 20); auto cls = class_values(s, K); auto p = perm(s, K); d.X = s.b() ? cont(s, n, f) : mat(s, n, f, style(s, false)); d.y.resize((long)n); for (size_t i = 0; i < n; ++i) d.y((long)i) = s.b() ? cls[p[(size_t)(d.X((long)i, 0) > 0) % K]] : cls[s.draw(K)]; d.Z = cont(s, s.sz(1, 6), f, 3.0); for (long i = 0; i < d.Z.rows(); ++i) if (s.b()) d.Z.row(i) = d.X.row((long)s.sz(0, n - 1));
    if (n > 1 && s.chance(15)) {     // samples almost, but not exactly, as far from a query as another one
        long q = (long)s.sz(0, (size_t)d.Z.rows() - 1); for (size_t r = s.sz(1, 6); r--;) { long i = (long)s.sz(0, n - 1), j = (long)s.sz(0, n - 1); if (i == j) continue; double e = s.pick(std::vector<double>{1e-9, -1e-9, 1e-8, -1e-8, 1e-7, -1e-6}); d.X.row(j) = d.Z.row(q) + (s.b() ? 1 : -1) * (1 + e) * (d.X.row(i) - d.Z.row(q)); }
    }
    c.log("X", d.X); c.log("y", d.y.transpose()); c.log("Z", d.Z); return d;
}
// may label v win the vote of the k nearest, whatever the order of equidistant samples?
static bool may_win(const D& d, long q, size_t k, int m, double v) {
    std::vector<std::pair<double, double>> a; for (long i = 0; i < d.X.rows(); ++i) a.push_back({dist(d.X, i, d.Z, q, m), d.y(i)}); std::sort(a.begin(), a.end()); double lim = a[k - 1].first, tol = 1e-11 * (1 + lim); std::map<double, std::pair<size_t, size_t>> cnt; size_t def = 0; for (auto& p : a) { if (p.first < lim - tol) { ++cnt[p.second].first; ++def; } else if (p.first <= lim + tol) ++cnt[p.second].second; }
    size_t rest = k - def; if (!cnt.count(v)) return false; size_t take = std::min(rest, cnt[v].second), cv = cnt[v].first + take; rest -= take; size_t cap = 0; for (auto& e : cnt) if (e.first != v) { if (e.second.first > cv) return false; cap += std::min(e.second.second, cv - e.second.first); } return cv > 0 && cap >= rest;
}
LAW(vote, 9000) {
    D d = gen(s, c, 1, 40); size_t k = s.chance(20) ? (size_t)d.X.rows() : s.dim(1, std::min<size_t>((size_t)d.X.rows(), 9), (size_t)d.X.rows(), 40), leaf = s.dim(1, 12, 100, 30); bool kd = s.b(); int m = (int)s.draw(kd ? 3 : 2); c.log("k", k); c.log("leaf_size", leaf); c.log("solver", kd ? "kdtree" : "brute"); c.log("metric", MET[m]); c.nt(k > 1 && d.X.rows() > (long)k); c.label(kd ? "kdtree" : "brute"); c.label(MET[m]);
    KN a(leaf, k, kd ? "kdtree" : "brute", MET[m]); Mat X0 = d.X, Z0 = d.Z; Vec y0 = d.y; a.fit(d.X, d.y); Vec p = a.predict(d.Z); REQ(exact(d.X, X0) && exact(d.Z, Z0) && exact(d.y, y0), "input modified"); REQ(p.size() == d.Z.rows(), "wrong number of predictions"); for (long q = 0; q < p.size(); ++q) REQ(may_win(d, q, k, m, p(q)), "query ", q, " is predicted ", p(q), ", which does not win the vote of its ", k, " nearest samples");
}
LAW(defaults, 800) { D d = gen(s, c, 15, 50); c.nt(); KN a; a.fit(d.X, d.y); Vec p = a.predict(d.Z); REQ(p.size() == d.Z.rows(), "wrong number of predictions"); for (long q = 0; q < p.size(); ++q) REQ(may_win(d, q, 15, 0, p(q)), "query ", q, " is predicted ", p(q), ", which does not win the vote of its 15 nearest samples"); }
LAW(agreement, 4000) {        // both solvers and all leaf sizes agree when there is no tie
    D d = gen(s, c, 2, 40); size_t k = 2 * s.sz(0, std::min<size_t>(((size_t)d.X.rows() - 1) / 2, 5)) + 1; d.X += cont(s, (size_t)d.X.rows(), (size_t)d.X.cols(), 0.1); int m = (int)s.draw(2); c.log("k", k); c.log("metric", MET[m]); c.nt(k > 1); std::set<double> u(d.y.data(), d.y.data() + d.y.size()); if (u.size() > 2) for (long i = 0; i < d.y.size(); ++i) d.y(i) = d.y(i) == *u.begin() ? *u.begin() : *u.rbegin(); for (long q = 0; q < d.Z.rows(); ++q) { std::vector<double> e; for (long i = 0; i < d.X.rows(); ++i) e.push_back(dist(d.X, i, d.Z, q, m)); std::sort(e.begin(), e.end()); for (size_t i = 1; i < e.size(); ++i) if (e[i] - e[i - 1] < 1e-9) pbt::discard(); }
    KN a(s.sz(1, 3), k, "kdtree", MET[m]), b(s.sz(4, 50), k, "kdtree", MET[m]), e(s.sz(0, 9), k, "brute", MET[m]); a.fit(d.X, d.y); b.fit(d.X, d.y); e.fit(d.X, d.y); Vec p = a.predict(d.Z), r = b.predict(d.Z), t = e.predict(d.Z); REQ(exact(p, r), "predictions depend on the leaf size"); REQ(exact(p, t), "kdtree and brute force disagree");
}
LAW(self, 2500) { D d = gen(s, c, 1, 30); d.X += cont(s, (size_t)d.X.rows(), (size_t)d.X.cols(), 0.1); bool kd = s.b(); c.nt(d.X.rows() > 2); c.label(kd ? "kdtree" : "brute"); for (long i = 0; i < d.X.rows(); ++i) for (long j = 0; j < i; ++j) if ((d.X.row(i) - d.X.row(j)).norm() < 1e-6) pbt::discard(); KN a(s.sz(1, 6), 1, kd ? "kdtree" : "brute", "euclidean"); a.fit(d.X, d.y); Vec p = a.predict(d.X); for (long i = 0; i < p.size(); ++i) REQ(p(i) == d.y(i), "the nearest neighbour of training sample ", i, " is itself, yet it is predicted ", p(i), " instead of ", d.y(i)); }
LAW(rejects, 1500) {
    D d = gen(s, c, 1, 12); int how = (int)s.draw(4); c.log("how", how); c.nt(); c.label(cat("how ", how)); size_t n = (size_t)d.X.rows(), k = s.sz(1, n); if (how == 0) { KN a(3, k, s.pick(std::vector<std::string>{"", "ball_tree", "KDTree", "auto"}), "euclidean"); must_throw<std::invalid_argument>("unknown solver", [&] { a.fit(d.X, d.y); }); } else if (how == 1) { bool kd = s.b(); KN a(3, k, kd ? "kdtree" : "brute", s.pick(std::vector<std::string>{"", "cosine", "Euclidean"})); must_throw<std::invalid_argument>("unknown metric", [&] { a.fit(d.X, d.y); a.predict(d.Z); }); } else if (how == 2) { bool kd = s.b(); size_t kk = n + s.sz(1, 3); KN a(3, kk, kd ? "kdtree" : "brute", "euclidean"); REQ(throws([&] { a.fit(d.X, d.y); a.predict(d.Z); }), "more neighbours than samples are voted on"); } else { KN a(0, k, "kdtree", "manhattan"); must_throw<std::invalid_argument>("leaf size zero", [&] { a.fit(d.X, d.y); a.predict(d.Z); }); }
}
#include "pbt_main.hpp"
