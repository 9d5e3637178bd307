// C23 KD-tree
#include "common.hpp"
using KD = openml::tree::KDTree<double>;
static const char* MET[] = {"euclidean", "manhattan", "chebyshev"};
static double dist(const Mat& X, long i, const Mat& Z, long q, int m) { double t = 0; for (long j = 0; j < X.cols(); ++j) { double a = std::fabs(X(i, j) - Z(q, j)); t = m == 0 ? t + a * a : m == 1 ? t + a : std::max(t, a); } return m == 0 ? std::sqrt(t) : t; }
struct In { Mat X, Z; size_t leaf; int met; std::unique_ptr<KD> t; };
static void gen(Source& s, Ctx& c, In& g) {
    size_t n = s.chance(20) ? s.dim(1, 150, 1500) : s.sz(1, 30), f = s.dim(1, 5, 20); int st = (int)s.draw(6); g.X = st < 3 ? cont(s, n, f) : mat(s, n, f, st == 3 ? (int)INT : st == 4 ? (int)BIN : (int)WIDE); if (s.chance(20)) for (long i = 0; i < g.X.rows(); ++i) g.X.row(i).array() += 20.0 * (double)s.draw(3); if (s.chance(15)) g.X.col((long)s.sz(0, f - 1)) *= 50; if (s.chance(10)) for (long j = 1; j < g.X.cols(); ++j) g.X.col(j) = g.X.col(0) * (double)j;
    size_t q = s.dim(1, 5, 40, 12); g.Z.resize((long)q, (long)f); double sc = 1 + maxabs(g.X); for (size_t i = 0; i < q; ++i) { int k = (int)s.draw(4); long r = (long)s.sz(0, n - 1); for (size_t j = 0; j < f; ++j) g.Z((long)i, (long)j) = k == 0 ? g.X(r, (long)j) : k == 1 ? g.X((long)s.sz(0, n - 1), (long)j) : k == 2 ? (st >= 3 ? (double)s.small(8) : g.X(r, (long)j) + s.sym() * 0.3) : s.sym() * sc * 3; }
    g.leaf = s.b() ? s.sz(1, 3) : s.dim(1, 15, 100, 30); g.met = (int)s.draw(3); bool dflt = s.chance(10); if (dflt) { g.met = 0; g.leaf = 10; g.t.reset(new KD(g.X)); c.label("default"); } else g.t.reset(new KD(g.X, g.leaf, MET[g.met]));
    c.log("X", g.X); c.log("queries", g.Z); c.log("leaf_size", g.leaf); c.log("metric", MET[g.met]); c.nt(n > g.leaf && f > 1); c.label(MET[g.met]); c.label(n <= g.leaf ? "two leaves" : n <= 4 * g.leaf ? "shallow" : "deep");
}
LAW(nearest, 9000) {
    In g; gen(s, c, g); long n = g.X.rows(); size_t k = s.chance(30) ? s.sz(1, (size_t)n) : s.sz(1, std::min<size_t>((size_t)n, 6)); c.log("k", k); Mat Z0 = g.Z; auto r = g.t->query(g.Z, k); REQ(exact(g.Z, Z0), "queries modified"); shape("distances", r.first, g.Z.rows(), (long)k); REQ(r.second.rows() == g.Z.rows() && r.second.cols() == (long)k, "indices have another shape");
    for (long q = 0; q < g.Z.rows(); ++q) { std::vector<double> d; for (long i = 0; i < n; ++i) d.push_back(dist(g.X, i, g.Z, q, g.met)); auto e = d; std::sort(e.begin(), e.end()); std::set<long> seen; for (size_t j = 0; j < k; ++j) { long ix = (long)r.second(q, (long)j); double dj = r.first(q, (long)j), tol = 1e-12 * (1 + e[j]); REQ(ix >= 0 && ix < n, "query ", q, " neighbour ", j, " has index ", ix); REQ(seen.insert(ix).second, "query ", q, " lists sample ", ix, " twice"); near_("distance of the sample listed", dj, d[(size_t)ix], tol); REQ(std::fabs(dj - e[j]) <= tol, "query ", q, " neighbour ", j, " at distance ", dj, ", the true one is at ", e[j]); } }
}
LAW(radius, 9000) {
    In g; gen(s, c, g); long n = g.X.rows(); double rad; long r0 = (long)s.sz(0, (size_t)n - 1); double dd = dist(g.X, r0, g.Z, 0, g.met); int how = (int)s.draw(4); rad = how == 0 ? dd : how == 1 ? dd * (0.5 + s.unit()) : how == 2 ? s.unit() * (1 + maxabs(g.X)) * 2 : (double)s.draw(6); c.log("radius", rad); Mat Z0 = g.Z; auto r = g.t->query_radius(g.Z, rad); REQ(exact(g.Z, Z0), "queries modified"); REQ((long)r.size() == g.Z.rows(), r.size(), " answers for ", g.Z.rows(), " queries"); size_t tot = 0;
    for (long q = 0; q < g.Z.rows(); ++q) { std::map<long, double> got; for (auto& p : r[(size_t)q]) { REQ((long)p.second >= 0 && (long)p.second < n, "index ", p.second); REQ(got.insert({(long)p.second, p.first}).second, "query ", q, " lists sample ", p.second, " twice"); } tot += got.size(); for (long i = 0; i < n; ++i) { double d = dist(g.X, i, g.Z, q, g.met); bool has = got.count(i) > 0; if (has) near_("distance of the sample listed", got[i], d, 1e-12 * (1 + d)); double tie = 1e-12 * (1 + rad); bool exactly = d == rad && d == std::floor(d) && maxabs(g.X) < 1e4 && (g.X.array() == g.X.array().floor()).all() && (g.Z.array() == g.Z.array().floor()).all(); if (exactly) c.label("on the radius"); if (d < rad - tie || exactly) REQ(has, "query ", q, " misses sample ", i, " at distance ", d, " within ", rad); if (d > rad + tie) REQ(!has, "query ", q, " lists sample ", i, " at distance ", d, " beyond ", rad); } } c.label(tot == 0 ? "nothing found" : (long)tot == n * g.Z.rows() ? "everything found" : "some found");
}
LAW(rejects, 1500) {
    size_t n = s.sz(1, 12); Mat X = cont(s, n, s.sz(1, 3)); int how = (int)s.draw(3); c.log("X", X); c.log("how", how); c.nt(); c.label(cat("how ", how)); if (how == 0) { std::string m = s.pick(std::vector<std::string>{"", "Euclidean", "minkowski", "cosine", "l2"}); must_throw<std::invalid_argument>("unknown metric", [&] { KD t(X, 3, m); }); } else if (how == 1) { std::string m = MET[s.draw(3)]; must_throw<std::invalid_argument>("leaf size zero", [&] { KD t(X, 0, m); }); } else { KD t(X, s.sz(1, 5), MET[s.draw(3)]); size_t k = s.b() ? 0 : n + s.sz(1, 4); must_throw<std::invalid_argument>("number of neighbours out of range", [&] { t.query(X, k); }); }
}
#include "pbt_main.hpp"
