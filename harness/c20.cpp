// C20 k-means
#include "common.hpp"
#include "methods/cluster/kmeans.hpp"
using KM = openml::cluster::KMeans<double>;
static double d2(const Mat& X, long i, const Mat& C, long j) { return (X.row(i) - C.row(j)).squaredNorm(); }
struct In { Mat X, Z; size_t k; std::string init; u_int64_t st; };
static In gen(Source& s, Ctx& c, size_t nmax) {
    In g; size_t n = s.dim(1, nmax, nmax * 10, 6), f = s.dim(1, 4, 20); g.X = s.b() ? cont(s, n, f) : mat(s, n, f, style(s, false)); if (s.chance(30)) for (long i = 0; i < g.X.rows(); ++i) g.X.row(i).array() += 10.0 * (double)s.draw(3); g.Z = cont(s, s.sz(1, 8), f, 6.0); g.k = s.dim(1, std::min<size_t>(n, 4), std::min<size_t>(n, 14), 60); g.init = s.b() ? "random" : "kmeans++"; g.st = pbt::env_state;
    c.log("X", g.X); c.log("k", g.k); c.log("init", g.init); c.log("Z", g.Z); c.nt(n > 2 && g.k > 1); c.label(g.init); c.label(g.k == 1 ? "k=1" : g.k == n ? "k=n" : "1<k<n"); return g;
}
static void run(const In& g, size_t iters, double tol, Vec& lx, Vec& lz, size_t num_init = 1) { pbt::env_state = g.st; KM m(g.init, num_init, g.k, iters, tol); Mat X0 = g.X; m.fit(g.X); lx = m.predict(g.X); lz = m.predict(g.Z); REQ(exact(g.X, X0), "data modified"); REQ(lx.size() == g.X.rows() && lz.size() == g.Z.rows(), "wrong number of labels"); for (long i = 0; i < lx.size(); ++i) REQ(lx(i) >= 0 && lx(i) < (double)g.k && lx(i) == std::floor(lx(i)), "label ", lx(i), " with ", g.k, " clusters"); }
static bool means(const In& g, const Vec& l, Mat& C, std::vector<long>& cnt) { C = Mat::Zero((long)g.k, g.X.cols()); cnt.assign(g.k, 0); for (long i = 0; i < l.size(); ++i) { C.row((long)l(i)) += g.X.row(i); ++cnt[(size_t)l(i)]; } bool all = true; for (size_t j = 0; j < g.k; ++j) { if (cnt[j]) C.row((long)j) /= (double)cnt[j]; else all = false; } return all; }
static void nearest(const char* what, const Mat& X, const Vec& l, const Mat& C, const std::vector<long>& cnt) { for (long i = 0; i < X.rows(); ++i) { long a = (long)l(i); if (!cnt[(size_t)a]) continue; double da = d2(X, i, C, a); for (long j = 0; j < C.rows(); ++j) if (cnt[(size_t)j]) { double dj = d2(X, i, C, j); REQ(da <= dj + 1e-9 * (1 + dj), what, " ", i, " is given cluster ", a, " at squared distance ", da, " although the mean of cluster ", j, " is at ", dj); } } }
LAW(fixed_point, 12000) {     // a converged clustering is a fixed point of Lloyd's iteration
    In g = gen(s, c, 30); Vec lx, lz; run(g, 400, 1e-12, lx, lz, s.sz(1, 10)); Mat C; std::vector<long> cnt; means(g, lx, C, cnt); nearest("sample", g.X, lx, C, cnt); nearest("query", g.Z, lz, C, cnt);
}
LAW(close_queries, 3000) {    // queries almost, but not exactly, half way between two centres
    In g = gen(s, c, 24); size_t ni = s.sz(1, 3); Vec lx, lz; run(g, 400, 1e-12, lx, lz, ni); Mat C; std::vector<long> cnt; if (g.k < 2 || !means(g, lx, C, cnt)) pbt::discard(); Mat Z((long)s.sz(1, 8), g.X.cols()); for (long i = 0; i < Z.rows(); ++i) { long a = (long)s.draw(g.k), b = (long)s.draw(g.k); double e = s.pick(std::vector<double>{1e-9, 1e-8, 1e-7, 1e-6, 1e-4}); Z.row(i) = 0.5 * (C.row(a) + C.row(b)) + (s.b() ? e : -e) * (C.row(b) - C.row(a)); } g.Z = Z; c.log("Z", Z);
    run(g, 400, 1e-12, lx, lz, ni); double sc = 1 + maxabs(C); for (long i = 0; i < Z.rows(); ++i) for (long j = 0; j < C.rows(); ++j) { double da = std::sqrt(d2(Z, i, C, (long)lz(i))), dj = std::sqrt(d2(Z, i, C, j)); REQ(da <= dj + 1e-11 * sc, "query ", i, " is given cluster ", lz(i), " at distance ", da, " although centre ", j, " is nearer by ", da - dj); }
}
LAW(descent, 6000) {          // the within-cluster sum of squares never grows with the number of iterations
    In g = gen(s, c, 24); double prev = INFINITY; Vec lx, lz; size_t T = s.dim(2, 7, 25, 20); for (size_t t = 0; t <= T; ++t) { run(g, t, 1e-12, lx, lz); Mat C; std::vector<long> cnt; means(g, lx, C, cnt); double J = 0; for (long i = 0; i < lx.size(); ++i) J += d2(g.X, i, C, (long)lx(i)); REQ(J <= prev + 1e-9 * (1 + J), "sum of squares grows from ", prev, " to ", J, " in iteration ", t); prev = J; }
}
// reference iteration; false when an assignment or the stopping test is a rounding tie
static bool assign(const Mat& X, const Mat& C, std::vector<long>& l) { l.assign((size_t)X.rows(), 0); for (long i = 0; i < X.rows(); ++i) { double b = INFINITY, sec = INFINITY; for (long j = 0; j < C.rows(); ++j) { double d = d2(X, i, C, j); if (d < b) { sec = b; b = d; l[(size_t)i] = j; } else sec = std::min(sec, d); } if (sec - b < 1e-9 * (1 + b)) return false; } return true; }
LAW(lloyd, 5000) {            // some choice of data rows as first centres explains every label
    In g = gen(s, c, 10); g.k = std::min<size_t>(g.k, 3); size_t T = s.dim(1, 6, 30, 40); double tol = s.pick(std::vector<double>{1e-12, 1e-4, 0.05, 0.3, 1.0, 5.0}); c.log("max_iter", T); c.log("tol", tol);
    for (long i = 0; i < g.X.rows(); ++i) for (long j = 0; j < i; ++j) if ((g.X.row(i) - g.X.row(j)).norm() < 1e-6) pbt::discard();
    Vec l0, z0, lx, lz; run(g, 0, tol, l0, z0); run(g, T, tol, lx, lz);
    std::vector<std::vector<long>> mem(g.k); for (long i = 0; i < l0.size(); ++i) mem[(size_t)l0(i)].push_back(i); for (size_t j = 0; j < g.k; ++j) REQ(!mem[j].empty(), "before the first iteration no sample belongs to cluster ", j, ", so its centre is not a data row of its own");
    std::vector<size_t> pos(g.k, 0); bool cand = false, tie = false, ok = false;
    while (true) {
        Mat C((long)g.k, g.X.cols()); for (size_t j = 0; j < g.k; ++j) C.row((long)j) = g.X.row(mem[j][pos[j]]); std::vector<long> a, b; bool t1 = assign(g.X, C, a), t2 = assign(g.Z, C, b), bad = false; if (!t1 || !t2) tie = true;
        else { for (long i = 0; i < l0.size(); ++i) bad |= (double)a[(size_t)i] != l0(i); for (long i = 0; i < z0.size(); ++i) bad |= (double)b[(size_t)i] != z0(i);
            if (!bad) { cand = true; for (size_t t = 0; t < T; ++t) { if (!assign(g.X, C, a)) { tie = true; break; } Mat N = C; for (size_t j = 0; j < g.k; ++j) { Mat m = Mat::Zero(1, g.X.cols()); long q = 0; for (size_t i = 0; i < a.size(); ++i) if (a[i] == (long)j) { m += g.X.row((long)i); ++q; } if (q) N.row((long)j) = m / (double)q; } double e = 0; for (size_t j = 0; j < g.k; ++j) e += (N.row((long)j) - C.row((long)j)).norm(); C = N; if (std::fabs(e - tol) < 1e-9) { tie = true; } if (e < tol) break; }
                if (!assign(g.X, C, a) || !assign(g.Z, C, b)) tie = true; else { bool m = true; for (long i = 0; i < lx.size(); ++i) m &= (double)a[(size_t)i] == lx(i); for (long i = 0; i < lz.size(); ++i) m &= (double)b[(size_t)i] == lz(i); ok |= m; } } }
        size_t j = 0; while (j < g.k && ++pos[j] == mem[j].size()) pos[j++] = 0; if (j == g.k) break;
    }
    if (ok) return; if (tie) pbt::discard(); REQ(cand, "the first partition is not that of ", g.k, " data rows as centres"); REQ(false, "no choice of data rows as first centres leads to these labels");
}
LAW(separated, 3000) {        // kmeans++ finds groups that are far apart
    size_t k = s.sz(2, 4), f = s.sz(1, 3); std::vector<long> own; for (size_t j = 0; j < k; ++j) { size_t q = s.sz(1, 6); for (size_t i = 0; i < q; ++i) own.push_back((long)j); } auto p = perm(s, own.size()); Mat X((long)own.size(), (long)f); std::vector<long> o2(own.size()); for (size_t i = 0; i < own.size(); ++i) { o2[i] = own[p[i]]; for (size_t j = 0; j < f; ++j) X((long)i, (long)j) = s.sym() * 1e-3; X((long)i, 0) += 5e3 * (double)(o2[i] * o2[i] + o2[i]); }
    bool dflt = k == 3 && s.b(); c.log("X", X); c.log("k", k); c.nt(); c.label(dflt ? "default" : "explicit"); KM a("kmeans++", 1, k, 100, 1e-4), b; KM& m = dflt ? b : a; m.fit(X); Vec l = m.predict(X); for (long i = 0; i < l.size(); ++i) for (long j = 0; j < i; ++j) REQ((l(i) == l(j)) == (o2[(size_t)i] == o2[(size_t)j]), "samples ", i, " and ", j, " of ", o2[(size_t)i] == o2[(size_t)j] ? "one group are separated" : "different groups share a cluster"); Mat Q = X; for (long i = 0; i < Q.rows(); ++i) Q(i, 0) += s.sym() * 1000; Vec lq = m.predict(Q); for (long i = 0; i < lq.size(); ++i) REQ(lq(i) == l(i), "a query near group ", o2[(size_t)i], " is given another cluster");
}
LAW(starts, 150) {            // different entropy gives different starts, all samples can be a centre
    size_t n = s.sz(3, 6); Mat X(n, 1); for (size_t i = 0; i < n; ++i) X((long)i, 0) = (double)(i * i) + s.unit(); std::string init = s.b() ? "random" : "kmeans++"; size_t k = init == "random" ? 2 : 1; c.log("X", X.transpose()); c.log("init", init); c.nt(); c.label(init);
    if (k == 2) { std::set<std::vector<double>> seen; for (int t = 0; t < 200; ++t) { KM m(init, 1, 2, 0, 1e-4); m.fit(X); Vec l = m.predict(X); seen.insert(std::vector<double>(l.data(), l.data() + l.size())); } REQ(seen.size() >= 2 * (n - 1), "only ", seen.size(), " different starting partitions in 200 fits of ", n, " samples"); }
    else { std::set<double> seen; Mat Z(4001, 1); (void)Z; KM m2("kmeans++", 1, 2, 0, 1e-4); std::set<std::vector<double>> parts; for (int t = 0; t < 300; ++t) { m2.fit(X); Vec l = m2.predict(X); parts.insert(std::vector<double>(l.data(), l.data() + l.size())); } REQ(parts.size() >= 2, "kmeans++ always starts alike"); }
}
#include "pbt_main.hpp"
