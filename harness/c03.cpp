// C03 random generators respect shape, range and distribution
#include "common.hpp"
namespace R = openml::random;
LAW(rand_range, 5000) {
    size_t n = s.dim(0, 12, 100), d = s.dim(0, 12, 100); double lo = num(s, style(s)), w = std::fabs(num(s, style(s))) + 0.01, hi = lo + w;
    Mat m = R::rand<Mat>(n, d, lo, hi); c.log("n", n); c.log("d", d); c.log("lo", lo); c.log("hi", hi); c.nt(n * d > 1);
    shape("rand", m, (long)n, (long)d);
    for (long i = 0; i < m.size(); ++i) REQ(m.data()[i] >= lo && m.data()[i] <= hi, "rand gave ", m.data()[i], " outside [", lo, ",", hi, ")");
    Mat u = R::rand<Mat>(n, d); for (long i = 0; i < u.size(); ++i) REQ(u.data()[i] >= 0 && u.data()[i] <= 1, "default range left [0,1)");
}
LAW(randint_range, 5000) {
    size_t n = s.dim(0, 12, 100), d = s.dim(0, 12, 100); int lo = (int)s.small(50), hi = lo + (int)s.i(0, 40);
    auto m = R::randint<int>(n, d, lo, hi); c.log("n", n); c.log("d", d); c.log("lo", lo); c.log("hi", hi); c.nt(n * d > 1);
    REQ(m.rows() == (long)n && m.cols() == (long)d, "shape");
    for (long i = 0; i < m.size(); ++i) REQ(m.data()[i] >= lo && m.data()[i] <= hi, "randint gave ", m.data()[i], " outside [", lo, ",", hi, "]");
}
LAW(randint_all_values, 300) {
    int lo = (int)s.small(20), k = (int)s.i(1, 6); auto m = R::randint<int>(30, 40, lo, lo + k - 1); std::map<int, int> h; c.log("lo", lo); c.log("k", k); c.nt(k > 1);
    for (long i = 0; i < m.size(); ++i) h[m.data()[i]]++;
    REQ((int)h.size() == k, "1200 draws from ", k, " values gave ", h.size(), " distinct ones");
    for (auto& p : h) REQ(p.second > 1200 / k / 3, "value ", p.first, " drawn only ", p.second, " of 1200 times out of ", k, " values");
    // positions are filled independently: columns are not copies of each other
    bool same = true; for (long j = 1; j < m.cols(); ++j) if (!(m.col(j).array() == m.col(0).array()).all()) same = false;
    REQ(k == 1 || !same, "all columns are equal");
}
LAW(randint_far, 300) {       // few values at any distance from zero, or every one of many
    bool many = s.chance(12); long k = many ? (long)s.sz(100, 2500) : (long)s.sz(1, 6), lo = (long)(s.sym() * std::pow(10.0, 1 + 8 * s.unit())); if (s.chance(30)) lo = s.pick(std::vector<long>{255, 256, 1000, 4096, 32767, 65535, 65536, 1000000, INT_MAX - 4000L, INT_MIN}); size_t n = many ? (size_t)k * 40 : 300; std::set<long> h; c.log("lo", lo); c.log("k", k); c.nt(k > 1); c.label(many ? "many values" : "few values"); bool wide = s.b(); c.log("wide", wide);
    if (wide) { auto m = R::randint<long>(n, 1, lo, lo + k - 1); for (long i = 0; i < m.size(); ++i) h.insert(m.data()[i]); } else { auto m = R::randint<int>(1, n, (int)lo, (int)(lo + k - 1)); for (long i = 0; i < m.size(); ++i) h.insert(m.data()[i]); }
    REQ(*h.begin() >= lo && *h.rbegin() < lo + k, "draws from ", *h.begin(), " to ", *h.rbegin(), " outside [", lo, ",", lo + k - 1, "]"); REQ((long)h.size() == k, (long)n, " draws from ", k, " values gave ", h.size(), " distinct ones");
}
LAW(rand_dist, 300) {
    double lo = num(s, QUARTER), w = 0.5 + std::fabs(num(s, QUARTER)); Mat m = R::rand<Mat>(60, 50, lo, lo + w); c.log("lo", lo); c.log("w", w); c.nt();
    double mean = m.mean(), var = (m.array() - mean).square().mean();
    near_("mean of uniform draws", mean, lo + w / 2, 8 * w / std::sqrt(12.0 * 3000));
    REQ(var > w * w / 12 * 0.85 && var < w * w / 12 * 1.15, "variance of uniform draws is ", var, ", expected ", w * w / 12);
    REQ(m.minCoeff() < lo + 0.05 * w && m.maxCoeff() > lo + 0.95 * w, "uniform draws do not cover their range");
}
LAW(randn_dist, 300) {
    double mu = s.chance(30) ? 0.0 : num(s, QUARTER), sd = 0.25 + std::fabs(num(s, QUARTER)); c.log("mean", mu); c.log("std", sd); c.nt();
    bool def = s.chance(20); Mat m = def ? R::randn<Mat>(60, 50) : R::randn<Mat>(60, 50, mu, sd); if (def) { mu = 0; sd = 1; }
    shape("randn", m, 60, 50);
    double mean = m.mean(), var = (m.array() - mean).square().mean();
    near_("mean of normal draws", mean, mu, 8 * sd / std::sqrt(3000.0));
    REQ(var > sd * sd * 0.78 && var < sd * sd * 1.25, "variance of normal draws is ", var, ", expected ", sd * sd);
    long in1 = 0; for (long i = 0; i < m.size(); ++i) in1 += std::fabs(m.data()[i] - mu) < sd;
    REQ(in1 > 1800 && in1 < 2300, in1, " of 3000 normal draws lie within one standard deviation");
    bool same = true; for (long j = 1; j < m.cols(); ++j) if (!exact(Mat(m.col(j)), Mat(m.col(0)))) same = false;
    REQ(!same, "all columns are equal");
}
LAW(permutation, 5000) {
    size_t n = s.dim(0, 60, 1000); IVec p = R::permutation<IVec>(n); c.log("n", n); c.nt(n > 2);
    REQ(p.size() == (long)n, "permutation of ", n, " has ", p.size(), " entries");
    std::vector<int> seen(n, 0); for (long i = 0; i < p.size(); ++i) { REQ(p(i) >= 0 && p(i) < (long)n, "index ", p(i), " out of range"); REQ(!seen[(size_t)p(i)]++, "index ", p(i), " twice"); }
}
LAW(permutation_uniform, 40) {
    std::map<std::vector<long>, int> h; for (int r = 0; r < 720; ++r) { IVec p = R::permutation<IVec>(3); h[{p(0), p(1), p(2)}]++; }
    c.nt(); c.log("kinds", h.size());
    REQ(h.size() == 6, "720 permutations of 3 gave ", h.size(), " kinds");
    for (auto& k : h) REQ(k.second > 50 && k.second < 220, "a permutation of 3 came up ", k.second, " of 720 times");
}
LAW(fresh, 300) {                 // consecutive calls are not copies
    c.nt(); Mat a = R::rand<Mat>(5, 5), b = R::rand<Mat>(5, 5); REQ(!exact(a, b), "two calls of rand agree");
    Mat d = R::randn<Mat>(5, 5), e = R::randn<Mat>(5, 5); REQ(!exact(d, e), "two calls of randn agree");
    IVec p = R::permutation<IVec>(30), q = R::permutation<IVec>(30); REQ(!exact(p, q), "two permutations agree"); c.log("a", a(0, 0));
}
#include "pbt_main.hpp"
