// C08 entropy and Gini impurity
#include "common.hpp"
namespace M = openml::math;
static Vec lab(Source& s, size_t n, int k) { Vec v((long)n); auto cls = class_values(s, (size_t)k); auto p = perm(s, (size_t)k); for (size_t i = 0; i < n; ++i) v((long)i) = cls[p[s.draw((unsigned)k)]]; return v; }
LAW(formula, 12000) {
    size_t n = s.dim(1, 40, 1500); int k = (int)s.dim(1, 6, 80); Vec y = lab(s, n, k); bool w = s.b(); Vec ww; if (w) { ww.resize((long)n); for (size_t i = 0; i < n; ++i) ww((long)i) = 0.05 + s.unit() * 2; } std::map<double, double> p; for (size_t i = 0; i < n; ++i) p[y((long)i)] += (w ? ww((long)i) : 1.0) / (double)n;
    double e = 0, gi = 1; for (auto& q : p) { e -= q.second * std::log2(q.second); gi -= q.second * q.second; } c.log("y", y.transpose()); c.log("w", ww.transpose()); c.nt(p.size() > 1); c.label(w ? "weighted" : "unweighted");
    double E = w ? M::entropy<Vec>(y, ww) : M::entropy<Vec>(y), G = w ? M::gini<Vec>(y, ww) : M::gini<Vec>(y); near_("entropy", E, e, 1e-10); near_("gini", G, gi, 1e-10);
}
LAW(bounds, 8000) {
    size_t n = s.dim(1, 40, 1500); int k = (int)s.dim(1, 6, 80); Vec y = lab(s, n, k); std::set<double> d(y.data(), y.data() + n); double K = (double)d.size(), E = M::entropy<Vec>(y), G = M::gini<Vec>(y); c.log("y", y.transpose()); c.nt(K > 1);
    REQ(E >= -1e-12 && E <= std::log2(K) + 1e-10, "entropy ", E, " outside [0, log2 ", K, "]"); REQ(G >= -1e-12 && G <= 1 - 1 / K + 1e-10, "gini ", G, " outside [0, 1-1/", K, "]"); if (K == 1) { near_("entropy of a pure vector", E, 0, 1e-12); near_("gini of a pure vector", G, 0, 1e-12); } else REQ(E > 1e-9 && G > 1e-9, "impurity of a mixed vector is zero");
    // balanced classes reach the upper bound; order and names of classes do not matter
    size_t m = s.sz(1, 6); Vec b((long)(m * (size_t)k)); auto cls = class_values(s, (size_t)k); for (long i = 0; i < b.size(); ++i) b(i) = cls[(size_t)(i % k)]; near_("entropy of balanced classes", M::entropy<Vec>(b), std::log2((double)k), 1e-9); near_("gini of balanced classes", M::gini<Vec>(b), 1 - 1.0 / k, 1e-9);
    auto p = perm(s, n); auto nm = class_values(s, d.size()); auto np = perm(s, d.size()); std::map<double, double> ren; { size_t q = 0; for (double v : d) ren[v] = nm[np[q++]]; } Vec z((long)n); for (size_t i = 0; i < n; ++i) z((long)i) = ren.at(y((long)p[i])); near_("entropy after renaming and reordering", M::entropy<Vec>(z), E, 1e-10); near_("gini after renaming and reordering", M::gini<Vec>(z), G, 1e-10);
    Vec one = Vec::Ones((long)n); near_("entropy with unit weights", M::entropy<Vec>(y, one), E, 1e-10); near_("gini with unit weights", M::gini<Vec>(y, one), G, 1e-10);
}
LAW(concave, 5000) {     // pooling two groups never lowers the size-weighted impurity
    size_t n = s.dim(1, 25, 600), m = s.dim(1, 25, 600); int k = (int)s.i(2, 5); Vec ab = lab(s, n + m, k), a = ab.head((long)n), b = ab.tail((long)m); double N = (double)(n + m); c.log("a", a.transpose()); c.log("b", b.transpose()); c.nt();
    double e = ((double)n * M::entropy<Vec>(a) + (double)m * M::entropy<Vec>(b)) / N, gg = ((double)n * M::gini<Vec>(a) + (double)m * M::gini<Vec>(b)) / N; REQ(M::entropy<Vec>(ab) >= e - 1e-10, "information gain is negative"); REQ(M::gini<Vec>(ab) >= gg - 1e-10, "gini gain is negative");
}
LAW(weights_size, 800) { size_t n = s.sz(1, 10), m = s.sz(1, 12); if (m == n) m = n + 1; Vec y = lab(s, n, 3), w = Vec::Ones((long)m); c.log("n", n); c.log("weights", m); c.nt(); must_throw<std::invalid_argument>("entropy", [&] { M::entropy<Vec>(y, w); }); must_throw<std::invalid_argument>("gini", [&] { M::gini<Vec>(y, w); }); }
#include "pbt_main.hpp"
