// Greedy tree growing as a relation: does some sequence of optimal splits
// explain the outputs of a fitted tree?  Ties between equally good splits are
// all admissible.
#pragma once
#include "common.hpp"
struct TreeSpec { size_t min_split, min_leaf, max_depth; double min_dec; };
struct TreeModel {
    const Mat& X; const Vec& y; const Mat& Z; TreeSpec t;
    std::function<double(const std::vector<long>&, const std::vector<long>&, const std::vector<long>&)> score;
    std::function<bool(const std::vector<long>&)> stop;                    // extra stopping rule of the node
    std::function<bool(const std::vector<long>&)> trivial;                 // every admissible subtree predicts alike
    std::function<std::string(const std::vector<long>&, bool, long)> leaf; // empty when training row / query agrees
    long budget = 8000; size_t nodes = 0, deepest = 0; bool tie = false; std::string why;
    bool leaf_ok(const std::vector<long>& in, const std::vector<long>& q) { for (long i : in) { auto m = leaf(in, true, i); if (!m.empty()) { why = cat("training row ", i, ": ", m); return false; } } for (long i : q) { auto m = leaf(in, false, i); if (!m.empty()) { why = cat("query ", i, ": ", m); return false; } } return true; }
    bool explain(const std::vector<long>& in, const std::vector<long>& q, size_t depth) {
        if (--budget < 0) pbt::discard(); ++nodes; deepest = std::max(deepest, depth);
        if (trivial(in) || stop(in) || in.size() < t.min_split || depth > t.max_depth) return leaf_ok(in, q);
        struct C { double sc; long f; double th; bool exact; }; std::vector<C> cand; double best = -1e300;
        for (long f = 0; f < X.cols(); ++f) { std::vector<double> v; for (long i : in) v.push_back(X(i, f)); std::sort(v.begin(), v.end()); double last = NAN; for (size_t k = 1; k < v.size(); ++k) { double th = (v[k - 1] + v[k]) / 2; if (th == last) continue; last = th; std::vector<long> l, r; for (long i : in) (X(i, f) <= th ? l : r).push_back(i); if (l.empty() || r.empty()) continue; double sc = score(in, l, r); cand.push_back({sc, f, th, ((long double)v[k - 1] + (long double)v[k]) / 2 == (long double)th}); best = std::max(best, sc); } }
        if (cand.empty()) return leaf_ok(in, q);
        if (std::fabs(best - t.min_dec) < 1e-9 || (std::fabs(best) < 1e-9 && t.min_dec < 1e-9)) { tie = true; pbt::discard(); }
        if (best <= t.min_dec) return leaf_ok(in, q);
        std::set<std::pair<std::vector<long>, std::vector<long>>> seen; std::string first; bool leaf_tried = false;
        for (auto& c : cand) if (c.sc >= best - 1e-9) {
            std::vector<long> l, r, ql, qr; for (long i : in) (X(i, c.f) <= c.th ? l : r).push_back(i); for (long i : q) { if (std::fabs(Z(i, c.f) - c.th) < 1e-12 * (1 + std::fabs(c.th)) && !(c.exact && Z(i, c.f) == c.th)) pbt::discard(); (Z(i, c.f) <= c.th ? ql : qr).push_back(i); }
            if (!seen.insert({l, ql}).second) continue;
            if (l.size() < t.min_leaf || r.size() < t.min_leaf) { if (leaf_tried) continue; leaf_tried = true; if (leaf_ok(in, q)) return true; }
            else if (explain(l, ql, depth + 1) && explain(r, qr, depth + 1)) return true;
            if (first.empty()) first = why;
        }
        why = first; return false;
    }
    bool run() { std::vector<long> a, b; for (long i = 0; i < X.rows(); ++i) a.push_back(i); for (long i = 0; i < Z.rows(); ++i) b.push_back(i); return explain(a, b, 0); }
};
// queries assembled from training values, midpoints between them and points just beside those
inline Mat tree_queries(Source& s, const Mat& X, size_t n) {
    Mat Z((long)n, X.cols()); for (long i = 0; i < Z.rows(); ++i) for (long j = 0; j < Z.cols(); ++j) { double a = X((long)s.sz(0, (size_t)X.rows() - 1), j), b = X((long)s.sz(0, (size_t)X.rows() - 1), j), m = (a + b) / 2; int k = (int)s.draw(6); Z(i, j) = k == 0 ? a : k == 1 ? m : k == 2 ? m + 1e-4 : k == 3 ? m - 1e-4 : k == 4 ? a + s.sym() : s.sym() * 20; } return Z;
}
// the unit of the features: a power of two, which changes no comparison and no midpoint
inline double tree_unit(Source& s, Ctx& c) { double u = s.chance(50) ? 1.0 : std::ldexp(1.0, (int)s.small(40)); c.log("unit", u); return u; }
inline TreeSpec tree_spec(Source& s, Ctx& c) {
    TreeSpec t; t.min_split = s.chance(60) ? 2 : s.sz(0, 8); t.min_leaf = s.chance(60) ? s.sz(0, 1) : s.sz(2, 5); t.max_depth = s.sz(0, 6); t.min_dec = s.chance(60) ? 1e-7 : s.pick(std::vector<double>{0.0, 0.05, 0.2, 0.55, 0.75}); c.log("min_samples_split", t.min_split); c.log("min_samples_leaf", t.min_leaf); c.log("max_depth", t.max_depth); c.log("min_impurity_decrease", t.min_dec); return t;
}
