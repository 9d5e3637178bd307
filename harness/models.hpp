// Every estimator of the library behind one interface, with generated
// configurations and training data, for the cross-cutting properties.
#pragma once
#include "svd_ext.hpp"
#include "common.hpp"
namespace mdl {
struct Any {
    virtual ~Any() {}
    virtual void fit(const Mat& X, const Vec& y) = 0;
    virtual Mat rows(const Mat& Z) = 0;               // one row of outputs per query row
    virtual std::vector<double> state() { return {}; } // everything else that can be read off the model
    virtual std::unique_ptr<Any> clone() = 0;         // null: the model cannot be copied
    virtual std::unique_ptr<Any> moved() = 0;         // null: the model cannot be moved
    virtual bool assign(Any& o, bool move) = 0;       // from a model of the same kind; false: not assignable
};
inline void put(std::vector<double>& o, const Mat& m) { o.push_back((double)m.rows()); o.push_back((double)m.cols()); for (long i = 0; i < m.size(); ++i) o.push_back(m.data()[i]); }
inline Mat beside(const std::vector<Mat>& p) { long c = 0; for (auto& m : p) c += m.cols(); Mat r(p[0].rows(), c); c = 0; for (auto& m : p) { r.middleCols(c, m.cols()) = m; c += m.cols(); } return r; }
using Make = std::function<std::unique_ptr<Any>()>;
static const char* NAMES[] = {"linear", "ridge", "lasso", "logistic sgd", "logistic sag", "logistic lbfgs", "logistic scd", "softmax", "perceptron", "gaussian nb", "multinomial nb", "mixture", "kmeans", "tree classifier", "tree regressor", "knn kdtree", "knn brute", "pca", "truncated svd"};
static const int NKIND = 19;
inline bool linearish(int k) { return k <= 8 || k >= 17; }
// training data of n rows and d columns fit for the kind
inline void training(Source& s, int k, size_t n, size_t d, Mat& X, Vec& y) {
    X = cont(s, n, d); if (k == 10) X = (X.array().abs() * 2).floor().matrix(); y.resize((long)n); size_t K = k == 3 || k == 4 || k == 5 || k == 6 || k == 8 ? 2 : s.sz(2, n > 40 ? 12 : std::min<size_t>(n, 4)); if (k <= 2 || k == 14) { Vec w = vec(s, d, UNIT); for (long i = 0; i < y.size(); ++i) y(i) = X.row(i).dot(w.transpose()) + s.sym(); return; }
    auto cls = class_values(s, K); if (k < 9) for (size_t q = 0; q < K; ++q) cls[q] = (double)q; for (size_t i = 0; i < n; ++i) { size_t q = i < K ? i : s.chance(70) ? (size_t)(X((long)i, 0) > 0) : s.draw(K); y((long)i) = cls[q]; }
    if (k == 9 || k == 11 || k == 12) for (long i = 0; i < X.rows(); ++i) X.row(i).array() += 3.0 * (double)(i % 3);
}
inline size_t min_rows(int k, size_t d) { return k <= 1 ? d + 3 : k == 9 ? 8 : 6; }
// a generated configuration, and makers of equally configured, unfitted models
struct Cfg { int k; bool ic = true, sh = false, x = false, verbose = false; int mode = 0; /* 1: default constructor, 2: its defaults spelled out, 3: an unknown option name */ double al, lam, tol; size_t b, it, kk, dep, lf, ni, m; int pick; std::string pen, bad; };
Make make_linear(const Cfg&); Make make_logistic(const Cfg&); Make make_bayes(const Cfg&); Make make_tree(const Cfg&);
// m: the largest number of components / neighbours / clusters every data set admits
inline Make make(const Cfg& g) { int k = g.k; return k <= 2 || k == 7 || k == 8 ? make_linear(g) : k <= 6 ? make_logistic(g) : k <= 12 ? make_bayes(g) : make_tree(g); }
inline Cfg config(Source& s, Ctx& c, int k, size_t m) {
    Cfg g; g.k = k; g.m = m; g.ic = s.b(); g.sh = s.b(); g.al = s.pick(std::vector<double>{0.01, 0.05, 0.3}); g.lam = s.pick(std::vector<double>{0.0, 0.1, 1.0}); g.b = s.sz(1, 4); g.it = s.sz(20, 300); g.kk = s.sz(1, m); g.pen = g.lam == 0 ? "None" : "l2"; g.tol = s.pick(std::vector<double>{1e-3, 1e-2}); g.dep = s.sz(1, 5); g.lf = s.sz(1, 3); g.x = s.b(); g.ni = s.sz(1, 3); g.pick = (int)s.draw(3);
    c.label(NAMES[k]); c.log("model", NAMES[k]); c.log("k", g.kk); c.log("lambda", g.lam); c.log("batch", g.b); c.log("max_iter", g.it); c.log("option", g.pick); c.log("flags", (int)g.ic * 4 + (int)g.sh * 2 + (int)g.x);
    return g;
}
inline Make maker(Source& s, Ctx& c, int k, size_t m) { return make(config(s, c, k, m)); }
inline size_t dims_for(Source& s, int k) { return k >= 17 ? s.dim(2, 5, 16, 10) : s.dim(1, 4, 16, 10); }
// largest component / neighbour count all data sets admit
inline size_t limit(int k, size_t n, size_t d) { return k >= 17 ? std::min(n, d) : std::min<size_t>(n, 4); }
// fit with a given entropy; false: reported as failed
inline bool fit(Any& a, const Mat& X, const Vec& y, pbt::u64 st, unsigned seed) { pbt::env_state = st; std::srand(seed); try { a.fit(X, y); return true; } catch (const std::runtime_error&) { return false; } }
inline bool eq(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
} // namespace mdl
