// C21 decision tree classifier
#include "tree_model.hpp"
#include "methods/tree/decision_tree_classifier.hpp"
using DT = openml::decision_tree::DecisionTreeClassifier<double>;
struct D { Mat X; Vec y; std::vector<double> cls; };
static D gen(Source& s, Ctx& c, size_t nmax, int many = 0) {
    D d; size_t n = s.dim(1, nmax, nmax * 6, 6), f = s.dim(1, 4, 12, 6), K = std::min<size_t>(many && s.chance(many) ? s.sz(5, 40) : s.chance(10) ? 1 : s.dim(2, 4, 12), n); d.X = s.b() ? cont(s, n, f) : mat(s, n, f, style(s, false)); d.y.resize((long)n); std::set<double> u; d.cls = class_values(s, K); int how = (int)s.draw(3); for (size_t i = 0; i < n; ++i) { size_t k = how == 0 ? s.draw(K) : how == 1 ? (size_t)(d.X((long)i, 0) > 0) % K : ((size_t)(d.X((long)i, 0) > 0) + (size_t)(d.X((long)i, (long)f - 1) > 0.5)) % K; if (how && s.chance(10)) k = s.draw(K); d.y((long)i) = d.cls[k]; }
    u.clear(); for (long i = 0; i < d.y.size(); ++i) u.insert(d.y(i)); d.cls.assign(u.begin(), u.end()); c.log("X", d.X); c.log("y", d.y.transpose()); return d;
}
static double imp(const Vec& y, const std::vector<long>& in, bool gini) { std::map<double, double> m; for (long i : in) m[y(i)] += 1; double t = gini ? 1 : 0; for (auto& q : m) { double p = q.second / (double)in.size(); t -= gini ? p * p : p * std::log2(p); } return t; }
static void model(Source& s, Ctx& c, const D& d, const Mat& Z, const std::string& crit, TreeSpec t, DT& m) {
    double un = tree_unit(s, c); Mat X1 = d.X * un, Z1 = Z * un; Mat X0 = X1, Z0 = Z1; Vec y0 = d.y; m.fit(X1, d.y); Mat P = m.predict_prob(X1), Q = m.predict_prob(Z1); Vec a = m.predict(X1), b = m.predict(Z1); REQ(exact(X1, X0) && exact(d.y, y0) && exact(Z1, Z0), "input modified"); long K = (long)d.cls.size(); shape("probabilities", P, d.X.rows(), K); shape("probabilities", Q, Z.rows(), K); REQ(a.size() == d.X.rows() && b.size() == Z.rows(), "wrong number of predictions");
    auto pred = [&](const Mat& R, const Vec& p) { for (long i = 0; i < R.rows(); ++i) { near_("probabilities sum", R.row(i).sum(), 1, 1e-12); REQ(R.row(i).minCoeff() >= 0, "negative probability"); long k = -1; for (long j = 0; j < K; ++j) if (d.cls[(size_t)j] == p(i)) k = j; REQ(k >= 0, "predicts ", p(i), ", which is no label of the training data"); REQ(R(i, k) >= R.row(i).maxCoeff(), "predicts ", p(i), " although another label is more frequent in the leaf"); } }; pred(P, a); pred(Q, b);
    bool g = crit == "gini"; TreeModel T{d.X, d.y, Z, t}; T.score = [&](auto& in, auto& l, auto& r) { double w = ((double)l.size() * imp(d.y, l, g) + (double)r.size() * imp(d.y, r, g)) / (double)in.size(); return g ? 1 - w : imp(d.y, in, g) - w; }; T.stop = [](auto&) { return false; }; T.trivial = [&](auto& in) { for (long i : in) if (d.y(i) != d.y(in[0])) return false; return true; };
    T.leaf = [&](auto& in, bool tr, long i) { const Mat& R = tr ? P : Q; for (long j = 0; j < K; ++j) { double q = 0; for (long r : in) q += d.y(r) == d.cls[(size_t)j]; q /= (double)in.size(); if (std::fabs(R(i, j) - q) > 1e-12) return cat("probability ", R(i, j), " of class ", d.cls[(size_t)j], ", its node of ", in.size(), " samples has ", q); } return std::string(); };
    bool ok = T.run(); c.label(T.deepest == 0 ? "root only" : T.deepest < 3 ? "shallow" : "deep"); REQ(ok, "no sequence of best splits explains the outputs; ", T.why);
}
LAW(grown, 8000) {
    D d = gen(s, c, 16); Mat Z = tree_queries(s, d.X, s.sz(1, 12)); std::string crit = s.b() ? "gini" : "entropy"; TreeSpec t = tree_spec(s, c); c.log("criterion", crit); c.log("Z", Z); c.nt(d.X.rows() > 3 && d.cls.size() > 1); c.label(crit); DT m(crit, t.min_split, t.min_leaf, t.max_depth, t.min_dec); model(s, c, d, Z, crit, t, m);
}
LAW(grown_large, 800) {
    D d = gen(s, c, 70, 15); Mat Z = tree_queries(s, d.X, 20); std::string crit = s.b() ? "gini" : "entropy"; TreeSpec t = tree_spec(s, c); c.log("criterion", crit); c.nt(d.cls.size() > 1); c.label(crit); DT m(crit, t.min_split, t.min_leaf, t.max_depth, t.min_dec); model(s, c, d, Z, crit, t, m);
}
LAW(defaults, 800) {          // gini, two samples to split, four levels below the root's
    D d = gen(s, c, 40); Mat Z = tree_queries(s, d.X, 10); c.nt(d.cls.size() > 1); TreeSpec t{2, 0, 4, 1e-7}; DT m; model(s, c, d, Z, "gini", t, m);
}
LAW(memorises, 2500) {        // an unrestricted tree reproduces consistent training labels
    D d = gen(s, c, 40, 10); c.nt(d.cls.size() > 1); std::map<std::vector<double>, double> seen; for (long i = 0; i < d.X.rows(); ++i) { std::vector<double> k; for (long j = 0; j < d.X.cols(); ++j) k.push_back(d.X(i, j)); auto r = seen.insert({k, d.y(i)}); d.y(i) = r.first->second; } DT m("gini", 2, s.sz(0, 1), 64, 1e-7); m.fit(d.X, d.y); Vec a = m.predict(d.X); for (long i = 0; i < a.size(); ++i) REQ(a(i) == d.y(i), "training row ", i, " of label ", d.y(i), " is predicted ", a(i), " by an unrestricted tree");
}
LAW(bad_criterion, 600) {
    D d = gen(s, c, 10); if (d.X.rows() < 2 || (d.X.rowwise() - d.X.row(0)).cwiseAbs().maxCoeff() == 0) pbt::discard(); c.nt(); DT m(s.pick(std::vector<std::string>{"", "Gini", "mse", "log_loss"}), 2, 0, 3, 1e-7); must_throw<std::invalid_argument>("unknown criterion", [&] { m.fit(d.X, d.y); });
}
#include "pbt_main.hpp"
