// C22 decision tree regressor
#include "tree_model.hpp"
#include "methods/tree/decision_tree_regressor.hpp"
using DT = openml::decision_tree::DecisionTreeRegressor<double>;
struct D { Mat X; Vec y; };
static D gen(Source& s, Ctx& c, size_t nmax) { D d; size_t n = s.dim(1, nmax, nmax * 6, 6), f = s.dim(1, 4, 12, 6); d.X = s.b() ? cont(s, n, f) : mat(s, n, f, style(s, false)); d.y.resize((long)n); int how = (int)s.draw(3); for (size_t i = 0; i < n; ++i) { double v = how == 0 ? s.sym() * 5 : how == 1 ? d.X((long)i, 0) * 2 + s.sym() * 0.1 : (double)s.small(4); d.y((long)i) = v; } c.log("X", d.X); c.log("y", d.y.transpose()); return d; }
static double med(std::vector<double> v) { std::sort(v.begin(), v.end()); size_t n = v.size(); return n % 2 ? v[n / 2] : 0.5 * (v[n / 2 - 1] + v[n / 2]); }
static double mean(const Vec& y, const std::vector<long>& in) { long double t = 0; for (long i : in) t += y(i); return (double)(t / in.size()); }
static double imp(const Vec& y, const std::vector<long>& in, bool sq) { double t = 0; if (sq) { double m = mean(y, in); for (long i : in) t += (y(i) - m) * (y(i) - m); } else { std::vector<double> v; for (long i : in) v.push_back(y(i)); double m = med(v); for (double x : v) t += std::fabs(x - m); } return t / (double)in.size(); }
static void model(Source& s, Ctx& c, const D& d, const Mat& Z, bool sq, TreeSpec t, double min_stdev, DT& m) {
    double un = tree_unit(s, c); Mat X1 = d.X * un, Z1 = Z * un; Mat X0 = X1, Z0 = Z1; Vec y0 = d.y; m.fit(X1, d.y); Vec a = m.predict(X1), b = m.predict(Z1); REQ(exact(X1, X0) && exact(d.y, y0) && exact(Z1, Z0), "input modified"); REQ(a.size() == d.X.rows() && b.size() == Z.rows(), "wrong number of predictions");
    TreeModel T{d.X, d.y, Z, t}; T.score = [&](auto& in, auto& l, auto& r) { return imp(d.y, in, sq) - ((double)l.size() * imp(d.y, l, sq) + (double)r.size() * imp(d.y, r, sq)) / (double)in.size(); };
    T.stop = [&](auto& in) { double sd = std::sqrt(imp(d.y, in, true)); if (in.size() > 1 && sd > 1e-9 && std::fabs(sd - min_stdev) < 1e-9) pbt::discard(); return sd <= min_stdev + 1e-12; }; T.trivial = [&](auto& in) { for (long i : in) if (d.y(i) != d.y(in[0])) return false; return true; };
    T.leaf = [&](auto& in, bool tr, long i) { double p = tr ? a(i) : b(i), q = mean(d.y, in); return std::fabs(p - q) <= 1e-9 * (1 + std::fabs(q)) ? std::string() : cat("predicted ", p, ", the mean of its node of ", in.size(), " samples is ", q); };
    bool ok = T.run(); c.label(T.deepest == 0 ? "root only" : T.deepest < 3 ? "shallow" : "deep"); REQ(ok, "no sequence of best splits explains the outputs; ", T.why);
    for (long i = 0; i < b.size(); ++i) REQ(b(i) >= d.y.minCoeff() - 1e-9 && b(i) <= d.y.maxCoeff() + 1e-9, "prediction outside the range of the targets");
}
LAW(grown, 8000) {
    D d = gen(s, c, 16); Mat Z = tree_queries(s, d.X, s.sz(1, 12)); bool sq = s.b(); TreeSpec t = tree_spec(s, c); double sd = s.pick(std::vector<double>{1e-3, 1e-3, 0.0, 0.4, 1.3}); c.log("criterion", sq ? "squared_error" : "absolute_error"); c.log("min_stdev", sd); c.log("Z", Z); c.nt(d.X.rows() > 3); c.label(sq ? "squared" : "absolute"); DT m(sq ? "squared_error" : "absolute_error", t.min_split, t.min_leaf, t.max_depth, t.min_dec, sd); model(s, c, d, Z, sq, t, sd, m);
}
LAW(grown_large, 600) {
    D d = gen(s, c, 60); Mat Z = tree_queries(s, d.X, 20); bool sq = s.b(); TreeSpec t = tree_spec(s, c); double sd = s.pick(std::vector<double>{1e-3, 0.0, 0.4}); c.log("criterion", sq ? "squared_error" : "absolute_error"); c.log("min_stdev", sd); c.nt(d.X.rows() > 3); c.label(sq ? "squared" : "absolute"); DT m(sq ? "squared_error" : "absolute_error", t.min_split, t.min_leaf, t.max_depth, t.min_dec, sd); model(s, c, d, Z, sq, t, sd, m);
}
LAW(defaults, 800) { D d = gen(s, c, 40); Mat Z = tree_queries(s, d.X, 10); c.nt(d.X.rows() > 3); TreeSpec t{2, 0, 4, 1e-7}; DT m; model(s, c, d, Z, true, t, 1e-3, m); }
LAW(memorises, 2500) {        // an unrestricted tree reproduces distinct one-dimensional training points
    size_t n = s.sz(1, 40); Mat X((long)n, 1); auto p = perm(s, n); for (size_t i = 0; i < n; ++i) X((long)i, 0) = (double)p[i] + 0.3 * s.unit(); Vec y = Vec((long)n); for (size_t i = 0; i < n; ++i) y((long)i) = s.sym() * 4; c.log("X", X.transpose()); c.log("y", y.transpose()); c.nt(n > 2); DT m("squared_error", 2, s.sz(0, 1), 200, 0.0, 0.0); m.fit(X, y); Vec a = m.predict(X); nearm("training predictions of an unrestricted tree", a, y, 1e-4);
}
LAW(bad_criterion, 600) {
    D d = gen(s, c, 10); if (d.X.rows() < 2 || (d.X.rowwise() - d.X.row(0)).cwiseAbs().maxCoeff() == 0 || (d.y.array() - d.y(0)).abs().maxCoeff() < 0.1) pbt::discard(); c.nt(); DT m(s.pick(std::vector<std::string>{"", "mse", "gini", "mae"}), 2, 0, 3, 1e-7, 1e-3); must_throw<std::invalid_argument>("unknown criterion", [&] { m.fit(d.X, d.y); });
}
#include "pbt_main.hpp"
