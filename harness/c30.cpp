// C30 options: documented defaults, unknown names, verbosity
#include "models.hpp"
#include <sstream>
using namespace mdl;
struct Quiet { std::ostringstream o; std::streambuf* b; Quiet() : b(std::cout.rdbuf(o.rdbuf())) {} ~Quiet() { std::cout.rdbuf(b); } };
static void same_model(const char* what, Any& a, Any& b, const Mat& Z) {
    Mat p = a.rows(Z), q = b.rows(Z); REQ(p.rows() == q.rows() && p.cols() == q.cols(), what, ": outputs have another shape"); for (long i = 0; i < p.rows(); ++i) for (long j = 0; j < p.cols(); ++j) REQ(eq(p(i, j), q(i, j)), what, ": output (", i, ",", j, ") is ", p(i, j), ", not ", q(i, j)); auto u = a.state(), v = b.state(); REQ(u.size() == v.size(), what, ": attributes have another size"); for (size_t i = 0; i < u.size(); ++i) REQ(eq(u[i], v[i]), what, ": attribute value ", i, " is ", u[i], ", not ", v[i]);
}
static const std::vector<int> DEF = {0, 1, 2, 3, 7, 8, 9, 10, 11, 12, 13, 14, 15, 17, 18};
LAW(defaults, 1500) {         // a default-constructed model is the one constructed with the documented defaults
    int k = s.pick(DEF); size_t d = s.sz(4, 6), n = s.sz(40, 60); Mat X; Vec y; training(s, k, n, d, X, y); if (s.b()) { double sc = s.pick(std::vector<double>{0.01, 0.3, 3.0}); X *= sc; } c.log("X", X); c.log("y", y.transpose()); c.label(NAMES[k]); c.log("model", NAMES[k]); c.nt(); Cfg g; g.k = k; g.mode = 1; auto a = make(g)(); g.mode = 2; auto b = make(g)(); Quiet q; pbt::u64 st = s.draw(1000000); bool oa = mdl::fit(*a, X, y, st, 9); std::string t = q.o.str(); q.o.str(""); bool ob = mdl::fit(*b, X, y, st, 9); REQ(oa == ob, "default construction", oa ? " fits" : " fails to fit", " but the documented defaults do not"); REQ(t.empty() == q.o.str().empty(), "only one of default construction and documented defaults reports progress"); if (!oa) { c.label("reported as failed"); return; } same_model("default construction against the documented defaults", *a, *b, cont(s, 6, d, 3));
}
LAW(verbosity, 2500) {        // reporting progress does not change the result, and no progress is reported when told so
    int k = s.pick(std::vector<int>{2, 3, 4, 5, 6, 7, 8}); size_t d = dims_for(s, k), n = min_rows(k, d) + s.dim(0, 10, 120, 10); Mat X; Vec y; training(s, k, n, d, X, y); c.log("X", X); c.log("y", y.transpose()); c.nt(); Cfg g = config(s, c, k, limit(k, n, d)); g.verbose = false; auto a = make(g)(); g.verbose = true; auto b = make(g)(); Quiet q; pbt::u64 st = s.draw(1000000); bool oa = mdl::fit(*a, X, y, st, 9); REQ(q.o.str().find("Epoch") == std::string::npos && q.o.str().find("Iteration") == std::string::npos, "a model told to be silent reports progress: ", q.o.str().substr(0, 60)); q.o.str(""); bool ob = mdl::fit(*b, X, y, st, 9); REQ(oa == ob, "the fit", oa ? " succeeds" : " fails", " only when silent"); if (q.o.str().find("=") != std::string::npos) c.label("progress reported"); if (!oa) return; same_model("verbose model against the silent one", *b, *a, cont(s, 6, d, 3));
}
LAW(unknown, 3000) {          // unknown option names are rejected, not silently replaced
    int k = s.pick(std::vector<int>{3, 11, 12, 13, 14, 15, 16, 17, 18}); size_t d = s.sz(2, 4), n = s.sz(8, 14); Mat X; Vec y; training(s, k, n, d, X, y); for (long j = 0; j < X.cols(); ++j) for (long i = 0; i < X.rows(); ++i) for (long h = 0; h < i; ++h) if (X(i, j) == X(h, j) && k != 10) pbt::discard(); if (y.maxCoeff() == y.minCoeff()) pbt::discard(); c.log("X", X); c.nt(); Cfg g = config(s, c, k, 2); g.mode = 3; g.bad = s.pick(std::vector<std::string>{"", "foo", "SVD", "Gini", "svd ", "kd_tree", "L2", "none", "randomised", "random++", "EUCLIDEAN", "mse"}); c.log("name", g.bad); auto a = make(g)(); bool thrown = false; try { pbt::env_state = s.draw(1000); a->fit(X, y); a->rows(X); } catch (const std::invalid_argument&) { thrown = true; } REQ(thrown, "option '", g.bad, "' is accepted"); Cfg h = g; h.mode = 0; auto ok = make(h)(); mdl::fit(*ok, X, y, 1, 1);
}
#include "pbt_main.hpp"
