// C28 refitting, independent instances, Apriori and optimisers included
#include "models.hpp"
#include "methods/rule_model/apriori.hpp"
using namespace mdl;
static void same_model(const char* what, Any& a, Any& b, const Mat& Z) {
    Mat p = a.rows(Z), q = b.rows(Z); REQ(p.rows() == q.rows() && p.cols() == q.cols(), what, ": outputs are ", p.rows(), "x", p.cols(), ", those of a fresh model ", q.rows(), "x", q.cols()); for (long i = 0; i < p.rows(); ++i) for (long j = 0; j < p.cols(); ++j) REQ(eq(p(i, j), q(i, j)), what, ": output (", i, ",", j, ") is ", p(i, j), ", that of a fresh model ", q(i, j)); auto u = a.state(), v = b.state(); REQ(u.size() == v.size(), what, ": attributes have another size than those of a fresh model"); for (size_t i = 0; i < u.size(); ++i) REQ(eq(u[i], v[i]), what, ": attribute value ", i, " is ", u[i], ", that of a fresh model ", v[i]);
}
LAW(refit, 9000) {            // a second fit gives the model a fresh instance would be
    int k = (int)s.draw(NKIND); size_t h = s.sz(2, 3); std::vector<Mat> X(h); std::vector<Vec> y(h); size_t lim = 99; std::vector<pbt::u64> st; for (size_t i = 0; i < h; ++i) { size_t d = dims_for(s, k), n = min_rows(k, d) + s.dim(0, 8, 120, 10); training(s, k, n, d, X[i], y[i]); lim = std::min(lim, limit(k, n, d)); st.push_back(s.draw(1000000)); }
    Make mk = maker(s, c, k, lim); for (size_t i = 0; i < h; ++i) { c.log("X", X[i]); c.log("y", y[i].transpose()); } c.nt(); auto a = mk(); bool bad = false; for (size_t i = 0; i < h; ++i) { auto b = mk(); bool oka = mdl::fit(*a, X[i], y[i], st[i], 7), okb = mdl::fit(*b, X[i], y[i], st[i], 7); REQ(oka == okb, "fit number ", i + 1, oka ? " succeeds" : " fails", " although that of a fresh model does not"); Mat Z = cont(s, 5, (size_t)X[i].cols(), 3); if (oka) same_model("refitted model", *a, *b, Z); else bad = true; } c.label(bad ? "some fit reported as failed" : "all fits succeed");
}
LAW(instances, 5000) {        // models do not influence each other
    int k = (int)s.draw(NKIND), k2 = s.b() ? k : (int)s.draw(NKIND); Mat X, X2; Vec y, y2; size_t d = dims_for(s, k), n = min_rows(k, d) + s.dim(0, 8, 120, 10), d2 = dims_for(s, k2), n2 = min_rows(k2, d2) + s.dim(0, 8, 120, 10); training(s, k, n, d, X, y); training(s, k2, n2, d2, X2, y2); Make mk = maker(s, c, k, limit(k, n, d)), mk2 = maker(s, c, k2, limit(k2, n2, d2)); c.log("X", X); c.log("y", y.transpose()); c.log("X2", X2); c.log("y2", y2.transpose()); c.nt();
    pbt::u64 st = s.draw(1000000); auto fresh = mk(); bool ok = mdl::fit(*fresh, X, y, st, 5); if (!ok) pbt::discard(); Mat Z = cont(s, 4, d, 3), R = fresh->rows(Z); auto S = fresh->state(); auto other = mk2(); bool ok2 = mdl::fit(*other, X2, y2, st + 1, 6); if (ok2) { other->rows(cont(s, 3, d2, 3)); other->state(); } Mat R2 = fresh->rows(Z); auto S2 = fresh->state(); REQ(exact(R, R2) && S.size() == S2.size(), "fitting another model changes the outputs of this one"); for (size_t i = 0; i < S.size(); ++i) REQ(eq(S[i], S2[i]), "fitting another model changes the attributes of this one"); auto again = mk(); REQ(mdl::fit(*again, X, y, st, 5), "the same fit fails after another model was fitted"); same_model("model fitted after another one", *again, *fresh, Z);
    if (s.b()) { other.reset(); Mat R3 = fresh->rows(Z); REQ(exact(R, R3), "destroying another model changes the outputs of this one"); }
}
LAW(apriori, 2500) {          // Apriori can be run again, also after a run that found nothing
    using Tr = std::vector<std::vector<size_t>>; openml::rule_model::Apriori<size_t> a(0.4, 0.5); size_t h = s.sz(2, 4); c.nt(); for (size_t i = 0; i < h; ++i) { Tr t(s.sz(1, 8)); size_t items = s.sz(2, 6); for (auto& x : t) { x.resize(s.sz(0, 4)); for (auto& v : x) v = s.draw(items); } c.log("transactions", t); openml::rule_model::Apriori<size_t> b(0.4, 0.5); bool oa = true, ob = true; try { a.fit_transform(t); } catch (const std::runtime_error&) { oa = false; } try { b.fit_transform(t); } catch (const std::runtime_error&) { ob = false; } REQ(oa == ob, "rerun", oa ? " succeeds" : " fails", " although a fresh run does not"); if (!oa) { c.label("nothing frequent"); continue; } REQ(a.get_rules() == b.get_rules(), "rerun finds ", a.get_rules().size(), " rules, a fresh run ", b.get_rules().size()); }
}
LAW(repeatable, 4000) {       // reading a model does not change it
    int k = (int)s.draw(NKIND); Mat X; Vec y; size_t d = dims_for(s, k), n = min_rows(k, d) + s.dim(0, 8, 120, 10); training(s, k, n, d, X, y); Make mk = maker(s, c, k, limit(k, n, d)); c.log("X", X); c.log("y", y.transpose()); c.nt(); auto a = mk(); Mat X0 = X; Vec y0 = y; if (!mdl::fit(*a, X, y, s.draw(1000000), 3)) pbt::discard(); REQ(exact(X, X0) && exact(y, y0), "training data modified"); Mat Z = cont(s, 5, d, 3), Z2 = cont(s, 3, d, 9), R = a->rows(Z); auto S = a->state(); size_t q = s.sz(1, 4); for (size_t i = 0; i < q; ++i) { if (s.b()) a->state(); if (s.b()) a->rows(Z2); } Mat R2 = a->rows(Z); auto S2 = a->state(); REQ(exact(R, R2), "outputs change when the model is asked again"); REQ(S.size() == S2.size(), "attributes change"); for (size_t i = 0; i < S.size(); ++i) REQ(eq(S[i], S2[i]), "attribute value ", i, " changes from ", S[i], " to ", S2[i], " by reading");
    // overwriting the training data afterwards has no effect
    X.setConstant(77); y.setConstant(-3); Mat R3 = a->rows(Z); REQ(exact(R, R3), "the model still reads the caller's training data");
}
#include "pbt_main.hpp"
