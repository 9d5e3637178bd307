// C29 outputs are a function of the single query row
#include "models.hpp"
using namespace mdl;
static bool tied(double a, double b) { return std::fabs(a - b) < 1e-7 * (1 + std::fabs(a) + std::fabs(b)); }
// kinds whose outputs are label values chosen by a comparison: a rounding tie may go either way
static bool labels(int k) { return k >= 3 && k != 14 && k < 17; }
struct Fitted { std::unique_ptr<Any> a; Mat X; int k; size_t d; };
static Fitted fitted(Source& s, Ctx& c) {
    Fitted f; f.k = (int)s.draw(NKIND); f.d = dims_for(s, f.k); size_t n = min_rows(f.k, f.d) + s.dim(0, 10, 120, 10); Vec y; training(s, f.k, n, f.d, f.X, y); Make mk = maker(s, c, f.k, limit(f.k, n, f.d)); c.log("X", f.X); c.log("y", y.transpose()); f.a = mk(); if (!mdl::fit(*f.a, f.X, y, s.draw(1000000), 3)) pbt::discard(); return f;
}
// query rows, some of them repeated, some of them training rows
static Mat queries(Source& s, Ctx& c, const Fitted& f, size_t q) { Mat Z = cont(s, q, f.d, s.b() ? 3 : 30); for (long i = 0; i < Z.rows(); ++i) { if (s.chance(25)) Z.row(i) = f.X.row((long)s.draw((size_t)f.X.rows())); else if (i && s.chance(15)) Z.row(i) = Z.row((long)s.draw((size_t)i)); } c.log("Z", Z); return Z; }
static void row_same(const Fitted& f, const Mat& a, long i, const Mat& b, long j, const char* what) {
    REQ(a.cols() == b.cols(), what, ": ", a.cols(), " output columns, elsewhere ", b.cols()); long l0 = 0;
    if (labels(f.k) && !eq(a(i, 0), b(j, 0))) { // differing labels: only across a tie
        bool tie = false; if (a.cols() > 1) { std::vector<double> p; long nc = f.k == 9 || f.k == 10 ? (a.cols() - 1) / 2 : a.cols() - 1; for (long t = 1; t <= nc; ++t) p.push_back(a(i, t)); std::sort(p.rbegin(), p.rend()); tie = p.size() == 1 ? std::fabs(p[0] - 0.5) < 1e-7 : tied(p[0], p[1]); } else if (f.k == 8 || f.k == 12) tie = false; 
        REQ(tie, what, ": label ", a(i, 0), ", elsewhere ", b(j, 0)); pbt::discard(); }
    if (labels(f.k)) l0 = 1; for (long t = l0; t < a.cols(); ++t) { double u = a(i, t), v = b(j, t); if (eq(u, v)) continue; REQ(std::fabs(u - v) <= 1e-8 * (1 + std::max(std::fabs(u), std::fabs(v))), what, ": output ", t, " of the row is ", u, ", elsewhere ", v); }
}
LAW(single, 8000) {           // one query at a time gives the same answers
    Fitted f = fitted(s, c); Mat Z = queries(s, c, f, s.sz(2, 8)), Z0 = Z; c.nt(); Mat R = f.a->rows(Z); REQ(exact(Z, Z0), "the query matrix is modified"); REQ(R.rows() == Z.rows(), R.rows(), " outputs for ", Z.rows(), " queries"); for (long i = 0; i < Z.rows(); ++i) { Mat one = Z.row(i), r = f.a->rows(one); REQ(r.rows() == 1, r.rows(), " outputs for one query"); row_same(f, R, i, r, 0, "query alone"); }
}
LAW(reorder, 6000) {          // permuting the queries permutes the answers; repeated queries get equal answers
    Fitted f = fitted(s, c); Mat Z = queries(s, c, f, s.sz(2, 10)); c.nt(); Mat R = f.a->rows(Z); auto p = perm(s, (size_t)Z.rows()); Mat Q = f.a->rows(permute_rows(Z, p)); REQ(Q.rows() == R.rows(), "another number of outputs"); for (size_t i = 0; i < p.size(); ++i) row_same(f, Q, (long)i, R, (long)p[i], "permuted queries"); for (long i = 0; i < Z.rows(); ++i) for (long j = 0; j < i; ++j) if (exact(Mat(Z.row(i)), Mat(Z.row(j)))) { c.label("repeated query"); row_same(f, R, i, R, j, "repeated query"); }
}
LAW(split, 6000) {            // answering in two batches gives the same answers, whatever the other rows are
    Fitted f = fitted(s, c); size_t q = s.dim(2, 40, 500); Mat Z = queries(s, c, f, q); c.nt(); if (q > 16) c.label("large batch"); long h = (long)s.sz(1, q - 1); Mat R = f.a->rows(Z), A = f.a->rows(Z.topRows(h)), B = f.a->rows(Z.bottomRows(Z.rows() - h)); REQ(A.rows() == h && B.rows() == Z.rows() - h, "another number of outputs"); for (long i = 0; i < Z.rows(); ++i) row_same(f, R, i, i < h ? A : B, i < h ? i : i - h, "batch cut in two");
    // another row replaced by an extreme one
    long i = (long)s.draw(q), j = (long)s.draw(q); if (i == j) return; Mat W = Z; W.row(j).setConstant(s.pick(std::vector<double>{1e6, -1e6, 0})); Mat V = f.a->rows(W); row_same(f, V, i, R, i, "another query replaced"); c.label("neighbour replaced");
}
LAW(shape, 4000) {            // sizes and ranges of the answers
    Fitted f = fitted(s, c); size_t q = s.dim(1, 12, 90); Mat Z = queries(s, c, f, q), R = f.a->rows(Z); c.nt(q > 1); REQ(R.rows() == (long)q, R.rows(), " outputs for ", q, " queries"); REQ(finite(R) || f.k == 9 || f.k == 10, "outputs are not finite for finite queries");
}
#include "pbt_main.hpp"
