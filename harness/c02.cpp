// C02 splitting and shuffling keep every sample, paired with its label
#include "common.hpp"
using RowKey = std::vector<double>;
static std::map<RowKey, long> bag(const Mat& X, const Vec& y) {
    std::map<RowKey, long> m;
    for (long i = 0; i < X.rows(); ++i) { RowKey k; for (long j = 0; j < X.cols(); ++j) k.push_back(X(i, j)); k.push_back(y(i)); m[k]++; }
    return m;
}
static Mat mkdata(Source& s, size_t n, size_t d) { return s.b() ? mat(s, n, d, style(s)) : cont(s, n, d); }

LAW(split, 9000) {
    size_t n = s.dim(1, 40, 400), d = s.dim(1, 5, 40); Mat X = mkdata(s, n, d); Vec y = vec(s, n, s.b() ? INT : UNIT);
    double ts = s.b() ? s.unit() : s.chance(40) ? std::min(1.0, std::max(0.0, ((double)s.sz(0, n) + s.pick(std::vector<double>{-0.01, -1e-4, -1e-6, 1e-6, 1e-4, 0.01})) / (double)n)) : (double)s.i(0, 20) / 20.0; bool sh = s.b();
    Mat X0 = X; Vec y0 = y;
    c.log("X", X); c.log("y", y.transpose()); c.log("train_size", ts); c.log("shuffle", sh);
    Mat a, b; Vec u, v;
    std::tie(a, b, u, v) = openml::data::train_test_split<Mat, Vec>(X, y, ts, sh);
    REQ(exact(X, X0) && exact(y, y0), "the input was modified");
    REQ(a.cols() == (long)d && b.cols() == (long)d, "the parts have ", a.cols(), " and ", b.cols(), " columns instead of ", d);
    REQ(a.rows() == u.rows() && b.rows() == v.rows(), "features and labels of a part differ in length");
    REQ(a.rows() + b.rows() == (long)n, "the parts hold ", a.rows(), "+", b.rows(), " of ", n, " samples");
    REQ((double)a.rows() <= (double)n * ts + 1e-9 && (double)a.rows() > (double)n * ts - 1.0 - 1e-9, "train part has ", a.rows(), " of ", n, " samples for train_size ", ts);
    Mat all((long)n, (long)d); Vec w((long)n); all << a, b; w << u, v;
    if (!sh) { REQ(exact(all, X) && exact(w, y), "without shuffling the parts concatenated are not the data"); }
    else REQ(bag(all, w) == bag(X, y), "the parts are not a partition of the (sample, label) pairs");
    c.nt(a.rows() > 0 && b.rows() > 0 && n >= 3); c.label(sh ? "shuffled" : "ordered");
}
LAW(split_defaults, 800) {
    size_t n = s.dim(4, 60, 400); Mat X = mkdata(s, n, 2); Vec y = Vec::LinSpaced((long)n, 0, (double)n - 1); c.log("n", n); c.nt();
    Mat a, b; Vec u, v; std::tie(a, b, u, v) = openml::data::train_test_split<Mat, Vec>(X, y);
    REQ(a.rows() == (long)std::floor((double)n * 0.75), "default train part has ", a.rows(), " of ", n);
    Mat all((long)n, 2); Vec w((long)n); all << a, b; w << u, v;
    REQ(bag(all, w) == bag(X, y), "not a partition");
}
LAW(shuffle_pairs, 6000) {
    size_t n = s.dim(1, 40, 400), d = s.dim(1, 5, 40); Mat X = mkdata(s, n, d); Vec y = vec(s, n, s.b() ? INT : UNIT); Mat X0 = X; Vec y0 = y;
    Mat a; Vec b; if (s.chance(30)) { a = Mat::Ones(2, 2); b = Vec::Ones(3); }
    openml::random::shuffle_data<Mat, Vec>(X, y, a, b);
    c.log("X", X); c.log("y", y.transpose()); c.nt(n >= 3);
    REQ(exact(X, X0) && exact(y, y0), "the input was modified");
    REQ(a.rows() == (long)n && a.cols() == (long)d && b.rows() == (long)n, "shape changed");
    REQ(bag(a, b) == bag(X, y), "shuffling broke the pairing of samples and labels");
}
LAW(shuffle_moves, 60) {          // a shuffle of many distinct samples is not the identity, and varies
    size_t n = s.sz(12, 30); Mat X(n, 1); Vec y((long)n); for (size_t i = 0; i < n; ++i) X((long)i, 0) = y((long)i) = (double)i;
    std::set<std::vector<double>> seen; c.nt(); c.log("n", n);
    for (int r = 0; r < 12; ++r) {
        Mat a; Vec b; openml::random::shuffle_data<Mat, Vec>(X, y, a, b); seen.insert(std::vector<double>(b.data(), b.data() + n));
    }
    REQ(seen.size() >= 6, "12 shuffles of ", n, " samples gave only ", seen.size(), " orders");
    std::set<std::vector<double>> sp;
    for (int r = 0; r < 12; ++r) { Mat a, b; Vec u, v; std::tie(a, b, u, v) = openml::data::train_test_split<Mat, Vec>(X, y, 0.5, true); sp.insert(std::vector<double>(u.data(), u.data() + u.size())); }
    REQ(sp.size() >= 6, "12 shuffled splits of ", n, " samples gave only ", sp.size(), " train parts");
}
LAW(shuffle_uniform, 24) {        // every sample can reach every position
    size_t n = 4; Mat X(n, 1); Vec y((long)n); for (size_t i = 0; i < n; ++i) X((long)i, 0) = y((long)i) = (double)i;
    Mat cnt = Mat::Zero(4, 4); c.nt();
    for (int r = 0; r < 400; ++r) { Mat a; Vec b; openml::random::shuffle_data<Mat, Vec>(X, y, a, b); for (int i = 0; i < 4; ++i) cnt((long)b(i), i) += 1; }
    c.log("counts", cnt);
    for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) REQ(cnt(i, j) >= 30 && cnt(i, j) <= 200, "sample ", i, " was put at position ", j, " in ", cnt(i, j), " of 400 shuffles");
}
LAW(shuffle_axis, 3000) {
    size_t n = s.dim(1, 12, 400), d = s.dim(1, 12, 40); Mat X = mkdata(s, n, d), X0 = X; int ax = (int)s.i(0, 1); Mat a;
    openml::random::shuffle_data<Mat>(X, a, ax); c.log("X", X); c.log("axis", ax); c.nt(n > 1 && d > 1); c.label(ax ? "rows" : "columns");
    REQ(exact(X, X0), "the input was modified"); shape("shuffled", a, (long)n, (long)d);
    Mat p = ax ? X : Mat(X.transpose()), q = ax ? a : Mat(a.transpose());
    Vec z = Vec::Zero(p.rows());
    REQ(bag(p, z) == bag(q, z), "not a permutation of the ", ax ? "rows" : "columns");
}
LAW(divide, 9000) {
    size_t n = s.dim(0, 30, 400), d = s.dim(1, 5, 40); Mat X = mat(s, n, d, style(s)); size_t f = s.sz(0, d - 1);
    double t = n && s.b() ? X((long)s.sz(0, n - 1), (long)f) : num(s, style(s));
    std::vector<size_t> lo, hi; std::tie(lo, hi) = openml::data::divide_on_feature<Mat>(X, f, t);
    c.log("X", X); c.log("feature", f); c.log("threshold", t); c.nt(!lo.empty() && !hi.empty());
    size_t a = 0, b = 0;
    for (size_t i = 0; i < n; ++i) {
        if (X((long)i, (long)f) <= t) { REQ(a < lo.size() && lo[a] == i, "row ", i, " (value <= threshold) is not kept in order"); ++a; }
        else { REQ(b < hi.size() && hi[b] == i, "row ", i, " (value > threshold) is not dropped in order"); ++b; }
    }
    REQ(a == lo.size() && b == hi.size(), "extra rows in a part");
}
#include "pbt_main.hpp"
