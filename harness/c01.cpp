// C01 data loading
#include "common.hpp"

struct Text { std::string body; VV rows; };

static std::string fmt(double v, int how) {
    char b[64];
    snprintf(b, sizeof b, how == 0 ? "%.17g" : how == 1 ? "%.17e" : "%.20g", v);
    return b;
}
static Text make(Source& s, size_t n, size_t d, bool ragged, bool intonly) {
    Text t; int st = intonly ? INT : style(s);
    bool crlf = s.chance(10), nl = !s.chance(20); int how = (int)s.draw(3);
    for (size_t i = 0; i < n; ++i) {
        size_t dd = ragged ? s.sz(0, d) : d; std::vector<double> r;
        if (s.chance(15)) t.body += "  ";
        for (size_t j = 0; j < dd; ++j) {
            double v = intonly ? (double)s.draw(1000) : num(s, st); r.push_back(v);
            if (j) t.body += s.chance(20) ? "\t" : s.chance(20) ? "   " : " ";
            if (v >= 0 && s.chance(5)) t.body += "+";
            t.body += intonly ? std::to_string((long)v) : fmt(v, how);
        }
        if (s.chance(15)) t.body += " ";
        if (crlf) t.body += "\r";
        if (i + 1 < n || nl) t.body += "\n";
        t.rows.push_back(r);
    }
    // a last line that is empty and not terminated does not exist
    if (!nl && n && !t.body.empty() && t.body.back() == '\n') t.rows.pop_back();
    if (!nl && n == 1 && t.body.empty()) t.rows.clear();
    return t;
}
static void put(const std::string& f, const std::string& b) { std::ofstream o(f, std::ios::binary); o << b; }

LAW(matrix_xy, 6000) {
    size_t n = s.dim(1, 12, 200), d = s.dim(1, 7, 60); Text t = make(s, n, d, false, false);
    Scratch sc; auto f = sc.file("d.txt"); put(f, t.body);
    Mat X; Vec y;
    if (s.chance(30)) { X = Mat::Constant(3, 2, 7.0); y = Vec::Constant(5, 9.0); }     // outputs in use before
    openml::data::loadtxt<Mat, Vec>(f, X, y);
    c.log("file", t.body); c.nt(n >= 2 && d >= 2); c.label(d == 1 ? "label column only" : "features");
    REQ(X.rows() == (long)n && X.cols() == (long)d - 1, "X is ", X.rows(), "x", X.cols(), " for a file of ", n, "x", d);
    REQ(y.rows() == (long)n && y.cols() == 1, "y has ", y.size(), " entries for ", n, " lines");
    for (size_t i = 0; i < n; ++i) {
        for (size_t j = 0; j + 1 < d; ++j) REQ(X((long)i, (long)j) == t.rows[i][j], "X(", i, ",", j, ") is ", X((long)i, (long)j), ", the file says ", t.rows[i][j]);
        REQ(y((long)i) == t.rows[i][d - 1], "y(", i, ") is ", y((long)i), ", the file says ", t.rows[i][d - 1]);
    }
}
LAW(vector_x, 5000) {
    size_t n = s.dim(0, 12, 200), d = s.dim(0, 7, 60); bool io = s.b(); Text t = make(s, n, d, true, io);
    Scratch sc; auto f = sc.file("d.txt"); put(f, t.body);
    c.log("file", t.body); c.nt(t.rows.size() >= 2); c.label(io ? "integers" : "reals");
    if (io) {
        std::vector<std::vector<std::size_t>> X; if (s.chance(30)) X.assign(2, {1, 2, 3});
        openml::data::loadtxt<std::size_t>(f, X);
        REQ(X.size() == t.rows.size(), X.size(), " rows for ", t.rows.size(), " lines");
        for (size_t i = 0; i < X.size(); ++i) {
            REQ(X[i].size() == t.rows[i].size(), "row ", i, " has ", X[i].size(), " values, the line has ", t.rows[i].size());
            for (size_t j = 0; j < X[i].size(); ++j) REQ((double)X[i][j] == t.rows[i][j], "row ", i, " value ", j, " differs");
        }
    } else {
        VV X; if (s.chance(30)) X.assign(2, {1, 2, 3});
        openml::data::loadtxt<double>(f, X);
        REQ(X.size() == t.rows.size(), X.size(), " rows for ", t.rows.size(), " lines");
        for (size_t i = 0; i < X.size(); ++i) REQ(X[i] == t.rows[i], "row ", i, " differs from line ", i);
    }
}
LAW(vector_xy, 5000) {
    size_t n = s.dim(1, 12, 200), d = s.dim(1, 7, 60); bool io = s.b(); Text t = make(s, n, d, false, io);
    Scratch sc; auto f = sc.file("d.txt"); put(f, t.body);
    c.log("file", t.body); c.nt(n >= 2 && d >= 2);
    VV X; std::vector<double> y;
    if (s.chance(30)) { X.assign(s.sz(1, 4), std::vector<double>(s.sz(0, 4), 5.0)); y.assign(s.sz(0, 3), 6.0); c.label("outputs in use before"); }
    openml::data::loadtxt<double>(f, X, y);
    REQ(X.size() == n && y.size() == n, "got ", X.size(), " rows and ", y.size(), " labels for ", n, " lines");
    for (size_t i = 0; i < n; ++i) {
        REQ(X[i].size() == d - 1, "row ", i, " has ", X[i].size(), " features, expected ", d - 1);
        for (size_t j = 0; j + 1 < d; ++j) REQ(X[i][j] == t.rows[i][j], "X[", i, "][", j, "] differs");
        REQ(y[i] == t.rows[i][d - 1], "y[", i, "] is ", y[i], ", the file says ", t.rows[i][d - 1]);
    }
}
LAW(agree, 3000) {            // the three loaders agree with each other
    size_t n = s.dim(1, 40, 200), d = s.dim(2, 12, 60); Text t = make(s, n, d, false, false);
    Scratch sc; auto f = sc.file("d.txt"); put(f, t.body); c.nt(); c.log("file", t.body);
    Mat X; Vec y; VV V; std::vector<double> w; VV A;
    openml::data::loadtxt<Mat, Vec>(f, X, y); openml::data::loadtxt<double>(f, V, w); openml::data::loadtxt<double>(f, A);
    REQ(A.size() == n && V.size() == n && w.size() == n && X.rows() == (long)n, "row counts differ");
    for (size_t i = 0; i < n; ++i) {
        for (size_t j = 0; j + 1 < d; ++j) REQ(X((long)i, (long)j) == V[i][j] && V[i][j] == A[i][j], "loaders disagree at ", i, ",", j);
        REQ(y((long)i) == w[i] && w[i] == A[i][d - 1], "loaders disagree on label ", i);
    }
}
LAW(rejects, 3000) {          // missing, empty and ragged files are errors, never partial data
    Scratch sc; int k = (int)s.draw(3);
    std::string f;
    if (k == 0) { f = sc.dir + "/missing.txt"; c.label("missing"); }
    else if (k == 1) { f = sc.file("e.txt"); put(f, ""); c.label("empty"); }
    else {
        size_t n = s.sz(2, 8), d = s.sz(2, 6); Text t = make(s, n, d, false, true);
        // one line of another length
        size_t bad = s.sz(0, n - 1); long extra = s.b() ? 1 : -1; std::string body;
        for (size_t i = 0; i < n; ++i) {
            size_t m = i == bad ? (size_t)((long)d + extra) : d;
            for (size_t j = 0; j < m; ++j) body += std::to_string((long)(i * 10 + j)) + " ";
            body += "\n";
        }
        f = sc.file("r.txt"); put(f, body); c.label(extra > 0 ? "longer line" : "shorter line"); c.log("file", body); c.log("bad", bad);
    }
    c.nt(k == 2);
    Mat X; Vec y; VV V; std::vector<double> w;
    must_throw<std::runtime_error>("matrix loader", [&] { openml::data::loadtxt<Mat, Vec>(f, X, y); });
    must_throw<std::runtime_error>("list loader", [&] { openml::data::loadtxt<double>(f, V, w); });
    if (k == 0) must_throw<std::runtime_error>("row loader", [&] { openml::data::loadtxt<double>(f, V); });
}
#include "pbt_main.hpp"
