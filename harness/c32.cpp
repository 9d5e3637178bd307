// C32 concurrent use: shared fitted models, separate models per thread
#include "models.hpp"
#include <thread>
#include <atomic>
using namespace mdl;
// run f(0..t-1) in threads that start together; exceptions are carried out
template <class F> static void threads(size_t t, F f) {
    std::atomic<size_t> ready{0}; std::vector<std::thread> v; std::vector<std::exception_ptr> e(t); for (size_t i = 0; i < t; ++i) v.emplace_back([&, i] { ++ready; while (ready < t) std::this_thread::yield(); try { f(i); } catch (...) { e[i] = std::current_exception(); } }); for (auto& x : v) x.join(); for (auto& x : e) if (x) std::rethrow_exception(x);
}
static bool same_values(const Mat& a, const Mat& b) { if (a.rows() != b.rows() || a.cols() != b.cols()) return false; for (long i = 0; i < a.size(); ++i) if (!eq(a.data()[i], b.data()[i])) return false; return true; }
LAW(query, 2500) {            // one fitted model asked from several threads answers as it does alone, without data races
    int k = (int)s.draw(NKIND); Mat X; Vec y; size_t d = dims_for(s, k), n = min_rows(k, d) + s.dim(0, 8, 120, 10), t = s.sz(2, 4); training(s, k, n, d, X, y); Make mk = maker(s, c, k, limit(k, n, d)); c.log("X", X); c.log("y", y.transpose()); c.log("threads", t); c.nt(); auto a = mk(); if (!mdl::fit(*a, X, y, s.draw(1000000), 3)) pbt::discard(); bool share = s.b(); std::vector<Mat> Z(t), R(t), Q(t); for (size_t i = 0; i < t; ++i) { Z[i] = share && i ? Z[0] : cont(s, s.sz(1, 6), d, 3); R[i] = a->rows(Z[i]); } size_t times = s.sz(1, 3);
    threads(t, [&](size_t i) { for (size_t r = 0; r < times; ++r) Q[i] = a->rows(share ? Z[0] : Z[i]); }); for (size_t i = 0; i < t; ++i) REQ(same_values(Q[i], R[i]), "thread ", i, " gets other answers than it gets alone");
}
LAW(train, 1500) {            // models fitted in their own threads are the ones fitted one after another
    size_t t = s.sz(2, 4); bool same_data = s.b(); std::vector<int> k(t); std::vector<Mat> X(t), Z(t), R(t), Q(t); std::vector<Vec> y(t); std::vector<Make> mk(t); std::vector<pbt::u64> st(t); std::vector<char> ok(t), ok2(t); int kind = s.pick(std::vector<int>{0, 1, 2, 7, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18}); bool mixed = !same_data && s.b();
    for (size_t i = 0; i < t; ++i) { k[i] = mixed ? s.pick(std::vector<int>{0, 1, 2, 7, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18}) : kind; if (same_data && i) { X[i] = X[0]; y[i] = y[0]; Z[i] = Z[0]; mk[i] = mk[0]; } else { size_t d = dims_for(s, k[i]), n = min_rows(k[i], d) + s.dim(0, 8, 120, 10); training(s, k[i], n, d, X[i], y[i]); mk[i] = maker(s, c, k[i], limit(k[i], n, d)); Z[i] = cont(s, 3, d, 3); c.log("X", X[i]); c.log("y", y[i].transpose()); } st[i] = s.draw(1000000); } c.nt(); c.label(same_data ? "shared training data" : mixed ? "different models" : "same model, own data");
    auto job = [&](size_t i, std::vector<Mat>& out, std::vector<char>& good) { size_t src = same_data ? 0 : i; auto a = mk[i](); good[i] = mdl::fit(*a, X[src], y[src], st[i], 3); if (good[i]) out[i] = a->rows(Z[src]); }; for (size_t i = 0; i < t; ++i) job(i, R, ok); threads(t, [&](size_t i) { job(i, Q, ok2); }); for (size_t i = 0; i < t; ++i) { REQ(ok[i] == ok2[i], "the fit of thread ", i, ok[i] ? " succeeds" : " fails", " only alone"); if (ok[i]) REQ(same_values(Q[i], R[i]), "the model of thread ", i, " answers otherwise than one fitted alone"); }
}
#include "pbt_main.hpp"
