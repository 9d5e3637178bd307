// C37: models that follow a path
#include "precision.hpp"
#include "methods/linear_model/lasso_regression.hpp"
#include "methods/linear_model/softmax_regression.hpp"
#include "methods/linear_model/perceptron.hpp"
#include "methods/cluster/kmeans.hpp"
namespace LM = openml::linear_model;
LAW(iterated, 600) {          // models that follow a path from the origin
    size_t d = s.sz(1, 3), n = s.sz(8, 20); int how = (int)s.draw(4); Mat X = grid(s, n, d, 16), Z = grid(s, 4, d, 16); Vec y((long)n); size_t C = how == 2 ? 2 : s.sz(2, 3); for (long i = 0; i < y.size(); ++i) { size_t q = (size_t)i < C ? (size_t)i : s.chance(80) ? (size_t)(X(i, 0) > 0) : s.draw(C); y(i) = how == 0 ? X(i, 0) * 2 + (double)s.small(8) / 8 : (double)q; } double lam = s.pick(std::vector<double>{0, 0.125, 0.5}); size_t b = s.sz(1, 4), it = s.sz(30, 200); bool ic = s.b(); if (how == 3) { for (long i = 0; i < X.rows(); ++i) X.row(i).array() += 16.0 * (double)((size_t)i % C); for (long i = 0; i < Z.rows(); ++i) Z.row(i).array() += 16.0 * (double)((size_t)i % C); } static const char* N[] = {"lasso", "softmax", "perceptron", "kmeans"}; c.label(N[how]); c.log("model", N[how]); c.log("X", X); c.log("y", y.transpose()); c.log("Z", Z); c.log("lambda", lam); c.log("intercept", ic); c.log("batch", b); c.log("iterations", it); c.nt(); pbt::u64 st = s.draw(100000);
    auto f = [&](auto z, const Mat& X_, const Mat& Z_) { using T = decltype(z); MX<T> A = to<T>(X_), B = to<T>(Z_); VX<T> t = tov<T>(y); std::vector<Mat> o; auto P = [&](const auto& m) { o.push_back(up(m)); }; Mute mu; pbt::env_state = st; std::srand(7); try {
        if (how == 0) { LM::LassoRegression<T> m(it, lam * 0.1, 1.0, false, false, ic); m.fit(A, t); P(m.get_coef()); P(m.predict(B)); }
        else if (how == 1) { LM::SoftmaxRegression<T> m(0.05, lam, 1e-3, b, it, 3, "sgd", lam == 0 ? "None" : "l2", false, false); m.fit(A, t); P(m.get_coef()); P(m.predict_prob(B)); }
        else if (how == 2) { LM::Perceptron<T> m(0.05, lam, 1e-3, b, it, 3, "l2", ic, false, false); m.fit(A, t); P(m.get_coef()); }
        else { openml::cluster::KMeans<T> m("random", 1, C, it, 1e-6); m.fit(A); P(m.predict(B)); P(m.predict(A)); } } catch (const std::runtime_error& e) { o.clear(); } return o; };
    auto a = f(1.0, X, Z); for (int probe = 0; probe < 4; ++probe) { auto shaken = [&](Mat m) { for (long i = 0; i < m.size(); ++i) m.data()[i] += 1e-5 * ((double)((i * (7 + 4 * probe) + 3 * probe) % 11) - 5) / 5; return m; }; auto p = f(1.0, shaken(X), shaken(Z)); bool far = a.size() != p.size(); for (size_t i = 0; !far && i < a.size(); ++i) far = disagree(a[i], p[i], 1e-3); if (far) { c.label("sensitive"); pbt::discard(); } } if (how != 3) for (auto& m : a) if (maxabs(m) > 1e4) { c.label("diverging"); pbt::discard(); } c.label(a.empty() ? "not converged" : "converged");
    auto b2 = f(1.0f, X, Z); REQ(a.size() == b2.size(), N[how], ": ", a.empty() ? "converges in single precision only" : "converges in double precision only"); for (size_t i = 0; i < a.size(); ++i) near(N[how], a[i], b2[i], 2e-2);
}
