// C37: least squares, naive Bayes, one Gaussian
#include "precision.hpp"
#include "methods/linear_model/linear_regression.hpp"
#include "methods/linear_model/ridge_regression.hpp"
#include "methods/naive_bayes/gaussian_naive_bayes.hpp"
#include "methods/naive_bayes/multinomial_naive_bayes.hpp"
#include "methods/mixture/gaussian_mixture.hpp"
namespace LM = openml::linear_model; namespace NB = openml::naive_bayes;
LAW(closed_form, 2500) {      // least squares, naive Bayes, one Gaussian
    size_t d = s.sz(1, 4), n = d + s.sz(4, 14); int how = (int)s.draw(5); Mat X = grid(s, n, d), Z = grid(s, 4, d); if (how == 3) { X = (X * 8).cwiseAbs(); Z = (Z * 8).cwiseAbs(); } Vec y((long)n); size_t C = s.sz(2, 3); for (long i = 0; i < y.size(); ++i) y(i) = how < 2 ? (double)s.small(40) / 8 : how == 4 ? 0 : (double)((size_t)i % C); bool ic = s.b(); c.log("X", X); c.log("y", y.transpose()); c.log("Z", Z); c.log("intercept", ic); static const char* N[] = {"linear", "ridge", "gaussian nb", "multinomial nb", "mixture"}; c.label(N[how]); c.nt();
    { Mat A(X.rows(), X.cols() + 1); A << X, Vec::Ones(X.rows()); Eigen::JacobiSVD<Mat> sv(how < 2 || how == 4 ? A : Mat::Identity(1, 1)); auto e = sv.singularValues(); if (e(e.size() - 1) < 0.02 * e(0)) pbt::discard(); if (how == 2) for (size_t q = 0; q < C; ++q) for (long j = 0; j < X.cols(); ++j) { double lo = 1e9, hi = -1e9; for (long i = 0; i < X.rows(); ++i) if ((size_t)y(i) == q) { lo = std::min(lo, X(i, j)); hi = std::max(hi, X(i, j)); } if (hi - lo < 0.5) pbt::discard(); } }
    auto f = [&](auto z) { using T = decltype(z); MX<T> A = to<T>(X), B = to<T>(Z); VX<T> t = tov<T>(y); std::vector<Mat> o; auto P = [&](const auto& m) { o.push_back(up(m)); };
        if (how == 0) { LM::LinearRegression<T> m(ic); m.fit(A, t); P(m.get_coef()); P(m.predict(B)); }
        else if (how == 1) { LM::RidgeRegression<T> m(0.5, ic); m.fit(A, t); P(m.get_coef()); P(m.predict(B)); }
        else if (how == 2) { NB::GaussianNB<T> m; m.fit(A, t); P(m.get_mean()); P(m.get_var()); P(m.get_classes()); P(m.get_prior_prob()); P(m.predict_prob(B)); P(m.predict_log_prob(B)); }
        else if (how == 3) { NB::MultinomialNB<T> m; m.fit(A, t); P(m.get_features_count()); P(m.get_classes()); P(m.get_prior_prob()); P(m.predict_prob(B)); P(m.predict_log_prob(B)); }
        else { openml::mixture_model::GaussianMixture<T> m(20, 1, 1, "random", ic ? "full" : "tied", 1e-3, 0.05); pbt::env_state = 3; std::srand(1); m.fit(A); P(m.get_means()); for (auto& v : m.get_covariance()) P(v); for (auto& v : m.get_precisions()) P(v); P(m.predict(B)); P(m.predict_prob(B)); }
        return o; };
    auto a = f(1.0), b = f(1.0f); REQ(a.size() == b.size(), "attributes"); for (size_t i = 0; i < a.size(); ++i) near(N[how], a[i], b[i], 1e-2);
}
