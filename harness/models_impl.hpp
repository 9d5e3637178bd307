// model kinds of models.hpp, compiled in four translation units
#pragma once
#include "models.hpp"
namespace mdl {
template <class T, class R, class S> struct Box : Any {
    T t; R r; S st;
    Box(R r_, S s_, const T& o, int) : t(o), r(r_), st(s_) {}
    Box(R r_, S s_, T&& o, char) : t(std::move(o)), r(r_), st(s_) {}
    std::unique_ptr<Any> clone() override { if constexpr (std::is_copy_constructible_v<T>) return std::unique_ptr<Any>(new Box(r, st, static_cast<const T&>(t), 0)); else return nullptr; }
    std::unique_ptr<Any> moved() override { if constexpr (std::is_move_constructible_v<T>) return std::unique_ptr<Any>(new Box(r, st, std::move(t), 'm')); else return nullptr; }
    bool assign(Any& o, bool mv) override { T& u = static_cast<Box&>(o).t; if (mv) { if constexpr (std::is_move_assignable_v<T>) { t = std::move(u); return true; } } else if constexpr (std::is_copy_assignable_v<T>) { t = static_cast<const T&>(u); return true; } return false; }
    template <class... A> Box(R r_, S s_, A&&... a) : t(std::forward<A>(a)...), r(r_), st(s_) {}
    void fit(const Mat& X, const Vec& y) override { if constexpr (std::is_invocable_v<decltype(&T::fit), T&, const Mat&, const Vec&>) t.fit(X, y); else t.fit(X); }
    Mat rows(const Mat& Z) override { return r(t, Z); }
    std::vector<double> state() override { return st(t); }
};
template <class T, class R, class S, class... A> std::unique_ptr<Any> box(R r, S s, A... a) { return std::unique_ptr<Any>(new Box<T, R, S>(r, s, a...)); }
static auto pred = [](auto& t, const Mat& Z) { return Mat(t.predict(Z)); };
static auto both = [](auto& t, const Mat& Z) { return beside({Mat(t.predict(Z)), Mat(t.predict_prob(Z))}); };
static auto proj = [](auto& t, const Mat& Z) { return Mat(t.transform(Z)); };
static auto none = [](auto&) { return std::vector<double>(); };
static auto coef = [](auto& t) { std::vector<double> o; put(o, t.get_coef()); return o; };
}
