// C36 an omitted argument means its documented default
#include "svd_ext.hpp"
#include "common.hpp"
#include "core/optimizer/sgd/update_policies/nesterov_momentum_update.hpp"
#include "methods/rule_model/apriori.hpp"
#include "core/loss/huber_loss.hpp"
#include "core/loss/hinge_loss.hpp"
#include "core/loss/softmax_loss.hpp"
#include "core/optimizer/sgd/decay_policies/step_decay.hpp"
#include "core/tree/kd_tree.hpp"
#include "core/tree/hash_tree.hpp"
namespace K = openml::common; namespace M = openml::math; namespace R = openml::random; namespace O = openml::optimizer; namespace L = openml::loss;
struct Mute { std::ostringstream o; std::streambuf* b; Mute() : b(std::cout.rdbuf(o.rdbuf())) {} ~Mute() { std::cout.rdbuf(b); } };
#define SAME(what, a, ...) do { auto u_ = (a); auto v_ = (__VA_ARGS__); REQ(exact(Mat(u_.template cast<double>()), Mat(v_.template cast<double>())), what, ": another result than with the default written out"); } while (0)
LAW(reductions, 9000) {       // axis and order arguments of the array functions
    size_t r = s.sz(1, 6), q = s.sz(1, 6); Mat x = s.b() ? cont(s, r, q) : mat(s, r, q, style(s, false)); c.log("x", x); c.nt(r > 1 && q > 1); int how = (int)s.draw(15); c.label(cat("function ", how)); if (how == 11 && (q == 1 || r == 1)) pbt::discard();
    switch (how) {
    case 0: { IVec a = K::argmax<Mat, Vec, IVec>(x), b = K::argmax<Mat, Vec, IVec>(x, 0); SAME("argmax", a, b); break; }
    case 1: { IVec a = K::argmin<Mat, Vec, IVec>(x), b = K::argmin<Mat, Vec, IVec>(x, 0); SAME("argmin", a, b); break; }
    case 2: { IMat a = K::argsort<Mat, IMat, IVec>(x), b = K::argsort<Mat, IMat, IVec>(x, 0, false), e = K::argsort<Mat, IMat, IVec>(x, 1), f = K::argsort<Mat, IMat, IVec>(x, 1, false); SAME("argsort", a, b); SAME("argsort", e, f); break; }
    case 3: { Mat a = K::sort<Mat>(x), b = K::sort<Mat>(x, 0, false), e = K::sort<Mat>(x, 1), f = K::sort<Mat>(x, 1, false); SAME("sort", a, b); SAME("sort", e, f); break; }
    case 4: SAME("var", Mat(M::var<Mat>(x)), Mat(M::var<Mat>(x, -1))); break;
    case 5: SAME("sum", Mat(M::sum<Mat>(x)), Mat(M::sum<Mat>(x, -1))); break;
    case 6: SAME("mean", Mat(M::mean<Mat>(x)), Mat(M::mean<Mat>(x, -1))); break;
    case 7: SAME("median", (Vec(M::median<Mat, Vec>(x))), Vec(M::median<Mat, Vec>(x, 0))); break;
    case 8: SAME("norm2", (Vec(M::norm2<Mat, Vec>(x))), Vec(M::norm2<Mat, Vec>(x, 0))); break;
    case 9: SAME("cumsum", (Mat(M::cumsum<Mat, Vec>(x))), Mat(M::cumsum<Mat, Vec>(x, 0))); break;
    case 10: { auto a = M::mode<Mat>(x), b = M::mode<Mat>(x, 0); SAME("mode", std::get<0>(a), std::get<0>(b)); SAME("mode count", std::get<1>(a), std::get<1>(b)); break; }
    case 11: SAME("softmax", (Mat(M::softmax<Mat>(x))), Mat(M::softmax<Mat>(x, 0))); break;
    case 12: SAME("row_norms", (Mat(M::row_norms<Mat, Vec>(x))), (Mat(M::row_norms<Mat, Vec>(x, false)))); break;
    case 13: { std::vector<std::vector<double>> v; for (size_t i = 0; i < r; ++i) { v.emplace_back(); for (size_t j = 0; j < q; ++j) v.back().push_back(x((long)i, (long)j)); } REQ(K::sort<double>(v) == K::sort<double>(v, 0, false) && K::sort<double>(v, 1) == K::sort<double>(v, 1, false), "sort of a list: another result than with the default written out"); REQ(K::sortrows<double>(v) == K::sortrows<double>(v, false), "sortrows: another result than with the default written out"); REQ(K::argsort<double>(v[0]) == K::argsort<double>(v[0], false), "argsort of a list: another result than with the default written out"); break; }
    default: { std::vector<double> a(x.data(), x.data() + x.size()), b; for (double z : a) if (s.b()) b.push_back(z); for (auto& z : b) if (s.chance(30)) z += 1; REQ(K::difference<double>(a, b) == K::difference<double>(a, b, false), "difference: another result than with the default written out"); } }
}
LAW(factorisations, 4000) {
    size_t r = s.sz(2, 7), q = s.sz(2, 7); Mat x = cont(s, r, q); c.log("x", x); c.nt(); int how = (int)s.draw(6); c.label(cat("function ", how));
    switch (how) {
    case 0: { Mat w = cont(s, r, r), a, b, d, e, f, g; std::tie(a, b, d) = M::lu<Mat>(w); std::tie(e, f, g) = M::lu<Mat>(w, false); SAME("lu", a, e); SAME("lu", b, f); SAME("lu", d, g); break; }
    case 1: { Mat a, b, e, f; Mat w = r >= q ? x : Mat(x.transpose()); std::tie(a, b) = M::qr<Mat>(w); std::tie(e, f) = M::qr<Mat>(w, false); SAME("qr", a, e); SAME("qr", b, f); break; }
    case 2: { Mat a, d, e, g; Vec b, f; std::tie(a, b, d) = M::exact_svd<Mat, Vec>(x); std::tie(e, f, g) = M::exact_svd<Mat, Vec>(x, false); SAME("exact_svd", a, e); SAME("exact_svd", b, f); SAME("exact_svd", d, g); break; }
    case 3: { Mat w = cont(s, r, r), p = w * w.transpose() + Mat::Identity((long)r, (long)r); SAME("cholesky", Mat(M::cholesky<Mat>(p)), Mat(M::cholesky<Mat>(p, true))); break; }
    case 4: { Mat w = x; if (s.b()) { w = orth(s, r).leftCols((long)std::min(r, q)) * orth(s, q).leftCols((long)std::min(r, q)).transpose(); Mat u = orth(s, r), v = orth(s, q); Mat S = Mat::Zero((long)r, (long)q); for (size_t i = 0; i < std::min(r, q); ++i) S((long)i, (long)i) = std::pow(10.0, -(double)i * 12 / (double)std::min(r, q)); w = u * S * v.transpose(); c.label("ill conditioned"); } SAME("pinv", (Mat(M::pinv<Mat, Vec>(w))), Mat(M::pinv<Mat, Vec>(w, 1e-6))); break; }
    default: { Mat w = cont(s, s.sz(13, 16), s.sz(13, 16)), a, d, e, g; Vec b, f; pbt::u64 st = s.draw(1000000); int n = (int)s.draw(5); pbt::env_state = st; switch (n) { case 0: std::tie(a, b, d) = M::randomized_svd<Mat, Vec, IVec>(w); break; case 1: std::tie(a, b, d) = M::randomized_svd<Mat, Vec, IVec>(w, 3); break; case 2: std::tie(a, b, d) = M::randomized_svd<Mat, Vec, IVec>(w, 3, 10); break; case 3: std::tie(a, b, d) = M::randomized_svd<Mat, Vec, IVec>(w, 3, 10, 4); break; default: std::tie(a, b, d) = M::randomized_svd<Mat, Vec, IVec>(w, 3, 10, 4, "LU"); } pbt::env_state = st; std::tie(e, f, g) = M::randomized_svd<Mat, Vec, IVec>(w, 3, 10, 4, "LU", true); SAME("randomized_svd", a, e); SAME("randomized_svd", b, f); SAME("randomized_svd", d, g); } }
}
LAW(entropy, 4000) {          // random numbers, shuffling, splitting
    size_t r = s.sz(1, 12), q = s.sz(1, 5); pbt::u64 st = s.draw(1000000); int how = (int)s.draw(5); c.nt(); c.log("shape", cat(r, "x", q)); c.label(cat("function ", how)); auto reset = [&] { pbt::env_state = st; std::srand(5); };
    switch (how) {
    case 0: { reset(); Mat a = R::rand<Mat>(r, q); reset(); SAME("rand", a, Mat(R::rand<Mat>(r, q, 0.0, 1.0))); reset(); Mat b = R::rand<Mat>(r, q, -2.0); reset(); SAME("rand", b, Mat(R::rand<Mat>(r, q, -2.0, 1.0))); break; }
    case 1: { reset(); Mat a = R::randn<Mat>(r, q); reset(); SAME("randn", a, Mat(R::randn<Mat>(r, q, 0.0, 1.0))); reset(); Mat b = R::randn<Mat>(r, q, 3.0); reset(); SAME("randn", b, Mat(R::randn<Mat>(r, q, 3.0, 1.0))); break; }
    case 2: { reset(); auto a = R::randint<int>(r, q); reset(); SAME("randint", a, R::randint<int>(r, q, 0, 100)); break; }
    case 3: { Mat x = cont(s, r, q), a, b; Mute m; reset(); R::shuffle_data<Mat>(x, a); reset(); R::shuffle_data<Mat>(x, b, 1); SAME("shuffle", a, b); break; }
    default: { Mat x = cont(s, r + 3, q); Vec y = cont(s, r + 3, 1); reset(); auto a = openml::data::train_test_split<Mat, Vec>(x, y); reset(); auto b = openml::data::train_test_split<Mat, Vec>(x, y, 0.75, true); SAME("split", std::get<0>(a), std::get<0>(b)); SAME("split", std::get<1>(a), std::get<1>(b)); SAME("split", std::get<2>(a), std::get<2>(b)); SAME("split", std::get<3>(a), std::get<3>(b)); reset(); auto e = openml::data::train_test_split<Mat, Vec>(x, y, 0.5); reset(); auto f = openml::data::train_test_split<Mat, Vec>(x, y, 0.5, true); SAME("split", std::get<0>(e), std::get<0>(f)); } }
}
struct End { std::string err, out; Mat w; };
template <class F> static End run(pbt::u64 st, F f) { pbt::env_state = st; std::srand(5); End e; Mute m; try { auto o = f(); e.w = o.second(o.first.get()); } catch (const std::runtime_error& x) { e.err = x.what(); } e.out = m.o.str(); return e; }
static void same_end(const char* what, const End& a, const End& b) { REQ(a.err == b.err, what, ": ends with '", a.err, "', with the defaults written out with '", b.err, "'"); REQ(exact(a.w, b.w), what, ": other coefficients than with the defaults written out"); REQ(a.out.size() == b.out.size(), what, ": reports another progress than with the defaults written out"); }
template <class T, class P> static std::pair<std::unique_ptr<T>, std::function<Mat(T*)>> go(T* t, const P& p) { auto X = p.first; auto y = p.second; return {std::unique_ptr<T>(t), [X, y](T* o) { o->optimize(X, y); return Mat(o->get_coef()); }}; }
LAW(optimisers, 700) {        // stochastic optimisers
    bool slow = s.chance(8); int how = (int)s.draw(3); size_t n = slow ? std::vector<size_t>{16, 24, 20}[(size_t)how] : s.sz(24, 50), d = s.sz(1, 3); Mat X = cont(s, n, d); Vec w0 = vec(s, d, UNIT), y = X * w0; for (long i = 0; i < y.size(); ++i) y(i) += s.sym() * 0.3; double lam = s.b() ? 0 : s.unit(), base = s.pick(std::vector<double>{1e-4, 1e-3, 0.02, 0.2}), gamma = 0.02; if (slow) { y *= 3000; base = s.pick(std::vector<double>{1e-8, 1e-7, 1e-6}); gamma = 1e-4; } c.log("X", X); c.log("y", y.transpose()); c.log("rate", base); c.nt(); Mat x0 = Mat::Zero((long)d, 1); std::pair<Mat, Vec> p{X, y}; int m = (int)s.draw(3); pbt::u64 st = s.draw(1000000); c.label(how == 0 ? "sgd" : how == 1 ? "sag" : "truncated gradient"); c.log("given", m);
    using Ls = L::MSE<double>; using U = O::VanillaUpdate<double>; using D = O::ExponentialDecay<double>; Ls l(lam); U u; D dc(base, gamma); End a, b;
    if (how == 0) { using T = O::SGD<double, Ls, U, D>; a = run(st, [&] { return go(m == 0 ? new T(x0, l, u, dc) : m == 1 ? new T(x0, l, u, dc, 2000, 16) : new T(x0, l, u, dc, 2000, 16, 5, 1e-4), p); }); b = run(st, [&] { return go(new T(x0, l, u, dc, 2000, 16, 5, 1e-4, true, true, false), p); }); }
    else if (how == 1) { using T = O::SAG<double, Ls, U, D>; a = run(st, [&] { return go(m == 0 ? new T(x0, l, u, dc) : m == 1 ? new T(x0, l, u, dc, 2000, 24) : new T(x0, l, u, dc, 2000, 24, 5, 1e-4), p); }); b = run(st, [&] { return go(new T(x0, l, u, dc, 2000, 24, 5, 1e-4, true, true), p); }); }
    else { using T = O::TruncatedGradient<double, Ls, U, D>; a = run(st, [&] { return go(m == 0 ? new T(x0, l, u, dc) : m == 1 ? new T(x0, l, u, dc, 2000, 20, 5) : new T(x0, l, u, dc, 2000, 20, 5, 1e-4, 1e-4), p); }); b = run(st, [&] { return go(new T(x0, l, u, dc, 2000, 20, 5, 1e-4, 1e-4, 0.15, true, true), p); }); }
    c.label(b.err.empty() ? "converged" : "not converged"); same_end("optimiser", a, b);
}
LAW(searches, 700) {          // coordinate descent, L-BFGS and its line searches
    size_t n = s.sz(6, 20), d = s.sz(1, 4); Mat X = cont(s, n, d); Vec y((long)n); for (long i = 0; i < y.size(); ++i) y(i) = (double)s.draw(2); Vec x0 = cont(s, d, 1); double lam = s.unit(); c.log("X", X); c.log("y", y.transpose()); c.log("x0", x0.transpose()); c.nt(); std::pair<Mat, Vec> p{X, y}; using Ls = L::LogLoss<double>; using LP = O::LineSearchParams<double>; Ls l(lam); int m = (int)s.draw(4); End a, b; c.log("given", m); pbt::u64 st = s.draw(1000000);
    if (s.chance(60)) { c.label("lbfgs"); using T = O::LBFGS<double, Ls, LP>; LP e(0.5, 2.1, 1e-4, 0.9, 1e20, 1e-20, 40, "WOLFE"), q = s.b() ? LP() : s.b() ? LP(1e-4, 0.9, 40, "WOLFE") : e; a = run(st, [&] { return go(m == 0 ? new T(x0, l, q) : m == 1 ? new T(x0, l, q, 0, 8) : m == 2 ? new T(x0, l, q, 0, 8, 3, 1e-5) : new T(x0, l, q, 0, 8, 3, 1e-5, 1e-6), p); }); b = run(st, [&] { return go(new T(x0, l, e, 0, 8, 3, 1e-5, 1e-6, "backtracking", true, true), p); }); REQ(q.dec_factor_ == e.dec_factor_ && q.inc_factor_ == e.inc_factor_ && q.ftol_ == e.ftol_ && q.wolfe_ == e.wolfe_ && q.max_step_ == e.max_step_ && q.min_step_ == e.min_step_ && q.max_linesearch_ == e.max_linesearch_ && q.condition_ == e.condition_, "line search parameters differ from the defaults written out"); }
    else { c.label("scd"); using T = O::SCD<double, Ls>; a = run(st, [&] { return go(m == 0 ? new T(x0, l) : m == 1 ? new T(x0, l, 5000) : m == 2 ? new T(x0, l, 5000, 1.0) : new T(x0, l, 5000, 1.0, 1e-4, true), p); }); b = run(st, [&] { return go(new T(x0, l, 5000, 1.0, 1e-4, true, true), p); }); }
    same_end("optimiser", a, b);
}
struct TNode { bool is_leaf = true; std::map<std::vector<size_t>, size_t> bucket; std::map<size_t, std::shared_ptr<TNode>> children; };
LAW(parts, 4000) {            // decay policies, losses, trees: the objects handed to an optimiser or an estimator
    int how = (int)s.draw(7); c.log("object", how); static const char* N[] = {"exponential decay", "step decay", "squared error", "logistic, softmax loss", "huber, hinge loss", "k-d tree", "hash tree"}; c.label(N[how]); c.nt(); double lr = std::pow(10.0, s.sym() * 4), g = s.unit() * 1.5; c.log("rate", lr); c.log("gamma", g); auto eq = [&](const char* what, double a, double b) { REQ(std::memcmp(&a, &b, sizeof a) == 0, N[how], ": ", what, " gives ", a, ", with the defaults written out ", b); };
    if (how < 2) { for (int k = 0; k < 8; ++k) { size_t t = s.dim(0, 40, 3000, 100); if (how == 0) { O::ExponentialDecay<double> a, b(lr), A(0.1, 0.5), B(lr, 0.5); eq("nothing given", a.compute(t), A.compute(t)); eq("the rate given", b.compute(t), B.compute(t)); } else { O::StepDecay<double> a, b(lr), e(lr, g), A(0.1, 0.5, 10), B(lr, 0.5, 10), E(lr, g, 10); eq("nothing given", a.compute(t), A.compute(t)); eq("the rate given", b.compute(t), B.compute(t)); eq("rate and gamma given", e.compute(t), E.compute(t)); } } return; }
    if (how < 5) { size_t n = s.dim(1, 9, 40), d = s.sz(1, 5), C = 3; Mat X = cont(s, n, d); Vec y((long)n), w = cont(s, d, 1); c.log("X", X); c.log("w", w.transpose()); for (long i = 0; i < y.size(); ++i) y(i) = how == 2 ? s.sym() * 4 : how == 3 ? (double)s.draw(2) : s.b() ? 1 : -1; auto both = [&](auto a, auto b) { eq("its value", a.evaluate(X, y, w), b.evaluate(X, y, w)); Vec u = a.gradient(X, y, w), v = b.gradient(X, y, w); SAME("gradient", u, v); };
        if (how == 2) both(L::MSE<double>(), L::MSE<double>(0.0)); else if (how == 3) { both(L::LogLoss<double>(), L::LogLoss<double>(0.0)); Mat W = cont(s, d, C); Vec Y((long)n); for (long i = 0; i < Y.size(); ++i) Y(i) = (double)s.draw(C); L::SoftmaxLoss<double> a, b(0.0); eq("its value", a.evaluate(X, Y, W), b.evaluate(X, Y, W)); Mat u = a.gradient(X, Y, W), v = b.gradient(X, Y, W); SAME("gradient", u, v); } else { both(L::HuberLoss<double>(), L::HuberLoss<double>(0.0, 1.0)); both(L::HingeLoss<double>(), L::HingeLoss<double>(0.0, 1.0)); } return; }
    if (how == 5) { size_t n = s.dim(1, 60, 300, 60), d = s.sz(1, 4), k = s.sz(1, std::min<size_t>(n, 6)); Mat X = cont(s, n, d), Q = cont(s, 4, d); c.log("X", X); c.log("Q", Q); openml::tree::KDTree<double> a(X), b(X, 10, "euclidean"); auto u = a.query(Q, k), v = b.query(Q, k); SAME("distances", u.first, v.first); SAME("indices", u.second, v.second); return; }
    openml::tree::HashTree<TNode, size_t> a, b(3, 3); size_t items = s.sz(2, 9), len = s.sz(1, 4); std::vector<std::vector<size_t>> sets(s.sz(1, 30)); for (auto& v : sets) { v.resize(len); for (auto& z : v) z = s.draw(items); } c.log("itemsets", sets); for (auto& v : sets) { a.build_tree(v); b.build_tree(v); if (s.b()) { auto& q = s.pick(sets); a.add_support(q); b.add_support(q); } } std::vector<size_t> ca, cb; std::vector<std::vector<size_t>> la, lb; a.compute_frequency_itemsets(0, ca, la); b.compute_frequency_itemsets(0, cb, lb); REQ(ca == cb && la == lb, "hash tree: other itemsets or counts than with the defaults written out");
}
LAW(mining, 1000) {
    std::vector<std::vector<size_t>> t(s.sz(20, 60)); size_t items = s.sz(2, 8); for (auto& x : t) { x.resize(s.sz(1, 4)); for (auto& v : x) v = s.draw(items); } c.log("transactions", t); c.nt(); openml::rule_model::Apriori<size_t> a, b(0.03, 0.5); bool ok = true, ok2 = true; try { a.fit_transform(t); } catch (const std::runtime_error&) { ok = false; } try { b.fit_transform(t); } catch (const std::runtime_error&) { ok2 = false; } REQ(ok == ok2, "Apriori: ends otherwise than with the defaults written out"); if (ok) REQ(a.get_rules() == b.get_rules(), "Apriori: other rules than with the defaults written out");
}
#include "pbt_main.hpp"
