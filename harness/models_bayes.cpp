#include "models_impl.hpp"
#include "methods/naive_bayes/gaussian_naive_bayes.hpp"
#include "methods/naive_bayes/multinomial_naive_bayes.hpp"
#include "methods/mixture/gaussian_mixture.hpp"
#include "methods/cluster/kmeans.hpp"
namespace NB = openml::naive_bayes; using GM = openml::mixture_model::GaussianMixture<double>; using KM = openml::cluster::KMeans<double>;
static auto gnb = [](auto& t, const Mat& Z) { return mdl::beside({Mat(t.predict(Z)), t.predict_prob(Z), t.predict_log_prob(Z)}); };
static auto gnb_state = [](auto& t) { std::vector<double> o; mdl::put(o, t.get_mean()); mdl::put(o, t.get_var()); mdl::put(o, t.get_classes()); mdl::put(o, t.get_prior_prob()); return o; };
static auto mnb = [](auto& t, const Mat& Z) { Mat A = Z.cwiseAbs(); return mdl::beside({Mat(t.predict(A)), t.predict_prob(A), t.predict_log_prob(A)}); };
static auto mnb_state = [](auto& t) { std::vector<double> o; mdl::put(o, t.get_features_count()); mdl::put(o, t.get_classes()); mdl::put(o, t.get_prior_prob()); return o; };
static auto gm_state = [](auto& t) { std::vector<double> o; mdl::put(o, t.get_means()); mdl::put(o, t.get_weights()); for (auto& v : {t.get_covariance(), t.get_precisions(), t.get_precisions_cholesky()}) { o.push_back((double)v.size()); for (auto& q : v) mdl::put(o, q); } o.push_back(t.get_lower_bound()); return o; };
mdl::Make mdl::make_bayes(const Cfg& g) {
    if (g.mode == 1) switch (g.k) {
    case 9: return [=] { return box<NB::GaussianNB<double>>(gnb, gnb_state); };
    case 10: return [=] { return box<NB::MultinomialNB<double>>(mnb, mnb_state); };
    case 11: return [=] { return box<GM>(both, gm_state); };
    default: return [=] { return box<KM>(pred, none); };
    }
    if (g.mode == 2) switch (g.k) {
    case 9: return [=] { return box<NB::GaussianNB<double>>(gnb, gnb_state, 1e-9); };
    case 10: return [=] { return box<NB::MultinomialNB<double>>(mnb, mnb_state, 10.0); };
    case 11: return [=] { return box<GM>(both, gm_state, (size_t)100, (size_t)1, (size_t)3, std::string("random"), std::string("full"), 1e-3, 1e-6); };
    default: return [=] { return box<KM>(pred, none, std::string("kmeans++"), (size_t)10, (size_t)3, (size_t)300, 1e-4); };
    }
    if (g.mode == 3) { if (g.k == 11) return [=] { return box<GM>(both, gm_state, g.it, g.ni, (size_t)2, g.x ? g.bad : std::string("random"), g.x ? std::string("full") : g.bad, g.tol, 0.05); }; return [=] { return box<KM>(pred, none, g.bad, (size_t)1, g.kk, g.it, 1e-6); }; }
    switch (g.k) {
    case 9: return [=] { return box<NB::GaussianNB<double>>(gnb, gnb_state, 1e-3); };
    case 10: return [=] { return box<NB::MultinomialNB<double>>(mnb, mnb_state, 0.5); };
    case 11: { std::string cv = g.x ? "full" : "tied"; return [=] { return box<GM>(both, gm_state, g.it, g.ni, std::min<size_t>(g.kk, 3), std::string("random"), cv, g.tol, 0.05); }; }
    default: { std::string in = g.x ? "random" : "kmeans++"; return [=] { return box<KM>(pred, none, in, (size_t)1, g.kk, g.it, 1e-6); }; }
    }
}
