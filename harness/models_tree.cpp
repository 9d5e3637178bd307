#include "models_impl.hpp"
#include "methods/tree/decision_tree_classifier.hpp"
#include "methods/tree/decision_tree_regressor.hpp"
#include "methods/neighbors/k_nearest_neighbors.hpp"
#include "methods/decomposition/pca.hpp"
#include "methods/decomposition/truncated_svd.hpp"
namespace DC = openml::decomposition; namespace TR = openml::decision_tree;
static auto pca_state = [](auto& t) { std::vector<double> o; mdl::put(o, t.get_components()); mdl::put(o, t.get_explained_var()); mdl::put(o, t.get_explained_var_ratio()); mdl::put(o, t.get_singular_values()); mdl::put(o, t.get_covariance()); mdl::put(o, t.get_precision()); Mat q = Mat::Ones(2, t.get_components().cols()); o.push_back(t.score(q)); return o; };
static auto svd_state = [](auto& t) { std::vector<double> o; mdl::put(o, t.get_components()); mdl::put(o, t.get_explained_var()); mdl::put(o, t.get_explained_var_ratio()); mdl::put(o, t.get_singular_values()); return o; };
mdl::Make mdl::make_tree(const Cfg& g) {
    std::string cr; static const char* metric[] = {"euclidean", "manhattan", "chebyshev"};
    if (g.mode == 1) switch (g.k) {
    case 13: return [=] { return box<TR::DecisionTreeClassifier<double>>(both, none); };
    case 14: return [=] { return box<TR::DecisionTreeRegressor<double>>(pred, none); };
    case 15: return [=] { return box<openml::neighbors::KNearestNeighbors<double>>(pred, none); };
    case 17: return [=] { return box<DC::PCA<double>>(proj, pca_state); };
    default: return [=] { return box<DC::TruncatedSVD<double>>(proj, svd_state); };
    }
    if (g.mode == 2) switch (g.k) {
    case 13: return [=] { return box<TR::DecisionTreeClassifier<double>>(both, none, std::string("gini"), (size_t)2, (size_t)0, (size_t)4, 1e-7); };
    case 14: return [=] { return box<TR::DecisionTreeRegressor<double>>(pred, none, std::string("squared_error"), (size_t)2, (size_t)0, (size_t)4, 1e-7, 1e-3); };
    case 15: return [=] { return box<openml::neighbors::KNearestNeighbors<double>>(pred, none, (size_t)10, (size_t)15, std::string("kdtree"), std::string("euclidean")); };
    case 17: return [=] { return box<DC::PCA<double>>(proj, pca_state, std::string("svd"), (size_t)2); };
    default: return [=] { return box<DC::TruncatedSVD<double>>(proj, svd_state, (size_t)2, (size_t)2, (size_t)4, std::string("randomized"), std::string("LU")); };
    }
    if (g.mode == 3) switch (g.k) {
    case 13: return [=] { return box<TR::DecisionTreeClassifier<double>>(both, none, g.bad, (size_t)2, g.lf, g.dep, 1e-7); };
    case 14: return [=] { return box<TR::DecisionTreeRegressor<double>>(pred, none, g.bad, (size_t)2, g.lf, g.dep, 1e-7, 1e-3); };
    case 15: case 16: return [=] { return box<openml::neighbors::KNearestNeighbors<double>>(pred, none, g.lf, g.kk, g.x ? g.bad : std::string(g.k == 15 ? "kdtree" : "brute"), g.x ? std::string("euclidean") : g.bad); };
    case 17: return [=] { return box<DC::PCA<double>>(proj, pca_state, g.bad, (size_t)1); };
    default: return [=] { return box<DC::TruncatedSVD<double>>(proj, svd_state, (size_t)1, (size_t)0, (size_t)2, g.x ? g.bad : std::string("randomized"), g.x ? std::string("LU") : g.bad); };
    }
    switch (g.k) {
    case 13: cr = g.x ? "gini" : "entropy"; return [=] { return box<TR::DecisionTreeClassifier<double>>(both, none, cr, (size_t)2, g.lf, g.dep, 1e-7); };
    case 14: cr = g.x ? "squared_error" : "absolute_error"; return [=] { return box<TR::DecisionTreeRegressor<double>>(pred, none, cr, (size_t)2, g.lf, g.dep, 1e-7, 1e-3); };
    case 15: case 16: cr = metric[g.k == 16 ? g.pick % 2 : g.pick]; return [=] { return box<openml::neighbors::KNearestNeighbors<double>>(pred, none, g.lf, g.kk, std::string(g.k == 15 ? "kdtree" : "brute"), cr); };
    case 17: return [=] { return box<DC::PCA<double>>(proj, pca_state, std::string("svd"), std::min<size_t>(g.kk, g.m)); };
    default: { std::string nm = g.x ? "LU" : "QR"; return [=] { return box<DC::TruncatedSVD<double>>(proj, svd_state, std::max<size_t>(1, std::min<size_t>(g.kk, g.m - (g.m > 1))), (size_t)0, (size_t)2, std::string("randomized"), nm); }; }
    }
}
