#include "models_impl.hpp"
#include "methods/linear_model/logistic_regression.hpp"
namespace LM = openml::linear_model;
mdl::Make mdl::make_logistic(const Cfg& g) {
    if (g.mode == 1) switch (g.k) {
    default: return [=] { return box<LM::LogisticRegression<double>>(both, coef); };
    }
    if (g.mode == 2) switch (g.k) {
    default: return [=] { return box<LM::LogisticRegression<double>>(both, coef, 0.1, 0.0, 1e-4, (size_t)16, (size_t)2000, (size_t)5, std::string("sag"), std::string("None"), true, true); };
    }
    if (g.mode == 3) return [=] { return box<LM::LogisticRegression<double>>(both, coef, g.al, g.lam, g.tol, g.b, g.it, (size_t)3, g.x ? g.bad : std::string("sgd"), g.x ? g.pen : g.bad, g.sh, g.verbose); };
    switch (g.k) {
    case 3: case 4: { std::string so = g.k == 3 ? "sgd" : "sag"; return [=] { return box<LM::LogisticRegression<double>>(both, coef, g.al, g.lam, g.tol, g.b, g.it, (size_t)3, so, g.pen, g.sh, g.verbose); }; }
    case 5: { std::string po = g.x ? "backtracking" : "bracketing"; return [=] { return box<LM::LogisticRegression<double>>(both, coef, 1e-5, 1e-4, 1e-5, 0.9, g.it, (size_t)6, (size_t)1, (size_t)40, std::string("lbfgs"), std::string("None"), po, std::string("wolfe"), g.sh, g.verbose); }; }
    default: return [=] { return box<LM::LogisticRegression<double>>(both, coef, g.lam * 0.1, 1.0, g.it, std::string("scd"), std::string("l1"), g.sh, g.verbose); };
    }
}
