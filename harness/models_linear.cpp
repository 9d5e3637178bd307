#include "models_impl.hpp"
#include "methods/linear_model/linear_regression.hpp"
#include "methods/linear_model/ridge_regression.hpp"
#include "methods/linear_model/lasso_regression.hpp"
#include "methods/linear_model/softmax_regression.hpp"
#include "methods/linear_model/perceptron.hpp"
namespace LM = openml::linear_model;
mdl::Make mdl::make_linear(const Cfg& g) {
    if (g.mode == 1) switch (g.k) {
    case 0: return [=] { return box<LM::LinearRegression<double>>(pred, coef); };
    case 1: return [=] { return box<LM::RidgeRegression<double>>(pred, coef); };
    case 2: return [=] { return box<LM::LassoRegression<double>>(pred, coef); };
    case 7: return [=] { return box<LM::SoftmaxRegression<double>>(both, coef); };
    default: return [=] { return box<LM::Perceptron<double>>(pred, coef); };
    }
    if (g.mode == 2) switch (g.k) {
    case 0: return [=] { return box<LM::LinearRegression<double>>(pred, coef, true); };
    case 1: return [=] { return box<LM::RidgeRegression<double>>(pred, coef, 0.5, true); };
    case 2: return [=] { return box<LM::LassoRegression<double>>(pred, coef, (size_t)5000, 0.001, 1.0, true, true, true); };
    case 7: return [=] { return box<LM::SoftmaxRegression<double>>(both, coef, 0.01, 0.0, 1e-4, (size_t)4, (size_t)2000, (size_t)5, std::string("sgd"), std::string("None"), true, true); };
    default: return [=] { return box<LM::Perceptron<double>>(pred, coef, 0.001, 0.0, 1e-4, (size_t)32, (size_t)2000, (size_t)5, std::string("l2"), true, true, true); };
    }
    switch (g.k) {
    case 0: return [=] { return box<LM::LinearRegression<double>>(pred, coef, g.ic); };
    case 1: return [=] { return box<LM::RidgeRegression<double>>(pred, coef, g.lam + 0.1, g.ic); };
    case 2: return [=] { return box<LM::LassoRegression<double>>(pred, coef, g.it, g.lam * 0.1, 1.0, g.sh, g.verbose, g.ic); };
    case 7: return [=] { return box<LM::SoftmaxRegression<double>>(both, coef, g.al, g.lam, g.tol, g.b, g.it, (size_t)3, std::string("sgd"), g.pen, g.sh, g.verbose); };
    default: return [=] { return box<LM::Perceptron<double>>(pred, coef, g.al, g.lam, g.tol, g.b, g.it, (size_t)3, std::string("l2"), g.ic, g.sh, g.verbose); };
    }
}
