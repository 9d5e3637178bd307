// The SVD templates are instantiated once, in svd_inst*.cpp, in parallel.
#pragma once
#include <eigen3/Eigen/SVD>
extern template class Eigen::BDCSVD<Eigen::MatrixXd>;
extern template class Eigen::JacobiSVD<Eigen::MatrixXd>;
