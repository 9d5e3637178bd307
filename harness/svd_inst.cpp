#include <eigen3/Eigen/SVD>
template class Eigen::BDCSVD<Eigen::MatrixXd>;
