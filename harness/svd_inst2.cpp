#include <eigen3/Eigen/SVD>
template class Eigen::JacobiSVD<Eigen::MatrixXd>;
