// shared by the parts of C37
#pragma once
#include "common.hpp"
namespace K = openml::common; namespace M = openml::math;
template <class T> using MX = Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic>; template <class T> using VX = Eigen::Matrix<T, Eigen::Dynamic, 1>;
struct Mute { std::ostringstream o; std::streambuf* b; Mute() : b(std::cout.rdbuf(o.rdbuf())) {} ~Mute() { std::cout.rdbuf(b); } };
template <class T> static MX<T> to(const Mat& m) { return m.cast<T>(); }
template <class T> static VX<T> tov(const Vec& m) { return m.cast<T>(); }
template <class D> static Mat up(const D& m) { return m.template cast<double>(); }
static void near(const char* what, const Mat& a, const Mat& b, double tol) { REQ(a.rows() == b.rows() && a.cols() == b.cols(), what, ": single precision gives ", b.rows(), "x", b.cols(), ", double precision ", a.rows(), "x", a.cols()); for (long i = 0; i < a.rows(); ++i) for (long j = 0; j < a.cols(); ++j) REQ(close(a(i, j), b(i, j), tol), what, ": ", b(i, j), " at (", i, ",", j, ") in single precision, ", a(i, j), " in double precision"); }
// data both precisions hold exactly
static Mat grid(Source& s, size_t r, size_t d, int m = 24, double step = 0.125) { Mat x((long)r, (long)d); for (long i = 0; i < x.size(); ++i) x.data()[i] = (double)s.small(m) * step; return x; }
static bool disagree(const Mat& a, const Mat& b, double tol) { for (long i = 0; i < a.size(); ++i) if (!close(a.data()[i], b.data()[i], tol)) return true; return a.size() != b.size(); }
