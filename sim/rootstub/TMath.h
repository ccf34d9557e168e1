#ifndef SIM_TMATH_H
#define SIM_TMATH_H
#include <cmath>
#include <algorithm>
namespace TMath { inline double Pi() { return M_PI; } inline double Sqrt(double x) { return std::sqrt(x); } inline double Log(double x) { return std::log(x); } inline double Exp(double x) { return std::exp(x); } inline double Power(double x, double y) { return std::pow(x, y); } template <class T> T Abs(T x) { return std::abs(x); } template <class T> T Max(T a, T b) { return a > b ? a : b; } template <class T> T Min(T a, T b) { return a < b ? a : b; } inline double Erf(double x) { return std::erf(x); } inline double Erfc(double x) { return std::erfc(x); } inline double Floor(double x) { return std::floor(x); } inline double Ceil(double x) { return std::ceil(x); } }
#endif
