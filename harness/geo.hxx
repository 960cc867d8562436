/* Independent evaluation of tree maps in floating point. */
#pragma once
#include "ref.hxx"
#include <array>
#include <cmath>
#include <vector>

namespace geo
{
using namespace ref;
typedef std::array<double, 3> V;

inline V
operator+ (const V &a, const V &b)
{
  return { a[0] + b[0], a[1] + b[1], a[2] + b[2] };
}
inline V
operator- (const V &a, const V &b)
{
  return { a[0] - b[0], a[1] - b[1], a[2] - b[2] };
}
inline V
operator* (double s, const V &a)
{
  return { s * a[0], s * a[1], s * a[2] };
}
inline double
dot (const V &a, const V &b)
{
  return a[0] * b[0] + a[1] * b[1] + a[2] * b[2];
}
inline V
cross (const V &a, const V &b)
{
  return { a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0] };
}
inline double
norm (const V &a)
{
  return std::sqrt (dot (a, a));
}
inline std::string
show (const V &a)
{
  char b[128];
  snprintf (b, sizeof b, "(%.15g,%.15g,%.15g)", a[0], a[1], a[2]);
  return b;
}

/* values of the vertex functions of a reference cell at a point */
inline std::vector<double>
weights (int s, const V &x)
{
  switch (s) {
  case VERTEX:
    return { 1 };
  case LINE:
    return { 1 - x[0], x[0] };
  case TRI:
    return { 1 - x[0], x[0] - x[1], x[1] };
  case TET:
    return { 1 - x[0], x[0] - x[2], x[2] - x[1], x[1] };
  case PRISM: {
    std::vector<double> w;
    for (int k = 0; k < 2; ++k)
      for (double t : { 1 - x[0], x[0] - x[1], x[1] })
        w.push_back (t * (k ? x[2] : 1 - x[2]));
    return w;
  }
  case PYRA: {
    if (x[2] >= 1)
      return { 0, 0, 0, 0, 1 };
    const double a = (x[0] - x[2]) / (1 - x[2]), b = (x[1] - x[2]) / (1 - x[2]), h = 1 - x[2];
    return { h * (1 - a) * (1 - b), h * a * (1 - b), h * (1 - a) * b, h * a * b, x[2] };
  }
  default: {
    std::vector<double> w;
    for (int v = 0; v < NV[s]; ++v) {
      double p = 1;
      for (int k = 0; k < DIM[s]; ++k)
        p *= RV[s][v][k] ? x[k] : 1 - x[k];
      w.push_back (p);
    }
    return w;
  }
  }
}
inline V
blend (const std::vector<double> &w, const std::vector<V> &v)
{
  V r = { 0, 0, 0 };
  for (size_t i = 0; i < w.size (); ++i)
    r = r + w[i] * v[i];
  return r;
}
inline V
linear_map (int s, const std::vector<V> &v, const V &x)
{
  return blend (weights (s, x), v);
}

/* measure of a cell with straight faces given by its vertices: length, area (flat cells), volume */
inline double
measure (int s, const std::vector<V> &v)
{
  double r = 0;
  for (auto &t : SIMP[s]) {
    if (DIM[s] == 0)
      return 0;
    if (DIM[s] == 1)
      r += norm (v[t[1]] - v[t[0]]);
    else if (DIM[s] == 2)
      r += norm (cross (v[t[1]] - v[t[0]], v[t[2]] - v[t[0]])) / 2;
    else
      r += std::fabs (dot (cross (v[t[1]] - v[t[0]], v[t[2]] - v[t[0]]), v[t[3]] - v[t[0]])) / 6;
  }
  return r;
}
} // namespace geo
