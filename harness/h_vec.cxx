/* Vector, matrix and splitting helpers. */
#include <vp.hxx>
#include <t8.h>
#include <t8_types/t8_vec.h>
#include <t8_types/t8_vec.hxx>
#include <t8_helper_functions/t8_mat.h>
#include <t8_helper_functions/t8_vector_algorithms.hxx>
#include <cmath>
#include <cstring>
using vp::Case;
typedef long double ld;
typedef std::vector<double> V;

static double
number (Case &c)
{
  switch (c.weighted ({ 4, 3, 2, 1 })) {
  case 0: return (double) c.range (-3, 3);
  case 1: return c.real (-2, 2);
  case 2: return c.real (-1000, 1000);
  default: return std::ldexp (c.real (-1, 1), (int) c.range (-120, 120));
  }
}
static V
vec (Case &c, int n)
{
  V v (n);
  const double scale = c.chance (15) ? std::ldexp (1.0, (int) c.range (-150, 150)) : 1.0;
  for (auto &x : v)
    x = number (c) * scale;
  return v;
}
static ld
dot (const V &a, const V &b)
{
  ld s = 0;
  for (size_t i = 0; i < a.size (); ++i)
    s += (ld) a[i] * b[i];
  return s;
}
static ld
absdot (const V &a, const V &b)
{
  ld s = 0;
  for (size_t i = 0; i < a.size (); ++i)
    s += fabsl ((ld) a[i] * b[i]);
  return s;
}
static bool
near (ld a, ld b, ld scale)
{
  return fabsl (a - b) <= 1e-13L * scale;
}
static V
cross (const V &a, const V &b)
{
  return { a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0] };
}
static ld
norm (const V &a)
{
  return sqrtl (dot (a, a));
}

/* the three ways to call the helpers: C pointers, arrays, vectors */
template <class F>
static void
each (int n, int way, V &x, V &y, V &z, F f)
{
  if (n == 3 && way == 0)
    f (x.data (), y.data (), z.data ());
  else if (n == 3 && way == 1) {
    t8_3D_vec a { x[0], x[1], x[2] }, b { y[0], y[1], y[2] }, d { z[0], z[1], z[2] };
    f (a, b, d);
    x.assign (a.begin (), a.end ());
    y.assign (b.begin (), b.end ());
    z.assign (d.begin (), d.end ());
  }
  else
    f (x, y, z);
}

static void
d04 (Case &c)
{
  const int way = (int) c.below (3);
  const int n = way == 2 && c.chance (60) ? (int) c.range (1, 9) : 3;
  const V X = vec (c, n), Y = vec (c, n), Z = vec (c, n);
  const double al = number (c), be = number (c);
  for (int round = 0; round < 6; ++round) {
    const int op = (int) c.below (18);
    V x = X, y = Y, z = Z, wx = X, wy = Y, wz = Z;
    double got = 0;
    ld want = 0, scale = 0;
    bool vector = true;
    c.label (vp::str ("op-", op));
    switch (op) {
    case 0:
      each (n, way, x, y, z, [&] (auto &&a, auto &&, auto &&) { got = t8_norm (a); });
      want = norm (X), scale = norm (X);
      break;
    case 1:
      each (n, way, x, y, z, [&] (auto &&a, auto &&b, auto &&) { got = t8_dot (a, b); });
      want = dot (X, Y), scale = absdot (X, Y);
      break;
    case 2: {
      each (n, way, x, y, z, [&] (auto &&a, auto &&b, auto &&) { got = t8_dist (a, b); });
      V d (n);
      for (int i = 0; i < n; ++i)
        d[i] = X[i] - Y[i];
      want = norm (d), scale = norm (d);
      break;
    }
    case 3:
      each (n, way, x, y, z, [&] (auto &&a, auto &&b, auto &&) { t8_copy (a, b); });
      wy = X;
      break;
    case 4:
      each (n, way, x, y, z, [&] (auto &&a, auto &&, auto &&) { t8_ax (a, al); });
      for (auto &v : wx)
        v *= al;
      break;
    case 5:
      each (n, way, x, y, z, [&] (auto &&a, auto &&b, auto &&) { t8_axy (a, b, al); });
      for (int i = 0; i < n; ++i)
        wy[i] = al * X[i];
      break;
    case 6:
      each (n, way, x, y, z, [&] (auto &&a, auto &&b, auto &&) { t8_axb (a, b, al, be); });
      for (int i = 0; i < n; ++i)
        wy[i] = al * X[i] + be;
      break;
    case 7:
      each (n, way, x, y, z, [&] (auto &&a, auto &&b, auto &&) { t8_axpy (a, b, al); });
      for (int i = 0; i < n; ++i)
        wy[i] = Y[i] + al * X[i];
      break;
    case 8:
      each (n, way, x, y, z, [&] (auto &&a, auto &&b, auto &&d) { t8_axpyz (a, b, d, al); });
      for (int i = 0; i < n; ++i)
        wz[i] = Y[i] + al * X[i];
      break;
    case 9:
      each (n, way, x, y, z, [&] (auto &&a, auto &&b, auto &&d) { t8_diff (a, b, d); });
      for (int i = 0; i < n; ++i)
        wz[i] = X[i] - Y[i];
      break;
    case 10: {
      if (n < 3)
        continue;
      each (n, way, x, y, z, [&] (auto &&a, auto &&b, auto &&d) { t8_cross_3D (a, b, d); });
      const V w = cross (X, Y);
      std::copy (w.begin (), w.end (), wz.begin ());
      break;
    }
    case 11:
      if (n < 2)
        continue;
      each (n, way, x, y, z, [&] (auto &&a, auto &&b, auto &&) { got = t8_cross_2D (a, b); });
      want = (ld) X[0] * Y[1] - (ld) X[1] * Y[0], scale = fabsl ((ld) X[0] * Y[1]) + fabsl ((ld) X[1] * Y[0]);
      break;
    case 12: {
      /* equality up to a tolerance: entries differ by known amounts */
      const double tol = std::fabs (al);
      V q = X;
      bool eq = true;
      for (int i = 0; i < n; ++i) {
        if (c.chance (40))
          q[i] = X[i] + (c.chance (50) ? 1 : -1) * tol * (c.chance (80) ? c.real (0, 0.99) : c.real (1.01, 3));
        eq = eq && !(std::fabs (X[i] - q[i]) > tol);
      }
      y = q;
      int r = 0;
      each (n, way, x, y, z, [&] (auto &&a, auto &&b, auto &&) { r = t8_eq (a, b, tol); });
      VP_REQUIRE ((r != 0) == eq, "equality of vectors up to ", tol);
      c.nontrivial (tol > 0);
      wy = q;
      break;
    }
    case 13:
    case 14: {
      if (!(norm (X) > 1e-140L))
        continue;
      const double len = op == 13 ? 1 : std::fabs (al);
      each (n, way, x, y, z, [&] (auto &&a, auto &&, auto &&) {
        if (op == 13)
          t8_normalize (a);
        else
          t8_rescale (a, len);
      });
      for (int i = 0; i < n; ++i)
        VP_REQUIRE (near (x[i], (ld) X[i] / norm (X) * len, len * 10), "entry ", i, " of the vector of length ", len, " is ", x[i]);
      wx = x;
      break;
    }
    case 15:
      if (n != 3)
        continue;
      else {
        V nrm (3, 0);
        if (way == 0)
          t8_normal_of_tri (x.data (), y.data (), z.data (), nrm.data ());
        else if (way == 1) {
          t8_3D_vec a { x[0], x[1], x[2] }, b { y[0], y[1], y[2] }, d { z[0], z[1], z[2] }, m;
          t8_normal_of_tri (a, b, d, m);
          nrm.assign (m.begin (), m.end ());
        }
        else
          t8_normal_of_tri (x, y, z, nrm);
        V a (3), b (3);
        for (int i = 0; i < 3; ++i)
          a[i] = Y[i] - X[i], b[i] = Z[i] - X[i];
        const V w = cross (a, b);
        for (int i = 0; i < 3; ++i)
          VP_REQUIRE (near (nrm[i], w[i], norm (a) * norm (b)), "entry ", i, " of the normal of a triangle");
      }
      break;
    case 16: {
      if (n != 3)
        continue;
      V v = X;
      if (c.chance (50)) {
        /* special directions */
        const double s = std::ldexp (1.0, (int) c.range (-40, 40));
        for (auto &q : v)
          q = s * ((double) c.range (-1, 1) + (c.chance (10) ? c.real (-1, 1) * 1e-9 : 0));
      }
      if (!(norm (v) > 1e-70L && norm (v) < 1e70L))
        continue;
      V a = v;
      each (3, way, a, y, z, [&] (auto &&p, auto &&q, auto &&r) { t8_orthogonal_tripod (p, q, r); });
      VP_REQUIRE (a == v, "the tripod changed its first vector");
      const ld l = norm (v);
      VP_REQUIRE (std::isfinite (y[0] + y[1] + y[2] + z[0] + z[1] + z[2]), "tripod of (", v[0], ",", v[1], ",", v[2], ") is not finite");
      VP_REQUIRE (fabsl (norm (y) - 1) < 1e-9L && fabsl (norm (z) - 1) < 1e-9L, "tripod of (", v[0], ",", v[1], ",", v[2], ") is not normalized");
      VP_REQUIRE (fabsl (dot (v, y)) < 1e-9L * l && fabsl (dot (v, z)) < 1e-9L * l && fabsl (dot (y, z)) < 1e-9L, "tripod of (", v[0], ",", v[1], ",",
                  v[2], ") is not orthogonal");
      V w = cross (v, y);
      VP_REQUIRE (dot (w, z) > 0, "tripod of (", v[0], ",", v[1], ",", v[2], ") is left-handed");
      c.nontrivial ();
      wy = y, wz = z;
      break;
    }
    case 17:
      if (n != 3)
        continue;
      t8_swap (x.data (), y.data ());
      wx = Y, wy = X;
      break;
    }
    if (op <= 2 || op == 11) {
      VP_REQUIRE (near (got, want, scale + 1e-300L), "operation ", op, " of ", n, "-dimensional vectors gives ", got, " not ", (double) want);
      c.nontrivial (want != 0);
    }
    for (int i = 0; i < n; ++i) {
      const ld s = 4 * (fabsl ((ld) al * X[i]) + fabsl ((ld) Y[i]) + fabsl ((ld) X[i]) + fabsl ((ld) be));
      const ld sz = op == 10 ? 4 * norm (X) * norm (Y) : s;
      VP_REQUIRE (near (x[i], wx[i], s), "first vector after operation ", op);
      VP_REQUIRE (near (y[i], wy[i], s + fabsl (wy[i])), "second vector after operation ", op, ", entry ", i, " is ", y[i], " not ", wy[i]);
      VP_REQUIRE (near (z[i], wz[i], sz + fabsl (wz[i])), "third vector after operation ", op, ", entry ", i, " is ", z[i], " not ", wz[i]);
    }
    if (op >= 3 && op <= 10)
      c.nontrivial ();
  }
  /* four points: coplanar by construction, or clearly not */
  {
    V p[4];
    V o (3), a (3), b (3);
    for (auto *v : { &o, &a, &b })
      for (auto &q : *v)
        q = (double) c.range (-8, 8);
    const V nn = cross (a, b);
    const bool flat = c.chance (50);
    const double off = (double) (c.chance (50) ? 1 : -1) * (double) c.range (1, 4);
    for (int k = 0; k < 4; ++k) {
      p[k] = o;
      const double s = (double) c.range (-3, 3), t = (double) c.range (-3, 3);
      for (int i = 0; i < 3; ++i)
        p[k][i] += s * a[i] + t * b[i];
    }
    const int out = (int) c.below (4);
    if (!flat)
      for (int i = 0; i < 3; ++i)
        p[out][i] += off * nn[i];
    /* exact volume of the tetrahedron in integers */
    long d[3][3];
    for (int k = 1; k < 4; ++k)
      for (int i = 0; i < 3; ++i)
        d[k - 1][i] = (long) (p[k][i] - p[0][i]);
    const long long det = (long long) d[0][0] * (d[1][1] * d[2][2] - d[1][2] * d[2][1]) - (long long) d[0][1] * (d[1][0] * d[2][2] - d[1][2] * d[2][0])
                          + (long long) d[0][2] * (d[1][0] * d[2][1] - d[1][1] * d[2][0]);
    t8_3D_vec q[4];
    for (int k = 0; k < 4; ++k)
      for (int i = 0; i < 3; ++i)
        q[k][i] = p[k][i];
    const bool cop = t8_four_points_coplanar (q[0], q[1], q[2], q[3], 1e-6);
    VP_REQUIRE (cop == (det == 0), "four points are ", cop ? "" : "not ", "reported as coplanar, spanned volume ", det);
    c.label (det == 0 ? "coplanar" : "not-coplanar");
  }
  /* rotations and products */
  {
    const double t[2] = { number (c), c.real (-7, 7) };
    const int ax[2] = { (int) c.below (3), (int) c.below (3) };
    double m[2][3][3], p[3][3], e[3][3];
    for (int k = 0; k < 2; ++k) {
      const double ang = std::fabs (t[k]) < 1e6 ? t[k] : 1.5;
      (ax[k] == 0 ? t8_mat_init_xrot : ax[k] == 1 ? t8_mat_init_yrot : t8_mat_init_zrot) (m[k], ang);
      const int u = (ax[k] + 1) % 3, v = (ax[k] + 2) % 3;
      for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j) {
          const double w = i == ax[k] || j == ax[k] ? (i == j) : i == j ? std::cos (ang) : i == v ? std::sin (ang) : -std::sin (ang);
          VP_REQUIRE (std::fabs (m[k][i][j] - w) < 1e-14, "rotation about axis ", ax[k], " by ", ang, " entry ", i, j, " (", u, ")");
        }
    }
    /* a general matrix times a general matrix and vector */
    for (auto &r : m[1])
      for (auto &q : r)
        if (c.chance (50))
          q = number (c);
    t8_mat_mult_mat (m[0], m[1], p);
    const V a = vec (c, 3);
    double av[3] = { a[0], a[1], a[2] }, bv[3];
    t8_mat_mult_vec (m[1], av, bv);
    for (int i = 0; i < 3; ++i) {
      ld s = 0, sa = 0;
      for (int k = 0; k < 3; ++k)
        s += (ld) m[1][i][k] * av[k], sa += fabsl ((ld) m[1][i][k] * av[k]);
      VP_REQUIRE (near (bv[i], s, sa + 1e-300L), "matrix times vector, entry ", i);
      for (int j = 0; j < 3; ++j) {
        s = 0, sa = 0;
        for (int k = 0; k < 3; ++k)
          s += (ld) m[0][i][k] * m[1][k][j], sa += fabsl ((ld) m[0][i][k] * m[1][k][j]);
        VP_REQUIRE (near (p[i][j], s, sa + 1e-300L), "matrix times matrix, entry ", i, j);
      }
    }
    (void) e;
  }
  /* splitting a sorted sequence into categories */
  {
    const int cats = (int) c.range (1, 12), len = (int) c.range (1, c.chance (10) ? 400 : 30);
    const int width = (int) c.range (1, 5), only = c.chance (25) ? (int) c.below (cats) : -1;
    std::vector<int> v;
    for (int i = 0; i < len; ++i)
      v.push_back ((only >= 0 ? only : (int) c.below (cats)) * width + (int) c.below (width));
    std::sort (v.begin (), v.end ());
    std::vector<size_t> off (cats + 1, 99999);
    std::vector<size_t> want;
    for (int k = 0; k <= cats; ++k)
      want.push_back (k == cats ? v.size () : std::lower_bound (v.begin (), v.end (), k * width) - v.begin ());
    if (c.chance (50)) {
      std::function<size_t (const int, int)> f = [] (const int x, int w) { return (size_t) (x / w); };
      vector_split (v.begin (), v.end (), off, std::move (f), width);
    }
    else {
      std::function<size_t (const int)> f = [&] (const int x) { return (size_t) (x / width); };
      vector_split (v.begin (), v.end (), off, std::move (f));
    }
    for (int k = 0; k <= cats; ++k)
      VP_REQUIRE (off[k] == want[k], "offset ", k, " of ", cats, " categories of ", len, " entries is ", off[k], " not ", want[k]);
  }
}
static vp::Register r04 ({ "D04", d04, 2000000, 30000000,
  "random vectors of dimension 1 to 9 (special directions and scales included) through the C and the C++ helpers, four points, rotations, products, sorted sequences with categories; non-trivial = a non-zero result was compared",
  { "vector lengths between 2^-270 and 2^270", "categories numbered in a type that can count the sequence" }, 20 });
