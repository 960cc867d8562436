/* Independent reference model of the element classes and their refinement in reference space (exact arithmetic). */
#pragma once
#include "lib.hxx"
#include <algorithm>
#include <array>
#include <cmath>
#include <cstdint>
#include <string>
#include <vector>

namespace ref
{
typedef __int128 I;

enum { VERTEX, LINE, QUAD, TRI, HEX, TET, PRISM, PYRA, NCLASS };

inline const char *NAME[NCLASS] = { "vertex", "line", "quad", "tri", "hex", "tet", "prism", "pyra" };
inline const int DIM[NCLASS] = { 0, 1, 2, 2, 3, 3, 3, 3 };
inline const int NV[NCLASS] = { 1, 2, 4, 3, 8, 4, 6, 5 };
inline const int NF[NCLASS] = { 0, 2, 4, 3, 6, 4, 5, 5 };

/* vertices of the reference cells */
inline const int RV[NCLASS][8][3] = {
  { { 0, 0, 0 } },
  { { 0, 0, 0 }, { 1, 0, 0 } },
  { { 0, 0, 0 }, { 1, 0, 0 }, { 0, 1, 0 }, { 1, 1, 0 } },
  { { 0, 0, 0 }, { 1, 0, 0 }, { 1, 1, 0 } },
  { { 0, 0, 0 }, { 1, 0, 0 }, { 0, 1, 0 }, { 1, 1, 0 }, { 0, 0, 1 }, { 1, 0, 1 }, { 0, 1, 1 }, { 1, 1, 1 } },
  { { 0, 0, 0 }, { 1, 0, 0 }, { 1, 0, 1 }, { 1, 1, 1 } },
  { { 0, 0, 0 }, { 1, 0, 0 }, { 1, 1, 0 }, { 0, 0, 1 }, { 1, 0, 1 }, { 1, 1, 1 } },
  { { 0, 0, 0 }, { 1, 0, 0 }, { 0, 1, 0 }, { 1, 1, 0 }, { 1, 1, 1 } },
};

/* vertices of each face */
inline const std::vector<std::vector<std::vector<int>>> FV = {
  {},
  { { 0 }, { 1 } },
  { { 0, 2 }, { 1, 3 }, { 0, 1 }, { 2, 3 } },
  { { 1, 2 }, { 0, 2 }, { 0, 1 } },
  { { 0, 2, 4, 6 }, { 1, 3, 5, 7 }, { 0, 1, 4, 5 }, { 2, 3, 6, 7 }, { 0, 1, 2, 3 }, { 4, 5, 6, 7 } },
  { { 1, 2, 3 }, { 0, 2, 3 }, { 0, 1, 3 }, { 0, 1, 2 } },
  { { 1, 2, 4, 5 }, { 0, 2, 3, 5 }, { 0, 1, 3, 4 }, { 0, 1, 2 }, { 3, 4, 5 } },
  { { 0, 2, 4 }, { 1, 3, 4 }, { 0, 1, 4 }, { 2, 3, 4 }, { 0, 1, 2, 3 } },
};

/* shape of each face */
inline int
face_shape (int s, int f)
{
  const size_t n = FV[s][f].size ();
  return n == 1 ? VERTEX : n == 2 ? LINE : n == 3 ? TRI : QUAD;
}

/* splitting into simplices */
inline const std::vector<std::vector<std::vector<int>>> SIMP = {
  { { 0 } },
  { { 0, 1 } },
  { { 0, 1, 3 }, { 0, 3, 2 } },
  { { 0, 1, 2 } },
  { { 0, 1, 3, 7 }, { 0, 1, 5, 7 }, { 0, 2, 3, 7 }, { 0, 2, 6, 7 }, { 0, 4, 5, 7 }, { 0, 4, 6, 7 } },
  { { 0, 1, 2, 3 } },
  { { 0, 1, 2, 5 }, { 0, 1, 4, 5 }, { 0, 3, 4, 5 } },
  { { 0, 1, 3, 4 }, { 0, 2, 3, 4 } },
};

struct P
{
  I x[3];
  bool
  operator== (const P &o) const
  {
    return x[0] == o.x[0] && x[1] == o.x[1] && x[2] == o.x[2];
  }
  bool
  operator< (const P &o) const
  {
    for (int i = 0; i < 3; ++i)
      if (x[i] != o.x[i])
        return x[i] < o.x[i];
    return false;
  }
};

inline P
sub (const P &a, const P &b)
{
  return { { a.x[0] - b.x[0], a.x[1] - b.x[1], a.x[2] - b.x[2] } };
}
inline P
cross (const P &a, const P &b)
{
  return { { a.x[1] * b.x[2] - a.x[2] * b.x[1], a.x[2] * b.x[0] - a.x[0] * b.x[2], a.x[0] * b.x[1] - a.x[1] * b.x[0] } };
}
inline I
dot (const P &a, const P &b)
{
  return a.x[0] * b.x[0] + a.x[1] * b.x[1] + a.x[2] * b.x[2];
}
inline I
iabs (I a)
{
  return a < 0 ? -a : a;
}

/* a convex cell: shape and its vertices */
struct Cell
{
  int shape = 0;
  std::vector<P> v;
  /* vertices of the faces where they differ from the reference cell (pyramids pointing down number their faces
   * differently) */
  std::vector<std::vector<int>> own;
  const std::vector<int> &
  fv (int f) const
  {
    return own.empty () ? FV[shape][f] : own[f];
  }
};

/* dim! times the volume */
inline I
volume (const Cell &c)
{
  I s = 0;
  for (auto &t : SIMP[c.shape]) {
    if (DIM[c.shape] == 0)
      s += 1;
    else if (DIM[c.shape] == 1)
      s += iabs (c.v[t[1]].x[0] - c.v[t[0]].x[0]);
    else if (DIM[c.shape] == 2) {
      P n = cross (sub (c.v[t[1]], c.v[t[0]]), sub (c.v[t[2]], c.v[t[0]]));
      s += iabs (n.x[2]);
    }
    else
      s += iabs (dot (cross (sub (c.v[t[1]], c.v[t[0]]), sub (c.v[t[2]], c.v[t[0]])), sub (c.v[t[3]], c.v[t[0]])));
  }
  return s;
}

/* inward side function of face f evaluated at p/w (scaled): >0 strictly inside, 0 on the face plane, <0 outside */
inline int
side (const Cell &c, int f, const P &p, I w = 1)
{
  const auto &fv = c.fv (f);
  /* an inner reference point: NV * centroid */
  P m = { { 0, 0, 0 } };
  const I n = (I) c.v.size ();
  for (auto &q : c.v)
    for (int i = 0; i < 3; ++i)
      m.x[i] += q.x[i];
  auto eval = [&] (const P &q, I s) -> I {
    /* (q/s - a) . n  times s */
    P a = c.v[fv[0]];
    P d = { { q.x[0] - s * a.x[0], q.x[1] - s * a.x[1], q.x[2] - s * a.x[2] } };
    if (DIM[c.shape] == 1)
      return d.x[0];
    if (DIM[c.shape] == 2) {
      P e = sub (c.v[fv[1]], a);
      return e.x[0] * d.x[1] - e.x[1] * d.x[0];
    }
    P nn = cross (sub (c.v[fv[1]], a), sub (c.v[fv[2]], a));
    return dot (nn, d);
  };
  const I in = eval (m, n);
  const I val = eval (p, w);
  if (val == 0)
    return 0;
  return (val > 0) == (in > 0) ? 1 : -1;
}

/* 1 strictly inside, 0 on the boundary, -1 outside */
inline int
inside (const Cell &c, const P &p, I w = 1)
{
  if (DIM[c.shape] == 0)
    return 1;
  int r = 1;
  for (int f = 0; f < NF[c.shape]; ++f) {
    const int s = side (c, f, p, w);
    if (s < 0)
      return -1;
    if (s == 0)
      r = 0;
  }
  return r;
}

inline std::vector<P>
face_points (const Cell &c, int f)
{
  std::vector<P> r;
  for (int i : c.fv (f))
    r.push_back (c.v[i]);
  return r;
}

inline std::vector<P>
sorted (std::vector<P> v)
{
  std::sort (v.begin (), v.end ());
  return v;
}

/* number of leaves of shape after k uniform refinements */
inline uint64_t
leaves (int shape, int k)
{
  if (k < 0)
    return 0;
  if (shape == PYRA) {
    I a = 1, b = 1;
    for (int i = 0; i < k; ++i) {
      a *= 8;
      b *= 6;
    }
    return (uint64_t) (2 * a - b);
  }
  return DIM[shape] == 0 ? 1 : (uint64_t) 1 << (DIM[shape] * k);
}
inline int
nchildren (int shape)
{
  return shape == PYRA ? 10 : 1 << DIM[shape];
}

/* the cyclic order of the vertices of a face shape */
inline const std::vector<int> &
cycle (int shape)
{
  static const std::vector<int> l = { 0, 1 }, t = { 0, 1, 2 }, q = { 0, 1, 3, 2 };
  return shape == LINE ? l : shape == TRI ? t : q;
}

/* 0 if the normal (v1-v0)x(v2-v0) of the face points inwards, 1 otherwise; 0 for dim < 3 */
inline int
face_orientation (int s, int f)
{
  if (DIM[s] < 3)
    return 0;
  auto pt = [&] (int i) { return P { { RV[s][i][0], RV[s][i][1], RV[s][i][2] } }; };
  const auto &fv = FV[s][f];
  P n = cross (sub (pt (fv[1]), pt (fv[0])), sub (pt (fv[2]), pt (fv[0])));
  P m = { { 0, 0, 0 } };
  for (int i = 0; i < NV[s]; ++i) {
    P d = sub (pt (i), pt (fv[0]));
    for (int k = 0; k < 3; ++k)
      m.x[k] += d.x[k];
  }
  return dot (n, m) > 0 ? 0 : 1;
}

/* order of the classes used to define the smaller face */
inline int
class_rank (int s)
{
  static const int r[NCLASS] = { 0, 0, 1, 0, 1, 0, 2, 3 };
  return r[s];
}

/* The vertex correspondence of two glued faces: result[i] = vertex (0..n-1) of the larger face glued to vertex i of
 * the smaller face. orientation = larger face vertex glued to vertex 0 of the smaller face; reversed = the two faces
 * are glued against the cyclic order of their vertices. */
inline std::vector<int>
glue (int fshape, int orientation, bool reversed)
{
  if (fshape == VERTEX)
    return { 0 };
  const auto &c = cycle (fshape);
  const int n = (int) c.size ();
  if (n == 2)
    return orientation == 0 ? std::vector<int> { 0, 1 } : std::vector<int> { 1, 0 };
  int at = 0;
  for (int i = 0; i < n; ++i)
    if (c[i] == orientation)
      at = i;
  std::vector<int> r (n);
  for (int i = 0; i < n; ++i)
    r[c[i]] = c[((reversed ? at - i : at + i) % n + n) % n];
  return r;
}
} // namespace ref
