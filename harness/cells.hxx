/* Random conforming cell complexes: boxes of a lattice split into cells of all classes, with arbitrary numbering of the
 * vertices of each cell, placed in space by a grid and an affine map. */
#pragma once
#include "cm.hxx"
#include <map>
#include <set>

namespace cells
{
using namespace ref;
using fm::Nb;
using geo::V;
using geo::operator-;

struct C
{
  int cls;
  std::vector<int> n; /* nodes, in the order of the tree's vertices */
};
struct Complex
{
  int dim = 3;
  std::vector<std::array<int, 3>> lat; /* doubled lattice coordinates of the nodes */
  std::vector<V> x;                    /* positions of the nodes */
  std::vector<C> c;
};

inline const std::vector<std::vector<int>> &
symmetries (int cls, bool reflect)
{
  static std::map<std::pair<int, bool>, std::vector<std::vector<int>>> cache;
  auto &r = cache[{ cls, reflect }];
  if (!r.empty ())
    return r;
  std::set<std::set<int>> faces;
  for (auto &f : FV[cls])
    faces.insert (std::set<int> (f.begin (), f.end ()));
  std::vector<int> p (NV[cls]);
  for (int i = 0; i < NV[cls]; ++i)
    p[i] = i;
  auto sign = [&] (const std::vector<int> &q) {
    if (DIM[cls] < 2)
      return q[0] == 0 ? 1 : -1;
    auto v = [&] (int i) { return V { (double) RV[cls][q[i]][0], (double) RV[cls][q[i]][1], (double) RV[cls][q[i]][2] }; };
    const int a = 1, b = 2, d = cls == HEX || cls == PYRA ? 4 : 3;
    const V u = geo::cross (v (a) - v (0), v (b) - v (0));
    const double s = DIM[cls] == 2 ? u[2] : geo::dot (u, v (d) - v (0));
    return s > 0 ? 1 : -1;
  };
  const int s0 = sign (p);
  do {
    bool ok = true;
    for (auto &f : FV[cls]) {
      std::set<int> g;
      for (int v : f)
        g.insert (p[v]);
      ok = ok && faces.count (g);
    }
    if (ok && (reflect || sign (p) == s0))
      r.push_back (p);
  } while (std::next_permutation (p.begin (), p.end ()));
  return r;
}

inline double
det3 (const V &a, const V &b, const V &c)
{
  return geo::dot (geo::cross (a, b), c);
}

/* orientation of a cell of dimension 3 relative to its reference cell */
inline bool
positive (const Complex &K, const C &c)
{
  auto v = [&] (int i) {
    auto &l = K.lat[c.n[i]];
    return V { (double) l[0], (double) l[1], (double) l[2] };
  };
  auto w = [&] (int i) { return V { (double) RV[c.cls][i][0], (double) RV[c.cls][i][1], (double) RV[c.cls][i][2] }; };
  const int d = c.cls == HEX || c.cls == PYRA ? 4 : 3;
  return (det3 (v (1) - v (0), v (2) - v (0), v (d) - v (0)) > 0) == (det3 (w (1) - w (0), w (2) - w (0), w (d) - w (0)) > 0);
}

struct Opts
{
  int max_boxes = 12;
  int dim = -1;
  bool reflect2 = true; /* cells of dimension 2 may be mirrored */
};

inline Complex
gen (vp::Case &c, const Opts &o = {})
{
  Complex K;
  K.dim = o.dim > 0 ? o.dim : (int) std::vector<int> { 3, 2, 1 }[c.weighted ({ 5, 3, 1 })];
  int n[3] = { 1, 1, 1 };
  for (int a = 0, boxes = 1; a < K.dim; ++a) {
    n[a] = (int) c.range (1, std::min (4, std::max (1, o.max_boxes / boxes)));
    boxes *= n[a];
  }
  std::map<std::array<int, 3>, int> ids;
  auto node = [&] (int x, int y, int z) {
    auto r = ids.insert ({ { x, y, z }, (int) ids.size () });
    if (r.second)
      K.lat.push_back ({ x, y, z });
    return r.first->second;
  };
  const int prefer = (int) c.below (6); /* a preferred split, so that there are many conforming faces */
  for (int k = 0; k < n[2]; ++k)
    for (int j = 0; j < n[1]; ++j)
      for (int i = 0; i < n[0]; ++i) {
        if (c.chance (12))
          continue;
        auto at = [&] (int x, int y, int z) { return node (2 * i + 2 * x, 2 * j + 2 * y, 2 * k + 2 * z); };
        if (K.dim == 1) {
          K.c.push_back ({ LINE, { at (0, 0, 0), at (1, 0, 0) } });
          continue;
        }
        if (K.dim == 2) {
          const int kind = c.chance (65) ? prefer % 3 : (int) c.below (3);
          if (kind == 0)
            K.c.push_back ({ QUAD, { at (0, 0, 0), at (1, 0, 0), at (0, 1, 0), at (1, 1, 0) } });
          else if (kind == 1) {
            K.c.push_back ({ TRI, { at (0, 0, 0), at (1, 0, 0), at (1, 1, 0) } });
            K.c.push_back ({ TRI, { at (0, 0, 0), at (1, 1, 0), at (0, 1, 0) } });
          }
          else {
            K.c.push_back ({ TRI, { at (0, 0, 0), at (1, 0, 0), at (0, 1, 0) } });
            K.c.push_back ({ TRI, { at (1, 0, 0), at (1, 1, 0), at (0, 1, 0) } });
          }
          continue;
        }
        const int kind = c.chance (65) ? prefer : (int) c.below (6);
        auto at3 = [&] (const std::array<int, 3> &v) { return at (v[0], v[1], v[2]); };
        if (kind == 0) {
          C h { HEX, {} };
          for (int v = 0; v < 8; ++v)
            h.n.push_back (at (v & 1, (v >> 1) & 1, v >> 2));
          K.c.push_back (h);
        }
        else if (kind == 1) {
          std::vector<int> p = { 0, 1, 2 };
          do {
            std::array<int, 3> v = { 0, 0, 0 };
            C t { TET, { at3 (v) } };
            for (int a : p) {
              v[a] = 1;
              t.n.push_back (at3 (v));
            }
            K.c.push_back (t);
          } while (std::next_permutation (p.begin (), p.end ()));
        }
        else if (kind <= 4) {
          const int a = kind - 2, b = (a + 1) % 3, d = (a + 2) % 3;
          for (int s = 0; s < 2; ++s) {
            C t { PRISM, {} };
            for (int h = 0; h < 2; ++h)
              for (int q = 0; q < 3; ++q) {
                std::array<int, 3> v = { 0, 0, 0 };
                v[a] = h;
                v[b] = q == 2 ? 1 : q == 1 ? !s : 0;
                v[d] = q == 2 ? 1 : q == 1 ? s : 0;
                t.n.push_back (at3 (v));
              }
            K.c.push_back (t);
          }
        }
        else {
          for (int f = 0; f < 6; ++f) {
            C t { PYRA, {} };
            for (int v : FV[HEX][f])
              t.n.push_back (at (v & 1, (v >> 1) & 1, v >> 2));
            t.n.push_back (node (2 * i + 1, 2 * j + 1, 2 * k + 1));
            K.c.push_back (t);
          }
        }
      }
  if (K.c.empty ()) {
    K.c.push_back (K.dim == 1   ? C { LINE, { node (0, 0, 0), node (2, 0, 0) } }
                   : K.dim == 2 ? C { TRI, { node (0, 0, 0), node (2, 0, 0), node (2, 2, 0) } }
                                : C { TET, { node (0, 0, 0), node (2, 0, 0), node (2, 2, 0), node (2, 2, 2) } });
  }
  /* numbering within the cells, right handed in three dimensions */
  for (auto &cell : K.c) {
    if (K.dim == 3 && !positive (K, cell))
      for (auto &s : symmetries (cell.cls, true)) {
        C t = cell;
        for (size_t i = 0; i < s.size (); ++i)
          t.n[i] = cell.n[s[i]];
        if (positive (K, t)) {
          cell = t;
          break;
        }
      }
    auto &sy = symmetries (cell.cls, K.dim == 2 && o.reflect2);
    const auto s = sy[c.below (sy.size ())];
    C t = cell;
    for (size_t i = 0; i < s.size (); ++i)
      t.n[i] = cell.n[s[i]];
    cell = t;
  }
  /* order of the cells */
  if (c.chance (70))
    for (size_t i = 1; i < K.c.size (); ++i)
      std::swap (K.c[i], K.c[c.below (i + 1)]);
  /* positions */
  std::vector<double> grid[3];
  const int style = (int) c.weighted ({ 3, 3, 3, 2 });
  for (int a = 0; a < 3; ++a) {
    double p = style == 1 ? c.real (-2, 2) : style == 3 ? (double) c.range (-3, 3) * 1024. : 0;
    const double uni = style == 3 ? std::ldexp (1., (int) c.range (-4, 10)) : 1;
    for (int i = 0; i <= 2 * n[a]; ++i) {
      grid[a].push_back (p);
      p += style == 1 ? c.real (0.05, 1.5) : uni / 2;
    }
  }
  double M[3][3] = { { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 } }, off[3] = { 0, 0, 0 };
  if (style == 2 || c.chance (25)) {
    /* rotate the axes, then shear; the determinant stays positive */
    const int r = (int) c.below (3);
    double R[3][3] = {};
    for (int a = 0; a < 3; ++a)
      R[(a + r) % 3][a] = 1;
    memcpy (M, R, sizeof M);
    if (c.chance (60)) {
      const double s = c.real (-1, 1), t = c.real (-1, 1);
      for (int a = 0; a < 3; ++a) {
        M[1][a] += s * M[0][a];
        M[2][a] += t * M[1][a];
      }
    }
    for (int a = 0; a < 3; ++a)
      off[a] = c.chance (50) ? c.real (-3, 3) : (double) c.range (-2, 2);
  }
  for (auto &l : K.lat) {
    V v;
    for (int a = 0; a < 3; ++a) {
      v[a] = off[a];
      for (int b = 0; b < 3; ++b)
        v[a] += M[a][b] * grid[b][l[b]];
    }
    K.x.push_back (v);
  }
  std::string d = vp::str (K.dim, "D ", n[0], "x", n[1], "x", n[2], " style ", style, ":");
  for (auto &t : K.c) {
    d += vp::str (" ", NAME[t.cls], "(");
    for (size_t i = 0; i < t.n.size (); ++i)
      d += vp::str (i ? "," : "", t.n[i]);
    d += ")";
  }
  c.describe (d);
  return K;
}

/* face connections: faces with the same nodes */
inline std::vector<std::vector<Nb>>
neighbours (const Complex &K, size_t *count = nullptr)
{
  std::map<std::vector<int>, std::vector<std::pair<int, int>>> F;
  std::vector<std::vector<Nb>> r;
  for (size_t t = 0; t < K.c.size (); ++t) {
    r.push_back (std::vector<Nb> (NF[K.c[t].cls]));
    for (int f = 0; f < NF[K.c[t].cls]; ++f) {
      std::vector<int> k;
      for (int v : FV[K.c[t].cls][f])
        k.push_back (K.c[t].n[v]);
      std::sort (k.begin (), k.end ());
      F[k].push_back ({ (int) t, f });
    }
  }
  size_t joins = 0;
  for (auto &e : F)
    if (e.second.size () == 2) {
      ++joins;
      auto a = e.second[0], b = e.second[1];
      if (!fm::is_smaller (K.c[a.first].cls, a.second, K.c[b.first].cls, b.second))
        std::swap (a, b);
      const int corner = K.c[a.first].n[FV[K.c[a.first].cls][a.second][0]];
      int o = -1;
      auto &fb = FV[K.c[b.first].cls][b.second];
      for (size_t i = 0; i < fb.size (); ++i)
        if (K.c[b.first].n[fb[i]] == corner)
          o = (int) i;
      r[a.first][a.second] = { b.first, b.second, o };
      r[b.first][b.second] = { a.first, a.second, o };
    }
  if (count)
    *count = joins;
  return r;
}
} // namespace cells
