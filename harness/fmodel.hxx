/* Shared pieces of the forest harnesses: generated coarse meshes, an explicit model of a forest as a list of leaf
 * paths, and a geometric oracle for face adjacency which does not use the library's neighbour functions. */
#pragma once
#include "sch.hxx"
#include <functional>
#include <map>
#include <set>
#include <t8_cmesh/t8_cmesh.h>
#include <t8_cmesh/t8_cmesh.hxx>
#include <t8_cmesh/t8_cmesh_examples.h>
#include <t8_cmesh/t8_cmesh_internal/t8_cmesh_types.h>
#include <t8_forest/t8_forest_general.h>
#include <t8_forest/t8_forest_ghost.h>
#include <t8_forest/t8_forest_geometrical.h>
#include <t8_forest/t8_forest_iterate.h>
#include <t8_forest/t8_forest_partition.h>
#include <t8_forest/t8_forest_balance.h>
#include <t8_forest/t8_forest_types.h>
#include <t8_forest/t8_forest_private.h>
#include <t8_geometry/t8_geometry_implementations/t8_geometry_linear.hxx>
#include <t8_types/t8_vec.hxx>
#include <unordered_map>

namespace fm
{
using namespace ref;

/* ------------------------------------------------------------------ hashing */
inline uint64_t
mix (uint64_t x)
{
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}

/* ------------------------------------------------------------------ leaves */
struct Leaf
{
  int tree = 0;
  std::string path; /* child ids */
  bool
  operator== (const Leaf &o) const
  {
    return tree == o.tree && path == o.path;
  }
  bool
  operator!= (const Leaf &o) const
  {
    return !(*this == o);
  }
  bool
  operator< (const Leaf &o) const
  {
    return tree != o.tree ? tree < o.tree : path < o.path;
  }
  int
  level () const
  {
    return (int) path.size ();
  }
  bool
  ancestor_of (const Leaf &o) const
  {
    return tree == o.tree && o.path.size () >= path.size () && o.path.compare (0, path.size (), path) == 0;
  }
  Leaf
  parent () const
  {
    return Leaf { tree, path.substr (0, path.size () - 1) };
  }
  Leaf
  child (int i) const
  {
    return Leaf { tree, path + (char) i };
  }
  int
  id () const
  {
    return path.empty () ? 0 : path.back ();
  }
};
inline uint64_t
hash (uint64_t seed, const Leaf &l)
{
  uint64_t h = mix (seed ^ mix ((uint64_t) l.tree + 17));
  for (char ch : l.path)
    h = mix (h ^ (uint64_t) (ch + 1));
  return h;
}
inline std::string
show (const Leaf &l)
{
  std::string s = "t" + std::to_string (l.tree) + ":";
  for (char ch : l.path)
    s += (char) ('0' + ch);
  return s;
}
inline std::ostream &
operator<< (std::ostream &o, const Leaf &l)
{
  return o << show (l);
}

inline Leaf
leaf_of (const t8_scheme *s, t8_eclass_t ec, int tree, const t8_element_t *e)
{
  Leaf l;
  l.tree = tree;
  const int lev = s->element_get_level (ec, e);
  for (int i = 1; i <= lev; ++i)
    l.path += (char) s->element_get_ancestor_id (ec, e, i);
  return l;
}
inline void
elem_of (const t8_scheme *s, t8_eclass_t ec, const Leaf &l, t8_element_t *e)
{
  s->set_to_root (ec, e);
  for (char ch : l.path)
    s->element_get_child (ec, e, ch, e);
}

/* ------------------------------------------------------------------ meshes */
struct Join
{
  int t0, f0, t1, f1, o;
};
struct Nb
{
  int tree = -1, face = -1, o = 0;
};
struct Mesh
{
  std::string name;
  int dim = 2;
  int named = -1;  /* index into the table of generators, -1: explicit */
  int64_t par = 0; /* its parameter */
  std::vector<int> cls;
  std::vector<Join> joins;
  std::vector<std::vector<Nb>> nb;
  /* shape of elements by path, memoised */
  void
  finish ()
  {
    nb.clear ();
    for (int c : cls)
      nb.push_back (std::vector<Nb> (NF[c]));
    for (auto &j : joins) {
      nb[j.t0][j.f0] = { j.t1, j.f1, j.o };
      nb[j.t1][j.f1] = { j.t0, j.f0, j.o };
    }
  }
};

struct Named
{
  const char *name;
  int dim;
  int level; /* highest useful uniform level */
  std::function<t8_cmesh_t (int64_t, sc_MPI_Comm)> make;
};
inline t8_cmesh_t
hyper (t8_eclass_t ec, int per, sc_MPI_Comm comm)
{
  t8_cmesh_t c;
  t8_cmesh_init (&c);
  t8_cmesh_new_hypercube (&c, ec, comm, 0, 0, per);
  return c;
}
inline const std::vector<Named> &
named_meshes ()
{
#define GEN(CALL) \
  [] (int64_t p, sc_MPI_Comm comm) { \
    (void) p; \
    t8_cmesh_t c; \
    t8_cmesh_init (&c); \
    CALL; \
    return c; \
  }
  static const std::vector<Named> t = {
    { "hypercube-tri", 2, 4, [] (int64_t p, sc_MPI_Comm m) { return hyper (T8_ECLASS_TRIANGLE, p & 1, m); } },
    { "hypercube-quad", 2, 4, [] (int64_t p, sc_MPI_Comm m) { return hyper (T8_ECLASS_QUAD, p & 1, m); } },
    { "hypercube-line", 1, 6, [] (int64_t p, sc_MPI_Comm m) { return hyper (T8_ECLASS_LINE, p & 1, m); } },
    { "hypercube-hex", 3, 2, [] (int64_t p, sc_MPI_Comm m) { return hyper (T8_ECLASS_HEX, p & 1, m); } },
    { "hypercube-tet", 3, 2, [] (int64_t p, sc_MPI_Comm m) { return hyper (T8_ECLASS_TET, p & 1, m); } },
    { "hypercube-prism", 3, 2, [] (int64_t p, sc_MPI_Comm m) { return hyper (T8_ECLASS_PRISM, p & 1, m); } },
    { "hypercube-pyramid", 3, 2, [] (int64_t, sc_MPI_Comm m) { return hyper (T8_ECLASS_PYRAMID, 0, m); } },
    { "hypercube-hybrid", 3, 1, GEN (t8_cmesh_new_hypercube_hybrid (c, comm, (int) (p & 1))) },
    { "full-hybrid", 3, 1, GEN (t8_cmesh_new_full_hybrid (c, comm)) },
    { "periodic-tri", 2, 4, GEN (t8_cmesh_new_periodic_tri (c, comm)) },
    { "periodic-hybrid", 2, 3, GEN (t8_cmesh_new_periodic_hybrid (c, comm)) },
    { "prism-cake", 3, 1, GEN (t8_cmesh_new_prism_cake (c, comm, 3 + (int) (p % 4))) },
    { "prism-cake-funny", 3, 1, GEN (t8_cmesh_new_prism_cake_funny_oriented (c, comm)) },
    { "prism-geometry", 3, 1, GEN (t8_cmesh_new_prism_geometry (c, comm)) },
    { "tet-orientation", 3, 2, GEN (t8_cmesh_new_tet_orientation_test (c, comm)) },
    { "hybrid-gate", 3, 1, GEN (t8_cmesh_new_hybrid_gate (c, comm)) },
    { "pyramid-cake", 3, 1, GEN (t8_cmesh_new_pyramid_cake (c, comm, 3 + (int) (p % 4))) },
    { "long-brick-pyramid", 3, 1, GEN (t8_cmesh_new_long_brick_pyramid (c, comm, 1 + (int) (p % 4))) },
    { "row-of-cubes", 3, 1, GEN (t8_cmesh_new_row_of_cubes (c, 1 + (p % 6), 0, 0, comm, 0)) },
    { "line-zigzag", 1, 5, GEN (t8_cmesh_new_line_zigzag (c, comm)) },
    { "disk", 2, 2, GEN (t8_cmesh_new_quadrangulated_disk (c, 1.0, comm)) },
    { "sphere-octa", 2, 2, GEN (t8_cmesh_new_triangulated_spherical_surface_octahedron (c, 1.0, comm)) },
    { "bigmesh-tri", 2, 3, GEN (t8_cmesh_new_bigmesh (c, T8_ECLASS_TRIANGLE, 1 + (int) (p % 9), comm)) },
  };
#undef GEN
  return t;
}

/* whether the pair is "smaller first" */
inline bool
is_smaller (int ca, int fa, int cb, int fb)
{
  const int cmp = class_rank (ca) - class_rank (cb);
  return cmp < 0 ? true : cmp > 0 ? false : fa <= fb;
}
/* vertex i of face fa of class ca is glued to vertex result[i] of face fb of class cb */
inline std::vector<int>
glue_map (int ca, int fa, int cb, int fb, int o)
{
  const auto g = glue (face_shape (ca, fa), o, face_orientation (ca, fa) == face_orientation (cb, fb));
  if (is_smaller (ca, fa, cb, fb))
    return g;
  std::vector<int> m (g.size ());
  for (size_t i = 0; i < g.size (); ++i)
    m[g[i]] = (int) i;
  return m;
}

struct MeshOpts
{
  int max_trees = 6;
  bool named = true;
  bool vertex = false;
  int dim = -1;
  bool geometry = false; /* only meshes with a geometry */
};

inline Mesh
gen_mesh (vp::Case &c, const MeshOpts &o = {})
{
  Mesh m;
  if (o.named && c.chance (35)) {
    const auto &t = named_meshes ();
    do {
      m.named = (int) c.below (t.size ());
    } while ((o.dim >= 0 && t[m.named].dim != o.dim) || (o.geometry && !strncmp (t[m.named].name, "bigmesh", 7)));
    m.par = (int64_t) c.below (12);
    m.name = t[m.named].name;
    m.dim = t[m.named].dim;
    c.label ("mesh-named");
    c.describe (vp::str ("mesh=", m.name, "(", m.par, ")"));
    return m;
  }
  m.dim = o.dim >= 0 ? o.dim : 1 + (int) c.weighted ({ 1, 5, 6 });
  static const std::vector<std::vector<int>> classes = { { VERTEX }, { LINE }, { QUAD, TRI }, { HEX, TET, PRISM, PYRA } };
  int n = (int) c.range (1, o.max_trees);
  if (o.max_trees > 1 && c.chance (1)) {
    n = (int) c.range (o.max_trees, 6 * o.max_trees);
    c.label ("many-trees");
  }
  const bool mono = c.chance (30);
  int cl = 0;
  for (int i = 0; i < n; ++i) {
    if (i == 0 || !mono)
      cl = c.pick (classes[m.dim]);
    m.cls.push_back (cl);
  }
  m.finish ();
  /* random joins */
  std::vector<std::pair<int, int>> open;
  for (int t = 0; t < n; ++t)
    for (int f = 0; f < NF[m.cls[t]]; ++f)
      open.push_back ({ t, f });
  const int attempts = (int) c.range (0, 3 * n + 2);
  for (int k = 0; k < attempts && open.size () > 1; ++k) {
    const size_t a = c.below (open.size ());
    const size_t b = c.below (open.size ());
    auto [ta, fa] = open[a];
    auto [tb, fb] = open[b];
    if (a == b || face_shape (m.cls[ta], fa) != face_shape (m.cls[tb], fb))
      continue;
    const int no = (int) FV[m.cls[ta]][fa].size ();
    m.joins.push_back ({ ta, fa, tb, fb, m.dim == 1 ? 0 : (int) c.below (no) });
    open.erase (open.begin () + std::max (a, b));
    open.erase (open.begin () + std::min (a, b));
  }
  m.finish ();
  m.name = "random";
  c.label ("mesh-random");
  std::string d = "mesh=";
  for (int t : m.cls)
    d += std::string (NAME[t]) + ",";
  for (auto &j : m.joins)
    d += vp::str (" ", j.t0, ".", j.f0, "-", j.t1, ".", j.f1, "/", j.o);
  c.describe (d);
  return m;
}

/* build the replicated coarse mesh on this rank; fills in the description of named meshes */
inline t8_cmesh_t
build_cmesh (Mesh &m, sc_MPI_Comm comm)
{
  t8_cmesh_t cm;
  if (m.named < 0) {
    t8_cmesh_init (&cm);
    t8_cmesh_register_geometry<t8_geometry_linear> (cm);
    for (size_t t = 0; t < m.cls.size (); ++t) {
      t8_cmesh_set_tree_class (cm, (t8_gloidx_t) t, (t8_eclass_t) m.cls[t]);
      double v[24];
      for (int i = 0; i < NV[m.cls[t]]; ++i)
        for (int k = 0; k < 3; ++k)
          v[3 * i + k] = RV[m.cls[t]][i][k] + (k == 0 ? 3.0 * (double) t : 0.0);
      t8_cmesh_set_tree_vertices (cm, (t8_gloidx_t) t, v, NV[m.cls[t]]);
    }
    for (auto &j : m.joins)
      t8_cmesh_set_join (cm, j.t0, j.t1, j.f0, j.f1, j.o);
    t8_cmesh_commit (cm, comm);
    return cm;
  }
  cm = named_meshes ()[m.named].make (m.par, comm);
  if (vmpi::rank () == 0) {
    m.cls.clear ();
    m.joins.clear ();
    const t8_locidx_t n = t8_cmesh_get_num_local_trees (cm);
    for (t8_locidx_t t = 0; t < n; ++t)
      m.cls.push_back (t8_cmesh_get_tree_class (cm, t));
    for (t8_locidx_t t = 0; t < n; ++t)
      for (int f = 0; f < NF[m.cls[t]]; ++f) {
        int df = -1, o = 0;
        const t8_locidx_t u = t8_cmesh_get_face_neighbor (cm, t, f, &df, &o);
        if (u >= 0 && !(u == t && df == f) && std::make_pair ((int) u, df) > std::make_pair ((int) t, f))
          m.joins.push_back ({ t, f, u, df, o });
      }
    m.finish ();
  }
  vmpi::sync ();
  return cm;
}

/* number of leaves of a uniform refinement */
inline uint64_t
uniform_count (const std::vector<int> &cls, int level)
{
  uint64_t n = 0;
  for (int c : cls)
    n += leaves (c, level);
  return n;
}

/* ------------------------------------------------------------------ scheme facts by path */
struct Sch
{
  const t8_scheme *s;
  const Mesh *m;
  std::map<std::pair<int, std::string>, int> memo;
  t8_eclass_t
  ec (int tree) const
  {
    return (t8_eclass_t) m->cls[tree];
  }
  int
  num_children (const Leaf &l)
  {
    const int c = m->cls[l.tree];
    if (c != PYRA)
      return nchildren (c);
    auto it = memo.find ({ c, l.path });
    if (it != memo.end ())
      return it->second;
    Elem e (s, ec (l.tree));
    elem_of (s, ec (l.tree), l, e);
    return memo[{ c, l.path }] = nchildren ((int) s->element_get_shape (ec (l.tree), e));
  }
  std::vector<Leaf>
  children (const Leaf &l)
  {
    std::vector<Leaf> r;
    const int n = num_children (l);
    for (int i = 0; i < n; ++i)
      r.push_back (l.child (i));
    return r;
  }
  Cell
  cell (const Leaf &l) const
  {
    Elem e (s, ec (l.tree));
    elem_of (s, ec (l.tree), l, e);
    return cell_of (s, ec (l.tree), e);
  }
};

inline std::vector<Leaf>
uniform_leaves (Sch &S, int level)
{
  std::vector<Leaf> out;
  for (size_t t = 0; t < S.m->cls.size (); ++t) {
    std::vector<Leaf> cur = { Leaf { (int) t, "" } };
    for (int l = 0; l < level; ++l) {
      std::vector<Leaf> nx;
      for (auto &x : cur)
        for (auto &y : S.children (x))
          nx.push_back (y);
      cur.swap (nx);
    }
    out.insert (out.end (), cur.begin (), cur.end ());
  }
  return out;
}

/* ------------------------------------------------------------------ face adjacency oracle */
struct Key
{
  uint64_t a, b;
  bool
  operator== (const Key &o) const
  {
    return a == o.a && b == o.b;
  }
};
struct KeyHash
{
  size_t
  operator() (const Key &k) const
  {
    return k.a;
  }
};

inline P
face_vertex (int c, int f, int i)
{
  const int v = FV[c][f][i];
  return { { RV[c][v][0], RV[c][v][1], RV[c][v][2] } };
}

/* map a point on face f of tree t (scaled) to the glued face of the neighbour tree */
inline P
glue_point (const Mesh &m, int t, int f, const P &p)
{
  const Nb &n = m.nb[t][f];
  const int ca = m.cls[t], cb = m.cls[n.tree];
  const auto g = glue_map (ca, f, cb, n.face, n.o);
  const I one = (I) 1 << REFBITS;
  P v0 = face_vertex (ca, f, 0), w0 = face_vertex (cb, n.face, g[0]);
  if (DIM[ca] == 1)
    return { { w0.x[0] * one, w0.x[1] * one, w0.x[2] * one } };
  P e1 = sub (face_vertex (ca, f, 1), v0), g1 = sub (face_vertex (cb, n.face, g[1]), w0);
  P d = { { p.x[0] - v0.x[0] * one, p.x[1] - v0.x[1] * one, p.x[2] - v0.x[2] * one } };
  P r;
  if (DIM[ca] == 2) {
    const I den = dot (e1, e1), num = dot (d, e1);
    for (int i = 0; i < 3; ++i)
      r.x[i] = w0.x[i] * one + num * g1.x[i] / den;
    return r;
  }
  P e2 = sub (face_vertex (ca, f, 2), v0), g2 = sub (face_vertex (cb, n.face, g[2]), w0);
  const I a11 = dot (e1, e1), a12 = dot (e1, e2), a22 = dot (e2, e2), b1 = dot (d, e1), b2 = dot (d, e2);
  const I det = a11 * a22 - a12 * a12;
  const I A = b1 * a22 - b2 * a12, B = a11 * b2 - a12 * b1;
  for (int i = 0; i < 3; ++i)
    r.x[i] = w0.x[i] * one + (A * g1.x[i] + B * g2.x[i]) / det;
  return r;
}

inline Key
raw_key (int tree, std::vector<P> pts)
{
  std::sort (pts.begin (), pts.end ());
  uint64_t a = mix ((uint64_t) tree + 1), b = mix ((uint64_t) tree + 77);
  for (auto &p : pts)
    for (int i = 0; i < 3; ++i) {
      a = mix (a ^ (uint64_t) (int64_t) p.x[i]);
      b = mix (b + 3 * (uint64_t) (int64_t) p.x[i] + 11);
    }
  return { a, b };
}

/* the face of the tree which contains these points or -1 */
inline int
on_tree_face (int cls, const std::vector<P> &pts)
{
  const Cell r = root_cell (cls);
  for (int g = 0; g < NF[cls]; ++g) {
    bool all = true;
    for (auto &p : pts)
      if (side (r, g, p) != 0) {
        all = false;
        break;
      }
    if (all)
      return g;
  }
  return -1;
}

struct FaceRef
{
  int leaf; /* index in the list */
  int face;
  bool
  operator< (const FaceRef &o) const
  {
    return leaf != o.leaf ? leaf < o.leaf : face < o.face;
  }
  bool
  operator== (const FaceRef &o) const
  {
    return leaf == o.leaf && face == o.face;
  }
};

class Adjacency {
 public:
  const Mesh &m;
  Sch &S;
  std::vector<Leaf> L;
  /* neighbours of leaf i across face f: empty at the boundary of the domain */
  std::vector<std::vector<std::vector<FaceRef>>> nb;
  std::vector<std::vector<char>> boundary;
  std::vector<Cell> cells;

  Adjacency (Sch &s, const std::vector<Leaf> &leaves): m (*s.m), S (s), L (leaves)
  {
    std::unordered_map<Key, std::vector<FaceRef>, KeyHash> own, anc;
    struct Up
    {
      std::vector<Key> keys; /* of the own face and the ancestor faces containing it */
    };
    std::vector<std::vector<Up>> up (L.size ());
    std::map<Leaf, Cell> cache;
    auto cell = [&] (const Leaf &l) -> const Cell & {
      auto it = cache.find (l);
      if (it == cache.end ())
        it = cache.emplace (l, S.cell (l)).first;
      return it->second;
    };
    nb.resize (L.size ());
    boundary.resize (L.size ());
    for (size_t i = 0; i < L.size (); ++i) {
      cells.push_back (S.cell (L[i]));
      const Cell &k = cells.back ();
      const int nf = NF[k.shape];
      up[i].resize (nf);
      nb[i].resize (nf);
      boundary[i].resize (nf, 0);
      for (int f = 0; f < nf; ++f) {
        const auto pts = face_points (k, f);
        const Key key = canon (L[i].tree, pts, &boundary[i][f]);
        up[i][f].keys.push_back (key);
        own[key].push_back ({ (int) i, f });
        Leaf a = L[i];
        while (!a.path.empty () && m.dim > 1) { /* the faces of lines are points, those of the ancestors are the same */
          a = a.parent ();
          const Cell &ka = cell (a);
          int g = -1;
          for (int h = 0; h < NF[ka.shape] && g < 0; ++h) {
            bool all = true;
            for (auto &p : pts)
              if (side (ka, h, p) != 0) {
                all = false;
                break;
              }
            if (all)
              g = h;
          }
          if (g < 0)
            break;
          char dummy;
          const Key ak = canon (a.tree, face_points (ka, g), &dummy);
          up[i][f].keys.push_back (ak);
          anc[ak].push_back ({ (int) i, f });
        }
      }
    }
    for (size_t i = 0; i < L.size (); ++i)
      for (size_t f = 0; f < nb[i].size (); ++f) {
        auto &out = nb[i][f];
        for (size_t d = 0; d < up[i][f].keys.size (); ++d) {
          auto it = own.find (up[i][f].keys[d]);
          if (it != own.end ())
            for (auto &r : it->second)
              if (!(r.leaf == (int) i && r.face == (int) f))
                out.push_back (r);
        }
        auto it = anc.find (up[i][f].keys[0]);
        if (it != anc.end ())
          out.insert (out.end (), it->second.begin (), it->second.end ());
        std::sort (out.begin (), out.end ());
      }
  }

 private:
  Key
  canon (int tree, const std::vector<P> &pts, char *bound)
  {
    *bound = 0;
    Key k = raw_key (tree, pts);
    const int f = on_tree_face (m.cls[tree], pts);
    if (f < 0)
      return k;
    if (m.nb[tree][f].tree < 0) {
      *bound = 1;
      return k;
    }
    std::vector<P> q;
    for (auto &p : pts)
      q.push_back (glue_point (m, tree, f, p));
    Key k2 = raw_key (m.nb[tree][f].tree, q);
    return k2.a < k.a ? k2 : k;
  }
};

/* Smallest refinement of the leaves which is 2:1 balanced across faces. */
inline std::vector<Leaf>
balance_model (Sch &S, std::vector<Leaf> L, size_t stop_beyond = SIZE_MAX)
{
  while (true) {
    Adjacency A (S, L);
    std::vector<Leaf> out;
    bool changed = false;
    for (size_t i = 0; i < L.size (); ++i) {
      bool refine = false;
      for (auto &f : A.nb[i])
        for (auto &r : f)
          if (L[r.leaf].level () > L[i].level () + 1)
            refine = true;
      if (refine) {
        changed = true;
        for (auto &x : S.children (L[i]))
          out.push_back (x);
      }
      else
        out.push_back (L[i]);
    }
    if (!changed)
      return L;
    L.swap (out);
    if (L.size () > stop_beyond)
      return L;
  }
}

/* ------------------------------------------------------------------ adaptation model */
struct AdaptSpec
{
  uint64_t seed = 0;
  int p_refine = 30, p_coarsen = 30, p_remove = 0; /* percent */
  int maxlev = 6;
  bool recursive = false;
  Leaf target;         /* refine along this path as well */
  bool use_target = false;
  bool beyond = false; /* ask for refinement of elements at the maximum level too */
  std::set<Leaf> protect;
};
inline bool
want_refine (const AdaptSpec &a, const Leaf &l)
{
  if (a.use_target && l.ancestor_of (a.target) && (l.level () < a.target.level () || a.beyond))
    return true;
  return l.level () < a.maxlev && (int) (hash (a.seed, l) % 100) < a.p_refine;
}
inline bool
want_coarsen (const AdaptSpec &a, const Leaf &parent)
{
  return (int) (hash (a.seed ^ 0xc0a25eULL, parent) % 100) < a.p_coarsen;
}
inline bool
want_remove (const AdaptSpec &a, const Leaf &l)
{
  if (a.p_remove == 0 || (int) (hash (a.seed ^ 0x4e40feULL, l) % 100) >= a.p_remove)
    return false;
  /* a protected leaf and its descendants stay */
  auto it = a.protect.upper_bound (l);
  if (it != a.protect.begin ()) {
    --it;
    if (it->ancestor_of (l))
      return false;
  }
  return true;
}
/* what the callback answers */
inline int
answer (const AdaptSpec &a, bool is_family, const Leaf &first)
{
  if (is_family && want_coarsen (a, first.parent ()))
    return -1;
  if (want_remove (a, first))
    return -2;
  return want_refine (a, first) ? 1 : 0;
}

/* adaptation of the leaves of one process within a complete forest */
inline std::vector<Leaf>
adapt_model (Sch &S, const AdaptSpec &a, const std::vector<Leaf> &in, int forest_maxlevel)
{
  std::vector<Leaf> out;
  size_t barrier = 0;
  size_t i = 0;
  std::function<void (const Leaf &)> refine_rec = [&] (const Leaf &l) {
    const int r = answer (a, false, l);
    if (r == 1 && l.level () < forest_maxlevel) {
      for (auto &x : S.children (l))
        refine_rec (x);
    }
    else if (r != -2)
      out.push_back (l);
  };
  auto coarsen_rec = [&] () {
    while (true) {
      const Leaf last = out.back ();
      if (last.path.empty ())
        return;
      const Leaf par = last.parent ();
      const int n = S.num_children (par);
      if (n < 2 || last.id () != n - 1 || out.size () < barrier + n)
        return;
      for (int k = 0; k < n; ++k)
        if (out[out.size () - n + k] != par.child (k))
          return;
      if (!want_coarsen (a, par))
        return;
      out.resize (out.size () - n);
      out.push_back (par);
    }
  };
  while (i < in.size ()) {
    const Leaf &l = in[i];
    if (i == 0 || in[i - 1].tree != l.tree)
      barrier = out.size ();
    bool fam = false;
    int n = 1;
    if (!l.path.empty () && l.id () == 0) {
      const Leaf par = l.parent ();
      n = S.num_children (par);
      fam = i + n <= in.size ();
      for (int k = 0; fam && k < n; ++k)
        fam = in[i + k] == par.child (k);
    }
    int r = answer (a, fam, l);
    if (r == 1 && l.level () >= forest_maxlevel)
      r = 0;
    if (r == 1) {
      if (a.recursive) {
        for (auto &x : S.children (l))
          refine_rec (x);
        barrier = out.size ();
      }
      else
        for (auto &x : S.children (l))
          out.push_back (x);
      ++i;
    }
    else if (r == -1) {
      out.push_back (l.parent ());
      i += n;
      if (a.recursive)
        coarsen_rec ();
    }
    else if (r == 0) {
      out.push_back (l);
      ++i;
      if (a.recursive)
        coarsen_rec ();
    }
    else
      ++i;
  }
  return out;
}

/* record of the calls of the adaptation callback on one process */
struct AdaptCall
{
  bool is_family;
  std::vector<Leaf> elems;
  int ret;
};
struct AdaptCtx
{
  const AdaptSpec *spec;
  int first_tree = 0;
  std::vector<AdaptCall> log;
  bool function_seen = true; /* the callback always found the user function of the forest it builds */
};
inline void
user_function ()
{
}
inline int
adapt_cb (t8_forest_t forest, t8_forest_t from, t8_locidx_t which_tree, const t8_eclass_t ec, t8_locidx_t lelem,
          const t8_scheme_c *s, const int is_family, const int num, t8_element_t *elements[])
{
  AdaptCtx *x = (AdaptCtx *) t8_forest_get_user_data (forest);
  if (t8_forest_get_user_function (forest) != (t8_generic_function_pointer) user_function)
    x->function_seen = false;
  const int g = (int) t8_forest_global_tree_id (from, which_tree);
  AdaptCall call;
  call.is_family = is_family;
  for (int i = 0; i < num; ++i)
    call.elems.push_back (leaf_of (s, ec, g, elements[i]));
  call.ret = answer (*x->spec, is_family, call.elems[0]);
  x->log.push_back (call);
  return call.ret;
}
} // namespace fm
