/* Geometries: tree maps, curved example geometries, geometry of elements. */
#include "fmodel.hxx"
#include "geo.hxx"
#include <memory>
#include <t8_cmesh/t8_cmesh_geometry.hxx>
#include <t8_geometry/t8_geometry.h>
#include <t8_geometry/t8_geometry_base.hxx>
#include <t8_geometry/t8_geometry_handler.hxx>
#include <t8_geometry/t8_geometry_helpers.h>
#include <t8_geometry/t8_geometry_implementations/t8_geometry_analytic.hxx>
#include <t8_geometry/t8_geometry_implementations/t8_geometry_lagrange.hxx>
#include <t8_geometry/t8_geometry_implementations/t8_geometry_linear_axis_aligned.hxx>
#include <t8_geometry/t8_geometry_implementations/t8_geometry_zero.hxx>

using namespace fm;
using geo::V;
using geo::operator+;
using geo::operator-;
using geo::operator*;
using vp::Case;

static const std::vector<std::vector<int>> CLASSES = { { VERTEX }, { LINE }, { QUAD, TRI }, { HEX, TET, PRISM, PYRA } };

/* ------------------------------------------------------------------ random trees */
/* an invertible matrix with positive determinant, possibly a signed permutation */
static std::array<V, 3>
gen_matrix (Case &c, bool simple)
{
  std::array<V, 3> m = { V { 1, 0, 0 }, V { 0, 1, 0 }, V { 0, 0, 1 } };
  const int kind = simple ? 0 : (int) c.weighted ({ 2, 3, 5 });
  const int rot = (int) c.below (3);
  if (kind <= 1 || simple) {
    /* columns permuted cyclically (determinant stays positive), scaled */
    std::array<V, 3> n;
    for (int k = 0; k < 3; ++k) {
      n[(k + rot) % 3] = m[k];
    }
    for (auto &x : n)
      x = (0.25 + (double) c.below (16) / 8) * x;
    if (kind == 1 && c.chance (50)) {
      n[0] = -1.0 * n[0];
      n[1] = -1.0 * n[1];
    }
    m = n;
  }
  else {
    /* product of elementary matrices with bounded condition */
    for (int k = 0; k < 3; ++k)
      m[k] = (0.5 + c.real (0, 1.5)) * m[k];
    for (int q = (int) c.range (1, 4); q > 0; --q) {
      const int a = (int) c.below (3), b = (a + 1 + (int) c.below (2)) % 3;
      const double t = c.real (-0.8, 0.8);
      m[a] = m[a] + t * m[b];
    }
  }
  return m;
}
static V
apply (const std::array<V, 3> &m, const V &o, const V &x)
{
  return o + (x[0] * m[0] + (x[1] * m[1] + x[2] * m[2]));
}
/* a point of the reference cell; kinds: interior, boundary, vertex */
static V
gen_ref (Case &c, int s)
{
  const auto kind = c.weighted ({ 6, 2, 2, 1 });
  std::vector<double> w (NV[s]);
  double sum = 0;
  V x = { 0, 0, 0 };
  if (kind == 1) {
    const int v = (int) c.below (NV[s]);
    return { (double) RV[s][v][0], (double) RV[s][v][1], (double) RV[s][v][2] };
  }
  for (auto &q : w) {
    q = kind == 2 ? (double) c.below (3) / 2 : c.real (0.05, 1);
    sum += q;
  }
  if (sum == 0)
    w[0] = sum = 1;
  if (kind == 3) {
    /* dyadic points of a regular grid */
    for (int k = 0; k < 3; ++k)
      x[k] = k < DIM[s] ? (double) c.below (9) / 8 : 0;
    bool in = true;
    for (double q : geo::weights (s, x))
      in &= q >= 0 && q <= 1;
    if (in && !(s == PYRA && x[2] == 1 && (x[0] != 1 || x[1] != 1)))
      return x;
    x = { 0, 0, 0 };
  }
  for (int v = 0; v < NV[s]; ++v)
    for (int k = 0; k < 3; ++k)
      x[k] += w[v] / sum * RV[s][v][k];
  if (s == PYRA && x[2] > 0.999999 && x[2] < 1)
    x = { 1, 1, 1 };
  return x;
}

enum { LINEAR, AXIS, ZERO, ANALYTIC, LAGRANGE };
static const char *GNAME[] = { "linear", "axis-aligned", "zero", "analytic", "lagrange" };

/* nodes of the Lagrange elements of degree 2 behind the vertices */
static const std::vector<std::vector<V>> NODES2 = {
  {},
  { { .5, 0, 0 } },
  { { 0, .5, 0 }, { 1, .5, 0 }, { .5, 0, 0 }, { .5, 1, 0 }, { .5, .5, 0 } },
  { { 1, .5, 0 }, { .5, .5, 0 }, { .5, 0, 0 } },
  { { 0, 1, .5 }, { 0, 0, .5 }, { 0, .5, 0 }, { 0, .5, 1 }, { 0, .5, .5 }, { 1, 0, .5 }, { 1, 1, .5 }, { 1, .5, 0 }, { 1, .5, 1 }, { 1, .5, .5 },
    { .5, 0, 0 }, { .5, 0, 1 }, { .5, 0, .5 }, { .5, 1, 0 }, { .5, 1, 1 }, { .5, 1, .5 }, { .5, .5, 0 }, { .5, .5, 1 }, { .5, .5, .5 } },
};
static double
lag1 (double node, double x)
{
  return node == 0 ? (1 - x) * (1 - 2 * x) : node == 1 ? x * (2 * x - 1) : 4 * x * (1 - x);
}
static V
lagrange_map (int s, int degree, const std::vector<V> &v, const V &x)
{
  if (degree == 1)
    return geo::linear_map (s, v, x);
  std::vector<V> nodes;
  for (int i = 0; i < NV[s]; ++i)
    nodes.push_back ({ (double) RV[s][i][0], (double) RV[s][i][1], (double) RV[s][i][2] });
  nodes.insert (nodes.end (), NODES2[s].begin (), NODES2[s].end ());
  V r = { 0, 0, 0 };
  if (s == TRI) {
    const double l[3] = { 1 - x[0], x[0] - x[1], x[1] };
    for (int i = 0; i < 3; ++i)
      r = r + (l[i] * (2 * l[i] - 1)) * v[i];
    r = r + (4 * l[1] * l[2]) * v[3];
    r = r + (4 * l[0] * l[2]) * v[4];
    r = r + (4 * l[0] * l[1]) * v[5];
    return r;
  }
  for (size_t i = 0; i < nodes.size (); ++i) {
    double p = 1;
    for (int k = 0; k < DIM[s]; ++k)
      p *= lag1 (nodes[i][k], x[k]);
    r = r + p * v[i];
  }
  return r;
}

struct Tree
{
  int cls = 0, geom = LINEAR, degree = 1;
  bool affine = true, mirrored = false;
  std::array<V, 3> A;
  V o;
  std::vector<V> v;      /* vertices (or nodes) */
  std::vector<double> raw;
  V
  map (const V &x) const
  {
    switch (geom) {
    case LINEAR:
      return geo::linear_map (cls, v, x);
    case AXIS: {
      /* v: the corners of the box in z-order */
      return geo::linear_map (cls, v, x);
    }
    case ZERO:
      return { 0, 0, 0 };
    case ANALYTIC:
      return { 1 + 2 * x[0] + x[1] * x[1] + v[0][0], x[2] - 3 * x[1] + x[0] * x[0], x[0] * x[1] - x[2] };
    default:
      return lagrange_map (cls, degree, v, x);
    }
  }
};
static void
analytic_fn (t8_cmesh_t, t8_gloidx_t, const double *ref, const size_t n, double *out, const void *tree_data, const void *user)
{
  const int dim = *(const int *) user;
  for (size_t i = 0; i < n; ++i) {
    double x[3] = { 0, 0, 0 };
    for (int k = 0; k < dim; ++k)
      x[k] = ref[i * dim + k];
    const double o = tree_data ? ((const double *) tree_data)[0] : 0;
    out[3 * i] = 1 + 2 * x[0] + x[1] * x[1] + o;
    out[3 * i + 1] = x[2] - 3 * x[1] + x[0] * x[0];
    out[3 * i + 2] = x[0] * x[1] - x[2];
  }
}
static void
analytic_jac (t8_cmesh_t, t8_gloidx_t, const double *ref, const size_t n, double *out, const void *, const void *user)
{
  const int dim = *(const int *) user;
  for (size_t i = 0; i < n; ++i) {
    double x[3] = { 0, 0, 0 };
    for (int k = 0; k < dim; ++k)
      x[k] = ref[i * dim + k];
    const double J[3][3] = { { 2, 2 * x[0], x[1] }, { 2 * x[1], -3, x[0] }, { 0, 1, -1 } };
    for (int k = 0; k < dim; ++k)
      for (int j = 0; j < 3; ++j)
        out[(i * dim + k) * 3 + j] = J[k][j];
  }
}

static Tree
gen_tree (Case &c, int cls, int geom, bool affine_only, bool allow_mirror = false)
{
  Tree t;
  t.cls = cls;
  t.geom = geom;
  t.A = gen_matrix (c, geom == AXIS);
  if (allow_mirror && geom == LINEAR && DIM[cls] == 3 && c.chance (25)) {
    t.mirrored = true;
    t.A[0] = -1.0 * t.A[0];
  }
  for (int k = 0; k < 3; ++k)
    t.o[k] = c.chance (30) ? 0 : c.real (-3, 3);
  if (geom == AXIS) {
    /* axis directions in increasing order so that the first point is the smallest */
    static const std::vector<std::vector<int>> dirs[4]
      = { {}, { { 0 }, { 1 }, { 2 } }, { { 0, 1 }, { 0, 2 }, { 1, 2 } }, { { 0, 1, 2 } } };
    const auto d = c.pick (dirs[DIM[cls]]);
    V len;
    for (int k = 0; k < 3; ++k)
      len[k] = 0.25 + c.real (0, 2);
    for (int k = 0; k < 3; ++k)
      t.A[k] = V { 0, 0, 0 };
    for (size_t k = 0; k < d.size (); ++k)
      t.A[k][d[k]] = len[d[k]];
  }
  std::vector<V> ref;
  for (int i = 0; i < NV[cls]; ++i)
    ref.push_back ({ (double) RV[cls][i][0], (double) RV[cls][i][1], (double) RV[cls][i][2] });
  if (geom == LAGRANGE) {
    t.degree = c.chance (60) ? 2 : 1;
    if (t.degree == 2)
      ref.insert (ref.end (), NODES2[cls].begin (), NODES2[cls].end ());
  }
  t.affine = geom == AXIS || affine_only || cls == LINE || cls == TRI || cls == TET || c.chance (30);
  if (geom == LAGRANGE)
    t.affine = c.chance (20);
  for (auto &r : ref) {
    V p = apply (t.A, t.o, r);
    if (!t.affine)
      for (auto &q : p)
        q += c.real (-0.06, 0.06);
    t.v.push_back (p);
  }
  const std::vector<V> &store = t.v;
  if (geom == AXIS) {
    t.raw.insert (t.raw.end (), store.front ().begin (), store.front ().end ());
    t.raw.insert (t.raw.end (), store.back ().begin (), store.back ().end ());
  }
  else if (geom != ZERO)
    for (auto &p : store)
      t.raw.insert (t.raw.end (), p.begin (), p.end ());
  return t;
}

static double
close (const V &a, const V &b, double scale = 1)
{
  return geo::norm (a - b) / (scale + geo::norm (b));
}

struct GeomMesh
{
  std::vector<Tree> trees;
  int dim = 2;
  std::vector<int> kinds; /* registered geometries */
  bool extra_reg = false;
};
static t8_cmesh_t
build (const GeomMesh &g)
{
  t8_cmesh_t cm;
  t8_cmesh_init (&cm);
  std::map<int, t8_geometry_c *> reg;
  for (int k : g.kinds) {
    t8_geometry_c *p = nullptr;
    switch (k) {
    case LINEAR:
      p = t8_cmesh_register_geometry<t8_geometry_linear> (cm);
      break;
    case AXIS:
      p = t8_cmesh_register_geometry<t8_geometry_linear_axis_aligned> (cm);
      break;
    case ZERO:
      p = t8_cmesh_register_geometry<t8_geometry_zero> (cm);
      break;
    case LAGRANGE:
      p = t8_cmesh_register_geometry<t8_geometry_lagrange> (cm);
      break;
    default:
      p = t8_cmesh_register_geometry<t8_geometry_analytic> (cm, std::string ("harness_analytic"), analytic_fn, analytic_jac,
                                                            t8_geom_load_tree_data_vertices, nullptr, nullptr, (const void *) &g.dim);
    }
    reg[k] = p;
  }
  if (g.extra_reg)
    t8_cmesh_register_geometry<t8_geometry_linear> (cm);
  for (size_t i = 0; i < g.trees.size (); ++i) {
    const Tree &t = g.trees[i];
    if (t.mirrored)
      t8_cmesh_disable_negative_volume_check (cm);
    t8_cmesh_set_tree_class (cm, (t8_gloidx_t) i, (t8_eclass_t) t.cls);
    if (!t.raw.empty ())
      t8_cmesh_set_tree_vertices (cm, (t8_gloidx_t) i, (double *) t.raw.data (), (int) t.raw.size () / 3);
    if (t.geom == LAGRANGE)
      t8_cmesh_set_attribute (cm, (t8_gloidx_t) i, t8_get_package_id (), T8_CMESH_LAGRANGE_POLY_DEGREE_KEY, (void *) &t.degree, sizeof (int), 0);
    if (g.kinds.size () + g.extra_reg > 1)
      t8_cmesh_set_tree_geometry (cm, (t8_gloidx_t) i, reg[t.geom]);
  }
  t8_cmesh_commit (cm, sc_MPI_COMM_WORLD);
  return cm;
}

static std::vector<double>
pack (const std::vector<V> &x, int dim)
{
  std::vector<double> r;
  for (auto &p : x)
    for (int k = 0; k < dim; ++k)
      r.push_back (p[k]);
  r.push_back (1e300); /* reading beyond shows */
  r.push_back (-1e300);
  r.push_back (1e300);
  return r;
}
static const double CANARY = 12345.678;

static void
check_eval (t8_cmesh_t cm, const GeomMesh &g, int tree, const std::vector<V> &x, const char *what)
{
  const Tree &t = g.trees[tree];
  const auto in = pack (x, DIM[t.cls]);
  std::vector<double> out (3 * x.size () + 6, CANARY);
  t8_geometry_evaluate (cm, tree, in.data (), x.size (), out.data ());
  for (size_t i = 0; i < x.size (); ++i) {
    const V got = { out[3 * i], out[3 * i + 1], out[3 * i + 2] }, want = t.map (x[i]);
    VP_REQUIRE (close (got, want) < 1e-11, what, ": ", GNAME[t.geom], " ", NAME[t.cls], " tree ", tree, " maps ", geo::show (x[i]), " (", i, " of ",
                x.size (), ") to ", geo::show (got), " instead of ", geo::show (want));
  }
  for (size_t i = 3 * x.size (); i < out.size (); ++i)
    VP_REQUIRE (out[i] == CANARY, what, ": evaluation of ", x.size (), " points wrote beyond the output");
}

/* ------------------------------------------------------------------ helper functions */
static void
helpers (Case &c)
{
  const int kind = (int) c.below (6);
  c.describe (vp::str ("helper=", kind));
  switch (kind) {
  case 0: { /* direct linear map */
    const int cls = (int) c.below (NCLASS);
    Tree t = gen_tree (c, cls, LINEAR, false);
    std::vector<V> x;
    for (int n = (int) c.range (0, 6); n > 0; --n)
      x.push_back (gen_ref (c, cls));
    const auto in = pack (x, DIM[cls]);
    std::vector<double> out (3 * x.size () + 3, CANARY);
    t8_geom_compute_linear_geometry ((t8_eclass_t) cls, t.raw.data (), in.data (), x.size (), out.data ());
    for (size_t i = 0; i < x.size (); ++i) {
      const V got = { out[3 * i], out[3 * i + 1], out[3 * i + 2] };
      VP_REQUIRE (close (got, t.map (x[i])) < 1e-11, "linear map of ", NAME[cls], " at ", geo::show (x[i]), " is ", geo::show (got), " instead of ",
                  geo::show (t.map (x[i])));
    }
    VP_REQUIRE (out[3 * x.size ()] == CANARY, "linear map wrote beyond the output");
    break;
  }
  case 1: { /* interpolation with values of any dimension */
    const bool tri = c.chance (50);
    const int id = tri ? (int) c.range (2, 3) : (int) c.range (1, 3), vd = (int) c.range (1, 3);
    const int cls = tri ? (id == 2 ? TRI : TET) : (id == 1 ? LINE : id == 2 ? QUAD : HEX);
    std::vector<double> val;
    for (int i = 0; i < NV[cls] * vd; ++i)
      val.push_back (c.real (-2, 2));
    const V x = gen_ref (c, cls);
    const auto w = geo::weights (cls, x);
    std::vector<double> out (vd + 1, CANARY), in (x.begin (), x.begin () + id);
    if (tri)
      t8_geom_triangular_interpolation (in.data (), val.data (), vd, id, out.data ());
    else
      t8_geom_linear_interpolation (in.data (), val.data (), vd, id, out.data ());
    for (int k = 0; k < vd; ++k) {
      double want = 0;
      for (int v = 0; v < NV[cls]; ++v)
        want += w[v] * val[v * vd + k];
      VP_REQUIRE (std::fabs (out[k] - want) < 1e-12, "interpolation in ", NAME[cls], " at ", geo::show (x), " component ", k, " is ", out[k],
                  " instead of ", want);
    }
    VP_REQUIRE (out[vd] == CANARY, "interpolation wrote beyond the output");
    break;
  }
  case 2: { /* vertices of faces and edges */
    const int cls = 1 + (int) c.below (NCLASS - 1);
    const int d = (int) c.range (1, 3);
    std::vector<double> val;
    for (int i = 0; i < NV[cls] * d; ++i)
      val.push_back (i + 1);
    const int f = (int) c.below (NF[cls]);
    std::vector<double> out (4 * d + 1, CANARY);
    t8_geom_get_face_vertices ((t8_eclass_t) cls, val.data (), f, d, out.data ());
    for (size_t i = 0; i < FV[cls][f].size (); ++i)
      for (int k = 0; k < d; ++k)
        VP_REQUIRE (out[i * d + k] == val[FV[cls][f][i] * d + k], "vertex ", i, " of face ", f, " of ", NAME[cls]);
    if (DIM[cls] == 3 && cls != PYRA) { /* the edges of pyramids are not numbered in the library */
      static const std::vector<std::array<int, 2>> HE = { { 0, 1 }, { 2, 3 }, { 4, 5 }, { 6, 7 }, { 0, 2 }, { 1, 3 }, { 4, 6 }, { 5, 7 }, { 0, 4 }, { 1, 5 }, { 2, 6 }, { 3, 7 } };
      static const std::vector<std::array<int, 2>> TE = { { 0, 1 }, { 0, 2 }, { 0, 3 }, { 1, 2 }, { 1, 3 }, { 2, 3 } };
      static const std::vector<std::array<int, 2>> PE = { { 1, 2 }, { 0, 2 }, { 0, 1 }, { 4, 5 }, { 3, 5 }, { 3, 4 }, { 1, 4 }, { 2, 5 }, { 0, 3 } };
      const auto &E = cls == HEX ? HE : cls == TET ? TE : PE;
      const int e = (int) c.below (E.size ());
      t8_geom_get_edge_vertices ((t8_eclass_t) cls, val.data (), e, d, out.data ());
      for (int i = 0; i < 2; ++i)
        for (int k = 0; k < d; ++k)
          VP_REQUIRE (out[i * d + k] == val[E[e][i] * d + k], "vertex ", i, " of edge ", e, " of ", NAME[cls]);
    }
    break;
  }
  case 3: { /* intersection of the ray from the opposite vertex with an edge of the triangle */
    const int e = (int) c.below (3);
    /* away from the opposite vertex, also on the edges */
    double w[3], s = 0;
    for (int i = 0; i < 3; ++i)
      s += w[i] = i != (e + 1) % 3 && c.chance (20) ? 0 : c.real (0.05, 1);
    const double l[3] = { w[0] / s, w[1] / s, w[2] / s };
    const double x[2] = { l[1] + l[2], l[2] };
    double r[2] = { CANARY, CANARY };
    t8_geom_get_ref_intersection (e, x, r);
    double want[2] = { 0, 0 };
    for (int i = 0; i < 3; ++i)
      if (i != e)
        for (int k = 0; k < 2; ++k)
          want[k] += l[i] / (1 - l[e]) * RV[TRI][i][k];
    VP_REQUIRE (std::fabs (r[0] - want[0]) + std::fabs (r[1] - want[1]) < 1e-10, "ray from vertex ", e, " through (", x[0], ",", x[1],
                ") meets the edge at (", r[0], ",", r[1], ") instead of (", want[0], ",", want[1], ")");
    /* distances along the ray */
    Tree t = gen_tree (c, TRI, LINEAR, true);
    const V gi = t.map ({ r[0], r[1], 0 }), gr = t.map ({ x[0], x[1], 0 });
    const double f = t8_geom_get_triangle_scaling_factor (e, t.raw.data (), gi.data (), gr.data ());
    VP_REQUIRE (std::fabs (f - (1 - l[e])) < 1e-9, "scaling factor along the ray is ", f, " instead of ", 1 - l[e]);
    break;
  }
  case 4: { /* the same for tetrahedra */
    const int f = (int) c.below (4);
    double w[4], s = 0;
    for (int i = 0; i < 4; ++i)
      s += w[i] = i != (f + 1) % 4 && c.chance (20) ? 0 : c.real (0.05, 1);
    V x = { 0, 0, 0 }, want = { 0, 0, 0 };
    for (int i = 0; i < 4; ++i) {
      const V r = { (double) RV[TET][i][0], (double) RV[TET][i][1], (double) RV[TET][i][2] };
      x = x + (w[i] / s) * r;
      if (i != f)
        want = want + (w[i] / (s - w[f])) * r;
    }
    V got;
    t8_geom_get_tet_face_intersection (f, x.data (), got.data ());
    VP_REQUIRE (close (got, want) < 1e-10, "ray from vertex ", f, " through ", geo::show (x), " meets the face at ", geo::show (got), " instead of ",
                geo::show (want));
    break;
  }
  default: { /* point tests against exact positions */
    const int s = c.chance (50) ? TRI : LINE;
    Tree t = gen_tree (c, s, LINEAR, true);
    if (c.chance (30)) {
      /* parallel to an axis up to round-off */
      const int k = (int) c.below (3);
      for (size_t i = 1; i < t.v.size (); ++i)
        if (s == LINE) {
          for (int j = 0; j < 3; ++j)
            if (j != k)
              t.v[i][j] = t.v[0][j] * (1 + (double) (int) c.range (-3, 3) * 2.2204460492503131e-16);
          t.v[i][k] = t.v[0][k] + (c.chance (50) ? 1 : -1) * c.real (0.25, 2);
        }
        else
          t.v[i][k] = t.v[0][k] * (1 + (double) (int) c.range (-3, 3) * 2.2204460492503131e-16);
      if (s == TRI) {
        t.v[1] = t.v[0];
        t.v[2][(k + 2) % 3] = t.v[1][(k + 2) % 3] += (c.chance (50) ? 1 : -1) * c.real (0.25, 2);
        t.v[2][(k + 1) % 3] = t.v[1][(k + 1) % 3] + (c.chance (50) ? 1 : -1) * c.real (0.25, 2);
      }
    }
    /* position relative to the cell: barycentric coordinates */
    std::vector<double> l (NV[s]);
    double sum = 0;
    const bool in = c.chance (50);
    for (auto &q : l)
      sum += q = c.real (0.02, 1);
    for (auto &q : l)
      q /= sum;
    if (!in && c.chance (60)) {
      /* beyond one side */
      const int i = (int) c.below (l.size ());
      const double neg = -c.real (0.02, 2), rest = 1 - l[i];
      for (size_t k = 0; k < l.size (); ++k)
        l[k] = (int) k == i ? neg : l[k] * (1 - neg) / rest;
    }
    V p = geo::blend (l, t.v);
    bool outside = false;
    for (double q : l)
      outside |= q < 0;
    if (!in && !outside) {
      /* off the line or plane */
      V n;
      const V a = t.v[1] - t.v[0];
      if (s == TRI)
        n = geo::cross (a, t.v[2] - t.v[0]);
      else
        n = geo::cross (a, std::fabs (a[0]) > std::fabs (a[1]) ? V { 0, 1, 0 } : V { 1, 0, 0 });
      p = p + (c.real (0.05, 1) * (c.chance (50) ? 1 : -1) / geo::norm (n)) * n;
      outside = true;
    }
    const double tol = 1e-8;
    const V a = t.v[1] - t.v[0];
    int r;
    if (s == LINE)
      r = t8_line_point_inside (t.v[0].data (), a.data (), p.data (), tol);
    else {
      const V b = t.v[2] - t.v[0];
      r = t8_triangle_point_inside (t.v[0].data (), a.data (), b.data (), p.data (), tol);
    }
    VP_REQUIRE ((r != 0) == !outside, NAME[s], " test says ", r, " for the point ", geo::show (p), " which is ", outside ? "outside" : "inside",
                " of vertex ", geo::show (t.v[0]), " with first edge ", geo::show (a));
    if (s == TRI) {
      /* side of a plane */
      const V m = geo::cross (a, t.v[2] - t.v[0]);
      const double h = (c.chance (50) ? 1 : -1) * c.real (0.01, 2);
      const V q = geo::blend (l, t.v) + (h / geo::norm (m)) * m;
      VP_REQUIRE ((t8_plane_point_inside (t.v[0].data (), m.data (), q.data ()) != 0) == (h < 0), "side of the plane of the point at signed distance ", h);
    }
    const V far = t.v[0] + V { c.real (0.001, 1), 0, 0 };
    VP_REQUIRE (t8_vertex_point_inside (t.v[0].data (), t.v[0].data (), tol) && !t8_vertex_point_inside (t.v[0].data (), far.data (), tol),
                "vertex test");
    break;
  }
  }
  c.label ("helper");
  c.nontrivial ();
}

static void
g01_rank (Case &c)
{
  if (c.chance (40)) {
    helpers (c);
    return;
  }
  GeomMesh g;
  g.dim = (int) c.weighted ({ 1, 3, 4, 5 });
  const int n = (int) c.range (1, 4);
  const bool mixed = c.chance (70);
  int kind = 0, cls = 0;
  std::set<int> used;
  std::string d = "trees=";
  for (int i = 0; i < n; ++i) {
    cls = c.pick (CLASSES[g.dim]);
    if (i == 0 || mixed)
      kind = (int) c.weighted ({ 4, 3, 1, 2, 3 });
    if (kind == AXIS && cls != LINE && cls != QUAD && cls != HEX)
      kind = LINEAR;
    if (kind == LAGRANGE && (cls == VERTEX || cls == TET || cls == PRISM || cls == PYRA))
      kind = LINEAR;
    g.trees.push_back (gen_tree (c, cls, kind, false, true));
    used.insert (kind);
    d += vp::str (NAME[cls], "/", GNAME[kind], " ");
  }
  c.describe (d);
  for (int k = 0; k < 5; ++k)
    if (used.count (k) || (k != LAGRANGE && c.chance (10)))
      g.kinds.push_back (k);
  for (size_t i = g.kinds.size (); i > 1; --i)
    std::swap (g.kinds[i - 1], g.kinds[c.below (i)]);
  t8_cmesh_t cm = build (g), copy = nullptr;
  const int ops = (int) c.range (1, 10);
  int distinct = 0, last = -1;
  for (int q = 0; q < ops; ++q) {
    const int tree = (int) c.below (g.trees.size ());
    distinct += tree != last;
    last = tree;
    const Tree &t = g.trees[tree];
    std::vector<V> x;
    for (int k = t.geom == LAGRANGE ? 1 : (int) c.range (0, 5); k > 0; --k)
      x.push_back (gen_ref (c, t.cls));
    if (copy == nullptr && c.chance (12)) {
      /* a copy shares the geometries */
      t8_cmesh_init (&copy);
      t8_cmesh_ref (cm);
      t8_cmesh_set_derive (copy, cm);
      t8_cmesh_commit (copy, sc_MPI_COMM_WORLD);
      c.label ("copy");
    }
    if (copy != nullptr && c.chance (25) && cm != nullptr) {
      t8_cmesh_unref (&cm);
      cm = nullptr;
      c.label ("source-released");
    }
    t8_cmesh_t use = cm == nullptr || (copy != nullptr && c.chance (50)) ? copy : cm;
    check_eval (use, g, tree, x, use == copy ? "copy" : "mesh");
    const t8_geometry_type_t type = t8_geometry_get_type (use, tree);
    static const t8_geometry_type_t types[] = { T8_GEOMETRY_TYPE_LINEAR, T8_GEOMETRY_TYPE_LINEAR_AXIS_ALIGNED, T8_GEOMETRY_TYPE_ZERO,
                                                T8_GEOMETRY_TYPE_ANALYTIC, T8_GEOMETRY_TYPE_LAGRANGE };
    VP_REQUIRE (type == types[t.geom], "type of the geometry of tree ", tree, " is ", (int) type);
    if (t.geom == LINEAR && c.chance (30)) {
      double b[6];
      VP_REQUIRE (use->geometry_handler->get_tree_bounding_box (use, tree, b), "no bounding box of a linear tree");
      for (int k = 0; k < 3; ++k) {
        double lo = t.v[0][k], hi = lo;
        for (auto &p : t.v) {
          lo = std::min (lo, p[k]);
          hi = std::max (hi, p[k]);
        }
        VP_REQUIRE (b[2 * k] == lo && b[2 * k + 1] == hi, "bounding box of tree ", tree, " in direction ", k, " is ", b[2 * k], "..", b[2 * k + 1]);
      }
    }
    if (t.geom == LINEAR || t.geom == AXIS)
      VP_REQUIRE ((t8_geometry_tree_negative_volume (use, tree) != 0) == t.mirrored, t.mirrored ? "mirrored " : "", NAME[t.cls], " tree ", tree,
                  " is reported to have ", t.mirrored ? "positive" : "negative", " volume");
    c.label (t.mirrored ? "mirrored" : "upright");
    if ((t.geom == ANALYTIC || t.geom == ZERO) && DIM[t.cls] > 0 && !x.empty ()) {
      const auto in = pack (x, DIM[t.cls]);
      const size_t len = x.size () * 3 * DIM[t.cls];
      std::vector<double> got (len + 3, CANARY), want (len, 0.0);
      t8_geometry_jacobian (use, tree, in.data (), x.size (), got.data ());
      if (t.geom == ANALYTIC)
        analytic_jac (use, tree, in.data (), x.size (), want.data (), nullptr, &g.dim);
      for (size_t i = 0; i < len; ++i)
        VP_REQUIRE (got[i] == want[i], "entry ", i, " of the Jacobian of the ", GNAME[t.geom], " geometry is ", got[i], " not ", want[i]);
      for (size_t i = len; i < got.size (); ++i)
        VP_REQUIRE (got[i] == CANARY, "Jacobian wrote beyond the output");
    }
  }
  if (cm != nullptr)
    t8_cmesh_unref (&cm);
  if (copy != nullptr)
    t8_cmesh_unref (&copy);
  for (int k : used)
    c.label (GNAME[k]);
  c.nontrivial (distinct > 1);
}
static void
g01 (Case &c)
{
  vp_run_ranks (vmpi::Options {}, [&] (int) { g01_rank (c); });
}
static vp::Register r01 ({ "G01", g01, 7000000, 105000000,
  "evaluations of generated trees with linear, axis-aligned, Lagrange, analytic and zero geometry (batches, switching trees, copies of the mesh), or of an interpolation helper; non-trivial = at least two different trees in a row, or a helper",
  { "relative tolerance 1e-11", "Lagrange trees of degree 1 and 2, single points (others are rejected by the library)" }, 20 });
