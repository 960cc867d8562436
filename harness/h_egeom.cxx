/* G03: geometric quantities of elements in affine trees. */
#include "fmodel.hxx"
#include "geo.hxx"
#include <t8_cmesh/t8_cmesh.hxx>
#include <t8_forest/t8_forest_geometrical.h>
#include <t8_geometry/t8_geometry_implementations/t8_geometry_linear.hxx>
#include <t8_geometry/t8_geometry_implementations/t8_geometry_linear_axis_aligned.hxx>

using namespace ref;
using vp::Case;
using geo::V;
using namespace geo;

struct Tree
{
  int cls;
  V o, a[3];
  std::vector<V> v; /* vertices */
  bool affine = true;
  V
  map (const V &x) const
  {
    if (affine)
      return o + x[0] * a[0] + x[1] * a[1] + x[2] * a[2];
    return geo::linear_map (cls, v, x);
  }
};

static void
g03 (Case &c)
{
  const int dim = (int) c.weighted ({ 1, 2, 5, 8 });
  const bool aligned = dim > 0 && c.chance (15);
  const bool flatten = !aligned && c.chance (20); /* some trees are not affine: only the maps are compared there */
  static const std::vector<std::vector<int>> classes = { { VERTEX }, { LINE }, { QUAD, TRI }, { HEX, TET, PRISM, PYRA } };
  static const int boxes[] = { VERTEX, LINE, QUAD, HEX };
  const int nt = (int) c.range (1, 4);
  const double S = c.chance (70) ? 1 : std::ldexp (1.0, (int) c.range (-6, 8));
  std::vector<Tree> T (nt);
  const bool mirrored = !aligned && c.chance (20);
  std::string desc;
  for (auto &t : T) {
    t.cls = aligned ? boxes[dim] : c.pick (classes[dim]);
    for (int k = 0; k < 3; ++k)
      t.o[k] = c.chance (30) ? 0 : S * c.real (-2, 2);
    for (;;) {
      for (int i = 0; i < 3; ++i)
        for (int k = 0; k < 3; ++k)
          t.a[i][k] = aligned ? (i == k ? S * c.real (0.3, 2) : 0) : c.chance (25) ? (double) S * (i == k) : S * c.real (-1, 1);
      /* not too flat */
      const double q = dim < 2 ? norm (t.a[0]) : dim == 2 ? norm (cross (t.a[0], t.a[1])) : std::fabs (dot (cross (t.a[0], t.a[1]), t.a[2]));
      if (dim == 0 || q > 0.15 * std::pow (S, dim))
        break;
    }
    if (dim == 3 && !mirrored && dot (cross (t.a[0], t.a[1]), t.a[2]) < 0)
      t.a[0] = -1.0 * t.a[0];
    if (aligned && dim < 3 && c.chance (50)) {
      /* other coordinate directions */
      const int p = (int) c.below (3);
      for (int i = 0; i < 3; ++i)
        std::rotate (t.a[i].begin (), t.a[i].begin () + p, t.a[i].end ());
      /* the coordinate directions are used in ascending order */
      auto at = [&] (int i) { return t.a[i][0] != 0 ? 0 : t.a[i][1] != 0 ? 1 : 2; };
      if (dim == 2 && at (0) > at (1))
        std::swap (t.a[0], t.a[1]);
    }
    for (int i = 0; i < NV[t.cls]; ++i) {
      V x = t.o;
      for (int k = 0; k < dim; ++k)
        x = x + (double) RV[t.cls][i][k] * t.a[k];
      t.v.push_back (x);
    }
    for (int k = dim; k < 3; ++k)
      t.a[k] = { 0, 0, 0 };
    if (flatten && c.chance (50)) {
      t.affine = false;
      for (auto &x : t.v)
        for (int k = 0; k < 3; ++k)
          x[k] += S * c.real (-0.1, 0.1);
    }
    desc += vp::str (NAME[t.cls], t.affine ? "" : "*", " ");
  }
  Scheme sch (c.chance (30) && [&] { for (auto &t : T) if (t.cls == PYRA) return false; return true; }());
  vmpi::Options opt;
  opt.nranks = c.chance (60) ? 1 : (int) c.range (2, 4);
  opt.sched_seed = c.bits ();
  const int level = dim == 0 ? 0 : (int) c.below (dim == 3 ? 2 : 3);
  const uint64_t seed = c.bits ();
  const bool part = opt.nranks > 1 && c.chance (50);
  const int nel = (int) c.range (1, 4);
  c.describe (vp::str (desc, aligned ? "aligned " : "", "scale=", S, " ranks=", opt.nranks, " level=", level, sch.standalone ? " standalone" : "", part ? " partitioned" : ""));
  /* elements to look at: (tree, path) */
  struct Probe
  {
    int tree;
    std::vector<int> path;
    std::vector<V> ref, in, out;
    double str[3];
    bool stretch;
  };
  std::vector<Probe> pr;
  for (int i = 0; i < nel; ++i) {
    Probe p;
    p.tree = (int) c.below (nt);
    p.path = gen_path (c, sch.s, (t8_eclass_t) T[p.tree].cls, dim == 0 ? (int) c.below (4) : c.chance (6) ? (int) c.range (8, sch.s->get_maxlevel ((t8_eclass_t) T[p.tree].cls)) : (int) c.below (8));
    Elem e (sch.s, (t8_eclass_t) T[p.tree].cls);
    follow (sch.s, (t8_eclass_t) T[p.tree].cls, p.path, e);
    const int shape = (int) sch.s->element_get_shape ((t8_eclass_t) T[p.tree].cls, e);
    const int n = (int) c.weighted ({ 3, 2, 1 }) * 4 + (int) c.range (1, 4);
    for (int j = 0; j < n; ++j) {
      V x = { 0, 0, 0 };
      double w[8], sum = 0;
      for (int v = 0; v < NV[shape]; ++v)
        sum += w[v] = (double) c.below (16) + (v == 0);
      for (int v = 0; v < NV[shape]; ++v)
        for (int k = 0; k < 3; ++k)
          x[k] += w[v] / sum * RV[shape][v][k];
      p.ref.push_back (x);
      /* well inside */
      V y = { 0, 0, 0 };
      for (int v = 0; v < NV[shape]; ++v)
        for (int k = 0; k < 3; ++k)
          y[k] += (w[v] + 1) / (sum + NV[shape]) * RV[shape][v][k];
      p.in.push_back (y);
      /* clearly outside: mirror an inner point beyond a random face */
      if (dim > 0) {
        const auto &fv = FV[shape][c.below (NF[shape])];
        V m = { 0, 0, 0 };
        for (int v : fv)
          for (int k = 0; k < 3; ++k)
            m[k] += RV[shape][v][k] / (double) fv.size ();
        const double f = c.real (0.2, 3);
        p.out.push_back (m + f * (m - y));
      }
    }
    p.stretch = c.chance (40);
    for (auto &s : p.str)
      s = c.real (0.2, 1.8);
    pr.push_back (p);
  }
  int looked = 0;
  vp_run_ranks (opt, [&] (int rank) {
    t8_cmesh_t cm;
    t8_cmesh_init (&cm);
    if (aligned)
      t8_cmesh_register_geometry<t8_geometry_linear_axis_aligned> (cm);
    else
      t8_cmesh_register_geometry<t8_geometry_linear> (cm);
    for (int t = 0; t < nt; ++t) {
      t8_cmesh_set_tree_class (cm, t, (t8_eclass_t) T[t].cls);
      std::vector<double> raw;
      if (aligned)
        for (int i : { 0, NV[T[t].cls] - 1 })
          raw.insert (raw.end (), T[t].v[i].begin (), T[t].v[i].end ());
      else
        for (auto &x : T[t].v)
          raw.insert (raw.end (), x.begin (), x.end ());
      t8_cmesh_set_tree_vertices (cm, t, raw.data (), (int) raw.size () / 3);
    }
    if (mirrored || flatten)
      t8_cmesh_disable_negative_volume_check (cm);
    t8_cmesh_commit (cm, sc_MPI_COMM_WORLD);
    if (part) {
      t8_cmesh_t d;
      t8_cmesh_init (&d);
      t8_cmesh_set_derive (d, cm);
      t8_cmesh_set_partition_uniform (d, level, sch.s);
      sch.s->ref ();
      if (mirrored || flatten)
        t8_cmesh_disable_negative_volume_check (d);
      t8_cmesh_commit (d, sc_MPI_COMM_WORLD);
      cm = d;
    }
    sch.s->ref ();
    t8_forest_t f = t8_forest_new_uniform (cm, sch.s, level, 0, sc_MPI_COMM_WORLD);
    for (auto &p : pr) {
      const Tree &t = T[p.tree];
      const t8_locidx_t lt = t8_forest_get_local_id (f, p.tree);
      if (lt < 0)
        continue;
      looked += rank == 0 || opt.nranks > 1;
      const t8_eclass_t ec = (t8_eclass_t) t.cls;
      Elem e (sch.s, ec);
      follow (sch.s, ec, p.path, e);
      const Cell cell = cell_of (sch.s, ec, e);
      const int sh = cell.shape;
      /* corners */
      std::vector<V> rv, xv;
      double ext = 0, big = S;
      for (auto &x : cell.v)
        rv.push_back ({ std::ldexp ((double) x.x[0], -REFBITS), std::ldexp ((double) x.x[1], -REFBITS), std::ldexp ((double) x.x[2], -REFBITS) });
      for (auto &x : rv)
        xv.push_back (t.map (x));
      for (auto &x : xv) {
        ext = std::max (ext, norm (x - xv[0]));
        big = std::max (big, norm (x));
      }
      const double eps = 1e-13 * big;
      auto where = [&] { return vp::str (" of the ", NAME[sh], " ", path_str (p.path), " in tree ", p.tree, " (", NAME[t.cls], ")"); };
      for (int i = 0; i < NV[sh]; ++i) {
        V x = { 99, 99, 99 };
        t8_forest_element_coordinate (f, lt, e, i, x.data ());
        VP_REQUIRE (norm (x - xv[i]) < eps, "corner ", i, where (), " is ", show (x), " instead of ", show (xv[i]));
      }
      /* points given in the element */
      auto inner = [&] (const V &x) {
        if (dim == 0)
          return rv[0];
        /* refinement cells are affine images of their reference cells */
        static const int spine[NCLASS][4] = { { 0 }, { 0, 1 }, { 0, 1, 2 }, { 0, 1, 2 }, { 0, 1, 2, 4 }, { 0, 1, 2, 3 }, { 0, 1, 2, 3 }, { 0, 1, 2, 4 } };
        const auto &s = spine[sh];
        V r = rv[0];
        /* coordinates of x in the spine of the reference cell */
        double l[3] = { x[0], x[1], x[2] };
        if (sh == TRI || sh == PRISM)
          l[0] = x[0] - x[1], l[1] = x[1];
        if (sh == TET)
          l[0] = x[0] - x[2], l[1] = x[2] - x[1], l[2] = x[1];
        if (sh == PYRA)
          l[0] = x[0] - x[2], l[1] = x[1] - x[2];
        for (int k = 0; k < dim; ++k)
          r = r + l[k] * (rv[s[k + 1]] - rv[0]);
        return r;
      };
      {
        std::vector<double> in, out (3 * p.ref.size () + 1, 77);
        for (auto &x : p.ref)
          in.insert (in.end (), x.begin (), x.end ());
        const bool st = p.stretch && t.affine && dim > 0 && t.cls != PYRA;
        if (st)
          t8_forest_element_from_ref_coords_ext (f, lt, e, in.data (), p.ref.size (), out.data (), p.str);
        else
          t8_forest_element_from_ref_coords (f, lt, e, in.data (), p.ref.size (), out.data ());
        for (size_t i = 0; i < p.ref.size (); ++i) {
          V x = p.ref[i];
          if (st)
            for (int k = 0; k < dim; ++k)
              x[k] = 0.5 + (x[k] - 0.5) * p.str[k];
          const V want = t.map (inner (x)), got = { out[3 * i], out[3 * i + 1], out[3 * i + 2] };
          VP_REQUIRE (norm (want - got) < 10 * eps, "point ", show (p.ref[i]), where (), " is mapped to ", show (got), " instead of ", show (want), st ? " (stretched)" : "");
        }
        VP_REQUIRE (out.back () == 77, "more values written than points");
      }
      /* centroids */
      static const double CR[NCLASS][3] = { { 0, 0, 0 }, { .5, 0, 0 }, { .5, .5, 0 }, { 2. / 3, 1. / 3, 0 }, { .5, .5, .5 }, { .75, .25, .5 }, { 2. / 3, 1. / 3, .5 }, { .6, .6, .2 } }; /* means of the corners */
      V mean = { 0, 0, 0 };
      for (auto &x : xv)
        mean = mean + (1.0 / xv.size ()) * x;
      const V centre = t.map (inner ({ CR[sh][0], CR[sh][1], CR[sh][2] }));
      V g = { 9, 9, 9 };
      t8_forest_element_centroid (f, lt, e, g.data ());
      VP_REQUIRE (norm (g - centre) < 10 * eps, "centroid", where (), " is ", show (g), " instead of ", show (centre));
      t8_forest_element_linear_centroid (f, lt, e, g.data ());
      VP_REQUIRE (norm (g - mean) < 10 * eps, "mean of the corners", where (), " is ", show (g), " instead of ", show (mean));
      double d = 0;
      for (auto &x : xv)
        d += 2 * norm (x - centre) / (double) xv.size ();
      const double gd = t8_forest_element_diam (f, lt, e);
      VP_REQUIRE (std::fabs (gd - d) < 40 * eps, "diameter", where (), " is ", gd, " instead of ", d);
      if (!t.affine)
        continue;
      const double vol = geo::measure (sh, xv), gv = t8_forest_element_volume (f, lt, e);
      VP_REQUIRE (std::fabs (gv - vol) < 1e-7 * vol + 100 * eps * std::pow (ext, dim - 1), "volume", where (), " is ", gv, " instead of ", vol);
      for (int k = 0; k < NF[sh]; ++k) {
        const auto &fv = cell.fv (k);
        std::vector<V> fx;
        V fm = { 0, 0, 0 };
        for (int i : fv) {
          fx.push_back (xv[i]);
          fm = fm + (1.0 / (double) fv.size ()) * xv[i];
        }
        const int fs = fv.size () == 1 ? VERTEX : fv.size () == 2 ? LINE : fv.size () == 3 ? TRI : QUAD;
        const double area = geo::measure (fs, fx), ga = t8_forest_element_face_area (f, lt, e, k);
        VP_REQUIRE (std::fabs (ga - area) < 1e-7 * area + 100 * eps * (dim > 2 ? ext : 1), "area of face ", k, where (), " is ", ga, " instead of ", area);
        V x = { 9, 9, 9 }, n = { 9, 9, 9 };
        t8_forest_element_face_centroid (f, lt, e, k, x.data ());
        VP_REQUIRE (norm (x - fm) < 10 * eps, "centre of face ", k, where (), " is ", show (x), " instead of ", show (fm));
        if ((dim == 3 && area < 1e-12) || ext < 1e-7 * big)
          continue; /* normals of tiny faces are not computed */
        t8_forest_element_face_normal (f, lt, e, k, n.data ());
        const double loose = 1e-9 + 1e4 * eps / ext;
        VP_REQUIRE (std::fabs (norm (n) - 1) < 1e-9, "normal of face ", k, where (), " has length ", norm (n));
        for (size_t i = 1; i < fx.size (); ++i)
          VP_REQUIRE (std::fabs (dot (n, fx[i] - fx[0])) < loose * ext, "normal ", show (n), " of face ", k, where (), " is not orthogonal to the face");
        VP_REQUIRE (dot (n, fm - centre) > 0, "normal of face ", k, where (), " does not point outwards");
        if (dim == 2) {
          const V pl = cross (t.a[0], t.a[1]);
          VP_REQUIRE (std::fabs (dot (n, pl)) < loose * norm (pl), "normal of face ", k, where (), " leaves the plane of the element");
        }
        if (dim == 1)
          VP_REQUIRE (norm (cross (n, t.a[0])) < loose * norm (t.a[0]), "normal of face ", k, where (), " leaves the line");
      }
      /* points inside and outside */
      if (ext > 1e-3 * big && (dim < 3 || ext * ext > 1e-9)) {
        std::vector<double> pts;
        std::vector<int> want;
        size_t a = 0, b = 0;
        const uint64_t mixer = seed;
        while (a < p.in.size () || b < p.out.size ()) {
          const bool in = b >= p.out.size () || (a < p.in.size () && (mixer >> ((a + b) % 60) & 1));
          const V x = t.map (inner (in ? p.in[a++] : p.out[b++]));
          pts.insert (pts.end (), x.begin (), x.end ());
          want.push_back (in);
        }
        std::vector<int> got (want.size () + 1, 55);
        t8_forest_element_points_inside (f, lt, e, pts.data (), (int) want.size (), got.data (), 1e-7 * ext);
        for (size_t i = 0; i < want.size (); ++i)
          VP_REQUIRE ((got[i] != 0) == (want[i] != 0), "point ", i, " of ", want.size (), " ", show ({ pts[3 * i], pts[3 * i + 1], pts[3 * i + 2] }), " is ",
                      want[i] ? "inside" : "outside", where (), " but the answer is ", got[i]);
        VP_REQUIRE (got.back () == 55, "more answers than points");
        if (aligned && dim > 0) {
          /* boxes are enlarged by the tolerance in every direction */
          const double tol = (1 + (double) (seed % 200)) / 1000 * ext;
          std::vector<double> q;
          std::vector<int> wq;
          uint64_t h = seed;
          for (auto &y : p.in)
            for (int k = 0; k < 3; ++k) {
              h = h * 6364136223846793005ull + 1442695040888963407ull;
              double lo = xv[0][k], hi = xv[0][k];
              for (auto &x : xv)
                lo = std::min (lo, x[k]), hi = std::max (hi, x[k]);
              V x = t.map (inner (y));
              const int m = (int) (h >> 60) & 3;
              const double by = (m & 1) ? 0.8 * tol : 1.25 * tol;
              x[k] = (m & 2) ? hi + by : lo - by;
              q.insert (q.end (), x.begin (), x.end ());
              wq.push_back (m & 1);
            }
          std::vector<int> gq (wq.size () + 1, 55);
          t8_forest_element_points_inside (f, lt, e, q.data (), (int) wq.size (), gq.data (), tol);
          for (size_t i = 0; i < wq.size (); ++i)
            VP_REQUIRE ((gq[i] != 0) == (wq[i] != 0), "point ", show ({ q[3 * i], q[3 * i + 1], q[3 * i + 2] }), wq[i] ? " within" : " beyond", " the tolerance ", tol, where (), " but the answer is ", gq[i]);
          VP_REQUIRE (gq.back () == 55, "more answers than points");
        }
      }
    }
    vmpi::sync ();
    t8_forest_unref (&f);
  });
  c.label (vp::str ("dim", dim));
  if (aligned)
    c.label ("aligned");
  if (opt.nranks > 1)
    c.label ("parallel");
  c.nontrivial (dim > 0 && looked > 0);
}
static vp::Register r03 ({ "G03", g03, 900000, 13500000,
  "1 to 4 trees placed by random affine maps (some multilinear), 1 to 4 random elements of level 0 to 7 (some up to the maximum level), up to 12 points each; non-trivial = dimension above 0 and a tree on a rank",
  { "volumes, areas, normals and inside tests only in affine trees", "inside tests use points at least a few percent of the element away from its boundary; near the boundary only the tolerance of axis-aligned trees is checked",
    "normals of faces with area below 1e-12 are skipped because they are refused by an assertion, those of elements below 1e-7 of the coordinates because of round-off" }, 20 });
