/* Example meshes and their curved geometries. */
#include "cm.hxx"
#include <p4est.h>
#include <p4est_connectivity.h>
#include <p8est_connectivity.h>
using namespace fm;
using geo::V;
using geo::operator+;
using geo::operator-;
using geo::operator*;
using vp::Case;

static int pkg = -1;
enum Curve { FLAT, SPHERE, SHELL, DISK, BALL };
struct Example
{
  std::string name;
  int dim = 2;
  bool geom = true;      /* has tree vertices */
  bool conforming = true; /* the gluing is that of the geometry */
  bool upright = true;   /* all trees have positive volume */
  int nv_attr = -1;
  long ntrees = -1;
  double measure = -1;
  std::vector<V> lattice;
  std::vector<V> grid; /* expected vertices of the mesh, empty = not checked */
  std::function<t8_cmesh_t (sc_MPI_Comm)> make, dist;
  Curve curve = FLAT;
  double r0 = 0, thick = 0; /* radius, thickness */
  int layers = 1;
  bool partitioned = false; /* dist yields a partitioned mesh */
  bool multi = true;        /* dist may run on several ranks */
  bool row_attr = false;    /* carries the tree id and the number of trees as attributes */
};

static t8_cmesh_t
fresh ()
{
  t8_cmesh_t c;
  t8_cmesh_init (&c);
  return c;
}
#define MK(CALL) \
  [=] (sc_MPI_Comm comm) { \
    t8_cmesh_t c = fresh (); \
    CALL; \
    return c; \
  }

static const int PERCUBE[NCLASS] = { 1, 1, 1, 2, 1, 6, 2, 3 };

static Example
hypercube (Case &c)
{
  Example e;
  const int cls = (int) c.below (NCLASS), per = cls != PYRA && cls != VERTEX && c.chance (40);
  const int b = c.chance (40), p = c.chance (60);
  e.name = vp::str ("hypercube ", NAME[cls], per ? " periodic" : "", b ? " bcast" : "", p ? " partition" : "");
  e.dim = DIM[cls];
  e.ntrees = PERCUBE[cls];
  e.measure = 1;
  for (int k = 0; per && k < e.dim; ++k) {
    V l = { 0, 0, 0 };
    l[k] = 1;
    e.lattice.push_back (l);
  }
  e.make = [=] (sc_MPI_Comm comm) {
    t8_cmesh_t c = fresh ();
    t8_cmesh_new_hypercube (&c, (t8_eclass_t) cls, comm, 0, 0, per);
    return c;
  };
  e.dist = [=] (sc_MPI_Comm comm) {
    t8_cmesh_t c = fresh ();
    t8_cmesh_new_hypercube (&c, (t8_eclass_t) cls, comm, b, p, per);
    return c;
  };
  e.partitioned = p;
  return e;
}

static Example
pad (Case &c)
{
  Example e;
  static const std::vector<int> classes = { VERTEX, LINE, QUAD, TRI, HEX, TET, PRISM };
  const int cls = c.pick (classes), d = DIM[cls];
  int n[3], per[3];
  for (int k = 0; k < 3; ++k) {
    n[k] = k < d ? (int) c.range (1, k == 2 ? 3 : 4) : (int) c.below (3);
    per[k] = k < d && c.chance (30);
  }
  const bool aligned = (cls == QUAD || cls == HEX || cls == LINE) && c.chance (30);
  const bool part = c.chance (60);
  const bool anyper = per[0] || per[1] || per[2];
  const bool skew = !aligned && c.chance (60);
  V o, A[3];
  for (int k = 0; k < 3; ++k) {
    o[k] = c.real (-3, 3);
    A[k] = { 0, 0, 0 };
    A[k][k] = c.chance (30) ? 1 : c.real (0.3, 4);
  }
  if (skew)
    for (int k = 0; k < 3; ++k)
      for (int j = 0; j < 3; ++j)
        if (j != k)
          A[k][j] = (d == 2 && j == 2) ? (c.real (-0.5, 0.5)) : c.real (-0.15, 0.15);
  std::vector<V> b;
  for (int i = 0; i < (1 << d); ++i) {
    V v = o;
    for (int k = 0; k < d; ++k)
      if (i >> k & 1)
        v = v + A[k];
    if (skew && !anyper)
      for (int k = 0; k < (d == 2 ? 2 : 3); ++k)
        v[k] += c.real (-0.05, 0.05);
    b.push_back (v);
  }
  std::vector<double> raw;
  for (auto &v : b)
    raw.insert (raw.end (), v.begin (), v.end ());
  e.name = vp::str ("pad ", NAME[cls], " ", n[0], "x", n[1], "x", n[2], " periodic=", per[0], per[1], per[2], aligned ? " aligned" : "",
                    skew ? " skew" : "", part ? " partition" : "");
  e.dim = d;
  e.ntrees = PERCUBE[cls];
  for (int k = 0; k < d; ++k)
    e.ntrees *= n[k];
  for (int k = 0; k < d; ++k)
    if (per[k])
      e.lattice.push_back (A[k]);
  if (aligned)
    e.nv_attr = 2;
  static const int box[] = { VERTEX, LINE, QUAD, HEX };
  /* the images of the grid points */
  for (int z = 0; z <= (d > 2 ? n[2] : 0); ++z)
    for (int y = 0; y <= (d > 1 ? n[1] : 0); ++y)
      for (int x = 0; x <= (d > 0 ? n[0] : 0); ++x)
        e.grid.push_back (geo::linear_map (box[d], b, { d > 0 ? (double) x / n[0] : 0, d > 1 ? (double) y / n[1] : 0, d > 2 ? (double) z / n[2] : 0 }));
  if (d == 0)
    e.measure = 1;
  else if (!skew || anyper) {
    e.measure = d == 1 ? geo::norm (A[0]) : d == 2 ? geo::norm (geo::cross (A[0], A[1])) : geo::dot (geo::cross (A[0], A[1]), A[2]);
    if (!skew && d < 3)
      e.measure = d == 1 ? A[0][0] : A[0][0] * A[1][1];
  }
  const int p0 = per[0], p1 = per[1], p2 = per[2], n0 = n[0], n1 = n[1], n2 = n[2];
  if (anyper || c.chance (50))
    e.make = MK (t8_cmesh_new_hypercube_pad_ext (c, (t8_eclass_t) cls, comm, raw.data (), n0, n1, n2, p0, p1, p2, aligned, 0, 0));
  else
    e.make = MK (t8_cmesh_new_hypercube_pad (c, (t8_eclass_t) cls, comm, raw.data (), n0, n1, n2, aligned));
  e.dist = MK (t8_cmesh_new_hypercube_pad_ext (c, (t8_eclass_t) cls, comm, raw.data (), n0, n1, n2, p0, p1, p2, aligned, part, 0));
  e.partitioned = part;
  if (part && c.chance (25)) {
    /* with offset: all trees on one rank, numbering starts at 0 */
    e.dist = MK (t8_cmesh_new_hypercube_pad_ext (c, (t8_eclass_t) cls, comm, raw.data (), n0, n1, n2, p0, p1, p2, aligned, 1, 1));
    e.multi = false;
    e.name += " offset";
  }
  return e;
}

static Example
simple (Case &c)
{
  Example e;
  e.dim = 3;
  const V X = { 1, 0, 0 }, Y = { 0, 1, 0 }, Z = { 0, 0, 1 };
  const int k = (int) c.below (24);
  const int n = (int) c.range (1, 8);
  switch (k) {
  case 0: {
    const int cls = (int) c.below (NCLASS);
    static const double m[] = { 1, 1, 1, .5, 1, 1. / 3 /* a regular one */, .5, 1. / 3 };
    e = { vp::str ("class ", NAME[cls]), DIM[cls] };
    e.ntrees = 1;
    e.measure = m[cls];
    e.make = MK (t8_cmesh_new_from_class (c, (t8_eclass_t) cls, comm));
    break;
  }
  case 1:
    e.name = "hypercube-hybrid";
    e.ntrees = 16;
    e.measure = 1;
    e.make = MK (t8_cmesh_new_hypercube_hybrid (c, comm, 0));
    if (c.chance (50)) {
      e.name += " periodic";
      e.lattice = { X, Y, Z };
      e.make = MK (t8_cmesh_new_hypercube_hybrid (c, comm, 1));
    }
    break;
  case 2: {
    const int d = (int) c.range (1, 3);
    e.name = "periodic";
    e.dim = d;
    e.ntrees = 1;
    e.measure = 1;
    e.lattice = { X, Y, Z };
    e.lattice.resize (d);
    e.make = MK (t8_cmesh_new_periodic (c, comm, d));
    break;
  }
  case 3:
    e.name = "periodic-tri";
    e.dim = 2;
    e.ntrees = 2;
    e.measure = 1;
    e.lattice = { X, Y };
    e.make = MK (t8_cmesh_new_periodic_tri (c, comm));
    break;
  case 4:
    e.name = "periodic-hybrid";
    e.dim = 2;
    e.ntrees = 6;
    e.measure = 1;
    e.lattice = { X, Y };
    e.make = MK (t8_cmesh_new_periodic_hybrid (c, comm));
    break;
  case 5:
    e.name = "periodic-line";
    e.dim = 1;
    e.ntrees = 3;
    e.measure = 1;
    e.lattice = { X };
    e.make = MK (t8_cmesh_new_periodic_line_more_trees (c, comm));
    break;
  case 6: {
    const int cls = c.pick (std::vector<int> { LINE, QUAD, TRI, HEX, TET, PRISM, PYRA });
    e.name = vp::str ("bigmesh ", NAME[cls], " ", n);
    e.dim = DIM[cls];
    e.geom = false;
    e.ntrees = n;
    e.make = MK (t8_cmesh_new_bigmesh (c, (t8_eclass_t) cls, n, comm));
    break;
  }
  case 7:
    e.name = "line-zigzag";
    e.dim = 1;
    e.ntrees = 3;
    e.make = MK (t8_cmesh_new_line_zigzag (c, comm));
    break;
  case 8:
    e.name = vp::str ("prism-cake ", n + 2);
    e.ntrees = n + 2;
    e.measure = (n + 2) / 2.0 * std::sin (2 * M_PI / (n + 2));
    e.make = MK (t8_cmesh_new_prism_cake (c, comm, n + 2));
    break;
  case 9:
    e.name = "prism-deformed";
    e.ntrees = 1;
    e.make = MK (t8_cmesh_new_prism_deformed (c, comm));
    break;
  case 10:
    e.name = "pyramid-deformed";
    e.ntrees = 1;
    e.make = MK (t8_cmesh_new_pyramid_deformed (c, comm));
    break;
  case 11:
    e.name = "prism-cake-funny";
    e.ntrees = 6;
    e.measure = 3 * std::sin (M_PI / 3);
    e.make = MK (t8_cmesh_new_prism_cake_funny_oriented (c, comm));
    break;
  case 12:
    e.name = "prism-geometry";
    e.ntrees = 8;
    e.measure = 2 * std::sqrt (3.0); /* eight prisms of height one over regular triangles of edge length one */
    e.make = MK (t8_cmesh_new_prism_geometry (c, comm));
    break;
  case 13:
  case 14: {
    const int n0 = (int) c.range (1, 4), n1 = (int) c.range (1, 4), n2 = (int) c.range (1, 3), p0 = c.chance (40), p1 = c.chance (40), p2 = c.chance (40);
    e.dim = k == 13 ? 2 : 3;
    e.name = vp::str ("brick ", n0, "x", n1, "x", n2, " ", p0, p1, p2);
    e.ntrees = n0 * n1 * (k == 13 ? 1 : n2);
    e.measure = (double) e.ntrees;
    if (p0)
      e.lattice.push_back ((double) n0 * X);
    if (p1)
      e.lattice.push_back ((double) n1 * Y);
    if (p2 && k == 14)
      e.lattice.push_back ((double) n2 * Z);
    if (k == 13)
      e.make = MK (t8_cmesh_new_brick_2d (c, n0, n1, p0, p1, comm));
    else
      e.make = MK (t8_cmesh_new_brick_3d (c, n0, n1, n2, p0, p1, p2, comm));
    break;
  }
  case 15:
    e.name = "tet-orientation";
    e.ntrees = 24;
    e.geom = true;
    e.conforming = false;
    e.make = MK (t8_cmesh_new_tet_orientation_test (c, comm));
    break;
  case 16:
    e.name = "hybrid-gate";
    e.ntrees = 5;
    e.measure = 1 + .86 + .86 / 3; /* cube, two prisms, two tetrahedra over triangles of area 0.43 */
    e.make = MK (t8_cmesh_new_hybrid_gate (c, comm));
    break;
  case 17:
    e.name = "hybrid-gate-deformed";
    e.ntrees = 5;
    e.make = MK (t8_cmesh_new_hybrid_gate_deformed (c, comm));
    break;
  case 18:
    e.name = "full-hybrid";
    e.ntrees = 4;
    e.measure = 1 + 1. / 3 + 1. / 6 + 1. / 2;
    e.make = MK (t8_cmesh_new_full_hybrid (c, comm));
    break;
  case 19:
    e.name = vp::str ("pyramid-cake ", n + 2);
    e.ntrees = n + 2;
    e.measure = (n + 2) * (1. / 3) * 2 * std::sin (M_PI / (n + 2)) * std::cos (M_PI / (n + 2));
    e.make = MK (t8_cmesh_new_pyramid_cake (c, comm, n + 2));
    break;
  case 20:
    e.name = vp::str ("long-brick-pyramid ", n);
    e.ntrees = 3 * n;
    e.measure = n;
    e.make = MK (t8_cmesh_new_long_brick_pyramid (c, comm, n));
    break;
  case 21: {
    const int a = c.chance (50), p = c.chance (70);
    e.name = vp::str ("row-of-cubes ", n, a ? " attributes" : "", p ? " partition" : "");
    e.ntrees = n;
    e.measure = n;
    e.make = MK (t8_cmesh_new_row_of_cubes (c, n, a, 0, comm, pkg));
    e.row_attr = a;
    e.dist = MK (t8_cmesh_new_row_of_cubes (c, n, a, p, comm, pkg));
    e.partitioned = p;
    break;
  }
  case 22: {
    const int n0 = (int) c.range (1, 4), n1 = (int) c.range (1, 4), p0 = c.chance (40), p1 = c.chance (40), w = (int) c.below (5), p = c.chance (60);
    e.dim = 2;
    auto conn = [=] () {
      return w == 0 ? p4est_connectivity_new_moebius () : w == 1 ? p4est_connectivity_new_star () : w == 2 ? p4est_connectivity_new_pillow ()
             : w == 3 ? p4est_connectivity_new_periodic () : p4est_connectivity_new_brick (n0, n1, p0, p1);
    };
    static const int cnt[] = { 5, 6, 2, 1 };
    e.name = vp::str ("p4est ", w, " ", n0, "x", n1, p0, p1);
    e.ntrees = w < 4 ? cnt[w] : n0 * n1;
    e.conforming = w != 2 && w != 0;
    e.upright = false;
    if (w == 3)
      e.lattice = { X, Y };
    if (w == 4) {
      e.measure = n0 * n1;
      if (p0)
        e.lattice.push_back ((double) n0 * X);
      if (p1)
        e.lattice.push_back ((double) n1 * Y);
    }
    auto mk = [=] (sc_MPI_Comm comm, int part) {
      p4est_connectivity_t *k = conn ();
      t8_cmesh_t c = fresh ();
      t8_cmesh_new_from_p4est (c, k, comm, part);
      p4est_connectivity_destroy (k);
      return c;
    };
    e.make = [=] (sc_MPI_Comm comm) { return mk (comm, 0); };
    e.dist = [=] (sc_MPI_Comm comm) { return mk (comm, p); };
    e.partitioned = p;
    break;
  }
  default: {
    const int n0 = (int) c.range (1, 3), n1 = (int) c.range (1, 3), n2 = (int) c.range (1, 3), p0 = c.chance (40), p1 = c.chance (40),
              p2 = c.chance (40), w = (int) c.below (4), p = c.chance (60);
    auto conn = [=] () {
      return w == 0 ? p8est_connectivity_new_twocubes () : w == 1 ? p8est_connectivity_new_rotcubes () : w == 2 ? p8est_connectivity_new_rotwrap ()
                                                                                                       : p8est_connectivity_new_brick (n0, n1, n2, p0, p1, p2);
    };
    static const int cnt[] = { 2, 6, 1 };
    e.name = vp::str ("p8est ", w, " ", n0, "x", n1, "x", n2, p0, p1, p2);
    e.ntrees = w < 3 ? cnt[w] : n0 * n1 * n2;
    e.conforming = w != 2;
    e.upright = w >= 2;
    if (w == 3) {
      e.measure = n0 * n1 * n2;
      if (p0)
        e.lattice.push_back ((double) n0 * X);
      if (p1)
        e.lattice.push_back ((double) n1 * Y);
      if (p2)
        e.lattice.push_back ((double) n2 * Z);
    }
    auto mk = [=] (sc_MPI_Comm comm, int part) {
      p8est_connectivity_t *k = conn ();
      t8_cmesh_t c = fresh ();
      t8_cmesh_new_from_p8est (c, k, comm, part);
      p8est_connectivity_destroy (k);
      return c;
    };
    e.make = [=] (sc_MPI_Comm comm) { return mk (comm, 0); };
    e.dist = [=] (sc_MPI_Comm comm) { return mk (comm, p); };
    e.partitioned = p;
    break;
  }
  }
  return e;
}

static Example
curved (Case &c)
{
  Example e;
  const double r = c.chance (25) ? 1 : c.real (0.2, 30), th = c.chance (25) ? 0.5 : c.real (0.1, 3) * r;
  const int nl = (int) c.range (1, 4), lv = (int) c.below (2), nt = (int) c.range (1, 3);
  e.r0 = r;
  switch (c.below (8)) {
  case 0:
    e.name = "disk";
    e.curve = DISK;
    e.ntrees = 12;
    e.make = MK (t8_cmesh_new_quadrangulated_disk (c, r, comm));
    break;
  case 1:
    e.name = "octahedron";
    e.curve = SPHERE;
    e.ntrees = 8;
    e.make = MK (t8_cmesh_new_triangulated_spherical_surface_octahedron (c, r, comm));
    break;
  case 2:
    e.name = "icosahedron";
    e.curve = SPHERE;
    e.ntrees = 20;
    e.make = MK (t8_cmesh_new_triangulated_spherical_surface_icosahedron (c, r, comm));
    break;
  case 3:
    e.name = "cube-tri-surface";
    e.curve = SPHERE;
    e.ntrees = 24;
    e.make = MK (t8_cmesh_new_triangulated_spherical_surface_cube (c, r, comm));
    break;
  case 4:
    e.name = "cube-quad-surface";
    e.curve = SPHERE;
    e.ntrees = 6;
    e.make = MK (t8_cmesh_new_quadrangulated_spherical_surface (c, r, comm));
    break;
  case 5: {
    const bool ico = c.chance (40);
    e.name = vp::str (ico ? "shell-ico " : "shell-octa ", lv, " ", nl);
    e.curve = SHELL;
    e.thick = th;
    e.layers = nl;
    e.ntrees = (ico ? 20 : 8) * (lv ? 4 : 1) * nl;
    if (ico)
      e.make = MK (t8_cmesh_new_prismed_spherical_shell_icosahedron (c, r, th, lv, nl, comm));
    else
      e.make = MK (t8_cmesh_new_prismed_spherical_shell_octahedron (c, r, th, lv, nl, comm));
    break;
  }
  case 6:
    e.name = vp::str ("shell-cube ", nt, " ", nl);
    e.curve = SHELL;
    e.thick = th;
    e.layers = nl;
    e.ntrees = 6 * nt * nt * nl;
    e.make = MK (t8_cmesh_new_cubed_spherical_shell (c, r, th, nt, nl, comm));
    break;
  default:
    e.name = "ball";
    e.curve = BALL;
    e.ntrees = 32;
    e.make = MK (t8_cmesh_new_cubed_sphere (c, r, comm));
    break;
  }
  e.dim = e.curve == DISK || e.curve == SPHERE ? 2 : 3;
  e.name += vp::str (" r=", r, e.thick > 0 ? vp::str (" t=", th) : "");
  return e;
}

/* ------------------------------------------------------------------ checks */
static std::vector<V>
evaluate (t8_cmesh_t cm, long tree, int cls, const std::vector<V> &x)
{
  std::vector<double> in, out (3 * x.size () + 1);
  for (auto &p : x)
    in.insert (in.end (), p.begin (), p.begin () + DIM[cls]);
  in.push_back (0);
  t8_geometry_evaluate (cm, tree, in.data (), x.size (), out.data ());
  std::vector<V> r;
  for (size_t i = 0; i < x.size (); ++i)
    r.push_back ({ out[3 * i], out[3 * i + 1], out[3 * i + 2] });
  return r;
}
static V
refv (int cls, int i)
{
  return { (double) RV[cls][i][0], (double) RV[cls][i][1], (double) RV[cls][i][2] };
}
/* point of a face given by weights of its vertices in the reference space of the tree; perm: position of weight i */
static V
face_point (int cls, int f, const std::vector<double> &w, const std::vector<int> *perm)
{
  V x = { 0, 0, 0 };
  for (size_t i = 0; i < w.size (); ++i)
    x = x + w[i] * refv (cls, FV[cls][f][perm ? (*perm)[i] : i]);
  return x;
}
/* smallest distance of d to a combination of lattice vectors with coefficients -1, 0, 1 */
static double
lattice_dist (const V &d, const std::vector<V> &L)
{
  double best = geo::norm (d);
  int n = 1;
  for (size_t i = 0; i < L.size (); ++i)
    n *= 3;
  for (int q = 0; q < n; ++q) {
    V x = d;
    int r = q;
    for (auto &l : L) {
      x = x + (double) (r % 3 - 1) * l;
      r /= 3;
    }
    best = std::min (best, geo::norm (x));
  }
  return best;
}

static void
check_topology (const Example &e, const cm::Facts &F)
{
  VP_REQUIRE (F.num == e.ntrees, "mesh has ", F.num, " trees instead of ", e.ntrees);
  VP_REQUIRE (F.dim == e.dim, "mesh has dimension ", F.dim);
  for (size_t t = 0; t < F.t.size (); ++t)
    for (int f = 0; f < NF[F.t[t].cls]; ++f) {
      VP_REQUIRE (F.t[t].seen, "tree ", t, " is on no rank");
      const Nb &n = F.t[t].nb[f];
      if (n.tree < 0)
        continue;
      VP_REQUIRE (n.tree < F.num && n.face >= 0 && n.face < NF[F.t[n.tree].cls], "neighbour of tree ", t, " at face ", f, " is ", n.tree, ".", n.face);
      const Nb &b = F.t[n.tree].nb[n.face];
      VP_REQUIRE (b.tree == (int) t && b.face == f && b.o == n.o, "gluing ", t, ".", f, " to ", n.tree, ".", n.face, "/", n.o, " is not mutual: ", b.tree,
                  ".", b.face, "/", b.o);
      const int s = face_shape (F.t[t].cls, f);
      VP_REQUIRE (s == face_shape (F.t[n.tree].cls, n.face), "faces of different shape are glued: ", t, ".", f, " and ", n.tree, ".", n.face);
      VP_REQUIRE (n.o >= 0 && n.o < std::max (1, (int) FV[F.t[t].cls][f].size ()), "orientation ", n.o);
    }
}

/* glued faces are the same points, unglued faces are alone */
static void
check_conforming (Case &c, const Example &e, const cm::Facts &F, t8_cmesh_t cm)
{
  double size = 0;
  std::vector<std::vector<V>> corner (F.t.size ());
  for (size_t t = 0; t < F.t.size (); ++t) {
    std::vector<V> x;
    for (int i = 0; i < NV[F.t[t].cls]; ++i)
      x.push_back (refv (F.t[t].cls, i));
    corner[t] = evaluate (cm, (long) t, F.t[t].cls, x);
    for (auto &p : corner[t])
      size = std::max (size, geo::norm (p - corner[0][0]));
  }
  const double tol = 1e-9 * (size + geo::norm (corner[0][0]));
  std::vector<std::pair<V, std::pair<int, int>>> open;
  for (size_t t = 0; t < F.t.size (); ++t)
    for (int f = 0; f < NF[F.t[t].cls]; ++f) {
      const Nb &n = F.t[t].nb[f];
      const auto &fv = FV[F.t[t].cls][f];
      if (n.tree < 0) {
        V m = { 0, 0, 0 };
        for (int i : fv)
          m = m + (1.0 / fv.size ()) * corner[t][i];
        open.push_back ({ m, { (int) t, f } });
        continue;
      }
      if (n.tree < (int) t || (n.tree == (int) t && n.face < f))
        continue;
      const auto g = glue_map (F.t[t].cls, f, F.t[n.tree].cls, n.face, n.o);
      std::vector<V> xa, xb;
      for (int q = 0; q < 2 + (int) fv.size (); ++q) {
        std::vector<double> w (fv.size (), 0.0);
        if (q < (int) fv.size ())
          w[q] = 1;
        else {
          /* interior points; quads need bilinear weights */
          const double a = c.real (0.02, 0.98), b = c.real (0.02, 0.98);
          if (fv.size () == 1)
            w = { 1 };
          else if (fv.size () == 2)
            w = { 1 - a, a };
          else if (fv.size () == 3)
            w = { (1 - a) * (1 - b), a * (1 - b), b };
          else
            w = { (1 - a) * (1 - b), a * (1 - b), (1 - a) * b, a * b };
        }
        xa.push_back (face_point (F.t[t].cls, f, w, nullptr));
        xb.push_back (face_point (F.t[n.tree].cls, n.face, w, &g));
      }
      const auto pa = evaluate (cm, (long) t, F.t[t].cls, xa), pb = evaluate (cm, n.tree, F.t[n.tree].cls, xb);
      for (size_t i = 0; i < pa.size (); ++i)
        VP_REQUIRE (lattice_dist (pa[i] - pb[i], e.lattice) < tol, "face ", f, " of tree ", t, " (", NAME[F.t[t].cls], ") is glued to face ", n.face,
                    " of tree ", n.tree, " (", NAME[F.t[n.tree].cls], ") with orientation ", n.o, " but point ", geo::show (pa[i]), " meets ",
                    geo::show (pb[i]));
    }
  for (size_t i = 0; i < open.size (); ++i)
    for (size_t j = i + 1; j < open.size (); ++j) {
      /* compare the corner sets */
      auto [t, f] = open[i].second;
      auto [u, h] = open[j].second;
      if (FV[F.t[t].cls][f].size () != FV[F.t[u].cls][h].size () || lattice_dist (open[i].first - open[j].first, e.lattice) > 1e-6 * size)
        continue;
      bool all = true;
      for (int a : FV[F.t[t].cls][f]) {
        bool hit = false;
        for (int b : FV[F.t[u].cls][h])
          hit |= lattice_dist (corner[t][a] - corner[u][b], e.lattice) < 1e-6 * size;
        all &= hit;
      }
      VP_REQUIRE (!all, "face ", f, " of tree ", t, " and face ", h, " of tree ", u, " coincide but are not glued");
    }
}

static double
signed_volume (int cls, const std::vector<V> &v)
{
  double m = geo::measure (cls, v);
  if (DIM[cls] < 3)
    return m;
  static const int spine[NCLASS][4] = { {}, {}, {}, {}, { 0, 1, 2, 4 }, { 0, 1, 2, 3 }, { 0, 1, 2, 3 }, { 0, 1, 2, 4 } };
  const auto &s = spine[cls];
  double d = geo::dot (geo::cross (v[s[1]] - v[s[0]], v[s[2]] - v[s[0]]), v[s[3]] - v[s[0]]);
  /* the reference tetrahedron is (0,0,0) (1,0,0) (1,0,1) (1,1,1): determinant of its edges is negative in this order */
  double rd = 0;
  {
    V r[4];
    for (int i = 0; i < 4; ++i)
      r[i] = refv (cls, s[i]);
    rd = geo::dot (geo::cross (r[1] - r[0], r[2] - r[0]), r[3] - r[0]);
  }
  return d * rd > 0 ? m : -m;
}

/* ------------------------------------------------------------------ disjoint blocks */
/* every rank contributes its own box of trees; the mesh is their disjoint union in rank order */
static void
blocks (Case &c)
{
  struct Block
  {
    int n[3], per[3];
  };
  const bool bricks = c.chance (50);
  static const std::vector<int> classes = { LINE, QUAD, TRI, HEX, TET, PRISM };
  const int cls = bricks ? (c.chance (50) ? QUAD : HEX) : c.pick (classes), d = DIM[cls];
  vmpi::Options opt;
  opt.nranks = (int) c.range (1, 5);
  opt.sched_seed = c.bits ();
  std::vector<Block> bl (opt.nranks);
  std::string name = vp::str (bricks ? "disjoint-bricks " : "pad-offset ", NAME[cls]);
  int used = 0;
  for (int r = 0; r < opt.nranks; ++r) {
    const bool none = bricks && r + 1 < opt.nranks && c.chance (20);
    for (int k = 0; k < 3; ++k) {
      bl[r].n[k] = k < d ? (int) c.range (1, 3) : 0;
      bl[r].per[k] = k < d && c.chance (30);
    }
    if (none)
      bl[r].n[c.below (2)] = 0;
    used += !none;
    name += vp::str (" ", bl[r].n[0], "x", bl[r].n[1], "x", bl[r].n[2], "/", bl[r].per[0], bl[r].per[1], bl[r].per[2]);
  }
  c.describe (name);
  c.describe (vp::str ("ranks=", opt.nranks));
  std::vector<cm::Facts> own (opt.nranks);
  cm::Facts D;
  std::vector<t8_gloidx_t> cnt (opt.nranks, 0);
  std::vector<double> raw;
  for (int i = 0; i < (1 << d); ++i)
    for (int k = 0; k < 3; ++k)
      raw.push_back (k < d && (i >> k & 1) ? 1 + k : 0.0);
  vp_run_ranks (opt, [&] (int rank) {
    const Block b = bl[rank];
    const bool none = b.n[0] * b.n[1] == 0 && d > 1;
    /* the block on its own */
    if (!none) {
      t8_cmesh_t cm = fresh ();
      if (bricks && d == 2)
        t8_cmesh_new_brick_2d (cm, b.n[0], b.n[1], b.per[0], b.per[1], sc_MPI_COMM_SELF);
      else if (bricks)
        t8_cmesh_new_brick_3d (cm, b.n[0], b.n[1], b.n[2], b.per[0], b.per[1], b.per[2], sc_MPI_COMM_SELF);
      else
        t8_cmesh_new_hypercube_pad_ext (cm, (t8_eclass_t) cls, sc_MPI_COMM_SELF, raw.data (), b.n[0], b.n[1], b.n[2], b.per[0], b.per[1], b.per[2], 0, 0, 0);
      cm::gather (cm, own[rank], true);
      cnt[rank] = own[rank].num;
      t8_cmesh_unref (&cm);
    }
    vmpi::sync ();
    t8_gloidx_t off = 0;
    for (int r = 0; r < rank; ++r)
      off += cnt[r];
    t8_cmesh_t dm = fresh ();
    if (bricks)
      t8_cmesh_new_disjoint_bricks (dm, b.n[0], b.n[1], b.n[2], b.per[0], b.per[1], b.per[2], sc_MPI_COMM_WORLD);
    else
      t8_cmesh_new_hypercube_pad_ext (dm, (t8_eclass_t) cls, sc_MPI_COMM_WORLD, raw.data (), b.n[0], b.n[1], b.n[2], b.per[0], b.per[1], b.per[2], 0, 1,
                                      off + 1);
    VP_REQUIRE (t8_cmesh_get_num_local_trees (dm) == cnt[rank], "rank ", rank, " has ", t8_cmesh_get_num_local_trees (dm), " trees instead of ", cnt[rank]);
    if (cnt[rank] > 0)
      VP_REQUIRE (t8_cmesh_get_first_treeid (dm) == off, "trees of rank ", rank, " start at ", t8_cmesh_get_first_treeid (dm), " instead of ", off);
    VP_REQUIRE (t8_cmesh_is_partitioned (dm), "the mesh is not partitioned");
    cm::gather (dm, D, true);
    vmpi::sync ();
    t8_cmesh_unref (&dm);
  });
  cm::Facts W;
  W.num = 0;
  W.dim = d;
  for (int r = 0; r < opt.nranks; ++r) {
    const int off = (int) W.num;
    for (auto t : own[r].t) {
      for (auto &n : t.nb)
        if (n.tree >= 0)
          n.tree += off;
      W.t.push_back (t);
    }
    W.num += cnt[r];
  }
  cm::compare (W, D, "disjoint blocks");
  c.label (bricks ? "disjoint-bricks" : "pad-offset");
  if (used < opt.nranks)
    c.label ("rank without trees");
  c.nontrivial (opt.nranks > 1);
}

static void
c05 (Case &c)
{
  static bool init = false;
  if (!init)
    p4est_init (nullptr, SC_LP_ERROR), pkg = sc_package_register (nullptr, SC_LP_ERROR, "vp", "harness");
  init = true;
  Example e;
  switch (c.weighted ({ 3, 5, 6, 2 })) {
  case 3:
    blocks (c);
    return;
  case 0:
    e = hypercube (c);
    break;
  case 1:
    e = pad (c);
    break;
  default:
    e = simple (c);
  }
  vmpi::Options opt;
  opt.nranks = e.dist && e.multi && c.chance (60) ? (int) c.range (2, 6) : 1;
  opt.sched_seed = opt.nranks > 1 ? c.bits () : 0;
  c.describe (e.name);
  c.describe (vp::str ("ranks=", opt.nranks));
  cm::Facts F, D;
  std::vector<t8_gloidx_t> first (opt.nranks), cnt (opt.nranks);
  vp_run_ranks (opt, [&] (int rank) {
    t8_cmesh_t cm = e.make (sc_MPI_COMM_WORLD);
    cm::gather (cm, F, e.geom, e.nv_attr);
    VP_REQUIRE (!t8_cmesh_is_partitioned (cm), "mesh is partitioned");
    VP_REQUIRE (t8_cmesh_get_num_local_trees (cm) == F.num, "replicated mesh has ", t8_cmesh_get_num_local_trees (cm), " local trees");
    vmpi::sync ();
    if (rank == 0) {
      check_topology (e, F);
      if (e.geom) {
        if (e.conforming)
          check_conforming (c, e, F, cm);
        double total = 0;
        for (size_t t = 0; t < F.t.size (); ++t) {
          const int cls = F.t[t].cls;
          std::vector<V> x;
          for (int i = 0; i < NV[cls]; ++i)
            x.push_back (refv (cls, i));
          const auto v = evaluate (cm, (long) t, cls, x);
          const double m = DIM[cls] == 0 ? 1 : signed_volume (cls, v);
          VP_REQUIRE (!e.upright || m > 0, "tree ", t, " has volume ", m);
          total += std::fabs (m);
          if (!e.grid.empty ())
            for (auto &p : v) {
              double best = 1e300;
              for (auto &q : e.grid)
                best = std::min (best, geo::norm (p - q));
              VP_REQUIRE (best < 1e-9 * (1 + geo::norm (p)), "vertex ", geo::show (p), " of tree ", t, " is no point of the grid");
            }
        }
        if (e.measure >= 0)
          VP_REQUIRE (std::fabs (total - e.measure) < 1e-9 * (1 + e.measure), "the trees have total measure ", total, " instead of ", e.measure);
      }
    }
    vmpi::sync ();
    t8_cmesh_unref (&cm);
    if (!e.dist)
      return;
    t8_cmesh_t d = e.dist (sc_MPI_COMM_WORLD);
    VP_REQUIRE ((t8_cmesh_is_partitioned (d) != 0) == e.partitioned, "partitioned is ", t8_cmesh_is_partitioned (d));
    cm::gather (d, D, e.geom, e.nv_attr);
    for (t8_locidx_t i = 0; e.row_attr && i < t8_cmesh_get_num_local_trees (d); ++i) {
      const t8_locidx_t *a = (const t8_locidx_t *) t8_cmesh_get_attribute (d, pkg, 0, i), *b = (const t8_locidx_t *) t8_cmesh_get_attribute (d, pkg, 1, i);
      VP_REQUIRE (a && b && *a == t8_cmesh_get_global_id (d, i) && *b == e.ntrees, "attributes of tree ", i);
    }
    first[rank] = t8_cmesh_get_first_treeid (d);
    cnt[rank] = t8_cmesh_get_num_local_trees (d);
    vmpi::sync ();
    if (rank == 0)
      cm::compare (F, D, "distributed mesh");
    if (e.geom && cnt[rank] > 0) {
      /* geometry is available for the local trees */
      const t8_gloidx_t g = first[rank] + (t8_gloidx_t) (rank % cnt[rank]);
      std::vector<V> x;
      for (int i = 0; i < NV[F.t[g].cls]; ++i)
        x.push_back (refv (F.t[g].cls, i));
      const auto v = evaluate (d, g, F.t[g].cls, x);
      if (e.nv_attr < 0)
        for (size_t i = 0; i < v.size (); ++i)
          VP_REQUIRE (geo::norm (v[i] - V { F.t[g].vert[3 * i], F.t[g].vert[3 * i + 1], F.t[g].vert[3 * i + 2] }) < 1e-12 * (1 + geo::norm (v[i])),
                      "corner ", i, " of tree ", g, " is evaluated to ", geo::show (v[i]));
    }
    vmpi::sync ();
    t8_cmesh_unref (&d);
  });
  if (e.dist && e.partitioned) {
    t8_gloidx_t at = 0;
    for (int r = 0; r < opt.nranks; ++r) {
      if (cnt[r] > 0)
        VP_REQUIRE (first[r] <= at && first[r] + cnt[r] >= at, "trees of rank ", r, " start at ", first[r]);
      if (cnt[r] > 0)
        at = first[r] + cnt[r];
    }
    VP_REQUIRE (at == F.num, "the ranks hold trees up to ", at, " of ", F.num);
  }
  c.label (e.name.substr (0, e.name.find (' ')));
  if (opt.nranks > 1)
    c.label (e.partitioned ? "partitioned" : "replicated");
  if (!e.lattice.empty ())
    c.label ("periodic");
  c.nontrivial (e.ntrees > 1 || !e.lattice.empty ());
}
static vp::Register r05 ({ "C05", c05, 6000, 200000,
  "one generator of example meshes with random parameters, replicated and (where offered) broadcast or partitioned over up to 6 ranks; non-trivial = more than one tree or periodic",
  { "tolerance 1e-9 relative to the extent", "gluing of the meshes without geometric meaning (bigmesh, tet orientation test, moebius, pillow, rotwrap) is checked for consistency only" }, 20 });

/* ------------------------------------------------------------------ curved */
static const double GX[4] = { 0.06943184420297371, 0.33000947820757187, 0.6699905217924281, 0.9305681557970263 };
static const double GW[4] = { 0.17392742256872693, 0.3260725774312731, 0.3260725774312731, 0.17392742256872693 };

static void
g02_rank (Case &c)
{
  Example e = curved (c);
  c.describe (e.name);
  t8_cmesh_t cm = e.make (sc_MPI_COMM_WORLD);
  cm::Facts F;
  cm::gather (cm, F, true);
  check_topology (e, F);
  check_conforming (c, e, F, cm);
  const double R = e.r0 + e.thick;
  double total = 0;
  for (size_t t = 0; t < F.t.size (); ++t) {
    const int cls = F.t[t].cls, d = DIM[cls];
    /* quadrature points with differences */
    std::vector<V> x;
    std::vector<double> w;
    const double h = 1e-5;
    for (int i = 0; i < 4; ++i)
      for (int j = 0; j < 4; ++j)
        for (int k = 0; k < (d == 3 ? 4 : 1); ++k) {
          V p = { GX[i], GX[j], d == 3 ? GX[k] : 0 };
          double q = GW[i] * GW[j] * (d == 3 ? GW[k] : 1);
          if (cls == TRI || cls == PRISM) {
            /* y <= x */
            p[1] *= p[0];
            q *= p[0];
          }
          for (int a = 0; a < d; ++a)
            for (int s : { -1, 1 }) {
              V y = p;
              y[a] += s * h;
              x.push_back (y);
            }
          w.push_back (q);
        }
    const auto y = evaluate (cm, (long) t, cls, x);
    for (size_t i = 0; i < w.size (); ++i) {
      V D[3];
      for (int a = 0; a < d; ++a)
        D[a] = (1 / (2 * h)) * (y[2 * (i * d + a) + 1] - y[2 * (i * d + a)]);
      const double j = d == 2 ? geo::norm (geo::cross (D[0], D[1])) : geo::dot (geo::cross (D[0], D[1]), D[2]);
      VP_REQUIRE (j > 1e-6 * (d == 2 ? R * R : R * R * std::max (e.thick, e.r0) / F.num), "tree ", t, " is not mapped with positive volume: Jacobian ", j);
      total += w[i] * j;
    }
    /* radii of random points, single and in a batch */
    std::vector<V> b;
    for (int q = (int) c.range (1, 5); q > 0; --q) {
      V p = { 0, 0, 0 };
      for (int a = 0; a < d; ++a)
        p[a] = c.chance (20) ? (double) c.below (3) / 2 : c.real (0, 1);
      if (cls == TRI || cls == PRISM)
        if (p[1] > p[0])
          std::swap (p[0], p[1]);
      b.push_back (p);
    }
    const auto z = evaluate (cm, (long) t, cls, b);
    std::vector<V> corner;
    for (int i = 0; i < NV[cls]; ++i)
      corner.push_back ({ F.t[t].vert[3 * i], F.t[t].vert[3 * i + 1], F.t[t].vert[3 * i + 2] });
    for (size_t i = 0; i < b.size (); ++i) {
      const V one = evaluate (cm, (long) t, cls, { b[i] })[0];
      VP_REQUIRE (geo::norm (one - z[i]) < 1e-12 * R, "point ", geo::show (b[i]), " of tree ", t, " is mapped to ", geo::show (one), " alone and to ",
                  geo::show (z[i]), " as number ", i, " of ", b.size ());
      const double r = geo::norm (one);
      if (e.curve == SPHERE)
        VP_REQUIRE (std::fabs (r - e.r0) < 1e-10 * R, "point at radius ", r, " instead of ", e.r0);
      if (e.curve == SHELL) {
        /* the layer of the tree from its stored corners, radius is linear across it */
        const int half = NV[cls] / 2;
        double lo, hi;
        if (cls == PRISM) {
          lo = geo::norm (corner[0]);
          hi = geo::norm (corner[half]);
        }
        else {
          /* corners lie on cubes: the largest component is radius/sqrt(3) */
          auto cube = [] (const V &v) { return std::sqrt (3.0) * std::max ({ std::fabs (v[0]), std::fabs (v[1]), std::fabs (v[2]) }); };
          lo = cube (corner[0]);
          hi = cube (corner[half]);
        }
        VP_REQUIRE (std::fabs (hi - lo - e.thick / e.layers) < 1e-9 * R, "layer of tree ", t, " has thickness ", hi - lo);
        VP_REQUIRE (std::fabs (r - (lo + b[i][2] * (hi - lo))) < 1e-9 * R, "point ", geo::show (b[i]), " of tree ", t, " at radius ", r, ", layer from ", lo,
                    " to ", hi);
      }
      if (e.curve == DISK)
        VP_REQUIRE (r < e.r0 * (1 + 1e-12) && one[2] == 0, "point ", geo::show (one), " outside of the disk of radius ", e.r0);
      if (e.curve == BALL)
        VP_REQUIRE (r < e.r0 * (1 + 1e-12), "point ", geo::show (one), " outside of the ball of radius ", e.r0);
      if (e.curve == SPHERE && (cls == QUAD || F.num == 24)) {
        /* equal angles on the faces of the cube */
        const V lin = geo::linear_map (cls, corner, b[i]);
        int ax = 0;
        for (int a = 1; a < 3; ++a)
          if (std::fabs ((corner[0] + corner[1] + corner[2])[a]) > std::fabs ((corner[0] + corner[1] + corner[2])[ax]))
            ax = a;
        V q = lin;
        for (int a = 0; a < 3; ++a)
          if (a != ax)
            q[a] = std::fabs (lin[ax]) * std::tan (M_PI / 4 * lin[a] / std::fabs (lin[ax]));
        q = (e.r0 / geo::norm (q)) * q;
        VP_REQUIRE (geo::norm (q - one) < 1e-9 * R, "point ", geo::show (b[i]), " of tree ", t, " is mapped to ", geo::show (one), " instead of ",
                    geo::show (q));
      }
      else if (e.curve == SPHERE || (e.curve == SHELL && cls == PRISM)) {
        /* central projection */
        V q = geo::linear_map (cls, corner, b[i]);
        q = (r / geo::norm (q)) * q;
        VP_REQUIRE (geo::norm (q - one) < 1e-9 * R, "point ", geo::show (b[i]), " of tree ", t, " is mapped to ", geo::show (one), " instead of ",
                    geo::show (q));
      }
    }
    /* boundary of disk and ball */
    if (e.curve == DISK || e.curve == BALL)
      for (int f = 0; f < NF[cls]; ++f)
        if (F.t[t].nb[f].tree < 0) {
          V p = { 0, 0, 0 };
          for (int a = 0; a < d; ++a)
            p[a] = c.real (0, 1);
          p[f / 2] = f % 2;
          const double r = geo::norm (evaluate (cm, (long) t, cls, { p })[0]);
          VP_REQUIRE (std::fabs (r - e.r0) < 1e-10 * R, "boundary point ", geo::show (p), " of tree ", t, " at radius ", r);
        }
  }
  const double want = e.curve == SPHERE ? 4 * M_PI * R * R
                      : e.curve == DISK ? M_PI * R * R
                      : e.curve == BALL ? 4. / 3 * M_PI * R * R * R
                                        : 4. / 3 * M_PI * (R * R * R - e.r0 * e.r0 * e.r0);
  VP_REQUIRE (std::fabs (total - want) < 2e-3 * want, "the trees cover ", total, " instead of ", want);
  c.label (e.name.substr (0, e.name.find (' ')));
  c.nontrivial (true);
  t8_cmesh_unref (&cm);
}
static void
g02 (Case &c)
{
  vp_run_ranks (vmpi::Options {}, [&] (int) { g02_rank (c); });
}
static vp::Register r02 ({ "G02", g02, 5000, 75000,
  "one curved example mesh (disk, spheres, shells, ball) of random radius, thickness, layers and refinement; all trees checked at quadrature points, random points and all glued faces; every case is non-trivial",
  { "measures are compared with a tolerance of 0.2 percent, points with 1e-9 relative" }, 30 });
