/* The tables that describe the reference cells of the element classes. */
#include <vp.hxx>
#include <t8.h>
#include <t8_eclass/t8_eclass.h>
#include <t8_element/t8_element.h>
#include <t8_element/t8_element_shape.h>
#include <t8_schemes/t8_scheme.hxx>
#include <t8_schemes/t8_default/t8_default.hxx>
#include <algorithm>
#include <array>
#include <cmath>
#include <cstring>
using vp::Case;
typedef std::set<int> Set;
typedef std::array<double, 3> P3;

/* the tables as C code sees them */
extern const int c_dim[8] asm ("t8_eclass_to_dimension");
extern const int c_faces[8] asm ("t8_eclass_num_faces");
extern const int c_maxfaces[4] asm ("t8_eclass_max_num_faces");
extern const int c_children[8] asm ("t8_eclass_max_num_children");
extern const int c_fv[8][6][4] asm ("t8_face_vertex_to_tree_vertex");
extern const int c_fe[8][6][4] asm ("t8_face_edge_to_tree_edge");
extern const int c_fn[8][6][4] asm ("t8_face_to_edge_neighbor");
extern const int c_ev[8][12][2] asm ("t8_edge_vertex_to_tree_vertex");
extern const int c_ef[8][12][2] asm ("t8_edge_to_face");
extern const int c_orient[8][6] asm ("t8_eclass_face_orientation");
extern const int c_normal[6][3] asm ("t8_reference_face_normal_tet");
extern const int c_vertices[8] asm ("t8_eclass_num_vertices");
extern const int c_edges[8] asm ("t8_eclass_num_edges");
extern const int c_vtktype[8] asm ("t8_eclass_vtk_type");
extern const int c_vtkt8[8][8] asm ("t8_eclass_vtk_to_t8_corner_number");
extern const int c_t8vtk[8][8] asm ("t8_eclass_t8_to_vtk_corner_number");
extern const int c_ftypes[8][6] asm ("t8_eclass_face_types");
extern const int c_count[8][8] asm ("t8_eclass_boundary_count");

/* the reference cells */
static const std::vector<std::vector<P3>> CELL = {
  { { 0, 0, 0 } },
  { { 0, 0, 0 }, { 1, 0, 0 } },
  { { 0, 0, 0 }, { 1, 0, 0 }, { 0, 1, 0 }, { 1, 1, 0 } },
  { { 0, 0, 0 }, { 1, 0, 0 }, { 1, 1, 0 } },
  { { 0, 0, 0 }, { 1, 0, 0 }, { 0, 1, 0 }, { 1, 1, 0 }, { 0, 0, 1 }, { 1, 0, 1 }, { 0, 1, 1 }, { 1, 1, 1 } },
  { { 0, 0, 0 }, { 1, 0, 0 }, { 1, 0, 1 }, { 1, 1, 1 } },
  { { 0, 0, 0 }, { 1, 0, 0 }, { 1, 1, 0 }, { 0, 0, 1 }, { 1, 0, 1 }, { 1, 1, 1 } },
  { { 0, 0, 0 }, { 1, 0, 0 }, { 0, 1, 0 }, { 1, 1, 0 }, { 1, 1, 1 } },
};
/* edges of the VTK cells in VTK's numbering */
static const std::vector<std::vector<std::pair<int, int>>> VTK_EDGES = {
  {},
  { { 0, 1 } },
  { { 0, 1 }, { 1, 2 }, { 2, 3 }, { 3, 0 } },
  { { 0, 1 }, { 1, 2 }, { 2, 0 } },
  { { 0, 1 }, { 1, 2 }, { 2, 3 }, { 3, 0 }, { 4, 5 }, { 5, 6 }, { 6, 7 }, { 7, 4 }, { 0, 4 }, { 1, 5 }, { 2, 6 }, { 3, 7 } },
  { { 0, 1 }, { 1, 2 }, { 2, 0 }, { 0, 3 }, { 1, 3 }, { 2, 3 } },
  { { 0, 1 }, { 1, 2 }, { 2, 0 }, { 3, 4 }, { 4, 5 }, { 5, 3 }, { 0, 3 }, { 1, 4 }, { 2, 5 } },
  { { 0, 1 }, { 1, 2 }, { 2, 3 }, { 3, 0 }, { 0, 4 }, { 1, 4 }, { 2, 4 }, { 3, 4 } },
};
static const int VTK_TYPE[8] = { 1, 3, 9, 5, 12, 10, 13, 14 };
static const int DIM[8] = { 0, 1, 2, 2, 3, 3, 3, 3 };

static P3
sub (const P3 &a, const P3 &b)
{
  return { a[0] - b[0], a[1] - b[1], a[2] - b[2] };
}
static P3
cross (const P3 &a, const P3 &b)
{
  return { a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0] };
}
static double
dot (const P3 &a, const P3 &b)
{
  return a[0] * b[0] + a[1] * b[1] + a[2] * b[2];
}

/* facets of the convex hull of the points (corner sets), found by trying all planes, lines or points */
static std::set<Set>
facets (const std::vector<P3> &v, int dim)
{
  std::set<Set> r;
  const int n = (int) v.size ();
  if (dim == 1) {
    r.insert ({ 0 });
    r.insert ({ 1 });
    return r;
  }
  for (int i = 0; i < n; ++i)
    for (int j = i + 1; j < n; ++j)
      for (int k = dim == 2 ? n - 1 : j + 1; k < n; ++k) {
        P3 nrm;
        if (dim == 2) {
          const P3 d = sub (v[j], v[i]), z = cross (sub (v[1], v[0]), sub (v[2], v[0])); /* normal of the plane of the cell */
          nrm = cross (d, z);
        }
        else
          nrm = cross (sub (v[j], v[i]), sub (v[k], v[i]));
        const double len = std::sqrt (dot (nrm, nrm));
        if (len < 1e-9)
          continue;
        Set on;
        int neg = 0, pos = 0;
        for (int l = 0; l < n; ++l) {
          const double s = dot (nrm, sub (v[l], v[i])) / len;
          if (std::fabs (s) < 1e-9)
            on.insert (l);
          else
            ++(s < 0 ? neg : pos);
        }
        if (!neg || !pos)
          r.insert (on);
      }
  return r;
}

static void
d05 (Case &c)
{
  const int ec = (int) c.below (8), dim = DIM[ec];
  const t8_eclass_t cls = (t8_eclass_t) ec;
  c.label (t8_eclass_to_string[ec]);
  /* a random orientation preserving affine image of the reference cell */
  std::vector<P3> v;
  double A[3][3], b[3];
  for (int tries = 0;; ++tries) {
    for (auto &r : A)
      for (double &x : r)
        x = c.real (-1, 1);
    for (double &x : b)
      x = c.real (-2, 2);
    const double det = dot ({ A[0][0], A[1][0], A[2][0] }, cross ({ A[0][1], A[1][1], A[2][1] }, { A[0][2], A[1][2], A[2][2] }));
    if (det > 0.05)
      break;
    if (tries > 20) {
      for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j)
          A[i][j] = i == j;
      break;
    }
  }
  VP_REQUIRE (t8_eclass_num_vertices[ec] == (int) CELL[ec].size () && t8_eclass_to_dimension[ec] == dim, "vertices or dimension");
  P3 mean = { 0, 0, 0 };
  for (size_t i = 0; i < CELL[ec].size (); ++i) {
    P3 q;
    for (int k = 0; k < 3; ++k) {
      VP_REQUIRE (t8_element_corner_ref_coords[ec][i][k] == CELL[ec][i][k], "reference coordinates of corner ", i);
      q[k] = b[k];
      for (int l = 0; l < 3; ++l)
        q[k] += A[k][l] * CELL[ec][i][l];
      mean[k] += CELL[ec][i][k] / CELL[ec].size ();
    }
    v.push_back (q);
  }
  for (int k = 0; k < 3; ++k)
    VP_REQUIRE (std::fabs (t8_element_centroid_ref_coords[ec][k] - mean[k]) < 1e-12, "reference centroid");
  c.desc = t8_eclass_to_string[ec];

  /* what the cell really is made of */
  const std::set<Set> F = dim ? facets (v, dim) : std::set<Set> ();
  std::set<Set> E;
  if (dim == 2)
    E = F;
  else if (dim == 3) {
    for (auto &f : F)
      for (auto &g : F)
        if (f != g) {
          Set e;
          std::set_intersection (f.begin (), f.end (), g.begin (), g.end (), std::inserter (e, e.end ()));
          if (e.size () == 2)
            E.insert (e);
        }
  }
  else if (dim == 1)
    E.insert ({ 0, 1 });
  const int nf = (int) F.size (), ne = (int) E.size (), nv = (int) v.size ();
  VP_REQUIRE (t8_eclass_num_faces[ec] == nf && t8_eclass_num_edges[ec] == ne, "number of faces or edges");
  VP_REQUIRE (t8_element_shape_num_faces (ec) == nf && t8_element_shape_num_vertices (ec) == nv, "counts of the element shape");
  VP_REQUIRE (t8_eclass_max_num_faces[dim] >= nf && t8_element_shape_max_num_faces (dim) == t8_eclass_max_num_faces[dim], "maximum number of faces");
  bool reached = false;
  for (int k = 0; k < 8; ++k)
    reached |= DIM[k] == dim && t8_eclass_num_faces[k] == t8_eclass_max_num_faces[dim];
  VP_REQUIRE (reached, "no class of dimension ", dim, " has the maximum number of faces");

  /* faces */
  std::vector<Set> face (nf);
  std::set<Set> seen;
  int tri = 0, quad = 0;
  for (int f = 0; f < nf; ++f) {
    const int ft = t8_eclass_face_types[ec][f];
    VP_REQUIRE (ft >= 0 && ft < 8 && DIM[ft] == dim - 1, "type of face ", f);
    for (int i = 0; i < t8_eclass_num_vertices[ft]; ++i)
      face[f].insert (t8_face_vertex_to_tree_vertex[ec][f][i]);
    VP_REQUIRE (F.count (face[f]) && (int) face[f].size () == t8_eclass_num_vertices[ft], "face ", f, " is not a face of the cell");
    VP_REQUIRE (seen.insert (face[f]).second, "face ", f, " appears twice");
    (ft == T8_ECLASS_TRIANGLE ? tri : quad)++;
    if (dim == 3) {
      const int *w = t8_face_vertex_to_tree_vertex[ec][f];
      P3 ctr = { 0, 0, 0 };
      for (auto &q : v)
        for (int k = 0; k < 3; ++k)
          ctr[k] += q[k] / nv;
      const bool inward = dot (cross (sub (v[w[1]], v[w[0]]), sub (v[w[2]], v[w[0]])), sub (ctr, v[w[0]])) > 0;
      VP_REQUIRE (t8_eclass_face_orientation[ec][f] == (inward ? 0 : 1), "orientation of face ", f);
      if (ft == T8_ECLASS_QUAD) {
        /* z-order: the first and last vertex are no edge, and neither are the two others */
        VP_REQUIRE (!E.count ({ w[0], w[3] }) && !E.count ({ w[1], w[2] }), "order of the vertices of face ", f);
      }
      if (cls == T8_ECLASS_TET) {
        P3 n;
        for (int k = 0; k < 3; ++k)
          n[k] = t8_reference_face_normal_tet[f][k];
        const P3 d1 = sub (CELL[ec][w[1]], CELL[ec][w[0]]), d2 = sub (CELL[ec][w[2]], CELL[ec][w[0]]);
        VP_REQUIRE (dot (n, n) > 0 && dot (n, d1) == 0 && dot (n, d2) == 0, "normal of face ", f, " of the tetrahedron");
      }
    }
    else
      VP_REQUIRE (t8_eclass_face_orientation[ec][f] == 0, "orientation of face ", f);
  }
  /* edges */
  if (dim >= 2 && cls != T8_ECLASS_PYRAMID) {
    std::vector<Set> edge (ne);
    seen.clear ();
    for (int e = 0; e < ne; ++e) {
      edge[e] = { t8_edge_vertex_to_tree_vertex[ec][e][0], t8_edge_vertex_to_tree_vertex[ec][e][1] };
      VP_REQUIRE (E.count (edge[e]) && seen.insert (edge[e]).second, "edge ", e, " is not an edge of the cell, or appears twice");
      Set have, want;
      for (int i = 0; i < dim - 1; ++i)
        have.insert (t8_edge_to_face[ec][e][i]);
      for (int f = 0; f < nf; ++f)
        if (std::includes (face[f].begin (), face[f].end (), edge[e].begin (), edge[e].end ()))
          want.insert (f);
      VP_REQUIRE (have == want, "faces at edge ", e);
    }
    for (int f = 0; f < nf; ++f) {
      Set have, want;
      for (int e = 0; e < ne; ++e)
        if (std::includes (face[f].begin (), face[f].end (), edge[e].begin (), edge[e].end ()))
          want.insert (e);
      for (size_t i = 0; i < want.size (); ++i)
        have.insert (t8_face_edge_to_tree_edge[ec][f][i]);
      VP_REQUIRE (have == want, "edges of face ", f);
      for (int i = 0; i < (int) face[f].size (); ++i) {
        const int w = t8_face_vertex_to_tree_vertex[ec][f][i], e = t8_face_to_edge_neighbor[ec][f][i];
        VP_REQUIRE (e >= 0 && e < ne && edge[e].count (w) && !want.count (e), "the edge leaving face ", f, " at vertex ", w, " is not edge ", e);
      }
    }
  }
  /* boundary counts */
  int want[8] = { 0 };
  if (dim >= 1)
    want[T8_ECLASS_VERTEX] = nv;
  if (dim >= 2)
    want[T8_ECLASS_LINE] = ne;
  if (dim == 3)
    want[T8_ECLASS_TRIANGLE] = tri, want[T8_ECLASS_QUAD] = quad;
  int got[8], sum = 0;
  const int mind = (int) c.range (0, 3);
  const int r = t8_eclass_count_boundary (cls, mind, got);
  for (int k = 0; k < 8; ++k) {
    VP_REQUIRE (t8_eclass_boundary_count[ec][k] == want[k], "number of boundary ", t8_eclass_to_string[k], "s");
    VP_REQUIRE (got[k] == (DIM[k] >= mind ? want[k] : 0), "number of boundary ", t8_eclass_to_string[k], "s from dimension ", mind);
    sum += got[k];
  }
  VP_REQUIRE (r == sum, "number of boundary objects");
  /* VTK */
  VP_REQUIRE (t8_eclass_vtk_type[ec] == VTK_TYPE[ec] && t8_element_shape_vtk_type (ec) == VTK_TYPE[ec], "VTK cell type");
  std::set<Set> ve;
  for (int i = 0; i < nv; ++i) {
    const int k = t8_eclass_t8_to_vtk_corner_number[ec][i];
    VP_REQUIRE (k >= 0 && k < nv && t8_eclass_vtk_to_t8_corner_number[ec][k] == i, "VTK number of corner ", i);
    VP_REQUIRE (t8_element_shape_t8_to_vtk_corner_number (ec, i) == k, "VTK number of corner ", i);
  }
  for (auto &e : VTK_EDGES[ec])
    ve.insert ({ t8_eclass_vtk_to_t8_corner_number[ec][e.first], t8_eclass_vtk_to_t8_corner_number[ec][e.second] });
  VP_REQUIRE (dim == 0 || ve == E, "the VTK numbering does not give the edges of the cell");
  if (cls == T8_ECLASS_TET || cls == T8_ECLASS_HEX || cls == T8_ECLASS_PYRAMID) {
    const int *w = t8_eclass_vtk_to_t8_corner_number[ec];
    const int top = 4 - (cls == T8_ECLASS_TET), side = cls == T8_ECLASS_TET ? 2 : 3;
    VP_REQUIRE (dot (cross (sub (v[w[1]], v[w[0]]), sub (v[w[side]], v[w[0]])), sub (v[w[top]], v[w[0]])) > 0, "the VTK numbering turns the cell inside out");
  }
  /* children */
  {
    static const t8_scheme *s = t8_scheme_new_default ();
    t8_element_t *e;
    s->element_new (cls, 1, &e);
    s->set_to_root (cls, e);
    VP_REQUIRE (t8_eclass_max_num_children[ec] == s->element_get_num_children (cls, e) && s->get_max_num_children (cls) == t8_eclass_max_num_children[ec],
                "number of children");
    s->element_destroy (cls, 1, &e);
  }
  /* the order of the classes */
  std::vector<int> same;
  for (int k = 0; k < 8; ++k)
    if (DIM[k] == dim)
      same.push_back (k);
  auto cmp = [] (int a, int d) { return t8_eclass_compare ((t8_eclass_t) a, (t8_eclass_t) d); };
  for (int a : same) {
    VP_REQUIRE ((cmp (ec, a) == 0) == (a == ec) && (cmp (ec, a) < 0) == (cmp (a, ec) > 0), "comparison with ", t8_eclass_to_string[a]);
    VP_REQUIRE (t8_element_shape_compare ((t8_element_shape_t) ec, (t8_element_shape_t) a) == cmp (ec, a), "comparison of shapes");
    for (int d : same)
      VP_REQUIRE (!(cmp (ec, a) < 0 && cmp (a, d) < 0) || cmp (ec, d) < 0, "comparisons contradict each other");
  }
  VP_REQUIRE (t8_eclass_is_valid (cls) && !t8_eclass_is_valid (T8_ECLASS_COUNT) && !t8_eclass_is_valid (T8_ECLASS_INVALID), "validity");
  for (int k = 0; k < 8; ++k)
    VP_REQUIRE ((strcmp (t8_eclass_to_string[k], t8_eclass_to_string[ec]) == 0) == (k == ec)
                  && !strcmp (t8_element_shape_to_string (k), t8_eclass_to_string[k]),
                "names of the classes");
  /* C and C++ see the same */
#define SAME(a, b) VP_REQUIRE (sizeof (a) == sizeof (b) && !memcmp (a, b, sizeof (a)), "tables " #a " of C and C++ differ")
  SAME (t8_eclass_to_dimension, c_dim);
  SAME (t8_eclass_num_faces, c_faces);
  SAME (t8_eclass_max_num_faces, c_maxfaces);
  SAME (t8_eclass_max_num_children, c_children);
  SAME (t8_face_vertex_to_tree_vertex, c_fv);
  SAME (t8_face_edge_to_tree_edge, c_fe);
  SAME (t8_face_to_edge_neighbor, c_fn);
  SAME (t8_edge_vertex_to_tree_vertex, c_ev);
  SAME (t8_edge_to_face, c_ef);
  SAME (t8_eclass_face_orientation, c_orient);
  SAME (t8_reference_face_normal_tet, c_normal);
  SAME (t8_eclass_num_vertices, c_vertices);
  SAME (t8_eclass_num_edges, c_edges);
  SAME (t8_eclass_vtk_type, c_vtktype);
  SAME (t8_eclass_vtk_to_t8_corner_number, c_vtkt8);
  SAME (t8_eclass_t8_to_vtk_corner_number, c_t8vtk);
  SAME (t8_eclass_face_types, c_ftypes);
  SAME (t8_eclass_boundary_count, c_count);
  if (dim >= 2)
    c.nontrivial ();
}
static vp::Register r05 ({ "D05", d05, 3000000, 40000000,
  "random affine images of the reference cells; faces and edges are found by convex hulls of the corners and compared with every table; non-trivial = a cell with edges",
  { "the edge tables of pyramids are not filled in by the library and not checked" }, 20 });
