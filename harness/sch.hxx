/* Access to scheme elements as exact reference cells. */
#pragma once
#include "ref.hxx"
#include <t8.h>
#include <t8_eclass/t8_eclass.h>
#include <t8_schemes/t8_default/t8_default.hxx>
#include <t8_schemes/t8_scheme.h>
#include <t8_schemes/t8_scheme.hxx>
#include <t8_schemes/t8_standalone/t8_standalone.hxx>

/* RAII element */
struct Elem
{
  const t8_scheme *s;
  t8_eclass_t c;
  t8_element_t *e = nullptr;
  Elem (const t8_scheme *s_, t8_eclass_t c_): s (s_), c (c_) { s->element_new (c, 1, &e); }
  Elem (const Elem &o): s (o.s), c (o.c)
  {
    s->element_new (c, 1, &e);
    s->element_copy (c, o.e, e);
  }
  Elem (Elem &&o) noexcept: s (o.s), c (o.c), e (o.e) { o.e = nullptr; }
  Elem &
  operator= (const Elem &o)
  {
    if (this != &o)
      s->element_copy (c, o.e, e);
    return *this;
  }
  ~Elem ()
  {
    if (e)
      s->element_destroy (c, 1, &e);
  }
  operator t8_element_t * () const { return e; }
};

const int REFBITS = 31;

inline ref::P
ref_point (const double *x, int dim)
{
  ref::P p = { { 0, 0, 0 } };
  for (int i = 0; i < dim; ++i) {
    const double y = std::ldexp (x[i], REFBITS);
    if (!(y == std::floor (y)) || !(std::fabs (y) <= std::ldexp (1.0, REFBITS + 1)))
      throw vp::Failure (vp::str ("reference coordinate ", x[i], " is not a vertex coordinate of the refinement"));
    p.x[i] = (ref::I) (int64_t) y;
  }
  return p;
}

inline ref::Cell
cell_of (const t8_scheme *s, t8_eclass_t c, const t8_element_t *e)
{
  ref::Cell r;
  r.shape = (int) s->element_get_shape (c, e);
  if (r.shape < 0 || r.shape >= ref::NCLASS || ref::DIM[r.shape] != ref::DIM[c])
    throw vp::Failure (vp::str ("invalid element shape ", r.shape));
  for (int v = 0; v < ref::NV[r.shape]; ++v) {
    double x[3] = { 0, 0, 0 };
    s->element_get_vertex_reference_coords (c, e, v, x);
    r.v.push_back (ref_point (x, ref::DIM[c]));
  }
  if (r.shape == ref::PYRA) {
    /* the scheme chooses which face of a pyramid gets which number; it must be a permutation of the five faces */
    r.own.resize (5);
    std::vector<std::vector<int>> want, got;
    for (int f = 0; f < 5; ++f) {
      for (size_t i = 0; i < ref::FV[ref::PYRA][f].size (); ++i)
        r.own[f].push_back (s->element_get_face_corner (c, e, f, (int) i));
      want.push_back (ref::FV[ref::PYRA][f]);
      got.push_back (r.own[f]);
      std::sort (got.back ().begin (), got.back ().end ());
    }
    std::sort (want.begin (), want.end ());
    std::sort (got.begin (), got.end ());
    if (want != got)
      throw vp::Failure ("the faces of a pyramid element are not the five faces of a pyramid");
  }
  return r;
}

inline ref::Cell
root_cell (int c)
{
  ref::Cell r;
  r.shape = c;
  for (int v = 0; v < ref::NV[c]; ++v) {
    ref::P p;
    for (int i = 0; i < 3; ++i)
      p.x[i] = (ref::I) ref::RV[c][v][i] << REFBITS;
    r.v.push_back (p);
  }
  return r;
}

/* The scheme interface, called through the C++ methods or through the C functions */
struct Api
{
  const t8_scheme *p = nullptr;
  bool c = false;
  Api () = default;
  Api (const t8_scheme *q, bool viac): p (q), c (viac) {}
  operator const t8_scheme * () const { return p; }
  const Api *operator->() const { return this; }
#define VP_API(m, f) \
  template <class... A> \
  auto m (t8_eclass_t ec, A &&...a) const \
  { \
    if (c) \
      return f (p, ec, std::forward<A> (a)...); \
    return (decltype (f (p, ec, std::forward<A> (a)...))) p->m (ec, std::forward<A> (a)...); \
  }
  VP_API (get_element_size, t8_element_get_element_size)
  VP_API (refines_irregular, t8_element_refines_irregular)
  VP_API (get_maxlevel, t8_element_get_maxlevel)
  VP_API (element_is_refinable, ::element_is_refinable)
  VP_API (get_max_num_children, t8_get_max_num_children)
  VP_API (elements_are_family, t8_elements_are_family)
  VP_API (element_construct_successor, t8_element_get_successor)
  VP_API (count_leaves_from_root, t8_element_count_leaves_from_root)
  VP_API (set_to_root, t8_element_set_to_root)
  VP_API (element_get_level, t8_element_get_level)
  VP_API (element_copy, t8_element_copy)
  VP_API (element_compare, t8_element_compare)
  VP_API (element_is_equal, t8_element_is_equal)
  VP_API (element_get_parent, t8_element_get_parent)
  VP_API (element_get_num_siblings, t8_element_get_num_siblings)
  VP_API (element_get_sibling, t8_element_get_sibling)
  VP_API (element_get_num_corners, t8_element_get_num_corners)
  VP_API (element_get_num_faces, t8_element_get_num_faces)
  VP_API (element_get_max_num_faces, t8_element_get_max_num_faces)
  VP_API (element_get_num_children, t8_element_get_num_children)
  VP_API (element_get_num_face_children, t8_element_get_num_face_children)
  VP_API (element_get_face_corner, t8_element_get_face_corner)
  VP_API (element_get_corner_face, t8_element_get_corner_face)
  VP_API (element_get_child, t8_element_get_child)
  VP_API (element_get_children, t8_element_get_children)
  VP_API (element_get_child_id, t8_element_get_child_id)
  VP_API (element_get_ancestor_id, t8_element_get_ancestor_id)
  VP_API (element_get_nca, t8_element_get_nca)
  VP_API (element_get_face_shape, t8_element_get_face_shape)
  VP_API (element_get_children_at_face, t8_element_get_children_at_face)
  VP_API (element_face_get_child_face, t8_element_face_get_child_face)
  VP_API (element_face_get_parent_face, t8_element_face_get_parent_face)
  VP_API (element_get_tree_face, t8_element_get_tree_face)
  VP_API (element_transform_face, t8_element_transform_face)
  VP_API (element_extrude_face, t8_element_extrude_face)
  VP_API (element_get_boundary_face, t8_element_get_boundary_face)
  VP_API (element_get_first_descendant_face, t8_element_get_first_descendant_face)
  VP_API (element_get_last_descendant_face, t8_element_get_last_descendant_face)
  VP_API (element_is_root_boundary, t8_element_is_root_boundary)
  VP_API (element_get_face_neighbor_inside, t8_element_get_face_neighbor_inside)
  VP_API (element_get_shape, t8_element_get_shape)
  VP_API (element_set_linear_id, t8_element_set_linear_id)
  VP_API (element_get_linear_id, t8_element_get_linear_id)
  VP_API (element_get_first_descendant, t8_element_get_first_descendant)
  VP_API (element_get_last_descendant, t8_element_get_last_descendant)
  VP_API (element_get_vertex_reference_coords, t8_element_get_vertex_reference_coords)
  VP_API (element_get_reference_coords, t8_element_get_reference_coords)
  VP_API (element_count_leaves, t8_element_count_leaves)
  VP_API (element_to_string, t8_element_to_string)
  VP_API (element_new, t8_element_new)
  VP_API (element_init, t8_element_init)
  VP_API (element_deinit, t8_element_deinit)
  VP_API (element_destroy, t8_element_destroy)
  VP_API (element_MPI_Pack, t8_element_MPI_Pack)
  VP_API (element_MPI_Pack_size, t8_element_MPI_Pack_size)
  VP_API (element_MPI_Unpack, t8_element_MPI_Unpack)
#undef VP_API
#define VP_API(m) \
  template <class... A> \
  auto m (A &&...a) const \
  { \
    return p->m (std::forward<A> (a)...); \
  }
  VP_API (element_is_ancestor)
  VP_API (element_face_get_ancestor_face)
#undef VP_API
};

struct Scheme
{
  const t8_scheme *s;
  bool standalone;
  explicit Scheme (bool st): standalone (st) { s = st ? t8_scheme_new_standalone () : t8_scheme_new_default (); }
  Scheme (const Scheme &) = delete;
  ~Scheme () { s->unref (); }
};

/* a generated path of child ids from the root */
inline std::vector<int>
gen_path (vp::Case &c, const t8_scheme *s, t8_eclass_t ec, int level)
{
  std::vector<int> path;
  Elem e (s, ec);
  s->set_to_root (ec, e);
  const int mode = (int) c.weighted ({ 4, 2, 1, 1 });
  const int fixed = (int) c.below (10);
  for (int l = 0; l < level; ++l) {
    const int n = s->element_get_num_children (ec, e);
    if (n < 1 || n > 10)
      throw vp::Failure (vp::str ("element has ", n, " children"));
    int id;
    if (mode == 0)
      id = (int) c.below (n);
    else if (mode == 1)
      id = c.chance (15) ? (int) c.below (n) : fixed % n;
    else if (mode == 2)
      id = n - 1 - (c.chance (10) ? (int) c.below (n) : 0);
    else
      id = c.chance (10) ? (int) c.below (n) : 0;
    path.push_back (id);
    s->element_get_child (ec, e, id, e);
  }
  return path;
}

inline void
follow (const t8_scheme *s, t8_eclass_t ec, const std::vector<int> &path, t8_element_t *e, size_t upto = SIZE_MAX)
{
  s->set_to_root (ec, e);
  for (size_t i = 0; i < path.size () && i < upto; ++i)
    s->element_get_child (ec, e, path[i], e);
}

inline int
gen_level (vp::Case &c, int lo, int hi)
{
  if (hi < lo)
    return lo;
  switch (c.weighted ({ 5, 2, 2 })) {
  case 0:
    return (int) c.range (lo, std::min (hi, lo + 6));
  case 1:
    return (int) c.range (lo, hi);
  default:
    return (int) (hi - c.range (0, std::min (3, hi - lo)));
  }
}

inline std::string
path_str (const std::vector<int> &p)
{
  std::string s = "[";
  for (size_t i = 0; i < p.size (); ++i)
    s += (i ? " " : "") + std::to_string (p[i]);
  return s + "]";
}
