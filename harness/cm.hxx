/* Facts of coarse meshes as seen through the public queries, gathered over all ranks. */
#pragma once
#include "fmodel.hxx"
#include "geo.hxx"
#include <t8_geometry/t8_geometry.h>

namespace cm
{
using namespace ref;
using fm::Nb;
using geo::V;

struct TreeFacts
{
  int seen = 0;
  int cls = -1;
  std::vector<Nb> nb; /* global tree ids */
  std::vector<double> vert;
};
struct Facts
{
  t8_gloidx_t num = -1;
  int dim = -1;
  std::vector<TreeFacts> t;
};

inline bool
same (const TreeFacts &a, const TreeFacts &b, std::string &why)
{
  if (a.cls != b.cls) {
    why = vp::str ("class ", a.cls, " and ", b.cls);
    return false;
  }
  for (size_t f = 0; f < a.nb.size (); ++f)
    if (a.nb[f].tree != b.nb[f].tree || a.nb[f].face != b.nb[f].face || a.nb[f].o != b.nb[f].o) {
      why = vp::str ("face ", f, " is glued to ", a.nb[f].tree, ".", a.nb[f].face, "/", a.nb[f].o, " and ", b.nb[f].tree, ".", b.nb[f].face, "/",
                     b.nb[f].o);
      return false;
    }
  if (a.vert != b.vert) {
    why = "different vertices";
    return false;
  }
  return true;
}

/* facts of one local tree */
inline TreeFacts
tree_facts (t8_cmesh_t c, t8_locidx_t lt, bool geom, int nv_attr = -1)
{
  TreeFacts f;
  f.cls = (int) t8_cmesh_get_tree_class (c, lt);
  VP_REQUIRE (f.cls >= 0 && f.cls < NCLASS, "class of tree ", lt);
  for (int i = 0; i < NF[f.cls]; ++i) {
    int df = -7, o = -7;
    const t8_locidx_t u = t8_cmesh_get_face_neighbor (c, lt, i, &df, &o);
    Nb n;
    if (u >= 0) {
      n.tree = (int) t8_cmesh_get_global_id (c, u);
      n.face = df;
      n.o = o;
      VP_REQUIRE (!t8_cmesh_tree_face_is_boundary (c, lt, i) || (n.tree == (int) t8_cmesh_get_global_id (c, lt) && df == i), "face ", i, " of tree ",
                  lt, " is reported as boundary but has a neighbour");
      const int ec = (int) t8_cmesh_get_tree_face_neighbor_eclass (c, lt, i);
      const int want = t8_cmesh_treeid_is_ghost (c, u) ? (int) t8_cmesh_get_ghost_class (c, t8_cmesh_ltreeid_to_ghostid (c, u))
                                                       : (int) t8_cmesh_get_tree_class (c, u);
      VP_REQUIRE (ec == want, "class of the neighbour of tree ", lt, " at face ", i, " is ", ec, " and ", want);
    }
    else
      VP_REQUIRE (t8_cmesh_tree_face_is_boundary (c, lt, i), "face ", i, " of tree ", lt, " has no neighbour and is not at the boundary");
    f.nb.push_back (n);
  }
  if (geom) {
    const double *v = t8_cmesh_get_tree_vertices (c, lt);
    VP_REQUIRE (v != nullptr, "tree ", lt, " has no vertices");
    f.vert.assign (v, v + 3 * (nv_attr > 0 ? nv_attr : NV[f.cls]));
  }
  f.seen = 1;
  return f;
}

/* Called by all ranks; rank 0 returns with all trees gathered. Trees seen by several ranks must agree. */
inline void
gather (t8_cmesh_t c, Facts &F, bool geom, int nv_attr = -1)
{
  const t8_gloidx_t n = t8_cmesh_get_num_trees (c);
  if (F.num < 0) {
    F.num = n;
    F.t.resize ((size_t) n);
    F.dim = t8_cmesh_get_dimension (c);
  }
  VP_REQUIRE (F.num == n, "ranks disagree on the number of trees: ", F.num, " and ", n);
  const t8_locidx_t ln = t8_cmesh_get_num_local_trees (c);
  if (ln > 0)
    VP_REQUIRE (F.dim == t8_cmesh_get_dimension (c), "ranks disagree on the dimension");
  const t8_gloidx_t first = t8_cmesh_get_first_treeid (c);
  for (t8_locidx_t i = 0; i < ln; ++i) {
    const t8_gloidx_t g = t8_cmesh_get_global_id (c, i);
    VP_REQUIRE (g == first + i && g >= 0 && g < n, "global id of local tree ", i, " is ", g, ", first tree is ", first);
    VP_REQUIRE (t8_cmesh_get_local_id (c, g) == i, "local id of tree ", g);
    VP_REQUIRE (t8_cmesh_treeid_is_local_tree (c, i) && !t8_cmesh_treeid_is_ghost (c, i), "local tree ", i, " is not local");
    TreeFacts f = tree_facts (c, i, geom, nv_attr);
    if (F.t[g].seen) {
      std::string why;
      VP_REQUIRE (same (F.t[g], f, why), "tree ", g, " differs between ranks: ", why);
      f.seen = F.t[g].seen + 1;
    }
    F.t[g] = f;
  }
}

inline void
compare (const Facts &a, const Facts &b, const char *what)
{
  VP_REQUIRE (a.num == b.num && a.dim == b.dim, what, ": number of trees ", a.num, " and ", b.num, ", dimension ", a.dim, " and ", b.dim);
  for (size_t i = 0; i < a.t.size (); ++i) {
    std::string why;
    VP_REQUIRE (a.t[i].seen && b.t[i].seen, what, ": tree ", i, " is on no rank");
    VP_REQUIRE (same (a.t[i], b.t[i], why), what, ": tree ", i, ": ", why);
  }
}
} // namespace cm
