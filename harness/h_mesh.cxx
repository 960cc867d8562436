/* The mesh handle: the C++ mesh interface on top of a forest. */
#include "fhist.hxx"
#include <mesh_handle/mesh.hxx>
#include <mesh_handle/competence_pack.hxx>
#include <mesh_handle/constructor_wrappers.hxx>
#include <mesh_handle/mesh_io.hxx>
#include <dirent.h>
#include <fstream>
#include <memory>
#include <cmath>
#include <sys/stat.h>
#include <unistd.h>
using vp::Case;
using namespace fm;
namespace mh = t8_mesh_handle;

struct Datum
{
  double v;
  int owner;
  char tag[5];
};
static bool
operator== (const Datum &a, const Datum &b)
{
  return a.v == b.v && a.owner == b.owner && !memcmp (a.tag, b.tag, 5);
}
using MeshComp = mh::union_competence_packs_type<mh::data_mesh_competences<Datum>, mh::dg_mesh_competences>;
using Plain = mh::mesh<>;
using DataOnly = mh::mesh<mh::data_element_competences, MeshComp>;
using AllCache = mh::mesh<mh::union_competence_packs_type<mh::all_cache_element_competences, mh::data_element_competences>, MeshComp>;
using FaceCache = mh::mesh<mh::union_competence_packs_type<mh::cache_face_element_competences, mh::data_element_competences>, MeshComp>;
using SomeCache = mh::mesh<mh::element_competence_pack<mh::cache_vertex_coordinates, mh::cache_centroid, mh::element_data_element_competence>, MeshComp>;

struct MOp
{
  bool adapt = false, part = false, bal = false, forc = false, norep = false, user = false;
  int ghost = 0; /* 0 not mentioned, 1 on, 2 off, 3 off then on */
  AdaptSpec a;
  std::vector<int> order;
  bool keep = false;
  int queries = 8;
};
struct TrackSpec
{
  Mesh mesh;
  int start = 0; /* 0 forest built here, 1 handle_new_uniform, 2 hypercube wrapper, 3 hybrid wrapper */
  int ec = 0;
  bool partc = false, periodic = false, ghost0 = false, standalone = false, drop = false;
  int level = 0;
  std::vector<MOp> ops;
};
struct Cfg
{
  vmpi::Options opt;
  std::vector<TrackSpec> t;
  uint64_t salt = 0;
  uint64_t files = 0; /* write files with these options */
  bool data = false;
};

static MOp
gen_op (Case &c, int dim, bool dg)
{
  MOp o;
  o.adapt = c.chance (70);
  o.part = c.chance (50);
  o.bal = dim > 0 && c.chance (dg ? 75 : 30);
  o.ghost = dg ? (c.chance (90) ? 1 : (int) c.below (4)) : (int) c.below (4);
  o.forc = c.chance (30);
  o.norep = c.chance (50);
  o.user = c.chance (40);
  o.keep = c.chance (20);
  o.queries = (int) c.pick (std::vector<int> { 8, 0, 3, 16 });
  o.a.seed = c.below (1ull << 32);
  const size_t mode = c.weighted ({ 3, 2, 2 });
  o.a.p_refine = mode == 0 ? (int) c.range (0, 60) : mode == 1 ? 0 : (int) c.range (5, 100);
  o.a.p_coarsen = mode == 0 ? (int) c.range (0, 80) : mode == 1 ? (int) c.range (30, 100) : 0;
  o.a.maxlev = (int) c.range (1, dim == 3 ? 4 : dim == 2 ? 6 : 8);
  o.order = { 0, 1, 2, 3 };
  for (int i = 3; i > 0; --i)
    std::swap (o.order[i], o.order[c.below (i + 1)]);
  return o;
}

static Cfg
gen_cfg (Case &c, bool dg)
{
  Cfg g;
  gen_ranks (c, g.opt, 6);
  g.salt = c.below (1u << 20);
  if (!dg && c.chance (6)) {
    g.files = 128 + c.below (128);
    c.label ("files");
  }
  const int nt = dg ? 1 : 1 + (int) c.chance (30);
  for (int k = 0; k < nt; ++k) {
    TrackSpec t;
    t.start = (int) c.weighted ({ 6, 3, 2, 1 });
    int dim;
    if (t.start <= 1) {
      MeshOpts mo;
      mo.geometry = true;
      mo.max_trees = 4;
      t.mesh = gen_mesh (c, mo);
      dim = t.mesh.dim;
      t.standalone = t.start == 0 && c.chance (10);
      if (dim == 1 && dg)
        c.label ("lines");
    }
    else if (t.start == 2) {
      t.ec = (int) c.range (T8_ECLASS_LINE, T8_ECLASS_PYRAMID);
      t.periodic = t.ec != T8_ECLASS_PYRAMID && c.chance (50);
      t.partc = c.chance (30);
      dim = t8_eclass_to_dimension[t.ec];
      c.describe (vp::str ("hypercube(", t8_eclass_to_string[t.ec], t.periodic ? ",periodic" : "", t.partc ? ",partitioned)" : ")"));
    }
    else {
      t.periodic = c.chance (50);
      dim = 3;
      c.describe (vp::str ("hybrid cube", t.periodic ? " periodic" : ""));
    }
    t.level = (int) c.below (t.start == 3 ? 2 : dim == 3 ? 3 : dim == 2 ? 4 : 6);
    t.ghost0 = c.chance (50);
    t.drop = c.chance (12);
    const int n = (int) c.range (dg ? 1 : 0, 3);
    for (int i = 0; i < n; ++i)
      t.ops.push_back (gen_op (c, dim, dg && i == n - 1));
    c.describe (vp::str ("start=", t.start, " level=", t.level, t.ghost0 ? " ghost" : "", t.standalone ? " standalone" : "", t.drop ? " drop" : ""));
    for (auto &o : t.ops)
      c.describe (vp::str ("[", o.adapt ? vp::str ("adapt r", o.a.p_refine, "c", o.a.p_coarsen, o.user ? "u" : "") : std::string (),
                           o.part ? (o.forc ? " part-fc" : " part") : "", o.bal ? (o.norep ? " bal-norep" : " bal") : "", " ghost", o.ghost, "]"));
    g.t.push_back (t);
  }
  c.describe (vp::str ("ranks=", g.opt.nranks, "/", g.opt.node_size));
  c.label (vp::str ("ranks-", g.opt.nranks));
  return g;
}

struct Rng
{
  uint64_t s;
  uint64_t
  operator() (uint64_t n)
  {
    s = mix (s + 0x9e3779b97f4a7c15ull);
    return (s >> 11) % n;
  }
};

static bool
same (double a, double b)
{
  return a == b || (std::isnan (a) && std::isnan (b)) || std::fabs (a - b) <= 1e-11 * (1 + std::fabs (a) + std::fabs (b));
}
static bool
same3 (const t8_3D_vec &a, const double *b)
{
  return same (a[0], b[0]) && same (a[1], b[1]) && same (a[2], b[2]);
}

/* the element of the forest a handle index stands for */
struct Ref
{
  t8_locidx_t lt, id;
  const t8_element_t *e;
  bool ghost;
  Leaf leaf;
};
static std::vector<Ref>
refs_of (t8_forest_t g)
{
  std::vector<Ref> r;
  const t8_scheme *s = t8_forest_get_scheme (g);
  const t8_locidx_t nl = t8_forest_get_num_local_trees (g);
  for (t8_locidx_t t = 0; t < nl; ++t)
    for (t8_locidx_t i = 0; i < t8_forest_get_tree_num_leaf_elements (g, t); ++i) {
      const t8_element_t *e = t8_forest_get_leaf_element_in_tree (g, t, i);
      r.push_back ({ t, i, e, false, leaf_of (s, t8_forest_get_tree_class (g, t), (int) t8_forest_global_tree_id (g, t), e) });
    }
  if (t8_forest_get_num_ghosts (g) > 0)
    for (t8_locidx_t t = 0; t < t8_forest_get_num_ghost_trees (g); ++t)
      for (t8_locidx_t i = 0; i < t8_forest_ghost_tree_num_leaf_elements (g, t); ++i) {
        const t8_element_t *e = t8_forest_ghost_get_leaf_element (g, t, i);
        r.push_back ({ nl + t, i, e, true,
                       leaf_of (s, t8_forest_ghost_get_tree_class (g, t), (int) t8_forest_ghost_get_global_treeid (g, t), e) });
      }
  return r;
}

struct Neigh
{
  t8_locidx_t id;
  int dual;
};
static std::vector<Neigh>
forest_neighbors (t8_forest_t g, const Ref &r, int face)
{
  const t8_element_t **lv = nullptr;
  int *du = nullptr, n = 0;
  t8_locidx_t *id = nullptr;
  t8_eclass_t nc;
  t8_forest_leaf_face_neighbors (g, r.lt, r.e, &lv, face, &du, &n, &id, &nc);
  std::vector<Neigh> out;
  for (int i = 0; i < n; ++i)
    out.push_back ({ id[i], du[i] });
  if (n > 0) {
    T8_FREE (lv);
    T8_FREE (du);
    T8_FREE (id);
  }
  return out;
}

template <class M>
static void
query (M &h, const typename M::element_class &e, t8_locidx_t idx, t8_forest_t g, const std::vector<Ref> &R, int kind, Rng &rng)
{
  const Ref &r = R[idx];
  const t8_scheme *s = t8_forest_get_scheme (g);
  const t8_eclass_t tc = t8_forest_get_tree_class (g, r.lt);
  const int nf = s->element_get_num_faces (tc, r.e), nv = s->element_get_num_corners (tc, r.e);
  const int face = nf > 0 ? (int) rng (nf) : -1;
  double x[3];
  switch (kind) {
  case 0: VP_REQUIRE (same (e.get_volume (), t8_forest_element_volume (g, r.lt, r.e)), "volume of ", r.leaf); break;
  case 1: VP_REQUIRE (same (e.get_diameter (), t8_forest_element_diam (g, r.lt, r.e)), "diameter of ", r.leaf); break;
  case 2: {
    const auto v = e.get_vertex_coordinates ();
    VP_REQUIRE ((int) v.size () == nv, "number of vertex coordinates of ", r.leaf, ": ", v.size ());
    for (int i = 0; i < nv; ++i) {
      t8_forest_element_coordinate (g, r.lt, r.e, i, x);
      VP_REQUIRE (same3 (v[i], x), "coordinates of vertex ", i, " of ", r.leaf);
    }
    break;
  }
  case 3: {
    const int i = (int) rng (nv);
    t8_forest_element_coordinate (g, r.lt, r.e, i, x);
    VP_REQUIRE (same3 (e.get_vertex_coordinates (i), x), "coordinates of the single vertex ", i, " of ", r.leaf);
    break;
  }
  case 4:
    t8_forest_element_centroid (g, r.lt, r.e, x);
    VP_REQUIRE (same3 (e.get_centroid (), x), "centroid of ", r.leaf);
    break;
  case 5:
    if (nf > 0)
      VP_REQUIRE (same (e.get_face_area (face), t8_forest_element_face_area (g, r.lt, r.e, face)), "area of face ", face, " of ", r.leaf);
    break;
  case 6:
    if (nf > 0) {
      t8_forest_element_face_centroid (g, r.lt, r.e, face, x);
      VP_REQUIRE (same3 (e.get_face_centroid (face), x), "centroid of face ", face, " of ", r.leaf);
    }
    break;
  case 7:
    if (nf > 0) {
      t8_forest_element_face_normal (g, r.lt, r.e, face, x);
      VP_REQUIRE (same3 (e.get_face_normal (face), x), "normal of face ", face, " of ", r.leaf);
    }
    break;
  case 8:
    if (nf > 0) {
      const t8_element_shape_t fs = s->element_get_face_shape (tc, r.e, face);
      VP_REQUIRE (e.get_face_shape (face) == fs, "shape of face ", face, " of ", r.leaf);
      VP_REQUIRE (e.get_num_vertices_of_face (face) == t8_eclass_num_vertices[fs], "vertices of face ", face, " of ", r.leaf);
      for (int i = 0; i < t8_eclass_num_vertices[fs]; ++i)
        VP_REQUIRE (e.face_vertex_to_element_vertex (face, i) == s->element_get_face_corner (tc, r.e, face, i), "vertex ", i, " of face ", face,
                    " of ", r.leaf);
    }
    break;
  case 9:
  case 10:
    if (nf > 0 && !r.ghost && (g->ghosts != nullptr || g->mpisize == 1)) {
      if constexpr (M::element_class::has_face_neighbor_cache ())
        if (rng (4) == 0)
          e.fill_face_neighbor_cache ();
      const auto want = forest_neighbors (g, r, face);
      std::vector<int> dual (rng (3), 77);
      const bool with = rng (2);
      const auto nb = with ? e.get_face_neighbors (face, dual) : e.get_face_neighbors (face);
      VP_REQUIRE (nb.size () == want.size (), nb.size (), " neighbours of ", r.leaf, " at face ", face, " instead of ", want.size ());
      if (with)
        VP_REQUIRE (dual.size () == want.size (), dual.size (), " dual faces of ", r.leaf, " at face ", face, " instead of ", want.size ());
      for (size_t i = 0; i < want.size (); ++i) {
        VP_REQUIRE (nb[i] == &std::as_const (h)[want[i].id], "neighbour ", i, " of ", r.leaf, " at face ", face, " is not element ", want[i].id);
        if (with)
          VP_REQUIRE (dual[i] == want[i].dual, "dual face ", i, " of ", r.leaf, " at face ", face);
      }
    }
    break;
  case 11:
    VP_REQUIRE (e.get_level () == s->element_get_level (tc, r.e) && e.get_num_faces () == nf && e.get_num_vertices () == nv
                  && e.get_shape () == s->element_get_shape (tc, r.e),
                "level, shape or numbers of faces and vertices of ", r.leaf);
    VP_REQUIRE (e.get_element_handle_id () == idx && e.get_local_tree_id () == r.lt && e.get_local_element_id () == r.id
                  && e.is_ghost_element () == r.ghost && e.get_mesh () == &h,
                "ids of ", r.leaf, ": ", e.get_element_handle_id (), " ", e.get_local_tree_id (), " ", e.get_local_element_id (), " not ", idx,
                " ", r.lt, " ", r.id);
    VP_REQUIRE (s->element_is_equal (tc, e.get_forest_element (), r.e), "underlying element of ", r.leaf);
    break;
  }
}

/* everything one process can see of the handle */
template <class M>
static std::vector<Ref>
check_handle (M &h, t8_forest_t g, int queries, Rng &rng)
{
  const std::vector<Ref> R = refs_of (g);
  const t8_locidx_t nl = t8_forest_get_local_num_leaf_elements (g), ng = t8_forest_get_num_ghosts (g);
  VP_REQUIRE (h.get_num_local_elements () == nl && h.get_num_ghosts () == ng, "the handle has ", h.get_num_local_elements (), "+",
              h.get_num_ghosts (), " elements, not ", nl, "+", ng);
  VP_REQUIRE (h.get_dimension () == t8_forest_get_dimension (g), "dimension");
  VP_REQUIRE (t8_forest_is_committed (h.get_forest ()), "the forest of the handle is not committed");
  VP_REQUIRE (h.is_balanced () == (t8_forest_is_balanced (g) != 0), "balance state of the handle");
  {
    const auto have = refs_of (h.get_forest ());
    VP_REQUIRE (have.size () == R.size (), "number of elements of the handle's forest");
    for (size_t i = 0; i < R.size (); ++i)
      VP_REQUIRE (have[i].leaf == R[i].leaf && have[i].ghost == R[i].ghost, "element ", i, " of the handle is ", have[i].leaf, " not ", R[i].leaf);
  }
  t8_locidx_t i = 0;
  for (auto &e : std::as_const (h)) {
    VP_REQUIRE (i < nl && &e == &std::as_const (h)[i] && &e == &h[i], "iteration over local elements at ", i);
    ++i;
  }
  VP_REQUIRE (i == nl && (t8_locidx_t) (h.end () - h.begin ()) == nl && (t8_locidx_t) (h.cend () - h.cbegin ()) == nl, "iteration covers ", i,
              " of ", nl, " local elements");
  for (t8_locidx_t k = 0; k < (t8_locidx_t) R.size (); ++k)
    query (h, std::as_const (h)[k], k, g, R, 11, rng);
  const size_t total = R.size () * (size_t) queries;
  for (size_t q = 0; q < total; ++q) {
    const t8_locidx_t k = (t8_locidx_t) rng (R.size ());
    const int kind = (int) rng (12);
    query (h, std::as_const (h)[k], k, g, R, kind, rng);
    if (rng (3) == 0)
      query (h, std::as_const (h)[k], k, g, R, kind, rng);
  }
  return R;
}

struct Call
{
  t8_locidx_t first;
  int num;
  int ret;
  bool
  operator== (const Call &o) const
  {
    return first == o.first && num == o.num && ret == o.ret;
  }
};
struct MirrorCtx
{
  const AdaptSpec *a;
  std::vector<Call> log;
};
static int
mirror_cb (t8_forest_t f, t8_forest_t from, t8_locidx_t lt, const t8_eclass_t ec, t8_locidx_t id, const t8_scheme_c *s, const int fam,
           const int num, t8_element_t *els[])
{
  MirrorCtx *x = (MirrorCtx *) t8_forest_get_user_data (f);
  const int ret = answer (*x->a, fam, leaf_of (s, ec, (int) t8_forest_global_tree_id (from, lt), els[0]));
  x->log.push_back ({ t8_forest_get_tree_element_offset (from, lt) + id, num, ret });
  return ret;
}

template <class M>
struct Track
{
  std::unique_ptr<M> h;
  t8_forest_t g = nullptr;
  std::vector<std::pair<t8_forest_t, std::vector<Leaf>>> kept;
};
struct UserData
{
  const AdaptSpec *a;
  uint64_t magic;
};

template <class M>
static void
start (Track<M> &k, TrackSpec &t, const t8_scheme *s)
{
  sc_MPI_Comm comm = sc_MPI_COMM_WORLD;
  if (t.start <= 1) {
    t8_cmesh_t cm = build_cmesh (t.mesh, comm);
    vmpi::sync ();
    bool simplex = false;
    for (int c : t.mesh.cls)
      simplex |= c == TRI || c == TET || c == PRISM || c == PYRA;
    if (t.standalone && !simplex)
      s = t8_scheme_new_standalone ();
    else
      s->ref ();
    int level = t.level;
    while (level > 0 && uniform_count (t.mesh.cls, level) > 120)
      --level;
    if (t.start == 0) {
      t8_forest_t f = t8_forest_new_uniform (cm, s, level, t.ghost0, comm);
      t8_forest_ref (f);
      k.g = f;
      k.h = std::make_unique<M> (f);
    }
    else {
      t8_cmesh_ref (cm);
      s->ref ();
      k.h = mh::handle_new_uniform<M> (cm, s, level, comm, t.ghost0);
      k.g = t8_forest_new_uniform (cm, s, level, t.ghost0, comm);
    }
    return;
  }
  t8_cmesh_t cm;
  t8_cmesh_init (&cm);
  if (t.start == 2) {
    t8_cmesh_new_hypercube (&cm, (t8_eclass_t) t.ec, comm, 0, t.partc, t.periodic);
    k.h = mh::handle_hypercube_uniform_default<M> ((t8_eclass_t) t.ec, t.level, comm, t.partc, t.ghost0, t.periodic);
  }
  else {
    t8_cmesh_new_hypercube_hybrid (cm, comm, t.periodic);
    k.h = mh::handle_hypercube_hybrid_uniform_default<M> (t.level, comm, t.ghost0, t.periodic);
  }
  k.g = t8_forest_new_uniform (cm, t8_scheme_new_default (), t.level, t.ghost0, comm);
}

/* state of one operation between the settings and the commit */
struct Pending
{
  AdaptSpec a;
  std::vector<Call> log;
  bool bad_user = false, bad_span = false;
  const void *mesh = nullptr;
  bool wrong_mesh = false;
};

template <class M>
static void
set_ops (Track<M> &k, const MOp &o, Pending &p, std::vector<Ref> &R)
{
  M &h = *k.h;
  p.a = o.a;
  /* bound the size */
  const int64_t n = t8_forest_get_global_num_leaf_elements (k.g);
  while (p.a.p_refine > 0 && n * p.a.p_refine * 8 > 60000)
    p.a.p_refine /= 2;
  p.mesh = &h;
  using Span = std::span<const typename M::element_class>;
  auto body = [&p, &h, &R, g = k.g] (const M &m, Span es) -> int {
    p.wrong_mesh |= &m != &h;
    const t8_locidx_t id = es.empty () ? -1 : es[0].get_element_handle_id ();
    if (id < 0 || id + (t8_locidx_t) es.size () > (t8_locidx_t) R.size () || &es[0] != &m[id]) {
      p.bad_span = true;
      return 0;
    }
    const int ret = answer (p.a, es.size () > 1, R[id].leaf);
    p.log.push_back ({ id, (int) es.size (), ret });
    return ret;
  };
  for (int w : o.order) {
    if (w == 0 && o.adapt) {
      if (o.user) {
        typename M::template adapt_callback_type_with_userdata<UserData> cb = [body, &p] (const M &m, Span es, UserData u) {
          p.bad_user |= u.a != &p.a || u.magic != 0x5eed;
          return body (m, es);
        };
        UserData u { &p.a, 0x5eed };
        h.set_adapt (M::template mesh_adapt_callback_wrapper<UserData> (cb, u));
        u.magic = 0;
      }
      else
        h.set_adapt (body);
    }
    if (w == 1 && o.part)
      h.set_partition (o.forc);
    if (w == 2 && o.bal)
      h.set_balance (o.norep);
    if (w == 3 && o.ghost) {
      if (o.ghost >= 2)
        h.set_ghost (false);
      if (o.ghost & 1)
        h.set_ghost ();
    }
  }
}

static t8_forest_t
mirror (t8_forest_t g, const MOp &o, Pending &p, MirrorCtx &x)
{
  t8_forest_t n;
  t8_forest_init (&n);
  x.a = &p.a;
  t8_forest_set_user_data (n, &x);
  bool have = false;
  if (o.adapt) {
    t8_forest_set_adapt (n, g, mirror_cb, 0);
    have = true;
  }
  if (o.part) {
    t8_forest_set_partition (n, have ? nullptr : g, o.forc);
    have = true;
  }
  if (o.bal) {
    t8_forest_set_balance (n, have ? nullptr : g, o.norep);
    have = true;
  }
  if (!have)
    t8_forest_set_copy (n, g);
  if (o.ghost & 1)
    t8_forest_set_ghost (n, 1, T8_GHOST_FACES);
  t8_forest_commit (n);
  return n;
}

/* the vertices of the ghosts are those of the owners */
struct Board
{
  std::map<Leaf, std::pair<int, std::vector<t8_3D_vec>>> own;
  std::map<Leaf, Datum> data;
};

template <class M>
static void
step_checks (Track<M> &k, Board &b, int rank, const std::vector<Ref> &R)
{
  vmpi::sync ();
  if (rank == 0) {
    b.own.clear ();
    b.data.clear ();
  }
  vmpi::sync ();
  for (auto &e : std::as_const (*k.h))
    b.own[R[e.get_element_handle_id ()].leaf] = { rank, e.get_vertex_coordinates () };
  vmpi::sync ();
  for (size_t i = k.h->get_num_local_elements (); i < R.size (); ++i) {
    auto it = b.own.find (R[i].leaf);
    VP_REQUIRE (it != b.own.end () && it->second.first != rank, "ghost ", R[i].leaf, " is not an element of another process");
    const auto v = std::as_const (*k.h)[(t8_locidx_t) i].get_vertex_coordinates ();
    VP_REQUIRE (v.size () == it->second.second.size (), "number of vertices of ghost ", R[i].leaf);
    for (size_t j = 0; j < v.size (); ++j)
      VP_REQUIRE (same3 (v[j], it->second.second[j].data ()), "vertex ", j, " of ghost ", R[i].leaf);
  }
}

/* element data and the data of the ghosts */
template <class M>
static void
check_data (Track<M> &k, Board &b, int rank, const std::vector<Ref> &R, Rng &rng, uint64_t salt)
{
  M &h = *k.h;
  const t8_locidx_t nl = h.get_num_local_elements (), ng = h.get_num_ghosts ();
  for (int round = 0; round < 2; ++round) {
    auto value = [&] (t8_locidx_t i) {
      Datum d;
      memset (&d, 0, sizeof d);
      d.v = (double) (hash (salt + (uint64_t) round, R[i].leaf) % 100000) / 7;
      d.owner = rank;
      memcpy (d.tag, "abcd", 5);
      d.tag[round] = (char) ('0' + i % 10);
      return d;
    };
    std::vector<Datum> want (nl);
    for (t8_locidx_t i = 0; i < nl; ++i)
      want[i] = value (i);
    const int how = (int) rng (3);
    if (how == 0)
      h.set_element_data (want);
    else {
      /* one by one, in some order */
      if (how == 2) {
        std::vector<Datum> other (nl, Datum { -1, -1, "" });
        h.set_element_data (other);
      }
      std::vector<t8_locidx_t> ord (nl);
      for (t8_locidx_t i = 0; i < nl; ++i)
        ord[i] = i;
      const int dir = (int) rng (3);
      if (dir == 1)
        std::reverse (ord.begin (), ord.end ());
      else if (dir == 2)
        for (t8_locidx_t i = nl - 1; i > 0; --i)
          std::swap (ord[i], ord[rng (i + 1)]);
      for (auto i : ord) {
        h[i].set_element_data (want[i]);
        const Datum d = h[i].get_element_data ();
        VP_REQUIRE (d == want[i], "data of element ", i, " after setting it");
      }
    }
    auto check = [&] (const char *when) {
      const auto &all = h.get_element_data ();
      VP_REQUIRE ((t8_locidx_t) all.size () >= nl, all.size (), " data of ", nl, " elements ", when);
      for (t8_locidx_t i = 0; i < nl; ++i)
        VP_REQUIRE (all[i] == want[i] && h[i].get_element_data () == want[i], "data of element ", i, " ", when);
    };
    check ("after setting them");
    vmpi::sync ();
    for (t8_locidx_t i = 0; i < nl; ++i)
      b.data[R[i].leaf] = want[i];
    vmpi::sync ();
    if (k.g->ghosts != nullptr || k.g->mpisize == 1) {
      if (k.g->ghosts == nullptr)
        continue; /* nothing to exchange */
      h.exchange_ghost_data ();
      check ("after the exchange");
      VP_REQUIRE ((t8_locidx_t) h.get_element_data ().size () == nl + ng, h.get_element_data ().size (), " data of ", nl, "+", ng, " elements");
      for (t8_locidx_t i = nl; i < nl + ng; ++i)
        VP_REQUIRE (h[i].get_element_data () == b.data[R[i].leaf] && h.get_element_data ()[i] == b.data[R[i].leaf], "data of ghost ", R[i].leaf,
                    " is not the owner's");
      h.fill_rank_vector ();
      for (t8_locidx_t i = 0; i < nl + ng; ++i) {
        const int wr = i < nl ? mh::LOCAL_RANK : b.own[R[i].leaf].first;
        VP_REQUIRE (h.get_rank (i) == wr, "rank of ", R[i].leaf, " is ", h.get_rank (i), " not ", wr);
      }
    }
    vmpi::sync ();
  }
}

static const char *
type_name (mh::face_type t)
{
  static const char *n[] = { "boundary", "conformal", "mortar", "MPI conformal", "MPI mortar" };
  return n[(int) t];
}

/* the list of unique faces; the forest is balanced and has ghosts (or one process) */
template <class M>
static void
check_faces (Track<M> &k, Board &b, int rank, const std::vector<Ref> &R, Case &c)
{
  M &h = *k.h;
  const t8_forest_t g = k.g;
  const t8_scheme *s = t8_forest_get_scheme (g);
  const int nl = h.get_num_local_elements ();
  h.fill_unique_face_vector ();
  if (nl == 0)
    return;
  const std::vector<mh::face> &F = h.get_unique_face_vector ();
  const std::vector<std::vector<int>> &EF = h.get_element_face_vector ();
  VP_REQUIRE (EF.size () == R.size (), "face lists of ", EF.size (), " of ", R.size (), " elements");
  using Side = std::pair<int, int>;
  std::map<Side, int> where; /* side -> face */
  for (size_t i = 0; i < F.size (); ++i)
    for (auto &d : F[i].sides) {
      VP_REQUIRE (d.element_id >= 0 && d.element_id < (int) R.size (), "element ", d.element_id, " of face ", i);
      VP_REQUIRE (where.insert ({ { d.element_id, d.local_face_id }, (int) i }).second, "face ", d.local_face_id, " of ", R[d.element_id].leaf,
                  " appears twice");
    }
  auto level = [&] (int i) { return R[i].leaf.level (); };
  auto rank_of = [&] (int i) { return i < nl ? mh::LOCAL_RANK : b.own[R[i].leaf].first; };
  /* what the neighbourhoods imply */
  std::map<Side, std::vector<Side>> large_ghost; /* large side of a ghost -> local small sides */
  std::map<Side, std::vector<Side>> nb;
  for (int i = 0; i < nl; ++i) {
    const t8_eclass_t tc = t8_forest_get_tree_class (g, R[i].lt);
    for (int f = 0; f < s->element_get_num_faces (tc, R[i].e); ++f) {
      auto &v = nb[{ i, f }];
      for (auto &n : forest_neighbors (g, R[i], f))
        v.push_back ({ n.id, n.dual });
      if (v.size () == 1 && v[0].first >= nl && level (v[0].first) < level (i))
        large_ghost[v[0]].push_back ({ i, f });
    }
  }
  size_t used = 0;
  std::set<int> seen;
  for (auto &[side, v] : nb) {
    const auto it = where.find (side);
    VP_REQUIRE (it != where.end (), "face ", side.second, " of local element ", R[side.first].leaf, " (", v.size (), " neighbours) is missing");
    const int fi = it->second;
    VP_REQUIRE (side.second < (int) EF[side.first].size () && EF[side.first][side.second] == fi, "face list of ", R[side.first].leaf, " at face ",
                side.second);
    if (!seen.insert (fi).second)
      continue;
    const mh::face &F1 = F[fi];
    mh::face_type type = mh::face_type::BOUNDARY;
    Side first = side;
    std::vector<Side> rest = v;
    bool any_order = false;
    Side local = side; /* a local side, for the orientation */
    if (!v.empty ()) {
      bool remote = false;
      if (v.size () == 1 && level (v[0].first) == level (side.first)) {
        remote = v[0].first >= nl;
        type = remote ? mh::face_type::MPI_CONFORMAL : mh::face_type::CONFORMAL;
        if (v[0].first < side.first || (v[0].first == side.first && F1.sides[0].local_face_id == v[0].second))
          std::swap (first, rest[0]);
      }
      else {
        if (level (v[0].first) < level (side.first)) {
          VP_REQUIRE (v.size () == 1, "several coarser neighbours");
          first = v[0];
          rest = first.first < nl ? nb[first] : large_ghost[first];
        }
        any_order = true;
        remote = first.first >= nl;
        for (auto &x : rest)
          remote |= x.first >= nl;
        type = remote ? mh::face_type::MPI_MORTAR : mh::face_type::MORTAR;
      }
    }
    VP_REQUIRE (F1.type == type, "face ", side.second, " of ", R[side.first].leaf, " is a ", type_name (F1.type), " face, not a ", type_name (type));
    std::vector<Side> have;
    for (auto &d : F1.sides) {
      have.push_back ({ d.element_id, d.local_face_id });
      VP_REQUIRE (d.rank == rank_of (d.element_id), "rank ", d.rank, " of a side at ", R[d.element_id].leaf);
    }
    VP_REQUIRE (have[0] == first, "first side of the ", type_name (type), " face ", side.second, " of ", R[side.first].leaf);
    have.erase (have.begin ());
    if (any_order) {
      std::sort (have.begin (), have.end ());
      std::sort (rest.begin (), rest.end ());
    }
    VP_REQUIRE (have == rest, "other sides of the ", type_name (type), " face ", side.second, " of ", R[side.first].leaf, ": ", have.size (),
                " instead of ", rest.size ());
    const int wo = v.empty () ? 0 : t8_forest_leaf_face_orientation (g, R[local.first].lt, s, R[local.first].e, local.second);
    VP_REQUIRE (F1.orientation == wo, "orientation ", F1.orientation, " of the ", type_name (type), " face ", side.second, " of ", R[side.first].leaf,
                " should be ", wo);
    for (auto &d : F1.sides)
      VP_REQUIRE (d.local_face_id < (int) EF[d.element_id].size () && EF[d.element_id][d.local_face_id] == fi, "face list of ", R[d.element_id].leaf);
    c.label (type_name (type));
    ++used;
  }
  VP_REQUIRE (used == F.size (), F.size () - used, " faces touch no local element");
  for (size_t i = 0; i < EF.size (); ++i)
    for (size_t f = 0; f < EF[i].size (); ++f)
      if (EF[i][f] != -1) {
        const auto it = where.find ({ (int) i, (int) f });
        VP_REQUIRE (it != where.end () && it->second == EF[i][f], "face list of ", R[i].leaf, " names a face it has no side of");
      }
}

/* files of a directory; removes them */
static std::map<std::string, std::string>
take_files (const std::string &d)
{
  std::map<std::string, std::string> r;
  DIR *p = opendir (d.c_str ());
  while (struct dirent *e = readdir (p)) {
    const std::string n = e->d_name;
    if (n == "." || n == "..")
      continue;
    std::ifstream in (d + "/" + n, std::ios::binary);
    std::ostringstream o;
    o << in.rdbuf ();
    std::string t = o.str ();
    for (size_t i; (i = t.find (d)) != std::string::npos;)
      t.replace (i, d.size (), "DIR");
    r[n] = t;
    unlink ((d + "/" + n).c_str ());
  }
  closedir (p);
  rmdir (d.c_str ());
  return r;
}

/* the handle writes the files of its forest */
template <class M>
static void
check_files (Track<M> &k, uint64_t opt, int rank, std::string (&dir)[2])
{
  for (int i = 0; i < 2; ++i) {
    if (rank == 0) {
      char t[] = "/tmp/vpmeshXXXXXX";
      dir[i] = mkdtemp (t);
    }
    vmpi::sync ();
  }
  const int nl = k.h->get_num_local_elements ();
  const int nv = nl + k.h->get_num_ghosts (); /* the writer reads values of the ghosts it writes, too */
  std::vector<double> v (nv);
  for (int i = 0; i < nv; ++i)
    v[i] = rank * 1000 + i;
  t8_vtk_data_field_t d[1];
  d[0].type = T8_VTK_SCALAR;
  snprintf (d[0].description, BUFSIZ, "field");
  d[0].data = v.data ();
  const int nd = (int) (opt >> 1 & 1);
  const bool o[5] = { (opt >> 2 & 1) != 0, (opt >> 3 & 1) != 0, (opt >> 4 & 1) != 0, (opt >> 5 & 1) != 0, (opt >> 6 & 1) && k.g->ghosts != nullptr };
  int a, b;
  if (opt & 1) {
    a = mh::write_mesh_to_vtk (*k.h, (dir[0] + "/m").c_str ());
    b = t8_forest_write_vtk (k.g, (dir[1] + "/m").c_str ());
  }
  else {
    a = mh::write_mesh_to_vtk_ext (*k.h, (dir[0] + "/m").c_str (), nd, d, o[0], o[1], o[2], o[3], o[4], false, true);
    b = t8_forest_write_vtk_ext (k.g, (dir[1] + "/m").c_str (), o[0], o[1], o[2], o[3], o[4], 0, 1, nd, d);
  }
  VP_REQUIRE ((a != 0) == (b != 0), "result of writing the mesh handle");
  vmpi::sync ();
  if (rank == 0) {
    const auto x = take_files (dir[0]), y = take_files (dir[1]);
    VP_REQUIRE (x.size () == y.size () && !x.empty (), x.size (), " files written by the handle, ", y.size (), " by the forest");
    for (auto &[n, t] : y)
      VP_REQUIRE (x.count (n) && x.at (n) == t, "file ", n, " written by the handle differs from that of the forest");
  }
  vmpi::sync ();
}

template <class M>
static void
run (Case &c, Cfg &cfg)
{
  std::string dir[2];
  const t8_scheme *s = t8_scheme_new_default ();
  size_t nt = cfg.t.size (), steps = 0;
  for (auto &t : cfg.t)
    steps = std::max (steps, t.ops.size ());
  std::vector<Board> board (nt);
  size_t calls = 0;
  bool ghosts = false, faces = false;
  vp_run_ranks (cfg.opt, [&] (int rank) {
    Rng rng { cfg.salt * 64 + (uint64_t) rank };
    std::vector<Track<M>> T (nt);
    std::vector<std::vector<Ref>> R (nt);
    auto look = [&] (size_t i, int queries) {
      R[i] = check_handle (*T[i].h, T[i].g, queries, rng);
      step_checks (T[i], board[i], rank, R[i]);
      if (t8_forest_get_num_ghosts (T[i].g) > 0)
        ghosts = true;
      if constexpr (M::has_element_data_handler_competence ())
        if (cfg.data) {
          check_data (T[i], board[i], rank, R[i], rng, cfg.salt);
          int all = t8_forest_is_balanced (T[i].g), one = 0;
          sc_MPI_Allreduce (&all, &one, 1, sc_MPI_INT, sc_MPI_MIN, sc_MPI_COMM_WORLD);
          if (one && (T[i].g->ghosts != nullptr || T[i].g->mpisize == 1)) {
            check_faces (T[i], board[i], rank, R[i], c);
            faces = true;
          }
        }
    };
    for (size_t i = 0; i < nt; ++i) {
      start (T[i], cfg.t[i], s);
      look (i, 4);
    }
    for (size_t st = 0; st < steps; ++st) {
      std::vector<Pending> P (nt);
      std::vector<size_t> act;
      for (size_t i = 0; i < nt; ++i)
        if (st < cfg.t[i].ops.size ()) {
          const MOp &o = cfg.t[i].ops[st];
          if (o.keep) {
            t8_forest_t f = T[i].h->get_forest ();
            t8_forest_ref (f);
            T[i].kept.push_back ({ f, read_leaves (f) });
          }
          set_ops (T[i], o, P[i], R[i]);
          act.push_back (i);
        }
      if ((cfg.salt + st) % 2)
        std::reverse (act.begin (), act.end ());
      for (size_t i : act) {
        const MOp &o = cfg.t[i].ops[st];
        /* the settings alone change nothing */
        if (o.queries)
          check_handle (*T[i].h, T[i].g, 1, rng);
        T[i].h->commit ();
        MirrorCtx x;
        T[i].g = mirror (T[i].g, o, P[i], x);
        VP_REQUIRE (!P[i].wrong_mesh, "the adaptation callback was given another mesh");
        VP_REQUIRE (!P[i].bad_span, "the elements given to the adaptation callback are not elements of the mesh");
        VP_REQUIRE (!P[i].bad_user, "wrong user data in the adaptation callback");
        VP_REQUIRE (P[i].log.size () == x.log.size (), P[i].log.size (), " calls of the adaptation callback instead of ", x.log.size ());
        for (size_t j = 0; j < x.log.size (); ++j)
          VP_REQUIRE (P[i].log[j] == x.log[j], "call ", j, " of the adaptation callback: element ", P[i].log[j].first, " (", P[i].log[j].num,
                      ") instead of ", x.log[j].first, " (", x.log[j].num, ")");
        calls += x.log.size ();
        look (i, o.queries);
      }
    }
    if (cfg.files)
      check_files (T[0], cfg.files, rank, dir);
    for (size_t i = 0; i < nt; ++i) {
      for (auto &q : T[i].kept) {
        VP_REQUIRE (read_leaves (q.first) == q.second, "a retained forest changed");
        t8_forest_unref (&q.first);
      }
      Pending p;
      if (cfg.t[i].drop) {
        /* a handle with changes that were never committed */
        MOp o;
        o.adapt = cfg.salt & 1;
        o.part = !o.adapt || (cfg.salt & 2);
        o.ghost = (cfg.salt >> 2) & 1;
        o.order = { 0, 1, 2, 3 };
        set_ops (T[i], o, p, R[i]);
      }
      T[i].h.reset ();
      t8_forest_unref (&T[i].g);
    }
  });
  s->unref ();
  c.nontrivial (cfg.data ? ghosts && faces : calls > 0 || ghosts);
}

static void
m01 (Case &c)
{
  Cfg g = gen_cfg (c, false);
  const int kind = (int) c.below (4);
  c.label (vp::str ("class-", kind));
  if (kind == 0)
    run<Plain> (c, g);
  else if (kind == 1)
    run<AllCache> (c, g);
  else if (kind == 2)
    run<FaceCache> (c, g);
  else
    run<SomeCache> (c, g);
}
static vp::Register r01 ({ "M01", m01, 6000, 90000,
  "one or two mesh handles taken through random adapt, partition, balance and ghost commits next to plain forests; non-trivial = the adaptation callback was called or a process has ghosts",
  { "in-process MPI stand-in with a harness-owned schedule", "the plain forest operations are judged by the F properties", "complete forests (documented restriction)" }, 80, true });

static void
m02 (Case &c)
{
  Cfg g = gen_cfg (c, true);
  g.data = true;
  const int kind = (int) c.below (3);
  c.label (vp::str ("class-", kind));
  if (kind == 0)
    run<DataOnly> (c, g);
  else if (kind == 1)
    run<AllCache> (c, g);
  else
    run<FaceCache> (c, g);
}
static vp::Register r02 ({ "M02", m02, 6000, 90000,
  "a mesh handle with element data and face list, taken through random commits; non-trivial = a process has ghosts and the face list of a balanced mesh was checked",
  { "in-process MPI stand-in with a harness-owned schedule", "face lists are specified for complete, balanced forests with ghosts" }, 80, true });
