/* Coarse meshes: what is set is what is stored, on every rank, through copies, broadcasts and repartitions. */
#include "cm.hxx"
#include <cstring>
#include <memory>
#include <t8_cmesh/t8_cmesh_geometry.hxx>
#include <t8_cmesh/t8_cmesh_internal/t8_cmesh_offset.h>
#include <t8_cmesh/t8_cmesh_internal/t8_cmesh_partition.h>
#include <t8_cmesh/t8_cmesh_internal/t8_cmesh_trees.h>
#include <t8_data/t8_shmem.h>
#include <t8_geometry/t8_geometry_base.hxx>
#include <t8_geometry/t8_geometry_implementations/t8_geometry_analytic.hxx>
#include <t8_schemes/t8_default/t8_default.hxx>
using namespace fm;
using vp::Case;

static int pkgs[2] = { -1, -1 };
static void
packages ()
{
  if (pkgs[0] < 0) {
    pkgs[0] = sc_package_register (nullptr, SC_LP_ERROR, "vpa", "harness a");
    pkgs[1] = sc_package_register (nullptr, SC_LP_ERROR, "vpb", "harness b");
  }
}

typedef std::string Bytes;
typedef std::pair<int, int> AKey; /* package index, key */

enum Kind { CLS, JOIN, ATTR, STRING, GLOIDX, VERT, GEOM };
struct Op
{
  Kind kind;
  int tree = 0;
  AKey key;
  Bytes data;
  bool persists = false;
  Join j;
};
struct Model
{
  int dim = 2;
  int geoms = 0; /* number of registered geometries */
  std::vector<int> cls;
  std::vector<Join> joins;
  std::vector<std::vector<Nb>> nb;
  std::vector<std::map<AKey, Bytes>> attr;
  std::vector<std::vector<double>> vert;
  std::vector<int> geom;
  std::vector<Op> ops;
  void
  finish ()
  {
    nb.clear ();
    for (int c : cls)
      nb.push_back (std::vector<Nb> (NF[c]));
    for (auto &j : joins) {
      nb[j.t0][j.f0] = { j.t1, j.f1, j.o };
      nb[j.t1][j.f1] = { j.t0, j.f0, j.o };
    }
  }
};

static const char *GEOMNAME[3] = { "t8_geom_linear", "vp_first", "vp_second" };
static void
no_map (t8_cmesh_t, t8_gloidx_t, const double *ref, const size_t n, double *out, const void *, const void *)
{
  for (size_t i = 0; i < 3 * n; ++i)
    out[i] = ref[i];
}
static t8_geometry *
make_geom (int i)
{
  if (i == 0)
    return new t8_geometry_linear ();
  return new t8_geometry_analytic (GEOMNAME[i], no_map, nullptr, nullptr, nullptr, nullptr, nullptr);
}

static Bytes
gen_bytes (Case &c)
{
  static const std::vector<int> sizes = { 1, 4, 8, 3, 2, 16, 7, 24, 33, 100, 257, 1000 };
  Bytes b (c.chance (1) ? (size_t) c.range (1000, 9000) : (size_t) c.pick (sizes), 0);
  const uint64_t s = c.bits ();
  for (size_t i = 0; i < b.size (); ++i)
    b[i] = (char) mix (s + i);
  return b;
}

static Model
gen_model (Case &c, int max_trees)
{
  Model m;
  MeshOpts o;
  o.named = false;
  o.max_trees = max_trees;
  o.dim = (int) c.weighted ({ 1, 2, 6, 6 });
  Mesh mesh = gen_mesh (c, o);
  m.dim = mesh.dim;
  m.cls = mesh.cls;
  m.joins = mesh.joins;
  m.finish ();
  const int n = (int) m.cls.size ();
  m.attr.resize (n);
  m.vert.resize (n);
  m.geom.assign (n, 0);
  m.geoms = (int) c.weighted ({ 3, 4, 0, 3 });
  for (int t = 0; t < n; ++t)
    m.ops.push_back ({ CLS, t });
  for (auto &j : m.joins) {
    Op p { JOIN, j.t0 };
    p.j = j;
    m.ops.push_back (p);
  }
  const int density = (int) c.weighted ({ 1, 3, 3 });
  std::string d;
  const int along = (int) c.below (std::max (1, m.dim)); /* the trees lie in a row, in either direction */
  const double step = c.chance (50) ? 3. : -3.;
  for (int t = 0; t < n; ++t) {
    if (m.geoms || c.chance (50)) {
      Op p { VERT, t };
      p.key = { -1, 0 };
      for (int i = 0; i < NV[m.cls[t]]; ++i)
        for (int k = 0; k < 3; ++k)
          m.vert[t].push_back (RV[m.cls[t]][i][k] + (k < m.dim ? c.real (-0.1, 0.1) : 0.) + (k == along ? step * t : 0.));
      m.ops.push_back (p);
    }
    if (m.geoms > 1 || (m.geoms == 1 && c.chance (40))) {
      m.geom[t] = (int) c.below (m.geoms);
      Op p { GEOM, t };
      p.key = { -1, 1 };
      m.ops.push_back (p);
    }
    const int na = density == 0 || c.chance (30) ? 0 : c.chance (2) ? (int) c.range (6, 30) : (int) c.range (1, density == 1 ? 2 : 5);
    for (int a = 0; a < na; ++a) {
      Op p { ATTR, t };
      static const std::vector<int> keys = { 0, 1, 2, 3, -1, 1000, INT_MAX, INT_MIN, -77, 255 };
      p.key = { (int) c.below (2), na > 5 && c.chance (70) ? (int) c.below (100) : c.pick (keys) };
      p.data = gen_bytes (c);
      switch (c.weighted ({ 6, 2, 2 })) {
      case 1:
        p.kind = STRING;
        for (auto &ch : p.data)
          if (ch == 0)
            ch = 'x';
        break;
      case 2:
        p.kind = GLOIDX;
        p.data.resize ((p.data.size () + 7) / 8 * 8, 'g');
        break;
      default:;
      }
      p.persists = p.kind != STRING && c.chance (40);
      if (m.attr[t].count (p.key))
        c.label ("attribute-overwritten");
      m.attr[t][p.key] = p.kind == STRING ? Bytes (p.data.c_str (), p.data.size () + 1) : p.data;
      m.ops.push_back (p);
    }
    d += vp::str (m.attr[t].size (), m.vert[t].empty () ? "" : "v");
  }
  c.describe (vp::str ("attr=", d, " geoms=", m.geoms));
  return m;
}

/* partition of the trees over the ranks */
struct Part
{
  bool partitioned = false;
  std::vector<int64_t> table, first, last;
  std::vector<int> shared;
};
/* from element positions x[0..P], with cnt[t] elements in tree t */
static Part
part_of (const std::vector<__int128> &x, const std::vector<__int128> &cnt)
{
  Part r;
  r.partitioned = true;
  const int P = (int) x.size () - 1, n = (int) cnt.size ();
  std::vector<__int128> beg (n + 1, 0);
  for (int t = 0; t < n; ++t)
    beg[t + 1] = beg[t] + cnt[t];
  r.first.resize (P), r.last.resize (P), r.shared.assign (P, 0), r.table.assign (P + 1, n);
  for (int p = P - 1; p >= 0; --p) {
    if (x[p] == x[p + 1]) {
      int64_t f = r.table[p + 1];
      if (f < 0)
        f = -f - 1 + 1; /* the first tree that is not shared */
      r.table[p] = f;
      r.first[p] = f;
      r.last[p] = f - 1;
      continue;
    }
    int t = 0;
    while (beg[t + 1] <= x[p])
      ++t;
    r.first[p] = t;
    r.shared[p] = x[p] > beg[t];
    r.table[p] = r.shared[p] ? -t - 1 : t;
    while (beg[t + 1] < x[p + 1])
      ++t;
    r.last[p] = t;
  }
  return r;
}
static Part
gen_part (Case &c, int n, int P)
{
  const int K = (int) c.range (1, 3);
  std::vector<__int128> x;
  const int style = (int) c.weighted ({ 5, 2, 2 });
  for (int p = 0; p <= P; ++p)
    x.push_back (style == 1 ? (__int128) n * K * p / P : (__int128) c.below (n * K + 1));
  x[0] = 0, x[P] = n * K;
  if (style == 2) /* all on few ranks */
    for (int p = 1; p < P; ++p)
      x[p] = c.chance (60) ? x[p] : c.chance (50) ? 0 : n * K;
  std::sort (x.begin (), x.end ());
  return part_of (x, std::vector<__int128> (n, K));
}
static Part
replicated (int n, int P)
{
  Part r;
  r.first.assign (P, 0);
  r.last.assign (P, n - 1);
  r.shared.assign (P, 0);
  return r;
}
static std::string
show (const Part &p)
{
  if (!p.partitioned)
    return "replicated";
  std::string s;
  for (auto v : p.table)
    s += vp::str (v, ",");
  return s;
}
static std::vector<__int128>
counts (const Model &m, int level)
{
  std::vector<__int128> r;
  for (int k : m.cls)
    r.push_back ((__int128) leaves (k, level));
  return r;
}
static std::vector<__int128>
even (const std::vector<__int128> &cnt, int P)
{
  __int128 N = 0;
  for (auto v : cnt)
    N += v;
  std::vector<__int128> x;
  for (int p = 0; p <= P; ++p)
    x.push_back (N * p / P);
  return x;
}

/* ------------------------------------------------------------------ comparison of one rank's mesh with the model */
static void
check_tree (t8_cmesh_t cm, const Model &m, int rank, t8_locidx_t lt, int g, const std::map<int, int> &local)
{
  const bool ghost = t8_cmesh_treeid_is_ghost (cm, lt);
  const int cls = (int) (ghost ? t8_cmesh_get_ghost_class (cm, t8_cmesh_ltreeid_to_ghostid (cm, lt)) : t8_cmesh_get_tree_class (cm, lt));
  const std::string who = vp::str ("rank ", rank, ghost ? " ghost " : " tree ", g);
  VP_REQUIRE (cls == m.cls[g], who, ": class ", cls, " instead of ", m.cls[g]);
  VP_REQUIRE (t8_cmesh_get_global_id (cm, lt) == g, who, ": global id ", t8_cmesh_get_global_id (cm, lt));
  for (int f = 0; f < NF[cls]; ++f) {
    const Nb &w = m.nb[g][f];
    int df = -5, o = -5;
    const t8_locidx_t u = t8_cmesh_get_face_neighbor (cm, lt, f, &df, &o);
    const bool bd = t8_cmesh_tree_face_is_boundary (cm, lt, f);
    VP_REQUIRE (bd == (w.tree < 0), who, ": face ", f, " boundary flag ", bd);
    const auto it = w.tree < 0 ? local.end () : local.find (w.tree);
    const int want = it == local.end () ? -1 : it->second;
    VP_REQUIRE (u == want, who, ": neighbour at face ", f, " is ", u, " instead of ", want, " (tree ", w.tree, ")");
    if (u >= 0) {
      VP_REQUIRE (df == w.face && o == w.o, who, ": face ", f, " is glued to face ", df, " with orientation ", o, " instead of ", w.face, ", ", w.o);
      VP_REQUIRE (t8_cmesh_get_face_neighbor (cm, lt, f, nullptr, nullptr) == u, who, ": neighbour without outputs");
    }
    if (!ghost && w.tree >= 0)
      VP_REQUIRE ((int) t8_cmesh_get_tree_face_neighbor_eclass (cm, lt, f) == m.cls[w.tree], who, ": class of the neighbour at face ", f);
  }
  for (int pk = 0; pk < 2; ++pk) {
    static const int keys[] = { 0, 1, 2, 3, -1, 1000, INT_MAX, INT_MIN, -77, 255, 4, -2 };
    for (int k : keys) {
      const auto it = m.attr[g].find ({ pk, k });
      const char *p = (const char *) t8_cmesh_get_attribute (cm, pkgs[pk], k, lt);
      if (it == m.attr[g].end ()) {
        VP_REQUIRE (p == nullptr, who, ": has an attribute ", pk, "/", k, " that was not set");
        continue;
      }
      VP_REQUIRE (p != nullptr, who, ": attribute ", pk, "/", k, " is lost");
      VP_REQUIRE (memcmp (p, it->second.data (), it->second.size ()) == 0, who, ": attribute ", pk, "/", k, " of ", it->second.size (),
                  " bytes has changed");
      if (it->second.size () % 8 == 0)
        VP_REQUIRE (t8_cmesh_get_attribute_gloidx_array (cm, pkgs[pk], k, lt, it->second.size () / 8) == (const t8_gloidx_t *) p, who,
                    ": attribute as index array");
    }
  }
  const double *v = t8_cmesh_get_tree_vertices (cm, lt);
  VP_REQUIRE ((v == nullptr) == m.vert[g].empty (), who, ": vertices ", v ? "present" : "missing");
  if (v)
    VP_REQUIRE (memcmp (v, m.vert[g].data (), m.vert[g].size () * sizeof (double)) == 0, who, ": vertices have changed");
  const t8_geometry *geom = t8_cmesh_get_tree_geometry (cm, g);
  if (m.geoms == 0)
    VP_REQUIRE (geom == nullptr, who, ": has a geometry");
  else {
    VP_REQUIRE (geom != nullptr, who, ": no geometry");
    VP_REQUIRE (geom->t8_geom_get_name ().rfind (GEOMNAME[m.geom[g]], 0) == 0, who, ": geometry ", geom->t8_geom_get_name (), " instead of ",
                GEOMNAME[m.geom[g]]);
    VP_REQUIRE (t8_cmesh_get_tree_geom_hash (cm, g) == geom->t8_geom_get_hash (), who, ": hash of the geometry");
  }
}

static void
check (t8_cmesh_t cm, const Model &m, const Part &P, int rank, const char *what)
{
  const int n = (int) m.cls.size ();
  try {
    VP_REQUIRE (t8_cmesh_is_committed (cm), "not committed");
    VP_REQUIRE (t8_cmesh_get_dimension (cm) == m.dim, "dimension ", t8_cmesh_get_dimension (cm));
    VP_REQUIRE (t8_cmesh_get_num_trees (cm) == n, "number of trees ", t8_cmesh_get_num_trees (cm), " instead of ", n);
    VP_REQUIRE (!t8_cmesh_is_empty (cm), "reported as empty");
    VP_REQUIRE (!t8_cmesh_is_partitioned (cm) == !P.partitioned, "partitioned flag ", t8_cmesh_is_partitioned (cm));
    const int64_t first = P.first[rank], last = P.last[rank];
    const int nl = (int) (last - first + 1);
    VP_REQUIRE (t8_cmesh_get_num_local_trees (cm) == nl, "number of local trees ", t8_cmesh_get_num_local_trees (cm), " instead of ", nl);
    if (nl > 0)
      VP_REQUIRE (t8_cmesh_get_first_treeid (cm) == first, "first tree ", t8_cmesh_get_first_treeid (cm), " instead of ", first);
    /* trees and ghosts of this rank */
    std::set<int> want;
    for (int64_t t = first; t <= last; ++t)
      for (auto &b : m.nb[t])
        if (b.tree >= 0 && (b.tree < first || b.tree > last))
          want.insert (b.tree);
    VP_REQUIRE (t8_cmesh_get_num_ghosts (cm) == (int) want.size (), "number of ghosts ", t8_cmesh_get_num_ghosts (cm), " instead of ", want.size ());
    std::map<int, int> local;
    for (int i = 0; i < nl; ++i)
      local[(int) first + i] = i;
    for (int i = 0; i < (int) want.size (); ++i) {
      const t8_gloidx_t g = t8_cmesh_get_global_id (cm, nl + i);
      VP_REQUIRE (want.count ((int) g), "ghost ", i, " is tree ", g);
      VP_REQUIRE (local.emplace ((int) g, nl + i).second, "tree ", g, " is a ghost twice or local");
    }
    for (int g = 0; g < n; ++g) {
      const auto it = local.find (g);
      const t8_locidx_t id = t8_cmesh_get_local_id (cm, g);
      VP_REQUIRE (it == local.end () ? id < 0 : id == it->second, "local id of tree ", g, " is ", id);
    }
    for (auto &[g, lt] : local) {
      VP_REQUIRE (t8_cmesh_treeid_is_local_tree (cm, lt) == (lt < nl) && t8_cmesh_treeid_is_ghost (cm, lt) == (lt >= nl), "kind of id ", lt);
      check_tree (cm, m, rank, lt, g, local);
    }
    for (int lt : { -1, nl + (int) want.size () })
      VP_REQUIRE (!t8_cmesh_treeid_is_local_tree (cm, lt) && !t8_cmesh_treeid_is_ghost (cm, lt), "kind of the invalid id ", lt);
    int i = 0;
    for (t8_ctree_t t = t8_cmesh_get_first_tree (cm); t != nullptr; t = t8_cmesh_get_next_tree (cm, t), ++i)
      VP_REQUIRE (i < nl && t == t8_cmesh_get_tree (cm, i), "iteration over the trees at ", i);
    VP_REQUIRE (i == nl, "iteration over the trees ends after ", i, " of ", nl);
    const t8_shmem_array_t tab = t8_cmesh_get_partition_table (cm);
    if (!P.partitioned)
      VP_REQUIRE (tab == nullptr, "replicated mesh with a partition table");
    else {
      VP_REQUIRE (tab != nullptr, "no partition table");
      for (size_t p = 0; p < P.table.size (); ++p)
        VP_REQUIRE (t8_shmem_array_get_gloidx (tab, (int) p) == P.table[p], "partition table entry ", p, " is ",
                    t8_shmem_array_get_gloidx (tab, (int) p), ", expected ", show (P));
    }
    if (m.geoms == 1 && nl > 0) {
      double b[6];
      VP_REQUIRE (t8_cmesh_get_local_bounding_box (cm, b), "no bounding box");
      double w[6] = { 1e300, -1e300, 1e300, -1e300, 1e300, -1e300 };
      for (int64_t t = first; t <= last; ++t)
        for (size_t k = 0; k < m.vert[t].size (); ++k) {
          w[2 * (k % 3)] = std::min (w[2 * (k % 3)], m.vert[t][k]);
          w[2 * (k % 3) + 1] = std::max (w[2 * (k % 3) + 1], m.vert[t][k]);
        }
      for (int k = 0; k < 6; ++k)
        VP_REQUIRE (b[k] == w[k], "bounding box entry ", k, " is ", b[k], " instead of ", w[k]);
    }
  } catch (vp::Failure &e) {
    throw vp::Failure (vp::str (what, ", rank ", rank, ": ", e.what ()));
  }
}

/* ------------------------------------------------------------------ construction */
static void
apply_op (t8_cmesh_t cm, const Model &m, const Op &p, bool swap)
{
  switch (p.kind) {
  case CLS:
    t8_cmesh_set_tree_class (cm, p.tree, (t8_eclass_t) m.cls[p.tree]);
    break;
  case JOIN:
    if (swap)
      t8_cmesh_set_join (cm, p.j.t1, p.j.t0, p.j.f1, p.j.f0, p.j.o);
    else
      t8_cmesh_set_join (cm, p.j.t0, p.j.t1, p.j.f0, p.j.f1, p.j.o);
    break;
  case VERT: {
    std::vector<double> tmp (m.vert[p.tree]);
    t8_cmesh_set_tree_vertices (cm, p.tree, tmp.data (), NV[m.cls[p.tree]]);
    break;
  }
  case GEOM: {
    std::unique_ptr<t8_geometry> g (make_geom (m.geom[p.tree]));
    t8_cmesh_set_tree_geometry (cm, p.tree, g.get ());
    break;
  }
  case STRING: {
    Bytes tmp (p.data);
    t8_cmesh_set_attribute_string (cm, p.tree, pkgs[p.key.first], p.key.second, tmp.c_str ());
    break;
  }
  case GLOIDX: {
    std::vector<t8_gloidx_t> tmp (p.data.size () / 8);
    memcpy (tmp.data (), p.data.data (), p.data.size ());
    t8_cmesh_set_attribute_gloidx_array (cm, p.tree, pkgs[p.key.first], p.key.second,
                                         p.persists ? (const t8_gloidx_t *) p.data.data () : tmp.data (), tmp.size (), p.persists);
    break;
  }
  case ATTR: {
    Bytes tmp (p.data);
    t8_cmesh_set_attribute (cm, p.tree, pkgs[p.key.first], p.key.second, p.persists ? (void *) p.data.data () : (void *) tmp.data (),
                            tmp.size (), p.persists);
    break;
  }
  }
}
/* the set calls in some order; calls for the same attribute keep theirs */
static void
apply (t8_cmesh_t cm, const Model &m, uint64_t order, const std::set<int> *know)
{
  std::vector<size_t> idx;
  for (size_t i = 0; i < m.ops.size (); ++i) {
    const Op &p = m.ops[i];
    if (know && !know->count (p.tree) && !(p.kind == JOIN && know->count (p.j.t1)))
      continue;
    idx.push_back (i);
  }
  if (order) {
    for (size_t i = idx.size (); i > 1; --i)
      std::swap (idx[i - 1], idx[mix (order + i) % i]);
    std::map<std::tuple<int, int, int>, std::vector<size_t>> at; /* positions by attribute */
    for (size_t i = 0; i < idx.size (); ++i) {
      const Op &p = m.ops[idx[i]];
      if (p.kind == ATTR || p.kind == STRING || p.kind == GLOIDX)
        at[{ p.tree, p.key.first, p.key.second }].push_back (i);
    }
    for (auto &[k, pos] : at) {
      std::vector<size_t> v;
      for (size_t i : pos)
        v.push_back (idx[i]);
      std::sort (v.begin (), v.end ());
      for (size_t i = 0; i < pos.size (); ++i)
        idx[pos[i]] = v[i];
    }
  }
  for (size_t i : idx)
    apply_op (cm, m, m.ops[i], order && mix (order ^ (i * 77 + 1)) % 2);
}
static void
register_all (t8_cmesh_t cm, const Model &m, uint64_t order)
{
  for (int i = 0; i < m.geoms; ++i)
    t8_cmesh_register_geometry (cm, make_geom ((int) ((i + order) % m.geoms)));
}

enum How { REPL, RANGE, OFFSETS, BCAST };
struct Build
{
  How how = REPL;
  Part part;
  int know = 0;      /* 0 only what is needed, 1 everything */
  int keep = 0;      /* face knowledge -1 after 3 */
  int root = 0;      /* of the broadcast */
  int prof = 0;      /* 1 on, 2 on and off again */
  int early = 0;     /* register geometries before the other calls */
  int preset = 0;    /* another partition setting that is overwritten */
  uint64_t order = 0; /* 0: as generated */
};
static Build
gen_build (Case &c, const Model &m, int P)
{
  Build b;
  const int n = (int) m.cls.size ();
  b.how = (How) c.weighted ({ 3, 4, 3, 3 });
  b.part = b.how == RANGE || b.how == OFFSETS ? gen_part (c, n, P) : replicated (n, P);
  b.know = c.chance (40);
  b.keep = c.chance (20);
  b.root = (int) c.below (P);
  b.prof = (int) c.weighted ({ 6, 2, 1 });
  b.early = c.chance (50);
  b.preset = (int) c.weighted ({ 8, 1, 1 });
  b.order = c.chance (70) ? 1 + c.bits () % 1000000 : 0;
  static const char *N[] = { "replicated", "range", "offsets", "bcast" };
  c.label (vp::str ("build-", N[b.how]));
  c.describe (vp::str ("build=", N[b.how], " part=", show (b.part), " know=", b.know, b.how == BCAST ? vp::str (" root=", b.root) : ""));
  return b;
}
static t8_shmem_array_t
make_table (const Part &p, sc_MPI_Comm comm)
{
  const int P = (int) p.first.size ();
  t8_shmem_init (comm);
  t8_shmem_set_type (comm, T8_SHMEM_BEST_TYPE);
  t8_shmem_array_t a = t8_cmesh_alloc_offsets (P, comm);
  if (t8_shmem_array_start_writing (a))
    for (int i = 0; i <= P; ++i)
      t8_shmem_array_set_gloidx (a, i, p.table[i]);
  t8_shmem_array_end_writing (a);
  return a;
}
static void
set_range (t8_cmesh_t cm, const Part &p, int rank, int keep)
{
  const t8_gloidx_t f = p.shared[rank] ? -p.first[rank] - 1 : p.first[rank];
  if (keep)
    t8_cmesh_set_partition_range (cm, 3, 0, 0);
  t8_cmesh_set_partition_range (cm, keep ? -1 : 3, f, p.last[rank]);
}
static t8_cmesh_t
build (const Model &m, const Build &b, int rank, sc_MPI_Comm comm)
{
  t8_cmesh_t cm = nullptr;
  const uint64_t order = b.order ? b.order + (b.how == BCAST ? 0 : (uint64_t) rank * 1000003) : 0;
  if (b.how != BCAST || rank == b.root) {
    t8_cmesh_init (&cm);
#if T8_ENABLE_DEBUG
    t8_cmesh_disable_negative_volume_check (cm);
#endif
    if (b.prof)
      t8_cmesh_set_profiling (cm, 1);
    if (b.prof == 2)
      t8_cmesh_set_profiling (cm, 0);
    if (b.early && b.how != BCAST)
      register_all (cm, m, order);
    std::set<int> know;
    const bool part = b.how == RANGE || b.how == OFFSETS;
    if (part) {
      t8_cmesh_set_dimension (cm, m.dim);
      for (int64_t t = b.part.first[rank]; t <= b.part.last[rank]; ++t) {
        know.insert ((int) t);
        for (auto &x : m.nb[t])
          if (x.tree >= 0)
            know.insert (x.tree);
      }
    }
    apply (cm, m, order, part && !b.know ? &know : nullptr);
    if (!b.early && b.how != BCAST)
      register_all (cm, m, order);
  }
  if (b.how == BCAST) {
    cm = t8_cmesh_bcast (cm, b.root, comm);
    register_all (cm, m, (uint64_t) rank);
  }
  if (b.how == RANGE) {
    if (b.preset)
      t8_cmesh_set_partition_offsets (cm, make_table (b.part, comm));
    set_range (cm, b.part, rank, b.keep);
  }
  if (b.how == OFFSETS) {
    if (b.preset == 1)
      set_range (cm, b.part, rank, 0);
    if (b.preset == 2)
      t8_cmesh_set_partition_offsets (cm, make_table (b.part, comm));
    t8_cmesh_set_partition_offsets (cm, make_table (b.part, comm));
  }
  t8_cmesh_commit (cm, comm);
  return cm;
}
static vmpi::Options
gen_opt (Case &c, int maxp)
{
  vmpi::Options o;
  static const std::vector<int> sizes = { 1, 2, 3, 4, 5, 6, 8 };
  do {
    o.nranks = c.pick (sizes);
  } while (o.nranks > maxp);
  if (c.chance (1))
    o.nranks = (int) c.range (9, 16);
  if (o.nranks > 1 && c.chance (40)) {
    std::vector<int> d;
    for (int k = 1; k <= o.nranks; ++k)
      if (o.nranks % k == 0)
        d.push_back (k);
    o.node_size = c.pick (d);
  }
  o.sched_seed = c.chance (60) ? 1 + c.below (1 << 20) : 0;
  c.describe (vp::str ("ranks=", o.nranks, "/", o.node_size));
  return o;
}

/* a model that differs from m in one fact of one tree, returned in at */
static bool
mutate (Case &c, Model &m, int &at, std::string &what)
{
  at = (int) c.below (m.cls.size ());
  switch (c.below (6)) {
  case 0:
  case 1: { /* a byte, a key, or the size of an attribute */
    std::vector<size_t> cand;
    for (size_t i = 0; i < m.ops.size (); ++i)
      if (m.ops[i].kind == ATTR && m.attr[m.ops[i].tree][m.ops[i].key] == m.ops[i].data)
        cand.push_back (i);
    if (cand.empty ())
      return false;
    Op &p = m.ops[c.pick (cand)];
    at = p.tree;
    AKey k = p.key;
    switch (c.below (3)) {
    case 0:
      p.data[c.below (p.data.size ())] ^= 1;
      what = "byte of an attribute";
      break;
    case 1:
      p.data += '!';
      what = "size of an attribute";
      break;
    default:
      k.second = 123456;
      what = "key of an attribute";
    }
    for (auto &q : m.ops) /* drop the others of this key */
      if (&q != &p && q.tree == p.tree && (q.kind == ATTR || q.kind == STRING || q.kind == GLOIDX) && q.key == p.key)
        return false;
    m.attr[at].erase (p.key);
    p.key = k;
    m.attr[at][k] = p.data;
    return true;
  }
  case 2:
    if (m.vert[at].empty ())
      return false;
    m.vert[at][c.below (m.vert[at].size ())] += 0.01;
    what = "vertex";
    return true;
  case 3: {
    std::vector<size_t> cand;
    for (size_t i = 0; i < m.ops.size (); ++i)
      if (m.ops[i].kind == JOIN && m.dim > 1)
        cand.push_back (i);
    if (cand.empty ())
      return false;
    Op &p = m.ops[c.pick (cand)];
    const int no = (int) FV[m.cls[p.j.t0]][p.j.f0].size ();
    for (auto &j : m.joins)
      if (j.t0 == p.j.t0 && j.f0 == p.j.f0)
        j.o = (p.j.o + 1) % no;
    p.j.o = (p.j.o + 1) % no;
    at = p.j.t0;
    what = "orientation";
    m.finish ();
    return true;
  }
  case 4: {
    if (m.joins.empty ())
      return false;
    for (size_t i = 0; i < m.ops.size (); ++i)
      if (m.ops[i].kind == JOIN) {
        at = m.ops[i].j.t0;
        m.ops.erase (m.ops.begin () + i);
        break;
      }
    m.joins.erase (m.joins.begin ());
    what = "join";
    m.finish ();
    return true;
  }
  default: {
    Op p { ATTR, at };
    p.key = { 1, -2 };
    p.data = "new";
    m.attr[at][p.key] = p.data;
    m.ops.push_back (p);
    what = "additional attribute";
    return true;
  }
  }
}

static void
c01 (Case &c)
{
  packages ();
  const Model m = gen_model (c, c.thorough ? 16 : 10);
  const vmpi::Options o = gen_opt (c, 8);
  const Build b = gen_build (c, m, o.nranks);
  Model mut = m;
  int at = -1;
  std::string what;
  const bool mutated = c.chance (60) && mutate (c, mut, at, what);
  if (mutated)
    c.label ("mutant-" + what);
  for (int t = 0; t + 1 < (int) m.cls.size (); ++t)
    if (!m.attr[t].empty ())
      c.nontrivial (m.joins.size () > 0 && m.cls.size () > 1);
  vp_run_ranks (o, [&] (int rank) {
    sc_MPI_Comm comm = sc_MPI_COMM_WORLD;
    t8_cmesh_t cm = build (m, b, rank, comm);
    check (cm, m, b.part, rank, "after commit");
    t8_cmesh_t again = build (m, b, rank, comm);
    check (again, m, b.part, rank, "second mesh");
    VP_REQUIRE (t8_cmesh_is_equal (cm, again) && t8_cmesh_is_equal (again, cm), "the same mesh built twice is not equal on rank ", rank);
    if (mutated) {
      t8_cmesh_t other = build (mut, b, rank, comm);
      check (other, mut, b.part, rank, "changed mesh");
      /* local trees and ghosts carry the same facts */
      if (t8_cmesh_get_local_id (cm, at) >= 0)
        VP_REQUIRE (!t8_cmesh_is_equal (cm, other) && !t8_cmesh_is_equal (other, cm), "meshes that differ in ", what, " of tree ", at,
                    " are reported equal on rank ", rank);
      t8_cmesh_destroy (&other);
    }
    t8_cmesh_destroy (&again);
    check (cm, m, b.part, rank, "at the end");
    t8_cmesh_destroy (&cm);
  });
}
static vp::Register r1 ({ "C01", c01, 60000, 900000, "at least two trees, at least one join and attributes on a tree that is not the last",
                          { "tree vertices describe any (possibly inverted) cells; the negative volume check of the debug build is off" } });

/* ------------------------------------------------------------------ histories */
enum Step { COPY, UNIFORM, TABLE, TRANGE };
struct Plan
{
  Step step;
  int src;   /* index of the mesh to derive from */
  int level = 0;
  int keep = 0, prof = 0, preset = 0, face = 3;
  Part part;
  int drop = -1; /* kept mesh destroyed afterwards */
};
static void
c02 (Case &c)
{
  packages ();
  const Model m = gen_model (c, c.thorough ? 16 : 10);
  const vmpi::Options o = gen_opt (c, 8);
  const Build b = gen_build (c, m, o.nranks);
  const int n = (int) m.cls.size ();
  std::vector<Plan> plan;
  std::vector<Part> parts = { b.part };
  const int steps = (int) c.range (1, c.thorough ? 8 : 4);
  int moves = 0;
  for (int i = 0; i < steps; ++i) {
    Plan p;
    p.step = (Step) c.weighted ({ 2, 4, 4, 3 });
    p.src = c.chance (75) ? (int) parts.size () - 1 : (int) c.below (parts.size ());
    p.keep = c.chance (60);
    p.prof = (int) c.weighted ({ 6, 2, 1 });
    p.preset = (int) c.weighted ({ 8, 1, 1, 1 });
    const Part &from = parts[p.src];
    switch (p.step) {
    case COPY:
      p.part = from;
      break;
    case UNIFORM:
      p.level = (int) c.range (0, m.dim == 3 ? 14 : 18);
      p.part = part_of (even (counts (m, p.level), o.nranks), counts (m, p.level));
      break;
    default:
      p.part = gen_part (c, n, o.nranks);
    }
    if (p.part.partitioned && from.table != p.part.table && o.nranks > 1)
      ++moves;
    static const char *N[] = { "copy", "uniform", "offsets", "range" };
    c.describe (vp::str ("; ", p.src, "->", N[p.step], p.step == UNIFORM ? vp::str (p.level) : "", " ", show (p.part)));
    c.label (vp::str ("derive-", N[p.step]));
    parts.push_back (p.part);
    plan.push_back (p);
  }
  c.nontrivial (moves > 0 && n > 1 && m.joins.size () > 0);
  vp_run_ranks (o, [&] (int rank) {
    sc_MPI_Comm comm = sc_MPI_COMM_WORLD;
    const t8_scheme *scheme = t8_scheme_new_default ();
    std::vector<t8_cmesh_t> have = { build (m, b, rank, comm) };
    std::vector<Part> P = { b.part };
    check (have[0], m, P[0], rank, "after commit");
    for (size_t i = 0; i < plan.size (); ++i) {
      const Plan &p = plan[i];
      t8_cmesh_t d;
      t8_cmesh_init (&d);
      if (p.prof)
        t8_cmesh_set_profiling (d, 1);
      if (p.prof == 2)
        t8_cmesh_set_profiling (d, 0);
      /* every mesh of the history is kept; the derived mesh takes over one reference */
      t8_cmesh_ref (have[p.src]);
      t8_cmesh_set_derive (d, have[p.src]);
      if (p.step != COPY && p.preset == 1 && p.step != UNIFORM)
        t8_scheme_ref ((t8_scheme *) scheme), t8_cmesh_set_partition_uniform (d, 1, scheme);
      if (p.step != COPY && p.preset == 2)
        t8_cmesh_set_partition_offsets (d, make_table (p.part, comm));
      if (p.step != COPY && p.preset == 3)
        t8_cmesh_set_partition_range (d, 3, 0, -1);
      switch (p.step) {
      case COPY:
        break;
      case UNIFORM:
        t8_scheme_ref ((t8_scheme *) scheme);
        t8_cmesh_set_partition_uniform (d, p.level, scheme);
        break;
      case TABLE:
        t8_cmesh_set_partition_offsets (d, make_table (p.part, comm));
        break;
      case TRANGE:
        set_range (d, p.part, rank, 0);
        break;
      }
      t8_cmesh_commit (d, comm);
      have.push_back (d);
      P.push_back (p.part);
      check (d, m, p.part, rank, vp::str ("step ", i).c_str ());
      if (p.step == COPY)
        VP_REQUIRE (t8_cmesh_is_equal (d, have[p.src]) && t8_cmesh_is_equal (have[p.src], d), "step ", i, ": the copy is not equal to its source");
      check (have[p.src], m, P[p.src], rank, vp::str ("source of step ", i).c_str ());
    }
    /* destroy in a different order */
    for (size_t i = 0; i < have.size (); ++i) {
      t8_cmesh_destroy (&have[i]);
      if (i + 1 < have.size ())
        check (have.back (), m, P.back (), rank, "last mesh");
    }
    t8_scheme_unref ((t8_scheme **) &scheme);
  });
}
static vp::Register r2 ({ "C02", c02, 25000, 375000, "several trees with joins and at least one step that moves trees between ranks", {}, 120, true });

/* ------------------------------------------------------------------ uniform bounds */
static void
c03 (Case &c)
{
  packages ();
  Model m = gen_model (c, c.thorough ? 16 : 10);
  const vmpi::Options o = gen_opt (c, 8);
  const Build b = gen_build (c, m, o.nranks);
  const int top = m.dim == 0 ? 5 : m.dim == 1 ? 30 : m.dim == 2 ? (m.cls.size () > 16 ? 27 : 29) : 18; /* N below 2^63 */
  const int level = c.chance (40) ? (int) c.below (4) : (int) c.below (top + 1);
  const auto cnt = counts (m, level);
  const auto x = even (cnt, o.nranks);
  bool equal = true;
  for (auto &v : cnt)
    equal = equal && v == cnt[0];
  const Part want = part_of (x, cnt);
  c.describe (vp::str ("level=", level, " want=", show (want)));
  c.label (equal ? "equal-counts" : "hybrid-counts");
  c.label (level > 10 ? "deep" : "shallow");
  c.nontrivial (o.nranks > 1 && m.cls.size () > 1);
  vp_run_ranks (o, [&] (int rank) {
    sc_MPI_Comm comm = sc_MPI_COMM_WORLD;
    t8_cmesh_t cm = build (m, b, rank, comm);
    const t8_scheme *scheme = t8_scheme_new_default ();
    __int128 beg = 0, lastbeg = 0;
    for (int64_t t = 0; t < want.first[rank]; ++t)
      beg += cnt[t];
    for (int64_t t = 0; t < want.last[rank]; ++t)
      lastbeg += cnt[t];
    for (int mode = 0; mode < 4; ++mode) {
      t8_gloidx_t f = -9, l = -9, cb = -9, ce = -9;
      int8_t sh = -9;
      if (mode % 2 == 0 && !equal)
        continue;
      const bool all = mode < 2;
      if (mode % 2 == 0)
        t8_cmesh_uniform_bounds_equal_element_count (cm, level, scheme, &f, all ? &cb : nullptr, &l, all ? &ce : nullptr, all ? &sh : nullptr);
      else
        t8_cmesh_uniform_bounds_for_irregular_refinement (cm, level, scheme, &f, all ? &cb : nullptr, &l, all ? &ce : nullptr, all ? &sh : nullptr,
                                                          comm);
      const char *name = mode % 2 == 0 ? "equal counts" : "irregular";
      VP_REQUIRE (f == want.first[rank] && l == want.last[rank], name, ": rank ", rank, " has trees ", f, " to ", l, " instead of ", want.first[rank],
                  " to ", want.last[rank]);
      if (!all)
        continue;
      VP_REQUIRE (sh == want.shared[rank], name, ": rank ", rank, " shared flag ", (int) sh);
      if (f <= l) {
        VP_REQUIRE (cb == (t8_gloidx_t) (x[rank] - beg), name, ": rank ", rank, " begins at element ", cb, " instead of ", (long) (x[rank] - beg));
        VP_REQUIRE (ce == (t8_gloidx_t) (x[rank + 1] - lastbeg), name, ": rank ", rank, " ends at element ", ce, " instead of ",
                    (long) (x[rank + 1] - lastbeg));
      }
    }
    check (cm, m, b.part, rank, "after the bounds");
    t8_cmesh_destroy (&cm);
    t8_scheme_unref ((t8_scheme **) &scheme);
  });
}
static vp::Register r3 ({ "C03", c03, 150000, 2250000, "several trees and ranks", {} });

/* ------------------------------------------------------------------ partition tables */
/* rand of every rank is its own, as in separate processes */
static uint32_t rand_state[64];
extern "C" void
srand (unsigned s) noexcept
{
  rand_state[std::max (0, vmpi::rank ())] = s;
}
extern "C" int
rand () noexcept
{
  uint32_t &s = rand_state[std::max (0, vmpi::rank ())];
  s = s * 1664525u + 1013904223u;
  return (int) (s >> 2);
}

struct Table
{
  std::vector<t8_gloidx_t> t; /* entries */
  std::vector<t8_gloidx_t> first, last;
  std::vector<int> shared;
  bool
  has (int p, t8_gloidx_t g) const
  {
    return first[p] <= g && g <= last[p];
  }
};
/* n trees over P processes; cuts in units of 1/K of a tree */
static Table
gen_table (Case &c, t8_gloidx_t n, int P)
{
  const t8_gloidx_t K = c.pick (std::vector<int> { 1, 2, 3, 7 });
  std::vector<t8_gloidx_t> x (P + 1);
  const int style = (int) c.weighted ({ 4, 2, 2, 3 });
  const t8_gloidx_t base = (t8_gloidx_t) c.below (n * K + 1);
  for (int p = 0; p <= P; ++p) {
    x[p] = style == 1 ? (t8_gloidx_t) ((__int128) n * K * p / P) : (t8_gloidx_t) c.below (n * K + 1);
    if (style == 2)
      x[p] = c.chance (50) ? x[p] : c.chance (50) ? 0 : n * K;
    if (style == 3) /* many cuts close to each other: chains of owners of one tree */
      x[p] = std::min (n * K, base + (t8_gloidx_t) c.below (3 * K));
  }
  x[0] = 0, x[P] = n * K;
  std::sort (x.begin (), x.end ());
  Table r;
  r.t.assign (P + 1, n), r.first.resize (P), r.last.resize (P), r.shared.assign (P, 0);
  for (int p = P - 1; p >= 0; --p) {
    if (x[p] == x[p + 1]) {
      r.t[p] = r.t[p + 1] < 0 ? -r.t[p + 1] : r.t[p + 1];
      r.first[p] = r.t[p], r.last[p] = r.t[p] - 1;
      continue;
    }
    r.first[p] = x[p] / K;
    r.last[p] = (x[p + 1] - 1) / K;
    r.shared[p] = x[p] % K != 0;
    r.t[p] = r.shared[p] ? -r.first[p] - 1 : r.first[p];
  }
  return r;
}
static std::string
show (const Table &t)
{
  std::string s;
  for (auto v : t.t)
    s += vp::str (v, ",");
  return s;
}

static void
c07 (Case &c)
{
  const int P = (int) c.range (1, 12);
  const t8_gloidx_t n = c.chance (70) ? (t8_gloidx_t) c.range (1, 20) : c.chance (50) ? ((t8_gloidx_t) 1 << 40) + (t8_gloidx_t) c.below (100) : (t8_gloidx_t) c.range (1, 1000);
  const Table A = gen_table (c, n, P), B = gen_table (c, n, P);
  c.describe (vp::str ("tables ", show (A), " ", show (B)));
  int sh = 0, empty = 0;
  std::set<t8_gloidx_t> cand { 0, n - 1 };
  for (auto *T : { &A, &B })
    for (int p = 0; p < P; ++p) {
      sh += T->shared[p];
      empty += T->first[p] > T->last[p];
      for (t8_gloidx_t d = -1; d <= 1; ++d)
        for (t8_gloidx_t g : { T->first[p] + d, T->last[p] + d })
          if (g >= 0 && g < n)
            cand.insert (g);
    }
  c.label (sh ? "shared trees" : "no shared trees");
  c.label (empty ? "empty processes" : "no empty processes");
  c.nontrivial (P > 1 && n > 1);
  const t8_gloidx_t *a = A.t.data (), *b = B.t.data ();
  for (int p = 0; p < P; ++p) {
    VP_REQUIRE (t8_offset_first (p, a) == A.first[p], "first tree of process ", p, ": ", t8_offset_first (p, a));
    VP_REQUIRE (t8_offset_last (p, a) == A.last[p], "last tree of process ", p, ": ", t8_offset_last (p, a));
    VP_REQUIRE (t8_offset_num_trees (p, a) == A.last[p] - A.first[p] + 1, "number of trees of process ", p);
    VP_REQUIRE ((t8_offset_empty (p, a) != 0) == (A.first[p] > A.last[p]), "whether process ", p, " is empty");
    VP_REQUIRE (t8_offset_first_tree_to_entry (A.first[p], A.shared[p]) == a[p], "entry of process ", p);
    int q = p + 1;
    while (q < P && A.first[q] > A.last[q])
      ++q;
    VP_REQUIRE (t8_offset_next_nonempty_rank (p, P, a) == q, "next process with trees behind ", p, ": ", t8_offset_next_nonempty_rank (p, P, a));
    for (t8_gloidx_t g : cand)
      VP_REQUIRE ((t8_offset_in_range (g, p, a) != 0) == A.has (p, g), "whether process ", p, " has tree ", g);
  }
  for (t8_gloidx_t g : cand) {
    std::vector<int> own;
    for (int p = 0; p < P; ++p)
      if (A.has (p, g))
        own.push_back (p);
    int some = -1;
    VP_REQUIRE (A.has (t8_offset_any_owner_of_tree (P, g, a), g), "an owner of tree ", g, " is ", t8_offset_any_owner_of_tree (P, g, a));
    const int start = (int) c.below (P);
    VP_REQUIRE (A.has (t8_offset_any_owner_of_tree_ext (P, start, g, a), g), "an owner of tree ", g, " starting at ", start, " is ",
                t8_offset_any_owner_of_tree_ext (P, start, g, a));
    VP_REQUIRE (t8_offset_first_owner_of_tree (P, g, a, &some) == own.front () && A.has (some, g), "first owner of tree ", g, " (some owner ", some, ")");
    some = -1;
    VP_REQUIRE (t8_offset_last_owner_of_tree (P, g, a, &some) == own.back () && A.has (some, g), "last owner of tree ", g, " (some owner ", some, ")");
    for (size_t i = 0; i < own.size (); ++i) {
      some = own[i];
      VP_REQUIRE (t8_offset_first_owner_of_tree (P, g, a, &some) == own.front () && some == own[i], "first owner of tree ", g, " given ", own[i]);
      VP_REQUIRE (t8_offset_last_owner_of_tree (P, g, a, &some) == own.back () && some == own[i], "last owner of tree ", g, " given ", own[i]);
      VP_REQUIRE (t8_offset_next_owner_of_tree (P, g, a, own[i]) == (i + 1 < own.size () ? own[i + 1] : -1), "owner of tree ", g, " next to ", own[i]);
      VP_REQUIRE (t8_offset_prev_owner_of_tree (P, g, a, own[i]) == (i > 0 ? own[i - 1] : -1), "owner of tree ", g, " before ", own[i]);
    }
    sc_array_t arr;
    sc_array_init (&arr, sizeof (int));
    t8_offset_all_owners_of_tree (P, g, a, &arr);
    std::vector<int> got ((int *) arr.array, (int *) arr.array + arr.elem_count);
    sc_array_reset (&arr);
    VP_REQUIRE (got == own, "owners of tree ", g);
  }
  /* who sends: a process keeps the trees it has, all others come from their first owner */
  std::vector<std::vector<int>> sends (P, std::vector<int> (P, 0));
  for (t8_gloidx_t g : cand) {
    int fo = 0;
    while (!A.has (fo, g))
      ++fo;
    for (int to = 0; to < P; ++to) {
      const int from = !B.has (to, g) ? -1 : A.has (to, g) ? to : fo;
      for (int p = 0; p < P; ++p)
        VP_REQUIRE ((t8_offset_sendstree (p, to, g, a, b) != 0) == (p == from), "whether process ", p, " sends tree ", g, " to ", to);
      if (from >= 0)
        sends[from][to] = 1;
    }
  }
  for (int p = 0; p < P; ++p) {
    int any = 0;
    for (int q = 0; q < P; ++q) {
      any |= sends[p][q];
      VP_REQUIRE ((t8_offset_sendsto (p, q, a, b) != 0) == sends[p][q], "whether process ", p, " sends to ", q);
    }
    VP_REQUIRE ((t8_offset_nosend (p, P, a, b) != 0) == !any, "whether process ", p, " sends anything");
    const int s0 = (int) c.below (P), s1 = (int) c.range (s0, P - 1);
    int cnt = 0;
    for (int q = s0; q <= s1; ++q)
      cnt += sends[q][p];
    VP_REQUIRE (t8_offset_range_send (s0, s1, p, a, b) == cnt, "number of senders from ", s0, " to ", s1, " to ", p);
  }
}

/* tables made by the library */
static void
c07_made (Case &c)
{
  packages ();
  Model m = gen_model (c, 12);
  const vmpi::Options o = gen_opt (c, 8);
  const int P = o.nranks;
  Build b = gen_build (c, m, P);
  if (!b.part.partitioned || c.chance (30)) {
    b.how = OFFSETS;
    b.part = gen_part (c, (int) m.cls.size (), P);
  }
  bool unshared = true;
  for (int s : b.part.shared)
    unshared = unshared && !s;
  const int proc = (int) c.below (P), percent = c.chance (30) ? 50 : (int) c.below (101), shared = (int) c.below (2);
  const t8_gloidx_t n = c.chance (50) ? (t8_gloidx_t) c.below (100) : ((t8_gloidx_t) 1 << 36) + (t8_gloidx_t) c.below (50);
  const unsigned seed = 1 + (unsigned) c.below (1000000);
  const t8_gloidx_t nr = 1 + (t8_gloidx_t) c.below (100);
  c.describe (vp::str ("tables made for ", P, " processes, proc ", proc, " percent ", percent, " ", show (b.part)));
  c.label ("made");
  c.nontrivial (P > 1);
  std::vector<std::vector<t8_gloidx_t>> rnd (P);
  vp_run_ranks (o, [&] (int rank) {
    sc_MPI_Comm comm = sc_MPI_COMM_WORLD;
    t8_shmem_init (comm);
    t8_shmem_set_type (comm, T8_SHMEM_BEST_TYPE);
    t8_shmem_array_t t = t8_cmesh_offset_concentrate (proc, comm, n);
    for (int p = 0; p <= P; ++p)
      VP_REQUIRE (t8_shmem_array_get_gloidx (t, p) == (p <= proc ? 0 : n), "concentrated table, entry ", p, ": ", t8_shmem_array_get_gloidx (t, p));
    t8_shmem_array_destroy (&t);
    t = t8_cmesh_offset_random (comm, nr, shared, seed);
    for (int p = 0; p <= P; ++p)
      rnd[rank].push_back (t8_shmem_array_get_gloidx (t, p));
    t8_shmem_array_destroy (&t);
    if (unshared) {
      t8_cmesh_t cm = build (m, b, rank, comm);
      t = percent == 50 && seed % 2 ? t8_cmesh_offset_half (cm, comm) : t8_cmesh_offset_percent (cm, comm, percent);
      for (int p = 0; p <= P; ++p) {
        /* every process but the last sends the given part of its trees to the next one */
        const t8_gloidx_t prev = p > 0 && p < P ? b.part.last[p - 1] - b.part.first[p - 1] + 1 : 0;
        const t8_gloidx_t want = p == P ? (t8_gloidx_t) m.cls.size () : p == 0 ? 0 : b.part.first[p] - prev * percent / 100;
        VP_REQUIRE (t8_shmem_array_get_gloidx (t, p) == want, "table moving ", percent, " percent, entry ", p, ": ", t8_shmem_array_get_gloidx (t, p),
                    " instead of ", want);
      }
      t8_shmem_array_destroy (&t);
      check (cm, m, b.part, rank, "after making a table");
      t8_cmesh_destroy (&cm);
    }
    t8_shmem_finalize (comm);
  });
  for (int p = 0; p < P; ++p)
    VP_REQUIRE (rnd[p] == rnd[0], "the random table differs between processes");
  /* a valid table: ordered, tree 0 to nr - 1 covered, shared exactly where marked */
  const auto &r = rnd[0];
  VP_REQUIRE (r[0] == 0 && r[P] == nr, "ends of the random table");
  t8_gloidx_t next = 0; /* first tree not yet covered */
  for (int p = 0; p < P; ++p) {
    const t8_gloidx_t f = r[p] < 0 ? -r[p] - 1 : r[p], l = (r[p + 1] < 0 ? -r[p + 1] : r[p + 1]) - 1;
    VP_REQUIRE (r[p] >= 0 || shared, "shared tree in a table without");
    VP_REQUIRE (f == next - (r[p] < 0) && l >= f - 1 && (r[p] >= 0 || l >= f), "random table: process ", p, " has trees ", f, " to ", l);
    next = l + 1;
  }
}
static void
c07_any (Case &c)
{
  if (c.chance (3))
    c07_made (c);
  else
    c07 (c);
}
static vp::Register r7 ({ "C07", c07_any, 3000000, 45000000, "several processes and trees", {} });
