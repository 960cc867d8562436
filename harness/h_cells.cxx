/* Coarse meshes from vertices: joining by coordinates, reading gmsh files, global vertex numbers. */
#include "cells.hxx"
#include <cfloat>
#include <cstring>
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>
#include <t8_cmesh/t8_cmesh.hxx>
#include <t8_cmesh/t8_cmesh_geometry.hxx>
#include <t8_cmesh/t8_cmesh_helpers.h>
#include <t8_cmesh/t8_cmesh_internal/t8_cmesh_types.h>
#include <t8_cmesh/t8_cmesh_io/t8_cmesh_readmshfile.h>
#include <t8_cmesh/t8_cmesh_vertex_connectivity/t8_cmesh_vertex_connectivity.h>
#include <t8_cmesh/t8_cmesh_vertex_connectivity/t8_cmesh_vertex_connectivity.hxx>
#include <t8_geometry/t8_geometry_implementations/t8_geometry_linear.hxx>
using namespace cells;
using vp::Case;

static void
check_facts (const Complex &K, const cm::Facts &F, const std::vector<std::vector<Nb>> &nb, const std::vector<std::vector<double>> &vert, const char *what)
{
  VP_REQUIRE (F.num == (t8_gloidx_t) K.c.size () && F.dim == K.dim, what, ": ", F.num, " trees of dimension ", F.dim, ", expected ", K.c.size (),
              " of dimension ", K.dim);
  for (size_t t = 0; t < K.c.size (); ++t) {
    VP_REQUIRE (F.t[t].seen, what, ": tree ", t, " is on no process");
    cm::TreeFacts w;
    w.cls = K.c[t].cls;
    w.nb = nb[t];
    w.vert = vert[t];
    std::string why;
    VP_REQUIRE (cm::same (w, F.t[t], why), what, ": tree ", t, " (expected and found): ", why);
  }
}

/* C04 */
static void
c04 (Case &c)
{
  Opts o;
  o.max_boxes = c.thorough ? 24 : 12;
  Complex K = gen (c, o);
  const size_t n = K.c.size ();
  size_t joins = 0;
  const auto nb = neighbours (K, &joins);
  /* vertices, possibly with the round-off of separate computations */
  double lo = DBL_MAX, hi = -DBL_MAX, big = 0;
  for (auto &x : K.x)
    for (double v : x) {
      lo = std::min (lo, v);
      hi = std::max (hi, v);
      big = std::max (big, std::fabs (v));
    }
  const bool perturb = big <= 2 * (hi - lo) && c.chance (40);
  std::vector<std::vector<double>> vert (n);
  std::vector<double> all (n * 24, 0.0);
  std::vector<t8_eclass_t> ec (n);
  for (size_t t = 0; t < n; ++t) {
    ec[t] = (t8_eclass_t) K.c[t].cls;
    for (int nd : K.c[t].n)
      for (int a = 0; a < 3; ++a) {
        double v = K.x[nd][a];
        if (perturb) {
          const int d = (int) c.below (3);
          v = d == 1 ? std::nextafter (v, DBL_MAX) : d == 2 ? std::nextafter (v, -DBL_MAX) : v;
        }
        vert[t].push_back (v);
      }
    std::copy (vert[t].begin (), vert[t].end (), all.begin () + t * 24);
  }
  const int both = (int) c.below (2);
  const bool by_stash = c.chance (40);
  const bool want_conn = by_stash ? c.chance (60) : true;
  const bool with_mesh = by_stash || c.chance (70);
  const int nranks = with_mesh ? (int) c.range (1, 2) : 1;
  c.describe (vp::str (joins, " joins, both=", both, by_stash ? " by stash" : "", perturb ? " with round-off" : "", " ranks ", nranks));
  c.label (perturb ? "round-off" : "exact");
  c.label (by_stash ? "stash" : "vertices");
  c.label (vp::str (K.dim, "D"));
  c.nontrivial (joins >= 2);
  std::vector<size_t> order (n);
  for (size_t i = 0; i < n; ++i)
    order[i] = i;
  if (by_stash && c.chance (50))
    for (size_t i = 1; i < n; ++i)
      std::swap (order[i], order[c.below (i + 1)]);
  cm::Facts F;
  vp_run_ranks (vmpi::Options { nranks, nranks, 1 }, [&] (int) {
    int *conn = nullptr;
    t8_cmesh_t m = nullptr;
    if (with_mesh) {
      t8_cmesh_init (&m);
      t8_cmesh_set_dimension (m, K.dim);
      t8_cmesh_register_geometry<t8_geometry_linear> (m);
      for (size_t i : order)
        t8_cmesh_set_tree_class (m, (t8_gloidx_t) i, ec[i]);
      for (size_t i : order)
        t8_cmesh_set_tree_vertices (m, (t8_gloidx_t) i, vert[i].data (), NV[K.c[i].cls]);
    }
    if (by_stash)
      t8_cmesh_set_join_by_stash (m, want_conn ? &conn : nullptr, both);
    else
      t8_cmesh_set_join_by_vertices (m, (t8_gloidx_t) n, ec.data (), all.data (), want_conn ? &conn : nullptr, both);
    if (want_conn) {
      for (size_t t = 0; t < n; ++t)
        for (int f = 0; f < T8_ECLASS_MAX_FACES; ++f) {
          const int *e = conn + (t * T8_ECLASS_MAX_FACES + f) * 3;
          if (f >= NF[K.c[t].cls] || nb[t][f].tree < 0) {
            VP_REQUIRE (e[0] == -1, "face ", f, " of tree ", t, " has no neighbour but is connected to tree ", e[0]);
            continue;
          }
          const Nb &w = nb[t][f];
          const int *r = conn + ((size_t) w.tree * T8_ECLASS_MAX_FACES + w.face) * 3;
          if (e[0] < 0) {
            VP_REQUIRE (!both && r[0] >= 0, "face ", f, " of tree ", t, " is not connected to face ", w.face, " of tree ", w.tree,
                        both ? " in the requested direction" : " in either direction");
            continue;
          }
          VP_REQUIRE (e[0] == w.tree && e[1] == w.face && e[2] == w.o, "face ", f, " of tree ", t, " is connected to ", e[0], ".", e[1], "/", e[2],
                      ", expected ", w.tree, ".", w.face, "/", w.o);
        }
      T8_FREE (conn);
    }
    if (with_mesh) {
      t8_cmesh_commit (m, sc_MPI_COMM_WORLD);
      cm::gather (m, F, true);
      t8_cmesh_destroy (&m);
    }
  });
  if (with_mesh)
    check_facts (K, F, nb, vert, "joined mesh");
}

/* C08 */
static void
c08 (Case &c)
{
  Opts o;
  o.max_boxes = 8;
  Complex K = gen (c, o);
  const size_t n = K.c.size ();
  const auto nb = neighbours (K);
  /* global ids: any injective numbering, and possibly identified nodes (periodic meshes) */
  std::vector<t8_gloidx_t> gid;
  std::set<t8_gloidx_t> used;
  const int style = (int) c.below (3);
  for (size_t i = 0; i < K.lat.size (); ++i) {
    t8_gloidx_t g;
    if (i && c.chance (8))
      g = gid[c.below (i)];
    else {
      g = style == 0 ? (t8_gloidx_t) used.size () : style == 1 ? (t8_gloidx_t) c.below (4 * K.lat.size ()) : (t8_gloidx_t) c.below (1ull << 40);
      while (used.count (g))
        ++g;
    }
    used.insert (g);
    gid.push_back (g);
  }
  std::map<t8_gloidx_t, std::set<std::pair<int, int>>> want;
  for (size_t t = 0; t < n; ++t)
    for (size_t v = 0; v < K.c[t].n.size (); ++v)
      want[gid[K.c[t].n[v]]].insert ({ (int) t, (int) v });
  std::vector<size_t> order (n);
  for (size_t i = 0; i < n; ++i)
    order[i] = i;
  if (c.chance (60))
    for (size_t i = 1; i < n; ++i)
      std::swap (order[i], order[c.below (i + 1)]);
  const int nranks = (int) c.range (1, 3);
  c.nontrivial (n >= 3);
  c.label (style == 0 ? "consecutive ids" : style == 1 ? "sparse ids" : "large ids");
  c.describe (vp::str (want.size (), " global vertices, ranks ", nranks));
  const uint64_t seed = c.bits ();
  vp_run_ranks (vmpi::Options { nranks, nranks, 1 }, [&] (int) {
    t8_cmesh_t m;
    t8_cmesh_init (&m);
    t8_cmesh_set_dimension (m, K.dim);
    t8_cmesh_register_geometry<t8_geometry_linear> (m);
    for (size_t i : order) {
      t8_cmesh_set_tree_class (m, (t8_gloidx_t) i, (t8_eclass_t) K.c[i].cls);
      std::vector<double> v;
      std::vector<t8_gloidx_t> g;
      for (int nd : K.c[i].n) {
        v.insert (v.end (), K.x[nd].begin (), K.x[nd].end ());
        g.push_back (gid[nd]);
      }
      t8_cmesh_set_tree_vertices (m, (t8_gloidx_t) i, v.data (), NV[K.c[i].cls]);
      t8_cmesh_set_global_vertices_of_tree (m, (t8_gloidx_t) i, g.data (), (int) g.size ());
    }
    for (size_t t = 0; t < n; ++t)
      for (int f = 0; f < NF[K.c[t].cls]; ++f)
        if (nb[t][f].tree > (int) t || (nb[t][f].tree == (int) t && nb[t][f].face > f))
          t8_cmesh_set_join (m, (t8_gloidx_t) t, nb[t][f].tree, f, nb[t][f].face, nb[t][f].o);
    t8_cmesh_commit (m, sc_MPI_COMM_WORLD);
    VP_REQUIRE (t8_cmesh_uses_vertex_connectivity (m), "the mesh does not know its global vertices");
    VP_REQUIRE (t8_cmesh_get_num_global_vertices (m) == (t8_gloidx_t) want.size () && t8_cmesh_get_num_local_vertices (m) == (t8_locidx_t) want.size (),
                "number of global vertices ", t8_cmesh_get_num_global_vertices (m), ", local ", t8_cmesh_get_num_local_vertices (m), ", expected ",
                want.size ());
    for (size_t t = 0; t < n; ++t) {
      int num = -1;
      const t8_gloidx_t *g = t8_cmesh_get_global_vertices_of_tree (m, (t8_locidx_t) t, &num);
      VP_REQUIRE (num == NV[K.c[t].cls], "tree ", t, " has ", num, " global vertices");
      for (int v = 0; v < num; ++v) {
        VP_REQUIRE (g[v] == gid[K.c[t].n[v]], "vertex ", v, " of tree ", t, " is ", g[v], ", set was ", gid[K.c[t].n[v]]);
        VP_REQUIRE (t8_cmesh_get_global_vertex_of_tree (m, (t8_locidx_t) t, v) == g[v], "vertex ", v, " of tree ", t, " asked for alone");
      }
    }
    for (auto &w : want) {
      const auto &l = t8_cmesh_get_vertex_to_tree_list (m, w.first);
      VP_REQUIRE (t8_cmesh_get_num_trees_at_vertex (m, w.first) == (int) w.second.size (), "vertex ", w.first, " has ",
                  t8_cmesh_get_num_trees_at_vertex (m, w.first), " entries, expected ", w.second.size ());
      std::set<std::pair<int, int>> got;
      for (auto &p : l)
        VP_REQUIRE (got.insert ({ (int) p.first, p.second }).second, "vertex ", w.first, " lists vertex ", p.second, " of tree ", p.first, " twice");
      VP_REQUIRE (got == w.second, "the list of vertex ", w.first, " is wrong");
    }
    size_t visited = 0;
    for (auto &e : *m->vertex_connectivity) {
      VP_REQUIRE (want.count (e.first) && e.second.size () == want[e.first].size (), "iteration over the vertices shows vertex ", e.first);
      ++visited;
    }
    VP_REQUIRE (visited == want.size (), "iteration over the vertices shows ", visited, " vertices");
    /* filling the list by hand in any order */
    {
      std::vector<std::array<t8_gloidx_t, 3>> e;
      for (auto &w : want)
        for (auto &p : w.second)
          e.push_back ({ w.first, p.first, p.second });
      uint64_t s = seed | 1;
      for (size_t i = 1; i < e.size (); ++i) {
        s = s * 6364136223846793005ull + 1442695040888963407ull;
        std::swap (e[i], e[(s >> 33) % (i + 1)]);
      }
      t8_cmesh_vertex_conn_vertex_to_tree a, b;
      VP_REQUIRE (!a.is_committed (), "a new list is committed");
      for (auto &x : e)
        a.add_vertex_to_tree (m, x[0], (t8_locidx_t) x[1], (int) x[2]);
      const bool skip = e.size () > 1;
      a.commit (m);
      VP_REQUIRE (a.is_committed (), "a committed list is not committed");
      for (auto &w : want) {
        const auto &l = a.get_tree_list_of_vertex (w.first);
        std::vector<std::pair<int, int>> got;
        for (auto &p : l)
          got.push_back ({ (int) p.first, p.second });
        const std::vector<std::pair<int, int>> sorted (w.second.begin (), w.second.end ());
        VP_REQUIRE (got == sorted, "list of vertex ", w.first,
                    " filled by hand is not the sorted list of its trees");
      }
      std::reverse (e.begin (), e.end ());
      for (auto &x : e)
        b.add_vertex_to_tree (m, x[0], (t8_locidx_t) x[1], (int) x[2]);
      VP_REQUIRE (!(a == b), "committed and uncommitted lists are equal");
      b.commit (m);
      VP_REQUIRE (a == b && b.is_equal (a), "lists filled in different order are different");
      if (skip) {
        /* a list with two entries exchanged */
        size_t i = 0, j = e.size () - 1;
        if (e[i][0] != e[j][0]) {
          t8_cmesh_vertex_conn_vertex_to_tree d;
          std::swap (e[i][0], e[j][0]);
          for (auto &x : e)
            d.add_vertex_to_tree (m, x[0], (t8_locidx_t) x[1], (int) x[2]);
          d.commit (m);
          VP_REQUIRE (!(a == d), "different lists are equal");
        }
      }
    }
    t8_cmesh_destroy (&m);
    /* a mesh without global vertices */
    t8_cmesh_init (&m);
    VP_REQUIRE (!t8_cmesh_uses_vertex_connectivity (m), "a new mesh has global vertices");
    t8_cmesh_destroy (&m);
  });
}

/* C06: gmsh files */
struct NodeInfo
{
  long tag = 0;
  int edim = 0, etag = 0;
  bool par = false;
  double uv[2] = { 0, 0 };
};
struct ScratchDir
{
  std::string d;
  ScratchDir ()
  {
    char t[] = "/tmp/vpmshXXXXXX";
    d = mkdtemp (t);
  }
  ~ScratchDir ()
  {
    unlink ((d + "/m.msh").c_str ());
    rmdir (d.c_str ());
  }
};
static const int GMSH_TYPE[NCLASS] = { 15, 1, 3, 2, 5, 4, 6, 7 };
/* position in the file of each vertex of the tree, from the figures of the gmsh manual */
static const std::vector<std::vector<int>> GMSH_ORDER
  = { { 0 }, { 0, 1 }, { 0, 1, 3, 2 }, { 0, 1, 2 }, { 0, 1, 3, 2, 4, 5, 7, 6 }, { 0, 1, 3, 2 }, { 0, 1, 2, 3, 4, 5 }, { 0, 1, 3, 2, 4 } };

static std::string
num (double x, int style)
{
  char b[64];
  snprintf (b, sizeof b, style == 0 ? "%.17g" : style == 1 ? "%.16e" : "%.18g", x);
  return b;
}

static void
c06 (Case &c)
{
  Opts o;
  o.max_boxes = c.thorough ? 16 : 8;
  Complex K = gen (c, o);
  const size_t n = K.c.size (), nn = K.lat.size ();
  const int dim = K.dim;
  /* nodes */
  std::vector<NodeInfo> N (nn);
  const int tagstyle = (int) c.below (4);
  const int extra = (int) c.below (3); /* nodes that belong to no element */
  std::vector<NodeInfo> all (nn + extra);
  {
    long t = tagstyle == 3 ? (long) c.below (1000000) + 1 : 1;
    for (auto &i : all) {
      i.tag = t;
      t += tagstyle == 0 ? 1 : tagstyle == 1 ? 1 + (long) c.below (3) : 1 + (long) c.below (50);
    }
    if (c.chance (50))
      for (size_t i = 1; i < all.size (); ++i)
        std::swap (all[i].tag, all[c.below (i + 1)].tag);
  }
  for (auto &i : all) {
    i.edim = (int) c.below (4);
    i.etag = 1 + (int) c.below (4);
  }
  const bool params = c.chance (50);
  std::map<std::pair<int, int>, bool> ent_par;
  for (auto &i : all) {
    auto k = std::make_pair (i.edim, i.etag);
    if (!ent_par.count (k))
      ent_par[k] = params && (i.edim == 1 || i.edim == 2) && c.chance (60);
    i.par = ent_par[k];
    if (i.par)
      for (int d = 0; d < i.edim; ++d)
        i.uv[d] = c.real (-4, 4);
  }
  for (size_t i = 0; i < nn; ++i)
    N[i] = all[i];
  const int fmt = (int) c.below (3);
  /* blocks of nodes: per entity, in a random order, an entity possibly in several blocks */
  std::vector<std::vector<size_t>> blocks;
  {
    std::map<std::pair<int, int>, std::vector<size_t>> by;
    for (size_t i = 0; i < all.size (); ++i)
      by[{ all[i].edim, all[i].etag }].push_back (i);
    for (auto &b : by) {
      std::vector<size_t> cur;
      for (size_t i : b.second) {
        cur.push_back (i);
        if (c.chance (10)) {
          blocks.push_back (cur);
          cur.clear ();
        }
      }
      if (!cur.empty () || c.chance (20))
        blocks.push_back (cur);
      if (blocks.back ().empty ())
        blocks.pop_back ();
    }
    for (size_t i = 1; i < blocks.size (); ++i)
      std::swap (blocks[i], blocks[c.below (i + 1)]);
  }
  const bool crlf = c.chance (10);
  const std::string nl = crlf ? "\r\n" : "\n";
  const std::string version = std::vector<std::string> { "4.1", "4", "4.0" }[c.weighted ({ 6, 0, 1 })];
  auto noise = [&] (std::string &f) {
    if (c.chance (4))
      f += "# a comment" + nl;
    if (c.chance (4))
      f += (c.chance (50) ? "  \t" : "") + nl;
  };
  std::string f;
  noise (f);
  f += "$MeshFormat" + nl + version + " 0 8" + nl + "$EndMeshFormat" + nl;
  if (c.chance (30))
    f += "$PhysicalNames" + nl + "1" + nl + "2 1 \"Nodes of a thing\"" + nl + "$EndPhysicalNames" + nl;
  if (c.chance (60))
    f += "$Entities" + nl + "1 0 0 0" + nl + "1 0 0 0 0 " + nl + "$EndEntities" + nl;
  f += "$Nodes" + nl;
  long tmin = all[0].tag, tmax = all[0].tag;
  for (auto &i : all) {
    tmin = std::min (tmin, i.tag);
    tmax = std::max (tmax, i.tag);
  }
  f += vp::str (blocks.size (), " ", all.size (), " ", tmin, " ", tmax) + nl;
  for (auto &b : blocks) {
    const NodeInfo &h = all[b[0]];
    noise (f);
    f += vp::str (h.edim, " ", h.etag, " ", h.par ? 1 : 0, " ", b.size ()) + nl;
    for (size_t i : b)
      f += vp::str (all[i].tag) + nl;
    for (size_t i : b) {
      const V x = i < nn ? K.x[i] : V { 100. + (double) i, 7, 8 };
      f += num (x[0], fmt) + " " + num (x[1], fmt) + " " + num (x[2], fmt);
      for (int d = 0; h.par && d < h.edim; ++d)
        f += " " + num (all[i].uv[d], fmt);
      f += nl;
    }
  }
  f += "$EndNodes" + nl;
  /* elements: the trees in blocks of equal class, between them elements of lower dimension */
  struct B
  {
    int cls;
    std::vector<std::vector<int>> el; /* nodes in the order of the tree */
  };
  std::vector<B> eb;
  auto lower = [&] () {
    while (c.chance (35)) {
      const int t = (int) c.below (n);
      B b { 0, {} };
      const auto &cell = K.c[t];
      if (dim >= 2 && c.chance (60)) {
        const int fc = (int) c.below (NF[cell.cls]);
        b.cls = face_shape (cell.cls, fc);
        std::vector<int> e;
        for (int v : FV[cell.cls][fc])
          e.push_back (cell.n[v]);
        b.el.push_back (e);
      }
      else {
        b.cls = VERTEX;
        for (int v : cell.n)
          b.el.push_back ({ v });
      }
      eb.push_back (b);
    }
  };
  size_t nlow = 0;
  for (size_t t = 0; t < n; ++t) {
    const size_t before = eb.size ();
    if (t == 0 || c.chance (30))
      lower ();
    nlow += eb.size () - before;
    if (eb.size () != before || t == 0 || eb.back ().cls != K.c[t].cls || c.chance (15))
      eb.push_back ({ K.c[t].cls, {} });
    eb.back ().el.push_back (K.c[t].n);
  }
  lower ();
  size_t nel = 0;
  for (auto &b : eb)
    nel += b.el.size ();
  const size_t elements_at = f.size ();
  f += "$Elements" + nl + vp::str (eb.size (), " ", nel, " 1 ", nel) + nl;
  size_t id = 1, last_token = f.size (), last_line = 0, last_header = 0;
  const bool trailing = c.chance (70);
  const std::string sep = std::vector<std::string> { " ", "  ", "\t" }[c.weighted ({ 7, 2, 1 })];
  for (auto &b : eb) {
    noise (f);
    last_header = f.size ();
    f += vp::str (DIM[b.cls], " ", 1 + c.below (3), " ", GMSH_TYPE[b.cls], " ", b.el.size ()) + nl;
    for (auto &e : b.el) {
      last_line = f.size ();
      f += vp::str (id++);
      std::vector<int> file (e.size ());
      for (size_t v = 0; v < e.size (); ++v)
        file[GMSH_ORDER[b.cls][v]] = e[v];
      for (int v : file) {
        f += sep;
        last_token = f.size ();
        f += vp::str (N[v].tag);
      }
      f += (trailing ? " " : "") + nl;
    }
  }
  f += "$EndElements" + nl;
  /* what to read and how */
  const int nranks = (int) c.range (1, 4);
  const int partition = c.chance (50);
  const int master = partition ? (int) c.below (nranks) : (int) c.range (-1, nranks);
  const int bad = c.chance (30) ? (int) c.range (1, 8) : 0;
  int read_dim = dim, cad = 0;
  bool must_fail = bad != 0, must_work = bad == 0, file_exists = true;
  std::string badtext;
  if (bad == 1)
    file_exists = false;
  else if (bad == 2) {
    const size_t p = f.find (version + " 0 8");
    const char *v[] = { "2.2", "3.0", "5.1", "1.0" };
    f.replace (p, version.size (), v[c.below (4)]);
  }
  else if (bad == 3)
    f.replace (f.find (version + " 0 8") + version.size (), 2, " 1");
  else if (bad == 4) {
    size_t cut = c.chance (30) ? (size_t) c.below (f.size ()) : c.chance (50) ? elements_at + (size_t) c.below (f.size () - elements_at) : (size_t) c.below (elements_at);
    f.resize (cut);
    /* complete if the last node of the last element has begun; of elements that are skipped any part suffices */
    must_fail = cut <= (DIM[eb.back ().cls] == dim ? last_token : last_line);
    badtext = vp::str ("cut at ", cut);
  }
  else if (bad == 5) {
    /* an element with an unknown node: the first node of the first tree */
    const std::string t = vp::str (N[K.c[0].n[0]].tag);
    /* rewrite the tag of the node in the list of nodes */
    const size_t p = f.find (nl + t + nl, f.find ("$Nodes"));
    VP_REQUIRE (p != std::string::npos && p < elements_at, "harness: tag not found");
    f.replace (p + nl.size (), t.size (), vp::str (tmax + 1 + (long) c.below (5)));
  }
  else if (bad == 6) {
    /* a node that is defined twice */
    if (all.size () >= 2) {
      const std::string t = vp::str (all[0].tag), u = vp::str (all[1].tag);
      const size_t p = f.find (nl + t + nl, f.find ("$Nodes"));
      f.replace (p + nl.size (), t.size (), u);
    }
    else {
      must_fail = false;
      must_work = true;
    }
  }
  else if (bad == 7) {
    /* an element type that is not supported */
    const std::string h = vp::str (" ", GMSH_TYPE[eb.back ().cls], " ", eb.back ().el.size ()) + nl;
    const size_t p = f.find (h, last_header);
    const char *v[] = { " 9 ", " 16 ", " 0 ", " 11 ", " 92 ", " -1 ", " 8 " };
    f.replace (p, h.find (' ', 1) + 1, v[c.below (7)]);
  }
  else if (bad == 8) {
    if (c.chance (50) && dim > 1) {
      for (read_dim = 1; read_dim < dim; ++read_dim) {
        bool has = false;
        for (auto &b : eb)
          has = has || DIM[b.cls] == read_dim;
        if (!has)
          break;
      }
      if (read_dim == dim) {
        must_fail = false;
        must_work = true;
      }
    }
    else
      cad = 1;
  }
  if (must_work)
    must_fail = false;
  static const char *badname[] = { "good file", "missing file", "unsupported version", "binary", "truncated", "unknown node", "node defined twice",
                                   "unsupported element", "nothing to read" };
  c.label (badname[bad]);
  c.label (partition ? "partitioned" : "replicated");
  c.label (tagstyle == 0 ? "dense tags" : "sparse tags");
  c.describe (vp::str (badname[bad], " ", badtext, " ranks ", nranks, partition ? " partitioned, master " : " replicated, master ", master, " tags ", tagstyle,
                       " blocks ", blocks.size (), "/", eb.size (), " lower ", nlow, params ? " parametric" : ""));
  c.nontrivial (n >= 3 || bad);
  const auto nb = neighbours (K);
  std::vector<std::vector<double>> vert (n);
  for (size_t t = 0; t < n; ++t)
    for (int v : K.c[t].n)
      vert[t].insert (vert[t].end (), K.x[v].begin (), K.x[v].end ());
  ScratchDir dir;
  const std::string prefix = dir.d + "/m";
  if (file_exists) {
    FILE *fp = fopen ((prefix + ".msh").c_str (), "wb");
    VP_REQUIRE (fp && fwrite (f.data (), 1, f.size (), fp) == f.size () && fclose (fp) == 0, "harness: cannot write the file");
  }
  cm::Facts F;
  std::vector<int> got (nranks, -1);
  std::map<long, t8_gloidx_t> gid;
  const uint64_t sched = c.bits ();
  vp_run_ranks (vmpi::Options { nranks, nranks, sched }, [&] (int rank) {
    t8_cmesh_t m;
    t8_cmesh_init (&m);
    t8_cmesh_from_msh_file (&m, prefix.c_str (), partition, sc_MPI_COMM_WORLD, read_dim, master, cad);
    got[rank] = m != nullptr;
    if (must_fail)
      VP_REQUIRE (m == nullptr, "rank ", rank, ": a mesh was read from a file with a defect: ", badname[bad]);
    if (must_work)
      VP_REQUIRE (m != nullptr, "rank ", rank, ": the file could not be read");
    if (m == nullptr)
      return;
    if (must_work) {
      VP_REQUIRE (t8_cmesh_is_committed (m), "the mesh is not committed");
      VP_REQUIRE (t8_cmesh_is_partitioned (m) == partition, "partitioned: ", t8_cmesh_is_partitioned (m));
      VP_REQUIRE (!partition || t8_cmesh_get_num_local_trees (m) == (rank == master ? (t8_locidx_t) n : 0), "rank ", rank, " has ",
                  t8_cmesh_get_num_local_trees (m), " trees of ", n, ", the master is ", master);
      if (!partition)
        VP_REQUIRE (t8_cmesh_get_num_local_trees (m) == (t8_locidx_t) n, "number of trees ", t8_cmesh_get_num_local_trees (m), ", expected ", n);
      VP_REQUIRE (t8_cmesh_get_num_ghosts (m) == 0, "number of ghosts");
      cm::gather (m, F, true);
      for (t8_locidx_t t = 0; t < t8_cmesh_get_num_local_trees (m); ++t) {
        const int *g = (const int *) t8_cmesh_get_attribute (m, t8_get_package_id (), T8_CMESH_NODE_GEOMETRY_ATTRIBUTE_KEY, t);
        const double *p = (const double *) t8_cmesh_get_attribute (m, t8_get_package_id (), T8_CMESH_NODE_PARAMETERS_ATTRIBUTE_KEY, t);
        VP_REQUIRE (g && p, "tree ", t, " has no data of its nodes");
        const auto *geom = t8_cmesh_get_tree_geometry (m, t);
        VP_REQUIRE (geom && geom->t8_geom_get_type () == T8_GEOMETRY_TYPE_LINEAR, "tree ", t, " has no linear geometry");
        int num = -1;
        const t8_gloidx_t *gv = t8_cmesh_get_global_vertices_of_tree (m, t, &num);
        VP_REQUIRE (num == NV[K.c[t].cls], "tree ", t, " has ", num, " global vertices");
        for (int v = 0; v < num; ++v) {
          const NodeInfo &i = N[K.c[t].n[v]];
          VP_REQUIRE (g[2 * v] == i.edim && g[2 * v + 1] == i.etag, "vertex ", v, " of tree ", t, " lies on entity ", g[2 * v], ".", g[2 * v + 1],
                      ", in the file on ", i.edim, ".", i.etag);
          for (int d = 0; i.par && d < i.edim; ++d)
            VP_REQUIRE (p[2 * v + d] == i.uv[d], "parameter ", d, " of vertex ", v, " of tree ", t, " is ", p[2 * v + d], ", in the file ", i.uv[d]);
          auto e = gid.insert ({ i.tag, gv[v] });
          VP_REQUIRE (e.first->second == gv[v], "node ", i.tag, " has the global vertex ids ", e.first->second, " and ", gv[v]);
        }
      }
      if (!partition) {
        std::set<int> nodes;
        for (auto &cell : K.c)
          nodes.insert (cell.n.begin (), cell.n.end ());
        VP_REQUIRE (t8_cmesh_get_num_global_vertices (m) == (t8_gloidx_t) nodes.size (), "number of global vertices ",
                    t8_cmesh_get_num_global_vertices (m), ", nodes of trees ", nodes.size ());
      }
    }
    t8_cmesh_destroy (&m);
  });
  for (int r = 1; r < nranks; ++r)
    VP_REQUIRE (got[r] == got[0], "some processes have a mesh and some have none");
  if (must_work) {
    check_facts (K, F, nb, vert, "mesh read from the file");
    std::map<t8_gloidx_t, long> inv;
    for (auto &e : gid)
      VP_REQUIRE (inv.insert ({ e.second, e.first }).second, "nodes ", e.first, " and ", inv[e.second], " have the same global vertex id ", e.second);
  }
}

static vp::Register r4 ({ "C04", c04, 40000, 400000,
                          "at least two pairs of coinciding faces",
                          { "cells of dimension 3 are right handed", "at most two cells share a face", "round-off of at most one unit in the last place" } });
static vp::Register r8 ({ "C08", c08, 40000, 600000, "at least three trees", { "replicated meshes (documented as the supported case)" } });
static vp::Register r6 ({ "C06", c06, 40000, 400000, "at least three trees or a defective file",
                          { "files in the layout of gmsh's format 4 in ASCII", "faces are shared by at most two elements" }, 120, true });
