/* Random histories of forest operations on several ranks, executed by the library and by the model. */
#pragma once
#include "fmodel.hxx"

namespace fm
{
struct Op
{
  bool adapt = false, part = false, bal = false, copy = false;
  AdaptSpec a;
  bool for_coarsening = false;
  bool no_repart = false;
  int weights = 0; /* 0 none, 1 integer weights, 2 real weights */
  uint64_t wseed = 0;
  std::vector<int64_t> custom; /* parts per 1000 for custom offsets, empty = none */
  int gather = -1;
  bool keep = false;
  bool profile = false;
};

struct HistOpts
{
  int min_ops = 1, max_ops = 4;
  int max_leaves = 500;
  int large = 8; /* permille of large forests */
  int p_balance = 25, p_remove = 0, p_recursive = 35, p_target = 20, p_weights = 25, p_custom = 20, p_coarsen_part = 25;
  int p_part = 55, p_adapt = 75, p_keep = 25, p_copy = 6;
  bool ghost = false;
  MeshOpts mesh;
  int max_ranks = 6;
  bool standalone = true;
};

struct World
{
  Mesh mesh;
  vmpi::Options opt;
  bool standalone = false;
  bool part_cmesh = false;
  int level = 0;
  int max_leaves = 500;
  int max_start = 160;
  bool ghost = false;
  int ghost_version = 3;
  std::vector<Op> ops;
  /* model */
  const t8_scheme *s = nullptr;
  Sch S;
  int maxlevel = 0;
  std::vector<Leaf> L;
  std::vector<int64_t> off;
  bool complete = true;
  bool off_known = true;
  bool balanced = false;
  /* per rank slots */
  std::vector<std::vector<Leaf>> snap;
  std::vector<AdaptCtx> ctx;
  std::vector<t8_forest_t> forest;
  std::vector<t8_forest_t> prev; /* source of the last operation if it was retained */
  std::vector<Leaf> before; /* leaves before the current operation */
  std::vector<int64_t> before_off;
  bool changed_by_balance = false;
  int owner (size_t i) const
  {
    int r = 0;
    while (off[r + 1] <= (int64_t) i)
      ++r;
    return r;
  }
};

inline void
gen_ranks (vp::Case &c, vmpi::Options &o, int max_ranks)
{
  o.nranks = 1 + (int) c.weighted ({ 3, 4, 5, 3, 2, 2, 1, 1 });
  if (o.nranks > max_ranks)
    o.nranks = max_ranks;
  if (max_ranks >= 6 && c.chance (3))
    o.nranks = (int) c.range (9, 16);
  std::vector<int> div = { 0 };
  for (int d = 1; d < o.nranks; ++d)
    if (o.nranks % d == 0)
      div.push_back (d);
  o.node_size = c.pick (div);
  o.sched_seed = c.below (1000000);
}

inline World
gen_world (vp::Case &c, const HistOpts &h)
{
  World w;
  gen_ranks (c, w.opt, h.max_ranks);
  w.mesh = gen_mesh (c, h.mesh);
  w.part_cmesh = c.chance (25);
  if (h.standalone && c.chance (10))
    w.standalone = true;
  w.level = (int) c.below (w.mesh.dim == 3 ? 3 : w.mesh.dim == 2 ? 4 : 6);
  w.max_leaves = h.max_leaves;
  w.ghost = h.ghost;
  int n = (int) c.range (h.min_ops, h.max_ops);
  if (c.permille (h.large)) {
    /* now and then a forest with thousands of elements */
    w.level += (int) c.range (1, w.mesh.dim == 3 ? 3 : w.mesh.dim == 2 ? 5 : 11);
    w.max_start = 3000;
    w.max_leaves = 4000;
    n = std::min (n, 2);
    c.label ("large");
  }
  bool removed = false;
  for (int i = 0; i < n; ++i) {
    Op o;
    if (c.chance (h.p_copy)) {
      o.copy = true;
      o.keep = c.chance (h.p_keep);
      w.ops.push_back (o);
      continue;
    }
    o.adapt = c.chance (h.p_adapt);
    o.part = c.chance (h.p_part);
    if (!o.adapt && !o.part)
      o.adapt = true;
    if (o.adapt) {
      o.a.seed = c.below (1ull << 32);
      const size_t mode = c.weighted ({ 3, 2, 2, 2 });
      o.a.p_refine = mode == 0 ? (int) c.range (0, 60) : mode == 1 ? 0 : mode == 2 ? (int) c.range (5, 100) : 5;
      o.a.p_coarsen = mode == 0 ? (int) c.range (0, 80) : mode == 1 ? (int) c.range (30, 100) : mode == 2 ? 0 : 95;
      o.a.recursive = c.chance (h.p_recursive);
      o.a.maxlev = (int) c.range (1, w.mesh.dim == 3 ? 5 : w.mesh.dim == 2 ? 7 : 9);
      if (c.chance (h.p_target)) {
        o.a.use_target = true;
        o.a.target.tree = (int) c.below (1000); /* reduced later */
        const int len = c.chance (30) ? 40 : (int) c.range (1, 12);
        const int kind = (int) c.below (3), fixed = (int) c.below (10);
        for (int l = 0; l < len; ++l)
          o.a.target.path += (char) (kind == 0 ? c.below (10) : kind == 1 ? (c.chance (10) ? c.below (10) : fixed) : 9);
        o.a.beyond = c.chance (50);
        if (len == 40)
          o.a.recursive = true; /* reach the maximum level in one step */
      }
      if (c.chance (h.p_remove)) {
        o.a.p_remove = (int) c.range (1, 60);
        removed = true;
      }
    }
    if (o.part) {
      o.for_coarsening = c.chance (h.p_coarsen_part);
      if (c.chance (h.p_weights)) {
        o.weights = 1 + (int) c.below (2);
        o.wseed = c.below (1ull << 32);
      }
      else if (!o.adapt && c.chance (h.p_custom)) {
        if (c.chance (30))
          o.gather = (int) c.below (w.opt.nranks);
        else
          for (int r = 1; r < w.opt.nranks; ++r)
            o.custom.push_back (c.chance (25) ? (c.chance (50) ? 0 : 1000) : (int64_t) c.below (1001));
        std::sort (o.custom.begin (), o.custom.end ());
        if (w.opt.nranks == 1)
          o.gather = 0;
      }
    }
    if (!removed && w.mesh.dim > 0 && c.chance (h.p_balance) && o.weights == 0 && o.custom.empty () && o.gather < 0) {
      o.bal = true;
      o.no_repart = c.chance (50);
    }
    o.keep = c.chance (h.p_keep);
    o.profile = c.chance (10);
    w.ops.push_back (o);
  }
  if (removed)
    w.part_cmesh = false; /* holes on a partitioned coarse mesh are not supported by the library */
  c.describe (vp::str ("ranks=", w.opt.nranks, "/", w.opt.node_size, " level=", w.level, w.part_cmesh ? " partitioned-cmesh" : "",
                       w.standalone ? " standalone" : ""));
  for (auto &o : w.ops)
    c.describe (vp::str ("[", o.copy ? "copy" : "",
                         o.adapt ? vp::str ("adapt r", o.a.p_refine, "c", o.a.p_coarsen, "x", o.a.p_remove,
                                            o.a.recursive ? " rec" : "", o.a.use_target ? " target" : "")
                                 : std::string (),
                         o.part ? vp::str (" part", o.for_coarsening ? "-fc" : "", o.weights ? vp::str ("-w", o.weights) : "",
                                           o.custom.size () ? "-custom" : "", o.gather >= 0 ? "-gather" : "")
                                : std::string (),
                         o.bal ? (o.no_repart ? " bal-norep" : " bal") : "", "]"));
  c.label (vp::str ("ranks-", w.opt.nranks));
  return w;
}

/* ------------------------------------------------------------------ weights: visible to the callback through this */
inline World *&
current_world ()
{
  static World *w = nullptr;
  return w;
}
inline double
weight_of (uint64_t seed, int kind, const Leaf &l)
{
  const uint64_t h = hash (seed, l);
  if (kind != 2)
    return (double) (h % 5 + (kind == 3 ? 1 : 0));
  return (h % 7 == 0) ? 0.0 : (double) ((h >> 8) % 1000) * 0.001 * ((h >> 20) % 9 == 0 ? 30 : 1) + 0.001;
}
struct WeightCfg
{
  uint64_t seed = 0;
  int kind = 0;
};
inline WeightCfg &
weight_cfg ()
{
  static WeightCfg w;
  return w;
}
inline double
weight_cb (t8_forest_t f, t8_locidx_t lt, t8_locidx_t el)
{
  const t8_element_t *e = t8_forest_get_leaf_element_in_tree (f, lt, el);
  return weight_of (weight_cfg ().seed, weight_cfg ().kind,
                    leaf_of (t8_forest_get_scheme (f), t8_forest_get_tree_class (f, lt), (int) t8_forest_global_tree_id (f, lt), e));
}

/* ------------------------------------------------------------------ reading a forest */
inline std::vector<Leaf>
read_leaves (t8_forest_t f)
{
  std::vector<Leaf> r;
  const t8_scheme *s = t8_forest_get_scheme (f);
  for (t8_locidx_t t = 0; t < t8_forest_get_num_local_trees (f); ++t) {
    const int g = (int) t8_forest_global_tree_id (f, t);
    const t8_eclass_t ec = t8_forest_get_tree_class (f, t);
    for (t8_locidx_t i = 0; i < t8_forest_get_tree_num_leaf_elements (f, t); ++i)
      r.push_back (leaf_of (s, ec, g, t8_forest_get_leaf_element_in_tree (f, t, i)));
  }
  return r;
}

/* queries of one process against each other */
inline void
check_local_queries (World &w, t8_forest_t f, const std::vector<Leaf> &mine)
{
  const t8_scheme *s = t8_forest_get_scheme (f);
  VP_REQUIRE (t8_forest_is_committed (f), "forest is not committed");
  VP_REQUIRE (t8_forest_get_num_global_trees (f) == (t8_gloidx_t) w.mesh.cls.size (), "number of global trees");
  VP_REQUIRE (t8_forest_get_local_num_leaf_elements (f) == (t8_locidx_t) mine.size (), "number of local elements ",
              t8_forest_get_local_num_leaf_elements (f), " stored ", mine.size ());
  VP_REQUIRE (t8_forest_get_dimension (f) == w.mesh.dim, "dimension");
  const t8_locidx_t nt = t8_forest_get_num_local_trees (f);
  std::set<int> trees;
  for (auto &l : mine)
    trees.insert (l.tree);
  VP_REQUIRE ((int) trees.size () == nt, "number of local trees ", nt, " but local elements lie in ", trees.size ());
  size_t lid = 0;
  for (t8_locidx_t t = 0; t < nt; ++t) {
    const t8_gloidx_t g = t8_forest_global_tree_id (f, t);
    VP_REQUIRE (g == t8_forest_get_first_local_tree_id (f) + t, "global id of local tree ", t);
    VP_REQUIRE (g >= 0 && g < (t8_gloidx_t) w.mesh.cls.size (), "global tree id ", g);
    VP_REQUIRE (t8_forest_get_local_id (f, g) == t, "local id of tree ", g);
    VP_REQUIRE (t8_forest_get_local_or_ghost_id (f, g) == t, "local (or ghost) id of tree ", g);
    VP_REQUIRE (t8_forest_tree_is_local (f, t), "local tree reported as not local");
    VP_REQUIRE ((int) t8_forest_get_tree_class (f, t) == w.mesh.cls[g], "class of tree ", g);
    VP_REQUIRE ((int) t8_forest_get_eclass (f, t) == w.mesh.cls[g], "class of tree ", g);
    VP_REQUIRE (t8_forest_get_tree_element_offset (f, t) == (t8_locidx_t) lid, "element offset of tree ", g, " is ",
                t8_forest_get_tree_element_offset (f, t), " not ", lid);
    const t8_locidx_t ct = t8_forest_ltreeid_to_cmesh_ltreeid (f, t);
    VP_REQUIRE (ct >= 0 && t8_cmesh_get_global_id (t8_forest_get_cmesh (f), ct) == g, "coarse tree of tree ", g);
    VP_REQUIRE (t8_forest_cmesh_ltreeid_to_ltreeid (f, ct) == t, "forest tree of the coarse tree of tree ", g);
    const t8_locidx_t ne = t8_forest_get_tree_num_leaf_elements (f, t);
    VP_REQUIRE (ne > 0, "a local tree without elements");
    for (t8_locidx_t i = 0; i < ne; ++i, ++lid) {
      t8_locidx_t lt = -1;
      const t8_element_t *e = t8_forest_get_leaf_element (f, (t8_locidx_t) lid, &lt);
      VP_REQUIRE (lt == t, "tree of local element ", lid, " is ", lt, " not ", t);
      VP_REQUIRE (e == t8_forest_get_leaf_element_in_tree (f, t, i), "local element ", lid, " is not element ", i, " of tree ", t);
      VP_REQUIRE (t8_forest_element_is_leaf (f, e, t), "leaf not recognised as a leaf: ", mine[lid]);
    }
    /* relatives of a leaf are no leaves */
    Elem x (s, (t8_eclass_t) w.mesh.cls[g]);
    const Leaf &l = mine[lid - 1];
    if (!l.path.empty ()) {
      elem_of (s, x.c, l.parent (), x);
      VP_REQUIRE (!t8_forest_element_is_leaf (f, x, t), "parent of a leaf taken for a leaf: ", l);
    }
    if (l.level () < s->get_maxlevel (x.c)) {
      elem_of (s, x.c, l.child (0), x);
      VP_REQUIRE (!t8_forest_element_is_leaf (f, x, t), "child of a leaf taken for a leaf: ", l);
    }
  }
  if (nt > 0 && !f->incomplete_trees) {
    /* without gaps a tree is shared with another process exactly if its first or last corner is not here */
    const Leaf &a = mine.front (), &b = mine.back ();
    bool first = false, last = false;
    for (int x : a.path)
      first |= x != 0;
    Leaf q = b;
    while (!q.path.empty ()) {
      const int id = q.path.back ();
      q.path.pop_back ();
      last |= id != w.S.num_children (q) - 1;
    }
    VP_REQUIRE ((t8_forest_first_tree_shared (f) != 0) == first, "first tree ", first ? "not " : "", "reported as shared; first element ", a);
    VP_REQUIRE ((t8_forest_last_tree_shared (f) != 0) == last, "last tree ", last ? "not " : "", "reported as shared; last element ", b);
  }
  for (int g = 0; g < (int) w.mesh.cls.size (); ++g)
    if (!trees.count (g))
      VP_REQUIRE (t8_forest_get_local_id (f, g) < 0, "tree ", g, " has no local element but a local id");
}

/* the distributed forest is a valid, ordered cover. Executed by one rank when all snapshots are present. */
inline void
check_global (World &w)
{
  std::vector<Leaf> all;
  std::vector<int64_t> off = { 0 };
  for (auto &s : w.snap) {
    all.insert (all.end (), s.begin (), s.end ());
    off.push_back ((int64_t) all.size ());
  }
  for (size_t i = 1; i < all.size (); ++i) {
    VP_REQUIRE (all[i - 1] < all[i], "elements out of order: ", all[i - 1], " before ", all[i]);
    VP_REQUIRE (!all[i - 1].ancestor_of (all[i]), "overlapping elements ", all[i - 1], " and ", all[i]);
  }
  if (w.complete) {
    /* walk: every leaf must start where the previous one ended */
    size_t i = 0;
    std::function<void (const Leaf &)> walk = [&] (const Leaf &n) {
      VP_REQUIRE (i < all.size (), "the mesh has a hole at ", n);
      if (all[i] == n) {
        ++i;
        return;
      }
      VP_REQUIRE (n.ancestor_of (all[i]), "the mesh has a hole at ", n, " next element is ", all[i]);
      for (auto &ch : w.S.children (n))
        walk (ch);
    };
    for (size_t t = 0; t < w.mesh.cls.size (); ++t)
      walk (Leaf { (int) t, "" });
    VP_REQUIRE (i == all.size (), "elements outside of the mesh");
  }
  for (int r = 0; r < w.opt.nranks; ++r) {
    VP_REQUIRE (t8_forest_get_global_num_leaf_elements (w.forest[r]) == (t8_gloidx_t) all.size (), "global element count ",
                t8_forest_get_global_num_leaf_elements (w.forest[r]), " on rank ", r, " but there are ", all.size ());
    if (off[r + 1] > off[r])
      VP_REQUIRE (t8_forest_get_first_local_leaf_element_id (w.forest[r]) == off[r], "global index of the first element of rank ", r,
                  " is ", t8_forest_get_first_local_leaf_element_id (w.forest[r]), " not ", off[r]);
  }
  for (size_t i = 0; i < std::max (all.size (), w.L.size ()); ++i) {
    VP_REQUIRE (i < all.size (), "element ", w.L[i], " is missing (", all.size (), " elements, expected ", w.L.size (), ")");
    VP_REQUIRE (i < w.L.size (), "unexpected element ", all[i], " (", all.size (), " elements, expected ", w.L.size (), ")");
    VP_REQUIRE (all[i] == w.L[i], "element ", i, " is ", all[i], " but should be ", w.L[i]);
  }
  if (w.off_known)
    VP_REQUIRE (off == w.off, "the process boundaries differ from the expected ones: rank r starts at ", [&] {
      std::string s;
      for (size_t i = 0; i < off.size (); ++i)
        s += vp::str (off[i], "/", w.off[i], " ");
      return s;
    }());
  w.off = off;
  w.off_known = true;
}

inline std::vector<int64_t>
even (int64_t n, int p)
{
  std::vector<int64_t> o;
  for (int i = 0; i <= p; ++i)
    o.push_back (n * i / p);
  return o;
}

/* first index of the complete family containing leaf i, -1 if none */
inline int64_t
family_start (World &w, const std::vector<Leaf> &L, int64_t i)
{
  const Leaf &l = L[i];
  if (l.path.empty ())
    return -1;
  const int64_t s = i - l.id ();
  const Leaf par = l.parent ();
  const int n = w.S.num_children (par);
  if (s < 0 || s + n > (int64_t) L.size ())
    return -1;
  for (int k = 0; k < n; ++k)
    if (L[s + k] != par.child (k))
      return -1;
  return s;
}

/* checks a partition of the given leaves; ideal offsets computed from the request */
inline void
check_partition (World &w, const Op &o, const std::vector<Leaf> &L, const std::vector<int64_t> &off)
{
  const int P = w.opt.nranks;
  const int64_t N = (int64_t) L.size ();
  std::vector<std::vector<int64_t>> ok (P + 1); /* permitted uncorrected positions */
  if (o.gather >= 0) {
    for (int i = 0; i <= P; ++i)
      ok[i] = { i <= o.gather ? 0 : N };
  }
  else if (!o.custom.empty ()) {
    ok[0] = { 0 };
    for (int i = 1; i < P; ++i)
      ok[i] = { o.custom[i - 1] * N / 1000 };
    ok[P] = { N };
  }
  else if (o.weights) {
    std::vector<double> pre (N + 1, 0.);
    for (int64_t i = 0; i < N; ++i)
      pre[i + 1] = pre[i] + weight_of (o.wseed, o.weights, L[i]);
    const double W = pre[N];
    for (int i = 0; i <= P; ++i) {
      const double ideal = W * i / P, eps = 1e-9 * (1 + W);
      for (int64_t k = 0; k <= N; ++k) {
        /* a boundary is right when no other place is closer by more than the element next to it */
        const double lo = k > 0 ? pre[k - 1] : pre[k], hi = k < N ? pre[k + 1] : pre[k];
        if ((lo - eps <= ideal && ideal <= hi + eps))
          ok[i].push_back (k);
      }
    }
    ok[0] = { 0 };
    ok[P] = { N };
  }
  else {
    const auto e = even (N, P);
    for (int i = 0; i <= P; ++i)
      ok[i] = { e[i] };
  }
  for (int i = 0; i <= P; ++i) {
    std::set<int64_t> allowed;
    for (int64_t k : ok[i]) {
      int64_t fs = -1;
      if (o.for_coarsening && k > 0 && k < N && (fs = family_start (w, L, k)) >= 0 && fs != k) {
        allowed.insert (fs);
        allowed.insert (fs + w.S.num_children (L[k].parent ()));
      }
      else
        allowed.insert (k);
    }
    VP_REQUIRE (allowed.count (off[i]), "process boundary ", i, " of ", P, " is at element ", off[i], " of ", N,
                ", expected ", *allowed.begin (), allowed.size () > 1 ? vp::str (" to ", *allowed.rbegin ()) : std::string (),
                o.for_coarsening ? " (for coarsening)" : "", o.weights ? " (weighted)" : "");
  }
}

inline double
total_weight (const Op &o, const std::vector<Leaf> &L)
{
  double s = 0;
  for (auto &l : L)
    s += weight_of (o.wseed, o.weights, l);
  return s;
}

typedef std::function<void (World &, int rank, t8_forest_t, int step)> Hook;
typedef std::function<void (World &, int step, const Op &)> GlobalHook;

/* checks of the adaptation callback sequence against the leaves of one rank: each leaf is offered, families are exactly
 * the leaves below their parent, and the result is what the answers say */
inline std::vector<Leaf>
replay_log (World &w, const AdaptSpec &a, const std::vector<Leaf> &in, const AdaptCtx &x)
{
  std::vector<Leaf> out;
  std::vector<Leaf> pending; /* recursion stack, top at the back */
  size_t pos = 0;
  VP_REQUIRE (x.function_seen, "the callback did not find the user function of the forest");
  for (auto &c : x.log) {
    const Leaf &e = c.elems[0];
    if (!pending.empty ()) {
      VP_REQUIRE (!c.is_family && c.elems.size () == 1 && e == pending.back (), "recursive refinement offered ", e, " instead of ",
                  pending.back ());
      pending.pop_back ();
      if (c.ret == 1 && e.level () < w.maxlevel) {
        auto ch = w.S.children (e);
        for (size_t i = ch.size (); i-- > 0;)
          pending.push_back (ch[i]);
      }
      else if (c.ret != -2)
        out.push_back (e);
      continue;
    }
    if (pos < in.size () && e == in[pos]) {
      if (!c.is_family)
        VP_REQUIRE (c.elems.size () == 1, "several elements offered without being a family");
      if (c.is_family) {
        VP_REQUIRE (!e.path.empty (), "a root element offered as a family");
        const Leaf par = e.parent ();
        for (size_t k = 0; k < c.elems.size (); ++k) {
          VP_REQUIRE (pos + k < in.size () && in[pos + k] == c.elems[k] && c.elems[k].level () == e.level ()
                        && par.ancestor_of (c.elems[k]),
                      "offered family ", par, " has a member ", c.elems[k], " which is not the next leaf");
        }
        /* nothing else of the whole forest may lie below the parent */
        auto lo = std::lower_bound (w.before.begin (), w.before.end (), par);
        size_t cnt = 0;
        while (lo != w.before.end () && par.ancestor_of (*lo)) {
          ++cnt;
          ++lo;
        }
        VP_REQUIRE (cnt == c.elems.size (), "family of ", par, " offered with ", c.elems.size (), " members, but ", cnt,
                    " leaves lie below it");
      }
      if (c.ret == 1 && e.level () < w.maxlevel) {
        auto ch = w.S.children (e);
        if (a.recursive)
          for (size_t i = ch.size (); i-- > 0;)
            pending.push_back (ch[i]);
        else
          out.insert (out.end (), ch.begin (), ch.end ());
        ++pos;
      }
      else if (c.ret == -1) {
        out.push_back (e.parent ());
        pos += c.elems.size ();
      }
      else if (c.ret == -2)
        ++pos;
      else {
        out.push_back (e);
        ++pos;
      }
      continue;
    }
    VP_REQUIRE (a.recursive && c.is_family, "element ", e, " offered out of turn");
    const Leaf par = e.parent ();
    VP_REQUIRE (out.size () >= c.elems.size (), "recursive coarsening of unknown elements");
    for (size_t k = 0; k < c.elems.size (); ++k)
      VP_REQUIRE (out[out.size () - c.elems.size () + k] == c.elems[k] && c.elems[k].level () == e.level ()
                    && par.ancestor_of (c.elems[k]),
                  "recursively offered family ", par, " is not the end of the new elements");
    if (out.size () > c.elems.size ())
      VP_REQUIRE (!par.ancestor_of (out[out.size () - c.elems.size () - 1]), "recursive coarsening to ", par,
                  " overlaps other elements");
    if (c.ret == -1) {
      /* leaves of other processes below the parent would overlap */
      out.resize (out.size () - c.elems.size ());
      out.push_back (par);
    }
  }
  VP_REQUIRE (pos == in.size (), "element ", in[pos], " was not offered to the callback");
  VP_REQUIRE (pending.empty (), "recursive refinement stopped early at ", pending.back ());
  return out;
}

/* Execute the history. hook runs on every rank after every step (with w.L/w.off describing the forest). */
inline void
run_world (World &w, const Hook &hook)
{
  const int P = w.opt.nranks;
  w.s = w.standalone ? t8_scheme_new_standalone () : t8_scheme_new_default ();
  w.S = Sch { w.s, &w.mesh, {} };
  w.snap.resize (P);
  w.ctx.resize (P);
  w.forest.resize (P);
  w.prev.resize (P);
  current_world () = &w;
  std::vector<std::vector<std::pair<t8_forest_t, std::vector<Leaf>>>> kept (P);
  vp_run_ranks (w.opt, [&] (int rank) {
    sc_MPI_Comm comm = sc_MPI_COMM_WORLD;
    t8_cmesh_t cm = build_cmesh (w.mesh, comm);
    vmpi::sync ();
    if (rank == 0) {
      if (w.standalone)
        for (int c : w.mesh.cls)
          if (c == TRI || c == TET || c == PRISM || c == PYRA)
            w.standalone = false;
      if (!w.standalone && w.s->get_maxlevel (T8_ECLASS_QUAD) != 29) {
        w.s->unref ();
        w.s = t8_scheme_new_default ();
        w.S.s = w.s;
      }
      while (w.level > 0 && uniform_count (w.mesh.cls, w.level) > (uint64_t) w.max_start)
        --w.level;
      w.maxlevel = 1000;
      for (int c : w.mesh.cls)
        w.maxlevel = std::min (w.maxlevel, w.s->get_maxlevel ((t8_eclass_t) c));
      w.L = uniform_leaves (w.S, w.level);
      w.off = even ((int64_t) w.L.size (), P);
    }
    vmpi::sync ();
    if (w.part_cmesh) {
      t8_cmesh_t d;
      t8_cmesh_init (&d);
      t8_cmesh_set_derive (d, cm);
      w.s->ref ();
      t8_cmesh_set_partition_uniform (d, w.level, w.s);
      t8_cmesh_commit (d, comm);
      cm = d;
    }
    w.s->ref ();
    t8_forest_t f;
    t8_forest_init (&f);
    t8_forest_set_cmesh (f, cm, comm);
    t8_forest_set_scheme (f, w.s);
    t8_forest_set_level (f, w.level);
    if (w.ghost)
      t8_forest_set_ghost_ext (f, 1, T8_GHOST_FACES, w.ghost_version);
    t8_forest_commit (f);
    for (int step = 0; step <= (int) w.ops.size (); ++step) {
      if (step > 0) {
        Op &o = w.ops[step - 1];
        vmpi::sync ();
        if (rank == 0) {
          /* bound the size and compute the expected result */
          w.before = w.L;
          w.before_off = w.off;
          if (o.adapt) {
            if (o.a.use_target) {
              o.a.target.tree %= (int) w.mesh.cls.size ();
              Leaf t { o.a.target.tree, "" };
              for (char ch : o.a.target.path) {
                if (t.level () >= w.maxlevel)
                  break;
                t = t.child (ch % w.S.num_children (t));
              }
              o.a.target = t;
            }
            if (o.a.p_remove) {
              /* never remove all elements of a tree of a process */
              for (int r = 0; r < P; ++r)
                for (int64_t i = w.off[r]; i < w.off[r + 1]; ++i)
                  if (i == w.off[r] || w.L[i].tree != w.L[i - 1].tree)
                    o.a.protect.insert (w.L[i + (int64_t) (hash (o.a.seed, w.L[i]) % 2 == 0 || i + 1 >= w.off[r + 1]
                                                               || w.L[i + 1].tree != w.L[i].tree
                                                             ? 0
                                                             : 1)]);
            }
            while (true) {
              std::vector<Leaf> n;
              for (int r = 0; r < P; ++r) {
                const std::vector<Leaf> in (w.L.begin () + w.off[r], w.L.begin () + w.off[r + 1]);
                const auto x = adapt_model (w.S, o.a, in, w.maxlevel);
                n.insert (n.end (), x.begin (), x.end ());
              }
              size_t size = n.size ();
              if (o.bal && (int) size <= w.max_leaves)
                size = balance_model (w.S, n, w.max_leaves).size ();
              if ((int) size <= w.max_leaves || o.a.p_refine + (o.a.use_target ? 1 : 0) == 0)
                break;
              if (o.a.p_refine == 0)
                o.a.use_target = false;
              o.a.p_refine /= 2;
            }
          }
          if (o.weights) {
            /* the sum of the weights of the partitioned elements has to be positive */
            std::vector<Leaf> n = w.L;
            if (o.adapt && !w.complete)
              o.weights = 3;
            else if (o.adapt) {
              n.clear ();
              for (int r = 0; r < P; ++r) {
                const auto x = adapt_model (w.S, o.a, std::vector<Leaf> (w.L.begin () + w.off[r], w.L.begin () + w.off[r + 1]), w.maxlevel);
                n.insert (n.end (), x.begin (), x.end ());
              }
            }
            if (total_weight (o, n) <= 0)
              o.weights = 3;
          }
          weight_cfg () = { o.wseed, o.weights };
          if (const char *tr = getenv ("VP_TRACE")) {
            FILE *out = fopen (tr, "a");
            fprintf (out, "step %d offsets", step);
            for (auto x : w.off)
              fprintf (out, " %ld", (long) x);
            fprintf (out, " weights:");
            for (auto &l : w.L)
              fprintf (out, " %s=%g", show (l).c_str (), o.weights ? weight_of (o.wseed, o.weights, l) : 1.);
            fprintf (out, " custom:");
            for (auto x : o.custom)
              fprintf (out, " %ld", (long) (x * (int64_t) w.L.size () / 1000));
            fprintf (out, "\n");
            fclose (out);
          }
        }
        vmpi::sync ();
        w.prev[rank] = o.keep ? f : nullptr;
        if (o.keep) {
          t8_forest_ref (f);
          kept[rank].push_back ({ f, w.snap[rank] });
        }
        t8_forest_t n;
        w.ctx[rank] = AdaptCtx { &o.a, 0, {} };
        if (o.gather >= 0) {
          t8_forest_t g = t8_forest_new_gather (f, o.gather);
          n = g;
        }
        else {
          t8_forest_init (&n);
          t8_forest_set_user_data (n, &w.ctx[rank]);
          t8_forest_set_user_function (n, (t8_generic_function_pointer) user_function);
          if (o.profile)
            t8_forest_set_profiling (n, 1);
          bool have = false;
          if (o.copy) {
            t8_forest_set_copy (n, f);
            have = true;
          }
          if (o.adapt) {
            t8_forest_set_adapt (n, f, adapt_cb, o.a.recursive);
            have = true;
          }
          if (o.part) {
            t8_forest_set_partition (n, have ? nullptr : f, o.for_coarsening);
            have = true;
            if (o.weights)
              t8_forest_set_partition_weight_function (n, weight_cb);
            if (!o.custom.empty ())
              t8_forest_set_partition_offset (
                n, rank == 0 ? 0 : o.custom[rank - 1] * (t8_gloidx_t) w.before.size () / 1000);
          }
          if (o.bal)
            t8_forest_set_balance (n, have ? nullptr : f, o.no_repart);
          if (w.ghost)
            t8_forest_set_ghost_ext (n, 1, T8_GHOST_FACES, w.ghost_version);
          t8_forest_commit (n);
        }
        f = n;
      }
      w.forest[rank] = f;
      w.snap[rank] = read_leaves (f);
      check_local_queries (w, f, w.snap[rank]);
      vmpi::sync ();
      if (rank == 0) {
        if (step > 0) {
          Op &o = w.ops[step - 1];
          w.changed_by_balance = false;
          w.balanced = false;
          if (o.adapt) {
            std::vector<Leaf> n;
            std::vector<int64_t> noff = { 0 };
            for (int r = 0; r < P; ++r) {
              const std::vector<Leaf> in (w.before.begin () + w.before_off[r], w.before.begin () + w.before_off[r + 1]);
              auto x = replay_log (w, o.a, in, w.ctx[r]);
              if (w.complete) {
                const auto y = adapt_model (w.S, o.a, in, w.maxlevel);
                for (size_t i = 0; i < std::max (x.size (), y.size ()); ++i)
                  VP_REQUIRE (i < x.size () && i < y.size () && x[i] == y[i], "the callbacks of rank ", r, " lead to ",
                              i < x.size () ? show (x[i]) : std::string ("end"), " but should lead to ",
                              i < y.size () ? show (y[i]) : std::string ("end"), o.a.recursive ? " (recursive)" : "");
              }
              n.insert (n.end (), x.begin (), x.end ());
              noff.push_back ((int64_t) n.size ());
            }
            if (o.a.p_remove)
              w.complete = false;
            w.L = n;
            w.off = noff;
            w.off_known = true;
          }
          if (o.part) {
            if (o.weights || o.for_coarsening)
              w.off_known = false; /* judged after the fact */
            else if (o.gather >= 0) {
              for (int i = 0; i <= P; ++i)
                w.off[i] = i <= o.gather ? 0 : (int64_t) w.L.size ();
            }
            else if (!o.custom.empty ()) {
              for (int i = 1; i < P; ++i)
                w.off[i] = o.custom[i - 1] * (int64_t) w.L.size () / 1000;
            }
            else
              w.off = even ((int64_t) w.L.size (), P);
          }
          if (o.bal) {
            const auto n = balance_model (w.S, w.L);
            w.changed_by_balance = n.size () != w.L.size ();
            if (!o.no_repart && w.changed_by_balance) {
              w.off = even ((int64_t) n.size (), P);
              w.off_known = true;
            }
            else if (w.off_known && w.changed_by_balance) {
              /* descendants stay with the owner */
              std::vector<int64_t> noff = { 0 };
              size_t j = 0;
              for (int r = 0; r < P; ++r) {
                for (int64_t i = w.off[r]; i < w.off[r + 1]; ++i)
                  while (j < n.size () && w.L[i].ancestor_of (n[j]))
                    ++j;
                noff.push_back ((int64_t) j);
              }
              w.off = noff;
            }
            w.L = n;
            w.balanced = true;
          }
        }
        check_global (w);
        if (step > 0 && w.ops[step - 1].part && !w.ops[step - 1].bal)
          check_partition (w, w.ops[step - 1], w.L, w.off);
      }
      vmpi::sync ();
      hook (w, rank, f, step);
      vmpi::sync ();
    }
    for (auto &k : kept[rank]) {
      const auto now = read_leaves (k.first);
      VP_REQUIRE (now == k.second, "a retained source forest changed");
      VP_REQUIRE (t8_forest_get_local_num_leaf_elements (k.first) == (t8_locidx_t) now.size (), "element count of a retained forest");
    }
    /* release in random order */
    std::vector<t8_forest_t> rel;
    for (auto &k : kept[rank])
      rel.push_back (k.first);
    rel.insert (rel.begin () + (rel.empty () ? 0 : (w.opt.sched_seed % (rel.size () + 1))), f);
    for (auto &x : rel)
      t8_forest_unref (&x);
  });
  w.s->unref ();
}
} // namespace fm
