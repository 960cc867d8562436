/* F08 top-down searches, F09 comparison of a forest with its adapted successor. */
#include "fhist.hxx"
#include <t8_forest/t8_forest_search/t8_forest_search.hxx>
using vp::Case;
using namespace fm;

/* ------------------------------------------------------------------ F08 */
namespace
{
struct Query
{
  uint64_t seed = 0;
  int percent = 0;
  Leaf target; /* matches elements on the way to this leaf as well */
};

struct Spec
{
  uint64_t seed = 0;
  int percent = 100; /* share of elements for which the search goes on */
  std::vector<Query> q;
  bool
  elem (const Leaf &l) const
  {
    return (int) (hash (seed, l) % 100) < percent;
  }
  bool
  match (size_t i, const Leaf &l) const
  {
    return l.ancestor_of (q[i].target) || (int) (hash (q[i].seed, l) % 100) < q[i].percent;
  }
};

struct Event
{
  bool query = false;
  Leaf e;
  bool is_leaf = false;
  int64_t index = 0, count = 0;
  const t8_element_t *first = nullptr;
  std::vector<size_t> active;
  int face = -1;
};
inline std::string
show (const Event &v)
{
  std::string a;
  for (size_t i : v.active)
    a += vp::str (" ", i);
  return vp::str (v.query ? "query callback" : "callback", " for ", v.e, v.is_leaf ? " (leaf)" : "", " with ", v.count, " leaves from ",
                  v.index, v.query ? " active" : "", a);
}

struct Ctx
{
  const Spec *s = nullptr;
  std::vector<Event> log;
};

Event
event (t8_forest_t f, t8_locidx_t lt, const t8_element_t *e, bool leaf, const t8_element_array_t *leaves, t8_locidx_t index)
{
  Event v;
  const t8_locidx_t nl = t8_forest_get_num_local_trees (f);
  const int g = (int) (lt < nl ? t8_forest_global_tree_id (f, lt) : t8_forest_ghost_get_global_treeid (f, lt - nl));
  v.e = leaf_of (t8_forest_get_scheme (f), t8_forest_get_tree_class (f, lt), g, e);
  v.is_leaf = leaf;
  v.index = index;
  v.count = (int64_t) t8_element_array_get_count (leaves);
  v.first = v.count > 0 ? t8_element_array_index_locidx (leaves, 0) : nullptr;
  return v;
}

int
c_elem (t8_forest_t f, const t8_locidx_t lt, const t8_element_t *e, const int leaf, const t8_element_array_t *leaves,
        const t8_locidx_t index)
{
  Ctx *x = (Ctx *) t8_forest_get_user_data (f);
  x->log.push_back (event (f, lt, e, leaf, leaves, index));
  return x->s->elem (x->log.back ().e);
}
void
c_query (t8_forest_t f, const t8_locidx_t lt, const t8_element_t *e, const int leaf, const t8_element_array_t *leaves,
         const t8_locidx_t index, sc_array_t *queries, sc_array_t *idx, int *matches, const size_t n)
{
  Ctx *x = (Ctx *) t8_forest_get_user_data (f);
  Event v = event (f, lt, e, leaf, leaves, index);
  v.query = true;
  VP_REQUIRE (queries->elem_count == x->s->q.size (), "queries handed to the callback are not the given ones");
  VP_REQUIRE (idx->elem_count == n, "number of active queries ", n, " but ", idx->elem_count, " indices");
  for (size_t i = 0; i < n; ++i) {
    const size_t k = *(size_t *) sc_array_index (idx, i);
    VP_REQUIRE (k < x->s->q.size (), "index of a query out of range");
    VP_REQUIRE (*(uint64_t *) sc_array_index (queries, k) == x->s->q[k].seed, "query ", k, " is not the given one");
    v.active.push_back (k);
    matches[i] = x->s->match (k, v.e);
  }
  x->log.push_back (v);
}

/* the expected visits below e */
struct Walk
{
  const std::vector<Leaf> &L; /* leaves of the process */
  const std::vector<const t8_element_t *> &ptr;
  Sch &S;
  const Spec &s;
  const std::vector<Event> &log;
  size_t pos = 0;
  size_t first_of_tree = 0;
  std::string what;
  void
  visit (const Leaf &e, size_t lo, size_t hi, const std::vector<size_t> &active)
  {
    const bool queries = !s.q.empty ();
    if (queries && active.empty ())
      return;
    const bool leaf = hi - lo == 1 && L[lo] == e;
    VP_REQUIRE (pos < log.size (), what, ": ", e, " was not visited");
    check (log[pos], e, lo, hi, leaf);
    VP_REQUIRE (!log[pos].query, what, ": query callback for ", e, " before the element callback");
    ++pos;
    if (!s.elem (e))
      return;
    std::vector<size_t> next;
    if (queries) {
      VP_REQUIRE (pos < log.size (), what, ": queries of ", e, " were not checked");
      check (log[pos], e, lo, hi, leaf);
      VP_REQUIRE (log[pos].query, what, ": no query callback for ", e);
      VP_REQUIRE (log[pos].active == active, what, ": queries of ", e, " checked: ", show (log[pos]), " but active are ", [&] {
        std::string a;
        for (size_t i : active)
          a += vp::str (" ", i);
        return a;
      }());
      ++pos;
      for (size_t i : active)
        if (s.match (i, e))
          next.push_back (i);
    }
    if (leaf)
      return;
    for (auto &ch : S.children (e)) {
      size_t b = lo;
      while (b < hi && ch.ancestor_of (L[b]))
        ++b;
      if (b > lo)
        visit (ch, lo, b, next);
      lo = b;
    }
    VP_REQUIRE (lo == hi, what, ": leaves below ", e, " are not below its children");
  }
  void
  check (const Event &v, const Leaf &e, size_t lo, size_t hi, bool leaf)
  {
    VP_REQUIRE (v.e == e && v.is_leaf == leaf && v.index == (int64_t) (lo - first_of_tree) && v.count == (int64_t) (hi - lo), what, ": ",
                show (v), ", expected ", e, leaf ? " (leaf)" : "", " with ", hi - lo, " leaves from ", lo - first_of_tree);
    VP_REQUIRE (v.first == ptr[lo], what, ": the leaves handed over for ", e, " do not start with its first leaf");
  }
  void
  all ()
  {
    std::vector<size_t> active;
    for (size_t i = 0; i < s.q.size (); ++i)
      active.push_back (i);
    for (size_t lo = 0; lo < L.size ();) {
      size_t hi = lo;
      while (hi < L.size () && L[hi].tree == L[lo].tree)
        ++hi;
      VP_REQUIRE (pos < log.size (), what, ": tree ", L[lo].tree, " was not entered");
      const Leaf start = log[pos].e;
      VP_REQUIRE (start.ancestor_of (L[lo]) && start.ancestor_of (L[hi - 1]), what, ": search in tree ", L[lo].tree, " starts at ", start,
                  " which does not contain all leaves of the tree");
      first_of_tree = lo;
      visit (start, lo, hi, active);
      lo = hi;
    }
    VP_REQUIRE (pos == log.size (), what, ": unexpected ", show (log[pos]));
  }
};

/* faces */
struct FCtx
{
  uint64_t seed = 0;
  int percent = 100;
  std::vector<Event> log;
  bool
  go (const Leaf &l) const
  {
    return (int) (hash (seed, l) % 100) < percent;
  }
};
int
face_cb (const t8_forest_t f, const t8_locidx_t lt, const t8_element_t *e, const int face, const int leaf,
         const t8_element_array_t *leaves, const t8_locidx_t index, void *user)
{
  FCtx *x = (FCtx *) user;
  Event v = event (f, lt, e, leaf, leaves, index);
  v.face = face;
  x->log.push_back (v);
  return x->go (v.e);
}

struct FaceWalk
{
  const std::vector<Leaf> &L; /* leaves of the tree */
  Sch &S;
  const FCtx &x;
  int64_t base; /* added to the position in L */
  size_t pos = 0;
  void
  visit (const Leaf &e, int face, size_t lo, size_t hi)
  {
    const bool leaf = hi - lo == 1 && L[lo] == e;
    VP_REQUIRE (pos < x.log.size (), "face iteration did not visit ", e);
    const Event &v = x.log[pos++];
    VP_REQUIRE (v.e == e && v.is_leaf == leaf && v.index == base + (int64_t) lo && v.count == (int64_t) (hi - lo) && v.face == face,
                "face iteration: ", show (v), " face ", v.face, ", expected ", e, leaf ? " (leaf)" : "", " face ", face, " with ", hi - lo,
                " leaves from ", base + (int64_t) lo);
    if (leaf || !x.go (e))
      return;
    struct Todo
    {
      Leaf c;
      int face;
      size_t lo, hi;
    };
    std::vector<Todo> todo;
    const Cell k = S.cell (e);
    for (auto &ch : S.children (e)) {
      size_t b = lo;
      while (b < hi && ch.ancestor_of (L[b]))
        ++b;
      if (b > lo) {
        const Cell kc = S.cell (ch);
        for (int g = 0; g < NF[kc.shape]; ++g) {
          bool all = true;
          for (auto &p : face_points (kc, g))
            all = all && side (k, face, p) == 0;
          if (all)
            todo.push_back ({ ch, g, lo, b });
        }
      }
      lo = b;
    }
    while (!todo.empty ()) {
      VP_REQUIRE (pos < x.log.size (), "face iteration over face ", face, " of ", e, " did not visit ", todo[0].c);
      size_t i = 0;
      while (i < todo.size () && !(todo[i].c == x.log[pos].e))
        ++i;
      VP_REQUIRE (i < todo.size (), "face iteration visited ", x.log[pos].e, " below face ", face, " of ", e);
      const Todo t = todo[i];
      todo.erase (todo.begin () + (long) i);
      visit (t.c, t.face, t.lo, t.hi);
    }
  }
};

struct FacePick
{
  uint64_t tree, leaf, up, face, seed;
  int percent;
};

void
f08 (Case &c)
{
  HistOpts h;
  h.p_remove = 20;
  h.p_balance = 8;
  h.max_leaves = 250;
  h.max_ops = 3;
  h.mesh.vertex = true;
  h.max_ranks = 6;
  World w = gen_world (c, h);
  bool removed = false;
  for (auto &o : w.ops)
    removed |= o.a.p_remove > 0;
  w.ghost = !removed && w.mesh.dim > 0 && c.chance (40);
  Spec s;
  s.seed = c.below (1ull << 32);
  s.percent = c.chance (40) ? 100 : (int) c.range (20, 99);
  Spec sq = s;
  const int nq = (int) c.range (1, 6);
  for (int i = 0; i < nq; ++i) {
    Query q;
    q.seed = 1 + c.below (1ull << 32);
    q.percent = c.chance (30) ? 0 : c.chance (20) ? 100 : (int) c.range (1, 99);
    q.target.tree = (int) c.below (6);
    const int len = (int) c.range (0, 6);
    for (int k = 0; k < len; ++k)
      q.target.path += (char) c.below (8);
    sq.q.push_back (q);
  }
  const size_t nq1 = (size_t) c.range (1, nq); /* first round of the objects uses fewer queries */
  const int api = (int) c.below (3);
  std::vector<FacePick> picks;
  const int np = (int) c.range (0, 6);
  for (int i = 0; i < np; ++i)
    picks.push_back ({ c.below (1 << 20), c.below (1 << 20), c.below (1 << 20), c.below (1 << 20), c.below (1ull << 32),
                       c.chance (60) ? 100 : (int) c.range (10, 99) });
  c.describe (vp::str ("search ", s.percent, "% queries ", nq, " api ", api, " faces ", np));
  bool pruned = false, deep = false, facedeep = false, ghostface = false;
  run_world (w, [&] (World &x, int rank, t8_forest_t f, int step) {
    const std::vector<Leaf> &mine = x.snap[rank];
    std::vector<const t8_element_t *> ptr;
    for (size_t i = 0; i < mine.size (); ++i)
      ptr.push_back (t8_forest_get_leaf_element (f, (t8_locidx_t) i, nullptr));
    void *old = t8_forest_get_user_data (f);
    /* C interface */
    {
      Ctx ctx { &s, {} };
      t8_forest_set_user_data (f, &ctx);
      t8_forest_search (f, c_elem, nullptr, nullptr);
      Walk wk { mine, ptr, x.S, s, ctx.log, 0, 0, "t8_forest_search" };
      wk.all ();
      deep |= ctx.log.size () > 3;
      Ctx cq { &sq, {} };
      t8_forest_set_user_data (f, &cq);
      sc_array_t *qa = sc_array_new_count (sizeof (uint64_t), sq.q.size ());
      for (size_t i = 0; i < sq.q.size (); ++i)
        *(uint64_t *) sc_array_index (qa, i) = sq.q[i].seed;
      t8_forest_search (f, c_elem, c_query, qa);
      sc_array_destroy (qa);
      Walk wq { mine, ptr, x.S, sq, cq.log, 0, 0, "t8_forest_search with queries" };
      wq.all ();
      for (auto &v : cq.log)
        pruned |= v.query && v.active.size () < sq.q.size ();
      t8_forest_set_user_data (f, old);
    }
    /* search objects */
    auto elem = [] (const t8_forest_t ff, const t8_locidx_t lt, const t8_element_t *e, const bool leaf, const t8_element_array_t *ls,
                    const t8_locidx_t index, Ctx *u) {
      VP_REQUIRE (u != nullptr, "no user data");
      u->log.push_back (event (ff, lt, e, leaf, ls, index));
      return u->s->elem (u->log.back ().e);
    };
    if (api == 0) {
      Ctx ctx { &s, {} };
      t8_search<Ctx> so (elem, f, &ctx);
      so.do_search ();
      Walk wk { mine, ptr, x.S, s, ctx.log, 0, 0, "t8_search" };
      wk.all ();
      int calls = 0;
      t8_search<int> none ([&] (const t8_forest_t, const t8_locidx_t, const t8_element_t *, const bool, const t8_element_array_t *,
                                const t8_locidx_t, int *u) {
        VP_REQUIRE (u == nullptr, "user data although none was given");
        ++calls;
        return true;
      });
      none.update_forest (f);
      none.do_search ();
      VP_REQUIRE ((calls > 0) == !mine.empty (), "search visits nothing");
      Ctx c2 { &sq, {} };
      Spec s2 = sq;
      s2.q.clear ();
      c2.s = &s2;
      so.update_user_data (&c2);
      so.do_search ();
      Walk w2 { mine, ptr, x.S, s2, c2.log, 0, 0, "t8_search after update of the user data" };
      w2.all ();
    }
    else {
      Spec part = sq;
      part.q.resize (nq1);
      std::vector<Query> qv = part.q, qall = sq.q;
      auto index_of = [&] (const Spec &sp, const Query &q) {
        for (size_t i = 0; i < sp.q.size (); ++i)
          if (sp.q[i].seed == q.seed && sp.q[i].percent == q.percent && sp.q[i].target == q.target)
            return i;
        VP_REQUIRE (false, "the callback received a query that was not given");
        return (size_t) 0;
      };
      if (api == 1) {
        auto query = [&] (const t8_forest_t ff, const t8_locidx_t lt, const t8_element_t *e, const bool leaf, const t8_element_array_t *ls,
                          const t8_locidx_t index, const Query &q, Ctx *u) {
          Event v = event (ff, lt, e, leaf, ls, index);
          v.query = true;
          const size_t k = index_of (*u->s, q);
          if (!u->log.empty () && u->log.back ().query && u->log.back ().e == v.e)
            u->log.back ().active.push_back (k);
          else {
            v.active.push_back (k);
            u->log.push_back (v);
          }
          return u->s->match (k, v.e);
        };
        Ctx ctx { &part, {} };
        t8_search_with_queries<Query, Ctx> so (elem, query, qv, f, &ctx);
        so.do_search ();
        Walk wk { mine, ptr, x.S, part, ctx.log, 0, 0, "t8_search_with_queries" };
        wk.all ();
        Ctx c2 { &sq, {} };
        so.update_user_data (&c2);
        so.update_queries (qall);
        so.do_search ();
        Walk w2 { mine, ptr, x.S, sq, c2.log, 0, 0, "t8_search_with_queries after update of the queries" };
        w2.all ();
      }
      else {
        auto query = [&] (const t8_forest_t ff, const t8_locidx_t lt, const t8_element_t *e, const bool leaf, const t8_element_array_t *ls,
                          const t8_locidx_t index, const std::vector<Query> &qs, const std::vector<size_t> &act, std::vector<bool> &match,
                          Ctx *u) {
          Event v = event (ff, lt, e, leaf, ls, index);
          v.query = true;
          VP_REQUIRE (qs.size () == u->s->q.size (), "number of queries handed to the callback");
          VP_REQUIRE (match.size () >= qs.size (), "space for the answers");
          for (size_t i = 0; i < qs.size (); ++i)
            VP_REQUIRE (qs[i].seed == u->s->q[i].seed, "query ", i, " is not the given one");
          v.active = act;
          for (size_t i = 0; i < qs.size (); ++i)
            match[i] = u->s->match (i, v.e); /* also inactive ones, which must not wake up */
          u->log.push_back (v);
        };
        Ctx ctx { &part, {} };
        t8_search_with_batched_queries<Query, Ctx> so (elem, query, qv, f, &ctx);
        so.do_search ();
        Walk wk { mine, ptr, x.S, part, ctx.log, 0, 0, "t8_search_with_batched_queries" };
        wk.all ();
        Ctx c2 { &sq, {} };
        so.update_user_data (&c2);
        so.update_queries (qall);
        so.do_search ();
        Walk w2 { mine, ptr, x.S, sq, c2.log, 0, 0, "t8_search_with_batched_queries after update of the queries" };
        w2.all ();
      }
    }
    /* faces of local and ghost elements */
    const t8_locidx_t nl = t8_forest_get_num_local_trees (f), ng = x.ghost ? t8_forest_get_num_ghost_trees (f) : 0;
    for (auto &p : picks) {
      if (nl + ng == 0)
        break;
      const t8_locidx_t lt = (t8_locidx_t) (p.tree % (uint64_t) (nl + ng));
      const t8_eclass_t ec = t8_forest_get_tree_class (f, lt);
      const bool gh = lt >= nl;
      const int g = (int) (gh ? t8_forest_ghost_get_global_treeid (f, lt - nl) : t8_forest_global_tree_id (f, lt));
      t8_element_array_t *arr = gh ? t8_forest_ghost_get_tree_leaf_elements (f, lt - nl) : t8_forest_tree_get_leaf_elements (f, lt);
      std::vector<Leaf> L;
      for (size_t i = 0; i < t8_element_array_get_count (arr); ++i)
        L.push_back (leaf_of (x.s, ec, g, t8_element_array_index_locidx (arr, (t8_locidx_t) i)));
      VP_REQUIRE (!L.empty (), "a tree without leaves");
      Leaf e = L[p.leaf % L.size ()];
      e.path.resize (e.path.size () - p.up % (e.path.size () + 1));
      size_t lo = 0;
      while (!e.ancestor_of (L[lo]))
        ++lo;
      size_t hi = lo;
      while (hi < L.size () && e.ancestor_of (L[hi]))
        ++hi;
      Elem el (x.s, ec);
      elem_of (x.s, ec, e, el);
      const Cell k = x.S.cell (e);
      if (NF[k.shape] == 0)
        continue;
      const int face = (int) (p.face % (uint64_t) NF[k.shape]);
      FCtx fc;
      fc.seed = p.seed;
      fc.percent = p.percent;
      t8_element_array_t view;
      t8_element_array_init_view (&view, arr, lo, hi - lo);
      t8_forest_iterate_faces (f, lt, el, face, &view, (t8_locidx_t) lo, face_cb, &fc);
      FaceWalk fw { L, x.S, fc, 0, 0 };
      fw.visit (e, face, lo, hi);
      VP_REQUIRE (fw.pos == fc.log.size (), "face iteration over face ", face, " of ", e, " visited ", fc.log[fw.pos].e, " in addition");
      facedeep |= fc.log.size () > 3;
      ghostface |= gh;
    }
    (void) step;
  });
  if (pruned)
    c.label ("queries-pruned");
  if (facedeep)
    c.label ("face-iteration-deep");
  if (ghostface)
    c.label ("ghost-tree-faces");
  if (removed)
    c.label ("removal");
  c.label (vp::str ("api-", api));
  c.nontrivial (pruned && deep);
}
vp::Register r08 ({ "F08", f08, 40000, 600000,
  "history of commits; search, search with queries, batched queries and face iterations with answers that depend on the element; non-trivial = a search visited more than three elements of a process and a query became inactive",
  { "in-process MPI stand-in with a harness-owned schedule", "C++ search objects and the function interface; the C wrapper objects cannot be allocated by a user", "up to 6 ranks and 250 elements" }, 80 });

/* ------------------------------------------------------------------ F09 */
struct Repl
{
  t8_locidx_t tree;
  int refine, nout;
  t8_locidx_t out;
  int nin;
  t8_locidx_t in;
  bool
  operator== (const Repl &o) const
  {
    return tree == o.tree && refine == o.refine && nout == o.nout && out == o.out && nin == o.nin && (nin == 0 || in == o.in);
  }
};
std::string
show (const Repl &r)
{
  return vp::str ("tree ", r.tree, " refine ", r.refine, " old ", r.nout, " from ", r.out, " new ", r.nin, " from ", r.in);
}
struct RCtx
{
  t8_forest_t o, n;
  std::vector<Repl> log;
};
std::map<t8_forest_t, RCtx *> g_replace;

void
replace_cb (t8_forest_t o, t8_forest_t n, t8_locidx_t tree, const t8_eclass_t ec, const t8_scheme_c *s, const int refine, const int nout,
            const t8_locidx_t out, const int nin, const t8_locidx_t in)
{
  auto it = g_replace.find (n);
  VP_REQUIRE (it != g_replace.end () && it->second->o == o, "the replace callback received other forests");
  VP_REQUIRE (s == t8_forest_get_scheme (o), "the replace callback received another scheme");
  VP_REQUIRE (tree >= 0 && tree < t8_forest_get_num_local_trees (o) && ec == t8_forest_get_tree_class (o, tree), "tree or class given to the replace callback");
  it->second->log.push_back ({ tree, refine, nout, out, nin, in });
}

void
check_replace (World &w, t8_forest_t o, t8_forest_t n, bool *changes, bool *holes)
{
  RCtx x { o, n, {} };
  g_replace[n] = &x;
  t8_forest_iterate_replace (n, o, replace_cb);
  g_replace.erase (n);
  std::vector<Repl> e;
  for (t8_locidx_t t = 0; t < t8_forest_get_num_local_trees (o); ++t) {
    const int g = (int) t8_forest_global_tree_id (o, t);
    const t8_eclass_t ec = t8_forest_get_tree_class (o, t);
    std::vector<Leaf> a, b;
    for (t8_locidx_t i = 0; i < t8_forest_get_tree_num_leaf_elements (o, t); ++i)
      a.push_back (leaf_of (w.s, ec, g, t8_forest_get_leaf_element_in_tree (o, t, i)));
    for (t8_locidx_t i = 0; i < t8_forest_get_tree_num_leaf_elements (n, t); ++i)
      b.push_back (leaf_of (w.s, ec, g, t8_forest_get_leaf_element_in_tree (n, t, i)));
    auto find = [&] (const Leaf &l) {
      auto it = std::lower_bound (b.begin (), b.end (), l);
      return it != b.end () && *it == l ? (t8_locidx_t) (it - b.begin ()) : -1;
    };
    for (size_t i = 0; i < a.size ();) {
      t8_locidx_t k;
      if ((k = find (a[i])) >= 0)
        e.push_back ({ t, 0, 1, (t8_locidx_t) i++, 1, k });
      else if (!a[i].path.empty () && (k = find (a[i].parent ())) >= 0) {
        const Leaf par = a[i].parent ();
        size_t j = i;
        while (j < a.size () && par.ancestor_of (a[j]))
          ++j;
        e.push_back ({ t, -1, (int) (j - i), (t8_locidx_t) i, 1, k });
        i = j;
        *changes = true;
      }
      else if (a[i].level () < w.maxlevel && (k = find (a[i].child (0))) >= 0) {
        e.push_back ({ t, 1, 1, (t8_locidx_t) i, w.S.num_children (a[i]), k });
        ++i;
        *changes = true;
      }
      else {
        e.push_back ({ t, -2, 1, (t8_locidx_t) i++, 0, -1 });
        *holes = true;
      }
    }
  }
  for (size_t i = 0; i < std::max (e.size (), x.log.size ()); ++i)
    VP_REQUIRE (i < e.size () && i < x.log.size () && e[i] == x.log[i], "replace callback ", i, ": ",
                i < x.log.size () ? show (x.log[i]) : std::string ("none"), ", expected ", i < e.size () ? show (e[i]) : std::string ("none"));
}

void
f09 (Case &c)
{
  HistOpts h;
  h.large = 3;
  h.p_adapt = 90;
  h.p_part = 20;
  h.p_balance = 3;
  h.p_recursive = 10;
  h.p_remove = 25;
  h.p_target = 20;
  h.p_weights = h.p_custom = h.p_coarsen_part = 0;
  h.p_keep = 95;
  h.p_copy = 8;
  h.max_ops = 6;
  h.max_leaves = 300;
  World w = gen_world (c, h);
  bool changes = false, holes = false;
  int pairs = 0;
  run_world (w, [&] (World &x, int rank, t8_forest_t f, int step) {
    if (step == 0)
      return;
    const Op &o = x.ops[step - 1];
    if (!x.prev[rank] || o.part || o.bal || o.a.recursive || o.gather >= 0)
      return;
    check_replace (x, x.prev[rank], f, &changes, &holes);
    /* a forest compared with itself */
    bool ch = false, ho = false;
    check_replace (x, f, f, &ch, &ho);
    VP_REQUIRE (!ch && !ho, "harness");
    if (rank == 0)
      ++pairs;
  });
  if (holes)
    c.label ("removed-elements");
  if (changes)
    c.label ("changed-elements");
  c.nontrivial (changes && pairs > 0);
}
vp::Register r09 ({ "F09", f09, 40000, 600000,
  "history of non-recursive adaptations with retained sources, with and without removal; every pair of consecutive forests is compared; non-trivial = an element was refined or a family coarsened",
  { "in-process MPI stand-in with a harness-owned schedule", "one non-recursive adaptation (or copy) between the two forests, as documented", "up to 6 ranks and 300 elements" }, 80 });
} // namespace
