/* Ghost layer, data exchange, leaf face neighbours, ownership. */
#include "fhist.hxx"
#include <memory>
using vp::Case;
using namespace fm;

struct Shared
{
  std::unique_ptr<Adjacency> A;
  std::vector<std::vector<int>> ghosts; /* per rank: sorted leaf indices */
};

static void
prepare (World &w, Shared &s)
{
  s.A.reset (new Adjacency (w.S, w.L));
  s.ghosts.assign (w.opt.nranks, {});
  std::vector<int> owner (w.L.size ());
  for (size_t i = 0; i < w.L.size (); ++i)
    owner[i] = w.owner (i);
  for (size_t i = 0; i < w.L.size (); ++i)
    for (auto &f : s.A->nb[i])
      for (auto &r : f)
        if (owner[r.leaf] != owner[i])
          s.ghosts[owner[i]].push_back (r.leaf);
  for (auto &g : s.ghosts) {
    std::sort (g.begin (), g.end ());
    g.erase (std::unique (g.begin (), g.end ()), g.end ());
  }
}

/* leaves of the ghost layer in the order of the ghost indices */
static std::vector<Leaf>
read_ghosts (World &w, t8_forest_t f)
{
  std::vector<Leaf> r;
  const t8_scheme *s = t8_forest_get_scheme (f);
  const t8_locidx_t nt = t8_forest_get_num_ghost_trees (f), nl = t8_forest_get_num_local_trees (f);
  std::set<t8_gloidx_t> seen;
  for (t8_locidx_t t = 0; t < nt; ++t) {
    const t8_gloidx_t g = t8_forest_ghost_get_global_treeid (f, t);
    VP_REQUIRE (g >= 0 && g < (t8_gloidx_t) w.mesh.cls.size (), "global id of a ghost tree");
    VP_REQUIRE (seen.insert (g).second, "ghost tree ", g, " appears twice");
    const t8_eclass_t ec = t8_forest_ghost_get_tree_class (f, t);
    VP_REQUIRE ((int) ec == w.mesh.cls[g], "class of ghost tree ", g);
    VP_REQUIRE (t8_forest_ghost_get_ghost_treeid (f, g) == t, "ghost tree id of tree ", g);
    VP_REQUIRE (t8_forest_global_tree_id (f, nl + t) == g, "global id of local tree id ", nl + t, " (ghost tree ", t, ")");
    VP_REQUIRE ((int) t8_forest_get_tree_class (f, nl + t) == w.mesh.cls[g], "class of ghost tree");
    VP_REQUIRE (!t8_forest_tree_is_local (f, nl + t), "a ghost tree taken for a local tree");
    if (t8_forest_get_local_id (f, g) < 0)
      VP_REQUIRE (t8_forest_get_local_or_ghost_id (f, g) == nl + t, "local or ghost id of ghost tree ", g);
    VP_REQUIRE (t8_forest_ghost_get_tree_element_offset (f, t) == (t8_locidx_t) r.size (), "element offset of ghost tree ", g, " is ",
                t8_forest_ghost_get_tree_element_offset (f, t), " not ", r.size ());
    const t8_locidx_t n = t8_forest_ghost_tree_num_leaf_elements (f, t);
    VP_REQUIRE (n > 0, "a ghost tree without elements");
    for (t8_locidx_t i = 0; i < n; ++i) {
      const t8_element_t *e = t8_forest_ghost_get_leaf_element (f, t, i);
      r.push_back (leaf_of (s, ec, (int) g, e));
      VP_REQUIRE (t8_forest_element_is_ghost (f, e, t), "ghost ", r.back (), " not recognised as a ghost");
      if (i)
        VP_REQUIRE (r[r.size () - 2] < r.back (), "ghosts of a tree are not ordered");
    }
  }
  for (int g = 0; g < (int) w.mesh.cls.size (); ++g)
    if (!seen.count (g) && f->ghosts != nullptr)
      VP_REQUIRE (t8_forest_ghost_get_ghost_treeid (f, g) < 0, "tree ", g, " has no ghosts but a ghost tree id");
  return r;
}

static void
check_ghosts (World &w, const Shared &s, int rank, t8_forest_t f)
{
  const auto got = read_ghosts (w, f);
  VP_REQUIRE ((t8_locidx_t) got.size () == t8_forest_get_num_ghosts (f), "number of ghosts ", t8_forest_get_num_ghosts (f), " but ",
              got.size (), " stored");
  std::vector<Leaf> want, have = got;
  std::set<int> remotes;
  for (int i : s.ghosts[rank]) {
    want.push_back (w.L[i]);
    remotes.insert (w.owner (i));
  }
  std::sort (have.begin (), have.end ());
  for (size_t i = 0; i < std::max (want.size (), have.size ()); ++i) {
    if (i >= have.size () || (i < want.size () && want[i] < have[i]))
      throw vp::Failure (vp::str ("rank ", rank, ": face neighbour ", want[i], " of the local elements is missing in the ghost layer"));
    if (i >= want.size () || have[i] < want[i])
      throw vp::Failure (vp::str ("rank ", rank, ": ghost ", have[i], " is not a face neighbour of a local element"));
  }
  int n = -1;
  const int *rem = t8_forest_ghost_get_remotes (f, &n);
  VP_REQUIRE (n == (int) remotes.size (), "rank ", rank, " reports ", n, " remote ranks instead of ", remotes.size ());
  VP_REQUIRE (std::set<int> (rem, rem + n) == remotes, "wrong remote ranks on rank ", rank);
  for (int r : remotes) {
    const t8_locidx_t first = t8_forest_ghost_remote_first_elem (f, r);
    size_t cnt = 0;
    for (int i : s.ghosts[rank])
      cnt += w.owner (i) == r;
    VP_REQUIRE (first >= 0 && first + cnt <= got.size (), "first ghost of rank ", r, " is ", first, " of ", got.size ());
    for (size_t i = 0; i < got.size (); ++i) {
      const size_t idx = std::lower_bound (w.L.begin (), w.L.end (), got[i]) - w.L.begin ();
      VP_REQUIRE ((w.owner (idx) == r) == (i >= (size_t) first && i < first + cnt), "ghost ", i, " (", got[i],
                  ") is on the wrong side of the range of rank ", r, " starting at ", first);
    }
    const t8_locidx_t ft = t8_forest_ghost_remote_first_tree (f, r);
    VP_REQUIRE (ft >= 0 && ft < t8_forest_get_num_ghost_trees (f)
                  && t8_forest_ghost_get_global_treeid (f, ft) == (t8_gloidx_t) got[first].tree,
                "first ghost tree of rank ", r);
  }
}

static World
ghost_world (Case &c, HistOpts &h)
{
  h.ghost = true;
  h.p_remove = 0;
  h.max_leaves = 250;
  World w = gen_world (c, h);
  w.ghost_version = 3 - (int) c.below (3);
  if (w.ghost_version == 1) {
    /* only defined for balanced forests: balance every commit and start balanced */
    for (auto &o : w.ops)
      if (o.adapt || o.bal) {
        o.bal = true;
        o.weights = 0;
      }
  }
  c.label (vp::str ("ghost-version-", w.ghost_version));
  return w;
}

static void
f05 (Case &c)
{
  HistOpts h;
  h.min_ops = 0;
  h.max_ops = 3;
  h.p_balance = 10;
  World w = ghost_world (c, h);
  Shared s;
  size_t total = 0;
  run_world (w, [&] (World &x, int rank, t8_forest_t f, int) {
    if (rank == 0)
      prepare (x, s);
    vmpi::sync ();
    check_ghosts (x, s, rank, f);
    total += s.ghosts[rank].size ();
  });
  c.nontrivial (total > 0);
}
static vp::Register r05 ({ "F05", f05, 30000, 450000,
  "history of adapt/partition/balance commits with ghost layer (version 1, 2 or 3); non-trivial = some rank has ghosts",
  { "in-process MPI stand-in with a harness-owned schedule", "complete forests, version 1 on balanced forests only (documented)", "up to 6 ranks and 250 elements" }, 80 });

/* ------------------------------------------------------------------ data */
static void
fill (uint8_t *p, size_t size, uint64_t seed, const Leaf &l)
{
  for (size_t i = 0; i < size; ++i)
    p[i] = (uint8_t) (hash (seed + i / 8, l) >> (8 * (i % 8)));
}

static void
f06 (Case &c)
{
  HistOpts h;
  h.min_ops = 1;
  h.max_ops = 4;
  h.p_balance = 8;
  h.p_part = 75;
  h.p_adapt = 45;
  h.p_copy = 3;
  World w = ghost_world (c, h);
  const size_t size = c.chance (2) ? (size_t) c.range (200, 9000) : c.pick (std::vector<size_t> { 8, 1, 4, 16, 3, 24, 40, 200 });
  const uint64_t seed = c.below (1u << 20);
  const int rounds = (int) c.range (1, 3);
  c.describe (vp::str ("data=", size));
  Shared s;
  size_t total = 0, moved = 0;
  std::vector<t8_forest_t> prev (w.opt.nranks, nullptr);
  std::vector<std::vector<Leaf>> prevl (w.opt.nranks);
  run_world (w, [&] (World &x, int rank, t8_forest_t f, int step) {
    if (rank == 0)
      prepare (x, s);
    vmpi::sync ();
    const auto &mine = x.snap[rank];
    const auto gh = read_ghosts (x, f);
    for (int k = 0; k < rounds; ++k) {
      sc_array_t a;
      sc_array_init_size (&a, size, mine.size () + gh.size ());
      std::vector<uint8_t> want (size * (mine.size () + gh.size ()));
      for (size_t i = 0; i < mine.size () + gh.size (); ++i) {
        const Leaf &l = i < mine.size () ? mine[i] : gh[i - mine.size ()];
        fill (&want[i * size], size, seed + 100 * k, l);
        if (i < mine.size ())
          memcpy (sc_array_index (&a, i), &want[i * size], size);
        else
          memset (sc_array_index (&a, i), 0xcd, size);
      }
      t8_forest_ghost_exchange_data (f, &a);
      for (size_t i = 0; i < mine.size () + gh.size (); ++i)
        VP_REQUIRE (memcmp (sc_array_index (&a, i), &want[i * size], size) == 0, "exchange of ", size, " byte data: entry of ",
                    i < mine.size () ? "local element " : "ghost ", i < mine.size () ? mine[i] : gh[i - mine.size ()], " on rank ", rank,
                    " is not the value of its owner");
      sc_array_reset (&a);
    }
    total += gh.size ();
    /* data moved along with a partition */
    const Op *o = step > 0 ? &x.ops[step - 1] : nullptr;
    if (o && o->part && !o->adapt && !o->bal) {
      sc_array_t in, out;
      sc_array_init_size (&in, size, prevl[rank].size ());
      sc_array_init_size (&out, size, mine.size ());
      for (size_t i = 0; i < prevl[rank].size (); ++i)
        fill ((uint8_t *) sc_array_index (&in, i), size, seed, prevl[rank][i]);
      if (mine.size ())
        memset (out.array, 0xcd, size * mine.size ());
      t8_forest_partition_data (prev[rank], f, &in, &out);
      std::vector<uint8_t> want (size);
      for (size_t i = 0; i < mine.size (); ++i) {
        fill (want.data (), size, seed, mine[i]);
        VP_REQUIRE (memcmp (sc_array_index (&out, i), want.data (), size) == 0, "partition of ", size, " byte data: entry of element ",
                    mine[i], " on rank ", rank, " is not its value");
      }
      moved += prevl[rank] != mine;
      sc_array_reset (&in);
      sc_array_reset (&out);
    }
    if (prev[rank])
      t8_forest_unref (&prev[rank]);
    prev[rank] = nullptr;
    if (step < (int) x.ops.size ()) {
      t8_forest_ref (f);
      prev[rank] = f;
    }
    prevl[rank] = mine;
  });
  if (moved)
    c.label ("partition-data-moved");
  c.nontrivial (total > 0 || moved > 0);
}
static vp::Register r06 ({ "F06", f06, 9000, 135000,
  "history with ghost layer, element data of 1 to 9000 bytes exchanged on every forest and moved across every pure partition; non-trivial = there are ghosts or data moved between ranks",
  { "in-process MPI stand-in with a harness-owned schedule", "complete forests", "up to 6 ranks and 250 elements" }, 80 });

/* ------------------------------------------------------------------ leaf face neighbours */
static size_t
leaf_index (const World &w, const Leaf &l)
{
  auto it = std::lower_bound (w.L.begin (), w.L.end (), l);
  VP_REQUIRE (it != w.L.end () && *it == l, "element ", l, " is not a leaf of the forest");
  return it - w.L.begin ();
}
/* do the faces consist of the same points (possibly seen from the two sides of a tree boundary)? */
static bool
same_face (World &w, const Leaf &a, const Cell &ka, int fa, const Leaf &b, const Cell &kb, int fb)
{
  auto pa = face_points (ka, fa), pb = sorted (face_points (kb, fb));
  if (a.tree == b.tree && sorted (pa) == pb)
    return true;
  const int tf = on_tree_face (w.mesh.cls[a.tree], pa);
  if (tf < 0 || w.mesh.nb[a.tree][tf].tree != b.tree)
    return false;
  for (auto &p : pa)
    p = glue_point (w.mesh, a.tree, tf, p);
  return sorted (pa) == pb;
}

static void
check_neighbors (World &w, const Shared &s, int rank, t8_forest_t f, Case &c, uint64_t salt)
{
  const t8_scheme *sch = t8_forest_get_scheme (f);
  const auto &mine = w.snap[rank];
  const auto gh = read_ghosts (w, f);
  const Adjacency &A = *s.A;
  const t8_locidx_t nl = t8_forest_get_num_local_trees (f);
  bool uniform = true;
  for (auto &l : w.L)
    uniform &= l.level () == w.L[0].level ();
  std::map<int, int> index; /* leaf -> local or ghost index */
  std::vector<size_t> gl;
  for (size_t i = 0; i < mine.size () + gh.size (); ++i) {
    gl.push_back (leaf_index (w, i < mine.size () ? mine[i] : gh[i - mine.size ()]));
    index[(int) gl.back ()] = (int) i;
  }
  for (size_t i = 0; i < mine.size () + gh.size (); ++i) {
    const bool local = i < mine.size ();
    const Leaf &l = local ? mine[i] : gh[i - mine.size ()];
    t8_locidx_t lt;
    const t8_element_t *e;
    if (local)
      e = t8_forest_get_leaf_element (f, (t8_locidx_t) i, &lt);
    else {
      const t8_locidx_t gt = t8_forest_ghost_get_ghost_treeid (f, l.tree);
      lt = gt + nl;
      e = t8_forest_ghost_get_leaf_element (f, gt, (t8_locidx_t) (i - mine.size ()) - t8_forest_ghost_get_tree_element_offset (f, gt));
    }
    const t8_eclass_t ec = (t8_eclass_t) w.mesh.cls[l.tree];
    const size_t me = gl[i];
    for (int face = 0; face < NF[A.cells[me].shape]; ++face) {
      const auto &nb = A.nb[me][face];
      std::vector<std::pair<int, int>> want, got; /* index, face */
      for (auto &r : nb) {
        auto it = index.find (r.leaf);
        if (it != index.end ())
          want.push_back ({ it->second, r.face });
      }
      const int tf = on_tree_face (w.mesh.cls[l.tree], face_points (A.cells[me], face));
      const int ntree = A.boundary[me][face] ? -1 : tf < 0 ? l.tree : w.mesh.nb[l.tree][tf].tree;
      /* what the outputs hold before the call does not matter */
      static int junk;
      const bool dirty = (hash (salt, l) + face) % 3 == 0;
      const t8_element_t **leaves = dirty ? (const t8_element_t **) &junk : nullptr;
      int *dual = dirty ? &junk : nullptr, num = -1, orient = -7;
      t8_locidx_t *ids = dirty ? (t8_locidx_t *) &junk : nullptr;
      t8_eclass_t nec = T8_ECLASS_INVALID;
      t8_gloidx_t gn = -7;
      const bool want_leaves = (hash (salt, l) + face) % 4 != 0;
      if (!local && ntree >= 0 && t8_forest_get_local_id (f, ntree) < 0 && t8_forest_ghost_get_ghost_treeid (f, ntree) < 0)
        continue; /* the neighbour of a ghost may lie in a tree which is not known here */
      t8_forest_leaf_face_neighbors_ext (f, lt, e, want_leaves ? &leaves : nullptr, face, &dual, &num, &ids, &nec, &gn, &orient);
      for (int k = 0; k < num; ++k) {
        VP_REQUIRE (ids[k] >= 0 && ids[k] < (t8_locidx_t) (mine.size () + gh.size ()), "index of a neighbour of ", l);
        got.push_back ({ ids[k], dual[k] });
        if (want_leaves) {
          const Leaf x = leaf_of (sch, nec, (int) gn, leaves[k]);
          const Leaf &y = ids[k] < (t8_locidx_t) mine.size () ? mine[ids[k]] : gh[ids[k] - mine.size ()];
          VP_REQUIRE (x == y, "neighbour ", k, " of ", l, " at face ", face, " is ", x, " but its index belongs to ", y);
        }
      }
      auto sw = want, sg = got;
      std::sort (sw.begin (), sw.end ());
      std::sort (sg.begin (), sg.end ());
      auto text = [&] (const std::vector<std::pair<int, int>> &v) {
        std::string t;
        for (auto &p : v)
          t += " " + show (p.first < (int) mine.size () ? mine[p.first] : gh[p.first - mine.size ()]) + "/" + std::to_string (p.second);
        return t.empty () ? std::string (" none") : t;
      };
      if (local)
        VP_REQUIRE (sw == sg, "neighbours of ", l, " at face ", face, " on rank ", rank, " should be", text (sw), " but are", text (sg));
      else {
        /* of a ghost at least the local neighbours have to be found */
        for (auto &p : sg)
          VP_REQUIRE (std::count (sw.begin (), sw.end (), p) >= std::count (sg.begin (), sg.end (), p), "neighbours of ghost ", l, " at face ",
                      face, " on rank ", rank, " are", text (sg), " instead of", text (sw));
        for (auto &p : sw)
          if (p.first < (int) mine.size ())
            VP_REQUIRE (std::count (sg.begin (), sg.end (), p), "neighbours of ghost ", l, " at face ", face, " on rank ", rank, " are",
                        text (sg), " without the local one in", text (sw));
      }
      if (num > 0) {
        VP_REQUIRE ((int) nec == w.mesh.cls[ntree], "class of the neighbours of ", l, " at face ", face);
        VP_REQUIRE (gn == ntree, "tree of the neighbours of ", l, " at face ", face, " is ", gn, " not ", ntree);
        T8_FREE (ids);
        T8_FREE (dual);
        if (want_leaves)
          T8_FREE (leaves);
      }
      else if (local)
        VP_REQUIRE (ids == nullptr && dual == nullptr && (!want_leaves || leaves == nullptr), "no neighbours, but arrays");
      if (local) {
        const int wo = tf < 0 || ntree < 0 ? 0 : w.mesh.nb[l.tree][tf].o;
        if (ntree >= 0) {
          VP_REQUIRE (orient == wo, "orientation at face ", face, " of ", l, " is ", orient, " not ", wo);
          const int o2 = t8_forest_leaf_face_orientation (f, lt, sch, e, face);
          VP_REQUIRE (o2 == wo, "leaf face orientation at face ", face, " of ", l, " is ", o2, " not ", wo);
        }
        if (dirty) {
          /* the short form */
          const t8_element_t **lv = nullptr;
          int *du = nullptr, nu = -1;
          t8_locidx_t *id = nullptr;
          t8_eclass_t nc = T8_ECLASS_INVALID;
          t8_forest_leaf_face_neighbors (f, lt, e, &lv, face, &du, &nu, &id, &nc);
          VP_REQUIRE (nu == num && (nu == 0 || nc == nec), "number or class of the neighbours of ", l, " at face ", face);
          for (int k = 0; k < nu; ++k)
            VP_REQUIRE (id[k] == got[k].first && du[k] == got[k].second, "neighbour ", k, " of ", l, " at face ", face);
          if (nu > 0) {
            T8_FREE (lv);
            T8_FREE (du);
            T8_FREE (id);
          }
        }
        const t8_eclass_t ne = t8_forest_element_neighbor_eclass (f, lt, e, face);
        VP_REQUIRE (ntree < 0 ? ne == T8_ECLASS_INVALID : (int) ne == w.mesh.cls[ntree], "neighbour class at face ", face, " of ", l);
        if (ntree >= 0) {
          /* the neighbour of the same level */
          Elem n (sch, ne);
          int df = -1;
          const t8_gloidx_t g = t8_forest_element_face_neighbor (f, lt, e, n, ne, face, &df);
          VP_REQUIRE (g == ntree, "tree of the face neighbour of ", l, " at face ", face, " is ", g, " not ", ntree);
          const Leaf nlf = leaf_of (sch, ne, ntree, n);
          VP_REQUIRE (nlf.level () == l.level (), "level of the face neighbour of ", l);
          VP_REQUIRE (same_face (w, l, A.cells[me], face, nlf, cell_of (sch, ne, n), df), "face neighbour ", nlf, "/", df, " of ", l, "/", face,
                      " does not share the face");
          /* the half size neighbours */
          if (l.level () < t8_forest_get_maxlevel (f) && (hash (salt + 5, l) + face) % 3 == 0) {
            const int nh = sch->element_get_num_face_children (ec, e, face);
            std::vector<t8_element_t *> hv (nh);
            std::vector<int> hd (nh, -1);
            sch->element_new (ne, nh, hv.data ());
            const t8_gloidx_t g2 = t8_forest_element_half_face_neighbors (f, lt, e, hv.data (), ne, face, nh, hd.data ());
            VP_REQUIRE (g2 == ntree, "tree of the half neighbours of ", l);
            std::vector<t8_element_t *> cv (nh);
            sch->element_new (ec, nh, cv.data ());
            sch->element_get_children_at_face (ec, e, face, cv.data (), nh, nullptr);
            std::set<int> used;
            for (int k = 0; k < nh; ++k) {
              const Leaf hl = leaf_of (sch, ne, ntree, hv[k]);
              const Cell hc = cell_of (sch, ne, hv[k]);
              int hit = -1;
              for (int q = 0; q < nh; ++q)
                if (same_face (w, leaf_of (sch, ec, l.tree, cv[q]), cell_of (sch, ec, cv[q]), sch->element_face_get_child_face (ec, e, face, q),
                               hl, hc, hd[k]))
                  hit = q;
              VP_REQUIRE (hit >= 0 && used.insert (hit).second, "half neighbour ", hl, "/", hd[k], " of ", l, "/", face,
                          " is not at a child face of its own");
            }
            sch->element_destroy (ec, nh, cv.data ());
            sch->element_destroy (ne, nh, hv.data ());
          }
          /* position in the face of a neighbour twice as large */
          if (got.size () == 1 && sw.size () == 1) {
            const Leaf &nbl = got[0].first < (int) mine.size () ? mine[got[0].first] : gh[got[0].first - mine.size ()];
            if (nbl.level () + 1 == l.level ()) {
              Elem b (sch, ne);
              elem_of (sch, ne, nbl, b);
              const int sf = t8_forest_leaf_neighbor_subface (f, lt, e, face, ne, b, got[0].second);
              const int nch = sch->element_get_num_face_children (ne, b, got[0].second);
              VP_REQUIRE (sf >= 0 && sf < nch, "subface index of ", l, "/", face, " in ", nbl);
              std::vector<t8_element_t *> cv (nch);
              sch->element_new (ne, nch, cv.data ());
              sch->element_get_children_at_face (ne, b, got[0].second, cv.data (), nch, nullptr);
              VP_REQUIRE (same_face (w, l, A.cells[me], face, leaf_of (sch, ne, ntree, cv[sf]), cell_of (sch, ne, cv[sf]),
                                     sch->element_face_get_child_face (ne, b, got[0].second, sf)),
                          "subface ", sf, " of ", nbl, "/", got[0].second, " is not the face ", face, " of ", l);
              sch->element_destroy (ne, nch, cv.data ());
              c.label ("subface");
            }
            if (uniform) {
              int d2 = -1;
              const t8_locidx_t k = t8_forest_same_level_leaf_face_neighbor_index (f, (t8_locidx_t) i, face, l.tree, &d2);
              VP_REQUIRE (k == got[0].first && d2 == got[0].second, "same level neighbour index of ", l, " at face ", face, " is ", k, "/", d2,
                          " not", text (got));
            }
          }
        }
        if (want.size () > 1)
          c.label ("hanging-face");
        if (tf >= 0 && ntree >= 0)
          c.label ("across-trees");
      }
    }
  }
}

static void
f07 (Case &c)
{
  HistOpts h;
  h.min_ops = 0;
  h.max_ops = 3;
  h.p_balance = 10;
  h.max_leaves = 160;
  World w = ghost_world (c, h);
  w.max_leaves = std::max (160, w.max_start);
  const uint64_t salt = c.below (1000);
  Shared s;
  size_t n = 0;
  run_world (w, [&] (World &x, int rank, t8_forest_t f, int) {
    if (rank == 0)
      prepare (x, s);
    vmpi::sync ();
    check_neighbors (x, s, rank, f, c, salt);
    n = std::max (n, x.L.size ());
  });
  c.nontrivial (n > 3);
}
static vp::Register r07 ({ "F07", f07, 20000, 300000,
  "history with ghost layer; all faces of all local leaves and ghosts of every forest are queried; non-trivial = a forest with more than three leaves",
  { "in-process MPI stand-in with a harness-owned schedule", "complete forests (documented restriction)", "neighbours of ghosts: only those known locally are required", "up to 6 ranks and 160 elements" }, 80 });

/* ------------------------------------------------------------------ owners */
static void
f12 (Case &c)
{
  HistOpts h;
  h.min_ops = 0;
  h.max_ops = 3;
  h.p_balance = 0;
  h.p_target = 30;
  h.max_ranks = 8;
  h.max_leaves = 250;
  h.p_custom = 50;
  World w = gen_world (c, h);
  const uint64_t salt = c.below (100000);
  const int queries = 30;
  bool multi = false;
  run_world (w, [&] (World &x, int rank, t8_forest_t f, int step) {
    const t8_scheme *sch = t8_forest_get_scheme (f);
    if (x.opt.nranks == 1 && step > 0)
      return;
    if (f->element_offsets == nullptr)
      t8_forest_partition_create_offsets (f);
    if (f->tree_offsets == nullptr)
      t8_forest_partition_create_tree_offsets (f);
    if (f->global_first_desc == nullptr)
      t8_forest_partition_create_first_desc (f);
    for (int q = 0; q < queries; ++q) {
      uint64_t r = mix (salt * 1315423911u + step * 1000 + q * 64 + rank);
      const size_t i = r % x.L.size ();
      Leaf l = x.L[i];
      r = mix (r);
      const int kind = (int) (r % 3);
      if (kind == 1)
        l.path.resize ((r >> 8) % (l.path.size () + 1)); /* an ancestor */
      else if (kind == 2)
        for (int k = 1 + (int) ((r >> 8) % 3); k > 0 && l.level () < x.maxlevel; --k) {
          r = mix (r);
          l = l.child ((int) (r % x.S.num_children (l)));
        }
      const t8_eclass_t ec = (t8_eclass_t) x.mesh.cls[l.tree];
      Elem e (sch, ec);
      elem_of (sch, ec, l, e);
      /* owners of the leaves inside (or around) l */
      int first = -1, last = -1;
      std::vector<size_t> inside;
      for (size_t k = 0; k < x.L.size (); ++k)
        if (l.ancestor_of (x.L[k]) || x.L[k].ancestor_of (l)) {
          inside.push_back (k);
          const int o = x.owner (k);
          if (first < 0)
            first = o;
          last = o;
        }
      if (first != last)
        multi = true;
      const int got = t8_forest_element_find_owner (f, l.tree, e, ec);
      VP_REQUIRE (got == first, "owner of ", l, " is ", got, " not ", first);
      const int P = x.opt.nranks;
      const int lo = (int) ((r >> 16) % (first + 1)), hi = first + (int) ((r >> 24) % (P - first));
      const int guess = lo + (int) ((r >> 32) % (hi - lo + 1));
      const int got2 = t8_forest_element_find_owner_ext (f, l.tree, e, ec, lo, hi, guess, 0);
      VP_REQUIRE (got2 == first, "owner of ", l, " within [", lo, ",", hi, "] from ", guess, " is ", got2, " not ", first);
      for (int p = 0; p < P; ++p)
        VP_REQUIRE ((t8_forest_element_check_owner (f, e, l.tree, ec, p, 0) != 0) == (p == first), "check_owner of ", l, " for rank ", p,
                    " but the owner is ", first);
      {
        const int old = t8_forest_element_find_owner_old (f, l.tree, e, ec, nullptr);
        VP_REQUIRE (old == first, "owner (by tree) of ", l, " is ", old, " not ", first);
        sc_array_t a;
        sc_array_init (&a, sizeof (int));
        for (int pass = 0; pass < 2; ++pass) {
          const int o = t8_forest_element_find_owner_old (f, l.tree, e, ec, &a);
          VP_REQUIRE (o == first, "owner (by given owners of the tree) of ", l, " is ", o, " not ", first);
        }
        sc_array_reset (&a);
      }
      int bl = 0, bu = P - 1;
      t8_forest_element_owners_bounds (f, l.tree, e, ec, &bl, &bu);
      VP_REQUIRE (0 <= bl && bl <= first && bu >= last && bu < P, "owner bounds [", bl, ",", bu, "] of ", l, " owned by ", first, " to ", last);
      const Cell k = cell_of (sch, ec, e);
      /* owners of the leaves of (or around) an element which touch its face */
      auto owners_at = [&] (const Leaf &el, const Cell &ek, int eface) {
        std::set<int> fo;
        for (size_t j = 0; j < x.L.size (); ++j) {
          if (x.L[j].tree != el.tree)
            continue;
          if (x.L[j].ancestor_of (el)) {
            fo.insert (x.owner (j));
            continue;
          }
          if (!el.ancestor_of (x.L[j]))
            continue;
          const Cell kj = x.S.cell (x.L[j]);
          for (int g = 0; g < NF[kj.shape]; ++g) {
            bool all = true;
            for (auto &p : face_points (kj, g))
              all &= side (ek, eface, p) == 0;
            if (all)
              fo.insert (x.owner (j));
          }
        }
        return fo;
      };
      for (int face = 0; face < NF[k.shape]; ++face) {
        const std::set<int> fo = owners_at (l, k, face);
        const t8_locidx_t lt = t8_forest_get_local_id (f, l.tree);
        if (lt >= 0 && ((r >> (20 + face)) & 3) == 0) {
          /* the same for the neighbour across the face */
          const t8_eclass_t ne = t8_forest_element_neighbor_eclass (f, lt, e, face);
          std::set<int> no;
          if (ne != T8_ECLASS_INVALID) {
            Elem n (sch, ne);
            int df = -1;
            const t8_gloidx_t g = t8_forest_element_face_neighbor (f, lt, e, n, ne, face, &df);
            no = owners_at (leaf_of (sch, ne, (int) g, n), cell_of (sch, ne, n), df);
            VP_REQUIRE (!no.empty (), "nobody owns the neighbour of ", l, " at face ", face);
          }
          sc_array_t a;
          sc_array_init (&a, sizeof (int));
          if (((r >> (41 + face)) & 1) && !no.empty ()) {
            sc_array_resize (&a, 2);
            *(int *) sc_array_index (&a, 0) = *no.begin () - (*no.begin () > 0 && ((r >> 52) & 1));
            *(int *) sc_array_index (&a, 1) = *no.rbegin () + (*no.rbegin () < P - 1 && ((r >> 53) & 1));
          }
          t8_forest_element_owners_at_neigh_face (f, lt, e, face, &a);
          const std::vector<int> go ((int *) a.array, (int *) a.array + a.elem_count), wo (no.begin (), no.end ());
          sc_array_reset (&a);
          VP_REQUIRE (go == wo, "owners across face ", face, " of ", l, ": ", go.size (), " (first ", go.empty () ? -1 : go[0], ") instead of ",
                      wo.size (), " (first ", wo.empty () ? -1 : wo[0], ")");
          int nl = 0, nu = P - 1;
          t8_forest_element_owners_at_neigh_face_bounds (f, lt, e, face, &nl, &nu);
          if (no.empty ())
            VP_REQUIRE (nl > nu, "owner bounds [", nl, ",", nu, "] across the boundary face ", face, " of ", l);
          else
            VP_REQUIRE (nl >= 0 && nu < P && nl <= wo.front () && nu >= wo.back (), "owner bounds [", nl, ",", nu, "] across face ", face, " of ",
                        l, " owned by ", wo.front (), " to ", wo.back ());
        }
        sc_array_t a;
        sc_array_init (&a, sizeof (int));
        if ((r >> (40 + face)) & 1) {
          sc_array_resize (&a, 2);
          *(int *) sc_array_index (&a, 0) = *fo.begin () - (*fo.begin () > 0 && ((r >> 50) & 1));
          *(int *) sc_array_index (&a, 1) = *fo.rbegin () + (*fo.rbegin () < P - 1 && ((r >> 51) & 1));
        }
        t8_forest_element_owners_at_face (f, l.tree, e, ec, face, &a);
        std::vector<int> go ((int *) a.array, (int *) a.array + a.elem_count), wo (fo.begin (), fo.end ());
        sc_array_reset (&a);
        VP_REQUIRE (go == wo, "owners at face ", face, " of ", l, ": ", go.size (), " (first ", go.empty () ? -1 : go[0], ") instead of ", wo.size (),
                    " (first ", wo[0], ")");
        bl = 0;
        bu = P - 1;
        t8_forest_element_owners_at_face_bounds (f, l.tree, e, ec, face, &bl, &bu);
        VP_REQUIRE (bl >= 0 && bu < P && bl <= wo.front () && bu >= wo.back (), "owner bounds [", bl, ",", bu, "] at face ", face, " of ", l,
                    " owned by ", wo.front (), " to ", wo.back ());
      }
    }
  });
  c.nontrivial (multi);
}
static vp::Register r12 ({ "F12", f12, 22000, 330000,
  "history of commits; owners of random elements (leaves, ancestors, descendants) and of their faces are looked up on every rank; non-trivial = an element whose leaves belong to several ranks was queried",
  { "in-process MPI stand-in with a harness-owned schedule", "complete forests", "up to 8 ranks and 250 elements" }, 80 });
