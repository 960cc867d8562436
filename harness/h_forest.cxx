/* Forest histories: validity, adaptation, partition, balance. */
#include "fhist.hxx"
using vp::Case;
using namespace fm;

static void
labels (Case &c, const World &w, const std::vector<size_t> &sizes)
{
  for (auto &o : w.ops) {
    if (o.adapt)
      c.label (o.a.recursive ? "adapt-recursive" : "adapt");
    if (o.a.p_remove)
      c.label ("removal");
    if (o.part)
      c.label (o.weights == 1 ? "partition-int-weights" : o.weights == 2 ? "partition-real-weights" : o.gather >= 0 ? "gather" : !o.custom.empty () ? "partition-custom" : "partition");
    if (o.for_coarsening)
      c.label ("partition-for-coarsening");
    if (o.bal)
      c.label (o.no_repart ? "balance-no-repartition" : "balance");
    if (o.copy)
      c.label ("copy");
    if (o.keep)
      c.label ("source-retained");
  }
}

static void
f01 (Case &c)
{
  HistOpts h;
  h.large = 2;
  h.p_remove = 12;
  World w = gen_world (c, h);
  std::vector<size_t> sizes;
  run_world (w, [&] (World &x, int rank, t8_forest_t, int) {
    if (rank == 0)
      sizes.push_back (x.L.size ());
  });
  labels (c, w, sizes);
  c.nontrivial (w.opt.nranks > 1 && sizes.back () > 2);
}
static vp::Register r01 ({ "F01", f01, 9000, 135000,
  "random coarse mesh (random gluing or generator), ranks, schedule and history of adapt/partition/balance/copy commits; non-trivial = more than one rank and more than two elements",
  { "in-process MPI stand-in with a harness-owned schedule", "up to 8 ranks and a few hundred elements" }, 80 });

static void
run_labels (Case &c, World &w, std::vector<size_t> &sizes, const Hook &extra)
{
  run_world (w, [&] (World &x, int rank, t8_forest_t f, int step) {
    if (rank == 0)
      sizes.push_back (x.L.size ());
    if (extra)
      extra (x, rank, f, step);
  });
  labels (c, w, sizes);
}

/* adaptation: callbacks and result */
static void
f02 (Case &c)
{
  HistOpts h;
  h.p_adapt = 100;
  h.p_part = 25;
  h.p_balance = 0;
  h.p_recursive = 55;
  h.p_remove = 15;
  h.p_target = 35;
  h.p_weights = h.p_custom = h.p_coarsen_part = 0;
  h.max_ops = 5;
  World w = gen_world (c, h);
  std::vector<size_t> sizes;
  int maxl = 0;
  run_labels (c, w, sizes, [&] (World &x, int rank, t8_forest_t, int) {
    if (rank == 0)
      for (auto &l : x.L)
        if (l.level () == x.maxlevel)
          maxl = 1;
  });
  if (maxl)
    c.label ("maximum-level-reached");
  bool ch = false;
  for (size_t i = 1; i < sizes.size (); ++i)
    ch |= sizes[i] != sizes[i - 1];
  c.nontrivial (ch);
}
static vp::Register r02 ({ "F02", f02, 80000, 1200000,
  "history of adaptations (refine, coarsen, keep, remove; recursive or not) with answers that depend on the element; non-trivial = the number of elements changed",
  { "in-process MPI stand-in with a harness-owned schedule", "no tree loses all its elements on a process", "up to 8 ranks and 500 elements" }, 80 });

/* partition */
static void
f03 (Case &c)
{
  HistOpts h;
  h.p_adapt = 55;
  h.p_part = 100;
  h.p_balance = 0;
  h.p_remove = 8;
  h.p_weights = 40;
  h.p_custom = 60;
  h.p_coarsen_part = 40;
  h.max_ranks = 8;
  h.max_ops = 5;
  World w = gen_world (c, h);
  std::vector<size_t> sizes;
  bool moved = false;
  run_labels (c, w, sizes, [&] (World &x, int rank, t8_forest_t, int step) {
    if (rank == 0 && step > 0)
      moved |= x.off != x.before_off;
  });
  c.nontrivial (w.opt.nranks > 1 && moved);
}
static vp::Register r03 ({ "F03", f03, 80000, 1200000,
  "history of partitions (even, weighted, custom offsets, gather, for coarsening) mixed with adaptation; non-trivial = several ranks and a process boundary moved",
  { "in-process MPI stand-in with a harness-owned schedule", "real weights are compared up to round-off, one element of slack", "up to 8 ranks and 500 elements" }, 80 });

/* balance */
static void
f04 (Case &c)
{
  HistOpts h;
  h.large = 2;
  h.p_adapt = 85;
  h.p_part = 40;
  h.p_balance = 70;
  h.p_target = 45;
  h.p_weights = h.p_custom = 0;
  h.p_coarsen_part = 10;
  h.max_ops = 3;
  h.max_leaves = 400;
  h.ghost = true;
  World w = gen_world (c, h);
  static const std::vector<int> versions = { 3, 2, 1 };
  w.ghost_version = c.pick (versions);
  if (w.ghost_version == 1)
    w.ghost_version = 3; /* version 1 needs balanced forests */
  std::vector<size_t> sizes;
  bool did = false;
  run_labels (c, w, sizes, [&] (World &x, int rank, t8_forest_t f, int step) {
    static bool expect[64];
    static std::string why;
    if (rank == 0) {
      did |= x.changed_by_balance;
      std::fill (expect, expect + 64, true);
      Adjacency A (x.S, x.L);
      for (size_t i = 0; i < x.L.size (); ++i)
        for (auto &fs : A.nb[i])
          for (auto &r : fs)
            if (x.L[r.leaf].level () > x.L[i].level () + 1)
              expect[x.owner (i)] = false, why = vp::str (" rank ", x.owner (i), " ", x.L[i], " next to ", x.L[r.leaf], " of ", x.owner (r.leaf));
    }
    vmpi::sync ();
    const int is = t8_forest_is_balanced (f);
    VP_REQUIRE ((is != 0) == expect[rank], "t8_forest_is_balanced says ", is, " on rank ", rank, " but the local elements are",
                expect[rank] ? "" : " not", " balanced", why, " after step ", step, ", ", t8_forest_get_num_ghosts (f), " ghosts");
    (void) step;
  });
  if (did)
    c.label ("balance-refined");
  c.nontrivial (did);
}
static vp::Register r04 ({ "F04", f04, 3000, 45000,
  "history with balance commits after strongly graded adaptation; non-trivial = balance had to refine",
  { "in-process MPI stand-in with a harness-owned schedule", "complete forests (balance of forests with removed elements is not supported)", "up to 6 ranks and 400 elements" }, 80 });

/* life time */
static void
f11 (Case &c)
{
  HistOpts h;
  h.large = 3;
  h.p_keep = 70;
  h.p_copy = 25;
  h.p_remove = 5;
  h.min_ops = 2;
  h.max_ops = 6;
  h.max_leaves = 250;
  World w = gen_world (c, h);
  if (w.part_cmesh == false && c.chance (40)) {
    bool rem = false;
    for (auto &o : w.ops)
      rem |= o.a.p_remove > 0 || o.bal;
    w.ghost = !rem;
  }
  std::vector<size_t> sizes;
  std::vector<std::vector<Leaf>> last (w.opt.nranks);
  run_labels (c, w, sizes, [&] (World &x, int rank, t8_forest_t f, int step) {
    VP_REQUIRE (t8_forest_is_equal (f, f), "a forest is not equal to itself");
    (void) step;
    (void) x;
    (void) rank;
  });
  bool keep = false;
  for (auto &o : w.ops)
    keep |= o.keep;
  c.nontrivial (keep && w.ops.size () > 1);
}
static vp::Register r11 ({ "F11", f11, 5000, 75000,
  "history in which sources are retained, copied and released in random order; non-trivial = at least one source retained over two or more commits",
  { "in-process MPI stand-in with a harness-owned schedule", "memory counted by the allocator of the library and by blocks on the heap" }, 80, true });
