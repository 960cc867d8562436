#include "sch.hxx"
#include <set>
using namespace ref;
using vp::Case;

static t8_eclass_t
gen_class (Case &c, bool *standalone)
{
  const size_t k = c.weighted ({ 2, 3, 4, 6, 4, 7, 6, 12, 1, 2, 3, 3 });
  static const int cl[12] = { VERTEX, LINE, QUAD, TRI, HEX, TET, PRISM, PYRA, VERTEX, LINE, QUAD, HEX };
  *standalone = k >= 8;
  c.label (std::string (*standalone ? "standalone-" : "default-") + NAME[cl[k]]);
  return (t8_eclass_t) cl[k];
}

struct Ctx
{
  Case &c;
  bool st;
  t8_eclass_t ec;
  Scheme S;
  Api s;
  int maxlevel;
  Ctx (Case &c_): c (c_), st (false), ec (gen_class (c, &st)), S (st), s (S.s, c.chance (25)), maxlevel (s->get_maxlevel (ec))
  {
    c.describe (vp::str (s.c ? "C interface, " : "", st ? "standalone " : "default ", NAME[ec]));
  }
  bool
  eq (const t8_element_t *a, const t8_element_t *b) const
  {
    return s->element_is_equal (ec, a, b);
  }
  std::string
  show (const t8_element_t *e) const
  {
    char b[512] = "";
    s->element_to_string (ec, e, b, 512);
    return b;
  }
};

static bool
same_cell (const Cell &a, const Cell &b)
{
  return a.shape == b.shape && a.v == b.v;
}

/* ---------------------------------------------------------------- S01 */
static void
s01 (Case &c)
{
  Ctx x (c);
  const Api s = x.s;
  const t8_eclass_t ec = x.ec;
  const int lev = gen_level (c, 0, x.maxlevel);
  const auto path = gen_path (c, s, ec, lev);
  c.describe (vp::str ("path=", path_str (path)));
  Elem e (s, ec), t (s, ec), u (s, ec);
  follow (s, ec, path, e);
  c.nontrivial (lev > 0);
  c.label (lev == 0 ? "root" : lev >= x.maxlevel - 1 ? "near-max" : lev > 8 ? "deep" : "shallow");
  /* root cell */
  s->set_to_root (ec, t);
  VP_REQUIRE (same_cell (cell_of (s, ec, t), root_cell (ec)), "root element does not cover the reference cell");
  VP_REQUIRE (s->element_get_level (ec, t) == 0, "root level");
  VP_REQUIRE (s->element_get_level (ec, e) == lev, "level of element ", x.show (e));
  VP_REQUIRE (s->element_is_refinable (ec, e) == (lev < x.maxlevel), "refinability at level ", lev);
  const Cell ce = cell_of (s, ec, e);
  VP_REQUIRE (s->element_get_num_corners (ec, e) == NV[ce.shape], "corner count");
  VP_REQUIRE (s->element_get_num_faces (ec, e) == NF[ce.shape], "face count");
  VP_REQUIRE (s->element_get_max_num_faces (ec, e) >= NF[ce.shape], "max face count");
  /* ancestors along the path */
  {
    Elem a (s, ec);
    s->element_copy (ec, e, a);
    for (int l = lev; l > 0; --l) {
      VP_REQUIRE (s->element_get_child_id (ec, a) == path[l - 1], "child id at level ", l, " of ", x.show (a));
      VP_REQUIRE (s->element_get_ancestor_id (ec, e, l) == path[l - 1], "ancestor id at level ", l, " of ", x.show (e));
      s->element_get_parent (ec, a, u);
      s->element_get_parent (ec, a, a); /* in place */
      VP_REQUIRE (x.eq (a, u), "in-place parent differs at level ", l);
      follow (s, ec, path, t, l - 1);
      VP_REQUIRE (x.eq (a, t), "parent of the level ", l, " element differs from the element it was refined from: ",
                  x.show (a), " vs ", x.show (t));
      VP_REQUIRE (s->element_get_level (ec, a) == l - 1, "level of parent");
      VP_REQUIRE (s->element_is_ancestor (ec, a, e), "ancestor at level ", l - 1, " not recognised");
      VP_REQUIRE (!s->element_is_ancestor (ec, e, a), "descendant taken for an ancestor");
    }
    VP_REQUIRE (s->element_is_ancestor (ec, e, e), "element must be its own ancestor");
  }
  /* nearest common ancestor with a second element */
  {
    std::vector<int> p2 = path;
    const int cut = (int) c.range (0, lev);
    p2.resize (cut);
    Elem b (s, ec);
    follow (s, ec, p2, b);
    const int more = cut >= x.maxlevel ? 0 : (int) c.range (0, std::min (x.maxlevel - cut, 4));
    for (int i = 0; i < more; ++i) {
      const int id = (int) c.below (s->element_get_num_children (ec, b));
      p2.push_back (id);
      s->element_get_child (ec, b, id, b);
    }
    size_t com = 0;
    while (com < path.size () && com < p2.size () && path[com] == p2[com])
      ++com;
    follow (s, ec, path, t, com);
    s->element_get_nca (ec, e, b, u);
    VP_REQUIRE (x.eq (u, t), "nearest common ancestor of ", path_str (path), " and ", path_str (p2), " is ", x.show (u));
    s->element_get_nca (ec, b, e, u);
    VP_REQUIRE (x.eq (u, t), "nearest common ancestor (swapped) of ", path_str (path), " and ", path_str (p2));
    const bool anc = com == path.size ();
    VP_REQUIRE (s->element_is_ancestor (ec, e, b) == anc, "ancestor relation of ", path_str (path), " and ",
                path_str (p2));
    const bool anc2 = com == p2.size ();
    VP_REQUIRE (s->element_is_ancestor (ec, b, e) == anc2, "ancestor relation of ", path_str (p2), " and ",
                path_str (path));
    VP_REQUIRE (x.eq (e, b) == (path == p2), "equality of ", path_str (path), " and ", path_str (p2));
    if (ec != T8_ECLASS_VERTEX && path != p2)
      VP_REQUIRE (!same_cell (ce, cell_of (s, ec, b)), "two different elements cover the same cell");
    c.label (com < path.size () && com < p2.size () ? "nca-proper" : "nca-ancestor");
  }
  /* siblings */
  if (lev > 0) {
    follow (s, ec, path, t, lev - 1);
    const int n = s->element_get_num_children (ec, t);
    VP_REQUIRE (s->element_get_num_siblings (ec, e) == n, "number of siblings");
    /* the library leaves siblings unimplemented for some default classes */
    const bool sib = !x.st && !(ec == T8_ECLASS_LINE || ec == T8_ECLASS_PRISM || ec == T8_ECLASS_PYRAMID);
    for (int i = 0; sib && i < n; ++i) {
      s->element_get_child (ec, t, i, u);
      Elem q (s, ec);
      s->element_get_sibling (ec, e, i, q);
      VP_REQUIRE (x.eq (u, q), "sibling ", i, " of ", x.show (e), " is ", x.show (q), " but should be ", x.show (u));
    }
  }
  if (lev == x.maxlevel)
    return;
  /* children */
  const int n = s->element_get_num_children (ec, e);
  VP_REQUIRE (n == nchildren (ce.shape), "number of children ", n);
  VP_REQUIRE (n <= s->get_max_num_children (ec), "maximum number of children");
  std::vector<Elem> ch;
  std::vector<t8_element_t *> pc;
  for (int i = 0; i < n; ++i)
    ch.emplace_back (s, ec);
  for (auto &q : ch)
    pc.push_back (q.e);
  if (c.chance (30)) {
    /* in place variant: first output aliases the input */
    s->element_copy (ec, e, pc[0]);
    s->element_get_children (ec, pc[0], n, pc.data ());
  }
  else
    s->element_get_children (ec, e, n, pc.data ());
  std::vector<Cell> cc;
  I vol = 0;
  std::set<P> allowed;
  for (auto &a : ce.v)
    for (auto &b : ce.v) {
      P m;
      for (int i = 0; i < 3; ++i)
        m.x[i] = a.x[i] + b.x[i]; /* twice the midpoint */
      allowed.insert (m);
    }
  for (int i = 0; i < n; ++i) {
    s->element_get_child (ec, e, i, t);
    VP_REQUIRE (x.eq (t, pc[i]), "child ", i, " differs between the two ways to build it");
    s->element_copy (ec, e, t);
    s->element_get_child (ec, t, i, t);
    VP_REQUIRE (x.eq (t, pc[i]), "in-place child ", i);
    VP_REQUIRE (s->element_get_level (ec, pc[i]) == lev + 1, "level of child ", i);
    VP_REQUIRE (s->element_get_child_id (ec, pc[i]) == i, "child id of child ", i);
    s->element_get_parent (ec, pc[i], t);
    VP_REQUIRE (x.eq (t, e), "parent of child ", i, " is ", x.show (t), " not ", x.show (e));
    Cell k = cell_of (s, ec, pc[i]);
    for (auto &p : k.v) {
      VP_REQUIRE (inside (ce, p) >= 0, "a corner of child ", i, " lies outside of its parent ", x.show (e));
      P d = { { 2 * p.x[0], 2 * p.x[1], 2 * p.x[2] } };
      VP_REQUIRE (allowed.count (d) || DIM[ec] == 0, "a corner of child ", i, " is no corner or midpoint of the parent");
    }
    const I kv = volume (k);
    VP_REQUIRE (kv > 0, "degenerate child ", i);
    vol += kv;
    cc.push_back (k);
  }
  VP_REQUIRE (vol == volume (ce) || DIM[ec] == 0, "the children do not have the volume of their parent ", x.show (e));
  /* generic points are in exactly one child */
  if (DIM[ec] > 0)
    for (int k = 0; k < 4; ++k) {
      P p = { { 0, 0, 0 } };
      I w = 0;
      for (auto &v : ce.v) {
        const I a = 1 + (I) c.below (1 << 16);
        w += a;
        for (int i = 0; i < 3; ++i)
          p.x[i] += a * v.x[i];
      }
      int in = 0, on = 0;
      for (auto &q : cc) {
        const int r = inside (q, p, w);
        in += r > 0;
        on += r == 0;
      }
      VP_REQUIRE (in + on >= 1 && in <= 1 && (on == 0 || in == 0), "a point of element ", x.show (e),
                  " is covered by ", in, " child interiors and ", on, " child boundaries");
    }
  /* family recognition (as many elements as the first one has siblings are read) */
  while (pc.size () < 10)
    pc.push_back (pc[n - 1]);
  VP_REQUIRE (s->elements_are_family (ec, pc.data ()), "the children are not recognised as family");
  if (n > 1) {
    const int a = (int) c.below (n), b = (a + 1 + (int) c.below (n - 1)) % n;
    std::swap (pc[a], pc[b]);
    VP_REQUIRE (!s->elements_are_family (ec, pc.data ()), "permuted children (", a, ",", b, ") taken for a family");
    std::swap (pc[a], pc[b]);
    {
      t8_element_t *keep = pc[a];
      pc[a] = pc[b];
      VP_REQUIRE (!s->elements_are_family (ec, pc.data ()), "child ", b, " twice and no child ", a, " taken for a family");
      pc[a] = keep;
    }
    if (lev > 0 && lev + 1 <= x.maxlevel) {
      /* replace one child by the child with the same id of another parent */
      follow (s, ec, path, t, lev - 1);
      const int m = s->element_get_num_children (ec, t);
      int o = (int) c.below (m);
      if (o != path.back ()) {
        s->element_get_child (ec, t, o, t);
        if (s->element_get_num_children (ec, t) > a) {
          s->element_get_child (ec, t, a, t);
          t8_element_t *keep = pc[a];
          pc[a] = t;
          VP_REQUIRE (!s->elements_are_family (ec, pc.data ()), "elements of two parents taken for a family (child ", a,
                      " of sibling ", o, ")");
          pc[a] = keep;
        }
      }
      /* replace one child by the parent, or by a descendant of a child (those with the same anchor included) */
      t8_element_t *keep = pc[a];
      pc[a] = e;
      VP_REQUIRE (!s->elements_are_family (ec, pc.data ()), "elements of different levels taken for a family");
      const int deep = (int) c.range (lev + 2, std::min (x.maxlevel, lev + 2 + (int) c.below (4)));
      if (deep <= x.maxlevel && s->element_is_refinable (ec, keep)) {
        switch (c.below (4)) {
        case 0:
          s->element_get_last_descendant (ec, keep, t, deep);
          break;
        case 1:
          s->element_get_child (ec, keep, (int) c.below (s->element_get_num_children (ec, keep)), t);
          break;
        default:
          s->element_get_first_descendant (ec, keep, t, deep);
        }
        pc[a] = t;
        VP_REQUIRE (!s->elements_are_family (ec, pc.data ()), "children with child ", a, " replaced by a descendant of it, ", x.show (t),
                    ", taken for a family");
      }
      pc[a] = keep;
    }
  }
}
static vp::Register r01 ({ "S01", s01, 3000000, 45000000,
  "random class/scheme and random refinement path to a level up to the maximum; checks the element, its ancestors, siblings, children and a second related element; non-trivial = level > 0",
  { "reference coordinates reported by the library identify the cell (they are themselves constrained to start from the documented reference cell)" } });

/* ---------------------------------------------------------------- S02 */
static uint64_t
model_id (Ctx &x, const std::vector<int> &path, int level)
{
  /* number of level-`level` elements before the first descendant of path at that level */
  const Api s = x.s;
  Elem a (s, x.ec), k (s, x.ec);
  s->set_to_root (x.ec, a);
  uint64_t id = 0;
  for (size_t l = 0; l < path.size () && (int) l < level; ++l) {
    for (int i = 0; i < path[l]; ++i) {
      s->element_get_child (x.ec, a, i, k);
      id += leaves ((int) s->element_get_shape (x.ec, k), level - (int) l - 1);
    }
    s->element_get_child (x.ec, a, path[l], a);
  }
  return id;
}

static std::vector<int>
succ_path (Ctx &x, std::vector<int> p)
{
  /* next element of the same level by the order of children; empty if it is the last one */
  const Api s = x.s;
  Elem a (s, x.ec);
  int l = (int) p.size () - 1;
  while (l >= 0) {
    follow (s, x.ec, p, a, l);
    if (p[l] + 1 < s->element_get_num_children (x.ec, a))
      break;
    --l;
  }
  if (l < 0)
    return {};
  p[l]++;
  for (size_t i = l + 1; i < p.size (); ++i)
    p[i] = 0;
  return p;
}

static void
s02 (Case &c)
{
  Ctx x (c);
  const Api s = x.s;
  const t8_eclass_t ec = x.ec;
  const int maxl = ec == T8_ECLASS_VERTEX ? 20 : x.maxlevel;
  const int lev = gen_level (c, 0, maxl);
  const auto path = gen_path (c, s, ec, lev);
  c.describe (vp::str ("path=", path_str (path)));
  c.nontrivial (lev > 0);
  Elem e (s, ec), t (s, ec), u (s, ec);
  follow (s, ec, path, e);
  const int shape = (int) s->element_get_shape (ec, e);
  const uint64_t id = model_id (x, path, lev);
  VP_REQUIRE (s->element_get_linear_id (ec, e, lev) == id, "linear id of ", path_str (path), " is ",
              s->element_get_linear_id (ec, e, lev), " but ", id, " elements precede it");
  s->element_set_linear_id (ec, t, lev, id);
  VP_REQUIRE (x.eq (t, e), "element with linear id ", id, " at level ", lev, " is ", x.show (t), " not ", x.show (e));
  /* coarser level: id of the ancestor */
  if (lev > 0) {
    const int l = (int) c.below (lev);
    std::vector<int> q (path.begin (), path.begin () + l);
    VP_REQUIRE (s->element_get_linear_id (ec, e, l) == model_id (x, q, l), "linear id at coarser level ", l);
    c.label ("coarser-id");
  }
  /* finer level: first descendant, last descendant */
  const int fl = gen_level (c, lev, maxl);
  {
    const uint64_t fid = model_id (x, path, fl), cnt = leaves (shape, fl - lev);
    VP_REQUIRE (s->element_get_linear_id (ec, e, fl) == fid, "linear id at finer level ", fl, ": ",
                s->element_get_linear_id (ec, e, fl), " expected ", fid);
    VP_REQUIRE ((uint64_t) s->element_count_leaves (ec, e, fl) == cnt, "leaf count to level ", fl, ": ",
                s->element_count_leaves (ec, e, fl), " expected ", cnt);
    if (lev > 0)
      VP_REQUIRE (s->element_count_leaves (ec, e, (int) c.below (lev)) == 0, "leaf count to a coarser level");
    VP_REQUIRE ((uint64_t) s->count_leaves_from_root (ec, fl) == leaves (ec, fl), "leaf count of the root");
    s->element_get_first_descendant (ec, e, t, fl);
    VP_REQUIRE (s->element_get_level (ec, t) == fl && s->element_get_linear_id (ec, t, fl) == fid,
                "first descendant at level ", fl);
    std::vector<int> p1 = path;
    p1.resize (fl, 0);
    follow (s, ec, p1, u);
    VP_REQUIRE (x.eq (t, u), "first descendant at level ", fl, " is ", x.show (t), " not ", x.show (u));
    s->element_get_last_descendant (ec, e, t, fl);
    VP_REQUIRE (s->element_get_level (ec, t) == fl && s->element_get_linear_id (ec, t, fl) == fid + cnt - 1,
                "last descendant at level ", fl);
    s->element_copy (ec, e, u);
    for (int l = lev; l < fl; ++l)
      s->element_get_child (ec, u, s->element_get_num_children (ec, u) - 1, u);
    VP_REQUIRE (x.eq (t, u), "last descendant at level ", fl, " is ", x.show (t), " not ", x.show (u));
    /* random element in the middle of the descendants */
    const uint64_t mid = fid + c.below (cnt);
    s->element_set_linear_id (ec, t, fl, mid);
    VP_REQUIRE (s->element_get_linear_id (ec, t, fl) == mid, "id round trip of ", mid, " at level ", fl);
    VP_REQUIRE (s->element_is_ancestor (ec, e, t), "element ", mid, " of level ", fl,
                " lies in the id range of an element which is not its ancestor");
    if (mid > fid || cnt > 1) {
      /* order relation */
      const int cmp = s->element_compare (ec, e, t);
      VP_REQUIRE (fl > lev ? cmp < 0 : (mid == fid ? cmp == 0 : true), "compare of ancestor and descendant: ", cmp);
    }
  }
  /* successor */
  const auto sp = succ_path (x, path);
  if (!sp.empty ()) {
    follow (s, ec, sp, u);
    s->element_construct_successor (ec, e, t);
    VP_REQUIRE (x.eq (t, u), "successor of ", path_str (path), " is ", x.show (t), " not ", x.show (u));
    VP_REQUIRE (s->element_get_linear_id (ec, t, lev) == id + 1, "id of the successor");
    VP_REQUIRE (s->element_compare (ec, e, t) < 0 && s->element_compare (ec, t, e) > 0, "order of successor");
    c.label ("successor");
  }
  /* order of two unrelated elements */
  {
    const int l2 = gen_level (c, 0, maxl);
    const auto p2 = gen_path (c, s, ec, l2);
    follow (s, ec, p2, u);
    const uint64_t ia = model_id (x, path, maxl), ib = model_id (x, p2, maxl);
    const int cmp = s->element_compare (ec, e, u);
    int want = ia < ib ? -1 : ia > ib ? 1 : lev < l2 ? -1 : lev > l2 ? 1 : 0;
    VP_REQUIRE ((cmp < 0 ? -1 : cmp > 0) == want, "order of ", path_str (path), " and ", path_str (p2), ": ", cmp,
                " expected ", want);
    VP_REQUIRE (s->element_compare (ec, e, e) == 0, "element compared to itself");
  }
}
static vp::Register r02 ({ "S02", s02, 5000000, 75000000,
  "random class/scheme, refinement path, second level and second path; ids compared with counted preceding leaves; non-trivial = level > 0",
  { "children order defines the curve", "levels where the id fits 64 bit (all classes up to their maximum level)" } });

/* ---------------------------------------------------------------- S03 */
static int
tree_face_of (const Cell &k, int f, int tree)
{
  /* the face of the root cell which contains face f of the cell, -1 if none (geometrically) */
  const Cell r = root_cell (tree);
  for (int g = 0; g < NF[tree]; ++g) {
    bool all = true;
    for (auto &p : face_points (k, f))
      all = all && side (r, g, p) == 0;
    if (all)
      return g;
  }
  return -1;
}

static void
s03 (Case &c)
{
  Ctx x (c);
  const Api s = x.s;
  const t8_eclass_t ec = x.ec;
  const int lev = gen_level (c, 0, x.maxlevel);
  const auto path = gen_path (c, s, ec, lev);
  c.describe (vp::str ("path=", path_str (path)));
  Elem e (s, ec), t (s, ec), u (s, ec);
  follow (s, ec, path, e);
  const Cell k = cell_of (s, ec, e);
  int inner = 0;
  for (int f = 0; f < NF[k.shape]; ++f) {
    const int tf = tree_face_of (k, f, ec);
    VP_REQUIRE ((bool) s->element_is_root_boundary (ec, e, f) == (tf >= 0), "face ", f, " of ", x.show (e),
                tf >= 0 ? " lies on the boundary of the tree" : " lies inside the tree");
    int nf = -7;
    const int got = s->element_get_face_neighbor_inside (ec, e, t, f, &nf);
    VP_REQUIRE ((got != 0) == (tf < 0), "neighbour across face ", f, " of ", x.show (e), " reported ",
                got ? "inside" : "outside", " the tree");
    if (tf >= 0) {
      VP_REQUIRE (s->element_get_tree_face (ec, e, f) == tf, "tree face of face ", f, " of ", x.show (e), " is ",
                  s->element_get_tree_face (ec, e, f), " not ", tf);
      continue;
    }
    ++inner;
    const Cell n = cell_of (s, ec, t);
    VP_REQUIRE (s->element_get_level (ec, t) == lev, "level of the neighbour across face ", f);
    VP_REQUIRE (nf >= 0 && nf < NF[n.shape], "face number seen from the neighbour: ", nf);
    VP_REQUIRE (!x.eq (t, e), "element is its own neighbour");
    for (auto &p : n.v)
      VP_REQUIRE (inside (root_cell (ec), p) >= 0, "neighbour across face ", f, " sticks out of the tree");
    VP_REQUIRE (sorted (face_points (n, nf)) == sorted (face_points (k, f)), "face ", f, " of ", x.show (e),
                " and face ", nf, " of its neighbour ", x.show (t), " are different sets of points");
    /* on opposite sides of the common face */
    for (auto &p : n.v)
      VP_REQUIRE (side (k, f, p) <= 0, "element and neighbour across face ", f, " overlap");
    int bf = -7;
    const int back = s->element_get_face_neighbor_inside (ec, t, u, nf, &bf);
    VP_REQUIRE (back && x.eq (u, e) && bf == f, "neighbour of the neighbour across face ", f, " is ", x.show (u),
                " face ", bf);
    VP_REQUIRE ((int) s->element_get_face_shape (ec, e, f) == (int) s->element_get_face_shape (ec, t, nf),
                "face shapes of the two sides");
  }
  /* the neighbours of a leaf of the uniform mesh tile: every neighbour is a proper element of that level */
  c.nontrivial (inner > 0);
  c.label (inner == NF[k.shape] ? "interior" : inner > 0 ? "partly-boundary" : "all-boundary");
  if (k.shape != (int) ec)
    c.label ("tet-in-pyramid");
}
static vp::Register r03 ({ "S03", s03, 5000000, 75000000,
  "random class/scheme and refinement path, all faces; non-trivial = at least one face inside the tree", {} });

/* ---------------------------------------------------------------- S04 */
static bool
face_in_face (const Cell &small, int sf, const Cell &big, int bf)
{
  for (auto &p : face_points (small, sf)) {
    if (side (big, bf, p) != 0)
      return false;
    if (inside (big, p) < 0)
      return false;
  }
  return true;
}

/* map a point of a face tree (class fc) given in face coordinates into the tree */
static P
face_to_tree (int tree, int tf, const P &q, int fc)
{
  const auto &fv = FV[tree][tf];
  auto V = [&] (int i) { return P { { RV[tree][fv[i]][0], RV[tree][fv[i]][1], RV[tree][fv[i]][2] } }; };
  P r;
  const I one = (I) 1 << REFBITS;
  for (int i = 0; i < 3; ++i) {
    r.x[i] = V (0).x[i] * one;
    if (fc == LINE)
      r.x[i] += q.x[0] * (V (1).x[i] - V (0).x[i]);
    else if (fc == QUAD)
      r.x[i] += q.x[0] * (V (1).x[i] - V (0).x[i]) + q.x[1] * (V (2).x[i] - V (0).x[i]);
    else if (fc == TRI)
      r.x[i] += q.x[0] * (V (1).x[i] - V (0).x[i]) + q.x[1] * (V (2).x[i] - V (1).x[i]);
  }
  return r;
}

static void
s04 (Case &c)
{
  Ctx x (c);
  const Api s = x.s;
  const t8_eclass_t ec = x.ec;
  if (ec == T8_ECLASS_VERTEX) {
    return;
  }
  const int lev = gen_level (c, 0, x.maxlevel);
  const auto path = gen_path (c, s, ec, lev);
  c.describe (vp::str ("path=", path_str (path)));
  c.nontrivial (lev > 0);
  Elem e (s, ec), t (s, ec), u (s, ec);
  follow (s, ec, path, e);
  const Cell k = cell_of (s, ec, e);
  int bnd = 0;
  for (int f = 0; f < NF[k.shape]; ++f) {
    const auto &fv = k.fv (f);
    VP_REQUIRE ((int) s->element_get_face_shape (ec, e, f) == face_shape (k.shape, f), "shape of face ", f);
    for (size_t i = 0; i < fv.size (); ++i)
      VP_REQUIRE (s->element_get_face_corner (ec, e, f, (int) i) == fv[i], "corner ", i, " of face ", f);
    /* parent / ancestor faces */
    if (lev > 0) {
      const int al = (int) c.below (lev);
      for (int l : { lev - 1, al }) {
        Elem a (s, ec);
        follow (s, ec, path, a, l);
        const Cell ka = cell_of (s, ec, a);
        int want = -1;
        for (int g = 0; g < NF[ka.shape]; ++g)
          if (face_in_face (k, f, ka, g))
            want = g;
        if (l == lev - 1) {
          const int got = s->element_face_get_parent_face (ec, e, f);
          VP_REQUIRE (got == want, "parent face of face ", f, " of ", x.show (e), " is ", got, " expected ", want);
        }
        const int got = s->element_face_get_ancestor_face (ec, e, l, f);
        VP_REQUIRE (got == want, "face of the level ", l, " ancestor at face ", f, " of ", x.show (e), " is ", got,
                    " expected ", want);
      }
    }
    VP_REQUIRE (s->element_face_get_ancestor_face (ec, e, lev, f) == f, "ancestor face at the own level");
    /* children at the face */
    if (lev < x.maxlevel) {
      const int n = s->element_get_num_children (ec, e);
      std::vector<std::pair<int, int>> want; /* child id, child face */
      for (int i = 0; i < n; ++i) {
        s->element_get_child (ec, e, i, t);
        const Cell kc = cell_of (s, ec, t);
        for (int g = 0; g < NF[kc.shape]; ++g)
          if (face_in_face (kc, g, k, f))
            want.push_back ({ i, g });
      }
      const int nfc = s->element_get_num_face_children (ec, e, f);
      VP_REQUIRE (nfc == (int) want.size (), "face ", f, " of ", x.show (e), " has ", want.size (),
                  " children but reported ", nfc);
      std::vector<Elem> ch;
      std::vector<t8_element_t *> pc;
      for (int i = 0; i < nfc; ++i)
        ch.emplace_back (s, ec);
      for (auto &q : ch)
        pc.push_back (q.e);
      int ids[16];
      const bool withids = c.chance (70);
      if (c.chance (20)) {
        s->element_copy (ec, e, pc[0]); /* documented alias */
        s->element_get_children_at_face (ec, pc[0], f, pc.data (), nfc, withids ? ids : nullptr);
      }
      else
        s->element_get_children_at_face (ec, e, f, pc.data (), nfc, withids ? ids : nullptr);
      /* as sets; the order must be the linear one */
      for (int i = 0; i < nfc; ++i) {
        s->element_get_child (ec, e, want[i].first, t);
        VP_REQUIRE (x.eq (t, pc[i]), "child ", i, " at face ", f, " of ", x.show (e), " is ", x.show (pc[i]), " not ",
                    x.show (t));
        if (withids)
          VP_REQUIRE (ids[i] == want[i].first, "child id ", i, " at face ", f);
        VP_REQUIRE (s->element_face_get_child_face (ec, e, f, i) == want[i].second, "face ", f, " child ", i, " of ",
                    x.show (e), ": child face ", s->element_face_get_child_face (ec, e, f, i), " expected ",
                    want[i].second);
      }
      /* first and last descendant at the face */
      const int dl = gen_level (c, lev, std::min (x.maxlevel, lev + 8));
      for (int last = 0; last < 2; ++last) {
        s->element_copy (ec, e, t);
        int g = f;
        for (int l = lev; l < dl; ++l) {
          const Cell kt = cell_of (s, ec, t);
          const int m = s->element_get_num_children (ec, t);
          int ci = -1, cf = -1;
          for (int i = 0; i < m; ++i) {
            s->element_get_child (ec, t, i, u);
            const Cell kc = cell_of (s, ec, u);
            for (int h = 0; h < NF[kc.shape]; ++h)
              if (face_in_face (kc, h, kt, g) && (last || ci < 0)) {
                ci = i;
                cf = h;
              }
          }
          s->element_get_child (ec, t, ci, t);
          g = cf;
        }
        if (last)
          s->element_get_last_descendant_face (ec, e, f, u, dl);
        else
          s->element_get_first_descendant_face (ec, e, f, u, dl);
        VP_REQUIRE (x.eq (u, t), last ? "last" : "first", " descendant at face ", f, " of ", x.show (e), " at level ",
                    dl, " is ", x.show (u), " not ", x.show (t));
      }
    }
    /* boundary element and extrusion */
    const int tf = tree_face_of (k, f, ec);
    if (tf >= 0) {
      ++bnd;
      const t8_eclass_t fc = (t8_eclass_t) face_shape (ec, tf);
      if (lev <= s->get_maxlevel (fc)) {
        Elem b (s, fc), b2 (s, fc);
        s->element_get_boundary_face (ec, e, f, b);
        VP_REQUIRE (s->element_get_level (fc, b) == lev, "level of the boundary element of face ", f);
        const Cell kb = cell_of (s, fc, b);
        if (fc != T8_ECLASS_VERTEX) {
          std::vector<P> pts;
          for (auto &p : kb.v)
            pts.push_back (face_to_tree (ec, tf, p, fc));
          VP_REQUIRE (sorted (pts) == sorted (face_points (k, f)), "boundary element of face ", f, " of ", x.show (e),
                      " is not that face");
        }
        const int ef = s->element_extrude_face (ec, b, u, tf);
        VP_REQUIRE (x.eq (u, e), "extrusion of face ", f, " (tree face ", tf, ") of ", x.show (e), " gives ",
                    x.show (u));
        VP_REQUIRE (ef == f, "extruded face number ", ef, " expected ", f);
        /* gluing to another tree */
        const int other = (int) c.below (4);
        static const int tri_hosts[3] = { TET, PRISM, PYRA }, quad_hosts[3] = { HEX, PRISM, PYRA };
        int tree2 = ec, f2 = 0;
        if (DIM[ec] == 3) {
          tree2 = other < 3 ? (fc == T8_ECLASS_TRIANGLE ? tri_hosts[other] : quad_hosts[other]) : (int) ec;
          std::vector<int> cand;
          for (int g = 0; g < NF[tree2]; ++g)
            if (face_shape (tree2, g) == (int) fc)
              cand.push_back (g);
          f2 = cand[c.below (cand.size ())];
        }
        else if (DIM[ec] == 2) {
          tree2 = other % 2 ? QUAD : TRI;
          f2 = (int) c.below (NF[tree2]);
        }
        else
          f2 = (int) c.below (2);
        const bool sa = face_orientation (ec, tf), sb = face_orientation (tree2, f2);
        const int sign = sa == sb;
        const int o = (int) c.below (FV[ec][tf].size ());
        const int cmp = class_rank (ec) - class_rank (tree2);
        const int smaller = cmp < 0 ? 1 : cmp > 0 ? 0 : tf <= f2;
        const auto g = glue (fc, o, sa == sb); /* smaller vertex -> larger vertex */
        if (c.chance (50)) {
          s->element_copy (fc, b, b2);
          s->element_transform_face (fc, b2, b2, o, sign, smaller);
        }
        else
          s->element_transform_face (fc, b, b2, o, sign, smaller);
        if (fc != T8_ECLASS_VERTEX) {
          /* affine map of the face reference cell given by the vertex correspondence */
          std::vector<int> m (g.size ());
          for (size_t i = 0; i < g.size (); ++i)
            if (smaller)
              m[i] = g[i];
            else
              m[g[i]] = (int) i;
          std::vector<P> want;
          const I one = (I) 1 << REFBITS;
          for (auto &p : kb.v) {
            /* barycentric style: p = V0 + a (V1-V0) + b (V2 - V0 or V1) */
            P r;
            for (int i = 0; i < 3; ++i) {
              const I w0 = RV[fc][m[0]][i], w1 = RV[fc][m[1]][i];
              r.x[i] = w0 * one + p.x[0] * (w1 - w0);
              if (DIM[fc] == 2) {
                const I w2 = RV[fc][m[2]][i];
                r.x[i] += p.x[1] * (w2 - (fc == T8_ECLASS_QUAD ? w0 : w1));
              }
            }
            want.push_back (r);
          }
          VP_REQUIRE (sorted (want) == sorted (cell_of (s, fc, b2).v), "face element ", NAME[fc], " transformed with orientation ",
                      o, " sign ", sign, " smaller ", smaller, " is not the glued face: ", s->element_get_level (fc, b), " ", (long) kb.v[0].x[0], ",",
                      (long) kb.v[0].x[1], " to ", (long) cell_of (s, fc, b2).v[0].x[0], ",", (long) cell_of (s, fc, b2).v[0].x[1]);
        }
        /* and back */
        Elem b3 (s, fc);
        s->element_transform_face (fc, b2, b3, o, sign, smaller ? 0 : 1);
        VP_REQUIRE (s->element_is_equal (fc, b3, b), "transforming a face element there and back changed it, orientation ",
                    o, " sign ", sign, " smaller ", smaller);
        c.label (smaller ? "transform-from-smaller" : "transform-from-larger");
        /* extruding into the other tree gives an element which has that face */
        if (lev <= s->get_maxlevel ((t8_eclass_t) tree2) && !(x.st && tree2 != ec)) {
          Elem w (s, (t8_eclass_t) tree2);
          const int wf = s->element_extrude_face ((t8_eclass_t) tree2, b2, w, f2);
          const Cell kw = cell_of (s, (t8_eclass_t) tree2, w);
          VP_REQUIRE (s->element_get_level ((t8_eclass_t) tree2, w) == lev, "level of extruded element");
          VP_REQUIRE (wf >= 0 && wf < NF[kw.shape] && tree_face_of (kw, wf, tree2) == f2,
                      "the extruded element does not touch the tree face");
          if (fc != T8_ECLASS_VERTEX) {
            std::vector<P> pts;
            for (auto &p : cell_of (s, fc, b2).v)
              pts.push_back (face_to_tree (tree2, f2, p, fc));
            VP_REQUIRE (sorted (pts) == sorted (face_points (kw, wf)), "the extruded element does not have the face");
          }
        }
      }
    }
  }
  c.label (bnd ? "has-boundary-face" : "no-boundary-face");
  /* corner faces */
  for (int v = 0; v < NV[k.shape]; ++v) {
    std::set<int> want, got;
    for (int f = 0; f < NF[k.shape]; ++f)
      for (int w : FV[k.shape][f])
        if (w == v)
          want.insert (f);
    if (DIM[ec] < 1)
      continue;
    if (ec == T8_ECLASS_PYRAMID || ec == T8_ECLASS_PRISM || ec == T8_ECLASS_TET)
      continue; /* not provided by every scheme */
    for (size_t i = 0; i < want.size (); ++i)
      got.insert (s->element_get_corner_face (ec, e, v, (int) i));
    VP_REQUIRE (got == want, "faces at corner ", v);
  }
}
static vp::Register r04 ({ "S04", s04, 500000, 7500000,
  "random class/scheme and refinement path, all faces, random gluing (class, face, orientation) to a neighbour tree; non-trivial = level > 0", {} });

/* ---------------------------------------------------------------- S05 */
static void
s05 (Case &c)
{
  Ctx x (c);
  const Api s = x.s;
  const t8_eclass_t ec = x.ec;
  const int n = (int) c.range (1, 12);
  std::vector<Elem> a;
  std::vector<std::vector<int>> paths;
  for (int i = 0; i < n; ++i) {
    const int lev = gen_level (c, 0, x.maxlevel);
    if (i > 0 && c.chance (50)) {
      /* a relative of an earlier element: the same, an ancestor, a descendant, or one that differs in one step */
      std::vector<int> p = paths[c.below (i)];
      const int kind = (int) c.below (5);
      if (kind == 1 && !p.empty ())
        p.resize (p.size () - 1 - (c.chance (50) ? 0 : c.below (p.size ())));
      else if (kind == 2)
        for (int k = (int) c.range (1, 3); k > 0 && (int) p.size () < x.maxlevel; --k)
          p.push_back (0);
      Elem t (s, ec);
      if (kind >= 3 && !p.empty ()) {
        const size_t at = kind == 3 ? p.size () - 1 : c.below (p.size ());
        follow (s, ec, p, t, at);
        p[at] = (int) c.below (s->element_get_num_children (ec, t));
        if (c.chance (50))
          p.resize (at + 1);
        else /* the rest has to stay valid */
          for (size_t k = at; k < p.size (); ++k) {
            p[k] %= s->element_get_num_children (ec, t);
            s->element_get_child (ec, t, p[k], t);
          }
      }
      paths.push_back (p);
    }
    else
      paths.push_back (gen_path (c, s, ec, lev));
    a.emplace_back (s, ec);
    follow (s, ec, paths.back (), a.back ());
  }
  c.describe (vp::str (n, " elements, first ", path_str (paths[0])));
  c.nontrivial (n > 1);
  std::vector<t8_element_t *> pa;
  for (auto &q : a)
    pa.push_back (q.e);
  /* serialisation with surrounding data, in several chunks */
  vmpi::Options o;
  vp_run_ranks (o, [&] (int) {
    int size = 0;
    const int lead = (int) c.below (9), chunk = 1 + (int) c.below (n);
    s->element_MPI_Pack_size (ec, n, sc_MPI_COMM_WORLD, &size);
    std::vector<char> buf (lead + size + 16, 0x3c);
    int pos = lead;
    for (int i = 0; i < n; i += chunk)
      s->element_MPI_Pack (ec, pa.data () + i, std::min (chunk, n - i), buf.data (), lead + size, &pos, sc_MPI_COMM_WORLD);
    VP_REQUIRE (pos <= lead + size, "packed ", pos - lead, " bytes, upper bound was ", size);
    for (int i = 0; i < lead; ++i)
      VP_REQUIRE (buf[i] == 0x3c, "bytes in front of the packed elements were overwritten");
    for (int i = lead + size; i < (int) buf.size (); ++i)
      VP_REQUIRE (buf[i] == 0x3c, "bytes behind the packed elements were overwritten");
    const int chunk2 = 1 + (int) c.below (n);
    std::vector<Elem> b;
    std::vector<t8_element_t *> pb;
    for (int i = 0; i < n; ++i)
      b.emplace_back (s, ec);
    for (auto &q : b) {
      s->set_to_root (ec, q);
      pb.push_back (q.e);
    }
    const int endpos = pos;
    pos = lead;
    for (int i = 0; i < n; i += chunk2)
      s->element_MPI_Unpack (ec, buf.data (), endpos, &pos, pb.data () + i, std::min (chunk2, n - i), sc_MPI_COMM_WORLD);
    VP_REQUIRE (pos == endpos, "unpacking consumed ", pos - lead, " of ", endpos - lead, " bytes");
    for (int i = 0; i < n; ++i) {
      VP_REQUIRE (x.eq (pa[i], pb[i]), "element ", i, " changed in serialisation: ", x.show (pb[i]), " vs ", x.show (pa[i]));
      if (DIM[ec])
        VP_REQUIRE (same_cell (cell_of (s, ec, pa[i]), cell_of (s, ec, pb[i])), "cell changed in serialisation");
      VP_REQUIRE (s->element_get_level (ec, pa[i]) == s->element_get_level (ec, pb[i]), "level changed in serialisation");
      /* unpacked elements behave like the originals */
      if (s->element_get_level (ec, pb[i]) < x.maxlevel) {
        Elem u (s, ec), v (s, ec);
        const int k = s->element_get_num_children (ec, pa[i]) - 1;
        s->element_get_child (ec, pa[i], k, u);
        s->element_get_child (ec, pb[i], k, v);
        VP_REQUIRE (x.eq (u, v), "child of an unpacked element");
      }
      if (s->element_get_level (ec, pb[i]) > 0) {
        Elem u (s, ec), v (s, ec);
        s->element_get_parent (ec, pa[i], u);
        s->element_get_parent (ec, pb[i], v);
        VP_REQUIRE (x.eq (u, v), "parent of an unpacked element");
      }
    }
  });
  /* copies and equality */
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j) {
      const bool same = paths[i] == paths[j];
      VP_REQUIRE (x.eq (pa[i], pa[j]) == same, "equality of ", path_str (paths[i]), " and ", path_str (paths[j]));
      if (ec != T8_ECLASS_VERTEX)
        VP_REQUIRE ((s->element_compare (ec, pa[i], pa[j]) == 0) == same, "comparison of ", path_str (paths[i]), " and ",
                    path_str (paths[j]));
    }
  {
    Elem t (s, ec);
    s->element_copy (ec, pa[0], t);
    VP_REQUIRE (x.eq (t, pa[0]), "copy differs");
    s->element_copy (ec, t, t);
    VP_REQUIRE (x.eq (t, pa[0]), "self copy changed the element");
    if (s->element_get_level (ec, t) < x.maxlevel && ec != T8_ECLASS_VERTEX) {
      s->element_get_child (ec, t, 0, t);
      VP_REQUIRE (!x.eq (t, pa[0]), "changing a copy changed the original");
      Elem q (s, ec);
      follow (s, ec, paths[0], q);
      VP_REQUIRE (x.eq (q, pa[0]), "changing a copy changed the original");
    }
  }
  /* reference coordinates of arbitrary points */
  if (DIM[ec]) {
    const Elem &e = a[c.below (n)];
    const int shape = (int) s->element_get_shape (ec, e);
    const int d = DIM[ec];
    const int m = (int) c.range (1, 5);
    std::vector<double> in (m * 3, 7.5), out (m * d + 1, 99), want (m * d, 0);
    for (int i = 0; i < m; ++i) {
      /* a point of the reference cell of the element's shape as convex combination of its corners, and the multilinear
       * image */
      double w[8], sum = 0;
      double p[3] = { 0, 0, 0 };
      for (int v = 0; v < NV[shape]; ++v)
        sum += w[v] = (double) c.below (64) + (v == 0);
      for (int v = 0; v < NV[shape]; ++v)
        for (int k = 0; k < 3; ++k)
          p[k] += w[v] / sum * RV[shape][v][k];
      for (int k = 0; k < d; ++k)
        in[i * 3 + k] = p[k]; /* points always come with three coordinates */
      double q[3] = { 0, 0, 0 };
      /* all refinement cells are affine images of their reference cell */
      double V[8][3] = {};
      for (int v = 0; v < NV[shape]; ++v)
        s->element_get_vertex_reference_coords (ec, e, v, V[v]);
      for (int v = 0; v < NV[shape]; ++v)
        for (int k = 0; k < d; ++k)
          q[k] += w[v] / sum * V[v][k];
      for (int k = 0; k < d; ++k)
        want[i * d + k] = q[k];
    }
    s->element_get_reference_coords (ec, e, in.data (), m, out.data ());
    for (int i = 0; i < m * d; ++i)
      VP_REQUIRE (std::fabs (out[i] - want[i]) < 1e-12, "reference coordinate ", i, " of a point in ", x.show (e), ": ",
                  out[i], " expected ", want[i]);
    VP_REQUIRE (out[m * d] == 99, "more coordinates written than requested");
  }
}
static vp::Register r05 ({ "S05", s05, 3000000, 45000000,
  "1 to 12 random elements packed and unpacked in random chunks with surrounding bytes, copied, compared, and random points mapped to the tree; non-trivial = more than one element", {} });
