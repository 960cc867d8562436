/* V01, V02: the files written for visualisation, read back by a parser of their own and compared with the mesh. */
#include "cells.hxx"
#include "fhist.hxx"
#include <dirent.h>
#include <fstream>
#include <memory>
#include <sstream>
#include <sys/stat.h>
#include <t8_cmesh/t8_cmesh_internal/t8_cmesh_offset.h>
#include <t8_data/t8_shmem.h>
#include <t8_vtk/t8_vtk_writer.h>
#include <unistd.h>
using vp::Case;
using namespace fm;
using geo::V;

/* ------------------------------------------------------------------ a small XML reader */
struct Node
{
  std::string tag, text;
  std::map<std::string, std::string> at;
  std::vector<Node> ch;
  const Node *
  find (const std::string &t) const
  {
    const Node *r = nullptr;
    for (auto &x : ch)
      if (x.tag == t) {
        VP_REQUIRE (!r, "element <", t, "> appears twice in <", tag, ">");
        r = &x;
      }
    return r;
  }
  const Node &
  get (const std::string &t) const
  {
    const Node *r = find (t);
    VP_REQUIRE (r, "element <", t, "> is missing in <", tag, ">");
    return *r;
  }
  std::string
  attr (const std::string &a) const
  {
    auto i = at.find (a);
    VP_REQUIRE (i != at.end (), "attribute ", a, " is missing in <", tag, ">");
    return i->second;
  }
};
static Node
read_xml (const std::string &file)
{
  std::ifstream in (file);
  VP_REQUIRE (in.good (), "file ", file.substr (file.rfind ('/') + 1), " was not written");
  std::stringstream ss;
  ss << in.rdbuf ();
  const std::string s = ss.str ();
  const std::string name = file.substr (file.rfind ('/') + 1);
  size_t i = 0;
  auto space = [&] {
    while (i < s.size () && isspace ((unsigned char) s[i]))
      ++i;
  };
  auto word = [&] {
    size_t b = i;
    while (i < s.size () && (isalnum ((unsigned char) s[i]) || s[i] == '_' || s[i] == '?' || s[i] == '-'))
      ++i;
    VP_REQUIRE (i > b, name, ": name expected at byte ", b, " '", s.substr (b, 30), "'");
    return s.substr (b, i - b);
  };
  std::function<Node ()> element = [&] () -> Node {
    Node n;
    VP_REQUIRE (i < s.size () && s[i] == '<', name, ": tag expected at byte ", i);
    ++i;
    n.tag = word ();
    for (;;) {
      space ();
      VP_REQUIRE (i < s.size (), name, ": ends inside of a tag");
      if (s[i] == '/' || s[i] == '?') {
        VP_REQUIRE (i + 1 < s.size () && s[i + 1] == '>', name, ": bad tag");
        i += 2;
        return n;
      }
      if (s[i] == '>') {
        ++i;
        break;
      }
      const std::string a = word ();
      space ();
      VP_REQUIRE (i < s.size () && s[i] == '=', name, ": attribute ", a, " has no value");
      ++i;
      space ();
      VP_REQUIRE (i < s.size () && s[i] == '"', name, ": value of attribute ", a, " is not quoted");
      const size_t e = s.find ('"', ++i);
      VP_REQUIRE (e != std::string::npos, name, ": open quote");
      VP_REQUIRE (!n.at.count (a), name, ": attribute ", a, " appears twice");
      n.at[a] = s.substr (i, e - i);
      i = e + 1;
    }
    for (;;) {
      const size_t e = s.find ('<', i);
      VP_REQUIRE (e != std::string::npos, name, ": <", n.tag, "> is not closed");
      n.text += s.substr (i, e - i);
      i = e;
      if (i + 1 < s.size () && s[i + 1] == '/') {
        i += 2;
        const std::string t = word ();
        VP_REQUIRE (t == n.tag, name, ": </", t, "> closes <", n.tag, ">");
        space ();
        VP_REQUIRE (i < s.size () && s[i] == '>', name, ": bad closing tag");
        ++i;
        return n;
      }
      n.ch.push_back (element ());
    }
  };
  space ();
  Node head = element ();
  VP_REQUIRE (head.tag == "?xml", name, ": no XML declaration");
  space ();
  Node root = element ();
  space ();
  VP_REQUIRE (i == s.size (), name, ": text after the end");
  return root;
}
static std::vector<double>
numbers (const Node &n, const std::string &what)
{
  std::vector<double> r;
  const char *p = n.text.c_str ();
  for (;;) {
    while (isspace ((unsigned char) *p))
      ++p;
    if (!*p)
      return r;
    char *e = nullptr;
    r.push_back (strtod (p, &e));
    VP_REQUIRE (e != p && (!*e || isspace ((unsigned char) *e)), what, ": not a number: '", std::string (p).substr (0, 20), "'");
    p = e;
  }
}
static const Node &
array (const Node &in, const std::string &name)
{
  const Node *r = nullptr;
  for (auto &x : in.ch)
    if (x.tag == "DataArray" && x.attr ("Name") == name) {
      VP_REQUIRE (!r, "array ", name, " appears twice");
      r = &x;
    }
  VP_REQUIRE (r, "array ", name, " is missing in <", in.tag, ">");
  VP_REQUIRE (r->attr ("format") == "ascii", "format of array ", name);
  return *r;
}

/* ------------------------------------------------------------------ expected contents */
/* number of the tree corner at each place of a VTK cell, from the figures of the VTK file format document */
static const std::vector<std::vector<int>> CORNER
  = { { 0 }, { 0, 1 }, { 0, 1, 3, 2 }, { 0, 1, 2 }, { 0, 1, 3, 2, 4, 5, 7, 6 }, { 0, 2, 1, 3 }, { 0, 2, 1, 3, 5, 4 }, { 0, 1, 3, 2, 4 } };
static const int VTK_TYPE[NCLASS] = { 1, 3, 9, 5, 12, 10, 13, 14 };
struct OutCell
{
  int shape;
  std::vector<V> x; /* corners in the library's order */
};
struct Field
{
  std::string name;
  int comp;
  std::vector<double> v; /* per cell */
  double tol;            /* relative */
  bool integer;
};
struct Piece
{
  std::vector<OutCell> cells;
  std::vector<Field> cell, point; /* point: given per cell, repeated at its corners */
};

static void
compare (const std::vector<double> &got, const std::vector<double> &want, double tol, double abs, const std::string &what)
{
  VP_REQUIRE (got.size () == want.size (), what, " has ", got.size (), " values instead of ", want.size ());
  for (size_t i = 0; i < got.size (); ++i)
    VP_REQUIRE (std::fabs (got[i] - want[i]) <= tol * std::fabs (want[i]) + abs, what, " value ", i, " is ", got[i], " instead of ", want[i]);
}

static void
check_piece (const std::string &file, const Piece &p, double scale)
{
  const Node root = read_xml (file);
  const std::string nm = file.substr (file.rfind ('/') + 1) + ": ";
  VP_REQUIRE (root.tag == "VTKFile" && root.attr ("type") == "UnstructuredGrid", nm, "not a file of an unstructured grid");
  const Node &pc = root.get ("UnstructuredGrid").get ("Piece");
  std::vector<double> con, off, typ;
  for (auto &c : p.cells) {
    for (size_t i = 0; i < c.x.size (); ++i)
      con.push_back ((double) con.size ());
    off.push_back ((double) con.size ());
    typ.push_back (VTK_TYPE[c.shape]);
  }
  VP_REQUIRE (pc.attr ("NumberOfCells") == vp::str (p.cells.size ()), nm, "number of cells is ", pc.attr ("NumberOfCells"), " instead of ",
              p.cells.size ());
  const long np = atol (pc.attr ("NumberOfPoints").c_str ());
  const Node &cells = pc.get ("Cells");
  auto goff = numbers (array (cells, "offsets"), nm + "offsets");
  auto gcon = numbers (array (cells, "connectivity"), nm + "connectivity");
  compare (goff, off, 0, 0, nm + "offsets");
  compare (numbers (array (cells, "types"), nm + "types"), typ, 0, 0, nm + "types");
  /* points may be shared between cells: compare through the connectivity */
  const Node &pn = array (pc.get ("Points"), "Position");
  VP_REQUIRE (pn.attr ("NumberOfComponents") == "3", nm, "components of the points");
  const auto gp = numbers (pn, nm + "points");
  VP_REQUIRE (gp.size () == 3 * (size_t) np, nm, gp.size (), " coordinates for ", np, " points");
  VP_REQUIRE (gcon.size () == con.size (), nm, "connectivity has ", gcon.size (), " entries instead of ", con.size ());
  std::vector<double> at;
  for (double k : gcon) {
    VP_REQUIRE (k >= 0 && k < np && k == std::floor (k), nm, "connectivity refers to point ", k, " of ", np);
    for (int d = 0; d < 3; ++d)
      at.push_back (gp[3 * (size_t) k + d]);
  }
  /* the order of the corners may differ by a rotation of the cell; both orientations of prisms are in use */
  size_t first = 0;
  for (size_t i = 0; i < p.cells.size (); ++i) {
    const OutCell &oc = p.cells[i];
    const size_t nv = oc.x.size ();
    bool any = false;
    for (auto &sym : cells::symmetries (oc.shape, oc.shape == PRISM)) {
      bool ok = true;
      for (size_t k = 0; k < nv && ok; ++k)
        for (int d = 0; d < 3; ++d) {
          const double want = oc.x[sym[CORNER[oc.shape][k]]][d], g = at[3 * (first + k) + d];
          ok = ok && std::fabs (g - want) <= 1e-8 * std::fabs (want) + 1e-11 * scale;
        }
      any = any || ok;
    }
    VP_REQUIRE (any, nm, "corners of cell ", i, " (", NAME[oc.shape], ") are ", [&] {
      std::string r;
      for (size_t k = 0; k < nv; ++k)
        r += geo::show ({ at[3 * (first + k)], at[3 * (first + k) + 1], at[3 * (first + k) + 2] });
      r += " instead of ";
      for (size_t k = 0; k < nv; ++k)
        r += geo::show (oc.x[CORNER[oc.shape][k]]);
      return r;
    }());
    first += nv;
  }
  /* data */
  const Node *cd = pc.find ("CellData"), *pd = pc.find ("PointData");
  VP_REQUIRE (p.cell.empty () || cd, nm, "no cell data");
  VP_REQUIRE (p.point.empty () || pd, nm, "no point data");
  VP_REQUIRE ((cd ? cd->ch.size () : 0) == p.cell.size (), nm, "number of cell data arrays");
  VP_REQUIRE ((pd ? pd->ch.size () : 0) == p.point.size (), nm, "number of point data arrays");
  auto comps = [&] (const Node &a, const Field &f) {
    VP_REQUIRE (a.at.count ("NumberOfComponents") ? a.attr ("NumberOfComponents") == vp::str (f.comp) : f.comp == 1, nm, "components of ", f.name);
  };
  for (auto &f : p.cell) {
    const Node &a = array (*cd, f.name);
    comps (a, f);
    compare (numbers (a, nm + f.name), f.v, f.tol, f.integer ? 0 : 1e-300, nm + f.name);
  }
  for (auto &f : p.point) {
    const Node &a = array (*pd, f.name);
    comps (a, f);
    const auto got = numbers (a, nm + f.name);
    VP_REQUIRE (got.size () == f.comp * (size_t) np, nm, f.name, " has ", got.size (), " values for ", np, " points");
    std::vector<double> g, want;
    size_t j = 0;
    for (size_t i = 0; i < p.cells.size (); ++i)
      for (size_t k = 0; k < p.cells[i].x.size (); ++k, ++j)
        for (int d = 0; d < f.comp; ++d) {
          want.push_back (f.v[f.comp * i + d]);
          g.push_back (got[f.comp * (size_t) gcon[j] + d]);
        }
    compare (g, want, f.tol, f.integer ? 0 : 1e-300, nm + f.name);
  }
}

/* the header lists the pieces and exactly the arrays of the pieces */
static void
check_header (const std::string &prefix, int pieces)
{
  const Node root = read_xml (prefix + ".pvtu");
  const std::string nm = "pvtu: ";
  VP_REQUIRE (root.tag == "VTKFile" && root.attr ("type") == "PUnstructuredGrid", nm, "not a header of an unstructured grid");
  const Node &g = root.get ("PUnstructuredGrid");
  std::vector<std::string> src;
  for (auto &x : g.ch) {
    VP_REQUIRE (x.tag == "PPoints" || x.tag == "PPointData" || x.tag == "PCellData" || x.tag == "Piece", nm, "misplaced element <", x.tag, ">");
    if (x.tag == "Piece")
      src.push_back (x.attr ("Source"));
  }
  VP_REQUIRE ((int) src.size () == pieces, nm, src.size (), " pieces instead of ", pieces);
  const std::string dir = prefix.substr (0, prefix.rfind ('/') + 1);
  std::set<std::string> once;
  for (auto &x : src) {
    VP_REQUIRE (once.insert (x).second, nm, "piece ", x, " is listed twice");
    VP_REQUIRE (access ((dir + x).c_str (), R_OK) == 0, nm, "piece ", x, " does not exist");
    const Node pr = read_xml (dir + x);
    const Node &pc = pr.get ("UnstructuredGrid").get ("Piece");
    for (auto k : { "Points", "PointData", "CellData" }) {
      const Node *a = g.find (std::string ("P") + k), *b = pc.find (k);
      std::map<std::string, std::string> u, v;
      for (auto *n : { a, b })
        if (n)
          for (auto &y : n->ch) {
            VP_REQUIRE (y.tag == (n == a ? "PDataArray" : "DataArray"), nm, "misplaced element <", y.tag, "> in ", k);
            (n == a ? u : v)[y.attr ("Name")]
              = y.attr ("type") + "x" + (y.at.count ("NumberOfComponents") ? y.attr ("NumberOfComponents") : "1");
          }
      for (auto &y : v)
        VP_REQUIRE (u.count (y.first) && u[y.first] == y.second, nm, "array ", y.first, " (", y.second, ") of ", x, " is not declared in P", k,
                    u.count (y.first) ? " as such: " + u[y.first] : std::string ());
      for (auto &y : u)
        VP_REQUIRE (v.count (y.first), nm, "array ", y.first, " of P", k, " is not in ", x);
    }
  }
}

struct ScratchDir
{
  std::string d;
  ScratchDir ()
  {
    char t[] = "/tmp/vpvtkXXXXXX";
    d = mkdtemp (t);
  }
  ~ScratchDir ()
  {
    clean ();
    rmdir (d.c_str ());
  }
  std::vector<std::string>
  files () const
  {
    std::vector<std::string> r;
    DIR *h = opendir (d.c_str ());
    while (h) {
      dirent *e = readdir (h);
      if (!e)
        break;
      if (e->d_name[0] != '.')
        r.push_back (e->d_name);
    }
    if (h)
      closedir (h);
    std::sort (r.begin (), r.end ());
    return r;
  }
  void
  clean () const
  {
    for (auto &f : files ())
      unlink ((d + "/" + f).c_str ());
  }
};
static void
check_files (const ScratchDir &d, const std::string &prefix, int pieces)
{
  std::vector<std::string> want = { prefix + ".pvtu" };
  for (int p = 0; p < pieces; ++p) {
    char b[32];
    snprintf (b, sizeof b, "_%04d.vtu", p);
    want.push_back (prefix + b);
  }
  std::sort (want.begin (), want.end ());
  const auto got = d.files ();
  VP_REQUIRE (got == want, "files written: ", [&] {
    std::string s;
    for (auto &x : got)
      s += x + " ";
    return s;
  }(), " expected ", want.size ());
}

static double
value (uint64_t h)
{
  switch (h % 8) {
  case 0:
    return 0;
  case 1:
    return (double) (int) ((h >> 8) % 2001) - 1000;
  case 2:
    return -std::ldexp ((double) ((h >> 20) + 1), -40 - (int) ((h >> 8) % 80));
  case 3:
    return std::ldexp ((double) ((h >> 20) + 1), -20 + (int) ((h >> 8) % 40));
  default:
    return std::ldexp ((double) ((h >> 10)), -53) * 2 - 1;
  }
}
static const std::vector<std::string> PREFIX = { "out", "a.b", "x_0001", "with space", "m" };

/* ------------------------------------------------------------------ V01 */
static void
v01 (Case &c)
{
  HistOpts h;
  h.min_ops = 0;
  h.max_ops = 3;
  h.max_leaves = 120;
  h.large = 3;
  h.ghost = c.chance (70);
  h.p_remove = h.ghost ? 0 : 25;
  h.p_balance = 8;
  h.mesh.geometry = true;
  if (c.chance (4))
    h.mesh.dim = 0, h.mesh.named = false;
  World w = gen_world (c, h);
  w.ghost_version = 3 - (int) c.below (2);
  ScratchDir dir;
  const std::string base = c.pick (PREFIX), prefix = dir.d + "/" + base;
  const bool bad = c.chance (3);
  /* the device of one file is full: -1 none, 0.. piece of that rank, nranks the header */
  const int full = !bad && c.chance (6) ? (int) c.below (w.opt.nranks + 1) : -1;
  struct Opt
  {
    int tree, rank, level, id, ghosts, ns, nv;
  };
  std::vector<Opt> opt;
  for (size_t i = 0; i <= w.ops.size (); ++i) {
    Opt o;
    o.tree = c.chance (60);
    o.rank = c.chance (60);
    o.level = c.chance (60);
    o.id = c.chance (60);
    o.ghosts = c.chance (60);
    o.ns = (int) c.weighted ({ 4, 2, 1, 1 });
    o.nv = (int) c.weighted ({ 4, 2, 1 });
    opt.push_back (o);
  }
  const uint64_t seed = c.below (1u << 30);
  c.describe (vp::str ("prefix=", base, bad ? " (no such directory)" : "", full >= 0 ? vp::str (" full=", full) : std::string ()));
  if (full >= 0) {
    char b[32];
    snprintf (b, sizeof b, "_%04d.vtu", full);
    (void) !symlink ("/dev/full", (prefix + (full == w.opt.nranks ? ".pvtu" : b)).c_str ());
  }
  std::map<Leaf, OutCell> made; /* by the owners */
  size_t cells = 0, ghosts = 0;
  std::vector<int> ok (w.opt.nranks, -1);
  run_world (w, [&] (World &x, int rank, t8_forest_t f, int step) {
    const Opt &o = opt[step];
    const t8_scheme *s = t8_forest_get_scheme (f);
    const auto &mine = x.snap[rank];
    if (rank == 0)
      made.clear ();
    vmpi::sync ();
    for (size_t i = 0; i < mine.size (); ++i) {
      t8_locidx_t lt;
      const t8_element_t *e = t8_forest_get_leaf_element (f, (t8_locidx_t) i, &lt);
      OutCell oc;
      oc.shape = (int) s->element_get_shape (t8_forest_get_tree_class (f, lt), e);
      for (int k = 0; k < NV[oc.shape]; ++k) {
        V v;
        t8_forest_element_coordinate (f, lt, e, k, v.data ());
        oc.x.push_back (v);
      }
      made[mine[i]] = oc;
    }
    vmpi::sync ();
    /* what this rank should write */
    Piece p;
    std::vector<double> tree, level, id, rk;
    std::vector<Leaf> all = mine;
    for (size_t i = 0; i < mine.size (); ++i) {
      p.cells.push_back (made[mine[i]]);
      tree.push_back (mine[i].tree);
      level.push_back (mine[i].level ());
      id.push_back ((double) (x.off[rank] + (int64_t) i));
      rk.push_back (rank);
    }
    if (x.ghost && f->ghosts != nullptr && (o.ghosts || (seed >> step & 1)))
      for (t8_locidx_t t = 0; t < t8_forest_get_num_ghost_trees (f); ++t)
        for (t8_locidx_t i = 0; i < t8_forest_ghost_tree_num_leaf_elements (f, t); ++i)
          all.push_back (leaf_of (s, t8_forest_ghost_get_tree_class (f, t), (int) t8_forest_ghost_get_global_treeid (f, t),
                                  t8_forest_ghost_get_leaf_element (f, t, i)));
    const size_t n_data = all.size ();
    if (o.ghosts)
      for (size_t i = mine.size (); i < all.size (); ++i) {
        VP_REQUIRE (made.count (all[i]), "ghost ", all[i], " is no element");
        p.cells.push_back (made[all[i]]);
        tree.push_back (-1);
        level.push_back (all[i].level ());
        id.push_back (-1);
        rk.push_back (rank);
        ++ghosts;
      }
    const size_t n_out = p.cells.size ();
    cells += n_out;
    if (o.tree)
      p.cell.push_back ({ "treeid", 1, tree, 0, true });
    if (o.rank)
      p.cell.push_back ({ "mpirank", 1, rk, 0, true });
    if (o.level)
      p.cell.push_back ({ "level", 1, level, 0, true });
    if (o.id)
      p.cell.push_back ({ "element_id", 1, id, 0, true });
    std::vector<t8_vtk_data_field_t> data (o.ns + o.nv);
    std::vector<std::vector<double>> buf (o.ns + o.nv);
    for (int k = 0; k < o.ns + o.nv; ++k) {
      const int comp = k < o.ns ? 1 : 3;
      for (size_t i = 0; i < n_data; ++i)
        for (int d = 0; d < comp; ++d)
          buf[k].push_back (value (hash (seed + 10 * k + d, all[i])));
      data[k].type = comp == 1 ? T8_VTK_SCALAR : T8_VTK_VECTOR;
      snprintf (data[k].description, BUFSIZ, "%s%d", comp == 1 ? "density" : "velocity", k);
      data[k].data = buf[k].data ();
      Field fl { data[k].description, comp, std::vector<double> (buf[k].begin (), buf[k].begin () + comp * n_out), 1e-5, false };
      p.cell.push_back (fl);
      fl.name += "_points";
      p.point.push_back (fl);
    }
    const std::string where = bad ? dir.d + "/missing/" + base : prefix;
    ok[rank] = t8_forest_vtk_write_file (f, where.c_str (), o.tree, o.rank, o.level, o.id, o.ghosts, (int) data.size (), data.data ());
    const bool fails = bad || full == rank || (full == x.opt.nranks && rank == 0);
    VP_REQUIRE ((ok[rank] != 0) == !fails, "rank ", rank, ": writing returned ", ok[rank],
                bad ? " although the directory does not exist" : fails ? " although the device is full" : "");
    vmpi::sync ();
    if (fails)
      return;
    double scale = 1;
    for (auto &q : p.cells)
      for (auto &v : q.x)
        scale = std::max (scale, geo::norm (v));
    char b[32];
    snprintf (b, sizeof b, "_%04d.vtu", rank);
    check_piece (prefix + b, p, scale);
    if (rank == 0 && full < 0) {
      check_files (dir, base, x.opt.nranks);
      check_header (prefix, x.opt.nranks);
    }
  });
  if (ghosts)
    c.label ("ghosts");
  if (full >= 0)
    c.label ("device-full");
  c.nontrivial (cells > 1 && !bad);
}
static vp::Register r1 ({ "V01", v01, 40000, 700000,
  "history of forest commits on up to 6 ranks; after each the forest is written with random options and 0 to 5 data fields and read back; non-trivial = at least two cells written",
  { "ASCII writer (the writer of the VTK library is not built)", "coordinates to 8 and user data to 5 significant digits, as written", "data values within the range of single precision",
    "corner coordinates as computed by the owning process (G01, G03 judge them)" }, 60 });

/* ------------------------------------------------------------------ V02 */
static void
v02 (Case &c)
{
  cells::Opts o;
  o.max_boxes = c.thorough ? 14 : 8;
  cells::Complex K = cells::gen (c, o);
  const size_t n = K.c.size ();
  const auto nb = cells::neighbours (K);
  vmpi::Options opt;
  gen_ranks (c, opt, 6);
  const bool part = c.chance (65);
  /* partition: uniform or given by offsets */
  std::vector<t8_gloidx_t> off = { 0 };
  const int how = (int) c.below (3);
  for (int r = 1; r < opt.nranks; ++r)
    off.push_back (how == 0 ? (t8_gloidx_t) (n * r / opt.nranks) : (t8_gloidx_t) c.below (n + 1));
  off.push_back ((t8_gloidx_t) n);
  std::sort (off.begin (), off.end ());

  ScratchDir dir;
  const std::string base = c.pick (PREFIX), prefix = dir.d + "/" + base;
  const int full = c.chance (6) ? (int) c.below (part ? opt.nranks : 1) : -1;
  c.describe (vp::str ("trees=", n, " dim=", K.dim, " ranks=", opt.nranks, part ? " partitioned" : " replicated", " prefix=", base,
                       full >= 0 ? vp::str (" full=", full) : std::string ()));
  if (full >= 0) {
    char b[32];
    snprintf (b, sizeof b, "_%04d.vtu", full);
    (void) !symlink ("/dev/full", (prefix + b).c_str ());
  }
  auto fill = [&] (Piece &p, size_t t) {
    OutCell oc;
    oc.shape = K.c[t].cls;
    for (int v : K.c[t].n)
      oc.x.push_back (K.x[v]);
    p.cells.push_back (oc);
  };
  double scale = 0;
  for (auto &x : K.x)
    scale = std::max (scale, geo::norm (x));
  size_t ghosts = 0;
  vp_run_ranks (opt, [&] (int rank) {
    t8_cmesh_t m;
    t8_cmesh_init (&m);
    t8_cmesh_register_geometry<t8_geometry_linear> (m);
    for (size_t t = 0; t < n; ++t) {
      t8_cmesh_set_tree_class (m, (t8_gloidx_t) t, (t8_eclass_t) K.c[t].cls);
      std::vector<double> v;
      for (int k : K.c[t].n)
        v.insert (v.end (), K.x[k].begin (), K.x[k].end ());
      t8_cmesh_set_tree_vertices (m, (t8_gloidx_t) t, v.data (), (int) v.size () / 3);
    }
    for (size_t t = 0; t < n; ++t)
      for (size_t f = 0; f < nb[t].size (); ++f)
        if (nb[t][f].tree > (int) t || (nb[t][f].tree == (int) t && nb[t][f].face > (int) f))
          t8_cmesh_set_join (m, (t8_gloidx_t) t, nb[t][f].tree, (int) f, nb[t][f].face, nb[t][f].o);
    t8_cmesh_commit (m, sc_MPI_COMM_WORLD);
    if (part) {
      t8_cmesh_t d;
      t8_cmesh_init (&d);
      t8_cmesh_set_derive (d, m);
      t8_shmem_init (sc_MPI_COMM_WORLD);
      t8_shmem_set_type (sc_MPI_COMM_WORLD, T8_SHMEM_BEST_TYPE);
      t8_shmem_array_t a;
      t8_shmem_array_init (&a, sizeof (t8_gloidx_t), opt.nranks + 1, sc_MPI_COMM_WORLD);
      if (t8_shmem_array_start_writing (a)) {
        for (int r = 0; r <= opt.nranks; ++r)
          t8_shmem_array_set_gloidx (a, r, off[r]);
      }
      t8_shmem_array_end_writing (a);
      t8_cmesh_set_partition_offsets (d, a);
      t8_cmesh_commit (d, sc_MPI_COMM_WORLD);
      m = d;
    }
    Piece p;
    std::vector<double> tree, rk;
    for (t8_gloidx_t t = part ? off[rank] : 0; t < (part ? off[rank + 1] : (t8_gloidx_t) n); ++t) {
      fill (p, (size_t) t);
      tree.push_back ((double) t);
      rk.push_back (rank);
    }
    if (part)
      for (t8_locidx_t g = 0; g < t8_cmesh_get_num_ghosts (m); ++g) {
        fill (p, (size_t) t8_cmesh_get_global_id (m, t8_cmesh_get_num_local_trees (m) + g));
        tree.push_back (-1);
        rk.push_back (rank);
        ++ghosts;
      }
    p.cell.push_back ({ "treeid", 1, tree, 0, true });
    p.cell.push_back ({ "mpirank", 1, rk, 0, true });
    const int ok = t8_cmesh_vtk_write_file (m, prefix.c_str ());
    VP_REQUIRE ((ok != 0) == (full != rank), "rank ", rank, ": writing the coarse mesh returned ", ok, full == rank ? " although the device is full" : "");
    vmpi::sync ();
    char b[32];
    snprintf (b, sizeof b, "_%04d.vtu", rank);
    if ((part || rank == 0) && rank != full)
      check_piece (prefix + b, p, scale);
    if (rank == 0 && full < 0) {
      check_files (dir, base, part ? opt.nranks : 1);
      check_header (prefix, part ? opt.nranks : 1);
    }
    vmpi::sync ();
    t8_cmesh_destroy (&m);
    if (part)
      t8_shmem_finalize (sc_MPI_COMM_WORLD);
  });
  if (part)
    c.label ("partitioned");
  if (ghosts)
    c.label ("ghosts");
  c.nontrivial (n > 1);
}
static vp::Register r2 ({ "V02", v02, 40000, 900000,
  "random cell complexes of all classes, replicated or partitioned by random offsets over up to 6 ranks, written and read back; non-trivial = at least two trees",
  { "ASCII writer (the writer of the VTK library is not built)", "coordinates to 8 significant digits, as written", "trees with linear geometry" }, 40 });
