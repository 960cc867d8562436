/* D01 shared memory arrays, D02 element arrays, D03 transport of data vectors. */
#include "sch.hxx"
#include "vmpi.hxx"
#include <map>
#include <memory>
#include <numeric>
#include <span>
#include <t8_data/t8_containers.h>
#include <t8_data/t8_element_array_iterator.hxx>
#include <t8_data/t8_shmem.h>
#include <t8_data/t8_vector_handler.hxx>
#include <t8_forest/t8_forest_private.h>

using vp::Case;

static vmpi::Options
gen_opt (Case &c, int maxp)
{
  vmpi::Options o;
  static const std::vector<int> sizes = { 1, 2, 3, 4, 5, 6, 8, 12 };
  do {
    o.nranks = c.pick (sizes);
  } while (o.nranks > maxp);
  if (c.chance (3))
    o.nranks = (int) c.range (9, 20);
  if (o.nranks > 1 && c.chance (60)) {
    std::vector<int> d;
    for (int k = 1; k <= o.nranks; ++k)
      if (o.nranks % k == 0)
        d.push_back (k);
    o.node_size = c.pick (d);
  }
  o.sched_seed = c.chance (60) ? 1 + c.below (1 << 20) : 0;
  c.describe (vp::str ("ranks=", o.nranks, "/", o.node_size));
  return o;
}

/* ------------------------------------------------------------------ D01 */

static uint64_t
mix (uint64_t a, uint64_t b)
{
  uint64_t z = a * 0x9E3779B97F4A7C15ull + b + 0x1234567;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}

enum DT { INT, GLO, DBL, BYTE, NDT };
static const size_t DSIZE[] = { sizeof (int), sizeof (t8_gloidx_t), sizeof (double), 1 };
static sc_MPI_Datatype
dtype (int t)
{
  return t == INT ? sc_MPI_INT : t == GLO ? T8_MPI_GLOIDX : t == DBL ? sc_MPI_DOUBLE : sc_MPI_BYTE;
}
static void
put (std::string &s, int t, int64_t v)
{
  if (t == INT) {
    const int x = (int) v;
    s.append ((const char *) &x, sizeof (x));
  }
  else if (t == GLO) {
    const t8_gloidx_t x = v;
    s.append ((const char *) &x, sizeof (x));
  }
  else if (t == DBL) {
    const double x = (double) v;
    s.append ((const char *) &x, sizeof (x));
  }
  else
    s.push_back ((char) v);
}

struct ShOp
{
  int kind; /* 0 write, 1 allgather, 2 prefix, 3 allgatherv, 4 copy, 5 equal, 6 search, 7 recreate */
  int a, b;
  uint64_t seed;
  int count; /* per rank for gathers */
  std::vector<int> counts;
  std::vector<size_t> where; /* written entries */
  int64_t search;
};
struct ShArr
{
  int t;
  size_t n; /* entries of type t */
  size_t esize; /* elem_size: entries are grouped */
  std::string data; /* model; empty if never written */
  bool known = false;
};

static int
cmp_exact (t8_shmem_array_t a, const int i, const t8_gloidx_t v)
{
  const t8_gloidx_t x = t8_shmem_array_get_gloidx (a, i);
  return x == v ? 0 : v < x ? -1 : 1;
}

static void
d01 (Case &c)
{
  const vmpi::Options o = gen_opt (c, 12);
  const int P = o.nranks;
  const bool init = c.chance (90);
  static const std::vector<sc_shmem_type_t> types
    = { SC_SHMEM_BASIC, SC_SHMEM_PRESCAN,
#ifdef SC_ENABLE_MPIWINSHARED
        SC_SHMEM_WINDOW, SC_SHMEM_WINDOW_PRESCAN,
#endif
      };
  const int ty = (int) c.below (types.size () + 1); /* the last: left to the library */
  c.label (vp::str ("type-", ty));
  const int na = (int) c.range (1, 4);
  std::vector<ShArr> A (na);
  for (auto &a : A) {
    a.t = (int) c.weighted ({ 3, 5, 2, 2 });
    const size_t per = c.chance (40) ? c.range (1, 4) : c.chance (3) ? c.range (5, 200) : 1;
    a.n = (size_t) (P + 1) * per;
    if (c.chance (30))
      a.n = c.range (1, 40);
    a.esize = DSIZE[a.t];
  }
  if (na > 1 && c.chance (70))
    A[1] = A[0];
  std::vector<ShArr> start = A;
  std::vector<ShOp> ops;
  const int steps = (int) c.range (2, c.thorough ? 24 : 12);
  int gathers = 0;
  std::string desc;
  for (int s = 0; s < steps; ++s) {
    ShOp p;
    p.kind = (int) c.weighted ({ 4, 3, 3, 4, 2, 3, 3, 1 });
    p.a = (int) c.below (na);
    p.b = (int) c.below (na);
    p.seed = c.below (1 << 20);
    ShArr &x = A[p.a];
    p.count = 0;
    if (p.kind == 0) {
      if (!x.known)
        for (size_t i = 0; i < x.n; ++i)
          p.where.push_back (i);
      else
        for (int k = (int) c.range (1, 3); k > 0; --k)
          p.where.push_back (c.below (x.n));
    }
    else if (p.kind == 1) {
      if (x.n < (size_t) P)
        continue;
      p.count = (int) c.range (1, x.n / P);
    }
    else if (p.kind == 2) {
      if (x.n < (size_t) P + 1 || x.t == BYTE)
        continue;
      p.count = (int) c.range (1, x.n / (P + 1));
    }
    else if (p.kind == 3) {
      size_t left = x.n;
      p.counts.assign (P, 0);
      for (int r = 0; r < P; ++r)
        if (c.chance (75)) {
          p.counts[r] = (int) c.below (std::min<size_t> (left, x.n > 200 ? 100 : 6) + 1);
          left -= p.counts[r];
        }
      if (P > 1 && c.chance (15)) { /* one rank sends everything */
        p.counts.assign (P, 0);
        p.counts[c.below (P)] = (int) c.below (x.n + 1);
      }
    }
    else if (p.kind == 4) {
      if (p.a == p.b || !A[p.b].known || A[p.a].t != A[p.b].t || A[p.a].n != A[p.b].n)
        continue;
    }
    else if (p.kind == 5) {
      if (!x.known || !A[p.b].known)
        continue;
    }
    else if (p.kind == 6) {
      if (x.t != GLO)
        continue;
    }
    /* model */
    const std::string before = x.data;
    if (p.kind == 0) {
      x.data.resize (x.n * DSIZE[x.t]);
      for (auto i : p.where) {
        std::string v;
        put (v, x.t, (int64_t) (mix (p.seed, i) % 2000) - 700);
        x.data.replace (i * DSIZE[x.t], v.size (), v);
      }
      x.known = true;
    }
    else if (p.kind == 1 || p.kind == 3) {
      std::string v;
      for (int r = 0; r < P; ++r)
        for (int k = 0; k < (p.kind == 1 ? p.count : p.counts[r]); ++k)
          put (v, x.t, (int64_t) (mix (p.seed, 100 * r + k) % 2000) - 700);
      if (!x.known && v.size () < x.n * DSIZE[x.t])
        continue; /* the rest would be undefined */
      x.data.resize (x.n * DSIZE[x.t]);
      x.data.replace (0, v.size (), v);
      x.known = true;
      gathers += P > 1;
    }
    else if (p.kind == 2) {
      std::string v;
      std::vector<int64_t> sum (p.count, 0);
      for (int r = 0; r <= P; ++r)
        for (int k = 0; k < p.count; ++k) {
          put (v, x.t, sum[k]);
          sum[k] += (int64_t) (mix (p.seed, 100 * r + k) % 2000) - 700;
        }
      if (!x.known && v.size () < x.n * DSIZE[x.t])
        continue;
      x.data.resize (x.n * DSIZE[x.t]);
      x.data.replace (0, v.size (), v);
      x.known = true;
      gathers += P > 1;
    }
    else if (p.kind == 4)
      x.data = A[p.b].data;
    else if (p.kind == 6) {
      /* fill with a sorted sequence, then search */
      x.data.clear ();
      int64_t v = (int64_t) (mix (p.seed, 7) % 100) - 50;
      p.search = 0;
      const size_t at = mix (p.seed, 8) % x.n;
      for (size_t i = 0; i < x.n; ++i) {
        put (x.data, GLO, v);
        if (i == at)
          p.search = v + (int64_t) (mix (p.seed, 9) % 3) - 1;
        v += 1 + (int64_t) (mix (p.seed, 10 + i) % 4);
      }
      x.known = true;
    }
    else if (p.kind == 7)
      x.known = false, x.data.clear ();
    ops.push_back (p);
    desc += vp::str (" ", p.kind, ":", p.a);
  }
  c.describe (vp::str ("type=", ty, " ops", desc));
  c.nontrivial (gathers > 0 && ops.size () > 2);
  vp_run_ranks (o, [&] (int rank) {
    sc_MPI_Comm comm = sc_MPI_COMM_WORLD;
    if (init) {
      const int n = t8_shmem_init (comm);
      VP_REQUIRE (n == (o.node_size > 0 ? o.node_size : P), "t8_shmem_init reports ", n, " processes per node");
      VP_REQUIRE (t8_shmem_init (comm) == n, "a second t8_shmem_init reports another size");
    }
    if (ty < (int) types.size ())
      t8_shmem_set_type (comm, types[ty]);
    std::vector<ShArr> M = start;
    std::vector<t8_shmem_array_t> arr (na, nullptr);
    auto make = [&] (int i) {
      t8_shmem_array_init (&arr[i], M[i].esize, M[i].n, comm);
      VP_REQUIRE (t8_shmem_array_get_elem_size (arr[i]) == M[i].esize && t8_shmem_array_get_elem_count (arr[i]) == M[i].n
                    && t8_shmem_array_get_comm (arr[i]) == comm,
                  "size, count or communicator of a new array");
    };
    for (int i = 0; i < na; ++i)
      make (i);
    auto verify = [&] (int i, const char *what) {
      const ShArr &m = M[i];
      if (!m.known)
        return;
      const char *d = (const char *) t8_shmem_array_get_array (arr[i]);
      for (size_t k = 0; k < m.n; ++k) {
        VP_REQUIRE (memcmp (d + k * m.esize, m.data.data () + k * m.esize, m.esize) == 0, what, ": entry ", k, " of array ", i, " on rank ", rank);
        VP_REQUIRE (t8_shmem_array_index (arr[i], k) == (const void *) (d + k * m.esize), "address of entry ", k);
        if (m.t == GLO) {
          t8_gloidx_t v;
          memcpy (&v, m.data.data () + k * 8, 8);
          VP_REQUIRE (t8_shmem_array_get_gloidx (arr[i], (int) k) == v && t8_shmem_array_get_gloidx_array (arr[i])[k] == v, what, ": value ", k);
        }
      }
    };
    for (auto &p : ops) {
      ShArr &x = M[p.a];
      const size_t ds = DSIZE[x.t];
      if (p.kind == 0 || p.kind == 6) {
        std::string v;
        if (p.kind == 0)
          for (auto i : p.where)
            put (v, x.t, (int64_t) (mix (p.seed, i) % 2000) - 700);
        else {
          int64_t w = (int64_t) (mix (p.seed, 7) % 100) - 50;
          for (size_t i = 0; i < x.n; ++i) {
            put (v, GLO, w);
            w += 1 + (int64_t) (mix (p.seed, 10 + i) % 4);
          }
        }
        const int may = t8_shmem_array_start_writing (arr[p.a]);
        if (may) {
          for (size_t k = 0; k * ds < v.size (); ++k) {
            const size_t i = p.kind == 0 ? p.where[k] : k;
            t8_gloidx_t g = 0;
            if (x.t == GLO)
              memcpy (&g, v.data () + k * ds, ds);
            const int how = x.t == GLO ? (int) (mix (p.seed, k + 77) % 3) : 0;
            if (how == 0)
              memcpy (t8_shmem_array_index_for_writing (arr[p.a], i), v.data () + k * ds, ds);
            else if (how == 1)
              t8_shmem_array_set_gloidx (arr[p.a], (int) i, g);
            else
              t8_shmem_array_get_gloidx_array_for_writing (arr[p.a])[i] = g;
          }
        }
        t8_shmem_array_end_writing (arr[p.a]);
        x.data.resize (x.n * ds);
        for (size_t k = 0; k * ds < v.size (); ++k)
          x.data.replace ((p.kind == 0 ? p.where[k] : k) * ds, ds, v.substr (k * ds, ds));
        x.known = true;
        if (p.kind == 6) {
          verify (p.a, "written");
          int want = -1;
          const int size = (int) (mix (p.seed, 11) % 4 == 0 ? mix (p.seed, 12) % x.n : x.n - 1);
          for (int i = 0; i <= size; ++i)
            if (t8_shmem_array_get_gloidx (arr[p.a], i) == p.search)
              want = i;
          const int got = t8_shmem_array_binary_search (arr[p.a], p.search, size, cmp_exact);
          VP_REQUIRE (got == want, "binary search for ", p.search, " up to ", size, " returned ", got, " instead of ", want);
        }
      }
      else if (p.kind == 1 || p.kind == 3) {
        std::string v, all;
        for (int r = 0; r < P; ++r)
          for (int k = 0; k < (p.kind == 1 ? p.count : p.counts[r]); ++k) {
            put (all, x.t, (int64_t) (mix (p.seed, 100 * r + k) % 2000) - 700);
            if (r == rank)
              put (v, x.t, (int64_t) (mix (p.seed, 100 * r + k) % 2000) - 700);
          }
        if (p.kind == 1)
          t8_shmem_array_allgather (v.data (), p.count, dtype (x.t), arr[p.a], p.count, dtype (x.t));
        else
          t8_shmem_array_allgatherv ((void *) v.data (), p.counts[rank], dtype (x.t), arr[p.a], dtype (x.t), comm);
        x.data.resize (x.n * ds);
        x.data.replace (0, all.size (), all);
        x.known = true;
      }
      else if (p.kind == 2) {
        std::string v, all;
        std::vector<int64_t> sum (p.count, 0);
        for (int r = 0; r <= P; ++r)
          for (int k = 0; k < p.count; ++k) {
            put (all, x.t, sum[k]);
            const int64_t y = (int64_t) (mix (p.seed, 100 * r + k) % 2000) - 700;
            sum[k] += y;
            if (r == rank)
              put (v, x.t, y);
          }
        t8_shmem_array_prefix (v.data (), arr[p.a], p.count, dtype (x.t), sc_MPI_SUM, comm);
        x.data.resize (x.n * ds);
        x.data.replace (0, all.size (), all);
        x.known = true;
      }
      else if (p.kind == 4) {
        t8_shmem_array_copy (arr[p.a], arr[p.b]);
        x.data = M[p.b].data;
      }
      else if (p.kind == 5) {
        const ShArr &y = M[p.b];
        const bool want = x.n == y.n && x.esize == y.esize && x.data == y.data;
        VP_REQUIRE (!!t8_shmem_array_is_equal (arr[p.a], arr[p.b]) == want, "equality of arrays ", p.a, " and ", p.b, " should be ", want);
      }
      else if (p.kind == 7) {
        t8_shmem_array_destroy (&arr[p.a]);
        VP_REQUIRE (arr[p.a] == nullptr, "pointer not reset");
        x.known = false;
        x.data.clear ();
        make (p.a);
      }
      for (int i = 0; i < na; ++i)
        verify (i, p.kind == 0 ? "write" : p.kind == 1 ? "allgather" : p.kind == 2 ? "prefix" : p.kind == 3 ? "allgatherv" : p.kind == 4 ? "copy" : "other");
      /* nobody starts the next write while others still read: a documented obligation of the caller */
      sc_MPI_Barrier (comm);
    }
    for (auto &a : arr)
      t8_shmem_array_destroy (&a);
    t8_shmem_finalize (comm);
  });
}
static vp::Register r1 ({ "D01", d01, 1400000, 21000000, "several ranks and at least one gather or prefix among three or more operations", {} });

/* ------------------------------------------------------------------ D02 */

struct EArr
{
  t8_element_array_t *a = nullptr;
  bool heap = false;
  std::vector<std::vector<int>> m; /* paths */
};

static void
d02 (Case &c)
{
  Scheme S (c.chance (40));
  const t8_scheme *s = S.s;
  const t8_eclass_t ec = (t8_eclass_t) c.below (T8_ECLASS_COUNT);
  const int maxl = s->get_maxlevel (ec);
  const size_t esize = s->get_element_size (ec);
  c.describe (vp::str (ref::NAME[ec], S.standalone ? " standalone" : " default"));
  /* a sorted list of leaves: a random refinement below a random element, with gaps */
  std::vector<std::vector<int>> L;
  {
    const std::vector<int> base = gen_path (c, s, ec, ec == T8_ECLASS_VERTEX ? 0 : gen_level (c, 0, maxl));
    std::function<void (std::vector<int>, int)> rec = [&] (std::vector<int> p, int budget) {
      Elem e (s, ec);
      follow (s, ec, p, e);
      const int n = s->element_get_num_children (ec, e);
      const bool ref = budget > 0 && (int) p.size () < maxl && L.size () < 200 && c.chance (budget > 2 ? 80 : 45);
      if (!ref) {
        if (c.chance (85))
          L.push_back (p);
        return;
      }
      for (int i = 0; i < n; ++i) {
        p.push_back (i);
        rec (p, budget - 1);
        p.pop_back ();
      }
    };
    rec (base, (int) c.range (0, ref::DIM[ec] == 3 ? 3 : 5));
  }
  auto random_path = [&] () -> std::vector<int> {
    if (!L.empty () && c.chance (60)) {
      auto p = L[c.below (L.size ())];
      const int k = (int) c.weighted ({ 3, 2, 2 });
      if (k == 1)
        p.resize (p.size () - c.below (std::min<size_t> (p.size (), 4) + 1));
      if (k == 2) {
        Elem e (s, ec);
        follow (s, ec, p, e);
        for (int i = (int) c.range (1, 3); i > 0 && (int) p.size () < maxl; --i) {
          const int id = (int) c.below (s->element_get_num_children (ec, e));
          p.push_back (id);
          s->element_get_child (ec, e, id, e);
        }
      }
      return p;
    }
    return gen_path (c, s, ec, ec == T8_ECLASS_VERTEX ? 0 : (int) c.range (0, std::min (maxl, 6)));
  };
  std::vector<EArr> A;
  auto put = [&] (t8_element_t *e, const std::vector<int> &p) { follow (s, ec, p, e); };
  auto at = [&] (const t8_element_array_t *a, size_t i) { return t8_element_array_index_locidx (a, (t8_locidx_t) i); };
  auto verify_view = [&] (const t8_element_array_t *a, const std::vector<std::vector<int>> &m, const char *what) {
    VP_REQUIRE (t8_element_array_get_count (a) == m.size (), what, ": count ", t8_element_array_get_count (a), " instead of ", m.size ());
    VP_REQUIRE (t8_element_array_get_size (a) == esize && t8_element_array_get_scheme (a) == s && t8_element_array_get_tree_class (a) == ec, what,
                ": scheme, class or size");
    const char *d = (const char *) t8_element_array_get_data (a);
    VP_REQUIRE (m.empty () ? d == nullptr : d != nullptr, what, ": data pointer");
    VP_REQUIRE (t8_element_array_get_array (a)->elem_count == m.size (), what, ": sc_array");
    Elem e (s, ec);
    for (size_t i = 0; i < m.size (); ++i) {
      follow (s, ec, m[i], e);
      VP_REQUIRE (s->element_is_equal (ec, at (a, i), e), what, ": element ", i, " of ", m.size ());
      VP_REQUIRE ((const char *) at (a, i) == d + i * esize && t8_element_array_index_int (a, (int) i) == at (a, i), what, ": address ", i);
    }
  };
  auto verify = [&] (EArr &a, const char *what) {
    verify_view (a.a, a.m, what);
    VP_REQUIRE (t8_element_array_get_data_mutable (a.a) == t8_element_array_get_data (a.a), what, ": mutable data");
    VP_REQUIRE (t8_element_array_get_array_mutable (a.a) == t8_element_array_get_array (a.a), what, ": mutable array");
  };
  auto clear = [&] (EArr &a) {
    t8_element_array_reset (a.a);
    VP_REQUIRE (t8_element_array_get_count (a.a) == 0, "count after reset");
    T8_FREE (a.a);
    a.a = nullptr;
  };
  const int steps = (int) c.range (3, c.thorough ? 40 : 20);
  int changes = 0;
  for (int st = 0; st < steps; ++st) {
    if (A.empty () || (A.size () < 4 && c.chance (20))) {
      EArr n;
      const int how = (int) c.below (5);
      if (how == 0)
        n.a = t8_element_array_new (s, ec);
      else if (how == 1) {
        const size_t k = c.chance (3) ? c.below (300) : c.below (8);
        n.a = t8_element_array_new_count (s, ec, k);
        for (size_t i = 0; i < k; ++i) {
          n.m.push_back (random_path ());
          put (t8_element_array_index_locidx_mutable (n.a, i), n.m.back ());
        }
      }
      else if (how == 2) {
        n.a = T8_ALLOC (t8_element_array_t, 1);
        t8_element_array_init (n.a, s, ec);
      }
      else if (how == 3) {
        n.a = T8_ALLOC (t8_element_array_t, 1);
        const size_t k = c.chance (3) ? c.below (300) : c.below (8);
        t8_element_array_init_size (n.a, s, ec, k);
        for (size_t i = 0; i < k; ++i) {
          n.m.push_back (random_path ());
          put (t8_element_array_index_int_mutable (n.a, i), n.m.back ());
        }
      }
      else {
        /* the leaves, as a copy of plain data */
        t8_element_array_t *src = t8_element_array_new_count (s, ec, L.size ());
        for (size_t i = 0; i < L.size (); ++i)
          put (t8_element_array_index_locidx_mutable (src, i), L[i]);
        n.a = T8_ALLOC (t8_element_array_t, 1);
        if (L.empty ())
          t8_element_array_init (n.a, s, ec);
        else
          t8_element_array_init_copy (n.a, s, ec, t8_element_array_get_data (src), L.size ());
        n.m = L;
        t8_element_array_reset (src);
        T8_FREE (src);
      }
      A.push_back (n);
      verify (A.back (), "new");
      continue;
    }
    const int k = (int) c.below (A.size ());
    EArr &a = A[k];
    switch (c.weighted ({ 4, 3, 3, 3, 1, 1, 3, 3, 5, 4 })) {
    case 0: {
      for (int r = (int) c.range (1, 5); r > 0; --r) {
        a.m.push_back (random_path ());
        put (t8_element_array_push (a.a), a.m.back ());
      }
      changes++;
      break;
    }
    case 1: {
      const size_t n = c.chance (2) ? c.range (7, 300) : c.range (1, 6);
      char *p = (char *) t8_element_array_push_count (a.a, n);
      for (size_t i = 0; i < n; ++i) {
        a.m.push_back (random_path ());
        put ((t8_element_t *) (p + i * esize), a.m.back ());
      }
      changes++;
      break;
    }
    case 2: {
      const size_t n = c.chance (30) ? a.m.size () : c.below (a.m.size () + (c.chance (2) ? 400 : 8));
      const size_t old = a.m.size ();
      t8_element_array_resize (a.a, n);
      a.m.resize (n);
      for (size_t i = old; i < n; ++i) {
        a.m[i] = random_path ();
        put (t8_element_array_index_locidx_mutable (a.a, i), a.m[i]);
      }
      changes++;
      break;
    }
    case 3: {
      const int o = (int) c.below (A.size ());
      if (o == k)
        break;
      t8_element_array_copy (a.a, A[o].a);
      a.m = A[o].m;
      changes++;
      break;
    }
    case 4: {
      t8_element_array_truncate (a.a);
      a.m.clear ();
      changes++;
      break;
    }
    case 5: {
      clear (a);
      A.erase (A.begin () + k);
      break;
    }
    case 6: { /* views */
      const size_t off = c.below (a.m.size () + 1), len = c.below (a.m.size () - off + 1);
      t8_element_array_t v;
      t8_element_array_init_view (&v, a.a, off, len);
      std::vector<std::vector<int>> m (a.m.begin () + off, a.m.begin () + off + len);
      verify_view (&v, m, "view");
      if (len > 0) {
        t8_element_array_t w;
        t8_element_array_init_data (&w, at (a.a, off), s, ec, len);
        verify_view (&w, m, "data view");
        /* writing through the view */
        const size_t i = c.below (len);
        a.m[off + i] = random_path ();
        put (t8_element_array_index_locidx_mutable (&v, i), a.m[off + i]);
      }
      break;
    }
    case 7: { /* iterators */
      auto b = t8_element_array_begin (a.a), e = t8_element_array_end (a.a);
      const std::ptrdiff_t n = a.m.size ();
      VP_REQUIRE (e - b == n && (b == e) == (n == 0) && (b != e) == (n != 0), "distance of begin and end");
      std::ptrdiff_t pos = 0;
      auto it = b;
      for (int r = 0; r < 12; ++r) {
        const int what = (int) c.below (8);
        const std::ptrdiff_t to = n == 0 ? 0 : (std::ptrdiff_t) c.below (n + 1);
        if (what == 0 && pos < n)
          ++it, ++pos;
        else if (what == 1 && pos < n) {
          VP_REQUIRE ((it++).get_current_index () == pos, "postfix increment");
          ++pos;
        }
        else if (what == 2 && pos > 0)
          --it, --pos;
        else if (what == 3 && pos > 0) {
          VP_REQUIRE ((it--).get_current_index () == pos, "postfix decrement");
          --pos;
        }
        else if (what == 4) {
          it += to - pos;
          pos = to;
        }
        else if (what == 5) {
          it -= pos - to;
          pos = to;
        }
        else if (what == 6) {
          it = c.chance (50) ? it + (to - pos) : (to - pos) + it;
          pos = to;
        }
        else if (what == 7) {
          it = it - (pos - to);
          pos = to;
        }
        VP_REQUIRE (it.get_current_index () == pos && it - b == pos && e - it == n - pos, "position of an iterator");
        const auto other = b + to;
        VP_REQUIRE ((it < other) == (pos < to) && (it > other) == (pos > to) && (it <= other) == (pos <= to) && (it >= other) == (pos >= to)
                      && (it == other) == (pos == to) && (it != other) == (pos != to),
                    "comparison of iterators at ", pos, " and ", to);
        if (pos < n) {
          VP_REQUIRE (*it == at (a.a, pos), "dereferencing at ", pos);
          const int l = (int) c.range (0, std::min<int> (maxl, 8));
          VP_REQUIRE (it.get_linear_id_at_level (l) == s->element_get_linear_id (ec, at (a.a, pos), l), "linear id at ", pos);
        }
        if (to < n)
          VP_REQUIRE (it[to] == at (a.a, to), "subscript ", to);
      }
      size_t i = 0;
      for (auto x = b; x != e; ++x, ++i)
        VP_REQUIRE (*x == at (a.a, i), "iteration at ", i);
      VP_REQUIRE (i == a.m.size (), "iteration ended early");
      break;
    }
    default: { /* searching in a part of the leaves */
      t8_element_array_t *t = t8_element_array_new (s, ec);
      std::vector<std::vector<int>> m;
      const bool part = c.chance (50);
      for (auto &p : L)
        if (!part || c.chance (60)) {
          m.push_back (p);
          put (t8_element_array_push (t), p);
        }
      for (int r = 0; r < 6; ++r) {
        const auto q = random_path ();
        Elem e (s, ec);
        follow (s, ec, q, e);
        auto is_prefix = [] (const std::vector<int> &x, const std::vector<int> &y) {
          return x.size () <= y.size () && std::equal (x.begin (), x.end (), y.begin ());
        };
        int want = -1, lower = -1, upper = -1, rel = -1;
        const int l = (int) q.size ();
        const t8_linearidx_t id = s->element_get_linear_id (ec, e, l);
        for (size_t i = 0; i < m.size (); ++i) {
          if (m[i] == q)
            want = (int) i;
          const t8_linearidx_t x = s->element_get_linear_id (ec, at (t, i), l);
          if (x <= id)
            lower = (int) i;
          if (x >= id && upper < 0)
            upper = (int) i;
          if (rel < 0 && (is_prefix (m[i], q) || is_prefix (q, m[i])))
            rel = (int) i;
        }
        const t8_locidx_t f = t8_element_array_find (t, e);
        VP_REQUIRE (f == want, "find returned ", f, " instead of ", want, " for ", path_str (q), " in ", m.size (), " elements");
        const t8_locidx_t lo = t8_forest_bin_search_lower (t, id, l);
        VP_REQUIRE (lo == lower, "lower search returned ", lo, " instead of ", lower, " for ", path_str (q));
        const t8_locidx_t up = t8_forest_bin_search_upper (t, id, l);
        VP_REQUIRE (up == upper, "upper search returned ", up, " instead of ", upper, " for ", path_str (q));
        const t8_element_t *found = (const t8_element_t *) 0x1;
        const t8_locidx_t an = t8_forest_bin_search_first_descendant_ancestor (t, e, &found);
        VP_REQUIRE (an == rel, "ancestor or descendant search returned ", an, " instead of ", rel, " for ", path_str (q));
        VP_REQUIRE (found == (rel < 0 ? nullptr : at (t, rel)), "element found");
        c.label (rel < 0 ? "unrelated" : want >= 0 ? "member" : m[rel].size () < q.size () ? "descendant" : "ancestor");
      }
      t8_element_array_reset (t);
      T8_FREE (t);
      changes += m.size () > 2;
      break;
    }
    }
    for (auto &x : A)
      verify (x, "after an operation");
  }
  c.nontrivial (changes > 1 && L.size () > 1);
  for (auto &x : A)
    clear (x);
}
static vp::Register r2 ({ "D02", d02, 1400000, 21000000, "at least two changes or searches with more than one leaf", {} });

/* ------------------------------------------------------------------ D03 */

struct Rec
{
  int i = 0;
  double d = 0;
  std::vector<int> v;
  std::string s;
  std::shared_ptr<t8_vector_handler<double>> inner; /* nested vector */
};

template <>
int
t8_data_handler<int>::size (const int &, sc_MPI_Comm comm)
{
  int n;
  sc_MPI_Pack_size (1, sc_MPI_INT, comm, &n);
  return n;
}
template <>
void
t8_data_handler<int>::pack (const int &x, int &pos, void *b, const int n, sc_MPI_Comm comm)
{
  sc_MPI_Pack ((void *) &x, 1, sc_MPI_INT, b, n, &pos, comm);
}
template <>
void
t8_data_handler<int>::unpack (const void *b, const int n, int &pos, int &x, sc_MPI_Comm comm)
{
  sc_MPI_Unpack ((void *) b, n, &pos, &x, 1, sc_MPI_INT, comm);
}
template <>
t8_data_handler_type
t8_data_handler<int>::type ()
{
  return t8_data_handler_type (5);
}
template <>
int
t8_data_handler<double>::size (const double &, sc_MPI_Comm comm)
{
  int n;
  sc_MPI_Pack_size (1, sc_MPI_DOUBLE, comm, &n);
  return n;
}
template <>
void
t8_data_handler<double>::pack (const double &x, int &pos, void *b, const int n, sc_MPI_Comm comm)
{
  sc_MPI_Pack ((void *) &x, 1, sc_MPI_DOUBLE, b, n, &pos, comm);
}
template <>
void
t8_data_handler<double>::unpack (const void *b, const int n, int &pos, double &x, sc_MPI_Comm comm)
{
  sc_MPI_Unpack ((void *) b, n, &pos, &x, 1, sc_MPI_DOUBLE, comm);
}
template <>
t8_data_handler_type
t8_data_handler<double>::type ()
{
  return t8_data_handler_type (6);
}
template <>
int
t8_data_handler<Rec>::size (const Rec &x, sc_MPI_Comm comm)
{
  int a, b, v, l;
  sc_MPI_Pack_size (4, sc_MPI_INT, comm, &a);
  sc_MPI_Pack_size (1, sc_MPI_DOUBLE, comm, &b);
  sc_MPI_Pack_size ((int) x.v.size (), sc_MPI_INT, comm, &v);
  sc_MPI_Pack_size ((int) x.s.size (), sc_MPI_BYTE, comm, &l);
  return a + b + v + l + (x.inner ? x.inner->buffer_size (comm) : 0);
}
template <>
void
t8_data_handler<Rec>::pack (const Rec &x, int &pos, void *b, const int n, sc_MPI_Comm comm)
{
  int h[4] = { x.i, (int) x.v.size (), (int) x.s.size (), x.inner ? 1 : 0 };
  sc_MPI_Pack (h, 4, sc_MPI_INT, b, n, &pos, comm);
  sc_MPI_Pack ((void *) &x.d, 1, sc_MPI_DOUBLE, b, n, &pos, comm);
  sc_MPI_Pack ((void *) x.v.data (), (int) x.v.size (), sc_MPI_INT, b, n, &pos, comm);
  sc_MPI_Pack ((void *) x.s.data (), (int) x.s.size (), sc_MPI_BYTE, b, n, &pos, comm);
  if (x.inner)
    x.inner->pack_vector_prefix (b, n, pos, comm);
}
template <>
void
t8_data_handler<Rec>::unpack (const void *b, const int n, int &pos, Rec &x, sc_MPI_Comm comm)
{
  int h[4];
  sc_MPI_Unpack ((void *) b, n, &pos, h, 4, sc_MPI_INT, comm);
  x.i = h[0];
  sc_MPI_Unpack ((void *) b, n, &pos, &x.d, 1, sc_MPI_DOUBLE, comm);
  x.v.resize (h[1]);
  sc_MPI_Unpack ((void *) b, n, &pos, x.v.data (), h[1], sc_MPI_INT, comm);
  x.s.resize (h[2]);
  sc_MPI_Unpack ((void *) b, n, &pos, x.s.data (), h[2], sc_MPI_BYTE, comm);
  x.inner.reset ();
  if (h[3]) {
    x.inner = std::make_shared<t8_vector_handler<double>> ();
    int count = -1;
    x.inner->unpack_vector_prefix (b, n, pos, count, comm);
    VP_REQUIRE (count == (int) x.inner->get_data ()->size (), "count of the nested vector");
  }
}
template <>
t8_data_handler_type
t8_data_handler<Rec>::type ()
{
  return t8_data_handler_type (9);
}

static bool
same (const Rec &a, const Rec &b)
{
  return a.i == b.i && a.d == b.d && a.v == b.v && a.s == b.s && !a.inner == !b.inner && (!a.inner || *a.inner->get_data () == *b.inner->get_data ());
}
static bool
same (int a, int b)
{
  return a == b;
}
static bool
same (double a, double b)
{
  return a == b;
}
static void
fill (int &x, uint64_t h)
{
  x = (int) h;
}
static void
fill (double &x, uint64_t h)
{
  x = (double) (int64_t) h / 1024;
}
static void
fill (Rec &x, uint64_t h)
{
  x.i = (int) h;
  x.d = (double) (int) h / 7;
  for (uint64_t k = 0; k < h % 5; ++k)
    x.v.push_back ((int) mix (h, k));
  x.s = std::string (mix (h, 50) % 9, (char) ('a' + h % 20));
  if (mix (h, 51) % 3 == 0) {
    std::vector<double> d (mix (h, 52) % 4);
    for (size_t k = 0; k < d.size (); ++k)
      d[k] = (double) (int) mix (h, 60 + k);
    x.inner = std::make_shared<t8_vector_handler<double>> (d);
  }
}
template <class T>
static std::vector<T>
vec_of (uint64_t seed, int n)
{
  std::vector<T> v (n);
  for (int i = 0; i < n; ++i)
    fill (v[i], mix (seed, i));
  return v;
}
template <class T>
static void
compare (const t8_vector_handler<T> &h, const std::vector<T> &want, int count, const char *what)
{
  VP_REQUIRE (count == (int) want.size (), what, ": count ", count, " instead of ", want.size ());
  auto d = h.get_data ();
  VP_REQUIRE (d && d->size () == want.size (), what, ": number of items");
  for (size_t i = 0; i < want.size (); ++i)
    VP_REQUIRE (same ((*d)[i], want[i]), what, ": item ", i, " of ", want.size ());
}

struct Msg
{
  int kind; /* 0 local pack round trip, 1 send and recv, 2 sendrecv ring with a shift, 3 several senders, any source */
  int type, src, dst, tag, n;
  uint64_t seed;
  int shift;
  bool anytag, reuse;
  std::vector<int> senders, counts;
};

template <class T>
static void
run_msg (const Msg &m, int rank, int P)
{
  sc_MPI_Comm comm = sc_MPI_COMM_WORLD;
  sc_MPI_Status st;
  auto receiver = [&] () {
    if (m.reuse)
      return t8_vector_handler<T> (vec_of<T> (m.seed + 99, (int) (m.seed % 7)));
    return t8_vector_handler<T> ();
  };
  if (m.kind == 0) {
    /* several handlers behind each other in one buffer */
    const int k = 1 + (int) (m.seed % 3), lead = (int) (m.seed % 5) * 4;
    std::vector<std::vector<T>> v;
    int total = lead;
    for (int i = 0; i < k; ++i) {
      v.push_back (vec_of<T> (m.seed + i, (m.n + i) % 9));
      t8_vector_handler<T> h (v[i]);
      total += h.buffer_size (comm);
    }
    std::vector<char> buf (total + 16, 'x');
    int pos = lead;
    for (int i = 0; i < k; ++i) {
      t8_vector_handler<T> h (v[i]);
      const int before = pos;
      h.pack_vector_prefix (buf.data (), total, pos, comm);
      VP_REQUIRE (pos - before <= h.buffer_size (comm), "packing used ", pos - before, " bytes, announced ", h.buffer_size (comm));
      compare (h, v[i], (int) v[i].size (), "packed vector");
    }
    for (int i = 0; i < lead; ++i)
      VP_REQUIRE (buf[i] == 'x', "packing wrote before the position");
    for (int i = 0; i < 16; ++i)
      VP_REQUIRE (buf[total + i] == 'x', "packing wrote behind the buffer");
    const int end = pos;
    pos = lead;
    for (int i = 0; i < k; ++i) {
      auto h = receiver ();
      int n = -1;
      h.unpack_vector_prefix (buf.data (), total, pos, n, comm);
      compare (h, v[i], n, "unpacked vector");
    }
    VP_REQUIRE (pos == end, "unpacking read ", pos - lead, " bytes of ", end - lead);
  }
  else if (m.kind == 1) {
    if (rank == m.src) {
      t8_vector_handler<T> h (vec_of<T> (m.seed, m.n));
      VP_REQUIRE (h.send (m.dst, m.tag, comm) == sc_MPI_SUCCESS, "send");
      compare (h, vec_of<T> (m.seed, m.n), m.n, "sent vector");
    }
    else if (rank == m.dst) {
      auto h = receiver ();
      int n = -1;
      VP_REQUIRE (h.recv (m.src, m.anytag ? sc_MPI_ANY_TAG : m.tag, comm, &st, n) == sc_MPI_SUCCESS, "recv");
      compare (h, vec_of<T> (m.seed, m.n), n, "received vector");
      VP_REQUIRE (st.MPI_SOURCE == m.src && st.MPI_TAG == m.tag, "status");
    }
  }
  else if (m.kind == 2) {
    const int to = (rank + m.shift) % P, from = (rank - m.shift + P) % P;
    t8_vector_handler<T> h (vec_of<T> (m.seed + rank, m.counts[rank]));
    int n = -1;
    /* with a wildcard the only sender is found; other exchanges must not be under way then */
    if (m.anytag)
      sc_MPI_Barrier (comm);
    VP_REQUIRE (h.sendrecv (to, m.anytag ? sc_MPI_ANY_SOURCE : from, m.tag, comm, &st, n) == sc_MPI_SUCCESS, "sendrecv");
    VP_REQUIRE (st.MPI_SOURCE == from && st.MPI_TAG == m.tag, "status of the exchange");
    if (m.anytag)
      sc_MPI_Barrier (comm);
    compare (h, vec_of<T> (m.seed + from, m.counts[from]), n, "exchanged vector");
  }
  else {
    if (rank == m.dst) {
      std::vector<bool> seen (P, false);
      for (size_t k = 0; k < m.senders.size (); ++k) {
        auto h = receiver ();
        int n = -1;
        VP_REQUIRE (h.recv (sc_MPI_ANY_SOURCE, m.tag, comm, &st, n) == sc_MPI_SUCCESS, "recv");
        const int r = st.MPI_SOURCE;
        VP_REQUIRE (r >= 0 && r < P && std::find (m.senders.begin (), m.senders.end (), r) != m.senders.end () && !seen[r], "source of the message");
        seen[r] = true;
        compare (h, vec_of<T> (m.seed + r, m.counts[r]), n, "vector received from any source");
      }
    }
    else if (std::find (m.senders.begin (), m.senders.end (), rank) != m.senders.end ()) {
      t8_vector_handler<T> h (vec_of<T> (m.seed + rank, m.counts[rank]));
      VP_REQUIRE (h.send (m.dst, m.tag, comm) == sc_MPI_SUCCESS, "send");
    }
  }
  VP_REQUIRE (t8_vector_handler<T> ().type () == t8_data_handler<T> ().type (), "type of the handler");
}

static void
d03 (Case &c)
{
  const vmpi::Options o = gen_opt (c, 8);
  const int P = o.nranks;
  const int n = (int) c.range (1, c.thorough ? 16 : 8);
  std::vector<Msg> M;
  int trans = 0;
  for (int i = 0; i < n; ++i) {
    Msg m;
    m.kind = P == 1 ? 0 : (int) c.weighted ({ 2, 5, 3, 4 });
    m.type = (int) c.below (3);
    m.src = (int) c.below (P);
    m.dst = (int) c.below (P);
    m.tag = (int) c.below (4);
    m.n = (int) (c.chance (20) ? 0 : c.chance (3) ? c.range (41, 3000) : c.range (1, 40));
    m.seed = c.below (1 << 20);
    m.shift = P > 1 ? (int) c.range (1, P - 1) : 0;
    m.anytag = c.chance (20);
    m.reuse = c.chance (30);
    for (int r = 0; r < P; ++r)
      m.counts.push_back (c.chance (20) ? 0 : c.chance (2) ? (int) c.range (31, 2000) : (int) c.range (1, 30));
    for (int r = 0; r < P; ++r)
      if (r != m.dst && c.chance (70))
        m.senders.push_back (r);
    if (m.kind == 1 && m.src == m.dst)
      m.kind = 0;
    trans += m.kind == 1 || m.kind == 2 || (m.kind == 3 && m.senders.size () > 1);
    c.label (vp::str ("kind-", m.kind));
    c.describe (vp::str ("kind=", m.kind, " type=", m.type, " ", m.src, "->", m.dst, " tag=", m.tag, " n=", m.n));
    M.push_back (m);
  }
  c.nontrivial (trans > 0);
  vp_run_ranks (o, [&] (int rank) {
    for (auto &m : M) {
      if (m.type == 0)
        run_msg<int> (m, rank, P);
      else if (m.type == 1)
        run_msg<double> (m, rank, P);
      else
        run_msg<Rec> (m, rank, P);
      if (m.kind == 3)
        sc_MPI_Barrier (sc_MPI_COMM_WORLD);
    }
  });
}
static vp::Register r3 ({ "D03", d03, 1800000, 27000000, "at least one message between different ranks", {} });
