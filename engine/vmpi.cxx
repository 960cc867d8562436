#include <cxxabi.h>
#include <exception>
#include "vmpi.hxx"
#include <mpi.h>
#include <algorithm>
#include <sc.h>
#include <sc_mpi.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <sys/mman.h>
#include <ucontext.h>
#include <vector>
#if defined(__SANITIZE_ADDRESS__)
#define VP_ASAN 1
#include <sanitizer/common_interface_defs.h>
#include <sanitizer/asan_interface.h>
#endif

namespace vmpi
{
std::string last_failure;

namespace
{

const size_t STACK = size_t (8) << 20;

/* the start of the ABI's per-thread exception state */
struct EhGlobals
{
  void *caught;
  unsigned int uncaught;
};

struct Fiber
{
  ucontext_t ctx;
  void *stack = nullptr;
  bool done = false;
  bool waiting = false;
  bool polling = false;
  uint64_t seen = 0;
  std::exception_ptr err;
  bool unwinding = false; /* gave up in the middle of unwinding */
#ifdef VP_ASAN
  void *fake = nullptr;
#endif
};

struct Request;

struct Message
{
  int src; /* comm rank */
  int tag;
  std::vector<char> data;
  Request *sreq = nullptr; /* sender request to complete on matching */
};

struct Collective
{
  std::string name;
  int arrived = 0;
  int left = 0;
  bool done = false;
  std::vector<const void *> sbuf;
  std::vector<void *> rbuf;
  std::vector<long> a, b, c, d;
  std::vector<const int *> rcounts, displs;
  std::vector<void *> result;
};

struct Comm
{
  uint64_t id = 0;
  std::vector<int> members; /* world ranks */
  std::vector<int> local;   /* world rank -> comm rank or -1 */
  std::vector<std::map<int, void *>> attr;
  std::vector<std::deque<Message>> unexpected;
  std::vector<std::list<Request *>> posted;
  std::vector<uint64_t> cseq;
  std::map<uint64_t, std::unique_ptr<Collective>> colls;
  int freed = 0;
  bool alive = true;
};

struct Request
{
  enum Kind { SEND, RECV, COLL } kind;
  bool complete = false;
  int owner = 0;
  /* recv */
  Comm *comm = nullptr;
  void *buf = nullptr;
  size_t cap = 0;
  int src = 0, tag = 0;
  MPI_Status st;
  Collective *coll = nullptr;
  uint64_t cid = 0;
  /* send: the buffer and what it held when the send was posted; recv: data that arrived but is not yet handed over */
  const void *sbuf = nullptr;
  std::vector<char> data;
};

struct Win
{
  Comm *comm;
  std::vector<char *> base;
  std::vector<size_t> size;
  std::vector<int> disp;
  char *mem;
  std::vector<int> shared_by; /* per target: number of shared holders */
  std::vector<int> excl_by;   /* per target: holder or -1 */
  std::vector<std::map<int, int>> held;
};

struct Group
{
  std::vector<int> members;
};

struct State
{
  Options opt;
  std::vector<Fiber> f;
  int cur = -1;
  ucontext_t main;
  uint64_t progress = 0;
  uint64_t rng = 0;
  uint64_t nextcomm = 1;
  Comm *world = nullptr;
  std::vector<std::unique_ptr<Comm>> comms;
  std::vector<std::unique_ptr<Win>> wins;
  uint64_t nmsg = 0, ncoll = 0, nswitch = 0;
  long live_requests = 0;
  const std::function<void (int)> *body = nullptr;
  int sync_count = 0;
  uint64_t sync_gen = 0;
#ifdef VP_ASAN
  void *mainfake = nullptr;
  const void *mainstack = nullptr;
  size_t mainsize = 0;
#endif
};

State *S = nullptr;
uint64_t g_msg, g_coll, g_switch;

struct Keyval
{
  MPI_Comm_copy_attr_function *copy;
  MPI_Comm_delete_attr_function *del;
  void *extra;
};
std::vector<Keyval> keyvals;

struct UserType
{
  size_t size;
};
struct UserOp
{
  MPI_User_function *fn;
  int commute;
};

uint64_t
rnd ()
{
  uint64_t z = (S->rng += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

[[noreturn]] void
fail (const std::string &m)
{
  throw Error ("MPI: " + m + " (rank " + std::to_string (S ? S->cur : -1) + ")");
}

std::vector<void *> stack_pool;

void *
get_stack ()
{
  if (!stack_pool.empty ()) {
    void *s = stack_pool.back ();
    stack_pool.pop_back ();
    return s;
  }
  void *s = mmap (nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_STACK, -1, 0);
  if (s == MAP_FAILED) {
    perror ("mmap stack");
    _exit (77);
  }
  mprotect (s, 4096, PROT_NONE);
  return s;
}

void
switch_to_main ()
{
  Fiber &f = S->f[S->cur];
  if (!f.done && std::uncaught_exceptions () > 0) {
    /* A rank failed and a destructor that runs for it wants to communicate: nobody will answer. Give this rank up
     * here; run () reports what it failed with. */
    f.done = f.unwinding = true;
  }
#ifdef VP_ASAN
  __sanitizer_start_switch_fiber (f.done ? nullptr : &f.fake, S->mainstack, S->mainsize);
#endif
  swapcontext (&f.ctx, &S->main);
#ifdef VP_ASAN
  __sanitizer_finish_switch_fiber (f.fake, &S->mainstack, &S->mainsize);
#endif
}

void
trampoline ()
{
#ifdef VP_ASAN
  __sanitizer_finish_switch_fiber (nullptr, &S->mainstack, &S->mainsize);
#endif
  const int r = S->cur;
  try {
    (*S->body) (r);
  } catch (...) {
    S->f[r].err = std::current_exception ();
  }
  S->f[r].done = true;
  S->progress++;
  switch_to_main ();
  abort ();
}

/* Block the current fiber until something changed. */
void
block ()
{
  Fiber &f = S->f[S->cur];
  f.waiting = true;
  f.polling = false;
  f.seen = S->progress;
  switch_to_main ();
}

void
poll_yield ()
{
  Fiber &f = S->f[S->cur];
  f.waiting = true;
  f.polling = true;
  f.seen = S->progress;
  switch_to_main ();
}

/* Give other ranks a chance to run first (random schedules only). */
void
maybe_preempt ()
{
  if (S->opt.sched_seed && S->opt.nranks > 1 && rnd () % 4 == 0) {
    S->f[S->cur].waiting = false;
    switch_to_main ();
  }
}

Comm *
C (MPI_Comm c)
{
  if (S == nullptr || S->cur < 0) {
    fprintf (stderr, "vmpi: MPI call outside of a run\n");
    abort ();
  }
  if (c == MPI_COMM_WORLD)
    return S->world;
  if (c == MPI_COMM_SELF || c == MPI_COMM_NULL)
    fail ("use of an invalid communicator");
  Comm *p = reinterpret_cast<Comm *> (c);
  for (auto &q : S->comms)
    if (q.get () == p) {
      if (!p->alive || p->local[S->cur] < 0)
        fail ("use of a freed or foreign communicator");
      return p;
    }
  fail ("use of an unknown communicator");
}

MPI_Comm
H (Comm *c)
{
  return reinterpret_cast<MPI_Comm> (c);
}

Comm *
new_comm (const std::vector<int> &members)
{
  auto c = std::make_unique<Comm> ();
  c->id = S->nextcomm++;
  c->members = members;
  c->local.assign (S->opt.nranks, -1);
  for (size_t i = 0; i < members.size (); ++i)
    c->local[members[i]] = (int) i;
  c->attr.resize (members.size ());
  c->unexpected.resize (members.size ());
  c->posted.resize (members.size ());
  c->cseq.assign (members.size (), 0);
  S->comms.push_back (std::move (c));
  return S->comms.back ().get ();
}

std::map<MPI_Datatype, UserType> usertypes;

size_t
tsize (MPI_Datatype t)
{
  if (t == MPI_BYTE || t == MPI_CHAR || t == MPI_SIGNED_CHAR || t == MPI_UNSIGNED_CHAR || t == MPI_PACKED
      || t == MPI_INT8_T || t == MPI_UINT8_T || t == MPI_C_BOOL || t == MPI_CXX_BOOL)
    return 1;
  if (t == MPI_SHORT || t == MPI_UNSIGNED_SHORT || t == MPI_INT16_T || t == MPI_UINT16_T)
    return 2;
  if (t == MPI_INT || t == MPI_UNSIGNED || t == MPI_FLOAT || t == MPI_INT32_T || t == MPI_UINT32_T)
    return 4;
  if (t == MPI_LONG || t == MPI_UNSIGNED_LONG || t == MPI_LONG_LONG || t == MPI_LONG_LONG_INT
      || t == MPI_UNSIGNED_LONG_LONG || t == MPI_DOUBLE || t == MPI_INT64_T || t == MPI_UINT64_T || t == MPI_2INT
      || t == MPI_AINT)
    return 8;
  if (t == MPI_LONG_DOUBLE)
    return 16;
  if (t == MPI_DOUBLE_INT)
    return 16;
  auto it = usertypes.find (t);
  if (it != usertypes.end ())
    return it->second.size;
  fail ("unknown datatype");
}

template <class T, class F>
void
redloop (const void *in, void *inout, int n, F f)
{
  const T *a = (const T *) in;
  T *b = (T *) inout;
  for (int i = 0; i < n; ++i)
    b[i] = f (a[i], b[i]);
}

template <class T>
void
redtyped (MPI_Op op, const void *in, void *io, int n)
{
  if (op == MPI_SUM)
    redloop<T> (in, io, n, [] (T a, T b) { return (T) (a + b); });
  else if (op == MPI_MAX)
    redloop<T> (in, io, n, [] (T a, T b) { return a > b ? a : b; });
  else if (op == MPI_MIN)
    redloop<T> (in, io, n, [] (T a, T b) { return a < b ? a : b; });
  else if (op == MPI_PROD)
    redloop<T> (in, io, n, [] (T a, T b) { return (T) (a * b); });
  else if (op == MPI_LOR)
    redloop<T> (in, io, n, [] (T a, T b) { return (T) (a || b); });
  else if (op == MPI_LAND)
    redloop<T> (in, io, n, [] (T a, T b) { return (T) (a && b); });
  else {
    if constexpr (std::is_integral_v<T>) {
      if (op == MPI_BOR) {
        redloop<T> (in, io, n, [] (T a, T b) { return (T) (a | b); });
        return;
      }
      if (op == MPI_BAND) {
        redloop<T> (in, io, n, [] (T a, T b) { return (T) (a & b); });
        return;
      }
      if (op == MPI_BXOR) {
        redloop<T> (in, io, n, [] (T a, T b) { return (T) (a ^ b); });
        return;
      }
    }
    fail ("unsupported reduction");
  }
}

std::map<MPI_Op, UserOp> userops;

/* inout = in (op) inout */
void
reduce (MPI_Op op, MPI_Datatype t, const void *in, void *io, int n)
{
  auto it = userops.find (op);
  if (it != userops.end ()) {
    int len = n;
    MPI_Datatype tt = t;
    it->second.fn (const_cast<void *> (in), io, &len, &tt);
    return;
  }
  if (t == MPI_INT || t == MPI_INT32_T)
    redtyped<int> (op, in, io, n);
  else if (t == MPI_UNSIGNED || t == MPI_UINT32_T)
    redtyped<unsigned> (op, in, io, n);
  else if (t == MPI_LONG)
    redtyped<long> (op, in, io, n);
  else if (t == MPI_UNSIGNED_LONG)
    redtyped<unsigned long> (op, in, io, n);
  else if (t == MPI_LONG_LONG || t == MPI_LONG_LONG_INT || t == MPI_INT64_T)
    redtyped<long long> (op, in, io, n);
  else if (t == MPI_UNSIGNED_LONG_LONG || t == MPI_UINT64_T)
    redtyped<unsigned long long> (op, in, io, n);
  else if (t == MPI_DOUBLE)
    redtyped<double> (op, in, io, n);
  else if (t == MPI_FLOAT)
    redtyped<float> (op, in, io, n);
  else if (t == MPI_SHORT)
    redtyped<short> (op, in, io, n);
  else if (t == MPI_INT8_T || t == MPI_CHAR || t == MPI_SIGNED_CHAR)
    redtyped<signed char> (op, in, io, n);
  else if (t == MPI_BYTE || t == MPI_UNSIGNED_CHAR || t == MPI_UINT8_T)
    redtyped<unsigned char> (op, in, io, n);
  else
    fail ("unsupported reduction type");
}

/* ---- collectives ---- */
struct Arg
{
  const void *s = nullptr;
  void *r = nullptr;
  long a = 0, b = 0, c = 0, d = 0;
  const int *rc = nullptr, *ds = nullptr;
};

/* Enter a collective; returns the collective object and whether this was the last arrival */
Collective *
enter (Comm *c, const char *name, const Arg &g, bool *last, uint64_t *idp)
{
  const int me = c->local[S->cur];
  const uint64_t id = c->cseq[me]++;
  auto &p = c->colls[id];
  const int n = (int) c->members.size ();
  if (!p) {
    p = std::make_unique<Collective> ();
    p->name = name;
    p->sbuf.resize (n);
    p->rbuf.resize (n);
    p->a.resize (n);
    p->b.resize (n);
    p->c.resize (n);
    p->d.resize (n);
    p->rcounts.resize (n);
    p->displs.resize (n);
    p->result.resize (n);
    S->ncoll++;
  }
  if (p->name != name)
    fail ("collective mismatch: " + p->name + " and " + name + " on the same communicator");
  p->sbuf[me] = g.s;
  p->rbuf[me] = g.r;
  p->a[me] = g.a;
  p->b[me] = g.b;
  p->c[me] = g.c;
  p->d[me] = g.d;
  p->rcounts[me] = g.rc;
  p->displs[me] = g.ds;
  p->arrived++;
  S->progress++;
  *last = (p->arrived == n);
  *idp = id;
  return p.get ();
}

void
leave (Comm *c, Collective *p, uint64_t id)
{
  if (++p->left == (int) c->members.size ())
    c->colls.erase (id);
}

/* Synchronising collective: op is executed once by the last arriving rank */
void *
collective (Comm *c, const char *name, const Arg &g, const std::function<void (Collective &)> &op)
{
  maybe_preempt ();
  bool last;
  uint64_t id;
  const int me = c->local[S->cur];
  Collective *p = enter (c, name, g, &last, &id);
  if (last) {
    op (*p);
    p->done = true;
    S->progress++;
  }
  while (!p->done)
    block ();
  void *res = p->result[me];
  leave (c, p, id);
  return res;
}

void
same (const std::vector<long> &v, const char *what)
{
  for (long x : v)
    if (x != v[0])
      fail (std::string ("inconsistent ") + what + " in a collective");
}

/* ---- point to point ---- */
bool
matches (const Request *r, const Message &m)
{
  return (r->src == MPI_ANY_SOURCE || r->src == m.src) && (r->tag == MPI_ANY_TAG || r->tag == m.tag);
}

void
deliver (Request *r, const Message &m)
{
  if (m.data.size () > r->cap)
    fail ("message truncated: " + std::to_string (m.data.size ()) + " bytes sent by " + std::to_string (m.src) + " tag "
          + std::to_string (m.tag) + ", receive buffer holds " + std::to_string (r->cap));
  /* MPI hands the data over at any time up to the completion of the receive */
  if (S->opt.sched_seed & 4)
    r->data = m.data;
  else if (!m.data.empty ())
    memcpy (r->buf, m.data.data (), m.data.size ());
  r->st.MPI_SOURCE = m.src;
  r->st.MPI_TAG = m.tag;
  r->st.MPI_ERROR = MPI_SUCCESS;
  r->st._ucount = m.data.size ();
  r->st._cancelled = 0;
  r->complete = true;
  if (m.sreq)
    m.sreq->complete = true;
  S->progress++;
}

Request *
new_request (Request::Kind k)
{
  Request *r = new Request;
  r->kind = k;
  r->owner = S->cur;
  memset (&r->st, 0, sizeof r->st);
  r->st.MPI_SOURCE = MPI_ANY_SOURCE;
  r->st.MPI_TAG = MPI_ANY_TAG;
  S->live_requests++;
  return r;
}

void
free_request (Request *r)
{
  S->live_requests--;
  delete r;
}

Request *
post_send (const void *buf, int count, MPI_Datatype t, int dest, int tag, Comm *c, bool sync)
{
  if (count < 0)
    fail ("negative send count");
  if (dest < 0 || dest >= (int) c->members.size ())
    fail ("send to invalid rank " + std::to_string (dest));
  Request *r = new_request (Request::SEND);
  Message m;
  m.src = c->local[S->cur];
  m.tag = tag;
  const size_t n = tsize (t) * (size_t) count;
  m.data.assign ((const char *) buf, (const char *) buf + n);
  r->sbuf = buf;
  r->data = m.data;
  S->nmsg++;
  bool rendezvous = sync;
  if (!sync && S->opt.sched_seed && (S->opt.sched_seed & 3) != 0)
    rendezvous = rnd () % 2;
  if (!rendezvous)
    r->complete = true;
  else
    m.sreq = r;
  auto &posted = c->posted[dest];
  for (auto it = posted.begin (); it != posted.end (); ++it)
    if (matches (*it, m)) {
      Request *q = *it;
      posted.erase (it);
      deliver (q, m);
      return r;
    }
  c->unexpected[dest].push_back (std::move (m));
  S->progress++;
  return r;
}

/* index of the matching unexpected message, honouring non-overtaking order per source; -1 if none */
int
find_unexpected (Comm *c, int me, int src, int tag)
{
  auto &u = c->unexpected[me];
  Request probe;
  probe.src = src;
  probe.tag = tag;
  std::vector<int> cand;
  std::vector<char> seen (c->members.size (), 0);
  for (size_t i = 0; i < u.size (); ++i)
    if (!seen[u[i].src] && matches (&probe, u[i])) {
      seen[u[i].src] = 1;
      cand.push_back ((int) i);
      if (!S->opt.sched_seed || src != MPI_ANY_SOURCE)
        return (int) i;
    }
  if (cand.empty ())
    return -1;
  return cand[rnd () % cand.size ()];
}

Request *
post_recv (void *buf, int count, MPI_Datatype t, int src, int tag, Comm *c)
{
  if (count < 0)
    fail ("negative receive count");
  if (src != MPI_ANY_SOURCE && (src < 0 || src >= (int) c->members.size ()))
    fail ("receive from invalid rank " + std::to_string (src));
  Request *r = new_request (Request::RECV);
  const int me = c->local[S->cur];
  r->comm = c;
  r->buf = buf;
  r->cap = tsize (t) * (size_t) count;
  r->src = src;
  r->tag = tag;
  const int i = find_unexpected (c, me, src, tag);
  if (i >= 0) {
    Message m = std::move (c->unexpected[me][i]);
    c->unexpected[me].erase (c->unexpected[me].begin () + i);
    deliver (r, m);
  }
  else
    c->posted[me].push_back (r);
  return r;
}

bool
req_done (Request *r)
{
  if (r->complete)
    return true;
  if (r->kind == Request::COLL && r->coll->done)
    return true;
  return false;
}

void
finish (Request *r, MPI_Status *st)
{
  if (st != MPI_STATUS_IGNORE)
    *st = r->st;
  if (r->kind == Request::COLL)
    leave (r->comm, r->coll, r->cid);
  /* MPI reads the send buffer at any time up to the completion of the send */
  const bool changed = r->kind == Request::SEND && !r->data.empty () && memcmp (r->sbuf, r->data.data (), r->data.size ());
  if (r->kind == Request::RECV && !r->data.empty ())
    memcpy (r->buf, r->data.data (), r->data.size ());
  free_request (r);
  if (changed)
    fail ("the buffer of a send was changed or released before the send was complete");
}

Request *
R (MPI_Request r)
{
  return r == MPI_REQUEST_NULL ? nullptr : reinterpret_cast<Request *> (r);
}

void
check_alive_attrs (Comm *c, int me, bool all)
{
  (void) all;
  auto m = c->attr[me];
  for (auto &kv : m) {
    if (keyvals[kv.first].del)
      keyvals[kv.first].del (H (c), kv.first, kv.second, keyvals[kv.first].extra);
  }
  c->attr[me].clear ();
}

} // namespace

int
rank ()
{
  return S ? S->cur : -1;
}
int
size ()
{
  return S ? S->opt.nranks : 0;
}
uint64_t
messages ()
{
  return S ? S->nmsg : g_msg;
}
uint64_t
collectives ()
{
  return S ? S->ncoll : g_coll;
}
uint64_t
switches ()
{
  return S ? S->nswitch : g_switch;
}

void
sync ()
{
  const uint64_t gen = S->sync_gen;
  if (++S->sync_count == S->opt.nranks) {
    S->sync_count = 0;
    S->sync_gen++;
    S->progress++;
    return;
  }
  while (S->sync_gen == gen)
    block ();
}

void
run (const Options &opt, const std::function<void (int)> &body)
{
  State st;
  if (S)
    throw Error ("nested vmpi run");
  S = &st;
  last_failure.clear ();
  st.opt = opt;
  st.rng = opt.sched_seed * 0x2545F4914F6CDD1Dull + 12345;
  st.body = &body;
  st.f.resize (opt.nranks);
  std::vector<int> all (opt.nranks);
  for (int i = 0; i < opt.nranks; ++i)
    all[i] = i;
  st.world = new_comm (all);
  for (int i = 0; i < opt.nranks; ++i) {
    Fiber &f = st.f[i];
    f.stack = get_stack ();
    getcontext (&f.ctx);
    f.ctx.uc_stack.ss_sp = f.stack;
    f.ctx.uc_stack.ss_size = STACK;
    f.ctx.uc_link = nullptr;
    makecontext (&f.ctx, trampoline, 0);
  }
  int ndone = 0;
  int last = -1;
  uint64_t idle = 0;
  std::vector<int> ready;
  while (ndone < opt.nranks) {
    ready.clear ();
    bool anypoll = false;
    for (int i = 0; i < opt.nranks; ++i) {
      Fiber &f = st.f[i];
      if (f.done)
        continue;
      if (!f.waiting || f.seen != st.progress)
        ready.push_back (i);
      else if (f.polling)
        anypoll = true;
    }
    if (ready.empty ()) {
      if (!anypoll) {
        std::string who;
        for (int i = 0; i < opt.nranks; ++i)
          if (!st.f[i].done)
            who += " " + std::to_string (i);
        throw Error ("MPI: deadlock: all unfinished ranks are blocked:" + who);
      }
      if (++idle > 200000)
        throw Error ("MPI: livelock: ranks poll forever without progress");
      for (int i = 0; i < opt.nranks; ++i)
        if (!st.f[i].done && st.f[i].polling && st.f[i].waiting)
          ready.push_back (i);
    }
    else
      idle = 0;
    int pick;
    if (!opt.sched_seed) {
      pick = ready[0];
      for (int i : ready)
        if (i > last) {
          pick = i;
          break;
        }
    }
    else
      pick = ready[rnd () % ready.size ()];
    last = pick;
    Fiber &f = st.f[pick];
    f.waiting = false;
    f.polling = false;
    st.cur = pick;
    st.nswitch++;
#ifdef VP_ASAN
    __sanitizer_start_switch_fiber (&st.mainfake, f.stack, STACK);
#endif
    swapcontext (&st.main, &f.ctx);
#ifdef VP_ASAN
    __sanitizer_finish_switch_fiber (st.mainfake, nullptr, nullptr);
#endif
    st.cur = -1;
    if (f.done) {
      ndone++;
      if (f.unwinding) {
        reinterpret_cast<EhGlobals *> (__cxxabiv1::__cxa_get_globals ())->uncaught = 0;
        throw Error (last_failure.empty () ? "a rank ended with an exception" : last_failure);
      }
      if (f.err)
        std::rethrow_exception (f.err); /* process state is unspecified from here on */
    }
  }
  if (!opt.allow_unmatched) {
    for (auto &c : st.comms) {
      for (auto &u : c->unexpected)
        if (!u.empty ())
          throw Error ("MPI: a message from rank " + std::to_string (u.front ().src) + " with tag "
                       + std::to_string (u.front ().tag) + " was never received");
      for (auto &p : c->posted)
        if (!p.empty ())
          throw Error ("MPI: a posted receive was never completed");
    }
    if (st.live_requests)
      throw Error ("MPI: " + std::to_string (st.live_requests) + " requests were never completed or freed");
  }
  for (auto &f : st.f)
    stack_pool.push_back (f.stack);
  g_msg = st.nmsg;
  g_coll = st.ncoll;
  g_switch = st.nswitch;
  for (auto &w : st.wins)
    if (w)
      free (w->mem);
  S = nullptr;
}

} // namespace vmpi

using namespace vmpi;

extern "C" {

/* libsc function which the installed libsc does not have yet */
int
sc_mpi_comm_get_and_attach (sc_MPI_Comm comm)
{
  sc_MPI_Comm intra = sc_MPI_COMM_NULL, inter = sc_MPI_COMM_NULL;
  sc_mpi_comm_get_node_comms (comm, &intra, &inter);
  if (intra == sc_MPI_COMM_NULL || inter == sc_MPI_COMM_NULL) {
    sc_mpi_comm_attach_node_comms (comm, 0);
    sc_mpi_comm_get_node_comms (comm, &intra, &inter);
  }
  if (intra == sc_MPI_COMM_NULL || inter == sc_MPI_COMM_NULL)
    return 0;
  int n = 0;
  MPI_Comm_size (intra, &n);
  return n;
}

int
MPI_Init (int *, char ***)
{
  return MPI_SUCCESS;
}
int
MPI_Init_thread (int *, char ***, int, int *provided)
{
  *provided = MPI_THREAD_SINGLE;
  return MPI_SUCCESS;
}
int
MPI_Initialized (int *f)
{
  *f = 1;
  return MPI_SUCCESS;
}
int
MPI_Finalized (int *f)
{
  *f = 0;
  return MPI_SUCCESS;
}
int
MPI_Finalize (void)
{
  return MPI_SUCCESS;
}
int
MPI_Abort (MPI_Comm, int code)
{
  fprintf (stderr, "MPI_Abort(%d) called by rank %d\n", code, vmpi::rank ());
  abort ();
}
double
MPI_Wtime (void)
{
  static double t = 0;
  return t += 1e-6; /* deterministic clock */
}
double
MPI_Wtick (void)
{
  return 1e-6;
}
int
MPI_Error_string (int, char *s, int *len)
{
  strcpy (s, "error");
  *len = 5;
  return MPI_SUCCESS;
}
int
MPI_Error_class (int c, int *e)
{
  *e = c;
  return MPI_SUCCESS;
}

int
MPI_Comm_rank (MPI_Comm c, int *r)
{
  if (c == MPI_COMM_SELF) {
    *r = 0;
    return MPI_SUCCESS;
  }
  Comm *p = C (c);
  *r = p->local[S->cur];
  return MPI_SUCCESS;
}
int
MPI_Comm_size (MPI_Comm c, int *n)
{
  if (c == MPI_COMM_SELF) {
    *n = 1;
    return MPI_SUCCESS;
  }
  *n = (int) C (c)->members.size ();
  return MPI_SUCCESS;
}
int
MPI_Comm_compare (MPI_Comm a, MPI_Comm b, int *res)
{
  if (a == b) {
    *res = MPI_IDENT;
    return MPI_SUCCESS;
  }
  Comm *p = C (a), *q = C (b);
  if (p->members == q->members)
    *res = MPI_CONGRUENT;
  else {
    auto x = p->members, y = q->members;
    std::sort (x.begin (), x.end ());
    std::sort (y.begin (), y.end ());
    *res = x == y ? MPI_SIMILAR : MPI_UNEQUAL;
  }
  return MPI_SUCCESS;
}

int
MPI_Comm_dup (MPI_Comm c, MPI_Comm *n)
{
  Comm *p = C (c);
  void *r = collective (p, "Comm_dup", Arg (), [&] (Collective &k) {
    Comm *q = new_comm (p->members);
    for (auto &x : k.result)
      x = q;
  });
  Comm *q = (Comm *) r;
  const int me = p->local[S->cur];
  for (auto &kv : p->attr[me]) {
    auto &K = keyvals[kv.first];
    if (!K.copy)
      continue;
    void *out = nullptr;
    int flag = 0;
    K.copy (c, kv.first, K.extra, kv.second, &out, &flag);
    if (flag)
      q->attr[me][kv.first] = out;
  }
  *n = H (q);
  return MPI_SUCCESS;
}
int
MPI_Comm_free (MPI_Comm *c)
{
  Comm *p = C (*c);
  if (p == S->world)
    fail ("MPI_COMM_WORLD freed");
  const int me = p->local[S->cur];
  check_alive_attrs (p, me, true);
  if (++p->freed == (int) p->members.size ()) {
    p->alive = false;
    for (auto &u : p->unexpected)
      if (!u.empty ())
        fail ("communicator freed with an unreceived message");
  }
  *c = MPI_COMM_NULL;
  return MPI_SUCCESS;
}
int
MPI_Comm_split (MPI_Comm c, int color, int key, MPI_Comm *n)
{
  Comm *p = C (c);
  Arg g;
  g.a = color;
  g.b = key;
  void *r = collective (p, "Comm_split", g, [&] (Collective &k) {
    std::map<long, std::vector<std::pair<long, int>>> groups;
    for (size_t i = 0; i < p->members.size (); ++i)
      if (k.a[i] != MPI_UNDEFINED)
        groups[k.a[i]].push_back ({ k.b[i], (int) i });
    for (auto &gr : groups) {
      std::stable_sort (gr.second.begin (), gr.second.end ());
      std::vector<int> mem;
      for (auto &x : gr.second)
        mem.push_back (p->members[x.second]);
      Comm *q = new_comm (mem);
      for (auto &x : gr.second)
        k.result[x.second] = q;
    }
  });
  *n = r ? H ((Comm *) r) : MPI_COMM_NULL;
  return MPI_SUCCESS;
}
int
MPI_Comm_split_type (MPI_Comm c, int, int key, MPI_Info, MPI_Comm *n)
{
  const int ns = S->opt.node_size > 0 ? S->opt.node_size : S->opt.nranks;
  return MPI_Comm_split (c, S->cur / ns, key, n);
}
int
MPI_Comm_create_keyval (MPI_Comm_copy_attr_function *cf, MPI_Comm_delete_attr_function *df, int *k, void *extra)
{
  Keyval v;
  v.copy = cf == MPI_COMM_NULL_COPY_FN ? nullptr : cf;
  v.del = df == MPI_COMM_NULL_DELETE_FN ? nullptr : df;
  v.extra = extra;
  keyvals.push_back (v);
  *k = (int) keyvals.size () - 1;
  return MPI_SUCCESS;
}
int
MPI_Comm_free_keyval (int *k)
{
  *k = MPI_KEYVAL_INVALID;
  return MPI_SUCCESS;
}
int
MPI_Comm_set_attr (MPI_Comm c, int k, void *v)
{
  Comm *p = C (c);
  p->attr[p->local[S->cur]][k] = v;
  return MPI_SUCCESS;
}
int
MPI_Comm_get_attr (MPI_Comm c, int k, void *v, int *flag)
{
  Comm *p = C (c);
  auto &m = p->attr[p->local[S->cur]];
  auto it = m.find (k);
  *flag = it != m.end ();
  if (*flag)
    *(void **) v = it->second;
  return MPI_SUCCESS;
}
int
MPI_Comm_delete_attr (MPI_Comm c, int k)
{
  Comm *p = C (c);
  auto &m = p->attr[p->local[S->cur]];
  auto it = m.find (k);
  if (it == m.end ())
    return MPI_SUCCESS;
  void *v = it->second;
  m.erase (it);
  if (keyvals[k].del)
    keyvals[k].del (c, k, v, keyvals[k].extra);
  return MPI_SUCCESS;
}
int
MPI_Comm_group (MPI_Comm c, MPI_Group *g)
{
  auto *q = new Group;
  q->members = C (c)->members;
  *g = reinterpret_cast<MPI_Group> (q);
  return MPI_SUCCESS;
}
int
MPI_Group_free (MPI_Group *g)
{
  delete reinterpret_cast<Group *> (*g);
  *g = MPI_GROUP_NULL;
  return MPI_SUCCESS;
}
int
MPI_Group_size (MPI_Group g, int *n)
{
  *n = (int) reinterpret_cast<Group *> (g)->members.size ();
  return MPI_SUCCESS;
}
int
MPI_Group_translate_ranks (MPI_Group a, int n, const int *ra, MPI_Group b, int *rb)
{
  auto *p = reinterpret_cast<Group *> (a);
  auto *q = reinterpret_cast<Group *> (b);
  for (int i = 0; i < n; ++i) {
    rb[i] = MPI_UNDEFINED;
    for (size_t j = 0; j < q->members.size (); ++j)
      if (q->members[j] == p->members[ra[i]])
        rb[i] = (int) j;
  }
  return MPI_SUCCESS;
}

/* ---- types and ops ---- */
int
MPI_Type_size (MPI_Datatype t, int *s)
{
  *s = (int) tsize (t);
  return MPI_SUCCESS;
}
int
MPI_Type_contiguous (int n, MPI_Datatype o, MPI_Datatype *t)
{
  MPI_Datatype h = reinterpret_cast<MPI_Datatype> (malloc (8));
  usertypes[h] = UserType { tsize (o) * (size_t) n };
  *t = h;
  return MPI_SUCCESS;
}
int
MPI_Type_commit (MPI_Datatype *)
{
  return MPI_SUCCESS;
}
int
MPI_Type_free (MPI_Datatype *t)
{
  usertypes.erase (*t);
  free (*t);
  *t = MPI_DATATYPE_NULL;
  return MPI_SUCCESS;
}
int
MPI_Op_create (MPI_User_function *fn, int commute, MPI_Op *op)
{
  MPI_Op h = reinterpret_cast<MPI_Op> (malloc (8));
  userops[h] = UserOp { fn, commute };
  *op = h;
  return MPI_SUCCESS;
}
int
MPI_Op_free (MPI_Op *op)
{
  userops.erase (*op);
  free (*op);
  *op = MPI_OP_NULL;
  return MPI_SUCCESS;
}
int
MPI_Alloc_mem (MPI_Aint n, MPI_Info, void *p)
{
  *(void **) p = malloc (n ? n : 1);
  return MPI_SUCCESS;
}
int
MPI_Free_mem (void *p)
{
  free (p);
  return MPI_SUCCESS;
}
int
MPI_Pack_size (int n, MPI_Datatype t, MPI_Comm, int *s)
{
  if (n < 0)
    fail ("negative pack count");
  *s = (int) (tsize (t) * (size_t) n);
  return MPI_SUCCESS;
}
int
MPI_Pack (const void *in, int n, MPI_Datatype t, void *out, int outsize, int *pos, MPI_Comm)
{
  const size_t k = tsize (t) * (size_t) n;
  if (n < 0 || *pos < 0 || (size_t) *pos + k > (size_t) outsize)
    fail ("MPI_Pack beyond the end of the buffer (" + std::to_string (*pos) + "+" + std::to_string (k) + " > "
          + std::to_string (outsize) + ")");
  if (k)
    memcpy ((char *) out + *pos, in, k);
  *pos += (int) k;
  return MPI_SUCCESS;
}
int
MPI_Unpack (const void *in, int insize, int *pos, void *out, int n, MPI_Datatype t, MPI_Comm)
{
  const size_t k = tsize (t) * (size_t) n;
  if (n < 0 || *pos < 0 || (size_t) *pos + k > (size_t) insize)
    fail ("MPI_Unpack beyond the end of the buffer (" + std::to_string (*pos) + "+" + std::to_string (k) + " > "
          + std::to_string (insize) + ")");
  if (k)
    memcpy (out, (const char *) in + *pos, k);
  *pos += (int) k;
  return MPI_SUCCESS;
}

/* ---- point to point ---- */
int
MPI_Isend (const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *r)
{
  maybe_preempt ();
  *r = reinterpret_cast<MPI_Request> (post_send (b, n, t, d, tag, C (c), false));
  return MPI_SUCCESS;
}
int
MPI_Issend (const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *r)
{
  maybe_preempt ();
  *r = reinterpret_cast<MPI_Request> (post_send (b, n, t, d, tag, C (c), true));
  return MPI_SUCCESS;
}
int
MPI_Send (const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c)
{
  maybe_preempt ();
  Request *r = post_send (b, n, t, d, tag, C (c), false);
  while (!r->complete)
    block ();
  free_request (r);
  return MPI_SUCCESS;
}
int
MPI_Irecv (void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request *r)
{
  maybe_preempt ();
  *r = reinterpret_cast<MPI_Request> (post_recv (b, n, t, s, tag, C (c)));
  return MPI_SUCCESS;
}
int
MPI_Recv (void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Status *st)
{
  maybe_preempt ();
  Request *r = post_recv (b, n, t, s, tag, C (c));
  while (!r->complete)
    block ();
  finish (r, st);
  return MPI_SUCCESS;
}
int
MPI_Sendrecv (const void *sb, int sn, MPI_Datatype stp, int d, int stag, void *rb, int rn, MPI_Datatype rt, int s,
              int rtag, MPI_Comm c, MPI_Status *st)
{
  Request *r = post_recv (rb, rn, rt, s, rtag, C (c));
  Request *q = post_send (sb, sn, stp, d, stag, C (c), false);
  while (!r->complete || !q->complete)
    block ();
  free_request (q);
  finish (r, st);
  return MPI_SUCCESS;
}
static void
fill_probe (const Message &m, MPI_Status *st)
{
  if (st == MPI_STATUS_IGNORE)
    return;
  memset (st, 0, sizeof *st);
  st->MPI_SOURCE = m.src;
  st->MPI_TAG = m.tag;
  st->_ucount = m.data.size ();
}
int
MPI_Probe (int s, int tag, MPI_Comm c, MPI_Status *st)
{
  maybe_preempt ();
  Comm *p = C (c);
  const int me = p->local[S->cur];
  int i;
  while ((i = find_unexpected (p, me, s, tag)) < 0)
    block ();
  fill_probe (p->unexpected[me][i], st);
  return MPI_SUCCESS;
}
int
MPI_Iprobe (int s, int tag, MPI_Comm c, int *flag, MPI_Status *st)
{
  maybe_preempt ();
  Comm *p = C (c);
  const int me = p->local[S->cur];
  int i = find_unexpected (p, me, s, tag);
  if (i < 0) {
    poll_yield ();
    i = find_unexpected (p, me, s, tag);
  }
  *flag = i >= 0;
  if (i >= 0)
    fill_probe (p->unexpected[me][i], st);
  return MPI_SUCCESS;
}
int
MPI_Get_count (const MPI_Status *st, MPI_Datatype t, int *n)
{
  const size_t s = tsize (t);
  *n = st->_ucount % s ? MPI_UNDEFINED : (int) (st->_ucount / s);
  return MPI_SUCCESS;
}
int
MPI_Wait (MPI_Request *r, MPI_Status *st)
{
  maybe_preempt ();
  Request *q = R (*r);
  if (!q)
    return MPI_SUCCESS;
  while (!req_done (q))
    block ();
  finish (q, st);
  *r = MPI_REQUEST_NULL;
  return MPI_SUCCESS;
}
int
MPI_Waitall (int n, MPI_Request *r, MPI_Status *st)
{
  for (int i = 0; i < n; ++i)
    MPI_Wait (r + i, st == MPI_STATUSES_IGNORE ? MPI_STATUS_IGNORE : st + i);
  return MPI_SUCCESS;
}
int
MPI_Waitsome (int n, MPI_Request *r, int *out, int *idx, MPI_Status *st)
{
  maybe_preempt ();
  int live = 0;
  for (int i = 0; i < n; ++i)
    live += r[i] != MPI_REQUEST_NULL;
  if (!live) {
    *out = MPI_UNDEFINED;
    return MPI_SUCCESS;
  }
  while (true) {
    int k = 0;
    for (int i = 0; i < n; ++i)
      if (r[i] != MPI_REQUEST_NULL && req_done (R (r[i]))) {
        if (k > 0 && S->opt.sched_seed && rnd () % 3 == 0)
          continue;
        finish (R (r[i]), st == MPI_STATUSES_IGNORE ? MPI_STATUS_IGNORE : st + k);
        r[i] = MPI_REQUEST_NULL;
        idx[k++] = i;
      }
    if (k) {
      *out = k;
      return MPI_SUCCESS;
    }
    block ();
  }
}
int
MPI_Waitany (int n, MPI_Request *r, int *idx, MPI_Status *st)
{
  int live = 0;
  for (int i = 0; i < n; ++i)
    live += r[i] != MPI_REQUEST_NULL;
  if (!live) {
    *idx = MPI_UNDEFINED;
    return MPI_SUCCESS;
  }
  while (true) {
    std::vector<int> c;
    for (int i = 0; i < n; ++i)
      if (r[i] != MPI_REQUEST_NULL && req_done (R (r[i])))
        c.push_back (i);
    if (!c.empty ()) {
      int i = c[S->opt.sched_seed ? rnd () % c.size () : 0];
      finish (R (r[i]), st);
      r[i] = MPI_REQUEST_NULL;
      *idx = i;
      return MPI_SUCCESS;
    }
    block ();
  }
}
int
MPI_Test (MPI_Request *r, int *flag, MPI_Status *st)
{
  Request *q = R (*r);
  if (!q) {
    *flag = 1;
    return MPI_SUCCESS;
  }
  if (!req_done (q))
    poll_yield ();
  *flag = req_done (q);
  if (*flag) {
    finish (q, st);
    *r = MPI_REQUEST_NULL;
  }
  return MPI_SUCCESS;
}
int
MPI_Testall (int n, MPI_Request *r, int *flag, MPI_Status *st)
{
  bool all = true;
  for (int i = 0; i < n; ++i)
    all = all && (r[i] == MPI_REQUEST_NULL || req_done (R (r[i])));
  if (!all) {
    poll_yield ();
    all = true;
    for (int i = 0; i < n; ++i)
      all = all && (r[i] == MPI_REQUEST_NULL || req_done (R (r[i])));
  }
  *flag = all;
  if (all)
    return MPI_Waitall (n, r, st);
  return MPI_SUCCESS;
}

/* ---- collectives ---- */
int
MPI_Barrier (MPI_Comm c)
{
  collective (C (c), "Barrier", Arg (), [] (Collective &) {});
  return MPI_SUCCESS;
}
int
MPI_Ibarrier (MPI_Comm c, MPI_Request *r)
{
  Comm *p = C (c);
  bool last;
  uint64_t id;
  Collective *k = enter (p, "Ibarrier", Arg (), &last, &id);
  if (last) {
    k->done = true;
    S->progress++;
  }
  Request *q = new_request (Request::COLL);
  q->coll = k;
  q->cid = id;
  q->comm = p;
  *r = reinterpret_cast<MPI_Request> (q);
  return MPI_SUCCESS;
}
int
MPI_Bcast (void *b, int n, MPI_Datatype t, int root, MPI_Comm c)
{
  Comm *p = C (c);
  Arg g;
  g.r = b;
  g.a = (long) (tsize (t) * (size_t) n);
  g.b = root;
  if (n < 0)
    fail ("negative count in Bcast");
  collective (p, "Bcast", g, [] (Collective &k) {
    same (k.b, "root");
    same (k.a, "size");
    for (size_t i = 0; i < k.rbuf.size (); ++i)
      if ((long) i != k.b[0] && k.a[0])
        memcpy (k.rbuf[i], k.rbuf[k.b[0]], k.a[0]);
  });
  return MPI_SUCCESS;
}
static int
do_reduce (const char *name, const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c)
{
  Comm *p = C (c);
  Arg g;
  g.s = s == MPI_IN_PLACE ? r : s;
  g.r = r;
  g.a = n;
  /* derived types have per rank handles */
  g.b = usertypes.count (t) ? -(long) tsize (t) : (long) (intptr_t) t;
  g.c = (long) (intptr_t) op;
  const size_t bytes = tsize (t) * (size_t) n;
  collective (p, name, g, [&] (Collective &k) {
    same (k.a, "count");
    same (k.b, "datatype");
    /* operations created per rank have per rank handles */
    if (!userops.count (op))
      same (k.c, "operation");
    const int P = (int) k.sbuf.size ();
    std::vector<std::vector<char>> in (P);
    for (int i = 0; i < P; ++i)
      in[i].assign ((const char *) k.sbuf[i], (const char *) k.sbuf[i] + bytes);
    if (!strcmp (name, "Allreduce")) {
      std::vector<char> acc = in[P - 1];
      for (int i = P - 2; i >= 0; --i)
        reduce (op, t, in[i].data (), acc.data (), n);
      for (int i = 0; i < P; ++i)
        if (bytes)
          memcpy (k.rbuf[i], acc.data (), bytes);
    }
    else {
      std::vector<char> acc = in[0];
      const bool ex = !strcmp (name, "Exscan");
      for (int i = 0; i < P; ++i) {
        if (ex) {
          if (i > 0 && bytes)
            memcpy (k.rbuf[i], acc.data (), bytes);
        }
        if (i > 0) {
          std::vector<char> x = in[i];
          reduce (op, t, acc.data (), x.data (), n);
          acc = x;
        }
        if (!ex && bytes)
          memcpy (k.rbuf[i], acc.data (), bytes);
      }
    }
  });
  return MPI_SUCCESS;
}
int
MPI_Allreduce (const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c)
{
  return do_reduce ("Allreduce", s, r, n, t, op, c);
}
int
MPI_Scan (const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c)
{
  return do_reduce ("Scan", s, r, n, t, op, c);
}
int
MPI_Exscan (const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c)
{
  return do_reduce ("Exscan", s, r, n, t, op, c);
}
int
MPI_Reduce (const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c)
{
  std::vector<char> tmp (tsize (t) * (size_t) n + 1);
  int me;
  MPI_Comm_rank (c, &me);
  const int ret = do_reduce ("Allreduce", s == MPI_IN_PLACE ? r : s, tmp.data (), n, t, op, c);
  if (me == root)
    memcpy (r, tmp.data (), tmp.size () - 1);
  return ret;
}
int
MPI_Reduce_scatter_block (const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c)
{
  int P, me;
  MPI_Comm_size (c, &P);
  MPI_Comm_rank (c, &me);
  std::vector<char> tmp (tsize (t) * (size_t) n * P + 1);
  do_reduce ("Allreduce", s == MPI_IN_PLACE ? r : s, tmp.data (), n * P, t, op, c);
  memcpy (r, tmp.data () + tsize (t) * n * me, tsize (t) * n);
  return MPI_SUCCESS;
}
int
MPI_Allgather (const void *s, int sn, MPI_Datatype stp, void *r, int rn, MPI_Datatype rt, MPI_Comm c)
{
  Comm *p = C (c);
  const size_t rb = tsize (rt) * (size_t) rn;
  const int me = p->local[S->cur];
  Arg g;
  g.s = s == MPI_IN_PLACE ? (char *) r + rb * me : s;
  g.r = r;
  g.a = s == MPI_IN_PLACE ? (long) rb : (long) (tsize (stp) * (size_t) sn);
  g.b = (long) rb;
  collective (p, "Allgather", g, [] (Collective &k) {
    same (k.a, "send size");
    same (k.b, "receive size");
    if (k.a[0] != k.b[0])
      fail ("Allgather send and receive sizes differ");
    const int P = (int) k.sbuf.size ();
    std::vector<char> all ((size_t) k.a[0] * P + 1);
    for (int i = 0; i < P; ++i)
      memcpy (all.data () + (size_t) k.a[0] * i, k.sbuf[i], k.a[0]);
    for (int i = 0; i < P; ++i)
      memcpy (k.rbuf[i], all.data (), all.size () - 1);
  });
  return MPI_SUCCESS;
}
int
MPI_Allgatherv (const void *s, int sn, MPI_Datatype stp, void *r, const int *rc, const int *ds, MPI_Datatype rt,
                MPI_Comm c)
{
  Comm *p = C (c);
  const size_t ts = tsize (rt);
  const int me = p->local[S->cur];
  Arg g;
  g.s = s == MPI_IN_PLACE ? (char *) r + ts * ds[me] : s;
  g.a = s == MPI_IN_PLACE ? (long) (ts * rc[me]) : (long) (tsize (stp) * (size_t) sn);
  g.r = r;
  g.b = (long) ts;
  g.rc = rc;
  g.ds = ds;
  collective (p, "Allgatherv", g, [] (Collective &k) {
    const int P = (int) k.sbuf.size ();
    std::vector<std::vector<char>> in (P);
    for (int i = 0; i < P; ++i)
      in[i].assign ((const char *) k.sbuf[i], (const char *) k.sbuf[i] + k.a[i]);
    for (int i = 0; i < P; ++i)
      for (int j = 0; j < P; ++j) {
        if ((size_t) k.rcounts[i][j] * k.b[i] != in[j].size ())
          fail ("Allgatherv receive count " + std::to_string (k.rcounts[i][j]) + " for rank " + std::to_string (j)
                + " does not match what was sent");
        if (!in[j].empty ())
          memcpy ((char *) k.rbuf[i] + (size_t) k.displs[i][j] * k.b[i], in[j].data (), in[j].size ());
      }
  });
  return MPI_SUCCESS;
}
int
MPI_Gather (const void *s, int sn, MPI_Datatype stp, void *r, int rn, MPI_Datatype rt, int root, MPI_Comm c)
{
  Comm *p = C (c);
  Arg g;
  const int me = p->local[S->cur];
  g.s = s == MPI_IN_PLACE ? (char *) r + tsize (rt) * (size_t) rn * me : s;
  g.a = s == MPI_IN_PLACE ? (long) (tsize (rt) * (size_t) rn) : (long) (tsize (stp) * (size_t) sn);
  g.r = r;
  g.b = root;
  collective (p, "Gather", g, [] (Collective &k) {
    same (k.b, "root");
    same (k.a, "send size");
    for (size_t i = 0; i < k.sbuf.size (); ++i) {
      char *d = (char *) k.rbuf[k.b[0]] + (size_t) k.a[0] * i;
      if (k.a[0] && d != k.sbuf[i])
        memcpy (d, k.sbuf[i], k.a[0]);
    }
  });
  return MPI_SUCCESS;
}
int
MPI_Gatherv (const void *s, int sn, MPI_Datatype stp, void *r, const int *rc, const int *ds, MPI_Datatype rt, int root,
             MPI_Comm c)
{
  Comm *p = C (c);
  Arg g;
  const int me = p->local[S->cur];
  g.s = s == MPI_IN_PLACE ? (char *) r + tsize (rt) * ds[me] : s;
  g.a = s == MPI_IN_PLACE ? (long) (tsize (rt) * rc[me]) : (long) (tsize (stp) * (size_t) sn);
  g.r = r;
  g.b = root;
  g.c = me == root ? (long) tsize (rt) : 0;
  g.rc = rc;
  g.ds = ds;
  collective (p, "Gatherv", g, [] (Collective &k) {
    same (k.b, "root");
    const long ro = k.b[0];
    for (size_t i = 0; i < k.sbuf.size (); ++i) {
      if ((long) k.rcounts[ro][i] * k.c[ro] != k.a[i])
        fail ("Gatherv receive count mismatch");
      if (k.a[i])
        memmove ((char *) k.rbuf[ro] + (size_t) k.displs[ro][i] * k.c[ro], k.sbuf[i], k.a[i]);
    }
  });
  return MPI_SUCCESS;
}
int
MPI_Alltoall (const void *s, int sn, MPI_Datatype stp, void *r, int rn, MPI_Datatype rt, MPI_Comm c)
{
  Comm *p = C (c);
  Arg g;
  g.s = s;
  g.r = r;
  g.a = (long) (tsize (stp) * (size_t) sn);
  g.b = (long) (tsize (rt) * (size_t) rn);
  collective (p, "Alltoall", g, [] (Collective &k) {
    same (k.a, "send size");
    const int P = (int) k.sbuf.size ();
    std::vector<std::vector<char>> in (P);
    for (int i = 0; i < P; ++i)
      in[i].assign ((const char *) k.sbuf[i], (const char *) k.sbuf[i] + k.a[0] * P);
    for (int i = 0; i < P; ++i)
      for (int j = 0; j < P; ++j)
        memcpy ((char *) k.rbuf[i] + k.a[0] * j, in[j].data () + k.a[0] * i, k.a[0]);
  });
  return MPI_SUCCESS;
}

/* ---- shared windows ---- */
int
MPI_Win_allocate_shared (MPI_Aint size, int disp, MPI_Info, MPI_Comm c, void *base, MPI_Win *w)
{
  Comm *p = C (c);
  Arg g;
  g.a = (long) size;
  g.b = disp;
  Win *win = (Win *) collective (p, "Win_allocate_shared", g, [&] (Collective &k) {
    auto nw = std::make_unique<Win> ();
    nw->comm = p;
    size_t tot = 0;
    for (long x : k.a)
      tot += ((size_t) x + 63) / 64 * 64;
    nw->mem = (char *) malloc (tot + 64);
    memset (nw->mem, 0xA5, tot + 64);
    size_t off = 0;
    for (size_t i = 0; i < k.a.size (); ++i) {
      nw->base.push_back (nw->mem + off);
      nw->size.push_back ((size_t) k.a[i]);
      nw->disp.push_back ((int) k.b[i]);
      off += ((size_t) k.a[i] + 63) / 64 * 64;
    }
    nw->shared_by.assign (k.a.size (), 0);
    nw->excl_by.assign (k.a.size (), -1);
    nw->held.resize (k.a.size ());
    for (auto &x : k.result)
      x = nw.get ();
    S->wins.push_back (std::move (nw));
  });
  *(void **) base = win->base[p->local[S->cur]];
  *w = reinterpret_cast<MPI_Win> (win);
  return MPI_SUCCESS;
}
int
MPI_Win_shared_query (MPI_Win w, int r, MPI_Aint *size, int *disp, void *base)
{
  Win *win = reinterpret_cast<Win *> (w);
  if (r == MPI_PROC_NULL) {
    r = 0;
    while (r + 1 < (int) win->base.size () && win->size[r] == 0)
      ++r;
  }
  *size = (MPI_Aint) win->size[r];
  *disp = win->disp[r];
  *(void **) base = win->base[r];
  return MPI_SUCCESS;
}
int
MPI_Win_lock (int type, int target, int, MPI_Win w)
{
  Win *win = reinterpret_cast<Win *> (w);
  const int me = win->comm->local[S->cur];
  if (win->held[me].count (target))
    fail ("window locked twice by the same rank");
  if (type == MPI_LOCK_EXCLUSIVE) {
    while (win->shared_by[target] || win->excl_by[target] >= 0)
      block ();
    win->excl_by[target] = me;
  }
  else {
    while (win->excl_by[target] >= 0)
      block ();
    win->shared_by[target]++;
  }
  win->held[me][target] = type;
  S->progress++;
  return MPI_SUCCESS;
}
int
MPI_Win_unlock (int target, MPI_Win w)
{
  Win *win = reinterpret_cast<Win *> (w);
  const int me = win->comm->local[S->cur];
  auto it = win->held[me].find (target);
  if (it == win->held[me].end ())
    fail ("window unlocked without a lock");
  if (it->second == MPI_LOCK_EXCLUSIVE)
    win->excl_by[target] = -1;
  else
    win->shared_by[target]--;
  win->held[me].erase (it);
  S->progress++;
  return MPI_SUCCESS;
}
int
MPI_Win_sync (MPI_Win)
{
  return MPI_SUCCESS;
}
int
MPI_Win_fence (int, MPI_Win w)
{
  return MPI_Barrier (H (reinterpret_cast<Win *> (w)->comm));
}
int
MPI_Win_free (MPI_Win *w)
{
  Win *win = reinterpret_cast<Win *> (*w);
  collective (win->comm, "Win_free", Arg (), [&] (Collective &) {
    for (auto &x : S->wins)
      if (x.get () == win) {
        free (win->mem);
        win->mem = nullptr;
      }
  });
  *w = MPI_WIN_NULL;
  return MPI_SUCCESS;
}

#define UNSUPPORTED(ret, name, ...) \
  ret name (__VA_ARGS__) \
  { \
    fprintf (stderr, "vmpi: unsupported function " #name "\n"); \
    abort (); \
  }
UNSUPPORTED (int, MPI_Accumulate, const void *, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Op, MPI_Win)
UNSUPPORTED (int, MPI_Win_create, void *, MPI_Aint, int, MPI_Info, MPI_Comm, MPI_Win *)
UNSUPPORTED (int, MPI_Comm_create, MPI_Comm, MPI_Group, MPI_Comm *)
UNSUPPORTED (int, MPI_File_open, MPI_Comm, const char *, int, MPI_Info, MPI_File *)
}
