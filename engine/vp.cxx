#include "vp.hxx"
#include <algorithm>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <malloc.h>
#include <sys/mman.h>
#include <poll.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>
#include <fstream>

void
vp_lib_init (); /* provided by the harness */
void
vp_lib_case_end (); /* global invariants after each case (leaks) */
extern "C" void
__gcov_dump () __attribute__ ((weak)); /* coverage builds only */

namespace vp
{
std::vector<Property> &
registry ()
{
  static std::vector<Property> r;
  return r;
}

static uint64_t
mix (uint64_t z)
{
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

uint64_t
Case::below (uint64_t n)
{
  uint64_t v;
  if (replaying) {
    v = pos < choices.size () ? choices[pos] : 0;
    if (n && v >= n)
      v = n ? v % n : v;
    if (pos < choices.size ())
      choices[pos] = v;
  }
  else {
    rng = rng + 0x9e3779b97f4a7c15ull;
    v = mix (rng);
    v = n ? v % n : 0;
    choices.push_back (v);
  }
  pos++;
  return v;
}

size_t
Case::weighted (const std::vector<int> &w)
{
  int tot = 0;
  for (int x : w)
    tot += x;
  int r = (int) below (tot);
  for (size_t i = 0; i < w.size (); ++i) {
    if (r < w[i])
      return i;
    r -= w[i];
  }
  return w.size () - 1;
}

struct Result
{
  enum { OK, FAIL, CRASH, HANG, ENGINE } kind = OK;
  std::string msg;
  bool nontrivial = false;
  std::vector<std::string> labels;
  std::string desc;
  uint64_t hash = 0;
  std::vector<uint64_t> choices;
};

static std::string
hexenc (const std::string &s)
{
  static const char *h = "0123456789abcdef";
  std::string r;
  for (unsigned char c : s) {
    r += h[c >> 4];
    r += h[c & 15];
  }
  return r.empty () ? "-" : r;
}
static std::string
hexdec (const std::string &s)
{
  if (s == "-")
    return "";
  std::string r;
  for (size_t i = 0; i + 1 < s.size (); i += 2) {
    auto v = [] (char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
    r += (char) (v (s[i]) * 16 + v (s[i + 1]));
  }
  return r;
}

static void
write_all (int fd, const std::string &s)
{
  size_t o = 0;
  while (o < s.size ()) {
    ssize_t k = write (fd, s.data () + o, s.size () - o);
    if (k < 0) {
      if (errno == EINTR)
        continue;
      _exit (70);
    }
    o += (size_t) k;
  }
}

static void
set_cpu_timer (int sec)
{
  struct itimerval it;
  memset (&it, 0, sizeof it);
  it.it_value.tv_sec = sec;
  setitimer (ITIMER_VIRTUAL, &it, nullptr);
}

static int g_report_fd = -1;
static void
on_hang (int)
{
  const char m[] = "H\n";
  (void) !write (g_report_fd, m, 2);
  _exit (71);
}

/* fnv over the choices */
static uint64_t
hash_choices (const std::vector<uint64_t> &c, size_t n)
{
  uint64_t h = 1469598103934665603ull;
  for (size_t i = 0; i < n && i < c.size (); ++i) {
    h ^= c[i];
    h *= 1099511628211ull;
    h = mix (h);
  }
  return h;
}

#if !defined(__SANITIZE_ADDRESS__)
/* count the blocks on the heap, whoever allocates them */
static long g_blocks = 0;
extern "C" {
void *__libc_malloc (size_t);
void *__libc_calloc (size_t, size_t);
void *__libc_realloc (void *, size_t);
void *__libc_memalign (size_t, size_t);
void __libc_free (void *);
void *
malloc (size_t n)
{
  void *q = __libc_malloc (n);
  g_blocks += q != nullptr;
  return q;
}
void *
calloc (size_t a, size_t b)
{
  void *q = __libc_calloc (a, b);
  g_blocks += q != nullptr;
  return q;
}
void *
realloc (void *o, size_t n)
{
  void *q = __libc_realloc (o, n);
  if (!o)
    g_blocks += q != nullptr;
  else if (n == 0 && !q)
    --g_blocks;
  return q;
}
void *
memalign (size_t a, size_t n)
{
  void *q = __libc_memalign (a, n);
  g_blocks += q != nullptr;
  return q;
}
void *
aligned_alloc (size_t a, size_t n)
{
  return memalign (a, n);
}
int
posix_memalign (void **r, size_t a, size_t n)
{
  *r = memalign (a, n);
  return *r ? 0 : ENOMEM;
}
void
free (void *q)
{
  g_blocks -= q != nullptr;
  __libc_free (q);
}
}
#else
static long g_blocks = 0;
#endif

/* run a case again and report the blocks that stay behind */
static long
blocks_left (const Property &p, const Case &c)
{
  const long before = g_blocks;
  {
    Case d;
    d.thorough = c.thorough;
    d.replaying = true;
    d.choices = c.choices;
    p.run (d);
  }
  return g_blocks - before;
}

static std::string
run_one (const Property &p, Case &c)
{
  /* returns "" if the case passed, the failure message otherwise */
  try {
    const long before = g_blocks;
    p.run (c);
    vp_lib_case_end ();
    if (p.heap) {
      const long after = g_blocks;
      Case copy = c;
      const long own = g_blocks - after;
      if (after - before > own) {
        /* more blocks than before: a leak if it happens again and again */
        const long a = blocks_left (p, c), b = blocks_left (p, c), d = blocks_left (p, c);
        if (a > 0 && b > 0 && d > 0)
          throw Failure (str ("memory was not released: every run of the case leaves ", d, " blocks on the heap"));
      }
    }
  } catch (const std::exception &e) {
    std::string m = e.what ();
    return m.empty () ? "failure" : m;
  }
  return "";
}

static uint64_t
case_rng (const Property &p, uint64_t seed, bool thorough, long idx)
{
  uint64_t h = mix (seed + 0x51ed270b);
  for (const char *s = p.id; *s; ++s)
    h = mix (h ^ (uint64_t) *s);
  h = mix (h ^ (thorough ? 77 : 3));
  return mix (h ^ (uint64_t) idx);
}

static void
child_setup (const std::string &logfile, int cpu)
{
  (void) cpu;
  int fd = open (logfile.c_str (), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0644);
  if (fd >= 0) {
    dup2 (fd, 1);
    dup2 (fd, 2);
    close (fd);
  }
  int nul = open ("/dev/null", O_RDONLY);
  dup2 (nul, 0);
  struct rlimit rl;
  rl.rlim_cur = rl.rlim_max = 0;
  setrlimit (RLIMIT_CORE, &rl);
#if !defined(__SANITIZE_ADDRESS__)
  rl.rlim_cur = rl.rlim_max = (rlim_t) 3 << 30;
  setrlimit (RLIMIT_AS, &rl);
  mallopt (M_PERTURB, 0x5a);
  mallopt (M_MMAP_THRESHOLD, 1 << 22);
#endif
  signal (SIGVTALRM, on_hang);
}

static std::string
tail (const std::string &file, size_t n = 1500)
{
  std::ifstream f (file, std::ios::binary);
  std::stringstream ss;
  ss << f.rdbuf ();
  std::string s = ss.str ();
  /* drop libsc stack traces to keep messages stable */
  if (s.size () > n)
    s = s.substr (s.size () - n);
  return s;
}

static std::string g_tmp;
static char *g_desc = nullptr; /* shared with the child of run_isolated */
static bool g_desc_on = false;
void
note_desc (const std::string &d)
{
  if (g_desc_on) {
    strncpy (g_desc, d.c_str (), 4000);
    g_desc[4000] = 0;
  }
}

/* Run a single choice vector in a fresh process */
static Result
run_isolated (const Property &p, const std::vector<uint64_t> &choices, bool thorough)
{
  int fd[2];
  if (pipe (fd))
    abort ();
  const std::string log = g_tmp + "/iso.log";
  if (!g_desc)
    g_desc = (char *) mmap (nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  g_desc[0] = 0;
  pid_t pid = fork ();
  if (pid == 0) {
    g_desc_on = true;
    close (fd[0]);
    g_report_fd = fd[1];
    child_setup (log, p.cpu_limit);
    vp_lib_init ();
    Case c;
    c.thorough = thorough;
    c.replaying = true;
    c.choices = choices;
    set_cpu_timer (p.cpu_limit);
    std::string m = run_one (p, c);
    set_cpu_timer (0);
    std::string out;
    size_t used = std::min (c.pos, c.choices.size ());
    if (m.empty ())
      out = "O ";
    else
      out = "F " + hexenc (m) + " ";
    out += std::to_string (used);
    for (size_t i = 0; i < used; ++i)
      out += " " + std::to_string (c.choices[i]);
    out += "\nD " + hexenc (c.desc) + "\n";
    write_all (fd[1], out);
    _exit (0);
  }
  close (fd[1]);
  std::string buf;
  char b[65536];
  while (true) {
    ssize_t k = read (fd[0], b, sizeof b);
    if (k < 0 && errno == EINTR)
      continue;
    if (k <= 0)
      break;
    buf.append (b, (size_t) k);
  }
  close (fd[0]);
  int st = 0;
  waitpid (pid, &st, 0);
  Result r;
  r.choices = choices;
  if (!buf.empty () && buf[0] == 'O') {
    r.kind = Result::OK;
  }
  else if (!buf.empty () && buf[0] == 'F') {
    r.kind = Result::FAIL;
    std::istringstream is (buf);
    std::string t, h;
    size_t n;
    is >> t >> h >> n;
    r.msg = hexdec (h);
    r.choices.clear ();
    for (size_t i = 0; i < n; ++i) {
      uint64_t v;
      is >> v;
      r.choices.push_back (v);
    }
    is >> t >> h;
    r.desc = hexdec (h);
  }
  else if (!buf.empty () && buf[0] == 'H') {
    r.kind = Result::HANG;
    r.msg = "case did not terminate";
  }
  else {
    r.kind = Result::CRASH;
    r.msg = str ("process died (", WIFSIGNALED (st) ? str ("signal ", WTERMSIG (st)) : str ("exit ", WEXITSTATUS (st)),
                 "): ", tail (log));
  }
  if (r.desc.empty ())
    r.desc = g_desc;
  return r;
}

struct Worker
{
  pid_t pid = -1;
  int fd = -1;
  std::string buf;
  std::string log;
  long cur = -1;  /* case being executed */
  long next = 0;  /* next case of this worker */
  bool done = false;
};

struct Totals
{
  long evaluations = 0, nontrivial = 0;
  std::unordered_set<uint64_t> distinct;
  std::map<std::string, long> labels;
  std::vector<std::string> samples;
  long sampled = 0;
};

static double
cpu_now ()
{
  timespec t;
  clock_gettime (CLOCK_PROCESS_CPUTIME_ID, &t);
  return (double) t.tv_sec + 1e-9 * (double) t.tv_nsec;
}

static void
start_worker (const Property &p, Worker &w, uint64_t seed, bool thorough, long total, int stride)
{
  int fd[2];
  if (pipe (fd))
    abort ();
  fflush (stdout);
  pid_t pid = fork ();
  if (pid == 0) {
    close (fd[0]);
    g_report_fd = fd[1];
    child_setup (w.log, p.cpu_limit);
    vp_lib_init ();
    for (long i = w.next; i < total; i += stride) {
      write_all (fd[1], "S " + std::to_string (i) + "\n");
      (void) !ftruncate (1, 0);
      Case c;
      c.thorough = thorough;
      c.rng = case_rng (p, seed, thorough, i);
      set_cpu_timer (p.cpu_limit);
      const double cpu0 = cpu_now ();
      std::string m = run_one (p, c);
      set_cpu_timer (0);
      if (const char *slow = getenv ("VP_SLOW")) /* development aid: log cases that take long */
        if (cpu_now () - cpu0 > 1) {
          std::ofstream (slow, std::ios::app) << p.id << " case " << i << " seed " << seed << ": " << cpu_now () - cpu0 << " s\n";
        }
      if (!m.empty ()) {
        write_all (fd[1], "F " + std::to_string (i) + " " + hexenc (m) + "\n");
        _exit (0);
      }
      std::string lab;
      for (auto &l : c.labels)
        lab += (lab.empty () ? "" : ",") + l;
      write_all (fd[1], "D " + std::to_string (i) + " " + (c.is_nontrivial ? "1" : "0") + " "
                          + std::to_string (hash_choices (c.choices, c.choices.size ())) + " "
                          + (lab.empty () ? "-" : lab) + " " + hexenc ((i / stride) % 7 == 0 ? c.desc : "") + "\n");
    }
    if (__gcov_dump)
      __gcov_dump ();
    write_all (fd[1], "E\n");
    _exit (0);
  }
  close (fd[1]);
  w.pid = pid;
  w.fd = fd[0];
  w.buf.clear ();
  w.cur = -1;
}

/* run the cases from, from+stride, ..., upto in one process; true if that fails */
static int
run_stripe (const Property &p, uint64_t seed, bool thorough, long from, long upto, int stride)
{
  fflush (stdout);
  fflush (stderr);
  pid_t pid = fork ();
  if (pid == 0) {
    g_report_fd = open ("/dev/null", O_WRONLY);
    child_setup (g_tmp + "/stripe.log", p.cpu_limit);
    vp_lib_init ();
    for (long i = from; i <= upto; i += stride) {
      Case c;
      c.thorough = thorough;
      c.rng = case_rng (p, seed, thorough, i);
      set_cpu_timer (p.cpu_limit);
      if (!run_one (p, c).empty ())
        _exit (1);
    }
    _exit (0);
  }
  int st = 0;
  waitpid (pid, &st, 0);
  return !(WIFEXITED (st) && WEXITSTATUS (st) == 0);
}

static std::string
jesc (const std::string &s)
{
  std::string r;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      r += '\\';
      r += (char) c;
    }
    else if (c == '\n')
      r += "\\n";
    else if (c < 32 || c > 126) {
      char b[8];
      snprintf (b, sizeof b, "\\u%04x", c);
      r += b;
    }
    else
      r += (char) c;
  }
  return r;
}

static std::vector<uint64_t>
regenerate (const Property &p, uint64_t seed, bool thorough, long idx, Result &first)
{
  /* Run the failing case again in a child which streams its choices, so that they survive a crash */
  int fd[2];
  if (pipe (fd))
    abort ();
  const std::string log = g_tmp + "/regen.log";
  pid_t pid = fork ();
  if (pid == 0) {
    close (fd[0]);
    g_report_fd = open ("/dev/null", O_WRONLY);
    child_setup (log, p.cpu_limit);
    vp_lib_init ();
    static Case c;
    static int ofd = fd[1];
    c.thorough = thorough;
    c.rng = case_rng (p, seed, thorough, idx);
    auto dump = [] (int sig) {
      std::string o;
      for (uint64_t v : c.choices)
        o += std::to_string (v) + " ";
      write_all (ofd, o);
      if (sig)
        _exit (1);
    };
    static void (*sdump) (int) = dump;
    static char altstack[1 << 16];
    stack_t ss;
    ss.ss_sp = altstack;
    ss.ss_size = sizeof altstack;
    ss.ss_flags = 0;
    sigaltstack (&ss, nullptr);
    struct sigaction sa;
    memset (&sa, 0, sizeof sa);
    sa.sa_handler = sdump;
    sa.sa_flags = SA_ONSTACK;
    for (int s : { SIGABRT, SIGSEGV, SIGFPE, SIGBUS, SIGILL, SIGVTALRM, SIGTERM })
      sigaction (s, &sa, nullptr);
    set_cpu_timer (p.cpu_limit);
    run_one (p, c);
    set_cpu_timer (0);
    dump (0);
    _exit (0);
  }
  close (fd[1]);
  std::string buf;
  char b[65536];
  while (true) {
    ssize_t k = read (fd[0], b, sizeof b);
    if (k < 0 && errno == EINTR)
      continue;
    if (k <= 0)
      break;
    buf.append (b, (size_t) k);
  }
  close (fd[0]);
  int st;
  waitpid (pid, &st, 0);
  std::vector<uint64_t> ch;
  std::istringstream is (buf);
  uint64_t v;
  while (is >> v)
    ch.push_back (v);
  (void) first;
  return ch;
}

static double
now ()
{
  return std::chrono::duration<double> (std::chrono::steady_clock::now ().time_since_epoch ()).count ();
}

static std::vector<std::string> g_known;
static std::string
match_known (const std::string &msg)
{
  for (auto &k : g_known)
    if (!k.empty () && msg.find (k) != std::string::npos)
      return k;
  return "";
}

static Result
shrink (const Property &p, Result best, bool thorough, double budget)
{
  const double t0 = now ();
  long trials = 0;
  auto try_it = [&] (const std::vector<uint64_t> &c) {
    if (now () - t0 > budget || trials > 3000)
      return false;
    ++trials;
    Result r = run_isolated (p, c, thorough);
    if (r.kind == best.kind && r.kind != Result::OK && match_known (r.msg).empty ()) {
      auto less = r.choices.size () < best.choices.size ()
                  || (r.choices.size () == best.choices.size () && r.choices < best.choices);
      if (less) {
        best = r;
        return true;
      }
    }
    return false;
  };
  if (best.kind == Result::HANG)
    return best;
  bool improved = true;
  while (improved && now () - t0 < budget && trials <= 3000) {
    improved = false;
    /* delete blocks */
    for (size_t k = std::max<size_t> (1, best.choices.size () / 2); k >= 1; k /= 2) {
      for (size_t i = 0; i + k <= best.choices.size ();) {
        std::vector<uint64_t> c = best.choices;
        c.erase (c.begin () + (long) i, c.begin () + (long) (i + k));
        if (try_it (c))
          improved = true;
        else
          i += k;
        if (now () - t0 > budget)
          return best;
      }
      if (k == 1)
        break;
    }
    /* zero blocks, then lower single values */
    for (size_t k = std::max<size_t> (1, best.choices.size () / 4); k >= 1; k /= 4) {
      for (size_t i = 0; i + k <= best.choices.size (); i += k) {
        std::vector<uint64_t> c = best.choices;
        bool any = false;
        for (size_t j = i; j < i + k; ++j) {
          any = any || c[j];
          c[j] = 0;
        }
        if (any && try_it (c))
          improved = true;
      }
      if (k == 1)
        break;
    }
    for (size_t i = 0; i < best.choices.size (); ++i) {
      uint64_t lo = 0;
      for (int it = 0; it < 6 && i < best.choices.size () && best.choices[i] > lo; ++it) {
        std::vector<uint64_t> c = best.choices;
        c[i] = lo + (c[i] - lo) / 2;
        if (c[i] == best.choices[i])
          break;
        if (try_it (c))
          improved = true;
        else
          lo = c[i] + 1;
      }
    }
  }
  return best;
}

static std::vector<std::string>
known_findings (const std::string &file, const std::string &id)
{
  /* lines: KNOWN <id> <substring of the failure message identifying it> */
  std::vector<std::string> r;
  std::ifstream f (file);
  std::string line;
  while (std::getline (f, line)) {
    std::string pre = "known: property=" + id + " match=\"";
    if (line.rfind (pre, 0) == 0) {
      auto e = line.find ('"', pre.size ());
      r.push_back (line.substr (pre.size (), e - pre.size ()));
    }
  }
  return r;
}

static void
write_replay (const std::string &path, const Property &p, const Result &r, bool thorough, uint64_t seed, long upto, int nw)
{
  std::ofstream f (path);
  f << "property " << p.id << "\ntier " << (thorough ? "thorough" : "quick") << "\nseed " << seed << "\nchoices "
    << r.choices.size ();
  for (uint64_t v : r.choices)
    f << " " << v;
  if (upto >= 0)
    f << "\nstripe " << upto << " " << nw;
  f << "\nmessage " << r.msg << "\ncase " << r.desc << "\n";
}

static int
check (const Property &p, bool thorough, uint64_t seed, const std::string &root, double scale)
{
  const double t0 = now ();
  long total = thorough ? p.thorough : p.quick;
  total = std::max<long> (8, (long) ((double) total * scale));
  int nw = 8;
  if (const char *e = getenv ("VP_WORKERS"))
    nw = std::max (1, atoi (e));
  std::vector<Worker> ws (nw);
  Totals T;
  for (int i = 0; i < nw; ++i) {
    ws[i].next = i;
    ws[i].log = g_tmp + "/w" + std::to_string (i) + ".log";
    start_worker (p, ws[i], seed, thorough, total, nw);
  }
  long failed = -1;
  Result fr;
  int live = nw;
  const std::vector<std::string> known = known_findings (root + "/known_findings.txt", p.id);
  std::set<std::string> known_seen;
  long known_hits = 0;
  g_known = known;
  auto on_fail = [&] (long idx, const Result &r) {
    const std::string k = match_known (r.msg);
    if (!k.empty ()) {
      known_seen.insert (k);
      known_hits++;
      return;
    }
    if (failed < 0 || idx < failed) {
      failed = idx;
      fr = r;
    }
  };
  while (live > 0 && failed < 0) {
    std::vector<struct pollfd> pf;
    std::vector<int> who;
    for (int i = 0; i < nw; ++i)
      if (!ws[i].done) {
        pf.push_back ({ ws[i].fd, POLLIN, 0 });
        who.push_back (i);
      }
    if (poll (pf.data (), pf.size (), 1000) < 0 && errno != EINTR)
      break;
    for (size_t k = 0; k < pf.size (); ++k) {
      if (!pf[k].revents)
        continue;
      Worker &w = ws[who[k]];
      char b[65536];
      ssize_t n = read (w.fd, b, sizeof b);
      if (n > 0)
        w.buf.append (b, (size_t) n);
      size_t e;
      bool ended = false;
      long last_failed = -1;
      while ((e = w.buf.find ('\n')) != std::string::npos) {
        std::istringstream is (w.buf.substr (0, e));
        w.buf.erase (0, e + 1);
        std::string t;
        is >> t;
        if (t == "S") {
          is >> w.cur;
        }
        else if (t == "D") {
          long i;
          int nt;
          uint64_t h;
          std::string lab, desc;
          is >> i >> nt >> h >> lab >> desc;
          T.evaluations++;
          if (nt) {
            T.nontrivial++;
            T.distinct.insert (h);
          }
          if (lab != "-") {
            std::istringstream ls (lab);
            std::string l;
            while (std::getline (ls, l, ','))
              T.labels[l]++;
          }
          desc = hexdec (desc);
          if (nt && !desc.empty ()) {
            T.sampled++;
            if (T.samples.size () < 12)
              T.samples.push_back (desc);
            else if (T.sampled % 37 == 0)
              T.samples[(size_t) (T.sampled / 37) % 12] = desc;
          }
          w.cur = -1;
        }
        else if (t == "F") {
          long i;
          std::string h;
          is >> i >> h;
          Result r;
          r.kind = Result::FAIL;
          r.msg = hexdec (h);
          last_failed = i;
          on_fail (i, r);
          ended = true;
        }
        else if (t == "H") {
          Result r;
          r.kind = Result::HANG;
          r.msg = "case did not terminate";
          last_failed = w.cur;
          on_fail (w.cur, r);
          ended = true;
        }
        else if (t == "E")
          ended = true;
      }
      if (n <= 0 || ended) {
        int st = 0;
        close (w.fd);
        waitpid (w.pid, &st, 0);
        w.done = true;
        live--;
        if (!ended) {
          Result r;
          r.kind = Result::CRASH;
          r.msg = str ("process died (",
                       WIFSIGNALED (st) ? str ("signal ", WTERMSIG (st)) : str ("exit ", WEXITSTATUS (st)),
                       "): ", tail (w.log));
          last_failed = w.cur;
          on_fail (w.cur, r);
        }
        if (failed < 0 && last_failed >= 0 && last_failed + nw < total) {
          /* a known finding ended this worker: go on behind it */
          w.next = last_failed + nw;
          w.done = false;
          live++;
          start_worker (p, w, seed, thorough, total, nw);
        }
      }
    }
  }
  for (auto &w : ws)
    if (!w.done) {
      kill (w.pid, SIGKILL);
      close (w.fd);
      waitpid (w.pid, nullptr, 0);
    }
  int violations = 0;
  std::string replay, vmsg;
  bool unreproducible = false, stripe = false;
  if (failed >= 0) {
    fprintf (stderr, "[%s] case %ld failed: %.2000s\n", p.id, failed, fr.msg.c_str ());
    Result start;
    std::vector<uint64_t> ch = regenerate (p, seed, thorough, failed, start);
    Result r = run_isolated (p, ch, thorough);
    if (r.kind == Result::OK) {
      /* only fails in the sequence of cases of its worker: try twice more, then report as not reproducible */
      for (int i = 0; i < 2 && r.kind == Result::OK; ++i)
        r = run_isolated (p, ch, thorough);
    }
    if (r.kind == Result::OK) {
      /* repeat the whole history of the worker process up to the failing case */
      stripe = true;
      int again = 0;
      for (int i = 0; i < 3; ++i)
        again += run_stripe (p, seed, thorough, failed % nw, failed, nw);
      unreproducible = again < 3;
      r = fr;
      r.choices = ch;
    }
    else {
      double budget = 60;
      if (const char *e = getenv ("VP_SHRINK_SECONDS"))
        budget = atof (e);
      r = shrink (p, r, thorough, budget);
      for (int i = 0; i < 3; ++i) {
        Result q = run_isolated (p, r.choices, thorough);
        if (q.kind == Result::OK)
          unreproducible = true;
      }
    }
    violations = unreproducible ? 0 : 1;
    mkdir ((root + "/replays").c_str (), 0755);
    replay = root + "/replays/" + p.id + ".replay";
    write_replay (replay, p, r, thorough, seed, stripe ? failed : -1, nw);
    vmsg = r.msg;
    fprintf (stderr, "[%s] minimal case (%zu choices%s): %s\n[%s] %.3000s\n", p.id, r.choices.size (),
             unreproducible ? ", NOT reproducible in isolation" : "", r.desc.c_str (), p.id, r.msg.c_str ());
  }
  const double wall = now () - t0;
  /* evidence */
  {
    mkdir ((root + "/evidence").c_str (), 0755);
    std::ofstream f (root + "/evidence/" + p.id + ".json");
    f << "{\n \"property\": \"" << p.id << "\",\n \"tier\": \"" << (thorough ? "thorough" : "quick")
      << "\",\n \"seed\": " << seed << ",\n \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": "
      << T.evaluations << ",\n  \"distinct_nontrivial\": " << T.distinct.size () << ",\n  \"rule\": \"" << jesc (p.rule)
      << "\",\n  \"labels\": {";
    bool first = true;
    for (auto &l : T.labels) {
      f << (first ? "" : ", ") << "\"" << jesc (l.first) << "\": " << l.second;
      first = false;
    }
    f << "},\n  \"samples\": [";
    first = true;
    for (auto &s : T.samples) {
      f << (first ? "\n   \"" : ",\n   \"") << jesc (s) << "\"";
      first = false;
    }
    f << "]";
    if (violations)
      f << ",\n  \"violation\": {\"replay\": \"" << jesc (replay) << "\", \"message\": \"" << jesc (vmsg.substr (0, 1000))
        << "\"}";
    f << ",\n  \"known_findings_hit\": " << known_hits;
    f << "\n },\n \"wall_s\": " << wall << ",\n \"violations\": " << violations << ",\n \"assumptions\": [";
    first = true;
    for (auto &a : p.assumptions) {
      f << (first ? "" : ", ") << "\"" << jesc (a) << "\"";
      first = false;
    }
    f << "]\n}\n";
  }
  printf ("[%s] %s: %ld cases, %ld non-trivial (%zu distinct), %.1f s, %s\n", p.id, thorough ? "thorough" : "quick",
          T.evaluations, T.nontrivial, T.distinct.size (), wall, violations ? "VIOLATION" : "no violation");
  if (getenv ("VP_LABELS"))
    for (auto &l : T.labels)
      printf ("    %-40s %ld\n", l.first.c_str (), l.second);
  for (auto &k : known_seen)
    printf ("KNOWN-FINDING: property=%s %s\n", p.id, k.c_str ());
  if (unreproducible)
    printf ("[%s] a failure that could not be reproduced was discarded (see stderr)\n", p.id);
  if (violations) {
    printf ("VIOLATION property=%s replay=%s\n", p.id, replay.c_str ());
    fflush (stdout);
    return 1;
  }
  fflush (stdout);
  return 0;
}

static int
replay_file (const std::string &path)
{
  std::ifstream f (path);
  std::string key, id, tier;
  std::vector<uint64_t> ch;
  std::string line;
  uint64_t seed = 1;
  long upto = -1;
  int nw = 8;
  while (std::getline (f, line)) {
    std::istringstream is (line);
    is >> key;
    if (key == "property")
      is >> id;
    else if (key == "tier")
      is >> tier;
    else if (key == "choices") {
      size_t n;
      is >> n;
      uint64_t v;
      while (is >> v)
        ch.push_back (v);
    }
    else if (key == "seed")
      is >> seed;
    else if (key == "stripe")
      is >> upto >> nw;
  }
  for (auto &p : registry ())
    if (id == p.id) {
      if (upto >= 0) {
        const int bad = run_stripe (p, seed, tier == "thorough", upto % nw, upto, nw);
        if (bad)
          printf ("VIOLATION property=%s replay=%s\n", p.id, path.c_str ());
        return bad;
      }
      Result r = run_isolated (p, ch, tier == "thorough");
      if (r.kind == Result::OK) {
        printf ("replay of %s: property held\n", path.c_str ());
        return 0;
      }
      printf ("%s\n%s\nVIOLATION property=%s replay=%s\n", r.desc.c_str (), r.msg.c_str (), p.id, path.c_str ());
      return 1;
    }
  fprintf (stderr, "unknown property in %s\n", path.c_str ());
  return 2;
}

} // namespace vp

int
main (int argc, char **argv)
{
  using namespace vp;
  std::string id, tier = "quick", root = ".", rep;
  uint64_t seed = 1;
  double scale = 1;
  long only = -1;
  if (const char *s = getenv ("VERIF_SEED"))
    seed = strtoull (s, nullptr, 10);
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&] () { return std::string (i + 1 < argc ? argv[++i] : ""); };
    if (a == "--prop")
      id = val ();
    else if (a == "--tier")
      tier = val ();
    else if (a == "--root")
      root = val ();
    else if (a == "--seed")
      seed = strtoull (val ().c_str (), nullptr, 10);
    else if (a == "--scale")
      scale = atof (val ().c_str ());
    else if (a == "--replay")
      rep = val ();
    else if (a == "--case")
      only = atol (val ().c_str ());
    else if (a == "--list") {
      for (auto &p : registry ())
        printf ("%s\n", p.id);
      return 0;
    }
  }
  /* same addresses in every run */
  if (!getenv ("VP_NOASLR")) {
    setenv ("VP_NOASLR", "1", 1);
    if (personality (ADDR_NO_RANDOMIZE) != -1)
      execv ("/proc/self/exe", argv);
  }
  char tmpl[] = "/tmp/vp.XXXXXX";
  g_tmp = mkdtemp (tmpl);
  int ret = 2;
  if (!rep.empty ())
    ret = replay_file (rep);
  else {
    for (auto &p : registry ())
      if (id == p.id) {
        if (only >= 0) {
          /* debugging aid: run one case in this process */
          vp_lib_init ();
          Case c;
          c.thorough = tier == "thorough";
          c.rng = case_rng (p, seed, c.thorough, only);
          std::string m = run_one (p, c);
          printf ("case %ld: %s\n%s\n", only, m.empty () ? "ok" : m.c_str (), c.desc.c_str ());
          ret = !m.empty ();
        }
        else
          ret = check (p, tier == "thorough", seed, root, scale);
      }
  }
  std::string rm = "rm -rf '" + g_tmp + "'";
  if (g_tmp.rfind ("/tmp/vp.", 0) == 0)
    (void) !system (rm.c_str ());
  return ret;
}
