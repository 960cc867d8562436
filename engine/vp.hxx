/* Property based testing engine: choice sequence generation, worker processes, shrinking, replay, evidence. */
#pragma once
#include "vmpi.hxx"
#include <cstdint>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace vp
{
struct Failure: std::runtime_error
{
  explicit Failure (const std::string &s): std::runtime_error (s)
  {
    vmpi::last_failure = s;
  }
};

/* keep the description of the running case where it survives a crash */
void
note_desc (const std::string &);

/* One generated case. All random decisions are drawn from here and recorded, so that a case is a vector of numbers. */
class Case {
 public:
  /* value in [0,n), shrinks towards 0 */
  uint64_t
  below (uint64_t n);
  /* value in [lo,hi], shrinks towards lo */
  int64_t
  range (int64_t lo, int64_t hi)
  {
    return lo + (int64_t) below ((uint64_t) (hi - lo) + 1);
  }
  /* true with probability percent/100, shrinks towards false */
  bool
  chance (int percent)
  {
    return below (100) >= (uint64_t) (100 - percent);
  }
  bool
  permille (int n)
  {
    return below (1000) >= (uint64_t) (1000 - n);
  }
  /* index with the given weights, shrinks towards 0 */
  size_t
  weighted (const std::vector<int> &w);
  template <class T>
  const T &
  pick (const std::vector<T> &v)
  {
    return v[below (v.size ())];
  }
  double
  real (double lo, double hi)
  {
    return lo + (hi - lo) * ((double) below (1u << 20) / (double) (1u << 20));
  }
  uint64_t
  bits ()
  {
    return below (~0ull);
  }

  void
  label (const std::string &s)
  {
    labels.insert (s);
  }
  void
  nontrivial (bool b = true)
  {
    if (b)
      is_nontrivial = true;
  }
  void
  describe (const std::string &s)
  {
    if (desc.size () < 600)
      desc += (desc.empty () ? "" : " ") + s;
    note_desc (desc);
  }
  [[noreturn]] void
  fail (const std::string &s) const
  {
    throw Failure (s);
  }
  void
  require (bool ok, const std::string &s) const
  {
    if (!ok)
      throw Failure (s);
  }

  bool thorough = false;
  /* engine internals */
  std::vector<uint64_t> choices;
  size_t pos = 0;
  bool replaying = false;
  uint64_t rng = 0;
  std::set<std::string> labels;
  bool is_nontrivial = false;
  std::string desc;
};

struct Property
{
  const char *id;
  void (*run) (Case &);
  long quick;    /* number of cases */
  long thorough; /* number of cases */
  const char *rule;
  std::vector<std::string> assumptions;
  int cpu_limit = 120; /* CPU seconds per case after which it counts as not terminating */
  bool heap = false;   /* all heap memory, not only that of the library's allocator, must be released at the end of a case */
};

std::vector<Property> &
registry ();
struct Register
{
  Register (Property p) { registry ().push_back (std::move (p)); }
};

/* small formatting helper */
template <class... A>
std::string
str (const A &...a)
{
  std::ostringstream s;
  (s << ... << a);
  return s.str ();
}
} // namespace vp

#define VP_REQUIRE(cond, ...) \
  do { \
    if (!(cond)) \
      throw vp::Failure (vp::str (#cond " does not hold: ", __VA_ARGS__)); \
  } while (0)
