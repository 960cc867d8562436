/* Deterministic in-process MPI: every rank is a fiber of one process, the schedule is owned by the harness. */
#pragma once
#include <cstdint>
#include <functional>
#include <stdexcept>
#include <string>

namespace vmpi
{
/* Thrown out of run() when the communication itself misbehaved or a rank failed. */
struct Error: std::runtime_error
{
  using std::runtime_error::runtime_error;
};

/* what the last failed check said; kept because a rank may never get to deliver its exception */
extern std::string last_failure;

struct Options
{
  int nranks = 1;
  int node_size = 0;       /* ranks per emulated shared-memory node, 0 = all on one node */
  uint64_t sched_seed = 0; /* 0 = round robin, eager sends, lowest-source matching */
  bool allow_unmatched = false;
};

/* Run body(rank) on opt.nranks ranks to completion. Throws Error on deadlock, collective mismatch, truncation,
 * unmatched messages, or rethrows the (first) exception of a rank. After an exception the process state is
 * unspecified: the caller is expected to report and exit. */
void
run (const Options &opt, const std::function<void (int)> &body);

/* Inside run(): rank of the executing fiber / number of ranks (-1 / 0 outside). */
int
rank ();
int
size ();
/* A barrier of all ranks of the run which is not an MPI call of the tested code. */
void
sync ();
/* number of point to point messages and collective operations of the last/current run */
uint64_t
messages ();
uint64_t
collectives ();
uint64_t
switches ();
} // namespace vmpi
