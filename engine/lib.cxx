/* Library set-up and global invariants shared by all harnesses. */
#include "vp.hxx"
#include "lib.hxx"
#include <sc.h>
#include <t8.h>
#include <mpi.h>

static int base_t8 = 0, base_sc = 0;
extern "C" int sc_package_id;

static void
silent_log (FILE *, const char *, int, int, int, int, const char *)
{
}

void
vp_lib_init ()
{
  sc_init (sc_MPI_COMM_NULL, 0, 0, nullptr, SC_LP_ERROR);
  t8_init (SC_LP_ERROR);
  (void) silent_log;
  base_t8 = sc_memory_status (t8_get_package_id ());
  base_sc = sc_memory_status (-1);
}

static bool check_leaks = true;
void
vp_check_leaks (bool b)
{
  check_leaks = b;
}

void
vp_lib_case_end ()
{
  if (!check_leaks)
    return;
  const int now_t8 = sc_memory_status (t8_get_package_id ());
  if (now_t8 != base_t8)
    throw vp::Failure (vp::str ("memory allocated by the library was not released (or released twice): balance changed by ",
                                now_t8 - base_t8));
}

void
vp_run_ranks (const vmpi::Options &opt, const std::function<void (int)> &body)
{
  vmpi::run (opt, [&] (int r) {
    body (r);
    vmpi::sync ();
    sc_MPI_Comm a = sc_MPI_COMM_NULL, b = sc_MPI_COMM_NULL;
    sc_mpi_comm_get_node_comms (sc_MPI_COMM_WORLD, &a, &b);
    if (a != sc_MPI_COMM_NULL)
      sc_mpi_comm_detach_node_comms (sc_MPI_COMM_WORLD);
  });
}

/* libsc sleeps for a second before it aborts */
extern "C" unsigned
sleep (unsigned)
{
  return 0;
}
