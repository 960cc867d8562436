#pragma once
#include "vmpi.hxx"
#include "vp.hxx"
/* vmpi::run plus clean-up of the attributes libsc attaches to the world communicator */
void
vp_run_ranks (const vmpi::Options &opt, const std::function<void (int)> &body);
void
vp_check_leaks (bool b);
