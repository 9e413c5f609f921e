#include "gdb_world.h"
const char* const kHarnessProperty = "C21";
const bool kHarnessChecksLeaks = true;
void RunOne(dst::Sim& sim) { gdbw::RunGdb(sim, true); }
