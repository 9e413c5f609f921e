// C06: see fifo_world.h.
#define FIFO_KIND 6
#include "fifo_world.h"
const char* const kHarnessProperty = "C06";
