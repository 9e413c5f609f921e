// C07: see fifo_world.h.
#define FIFO_KIND 7
#include "fifo_world.h"
const char* const kHarnessProperty = "C07";
