// C08: see fifo_world.h.
#define FIFO_KIND 8
#include "fifo_world.h"
const char* const kHarnessProperty = "C08";
