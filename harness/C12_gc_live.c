#define GC_MODE 12
#include "gc_world.h"
