#define GC_MODE 13
#include "gc_world.h"
