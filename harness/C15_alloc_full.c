#define MINIMAL 0
#include "alloc_tour.h"
