#define MINIMAL 1
#include "alloc_tour.h"
