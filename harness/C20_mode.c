#define CORK_CONFIG_HAVE_GCC_INT128 0
#define CONFIG_NAME "mode attribute"
#include "c20.h"
