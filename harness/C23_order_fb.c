#define CORK_CONFIG_HAVE_GCC_INT128 0
#define CORK_CONFIG_HAVE_GCC_MODE_ATTRIBUTE 0
#define CONFIG_NAME "portable"
#include "c23.h"
