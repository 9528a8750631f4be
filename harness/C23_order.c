#define CONFIG_NAME "native"
#include "c23.h"
