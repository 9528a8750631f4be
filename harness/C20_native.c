#define CONFIG_NAME "native"
#include "c20.h"
