#define PTHREAD_TLS 0
#include "c18.h"
