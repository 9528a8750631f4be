#define CORK_CONFIG_HAVE_THREAD_STORAGE_CLASS 0
#define PTHREAD_TLS 1
#include "c18.h"
