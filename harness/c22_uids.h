#ifndef C22_UIDS_H
#define C22_UIDS_H
#include <libcork/core.h>
#define C22_NUIDS 8
cork_uid c22_uids1(int i); cork_uid c22_uids2(int i); const char *c22_names(int i);
#endif
