#include "c22_uids.h"
cork_uid_define(shared_name); cork_uid_define(one); cork_uid_define(two); cork_uid_define(three);
cork_uid_define_named(four, "x"); cork_uid_define_named(five, "x"); cork_uid_define_named(six, ""); cork_uid_define_named(seven, "%s%n");
cork_uid c22_uids1(int i) { cork_uid a[] = { shared_name, one, two, three, four, five, six, seven }; return a[i]; }
const char *c22_names(int i) { static const char *const n[] = { "shared_name", "one", "two", "three", "x", "x", "", "%s%n" }; return n[i]; }
