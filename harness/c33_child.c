/* Behaves as its first argument says. */
#include "subscript.h"
int main(int argc, char **argv) { return sub_run(argc > 1 ? argv[1] : ""); }
