#include "rec.h"
int main (int argc, char *argv[]) { return rec_main<especia::Many_Multiplet> (argc, argv); }
