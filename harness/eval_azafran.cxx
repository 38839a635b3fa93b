#include "eval.h"
int main (int argc, char *argv[]) { return eval_main<especia::Many_Multiplet> (argc, argv); }
