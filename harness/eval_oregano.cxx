#include "eval.h"
int main (int argc, char *argv[]) { return eval_main<especia::Intergalactic_Voigt<especia::Pseudo_Voigt>> (argc, argv); }
