#include "eval.h"
int main (int argc, char *argv[]) { return eval_main<especia::Intergalactic_Voigt<especia::Extended_Pseudo_Voigt>> (argc, argv); }
