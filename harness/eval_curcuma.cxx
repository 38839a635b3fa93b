#include "eval.h"
int main (int argc, char *argv[]) { return eval_main<especia::Intergalactic_Doppler> (argc, argv); }
