#include "rec.h"
int main (int argc, char *argv[]) { return rec_main<especia::Intergalactic_Voigt<especia::Extended_Pseudo_Voigt>> (argc, argv); }
