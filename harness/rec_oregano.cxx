#include "rec.h"
int main (int argc, char *argv[]) { return rec_main<especia::Intergalactic_Voigt<especia::Pseudo_Voigt>> (argc, argv); }
