#include "parfile.h"
static void partialPoly(Case& c) { partial(c, true); }
static void run(Case& c) { if (c.s.coin()) { c.label("round-trip"); writeRead(c); } else { c.label("serial-file"); partial(c); } }
int main(int argc, char** argv) { static pbt::Property P = {"C32", "files were written and read back, or one file was read, by at least two ranks, and compared", run, 2000, 40000, {{"partial-read-polyhedra", partialPoly}}}; return pbt::main_serial(argc, argv, P); }
