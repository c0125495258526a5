// C26: everything arrives, once, intact, in order
#include "e2e.h"
extern "C" void sym_main() { e2e(false); }
