// C27: messages given up arrive whole or not at all, and hold nothing up
#include "e2e.h"
extern "C" void sym_main() { e2e(true); }
