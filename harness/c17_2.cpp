#define HX_PART 2
#include "c17s.hpp"
extern "C" void sizes() { run(); }
