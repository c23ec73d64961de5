#define HX_PART 3
#include "c17s.hpp"
extern "C" void sizes() { run(); }
