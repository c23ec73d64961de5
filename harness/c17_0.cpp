#define HX_PART 0
#include "c17s.hpp"
extern "C" void sizes() { run(); }
