#define HX_PART 1
#include "c17s.hpp"
extern "C" void sizes() { run(); }
