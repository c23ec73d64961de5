#define HX_GROUP 2
#include "ty.hpp"
extern "C" void isas() { run(); }
extern "C" void from() { runFrom(); }
extern "C" void there() { runThere(); }
