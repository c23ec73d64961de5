#define MEOJSON_ENUM_AS_NUMBER
#include "c18.hpp"
extern "C" void values() { anyValue(); }
extern "C" void texts() { anyText(); }
