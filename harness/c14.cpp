#define TYPES_HERE int, Lit, V
#include "c14.hpp"
