// Included before everything else in the builds that model the printing of floating-point numbers:
// these members are defined in fpio.cpp.
#pragma once
#define SYMX_FPIO 1
#include <ostream>
namespace std
{
template <> template <> ostream& ostream::_M_insert(double);
template <> template <> ostream& ostream::_M_insert(long double);
}
