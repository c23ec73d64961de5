#define TYPES_HERE bool, std::string, View, json::array, json::object, std::vector<int>, std::optional<int>, unsigned long, Col, double
#include "c14.hpp"
