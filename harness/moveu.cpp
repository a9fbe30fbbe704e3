// move.cpp with the soil curves replaced by their contract
#include "ucurves.h"
#include "move.cpp"
