// R qis with symbolic marginals
#include "nostats.h"
#include "h_r.cpp"
