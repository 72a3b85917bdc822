// as h_pure, with the real statistics
#define FULLSTATS
#include "h_pure.cpp"
