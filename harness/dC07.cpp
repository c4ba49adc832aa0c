#define ORDER
#include "dC06.cpp"
