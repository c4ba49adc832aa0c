#define COLOR
#include "dC03.cpp"
