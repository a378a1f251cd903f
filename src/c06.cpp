/* C06: see c05.cpp */
#define FAMS 6
#define WIDE 180
#include "c05.cpp"
