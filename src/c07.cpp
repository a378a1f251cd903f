/* C07: see c05.cpp */
#define FAMS 7
#define WIDE 150
#include "c05.cpp"
