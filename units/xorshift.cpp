// Extraction unit (no code of its own): the C xorshift128 generator, read as C++
// (flag -fno-operator-names, because a parameter is called xor).
#include <samples/XORSHIFT/xorshift128.c>
