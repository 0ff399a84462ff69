// Extraction unit (no code of its own).
#include <samples/XORSHIFT/xorshift-5.cpp>
