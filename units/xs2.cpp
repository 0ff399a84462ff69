// Extraction unit (no code of its own).
#include <samples/XORSHIFT/xorshift-2.cpp>
