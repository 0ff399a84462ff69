// Extraction unit (no code of its own): the fixed point calculation of dSFMT.
#include <samples/dSFMTdc/calc_fixpoint.cpp>
