// Extraction unit (no code of its own).
#include <samples/MTDC/mt2.cpp>
