// Extraction unit (no code of its own).
#include <samples/MTDC/mt1.cpp>
