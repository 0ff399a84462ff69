// Extraction unit (no code of its own).
#include <lib/period.cpp>
