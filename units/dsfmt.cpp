// Extraction unit (no code of its own).
#include <samples/dSFMTdc/dSFMTsearch.hpp>
