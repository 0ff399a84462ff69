// Extraction unit (no code of its own).
#include <samples/sfmtdc/sfmtsearch.hpp>
