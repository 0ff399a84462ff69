// Extraction unit (no code of its own).
#include <samples/TinyMTDC/tinymt32search.hpp>
