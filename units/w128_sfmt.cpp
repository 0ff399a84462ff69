// Instantiation unit (no code of its own): the SIMD helpers of the SFMT sample.
#include <MTToolBox/util.hpp>
#include <samples/sfmtdc/w128.hpp>
