// Instantiation unit (no code of its own): the SIMD helpers of the dSFMT sample.
#include <MTToolBox/util.hpp>
#include <samples/dSFMTdc/w128.hpp>
