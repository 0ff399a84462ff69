// Extraction unit (no code of its own).
#include <MTToolBox/util.hpp>
#include <samples/MTGPDC/MTGP32search.hpp>
