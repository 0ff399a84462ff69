// Extraction unit (no code of its own).
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <iomanip>
#include <sstream>
#include <string>
#include <MTToolBox/util.hpp>
#include <samples/RMT/rmt64.hpp>
