// Instantiation unit (no code of its own): the parameter sources.
#include <MTToolBox/Sequential.hpp>
#include <MTToolBox/MersenneTwister.hpp>
#include <MTToolBox/MersenneTwister64.hpp>
namespace MTToolBox {
template class Sequential<uint32_t>;
template class Sequential<uint64_t>;
template void MersenneTwister::seed_array<char>(const char *, int);
template void MersenneTwister::seed_array<uint32_t>(const uint32_t *, int);
template void MersenneTwister64::seed_array<char>(const char *, int);
template void MersenneTwister64::seed_array<uint64_t>(const uint64_t *, int);
}
