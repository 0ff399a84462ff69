// Instantiation unit (no code of its own): the search and test algorithms.
#include <MTToolBox/TestLinearity.hpp>
#include <MTToolBox/period.hpp>
#include <MTToolBox/AlgorithmRecursionSearch.hpp>
#include <MTToolBox/AlgorithmReducibleRecursionSearch.hpp>
namespace MTToolBox {
template class TestLinearity<uint32_t>;
template class TestLinearity<uint64_t>;
template void minpoly<uint32_t>(NTL::GF2X&, AbstractGenerator<uint32_t>&, int, int);
template void minpoly<uint64_t>(NTL::GF2X&, AbstractGenerator<uint64_t>&, int, int);
template class AlgorithmRecursionSearch<uint32_t>;
template class AlgorithmRecursionSearch<uint64_t>;
template class AlgorithmReducibleRecursionSearch<uint32_t>;
template class AlgorithmReducibleRecursionSearch<uint64_t>;
template void calcCharacteristicPolynomial<uint32_t>(ReducibleGenerator<uint32_t>*, NTL::GF2X&);
template void calcCharacteristicPolynomial<uint64_t>(ReducibleGenerator<uint64_t>*, NTL::GF2X&);
template void annihilate<uint32_t>(EquidistributionCalculatable<uint32_t>*, const NTL::GF2X&);
template void annihilate<uint64_t>(EquidistributionCalculatable<uint64_t>*, const NTL::GF2X&);
}
