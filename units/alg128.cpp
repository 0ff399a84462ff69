// Instantiation unit (no code of its own): the algorithms over 128-bit words (SFMT's).
#include <samples/sfmtdc/w128.hpp>
#include <MTToolBox/TestLinearity.hpp>
#include <MTToolBox/period.hpp>
#include <MTToolBox/AlgorithmRecursionSearch.hpp>
#include <MTToolBox/AlgorithmReducibleRecursionSearch.hpp>
namespace MTToolBox {
template class TestLinearity<w128_t>;
template void minpoly<w128_t>(NTL::GF2X&, AbstractGenerator<w128_t>&, int, int);
template class AlgorithmReducibleRecursionSearch<w128_t>;
template void calcCharacteristicPolynomial<w128_t>(ReducibleGenerator<w128_t>*, NTL::GF2X&);
template void annihilate<w128_t>(EquidistributionCalculatable<w128_t>*, const NTL::GF2X&);
}
