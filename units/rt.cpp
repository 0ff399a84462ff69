// Instantiation unit: combined searches and temperings (no code of its own but the two
// calls that leave every optional argument out).
// AbsGen stands for any concrete generator class (declared, never defined).
#include <MTToolBox/util.hpp>
#include <MTToolBox/ReducibleTemperingCalculatable.hpp>
#include <MTToolBox/AlgorithmRecursionAndTempering.hpp>
#include <MTToolBox/AlgorithmReducibleRT.hpp>
#include <MTToolBox/AlgorithmPartialBitPattern.hpp>
#include <MTToolBox/AlgorithmBestBits.hpp>
namespace MTToolBox {
template<typename U> class AbsGen : public ReducibleTemperingCalculatable<U> {
public:
    AbsGen(const AbsGen<U>&);
    AbsGen<U>* clone() const;
    U generate(); U generate(int); void seed(U); int bitSize() const;
    void setUpParam(ParameterGenerator&); const std::string getHeaderString(); const std::string getParamString();
    void add(EquidistributionCalculatable<U>&); void setZero(); bool isZero() const;
    void setTemperingPattern(U, U, int); void setUpTempering(); void setReverseOutput(); void resetReverseOutput(); bool isReverseOutput();
    void setOneBit(int); U getParityValue() const; void setParityValue(U); int getMexp() const;
};
typedef AbsGen<uint32_t> AbsGen32; typedef AbsGen<uint64_t> AbsGen64;
template class AlgorithmRecursionAndTempering<uint32_t>;
template class AlgorithmRecursionAndTempering<uint64_t>;
template<typename U> bool searchDefaults(AlgorithmRecursionAndTempering<U>& a, AbsGen<U>& g, AlgorithmTempering<U>& st1, AlgorithmTempering<U>& st2) { return a.search(g, st1, st2); }
template<typename U> bool searchDefaultsR(AlgorithmReducibleRecursionAndTempering<U, AbsGen<U> >& a, AbsGen<U>& g, AlgorithmTempering<U>& st1, AlgorithmTempering<U>& st2) { return a.search(g, st1, st2); }
#define RT(U) \
template bool searchDefaults<U>(AlgorithmRecursionAndTempering<U>&, AbsGen<U>&, AlgorithmTempering<U>&, AlgorithmTempering<U>&); \
template bool searchDefaultsR<U>(AlgorithmReducibleRecursionAndTempering<U, AbsGen<U> >&, AbsGen<U>&, AlgorithmTempering<U>&, AlgorithmTempering<U>&); \
template AlgorithmReducibleRecursionAndTempering<U, AbsGen<U> >::AlgorithmReducibleRecursionAndTempering(ParameterGenerator&); \
template bool AlgorithmReducibleRecursionAndTempering<U, AbsGen<U> >::search(AbsGen<U>&, AlgorithmTempering<U>&, AlgorithmTempering<U>&, bool, std::ostream&, bool); \
template int AlgorithmReducibleRecursionAndTempering<U, AbsGen<U> >::getDelta(); \
template const NTL::GF2X& AlgorithmReducibleRecursionAndTempering<U, AbsGen<U> >::getIrreducibleFactor(); \
template U AlgorithmReducibleRecursionAndTempering<U, AbsGen<U> >::getParity() const;
RT(uint32_t)
RT(uint64_t)
template class AlgorithmCalculateParity<uint32_t, AbsGen<uint32_t> >;
template class AlgorithmCalculateParity<uint64_t, AbsGen<uint64_t> >;
template class AlgorithmReducibleEquidistribution<uint32_t, AbsGen<uint32_t> >;
template class AlgorithmReducibleEquidistribution<uint64_t, AbsGen<uint64_t> >;
template class AlgorithmEquidistribution<uint32_t>;
template class AlgorithmEquidistribution<uint64_t>;
template class AlgorithmBestBits<uint32_t>;
template class AlgorithmBestBits<uint64_t>;
template class AlgorithmPartialBitPattern<uint32_t, 32, 1, 23, 6>;
template class AlgorithmPartialBitPattern<uint32_t, 32, 4, 23, 5>;
template class AlgorithmPartialBitPattern<uint32_t, 32, 1, 9, 5, true>;
template class AlgorithmPartialBitPattern<uint32_t, 32, 4, 9, 5, true>;
template class AlgorithmPartialBitPattern<uint64_t, 64, 2, 63, 6>;
}
