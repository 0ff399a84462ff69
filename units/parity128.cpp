// Instantiation unit (no code of its own): the parity search for 128-bit words.
// AbsGen stands for any concrete generator class (declared, never defined).
#include <MTToolBox/util.hpp>
#include <samples/sfmtdc/w128.hpp>
#include <MTToolBox/ReducibleTemperingCalculatable.hpp>
#include <MTToolBox/AlgorithmReducibleRecursionSearch.hpp>
#include <MTToolBox/AlgorithmCalculateParity.hpp>
namespace MTToolBox {
template<typename U> class AbsGen : public ReducibleTemperingCalculatable<U> {
public:
    AbsGen(const AbsGen<U>&);
    AbsGen<U>* clone() const;
    U generate(); U generate(int); void seed(U); int bitSize() const;
    void setUpParam(ParameterGenerator&); const std::string getHeaderString(); const std::string getParamString();
    void add(EquidistributionCalculatable<U>&); void setZero(); bool isZero() const;
    void setTemperingPattern(U, U, int); void setUpTempering(); void setReverseOutput(); void resetReverseOutput(); bool isReverseOutput();
    void setOneBit(int); U getParityValue() const; void setParityValue(U); int getMexp() const;
};
typedef AbsGen<w128_t> AbsGen128;
template class AlgorithmCalculateParity<w128_t, AbsGen<w128_t> >;
}
