// Instantiation unit (no code of its own): SIMD equidistribution of the dSFMT
// sample.  AbsGen stands for any concrete generator class (declared, never defined).
#include <MTToolBox/util.hpp>
#include <samples/dSFMTdc/w128.hpp>
#include <MTToolBox/ReducibleTemperingCalculatable.hpp>
#include <samples/dSFMTdc/AlgorithmDSFMTEquidistribution.hpp>
namespace MTToolBox {
template<typename U> class AbsGen : public ReducibleTemperingCalculatable<U> {
public:
    AbsGen(const AbsGen<U>&);
    AbsGen<U>* clone() const;
    U generate(); U generate(int); void seed(U); int bitSize() const;
    void setUpParam(ParameterGenerator&); const std::string getHeaderString(); const std::string getParamString();
    void add(EquidistributionCalculatable<U>&); void setZero(); bool isZero() const;
    void setTemperingPattern(U, U, int); void setUpTempering(); void setReverseOutput(); void resetReverseOutput(); bool isReverseOutput();
    void setOneBit(int); U getParityValue() const; void setParityValue(U); int getMexp() const;
    void setStartMode(int); void setWeightMode(int);
};
typedef AbsGen<w128_t> AbsGen128;
template class dsfmt_linear_generator_vector<w128_t, AbsGen<w128_t> >;
template class AlgorithmDSFMTEquidistribution<w128_t, AbsGen<w128_t> >;
template int calc_dSFMT_equidistribution<w128_t, AbsGen<w128_t> >(const AbsGen<w128_t>&, int[], int, DSFMTInfo&, int);
}
