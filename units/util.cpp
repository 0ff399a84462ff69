// Instantiation unit (no code of its own): forces the templates of util.hpp.
#include <MTToolBox/util.hpp>
namespace MTToolBox {
template int bit_size<uint16_t>(); template int bit_size<uint32_t>(); template int bit_size<uint64_t>();
template uint32_t floor2p<uint32_t>(uint32_t); template uint64_t floor2p<uint64_t>(uint64_t); template int floor2p<int>(int);
template int get_range<uint32_t>(uint32_t, int, int); template int get_range<uint64_t>(uint64_t, int, int);
template void fill_table<uint32_t>(uint32_t[], uint32_t[], int); template void fill_table<uint64_t>(uint64_t[], uint64_t[], int);
template void toGF2Vec<uint32_t>(NTL::vec_GF2&, uint32_t); template void toGF2Vec<uint64_t>(NTL::vec_GF2&, uint64_t);
template uint32_t fromGF2Vec<uint32_t>(NTL::vec_GF2&); template uint64_t fromGF2Vec<uint64_t>(NTL::vec_GF2&);
template unsigned int getBitOfPos<uint32_t>(uint32_t, int); template unsigned int getBitOfPos<uint64_t>(uint64_t, int);
template void setBitOfPos<uint32_t>(uint32_t*, int, unsigned int); template void setBitOfPos<uint64_t>(uint64_t*, int, unsigned int);
template bool isZero<uint32_t>(uint32_t); template bool isZero<uint64_t>(uint64_t);
template void setZero<uint32_t>(uint32_t&); template void setZero<uint64_t>(uint64_t&);
template uint32_t getOne<uint32_t>(); template uint64_t getOne<uint64_t>();
}
