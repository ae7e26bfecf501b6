// instantiations of the header templates that no library unit instantiates
#include <NTL/mat_lzz_p.h>
#include <NTL/mat_ZZ.h>
#include "matrix.h"
#include "tools.h"

template void mul_transpose<NTL::ZZ>(NTL::Mat<NTL::ZZ> &, const NTL::Mat<NTL::ZZ> &, const NTL::Mat<NTL::ZZ> &);
template void transpose_mul_transpose<NTL::ZZ>(NTL::Mat<NTL::ZZ> &, const NTL::Mat<NTL::ZZ> &, const NTL::Mat<NTL::ZZ> &);
