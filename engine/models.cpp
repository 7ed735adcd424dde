// Instrumented models of the iostream number inserters (the library versions would read the numbers without the engine seeing them).
#include "sx.h"
#include <ostream>
typedef std::ostream O;
static O& D(O& o, double v) { return o << sx_fmt_d(v, (int)o.precision(), (o.flags() & std::ios_base::fixed) != 0); }
static O& I(O& o, int64_t v) { return o << sx_fmt_i(v, 0); }
static O& U(O& o, uint64_t v) { return o << sx_fmt_i((int64_t)v, 1); }
extern "C" {
O& __sxm__ZNSolsEi(O& o, int v) { return I(o, v); } O& __sxm__ZNSolsEl(O& o, long v) { return I(o, v); } O& __sxm__ZNSolsEx(O& o, long long v) { return I(o, v); } O& __sxm__ZNSolsEs(O& o, short v) { return I(o, v); }
O& __sxm__ZNSolsEj(O& o, unsigned v) { return U(o, v); } O& __sxm__ZNSolsEm(O& o, unsigned long v) { return U(o, v); } O& __sxm__ZNSolsEy(O& o, unsigned long long v) { return U(o, v); } O& __sxm__ZNSolsEt(O& o, unsigned short v) { return U(o, v); }
O& __sxm__ZNSolsEd(O& o, double v) { return D(o, v); } O& __sxm__ZNSolsEf(O& o, float v) { return D(o, v); }
O& __sxm__ZNSo9_M_insertIdEERSoT_(O& o, double v) { return D(o, v); } O& __sxm__ZNSo9_M_insertIlEERSoT_(O& o, long v) { return I(o, v); } O& __sxm__ZNSo9_M_insertImEERSoT_(O& o, unsigned long v) { return U(o, v); }
O& __sxm__ZNSo9_M_insertIxEERSoT_(O& o, long long v) { return I(o, v); } O& __sxm__ZNSo9_M_insertIyEERSoT_(O& o, unsigned long long v) { return U(o, v); }
}
