// Entry points: the bit classification of doubles.
#include "lexi/detail/ieee754.hpp"
#include "lexi/lexi.hpp"

#define CLS(N) extern "C" int e_##N(double v) { return lexi::detail::N(v) ? 1 : 0; }
CLS(isNan)
CLS(isInf)
CLS(isInfinity)
CLS(isNegativeInfinity)
CLS(isFinite)
CLS(isZero)
CLS(isPositive)
