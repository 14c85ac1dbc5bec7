// The power-of-ten lookup.
#include "lexi/detail/pow.hpp"

extern "C" double e_pow10(int n) { return lexi::detail::pow10(n); }
