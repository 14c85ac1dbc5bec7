// Entry points for the big integer: one operation each, then the object is shown.
#include "lexi/detail/bigint.hpp"
using lexi::detail::BigInteger;

extern "C" {
void vf_big(int tag, const BigInteger *x);
void vf_u(int tag, unsigned long long v);
void vf_s(int tag, long long v);
void vf_same(const void *a, const void *b);

void e_add(BigInteger &x, uint64_t d) { BigInteger &r = (x += d); vf_same(&r, &x); vf_big(0, &x); }
void e_mul64(BigInteger &x, uint64_t d) { BigInteger &r = (x *= d); vf_same(&r, &x); vf_big(0, &x); }
void e_mul32(BigInteger &x, uint32_t d) { BigInteger &r = (x *= d); vf_same(&r, &x); vf_big(0, &x); }
void e_shl(BigInteger &x, size_t n) { BigInteger &r = (x <<= n); vf_same(&r, &x); vf_big(0, &x); }
void e_pow5(BigInteger &x, unsigned n) { BigInteger &r = x.mulPow5(n); vf_same(&r, &x); vf_big(0, &x); }
void e_cmp(const BigInteger &x, const BigInteger &y) { vf_s(0, x.compare(y)); }
void e_eq(const BigInteger &x, const BigInteger &y) { vf_u(0, x == y); }
void e_eq64(const BigInteger &x, uint64_t y) { vf_u(0, x == y); }
void e_diff(const BigInteger &x, const BigInteger &y)
{
    BigInteger out(0);
    bool r = x.difference(y, &out);
    vf_u(0, r);
    vf_big(0, &out);
}
void e_copy(const BigInteger &x) { BigInteger y(x); vf_big(0, &y); vf_big(1, &x); }
void e_assign(BigInteger &x, const BigInteger &y) { BigInteger &r = (x = y); vf_same(&r, &x); vf_big(0, &x); vf_big(1, &y); }
void e_self(BigInteger &x) { BigInteger &y = x; x = y; vf_big(0, &x); }
void e_set(BigInteger &x, uint64_t d) { BigInteger &r = (x = d); vf_same(&r, &x); vf_big(0, &x); }
void e_new(uint64_t d) { BigInteger y(d); vf_big(0, &y); }
void e_parse(const char *p, size_t n) { BigInteger y(p, n); vf_big(0, &y); }
void e_digit(const BigInteger &x, size_t i) { vf_u(0, x.digit(i)); }
void e_count(const BigInteger &x) { vf_u(0, x.count()); vf_u(1, x.isZero()); }
}
