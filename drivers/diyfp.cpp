// The extended floats behind the float formatter.
#include "lexi/detail/diyfp.hpp"
#include "lexi/detail/ieee754.hpp"

extern "C" void vf_diy(int tag, uint64_t f, int e);

using lexi::detail::DiyFp;

extern "C" void e_mul(uint64_t f1, int e1, uint64_t f2, int e2)
{
    const DiyFp a(f1, e1), b(f2, e2);
    DiyFp r = a * b;
    vf_diy(0, r.f, r.e);
    DiyFp q = b * a;
    vf_diy(0, q.f, q.e);
    vf_diy(1, a.f, a.e);
}

extern "C" void e_sqr(uint64_t f1, int e1)
{
    DiyFp a(f1, e1);
    a = a * a;
    vf_diy(0, a.f, a.e);
}

extern "C" void e_sub(uint64_t f1, int e1, uint64_t f2)
{
    const DiyFp a(f1, e1), b(f2, e1);
    DiyFp r = a - b;
    vf_diy(0, r.f, r.e);
}

extern "C" void e_conv(uint64_t bits)
{
    lexi::detail::BitwiseDouble u;
    u.u64 = bits;
    DiyFp r(u.d);
    vf_diy(0, r.f, r.e);
}

extern "C" void e_norm(uint64_t f1, int e1)
{
    const DiyFp a(f1, e1);
    DiyFp r = a.normalize();
    vf_diy(0, r.f, r.e);
}

extern "C" void e_normb(uint64_t f1, int e1)
{
    const DiyFp a(f1, e1);
    DiyFp r = a.normalizeBoundary();
    vf_diy(0, r.f, r.e);
}

extern "C" void e_bounds(uint64_t f1, int e1)
{
    const DiyFp a(f1, e1);
    DiyFp lo, hi;
    a.normalizedBoundaries(&lo, &hi);
    vf_diy(0, lo.f, lo.e);
    vf_diy(1, hi.f, hi.e);
    vf_diy(2, a.f, a.e);
}
