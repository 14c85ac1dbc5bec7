// The intrinsics that the sources use, as Microsoft documents them.
#pragma once
static inline unsigned long long _umul128(unsigned long long a, unsigned long long b, unsigned long long *high)
{
    unsigned __int128 p = static_cast<unsigned __int128>(a) * b;
    *high = static_cast<unsigned long long>(p >> 64);
    return static_cast<unsigned long long>(p);
}
static inline uint64_t _umul128(uint64_t a, uint64_t b, uint64_t *high)
{
    unsigned __int128 p = static_cast<unsigned __int128>(a) * b;
    *high = static_cast<uint64_t>(p >> 64);
    return static_cast<uint64_t>(p);
}
static inline unsigned char _BitScanReverse64(unsigned long *index, unsigned long long mask)
{
    if (!mask) {
        return 0;
    }
    *index = 63 - __builtin_clzll(mask);
    return 1;
}
