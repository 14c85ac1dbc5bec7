// Formatters copied, moved, assigned and returned while their sources die or change.
#include "lexi/lexi.hpp"
#include <new>
#include <utility>
#include <limits>

extern "C" {
void vf_obj(const void *self, size_t selfsize, const char *data, const char *cstr, size_t size, size_t length);
void vf_str(int tag, const std::string *s);
// the object seen next shows the text with this number: 0 defines the first one, 1 the second one, 2/3 must equal it
void vf_tag(int expect, int how);
}

enum class E64: long long { a };

#define NOINLINE __attribute__((noinline))

template <typename F>
static void see(int expect, int how, const F &f)
{
    vf_tag(expect, how);
    vf_obj(&f, sizeof(f), f.data(), f.c_str(), f.size(), f.length());
}

template <typename F>
union Slot
{
    char raw[sizeof(F)];
    F f;
    Slot() {}
    ~Slot() {}
};

template <typename F, typename T> NOINLINE static void copied(Slot<F> *o, T v) { F src(v); new (&o->f) F(src); }
template <typename F, typename T> NOINLINE static void moved(Slot<F> *o, T v) { F src(v); new (&o->f) F(std::move(src)); }
template <typename F, typename T> NOINLINE static void assigned(F *o, T v) { F src(v); *o = src; }
template <typename F, typename T> NOINLINE static void moveassigned(F *o, T v) { F src(v); *o = std::move(src); }
template <typename F, typename T> NOINLINE static void fromtemp(F *o, T v) { *o = F(v); }
template <typename F, typename T> NOINLINE static F pick(bool first, T v, T w) { F a(v), b(w); if (first) return a; return b; }
template <typename F> NOINLINE static F pass(F f) { return f; }
template <typename F> NOINLINE static void overwrite(F *o, const F &src) { *o = src; }

template <typename F, typename T>
static void run(T v, T w)
{
    F a(v), z(w);
    see(0, 0, a);
    see(1, 0, z);
    {
        Slot<F> o;
        copied<F, T>(&o, v);
        see(2, 1, o.f);
    }
    {
        Slot<F> o;
        moved<F, T>(&o, v);
        see(2, 2, o.f);
    }
    {
        F o(w);
        assigned<F, T>(&o, v);
        see(2, 3, o);
        assigned<F, T>(&o, w);
        see(3, 3, o);
    }
    {
        F o(w);
        moveassigned<F, T>(&o, v);
        see(2, 4, o);
    }
    {
        F o(w);
        fromtemp<F, T>(&o, v);
        see(2, 5, o);
    }
    {
        F o(pick<F, T>(true, v, w));
        see(2, 6, o);
        F p(pick<F, T>(false, v, w));
        see(3, 6, p);
    }
    {
        F o(pass<F>(a));
        see(2, 7, o);
    }
    {
        F c(a), d(c);
        overwrite<F>(&c, z);
        see(2, 8, d);
        see(3, 8, c);
        see(2, 9, a);
        see(3, 9, z);
    }
    {
        F o(v);
        overwrite<F>(&o, o);
        see(2, 10, o);
    }
    see(2, 11, a);
    see(3, 11, z);
}

// the second text is short in one run and long in the other
#define COPIES(N, T, F, S, L)                                              \
    extern "C" void e_cps_##N(T v) { run<lexi::F, T>(v, S); }              \
    extern "C" void e_cpl_##N(T v) { run<lexi::F, T>(v, L); }
#define INT(N, T) COPIES(N, T, FormatInt, static_cast<T>(7), std::numeric_limits<T>::min())

INT(schar, signed char)
INT(uchar, unsigned char)
INT(short, short)
INT(ushort, unsigned short)
INT(int, int)
INT(uint, unsigned int)
INT(long, long)
INT(ulong, unsigned long)
INT(llong, long long)
INT(ullong, unsigned long long)
COPIES(e64, E64, FormatEnum, E64(3), E64(-1234567890123456789LL))
COPIES(bool, bool, FormatBool, true, false)
COPIES(char, char, FormatChar, 'x', '\0')
COPIES(null, std::nullptr_t, FormatNull, nullptr, nullptr)
COPIES(float, float, FormatFloat, 0.0f, -std::numeric_limits<float>::infinity())
COPIES(double, double, FormatFloat, 0.0, -std::numeric_limits<double>::infinity())
COPIES(ldouble, long double, FormatFloat, 0.0L, -std::numeric_limits<long double>::infinity())
