// Extractors that outlive, or are copied around without, the string they were made from.
#include "lexi/lexi.hpp"
#include <ios>
#include <new>
#include <utility>

extern "C" {
void vf_s(int tag, long long v);
void vf_u(int tag, unsigned long long v);
void vf_f(int tag, float v);
void vf_d(int tag, double v);
void vf_l(int tag, long double v);
void vf_src(const std::string *s);
}

enum class E8: signed char { a };
enum class EU32: unsigned int { a };
enum class E64: long long { a };

static void out(int t, signed char v) { vf_s(t, v); }
static void out(int t, unsigned char v) { vf_u(t, v); }
static void out(int t, short v) { vf_s(t, v); }
static void out(int t, unsigned short v) { vf_u(t, v); }
static void out(int t, int v) { vf_s(t, v); }
static void out(int t, unsigned int v) { vf_u(t, v); }
static void out(int t, long v) { vf_s(t, v); }
static void out(int t, unsigned long v) { vf_u(t, v); }
static void out(int t, long long v) { vf_s(t, v); }
static void out(int t, unsigned long long v) { vf_u(t, v); }
static void out(int t, char v) { vf_u(t, static_cast<unsigned char>(v)); }
static void out(int t, bool v) { vf_u(t, v); }
static void out(int t, std::nullptr_t v) { vf_u(t, v == nullptr ? 1 : 0); }
static void out(int t, float v) { vf_f(t, v); }
static void out(int t, double v) { vf_d(t, v); }
static void out(int t, long double v) { vf_l(t, v); }
template <typename E, typename = lexi::enable_if_t<std::is_enum<E>::value>>
static void out(int t, E v) { out(t, static_cast<lexi::underlying_type_t<E>>(v)); }

#define NOINLINE __attribute__((noinline))

template <typename X>
union Slot
{
    char raw[sizeof(X)];
    X x;
    Slot() {}
    ~Slot() {}
};

template <typename X> NOINLINE static void built(Slot<X> *o, const std::string &s) { std::string t(s); new (&o->x) X(t); }
template <typename X> NOINLINE static void temp(Slot<X> *o, const std::string &s) { new (&o->x) X(std::string(s)); }
template <typename X> NOINLINE static void copied(Slot<X> *o, const std::string &s) { std::string t(s); X src(t); new (&o->x) X(src); }
template <typename X> NOINLINE static void moved(Slot<X> *o, const std::string &s) { std::string t(s); X src(t); new (&o->x) X(std::move(src)); }
template <typename X> NOINLINE static void assigned(X *o, const std::string &s) { std::string t(s); X src(t); *o = src; }
template <typename X> NOINLINE static void fromtemp(X *o, const std::string &s) { *o = X(s); }
template <typename X> NOINLINE static X make(const std::string &s) { std::string t(s); X a(t); return a; }
template <typename X> NOINLINE static X pass(X x) { return x; }

template <typename T, typename X>
static void run(const std::string &s, const char *other)
{
    const X first(s);
    out(0, static_cast<T>(first));
    out(1, static_cast<T>(first));
    {
        Slot<X> o;
        built<X>(&o, s);
        out(2, static_cast<T>(o.x));
        out(2, static_cast<T>(o.x));
    }
    {
        Slot<X> o;
        temp<X>(&o, s);
        out(3, static_cast<T>(o.x));
    }
    {
        std::string t(s);
        X x(t);
        t = other;
        out(4, static_cast<T>(x));
        X y(t);
        out(5, static_cast<T>(x));
        t = s;
        vf_src(&t);
        X z(t);
        vf_src(&t);
        out(1, static_cast<T>(z));
    }
    {
        Slot<X> o;
        copied<X>(&o, s);
        out(6, static_cast<T>(o.x));
    }
    {
        Slot<X> o;
        moved<X>(&o, s);
        out(7, static_cast<T>(o.x));
    }
    {
        X o((std::string(other)));
        assigned<X>(&o, s);
        out(8, static_cast<T>(o));
        fromtemp<X>(&o, std::string(other));
        out(5, static_cast<T>(first));
        fromtemp<X>(&o, s);
        out(9, static_cast<T>(o));
    }
    {
        X o(pass<X>(make<X>(s)));
        out(10, static_cast<T>(o));
        X p(o);
        o = X(std::string(other));
        out(11, static_cast<T>(p));
        p = *&p;
        out(12, static_cast<T>(p));
    }
    out(5, static_cast<T>(first));
}

#define OWN(N, T, X, O) extern "C" void e_own_##N(const std::string &s) { run<T, lexi::X>(s, O); }
OWN(schar, signed char, ExtractInt, "7")
OWN(uchar, unsigned char, ExtractInt, "7")
OWN(short, short, ExtractInt, "7")
OWN(ushort, unsigned short, ExtractInt, "7")
OWN(int, int, ExtractInt, "7")
OWN(uint, unsigned int, ExtractInt, "7")
OWN(long, long, ExtractInt, "7")
OWN(ulong, unsigned long, ExtractInt, "7")
OWN(llong, long long, ExtractInt, "7")
OWN(ullong, unsigned long long, ExtractInt, "7")
OWN(e8, E8, ExtractEnum, "7")
OWN(eu32, EU32, ExtractEnum, "7")
OWN(e64, E64, ExtractEnum, "7")
OWN(float, float, ExtractFloat, "0.5")
OWN(double, double, ExtractFloat, "0.5")
OWN(ldouble, long double, ExtractFloat, "0.5")
OWN(bool, bool, ExtractBool, "true")
OWN(boolf, bool, ExtractBool, "false")
OWN(char, char, ExtractChar, "!")
OWN(charu, unsigned char, ExtractChar, "!")
OWN(null, std::nullptr_t, ExtractNull, "null")

// one object, every target type in two orders: no conversion disturbs another
template <typename X>
static void ints(int k, const X &x)
{
    out(k, static_cast<long long>(x)); out(k + 1, static_cast<unsigned long long>(x));
    out(k + 2, static_cast<signed char>(x)); out(k + 3, static_cast<unsigned char>(x));
    out(k + 4, static_cast<short>(x)); out(k + 5, static_cast<unsigned short>(x));
    out(k + 6, static_cast<int>(x)); out(k + 7, static_cast<unsigned int>(x));
    out(k + 8, static_cast<long>(x)); out(k + 9, static_cast<unsigned long>(x));
}

extern "C" void e_all_int(const std::string &s)
{
    const lexi::ExtractInt x(s);
    ints(20, x);
    ints(20, x);
}

extern "C" void e_all_float(const std::string &s)
{
    const lexi::ExtractFloat x(s);
    for (int i = 0; i < 2; i++) {
        out(20, static_cast<float>(x)); out(21, static_cast<double>(x)); out(22, static_cast<long double>(x));
    }
    out(21, static_cast<double>(x)); out(20, static_cast<float>(x));
}
