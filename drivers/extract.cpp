// Entry points of the extraction side: from any string, and from a formatted value.
#include "lexi/lexi.hpp"
#include <ios>

extern "C" {
void vf_s(int tag, long long v);
void vf_u(int tag, unsigned long long v);
void vf_f(int tag, float v);
void vf_d(int tag, double v);
void vf_l(int tag, long double v);
void vf_begin(int tag);
void vf_end(int tag);
}

enum class E8: signed char { a };
enum class EU8: unsigned char { a };
enum class E16: short { a };
enum class EC: char { a };
enum class EW: wchar_t { a };
enum class EU32: unsigned int { a };
enum class E64: long long { a };
enum class EU64: unsigned long long { a };

static void out(int t, signed char v) { vf_s(t, v); }
static void out(int t, unsigned char v) { vf_u(t, v); }
static void out(int t, short v) { vf_s(t, v); }
static void out(int t, unsigned short v) { vf_u(t, v); }
static void out(int t, int v) { vf_s(t, v); }
static void out(int t, unsigned int v) { vf_u(t, v); }
static void out(int t, long v) { vf_s(t, v); }
static void out(int t, unsigned long v) { vf_u(t, v); }
static void out(int t, long long v) { vf_s(t, v); }
static void out(int t, unsigned long long v) { vf_u(t, v); }
static void out(int t, char v) { vf_u(t, static_cast<unsigned char>(v)); }
static void out(int t, bool v) { vf_u(t, v); }
static void out(int t, std::nullptr_t v) { vf_u(t, v == nullptr ? 1 : 0); }
static void out(int t, float v) { vf_f(t, v); }
static void out(int t, double v) { vf_d(t, v); }
static void out(int t, long double v) { vf_l(t, v); }
static void out(int t, std::streampos v) { vf_s(t, std::streamoff(v)); }
static void out(int t, EC v) { vf_s(t, static_cast<char>(v)); }
template <typename E, typename = lexi::enable_if_t<std::is_enum<E>::value>>
static void out(int t, E v) { out(t, static_cast<lexi::underlying_type_t<E>>(v)); }

// object extraction, free function on a string, free function on a C string
#define EXTRACT(N, T, X)                                                     \
    extern "C" void e_ex_##N(const std::string &s) { out(0, static_cast<T>(lexi::X(s))); } \
    extern "C" void e_exf_##N(const std::string &s) { out(0, lexi::lexi<T>(s)); } \
    extern "C" void e_exc_##N(const std::string &s) { out(0, lexi::lexi<T>(s.c_str())); }

#define ROUND(N, T, C)                                                       \
    extern "C" void e_rt_##N(T v)                                            \
    {                                                                        \
        lexi::C f(v);                                                        \
        std::string s = f.string();                                          \
        out(0, lexi::lexi<T>(s));                                            \
    }                                                                        \
    extern "C" void e_rtf_##N(T v) { out(0, lexi::lexi<T>(lexi::lexi(v))); }  \
    extern "C" void e_rtc_##N(T v)                                           \
    {                                                                        \
        lexi::C f(v);                                                        \
        out(0, lexi::lexi<T>(f.c_str()));                                    \
    }

EXTRACT(schar, signed char, ExtractInt)
EXTRACT(uchar, unsigned char, ExtractInt)
EXTRACT(short, short, ExtractInt)
EXTRACT(ushort, unsigned short, ExtractInt)
EXTRACT(int, int, ExtractInt)
EXTRACT(uint, unsigned int, ExtractInt)
EXTRACT(long, long, ExtractInt)
EXTRACT(ulong, unsigned long, ExtractInt)
EXTRACT(llong, long long, ExtractInt)
EXTRACT(ullong, unsigned long long, ExtractInt)
EXTRACT(e8, E8, ExtractEnum)
EXTRACT(eu8, EU8, ExtractEnum)
EXTRACT(e16, E16, ExtractEnum)
EXTRACT(ec, EC, ExtractEnum)
EXTRACT(ew, EW, ExtractEnum)
EXTRACT(eu32, EU32, ExtractEnum)
EXTRACT(e64, E64, ExtractEnum)
EXTRACT(eu64, EU64, ExtractEnum)
EXTRACT(bool, bool, ExtractBool)
EXTRACT(char, char, ExtractChar)
EXTRACT(float, float, ExtractFloat)
EXTRACT(double, double, ExtractFloat)
EXTRACT(ldouble, long double, ExtractFloat)

extern "C" void e_exf_fpos(const std::string &s) { out(0, lexi::lexi<std::streampos>(s)); }
extern "C" void e_exc_fpos(const std::string &s) { out(0, lexi::lexi<std::streampos>(s.c_str())); }
extern "C" void e_ex_null(const std::string &s) { out(0, lexi::ExtractNull(s).null()); }
extern "C" void e_ex_nullop(const std::string &s) { lexi::ExtractNull x(s); out(0, static_cast<std::nullptr_t>(x)); }
extern "C" void e_exf_null(const std::string &s) { out(0, lexi::lexi<std::nullptr_t>(s)); }
extern "C" void e_exc_null(const std::string &s) { out(0, lexi::lexi<std::nullptr_t>(s.c_str())); }
extern "C" void e_ex_charu(const std::string &s) { out(0, static_cast<unsigned char>(lexi::ExtractChar(s))); }

ROUND(schar, signed char, FormatInt)
ROUND(uchar, unsigned char, FormatInt)
ROUND(short, short, FormatInt)
ROUND(ushort, unsigned short, FormatInt)
ROUND(int, int, FormatInt)
ROUND(uint, unsigned int, FormatInt)
ROUND(long, long, FormatInt)
ROUND(ulong, unsigned long, FormatInt)
ROUND(llong, long long, FormatInt)
ROUND(ullong, unsigned long long, FormatInt)
ROUND(e8, E8, FormatEnum)
ROUND(eu8, EU8, FormatEnum)
ROUND(e16, E16, FormatEnum)
ROUND(ec, EC, FormatEnum)
ROUND(ew, EW, FormatEnum)
ROUND(eu32, EU32, FormatEnum)
ROUND(e64, E64, FormatEnum)
ROUND(eu64, EU64, FormatEnum)
ROUND(bool, bool, FormatBool)
ROUND(char, char, FormatChar)
ROUND(null, std::nullptr_t, FormatNull)
extern "C" void e_rtf_fpos(long long v)
{
    std::streampos p(v);
    out(0, lexi::lexi<std::streampos>(lexi::lexi(p)));
}
