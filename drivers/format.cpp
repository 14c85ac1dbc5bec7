// Entry points that the analysis starts from: every public way to format a value.
#include "lexi/lexi.hpp"
#include <ios>

extern "C" {
// one formatter object: its storage and all its views
void vf_obj(const void *self, size_t selfsize, const char *data, const char *cstr, size_t size, size_t length);
// a string result
void vf_str(int tag, const std::string *s);
}

enum class E8: signed char { a };
enum class EU8: unsigned char { a };
enum class E16: short { a };
enum class EC: char { a };
enum class EW: wchar_t { a };
enum class EU32: unsigned int { a };
enum class E64: long long { a };
enum class EU64: unsigned long long { a };
enum Plain { plain_a, plain_b = -5 };

template <typename Fm>
static void views(const Fm &f)
{
    vf_obj(&f, sizeof(f), f.data(), f.c_str(), f.size(), f.length());
}

#define FMT(N, T, C)                                                       \
    extern "C" void e_fmt_##N(T v) { lexi::C f(v); views(f); }             \
    extern "C" void e_str_##N(T v)                                         \
    {                                                                      \
        lexi::C f(v);                                                      \
        views(f);                                                          \
        std::string a = f.string();                                        \
        vf_str(0, &a);                                                     \
        std::string b = static_cast<std::string>(f);                       \
        vf_str(1, &b);                                                     \
        std::string c = f.escape();                                        \
        vf_str(2, &c);                                                     \
        std::string d = f.jsonify();                                       \
        vf_str(3, &d);                                                     \
    }                                                                      \
    extern "C" void e_free_##N(T v)                                        \
    {                                                                      \
        lexi::C f(v);                                                      \
        views(f);                                                          \
        std::string a = lexi::lexi(v);                                     \
        vf_str(0, &a);                                                     \
        std::string b = lexi::string(v);                                   \
        vf_str(1, &b);                                                     \
        std::string c = lexi::escape(v);                                   \
        vf_str(2, &c);                                                     \
        std::string d = lexi::jsonify(v);                                  \
        vf_str(3, &d);                                                     \
        auto g = lexi::Format()(v);                                        \
        views(g);                                                          \
    }

FMT(schar, signed char, FormatInt)
FMT(uchar, unsigned char, FormatInt)
FMT(short, short, FormatInt)
FMT(ushort, unsigned short, FormatInt)
FMT(int, int, FormatInt)
FMT(uint, unsigned int, FormatInt)
FMT(long, long, FormatInt)
FMT(ulong, unsigned long, FormatInt)
FMT(llong, long long, FormatInt)
FMT(ullong, unsigned long long, FormatInt)
FMT(e8, E8, FormatEnum)
FMT(eu8, EU8, FormatEnum)
FMT(e16, E16, FormatEnum)
FMT(ec, EC, FormatEnum)
FMT(ew, EW, FormatEnum)
FMT(eu32, EU32, FormatEnum)
FMT(e64, E64, FormatEnum)
FMT(eu64, EU64, FormatEnum)
FMT(bool, bool, FormatBool)
FMT(char, char, FormatChar)
FMT(null, std::nullptr_t, FormatNull)
FMT(float, float, FormatFloat)
FMT(double, double, FormatFloat)
FMT(ldouble, long double, FormatFloat)

extern "C" void e_fmt_null0() { lexi::FormatNull f; views(f); }
extern "C" void e_fmt_charu(unsigned char v) { lexi::FormatChar f(v); views(f); }
extern "C" void e_fmt_fpos(long long v)
{
    std::streampos p(v);
    auto f = lexi::Format()(p);
    views(f);
}
extern "C" void e_free_fpos(long long v)
{
    std::streampos p(v);
    auto f = lexi::Format()(p);
    views(f);
    std::string a = lexi::lexi(p);
    vf_str(0, &a);
    std::string b = lexi::string(p);
    vf_str(1, &b);
    std::string c = lexi::escape(p);
    vf_str(2, &c);
    std::string d = lexi::jsonify(p);
    vf_str(3, &d);
}
