// Entry points of the string side: escape, jsonify and the pass-through overloads.
#include "lexi/lexi.hpp"

extern "C" {
void vf_str(int tag, const std::string *s);
}

extern "C" void e_escape(const std::string &s)
{
    std::string r = lexi::escape(s);
    vf_str(0, &r);
}
extern "C" void e_jsonify(const std::string &s)
{
    std::string r = lexi::jsonify(s);
    vf_str(1, &r);
}
extern "C" void e_same(const std::string &s)
{
    std::string a = lexi::lexi(s);
    vf_str(2, &a);
    std::string b = lexi::string(s);
    vf_str(2, &b);
}
struct Derived: std::string
{
    using std::string::string;
    Derived(const std::string &s): std::string(s) {}
};
extern "C" void e_derived(const std::string &s)
{
    Derived d(s);
    std::string a = lexi::lexi(d);
    vf_str(2, &a);
    std::string b = lexi::string(d);
    vf_str(2, &b);
}
// C strings: the text up to the terminator
extern "C" void e_cstr(const std::string &s)
{
    const char *p = s.c_str();
    std::string a = lexi::lexi(p);
    vf_str(3, &a);
    std::string b = lexi::string(p);
    vf_str(3, &b);
}
extern "C" void e_cstr_escape(const std::string &s)
{
    const char *p = s.c_str();
    std::string a = lexi::escape(p);
    vf_str(4, &a);
}
extern "C" void e_cstr_jsonify(const std::string &s)
{
    const char *p = s.c_str();
    std::string a = lexi::jsonify(p);
    vf_str(5, &a);
}
extern "C" void e_char_escape(char c)
{
    lexi::FormatChar f(c);
    std::string a = f.escape();
    vf_str(0, &a);
    std::string b = lexi::escape(c);
    vf_str(0, &b);
}
extern "C" void e_char_jsonify(char c)
{
    lexi::FormatChar f(c);
    std::string a = f.jsonify();
    vf_str(1, &a);
    std::string b = lexi::jsonify(c);
    vf_str(1, &b);
}
