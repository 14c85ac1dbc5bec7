"""C16: compile-time routing, decided by the compilers' type checkers over witness units and by the call graph."""
import os, re
from concurrent.futures import ThreadPoolExecutor
from .common import *
from .ints import _M, prepare

PRE = '''#include "lexi/lexi.hpp"
#include <ios>
#include <vector>
#include <utility>
#include <type_traits>
enum Plain { plain_a };
enum Wide: unsigned long long { wide_a };
enum class Scoped { a };
enum class Small: signed char { a };
struct S { int i; };
struct ToInt { operator int() const; };
struct ToStr { operator std::string() const; };
union U { int i; };
enum class OfBool: bool { a };
enum class OfChar: char { a };
enum class OfWide: wchar_t { a };
enum class OfUChar: unsigned char { a };
enum OfLong: long { of_long_a };
struct DerivedStr: std::string { using std::string::string; };
struct Twice: DerivedStr { };
struct Outer { enum In { x }; enum class InClass { x }; };
typedef void (*FunctionPtr)(int);
typedef int S::*MemberPtr;
'''
T_INT = ['signed char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned int', 'long', 'unsigned long', 'long long', 'unsigned long long']
FMT = {'std::nullptr_t': 'FormatNull', 'bool': 'FormatBool', 'char': 'FormatChar', 'float': 'FormatFloat', 'double': 'FormatFloat', 'long double': 'FormatFloat',
       'Plain': 'FormatEnum', 'Wide': 'FormatEnum', 'Scoped': 'FormatEnum', 'Small': 'FormatEnum', 'OfBool': 'FormatEnum', 'OfChar': 'FormatEnum', 'OfWide': 'FormatEnum', 'OfUChar': 'FormatEnum',
       'OfLong': 'FormatEnum', 'Outer::In': 'FormatEnum', 'Outer::InClass': 'FormatEnum', 'std::streampos': 'FormatInt', 'std::wstreampos': 'FormatInt'}
FMT.update({t: 'FormatInt' for t in T_INT})
ALIAS = ['int8_t', 'uint8_t', 'int16_t', 'uint16_t', 'int32_t', 'uint32_t', 'int64_t', 'uint64_t', 'size_t', 'ptrdiff_t', 'intmax_t', 'uintmax_t', 'intptr_t', 'uintptr_t', 'std::streamoff']
FMT.update({t: 'FormatInt' for t in ALIAS})
STRINGS = ['std::string', 'const std::string', 'const char *', 'char *', 'const char * const', 'char * const', 'char[6]', 'const char[6]', 'const char[1]', 'DerivedStr', 'const DerivedStr', 'Twice']
REJECT = {'int *': 'int *', 'const int *': 'const int *', 'void *': 'void *', 'const void *': 'const void *', 'unsigned char *': 'unsigned char *',
          'signed char *': 'signed char *', 'wchar_t': 'wchar_t', 'char16_t': 'char16_t', 'char32_t': 'char32_t', 'wchar_t *': 'const wchar_t *', 'a class': 'S',
          'a class convertible to int': 'ToInt', 'a class convertible to a string': 'ToStr', 'a union': 'U', 'std::wstring': 'std::wstring', 'std::vector<int>': 'std::vector<int>',
          'std::vector<char>': 'std::vector<char>', 'a pointer to bool': 'bool *', 'a pointer to a pointer': 'char **', 'std::pair': 'std::pair<int, int>',
          'a function pointer': 'FunctionPtr', 'a pointer to member': 'MemberPtr', 'std::u16string': 'std::u16string', 'a pointer to a string': 'std::string *',
          'std::vector<bool>': 'std::vector<bool>', 'std::initializer_list<int>': 'std::initializer_list<int>', 'a pointer to an enum': 'Plain *'}


def positive():
    """[(line of code, what it witnesses)]"""
    out = []

    def cv(t):
        return [t, 'const ' + t] if 'streampos' in t else [t, 'const ' + t, 'volatile ' + t, 'const volatile ' + t]
    for t, f in FMT.items():
        for q in cv(t):
            for ref in ('&', '&&'):
                if ref == '&&' and 'volatile' in q:
                    continue
                out.append(('static_assert(std::is_same<decltype(lexi::Format()(std::declval<%s %s>())), lexi::%s>::value, "");' % (q, ref, f),
                            'formatting %s %s selects %s' % (q, ref, f)))
        for q in [t, 'const ' + t]:
            for fn in ('lexi', 'string', 'escape', 'jsonify'):
                n = len(out)
                out.append(('static_assert(std::is_same<decltype(lexi::%s(std::declval<%s &>())), std::string>::value, ""); std::string use_%d(%s &x) { return lexi::%s(x); }' % (fn, q, n, q, fn),
                            'lexi::%s(%s &) is a std::string' % (fn, q)))
        for a in ('const std::string &', 'std::string', 'const char *', 'const char (&)[4]'):
            n = len(out)
            out.append(('static_assert(std::is_same<decltype(lexi::lexi<%s>(std::declval<%s>())), %s>::value, ""); %s use_%d(%s x) { return lexi::lexi<%s>(x); }' % (t, a, t, t, n, a.replace('(&)[4]', '*'), t),
                        'lexi::lexi<%s>(%s) is a %s' % (t, a, t)))
        out.append(('static_assert(std::is_same<decltype(lexi::Extract<%s>()(std::declval<const std::string &>())), %s>::value, "");' % (t, t), 'Extract<%s> yields %s' % (t, t)))
    for t in STRINGS:
        for fn in ('lexi', 'string', 'escape', 'jsonify'):
            n = len(out)
            out.append(('using str_%d = %s; static_assert(std::is_same<decltype(lexi::%s(std::declval<str_%d &>())), std::string>::value, ""); std::string use_%d(str_%d &x) { return lexi::%s(x); }'
                        % (n, alias(t), fn, n, n, n, fn), 'lexi::%s of a string (%s) is a std::string' % (fn, t)))
    for fn in ('lexi', 'string', 'escape', 'jsonify'):
        n = len(out)
        out.append(('std::string use_%d() { return lexi::%s("literal"); }' % (n, fn), 'lexi::%s accepts a string literal' % fn))
    return out


def alias(t):
    return t


def negative():
    """[(code, what)]: each must not compile"""
    out = []
    for nm, t in REJECT.items():
        out.append(('void use(%s &x) { lexi::Format()(x); }' % t, 'formatting %s' % nm))
        for fn in ('lexi', 'string', 'escape', 'jsonify'):
            out.append(('std::string use(%s &x) { return lexi::%s(x); }' % (t, fn), 'lexi::%s of %s' % (fn, nm)))
        if nm not in ('a class convertible to a string',):
            out.append(('void use(const std::string &s) { (void) lexi::lexi<%s>(s); }' % t, 'extracting %s' % nm))
    out.append(('void use(int (&x)[3]) { lexi::lexi(x); }', 'lexi::lexi of an array of int'))
    return out


COMPILERS = {'clang++': [build.CXX, '-std=c++14', '-w', '-ferror-limit=0'], 'g++': ['g++', '-std=c++14', '-w', '-fmax-errors=0']}


def compile_(cc, code, nm):
    d = os.path.join(build.tmpdir(), 'witness')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, nm + '_' + cc.replace('+', 'p') + '.cpp')
    with open(p, 'w') as f:
        f.write(code)
    r = build.run(COMPILERS[cc] + ['-include', 'cstdint', '-I' + build.REPO + '/include', '-fsyntax-only', p])
    return r.returncode == 0, r.stderr, p


def lib_location(err):
    m = re.search(r'(%s/include/[\w/.]+):(\d+)' % re.escape(build.REPO), err)
    return (m.group(1), int(m.group(2))) if m else None


def anchor():
    return os.path.join(build.REPO, 'include/lexi/lexi.hpp')


def pos_task(cc):
    r = Result()
    P = positive()
    base = PRE.count('\n') + 1
    ok, err, p = compile_(cc, PRE + '\n'.join(c for c, _ in P) + '\n', 'positive')
    bad = {}
    if not ok:
        # every error is attributed to the witness line that needed it
        for blk in re.split(r'(?m)^(?=\S+: (?:In|error)|\S+:\d+:\d+: error)', err):
            for m in re.finditer(re.escape(p) + r':(\d+)', blk):
                i = int(m.group(1)) - base
                if 0 <= i < len(P):
                    bad.setdefault(i, blk)
    for i, (c, what) in enumerate(P):
        # attribution is confirmed by compiling the witness alone
        if i in bad and len(r.violations) < 10:
            ok1, err1, p1 = compile_(cc, PRE + c + '\n', 'one%d' % i)
            if not ok1:
                r.ob('routed', False)
                m = re.search(r'error: (.*)', err1)
                r.violation('routed', '%s: does not hold (%s)' % (what, m.group(1)[:200] if m else ''), lib_location(err1) or (anchor(), 0), 'overload resolution by ' + cc, None, None, None, cc, 'witness: ' + c)
                continue
        r.ob('routed', True)
    if not ok and not r.violations:
        r.unknown('routed', 'the witness unit does not compile with %s: %s' % (cc, err[:300]))
    r.samples.append('%s: %d routing witnesses, e.g. %s' % (cc, len(P), P[0][0]))
    return r


def neg_task(cc, cases):
    r = Result()
    for i, (c, what) in cases:
        ok, err, p = compile_(cc, PRE + c + '\n', 'neg%d' % i)
        r.ob('does-not-compile', not ok)
        if ok:
            r.violation('does-not-compile', '%s compiles' % what, (anchor(), 0), 'overload resolution by ' + cc, None, None, None, cc, 'witness: ' + c)
    r.samples.append('%s: must not compile: %s' % (cc, cases[0][1][0]))
    return r


# ---------------------------------------------------------------- extraction routes
EXTRACT = {'bool': 'ExtractBool', 'char': 'ExtractChar', 'null': 'ExtractNull', 'float': 'ExtractFloat', 'double': 'ExtractFloat', 'ldouble': 'ExtractFloat', 'fpos': 'ExtractInt'}
EXTRACT.update({n: 'ExtractInt' for n in INTS})
EXTRACT.update({n: 'ExtractEnum' for n in ENUMS})


def graph_task(key, cfg):
    from .effects import reach
    M = _M[key]
    r = Result()
    for n, want in EXTRACT.items():
        for pre in ('e_exf_', 'e_exc_'):
            e = pre + n
            if e not in M.functions:
                continue
            seen = reach(M, [e])
            cls = set()
            for g, via in seen.items():
                f = M.functions.get(g) or M.declares.get(g)
                m = re.match(r'lexi::(Extract\w+)::\1\(', (f.dem or '') if f else '')
                if m:
                    cls.add(m.group(1))
            allowed = {want} | ({'ExtractInt'} if want == 'ExtractEnum' else set())
            ok = want in cls and cls <= allowed
            if not cls:
                r.unknown('extraction-route', 'no extractor object on the way from %s' % e)
                continue
            if want == 'ExtractEnum' and cls == {'ExtractInt'}:
                ok = True
            r.ob('extraction-route', ok)
            if not ok:
                r.violation('extraction-route', 'extracting %s goes through %s instead of %s' % (n, ', '.join(sorted(cls)), want), (anchor(), 0), e, None, None, None, cfg, e)
    r.samples.append('extraction routes of %d types from the call graph' % len(EXTRACT))
    return r


def C16(tier, seed):
    for cc in COMPILERS:
        ok, err, p = compile_(cc, PRE, 'base')
        if not ok:
            raise build.BuildError('the public header does not compile: ' + err[-2000:])
    try:
        prepare(['extract.cpp'], {'gcc': build.GCC})
    except build.DriverError:
        pass                    # some type cannot be extracted at all: the witnesses below say which
    N = list(enumerate(negative()))
    tasks = []
    for cc in COMPILERS:
        tasks.append((pos_task, (cc,), 'positive/' + cc))
        for i in range(0, len(N), 8):
            tasks.append((neg_task, (cc, N[i:i + 8]), 'negative/' + cc))
    for k in list(_M):
        tasks.append((graph_task, (k, k[1]), 'routes'))
    return tasks, list(COMPILERS), 100
