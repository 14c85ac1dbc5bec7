"""Models of the C and C++ runtime functions the code base calls."""
import re
from fractions import Fraction
from . import dom
from .dom import Poly, add, sub, mul, scale, neg, floor_div, mod, ge, eq, ne, c_not, c_and, c_or, TRUE, FALSE, INF, ATOMS
from .interp import (Split, Unsupported, PathEnd, UNDEF, Ptr, NULL, FnPtr, F, StrRec, Throw, Control, UndefUse, unc)

STR = 'STR'
RE_STR = re.compile(r'std::(?:__cxx11::)?basic_string<char, std::char_traits<char>, std::allocator<char> ?>')

LONG_FNS = {'strtol', 'strtoul', '__isoc23_strtol', '__isoc23_strtoul', 'atol', 'labs'}
EXC_PARENT = {
    'std::runtime_error': 'std::exception', 'std::logic_error': 'std::exception',
    'std::out_of_range': 'std::logic_error', 'std::length_error': 'std::logic_error',
    'std::invalid_argument': 'std::logic_error', 'std::domain_error': 'std::logic_error',
    'std::range_error': 'std::runtime_error', 'std::overflow_error': 'std::runtime_error',
    'std::underflow_error': 'std::runtime_error', 'std::bad_alloc': 'std::exception',
}


def norm_dem(d):
    return RE_STR.sub(STR, d)


def ti_name(sym):
    m = re.match(r'_ZTISt(\d+)(\w+)$', sym)
    if m:
        return 'std::' + m.group(2)[:int(m.group(1))]
    return sym


# ---------------------------------------------------------------- evaluable functions (for concretisation only)
def _strtoull(base, bs):
    """C strtoull on a byte tuple (terminated implicitly)"""
    i = 0
    n = len(bs)
    while i < n and bs[i] in (32, 9, 10, 11, 12, 13):
        i += 1
    negv = False
    if i < n and bs[i] in (43, 45):
        negv = bs[i] == 45
        i += 1

    def dv(c):
        if 48 <= c <= 57:
            return c - 48
        if 97 <= c <= 122:
            return c - 87
        if 65 <= c <= 90:
            return c - 55
        return 99
    if (base == 0 or base == 16) and i + 2 < n and bs[i] == 48 and bs[i + 1] in (120, 88) and dv(bs[i + 2]) < 16:
        i += 2
        base = 16
    elif base == 0:
        base = 8 if i < n and bs[i] == 48 else 10
    v = 0
    any_ = False
    while i < n and dv(bs[i]) < base:
        v = v * base + dv(bs[i])
        i += 1
        any_ = True
    return negv, v, any_


def strtof_end(bs):
    """number of bytes strtod consumes"""
    t = bytes(b & 255 for b in bs).split(b'\0')[0].decode('latin1')
    m = re.match(r'[ \t\n\v\f\r]*[+-]?(infinity|inf|nan(\([0-9a-zA-Z_]*\))?|0x([0-9a-f]+(\.[0-9a-f]*)?|\.[0-9a-f]+)(p[+-]?[0-9]+)?|([0-9]+(\.[0-9]*)?|\.[0-9]+)(e[+-]?[0-9]+)?)', t, re.I)
    return m.end() if m else 0


def strto_value(bs):
    """the number that strtod reads: (sign, 'nan' | 'inf' | Fraction)"""
    t = bs.split(b'\0')[0].decode('latin1')
    m = re.match(r'[ \t\n\v\f\r]*([+-]?)(.*)', t, re.S)
    sg, t = m.group(1) == '-', m.group(2)
    m = re.match(r'(inf(?:inity)?|nan)', t, re.I)
    if m:
        return sg, m.group(1)[:3].lower()
    m = re.match(r'0[xX]([0-9a-fA-F]*)(?:\.([0-9a-fA-F]*))?', t)
    if m and (m.group(1) or m.group(2)):
        i, f = m.group(1), m.group(2) or ''
        e = re.match(r'[pP]([+-]?[0-9]+)', t[m.end():])
        x = int(e.group(1)) if e else 0
        v = int(i + f, 16)
        return sg, Fraction(v) * Fraction(2) ** (max(min(x, 40000), -40000) - 4 * len(f)) if v else Fraction(0)
    m = re.match(r'([0-9]*)(?:\.([0-9]*))?', t)
    i, f = m.group(1), m.group(2) or ''
    if not i and not f:
        return False, Fraction(0)
    e = re.match(r'[eE]([+-]?[0-9]+)', t[m.end():])
    x = int(e.group(1)) if e else 0
    v = int(i + f)
    return sg, Fraction(v) * Fraction(10) ** (max(min(x, 20000), -20000) - len(f)) if v else Fraction(0)


FMTS = {'float': (24, -149, 128), 'double': (53, -1074, 1024), 'x86_fp80': (64, -16445, 16384)}


def round_to(v, fmt):
    """nearest-even rounding of a non-negative Fraction: Fraction or 'inf'"""
    p, emin, emax = FMTS[fmt]
    if not v:
        return v
    e = v.numerator.bit_length() - v.denominator.bit_length()
    if v < Fraction(2) ** e:
        e -= 1
    q = max(e - p + 1, emin)
    n = round(v / Fraction(2) ** q)
    r = n * Fraction(2) ** q
    return 'inf' if r >= Fraction(2) ** emax else r


def fconst(sg, v, fmt):
    """constant of the format"""
    if v == 'nan':
        return F('k', fmt, float('nan'))
    if v == 'inf':
        return F('k', fmt, float('-inf') if sg else float('inf'))
    try:
        d = float(v)
        if Fraction(d) == v:
            return F('k', fmt, -d if sg else d)
    except OverflowError:
        pass
    return F('t', fmt, ('ldk', sg, v))


def strto_const(bs, fmt):
    sg, v = strto_value(bs)
    return fconst(sg, round_to(v, fmt) if isinstance(v, Fraction) else v, fmt)


def ev_strto(kind, base, bs):
    bs = tuple(b & 255 for b in bs)
    if 0 in bs:
        bs = bs[:bs.index(0)]
    negv, v, any_ = _strtoull(base, bs)
    if not any_:
        return 0
    if kind == 'ull':
        if v >= 1 << 64:
            return (1 << 64) - 1
        return (-v) % (1 << 64) if negv else v
    bits = {'ll': 64, 'int': 32}[kind]
    v = -v if negv else v
    hi = (1 << 63) - 1
    v = max(min(v, hi), -hi - 1)
    if kind == 'int':
        return v & 0xffffffff
    return v % (1 << 64)


def _content(name):
    return dom.STRINGS[name]


def ev_sel(name, i):
    b = _content(name)
    return b[i] if 0 <= i < len(b) else 0


def ev_cstrlen(name, off):
    b = _content(name)[off:]
    return b.index(0) if 0 in b else len(b)


dom.EVAL_FN.update({
    'sel': ev_sel, 'cstrlen': ev_cstrlen, 'cmpne': lambda a, b: 1,
    'strto_sym': lambda kind, base, name, off: ev_strto(kind, base, tuple(_content(name)[off:])),
    'and': lambda a, b: a & b, 'or': lambda a, b: a | b, 'xor': lambda a, b: a ^ b,
    'clz': lambda w, a: w - a.bit_length(),
    'ctz': lambda w, a: (a & -a).bit_length() - 1 if a else w,
    'popcount': lambda a: bin(a).count('1'),
    'strto': ev_strto,
    'memcmp': lambda w, xs, ys: (-1 if xs < ys else 1 if xs > ys else 0),
})


def _prop_clz(st, at, lo, hi, depth):
    w, a = at.args[1]
    # clz in [lo,hi] -> bit_length in [w-hi, w-lo]
    bl_lo, bl_hi = w - hi, w - lo
    if isinstance(a, Poly):
        if bl_hi >= 0:
            st.propagate(sub((1 << bl_hi) - 1, a), depth + 1)
        if bl_lo > 0:
            st.propagate(sub(a, 1 << (bl_lo - 1)), depth + 1)


dom.PROP_FN['clz'] = _prop_clz


class Models:
    def __init__(self):
        self.tab = {}
        self.strtab = {}
        self.extra = {}
        for k in dir(self):
            if k.startswith('c_'):
                self.tab[k[2:]] = getattr(self, k)
        for nm in ('strtoull', '__isoc23_strtoull', 'strtoul', '__isoc23_strtoul', 'strtoumax'):
            self.tab[nm] = self.mk_strto('ull')
        for nm in ('strtoll', '__isoc23_strtoll', 'strtol', '__isoc23_strtol', 'strtoimax', '__isoc23_strtoimax'):
            self.tab[nm] = self.mk_strto('ll')
        for nm, b, fmt in (('strtod', 'strtod', 'double'), ('strtof', 'strtof', 'float'), ('strtold', 'strtold', 'x86_fp80'),
                           ('atof', 'strtod', 'double')):
            self.tab[nm] = self.mk_strtof(b, fmt)

    # -------------------------------------------------- lookup
    def lookup(self, I, name):
        if name.startswith('llvm.'):
            return self.intrinsic(I, name)
        if name in self.extra:
            return ('m', self.extra[name])
        narrow = I.M.ptrsize == 4
        if narrow and name in LONG_FNS:
            raise Unsupported('%s where long has 32 bits' % name)
        if name in self.tab:
            return ('m', self.tab[name])
        d = norm_dem(I.dem(name))
        if d.startswith(STR + '::'):
            h = self.string_method(d, narrow)
            if h is not None:
                return ('m', h)
            if name not in I.M.functions:
                raise Unsupported('std::string method %s' % d)
        if d.startswith('std::allocator<char>::') or d.startswith('std::__new_allocator<char>::') or \
                d.startswith('__gnu_cxx::new_allocator<char>::'):
            if re.search(r'::(~?(__)?(new_)?allocator)\(', d):
                return ('skip',)
        m = re.match(r'(std::\w+_error|std::out_of_range|std::invalid_argument|std::exception)::(~?)(\w+)\(', d)
        if m and (m.group(3) == m.group(1)[5:]):
            return ('m', self.exc_ctor if not m.group(2) else self.nop)
        if d.startswith('std::__throw_'):
            t = re.match(r'std::__throw_(\w+?)(?:_fmt)?\(', d).group(1)
            return ('m', lambda I, s, ins, a: Throw('std::' + t))
        if d.startswith('operator new'):
            return ('m', self.op_new)
        if d.startswith('operator delete'):
            return ('m', self.op_delete)
        return None

    def exc_matches(self, ty, sym):
        want = ti_name(sym)
        t = ty
        while t is not None:
            if t == want:
                return True
            t = EXC_PARENT.get(t)
        return False

    def nop(self, I, s, ins, a):
        return None

    def exc_ctor(self, I, s, ins, a):
        return None

    def op_new(self, I, s, ins, a):
        n = a[0]
        if not isinstance(n, int):
            n = I.uview(s, n, 64)
        o = s.new(n, 'heap', 'heap block')
        s.events.append(('alloc',))
        return Ptr(o.id, 0)

    def op_delete(self, I, s, ins, a):
        p = a[0]
        if p.obj is not None:
            s.w(p.obj).alive = False
        return None

    # -------------------------------------------------- intrinsics
    def intrinsic(self, I, name):
        b = name.split('.')
        k = b[1]
        if k in ('dbg', 'lifetime', 'assume', 'donothing', 'experimental', 'invariant', 'prefetch', 'stackrestore', 'annotation'):
            return ('skip',)
        if k == 'memcpy':
            return ('m', lambda I, s, ins, a: I.copy_mem(s, a[0], a[1], I.uview(s, a[2], 64), False))
        if k == 'memmove':
            return ('m', lambda I, s, ins, a: I.copy_mem(s, a[0], a[1], I.uview(s, a[2], 64), True))
        if k == 'memset':
            return ('m', lambda I, s, ins, a: I.set_mem(s, a[0], a[1], I.uview(s, a[2], 64)))
        if k in ('ctlz', 'cttz', 'ctpop'):
            return ('m', self.i_clz)
        if k == 'eh' and b[2] == 'typeid':
            return ('m', lambda I, s, ins, a: I.typeid(ins.a[1][0][1][1]))
        if k in ('umax', 'umin', 'smax', 'smin'):
            return ('m', self.i_minmax)
        if k == 'abs':
            return ('m', self.i_abs)
        if k == 'fabs':
            return ('m', self.i_fabs)
        if k in ('expect',):
            return ('m', lambda I, s, ins, a: a[0])
        if k == 'trap':
            return ('m', self.i_trap)
        if k in ('umul', 'uadd', 'usub', 'smul', 'sadd', 'ssub') and 'overflow' in b:
            return ('m', self.i_ovf)
        if k == 'is' and b[2] == 'constant':
            return ('m', lambda I, s, ins, a: 0)
        if k == 'objectsize':
            return ('m', lambda I, s, ins, a: (1 << 64) - 1)
        if k == 'fmuladd' or k == 'fma':
            return ('m', lambda I, s, ins, a: I.fbin(s, 'fadd', 'double', I.fbin(s, 'fmul', 'double', a[0], a[1]), a[2]))
        if k in ('floor', 'ceil', 'trunc', 'rint', 'nearbyint', 'round'):
            return ('m', self.i_fround)
        if k == 'bswap':
            return ('m', self.i_bswap)
        if k == 'fshl':
            return ('m', self.i_fshl)
        if k == 'is' and b[2] == 'fpclass':
            return ('m', self.i_fpclass)
        if k == 'copysign':
            return ('m', self.i_copysign)
        raise Unsupported('intrinsic ' + name)

    def i_trap(self, I, s, ins, a):
        I.report(s, 'trap', 'trap reached')
        raise PathEnd('violation')

    def i_fround(self, I, s, ins, a):
        import math
        v = a[0]
        if v.kind == 'k' and v.v == v.v and abs(v.v) < 2 ** 52:
            n = ins.a[0][1].split('.')[1]
            f = {'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc}.get(n)
            if f:
                return F('k', v.fmt, float(f(v.v)))
        raise Unsupported('rounding')

    def i_fpclass(self, I, s, ins, a):
        mask = a[1]
        v = a[0]
        if mask == 3:
            return I.fcmp(s, 'uno', v, v)
        inf = F('k', v.fmt, float('inf'))
        ninf = F('k', v.fmt, float('-inf'))
        if mask == 0x204:
            return I.boolop(s, 'or', I.fcmp(s, 'oeq', v, inf), I.fcmp(s, 'oeq', v, ninf))
        if mask == 0x200:
            return I.fcmp(s, 'oeq', v, inf)
        if mask == 0x4:
            return I.fcmp(s, 'oeq', v, ninf)
        if mask == 0x1f8:
            return I.boolop(s, 'and', I.fcmp(s, 'olt', v, inf), I.fcmp(s, 'ogt', v, ninf))
        raise Unsupported('is.fpclass %x' % mask)

    def i_fshl(self, I, s, ins, a):
        w = ins.ty[1]
        k = I.need_const(s, I.uview(s, a[2], w), limit=100) % w
        x, y = I.uview(s, I.num(s, a[0]), w), I.uview(s, I.num(s, a[1]), w)
        if k == 0:
            return x
        return add(scale(x, 1 << k), floor_div(y, 1 << (w - k), s.st))

    def i_bswap(self, I, s, ins, a):
        w = ins.ty[1]
        v = I.uview(s, I.num(s, a[0]), w)
        r = 0
        n = w // 8
        for i in range(n):
            r = add(r, scale(mod(floor_div(v, 1 << (8 * i), s.st), 256, s.st), 1 << (8 * (n - 1 - i))))
        return r

    def i_clz(self, I, s, ins, a):
        w = ins.ty[1]
        k = ins.a[0][1].split('.')[1]
        v = I.uview(s, I.num(s, a[0]), w)
        if isinstance(v, int):
            if k == 'ctlz':
                if v == 0 and a[1] == 1:
                    I.report(s, 'uninit', 'count leading zeros of zero is undefined')
                    return UNDEF
                return w - v.bit_length()
            if k == 'cttz':
                return (v & -v).bit_length() - 1 if v else w
            return bin(v).count('1')
        if k == 'ctlz':
            lo, hi = s.st.rng(v)
            if lo <= 0:
                z = eq(v)
                d = s.st.decide(z)
                if d is None:
                    raise Split([[z], [c_not(z)]])
                if d is True:
                    if a[1] == 1:
                        I.report(s, 'uninit', 'count leading zeros of zero is undefined')
                        return UNDEF
                    return w
            lo = max(lo, 1)
            if lo.bit_length() == hi.bit_length():
                return w - lo.bit_length()
            # partition on the bit length
            mid = (lo.bit_length() + hi.bit_length() + 1) // 2
            c = ge(sub(v, 1 << (mid - 1)))
            if s.st.decide(c) is None:
                raise Split([[c], [c_not(c)]])
            return dom.fn('clz', (w, v), w - hi.bit_length(), w - lo.bit_length())
        if k == 'cttz':
            return dom.fn('ctz', (w, v), 0, w)
        return dom.fn('popcount', (v,), 0, w)

    def i_minmax(self, I, s, ins, a):
        k = ins.a[0][1].split('.')[1]
        w = ins.ty[1]
        pred = ('u' if k[0] == 'u' else 's') + 'lt'
        lt = I.truth(s, I.icmp(s, pred, ins.ty, a[0], a[1]))
        if k[1:] == 'min':
            return a[0] if lt else a[1]
        return a[1] if lt else a[0]

    def i_abs(self, I, s, ins, a):
        w = ins.ty[1]
        v = I.sview(s, I.num(s, a[0]), w)
        if I.truth(s, unc(ge(v)) if not isinstance(v, int) else int(v >= 0)):
            return v
        return neg(v)

    def i_fabs(self, I, s, ins, a):
        v = a[0]
        x = v
        if x.kind == 'k':
            return F('k', x.fmt, abs(x.v))
        if x.kind == 'b':
            w = 64 if x.fmt == 'double' else 32
            p = I.uview(s, x.v, w)
            if I.truth(s, ge(sub(p, 1 << (w - 1)))):
                return F('b', x.fmt, sub(p, 1 << (w - 1)))
            return F('b', x.fmt, p)
        if x.kind == 't' and x.v[0] == 'ext':
            return F('t', x.fmt, ('ext', self.i_fabs(I, s, ins, [x.v[1]])))
        if x.kind == 't' and x.v[0] == 'ldk':
            return F('t', x.fmt, ('ldk', False, x.v[2]))
        if x.kind == 't' and x.v[0] in ('fneg', 'fabs'):
            return self.i_fabs(I, s, ins, [x.v[1]])
        return F('t', x.fmt, ('fabs', x))

    def i_copysign(self, I, s, ins, a):
        c = I.fclass(s, a[1])
        if c is None:
            raise Unsupported('copysign')
        x = self.i_fabs(I, s, ins, a[:1])
        return I.fneg(s, x) if c[1] else x

    def i_ovf(self, I, s, ins, a):
        nm = ins.a[0][1].split('.')[1]
        w = ins.ty[2][0][1] if ins.ty[0] == 'struct' else 64
        view = I.uview if nm[0] == 'u' else I.sview
        x, y = view(s, I.num(s, a[0]), w), view(s, I.num(s, a[1]), w)
        r = {'mul': mul, 'add': add, 'sub': sub}[nm[1:]](x, y)
        lo, hi = (0, (1 << w) - 1) if nm[0] == 'u' else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
        ok = c_and([ge(sub(r, lo)), ge(sub(hi, r))])
        if isinstance(r, int):
            r &= (1 << w) - 1
        return (r, unc(c_not(ok)))

    # -------------------------------------------------- C library
    def c_memcpy(self, I, s, ins, a):
        I.copy_mem(s, a[0], a[1], I.uview(s, a[2], 64), False)
        return a[0]

    def c_memmove(self, I, s, ins, a):
        I.copy_mem(s, a[0], a[1], I.uview(s, a[2], 64), True)
        return a[0]

    def c_memset(self, I, s, ins, a):
        I.set_mem(s, a[0], a[1], I.uview(s, a[2], 64))
        return a[0]

    def c_mempcpy(self, I, s, ins, a):
        n = I.need_const(s, I.uview(s, a[2], 64))
        I.copy_mem(s, a[0], a[1], n, False)
        return Ptr(a[0].obj, add(a[0].off, n), a[0].zlo, a[0].zhi)

    def rbyte(self, I, s, p, i):
        """byte at p+i with bounds check; splits/undef as usual"""
        v = I.load(s, Ptr(p.obj, add(p.off, i), p.zlo, p.zhi), ('int', 8))
        if v is UNDEF:
            raise UndefUse()
        return I.uview(s, I.num(s, v), 8)

    def strlen(self, I, s, p, limit=100000):
        if p is UNDEF or p.obj is None:
            I.bounds(s, p, 1, False, 'string argument')
        o = s.mem[p.obj]
        if o.lazy is not None:
            # first NUL is at or before the end; unknown
            name, N = o.lazy
            return dom.fn('cstrlen', (name, p.off), 0, s.st.rng(N)[1])
        i = 0
        while i < limit:
            v = self.rbyte(I, s, p, i)
            if isinstance(v, int):
                if v == 0:
                    return i
            else:
                z = eq(v)
                d = s.st.decide(z)
                if d is None:
                    raise Split([[z], [c_not(z)]])
                if d:
                    return i
            i += 1
        raise Unsupported('strlen')

    def c_strlen(self, I, s, ins, a):
        return self.strlen(I, s, a[0])

    def c_strcpy(self, I, s, ins, a):
        n = self.strlen(I, s, a[1])
        I.copy_mem(s, a[0], a[1], n + 1, False)
        return a[0]

    def c_stpcpy(self, I, s, ins, a):
        n = self.strlen(I, s, a[1])
        I.copy_mem(s, a[0], a[1], n + 1, False)
        return Ptr(a[0].obj, add(a[0].off, n), a[0].zlo, a[0].zhi)

    def c_strcat(self, I, s, ins, a):
        m = self.strlen(I, s, a[0])
        n = self.strlen(I, s, a[1])
        I.copy_mem(s, Ptr(a[0].obj, add(a[0].off, m), a[0].zlo, a[0].zhi), a[1], n + 1, False)
        return a[0]

    def c_strncpy(self, I, s, ins, a):
        n = I.need_const(s, I.uview(s, a[2], 64))
        m = 0
        while m < n:
            v = self.rbyte(I, s, a[1], m)
            if isinstance(v, int):
                if v == 0:
                    break
            else:
                z = eq(v)
                d = s.st.decide(z)
                if d is None:
                    raise Split([[z], [c_not(z)]])
                if d:
                    break
            m += 1
        I.bounds(s, a[0], n, True, 'strncpy destination')
        I.copy_mem(s, a[0], a[1], m, False)
        if n > m:
            I.set_mem(s, Ptr(a[0].obj, add(a[0].off, m), a[0].zlo, a[0].zhi), 0, n - m)
        return a[0]

    def c_memcmp(self, I, s, ins, a):
        n = I.need_const(s, I.uview(s, a[2], 64), limit=5000)
        if n == 0:
            return 0
        I.bounds(s, a[0], n, False, 'memcmp')
        I.bounds(s, a[1], n, False, 'memcmp')
        xo, yo = s.mem[a[0].obj], s.mem[a[1].obj]
        # 8-byte cells on both sides: keep whole words (equality only)
        if n % 8 == 0 and isinstance(a[0].off, int) and isinstance(a[1].off, int):
            xs = [xo.cells.get(a[0].off + i) for i in range(0, n, 8)]
            ys = [yo.cells.get(a[1].off + i) for i in range(0, n, 8)]
            if all(c is not None and c[0] == 8 and isinstance(c[1], (int, Poly)) for c in xs + ys) and \
                    any(isinstance(c[1], Poly) for c in xs + ys):
                xv = tuple(I.uview(s, c[1], 64) for c in xs)
                yv = tuple(I.uview(s, c[1], 64) for c in ys)
                return dom.fn('memcmp', (8, xv, yv), -1, 1)
        xs, ys = [], []
        for i in range(n):
            xs.append(self.rbyte(I, s, a[0], i))
            ys.append(self.rbyte(I, s, a[1], i))
        return self.cmp_bytes(I, s, ins, xs, ys)

    def cmp_bytes(self, I, s, ins, xs, ys):
        if all(isinstance(x, int) and isinstance(y, int) for x, y in zip(xs, ys)):
            return 0 if xs == ys else (1 if xs > ys else -1) & 0xffffffff
        return dom.fn('memcmp', (1, tuple(xs), tuple(ys)), -1, 1)

    c_bcmp = c_memcmp

    def c_strcmp(self, I, s, ins, a):
        return self._strncmp(I, s, ins, a[0], a[1], 1 << 30)

    def c_strncmp(self, I, s, ins, a):
        return self._strncmp(I, s, ins, a[0], a[1], I.need_const(s, I.uview(s, a[2], 64)))

    def _strncmp(self, I, s, ins, p, q, n, fold=None):
        i = 0
        while i < n:
            x, y = self.rbyte(I, s, p, i), self.rbyte(I, s, q, i)
            if fold:
                x, y = fold(I, s, x), fold(I, s, y)
            d = sub(x, y)
            c = eq(d)
            k = s.st.decide(c)
            if k is None:
                raise Split([[c], [c_not(c)]])
            if not k:
                g = ge(d)
                k2 = s.st.decide(g)
                if k2 is None:
                    raise Split([[g], [c_not(g)]])
                return 1 if k2 else 0xffffffff
            z = eq(x)
            k3 = s.st.decide(z)
            if k3 is None:
                raise Split([[z], [c_not(z)]])
            if k3:
                return 0
            i += 1
        return 0

    def c_memchr(self, I, s, ins, a):
        n = I.need_const(s, I.uview(s, a[2], 64))
        ch = I.uview(s, I.num(s, a[1]), 8)
        for i in range(n):
            v = self.rbyte(I, s, a[0], i)
            if I.truth(s, eq(sub(v, ch))):
                return Ptr(a[0].obj, add(a[0].off, i), a[0].zlo, a[0].zhi)
        return NULL

    def c_strchr(self, I, s, ins, a):
        ch = I.uview(s, I.num(s, a[1]), 8)
        for i in range(4096):
            v = self.rbyte(I, s, a[0], i)
            if I.truth(s, eq(sub(v, ch))):
                return Ptr(a[0].obj, add(a[0].off, i), a[0].zlo, a[0].zhi)
            if I.truth(s, eq(v)):
                return NULL
        raise Unsupported('strchr')

    # C locale character classes, byte-exact for ASCII; other bytes are locale dependent
    def _ctype(self, name, sets):
        def h(I, s, ins, a):
            v = I.sview(s, I.num(s, a[0]), 32)
            if isinstance(v, int):
                return int(any(l <= v <= u for l, u in sets))
            c = c_or([c_and([ge(sub(v, l)), ge(sub(u, v))]) for l, u in sets])
            return 1 if I.truth(s, unc(c)) else 0
        return h

    def c_isalnum(self, I, s, ins, a):
        return self._ctype('isalnum', [(48, 57), (65, 90), (97, 122)])(I, s, ins, a)

    def c_isdigit(self, I, s, ins, a):
        return self._ctype('isdigit', [(48, 57)])(I, s, ins, a)

    def c_isalpha(self, I, s, ins, a):
        return self._ctype('isalpha', [(65, 90), (97, 122)])(I, s, ins, a)

    def c_iscntrl(self, I, s, ins, a):
        return self._ctype('iscntrl', [(0, 31), (127, 127)])(I, s, ins, a)

    def c_isspace(self, I, s, ins, a):
        return self._ctype('isspace', [(9, 13), (32, 32)])(I, s, ins, a)

    def c_isprint(self, I, s, ins, a):
        return self._ctype('isprint', [(32, 126)])(I, s, ins, a)

    def c_ispunct(self, I, s, ins, a):
        return self._ctype('ispunct', [(33, 47), (58, 64), (91, 96), (123, 126)])(I, s, ins, a)

    def c_isxdigit(self, I, s, ins, a):
        return self._ctype('isxdigit', [(48, 57), (65, 70), (97, 102)])(I, s, ins, a)

    def c_isupper(self, I, s, ins, a):
        return self._ctype('isupper', [(65, 90)])(I, s, ins, a)

    def c_islower(self, I, s, ins, a):
        return self._ctype('islower', [(97, 122)])(I, s, ins, a)

    def c_isgraph(self, I, s, ins, a):
        return self._ctype('isgraph', [(33, 126)])(I, s, ins, a)

    def c_isblank(self, I, s, ins, a):
        return self._ctype('isblank', [(9, 9), (32, 32)])(I, s, ins, a)

    def c_tolower(self, I, s, ins, a):
        v = I.sview(s, I.num(s, a[0]), 32)
        return add(v, 32) if self.c_isupper(I, s, ins, a) else v

    def c_toupper(self, I, s, ins, a):
        v = I.sview(s, I.num(s, a[0]), 32)
        return sub(v, 32) if self.c_islower(I, s, ins, a) else v

    def _fold(self, I, s, v):
        if I.truth(s, unc(c_and([ge(sub(v, 65)), ge(sub(90, v))])) if not isinstance(v, int) else int(65 <= v <= 90)):
            return add(v, 32)
        return v

    def c_strcasecmp(self, I, s, ins, a):
        return self._strncmp(I, s, ins, a[0], a[1], 1 << 30, self._fold)

    def c_strncasecmp(self, I, s, ins, a):
        return self._strncmp(I, s, ins, a[0], a[1], I.need_const(s, I.uview(s, a[2], 64)), self._fold)

    def c_strnlen(self, I, s, ins, a):
        n = I.need_const(s, I.uview(s, a[1], 64))
        for i in range(n):
            if I.truth(s, self._z(self.rbyte(I, s, a[0], i))):
                return i
        return n

    @staticmethod
    def _z(v):
        return int(v == 0) if isinstance(v, int) else unc(eq(v))

    def c_strrchr(self, I, s, ins, a):
        ch = I.uview(s, I.num(s, a[1]), 8)
        n = self.strlen(I, s, a[0])
        if not isinstance(n, int):
            raise Unsupported('strrchr')
        for i in range(n, -1, -1):
            if I.truth(s, self._z(sub(self.rbyte(I, s, a[0], i), ch))):
                return Ptr(a[0].obj, add(a[0].off, i), a[0].zlo, a[0].zhi)
        return NULL

    def c_memrchr(self, I, s, ins, a):
        ch = I.uview(s, I.num(s, a[1]), 8)
        n = I.need_const(s, I.uview(s, a[2], 64))
        for i in range(n - 1, -1, -1):
            if I.truth(s, self._z(sub(self.rbyte(I, s, a[0], i), ch))):
                return Ptr(a[0].obj, add(a[0].off, i), a[0].zlo, a[0].zhi)
        return NULL

    def _span(self, I, s, p, q, inset):
        n = self.strlen(I, s, q)
        if not isinstance(n, int):
            raise Unsupported('strspn')
        st = [self.rbyte(I, s, q, i) for i in range(n)]
        for i in range(4096):
            v = self.rbyte(I, s, p, i)
            if I.truth(s, self._z(v)):
                return i
            hit = any(I.truth(s, self._z(sub(v, y))) for y in st)
            if hit != inset:
                return i
        raise Unsupported('strspn')

    def c_strspn(self, I, s, ins, a):
        return self._span(I, s, a[0], a[1], True)

    def c_strcspn(self, I, s, ins, a):
        return self._span(I, s, a[0], a[1], False)

    def c_strpbrk(self, I, s, ins, a):
        i = self._span(I, s, a[0], a[1], False)
        if I.truth(s, self._z(self.rbyte(I, s, a[0], i))):
            return NULL
        return Ptr(a[0].obj, add(a[0].off, i), a[0].zlo, a[0].zhi)

    def c___errno_location(self, I, s, ins, a):
        return Ptr(I.errno.id, 0)

    def c___cxa_allocate_exception(self, I, s, ins, a):
        o = s.new(a[0] if isinstance(a[0], int) else 64, 'exc', 'exception object')
        return Ptr(o.id, 0)

    def c___cxa_free_exception(self, I, s, ins, a):
        return None

    def c___cxa_throw(self, I, s, ins, a):
        t = a[1]
        nm = s.mem[t.obj].name if isinstance(t, Ptr) else '?'
        return Throw(ti_name(nm), a[0])

    def c___cxa_rethrow(self, I, s, ins, a):
        if s.exc is None:
            raise Unsupported('rethrow')
        return Throw(s.exc[0], s.exc[1])

    def c___cxa_begin_catch(self, I, s, ins, a):
        return a[0]

    def c___cxa_end_catch(self, I, s, ins, a):
        return None

    def c___cxa_guard_acquire(self, I, s, ins, a):
        v = I.load(s, a[0], ('int', 8))
        if v is UNDEF:
            v = 0
        return 0 if v == 1 else 1

    def c___cxa_guard_release(self, I, s, ins, a):
        I.store(s, a[0], ('int', 8), 1)
        return None

    def c___cxa_guard_abort(self, I, s, ins, a):
        return None

    def c___cxa_atexit(self, I, s, ins, a):
        return 0

    def c___cxa_thread_atexit(self, I, s, ins, a):
        return 0

    def c___clang_call_terminate(self, I, s, ins, a):
        I.report(s, 'terminate', 'std::terminate reached')
        raise PathEnd('violation')

    def c__ZSt9terminatev(self, I, s, ins, a):
        I.report(s, 'terminate', 'std::terminate reached')
        raise PathEnd('violation')

    def c_abort(self, I, s, ins, a):
        I.report(s, 'terminate', 'abort reached')
        raise PathEnd('violation')

    def c___assert_fail(self, I, s, ins, a):
        I.report(s, 'terminate', 'assertion failure')
        raise PathEnd('violation')

    # -------------------------------------------------- printf
    def format(self, I, s, ins, a, k):
        """bytes written for the format a[k] and the arguments after it"""
        fmt = self.cbytes(I, s, a[k])
        if fmt is None or not fmt or fmt[-1] != 0 or not all(isinstance(b, int) for b in fmt):
            raise Unsupported('printf format that is not a constant')
        types = [x[0] for x in ins.a[1]]
        nxt = [k + 1]

        def arg():
            i = nxt[0]
            if i >= len(a):
                raise Unsupported('printf with too few arguments')
            nxt[0] += 1
            return a[i], types[i]

        def integer(w, signed):
            v, ty = arg()
            if ty[0] != 'int':
                raise Unsupported('printf argument of another type')
            return (I.sview if signed else I.uview)(s, I.num(s, v), min(w, ty[1]))
        out = []
        txt = bytes(fmt[:-1]).decode('latin1')
        pos = 0
        for m in re.finditer(r'%([-0+ #]*)(\*|\d+)?(?:\.(\*|\d*))?(hh|h|ll|l|j|z|t|L)?(.)', txt, re.S):
            if '%' in txt[pos:m.start()]:
                raise Unsupported('printf format %r' % txt)
            out += [ord(c) for c in txt[pos:m.start()]]
            pos = m.end()
            flags, width, prec, ln, cv = m.groups()
            flags = flags or ''
            if width == '*':
                width = I.need_const(s, integer(32, True))
                if width < 0:
                    flags += '-'
                    width = -width
            width = int(width or 0)
            if prec == '*':
                prec = I.need_const(s, integer(32, True))
                prec = None if prec < 0 else prec
            elif prec is not None:
                prec = int(prec or 0)
            pre = []
            zero = '0' in flags and '-' not in flags
            if cv == '%':
                out.append(37)
                continue
            if cv in 'diuxXo':
                w = {'hh': 8, 'h': 16, None: 32, 'l': 8 * I.M.ptrsize, 'z': 8 * I.M.ptrsize, 't': 8 * I.M.ptrsize, 'll': 64, 'j': 64}.get(ln)
                if w is None:
                    raise Unsupported('printf format %r' % txt)
                v = integer(max(w, 32), cv in 'di')
                if w < 32:
                    v = (I.sview if cv in 'di' else I.uview)(s, v, w)
                if cv in 'di':
                    if not I.truth(s, unc(ge(v))):
                        pre = [45]
                        v = neg(v)
                    elif '+' in flags:
                        pre = [43]
                    elif ' ' in flags:
                        pre = [32]
                base = {'x': 16, 'X': 16, 'o': 8}.get(cv, 10)
                body = self.digits(I, s, v, base, cv == 'X')
                if prec is not None:
                    zero = False
                    if prec == 0 and body == [48]:
                        body = []
                    body = [48] * (prec - len(body)) + body
                if '#' in flags and cv in 'xX' and body not in ([], [48]):
                    pre = [48, ord(cv)]
                elif '#' in flags and cv == 'o' and body[:1] != [48]:
                    body = [48] + body
            elif cv == 'c' and ln is None:
                zero = False
                body = [I.uview(s, integer(32, False), 8)]
            elif cv == 's' and ln is None:
                zero = False
                v, ty = arg()
                n = 0
                while prec is None or n < prec:
                    b = self.rbyte(I, s, v, n)
                    if isinstance(b, int):
                        if b == 0:
                            break
                    elif I.truth(s, unc(eq(b))):
                        break
                    n += 1
                    if n > 5000:
                        raise Unsupported('printf of a long string')
                body = [self.rbyte(I, s, v, i) for i in range(n)]
            elif cv in 'eEfFgG' and ln in (None, 'l'):
                v, ty = arg()
                if not (isinstance(v, F) and v.kind == 'k' and v.fmt == 'double'):
                    raise Unsupported('printf of a symbolic double')
                t = ('%%%s%s%s' % (flags.replace('-', '').replace('0', ''), '' if prec is None else '.%d' % prec, cv)) % v.v
                body = [ord(c) for c in t]
                if t[:1] in '-+ ':
                    pre, body = body[:1], body[1:]
                zero = zero and v.v == v.v and abs(v.v) != float('inf')
            else:
                raise Unsupported('printf format %r' % txt)
            pad = width - len(pre) - len(body)
            if pad > 0 and '-' in flags:
                out += pre + body + [32] * pad
            elif pad > 0 and zero:
                out += pre + [48] * pad + body
            else:
                out += [32] * pad + pre + body
        if '%' in txt[pos:]:
            raise Unsupported('printf format %r' % txt)
        return out + [ord(c) for c in txt[pos:]]

    def digits(self, I, s, v, base, upper=False):
        """digits of a non-negative number"""
        if isinstance(v, int):
            out = []
            while v or not out:
                out.insert(0, v % base)
                v //= base
        else:
            n = 1
            while not I.truth(s, unc(ge(sub(base ** n - 1, v)))):
                n += 1
            v = s.st.simp(v)
            if isinstance(v, int):
                return self.digits(I, s, v, base, upper)
            qs = [v] + [floor_div(v, base ** i, s.st) for i in range(1, n)]
            out = [sub(qs[i], scale(qs[i + 1], base) if i + 1 < n else 0) for i in range(n - 1, -1, -1)]
        res = []
        for d in out:
            if base > 10 and not I.truth(s, unc(ge(sub(9, d)))):
                res.append(add(d, 55 if upper else 87))
            else:
                res.append(add(d, 48))
        return res

    def emit(self, I, s, p, bs):
        I.bounds(s, p, len(bs), True, 'printf destination')
        for i, b in enumerate(bs):
            I.store(s, Ptr(p.obj, add(p.off, i), p.zlo, p.zhi), ('int', 8), b)

    def c_snprintf(self, I, s, ins, a):
        bs = self.format(I, s, ins, a, 2)
        n = I.need_const(s, I.uview(s, a[1], 64), limit=1000)
        if n:
            self.emit(I, s, a[0], bs[:n - 1] + [0])
        return len(bs)

    def c_sprintf(self, I, s, ins, a):
        bs = self.format(I, s, ins, a, 1)
        self.emit(I, s, a[0], bs + [0])
        return len(bs)

    # -------------------------------------------------- numeric parsing
    def cbytes(self, I, s, p):
        """bytes up to the buffer's end as a tuple, or None if the string is symbolic-length"""
        I.bounds(s, p, 1, False, 'string argument')
        o = s.mem[p.obj]
        if o.lazy is not None:
            return None
        hi = p.zhi if p.zhi is not None else o.size
        off = I.need_const(s, p.off)
        out = []
        x = off
        hi = I.need_const(s, hi)
        while x < hi:
            v = I.byte_at(s, o, x)
            if v is UNDEF:
                break
            v = I.uview(s, v, 8)
            out.append(v)
            if v == 0:
                return out
            x += 1
        return out

    def mk_strto(self, kind):
        def h(I, s, ins, a):
            base = I.need_const(s, I.uview(s, a[2], 32)) if len(a) > 2 else 10
            bs = self.cbytes(I, s, a[0])
            if bs is None:
                self.endptr(I, s, a)
                o = s.mem[a[0].obj]
                return dom.fn('strto_sym', (kind, base, o.lazy[0], a[0].off), 0, (1 << 64) - 1)
            if not bs or bs[-1] != 0:
                # may run past the initialised bytes unless an earlier NUL or non-digit stops it
                I.note_unknown('strto', 'unterminated string argument', *I.where(s)[:1])
            self.end = None
            self.erange = False
            want_end = len(a) > 1 and isinstance(a[1], Ptr) and a[1].obj is not None
            r = self.parse_int(I, s, kind, base, bs, split=want_end and len(bs) < 8)
            if r is not None and self.end is not None:
                self.endptr(I, s, a, self.end)
                if self.erange:
                    I.store(s, Ptr(I.errno.id, 0), ('int', 32), 34)
                m = dict(s.ghost.get('strto', {}))
                m[(kind, base, tuple(bs))] = r
                s.ghost['strto'] = m
                return r
            self.endptr(I, s, a)
            if r is not None:
                return r
            return dom.fn('strto', (kind, base, tuple(bs)), 0, (1 << 64) - 1)
        return h

    def parse_int(self, I, s, kind, base, bs, split=False):
        """exact value when every byte's class is known; None otherwise"""
        if base not in (0, 8, 10, 16):
            if all(isinstance(b, int) for b in bs):
                return ev_strto(kind, base, tuple(bs))
            return None
        i = 0
        self.end = None
        self.erange = False

        def cls(v):
            if isinstance(v, int):
                lo = hi = v
            else:
                lo, hi = s.st.rng(v)
            if 48 <= lo and hi <= 57:
                return 'd'
            if lo == hi:
                return 'm' if lo == 45 else 'p' if lo == 43 else 's' if lo in (32, 9, 10, 11, 12, 13) else 'o'
            if split:
                for k, rs in (('d', [(48, 57)]), ('m', [(45, 45)]), ('p', [(43, 43)]), ('s', [(32, 32), (9, 13)])):
                    if I.truth(s, unc(c_or([c_and([ge(sub(v, l)), ge(sub(h, v))]) for l, h in rs]))):
                        return k
                return 'o'
            return None
        n = len(bs)
        while i < n and cls(bs[i]) == 's':
            i += 1
        negv = False
        if i < n and cls(bs[i]) in ('m', 'p'):
            negv = cls(bs[i]) == 'm'
            i += 1
        v = 0
        cnt = 0
        if base in (0, 16) and i < n and cls(bs[i]) == 'd' and I.truth(s, unc(eq(sub(bs[i], 48)))):
            if i + 1 < n and cls(bs[i + 1]) is None:
                return None
            if i + 2 < n and bs[i + 1] in (120, 88):
                if cls(bs[i + 2]) != 'd':
                    return None
                i += 2
                base = 16
            elif base == 0:
                base = 8
        elif base == 0:
            base = 10
        while i < n:
            c = cls(bs[i])
            if c is None:
                return None
            if base == 16 and c == 'o' and chr(bs[i] if isinstance(bs[i], int) else 0) in 'abcdefABCDEF':
                return None
            if c != 'd':
                break
            if base == 8 and not I.truth(s, unc(ge(sub(55, bs[i])))):
                break
            v = add(scale(v, base), sub(bs[i], 48))
            i += 1
            cnt += 1
        else:
            return None
        self.end = i if cnt else 0
        if cnt == 0:
            return 0
        lo, hi = s.st.rng(v)
        if kind == 'ull':
            if hi >= 1 << 64:
                c = ge(sub(v, 1 << 64))
                if I.truth(s, unc(c)):
                    self.erange = True
                    return (1 << 64) - 1
            return neg(v) if negv else v
        lim = (1 << 63) if negv else (1 << 63) - 1
        if hi > lim:
            c = ge(sub(v, lim + 1))
            if I.truth(s, unc(c)):
                self.erange = True
                v = lim
        return neg(v) if negv else v

    def c_atoi(self, I, s, ins, a):
        bs = self.cbytes(I, s, a[0])
        if bs is None:
            o = s.mem[a[0].obj]
            return dom.fn('strto_sym', ('int', 10, o.lazy[0], a[0].off), 0, (1 << 64) - 1)
        r = self.parse_int(I, s, 'll', 10, bs)
        if r is None:
            return dom.fn('strto', ('int', 10, tuple(bs)), 0, (1 << 32) - 1)
        return r

    def c_atoll(self, I, s, ins, a):
        return self.mk_strto('ll')(I, s, ins, [a[0], NULL, 10])

    c_atol = c_atoll

    def endptr(self, I, s, a, end=None):
        """strto*(p, &end): end lies somewhere inside the string"""
        if len(a) > 1 and isinstance(a[1], Ptr) and a[1].obj is not None:
            if end is not None:
                I.store(s, a[1], ('ptr',), Ptr(a[0].obj, add(a[0].off, end)))
                return
            o = s.mem[a[0].obj]
            n = sub(o.size, a[0].off)
            hi = n if isinstance(n, int) else s.st.rng(n)[1]
            e = dom.sym('end_%d_%d' % (s.steps, max(hi - 1, 0)), 0, max(hi - 1, 0))
            if not isinstance(n, int):
                s.st.assume(ge(sub(sub(n, 1), e)))
            I.store(s, a[1], ('ptr',), Ptr(a[0].obj, add(a[0].off, e)))
            s.ghost['approx'] = True

    def mk_strtof(self, name, fmt):
        def h(I, s, ins, a):
            I.bounds(s, a[0], 1, False, 'string argument')
            o = s.mem[a[0].obj]
            if o.lazy is not None:
                self.endptr(I, s, a)
                return F('t', fmt, (name, o.lazy[0], a[0].off))
            bs = self.cbytes(I, s, a[0])
            if all(isinstance(b, int) for b in bs):
                self.endptr(I, s, a, strtof_end(bs))
                sg, v = strto_value(bytes(bs))
                if isinstance(v, Fraction) and v:
                    q = round_to(v, fmt)
                    p, emin, emax = FMTS[fmt]
                    if q == 'inf' or q < Fraction(2) ** (emin + p - 1) and q != v:
                        I.store(s, Ptr(I.errno.id, 0), ('int', 32), 34)
                return strto_const(bytes(bs), fmt)
            self.endptr(I, s, a)
            return F('t', fmt, (name, tuple(bs)))
        return h

    # -------------------------------------------------- std::string
    def string_method(self, d, narrow=False):
        d = d[len(STR) + 2:]
        if narrow:      # size_t there
            d = d.replace('unsigned int', 'unsigned long')
        m = re.match(r'(operator\[\]|operator\+=|operator=|~?\w+)(<.*?>)?\((.*)\)( const)?$', d)
        if not m:
            return None
        nm, targs, args = m.group(1), m.group(2), m.group(3)
        args = [x.strip() for x in split_args(args)]
        key = {'operator[]': 'index', 'operator+=': 'append_op', 'operator=': 'assign_op', '~basic_string': 'dtor',
               'basic_string': 'ctor'}.get(nm, nm)
        h = getattr(self, 's_' + key, None)
        if h is None:
            return None

        def run(I, s, ins, a, h=h, args=args):
            if narrow:
                a = [(1 << 64) - 1 if isinstance(x, int) and not isinstance(x, bool) and x % (1 << 32) == (1 << 32) - 1 and i and
                     i <= len(args) and args[i - 1] == 'unsigned long' else x for i, x in enumerate(a)]
                if 'sret(' in str(ins) and (key in ('begin', 'end', 'cbegin', 'cend') or
                                            key in ('insert', 'erase') and args and args[0] != 'unsigned long'):
                    r = h(I, s, args, a[1:])        # iterators are returned in memory
                    if isinstance(r, Ptr):
                        I.store(s, a[0], ('ptr',), r)
                        return None
                    return r
            return h(I, s, args, a)
        return run

    def getstr(self, I, s, p):
        I.bounds(s, p, 1, False, 'std::string object')
        off = I.need_const(s, p.off)
        o = s.mem[p.obj]
        c = o.cells.get(off)
        if c is None or not isinstance(c[1], StrRec):
            if c is None:
                I.report(s, 'uninit', 'std::string used before construction')
                raise PathEnd('violation')
            raise Unsupported('not a std::string object')
        return c[1]

    def setstr(self, I, s, p, rec):
        off = I.need_const(s, p.off)
        o = s.w(p.obj)
        if o.kind == 'global':
            I.on_global_write(s, o)
        w = 32 if I.M.ptrsize == 8 else 24
        I.clear(s, o, off, w) if not isinstance(o.cells.get(off, (0, None))[1], StrRec) else None
        o.cells[off] = (w, rec)

    def bytes_of(self, I, s, rec):
        """list of bytes for a concrete-length string"""
        n = rec.len
        b = s.mem[rec.buf]
        if b.segs is not None:
            raise Unsupported('contents of an image string')
        if not isinstance(n, int):
            n = s.st.simp(n)
            if not isinstance(n, int):
                lo, hi = s.st.rng(n)
                if lo == hi:
                    n = lo
                else:
                    raise Unsupported('contents of a symbolic-length string')
        if b.lazy is not None:
            return [I.lazy_byte(s, b, i) for i in range(n)]
        return [I.byte_at(s, b, i) for i in range(n)]

    def newbuf(self, I, s, bs):
        o = s.new(len(bs) + 1, 'strbuf', 'std::string buffer')
        for i, b in enumerate(bs):
            if b is not UNDEF:
                o.cells[i] = (1, b)
        o.cells[len(bs)] = (1, 0)
        return StrRec(o.id, len(bs))

    def content(self, I, s, rec):
        """('bytes', list) or ('whole', rec) for symbolic strings"""
        try:
            return ('bytes', self.bytes_of(I, s, rec))
        except Unsupported:
            return ('whole', rec)

    def put(self, I, s, p, bs):
        self.setstr(I, s, p, self.newbuf(I, s, bs))

    def arg_bytes(self, I, s, args, a):
        """decode an append/assign/ctor argument list into a byte list, or ('whole', rec)"""
        t = args
        if not t:
            return []
        if t[0] == STR + ' const&' or t[0] == STR + '&&':
            rec = self.getstr(I, s, a[0])
            if len(t) >= 3 and t[1] == 'unsigned long':
                bs = self.bytes_of(I, s, rec)
                pos = I.need_const(s, I.uview(s, a[1], 64))
                n = len(bs)
                if t[2] == 'unsigned long':
                    c = I.uview(s, a[2], 64)
                    if isinstance(c, int):
                        n = c
                    else:
                        n = I.need_const(s, c)
                if pos > len(bs):
                    return Throw('std::out_of_range')
                return bs[pos:pos + n] if n < (1 << 62) else bs[pos:]
            k, v = self.content(I, s, rec)
            return v if k == 'bytes' else ('whole', v)
        if t[0] == 'char const*' and len(t) >= 2 and t[1] == 'unsigned long':
            return self.raw(I, s, a[0], I.uview(s, a[1], 64))
        if t[0] in ('char const*', 'char*') and len(t) >= 2 and t[1] in ('char const*', 'char*'):
            if a[0].obj != a[1].obj:
                raise Unsupported('iterator range')
            return self.raw(I, s, a[0], sub(a[1].off, a[0].off))
        if t[0].startswith('__gnu_cxx::__normal_iterator') and len(t) >= 2 and t[1].startswith('__gnu_cxx::__normal_iterator'):
            return self.raw(I, s, a[0], sub(a[1].off, a[0].off))
        if t[0] == 'char const*':
            n = self.strlen(I, s, a[0])
            return self.raw(I, s, a[0], n)
        if t[0] == 'unsigned long' and len(t) >= 2 and t[1] == 'char':
            n = I.need_const(s, I.uview(s, a[0], 64), limit=5000)
            if n > 100000:
                return Throw('std::length_error')
            return [I.num(s, a[1])] * n
        if t[0] == 'char':
            return [I.num(s, a[0])]
        if t[0].startswith('std::initializer_list'):
            n = I.need_const(s, I.uview(s, a[1], 64))
            return self.raw(I, s, a[0], n)
        if t[0].startswith('std::allocator'):
            return []
        raise Unsupported('std::string argument %s' % (t,))

    def raw(self, I, s, p, n):
        o = s.mem[p.obj] if p.obj is not None else None
        if not isinstance(n, int):
            n = s.st.simp(n)
        if not isinstance(n, int) and o is not None and (o.lazy is not None or o.segs is not None):
            # a whole symbolic string
            if isinstance(p.off, int) and p.off == 0:
                ln = o.lazy[1] if o.lazy is not None else None
                if ln is not None and s.st.decide(eq(sub(n, ln))) is True:
                    return ('whole', StrRec(o.id, ln))
            raise Unsupported('slice of a symbolic string')
        n = I.need_const(s, n, limit=5000, why='string length')
        if n == 0:
            return []
        I.bounds(s, p, n, False, 'string source')
        if n > 1 << 20:
            raise Unsupported('huge string')
        out = []
        so = s.mem[p.obj]
        off = p.off if isinstance(p.off, int) else s.st.simp(p.off)
        if isinstance(off, int) and so.lazy is None:
            return [I.byte_at(s, so, off + i) for i in range(n)]
        for i in range(n):
            out.append(I.load(s, Ptr(p.obj, add(off, i), p.zlo, p.zhi), ('int', 8)))
        return out

    def s_ctor(self, I, s, args, a):
        bs = self.arg_bytes(I, s, args, a[1:])
        if isinstance(bs, Throw):
            return bs
        if args and args[0] == STR + '&&':
            rec = self.getstr(I, s, a[1])
            self.setstr(I, s, a[0], rec)
            self.setstr(I, s, a[1], self.newbuf(I, s, []))
            return None
        if isinstance(bs, tuple):
            rec = bs[1]
            b = s.mem[rec.buf]
            o = s.new(b.size, 'strbuf', 'std::string buffer')
            o.lazy = b.lazy
            o.segs = b.segs
            o.cells = dict(b.cells)
            self.setstr(I, s, a[0], StrRec(o.id, rec.len))
            return None
        self.put(I, s, a[0], bs)

    def s_dtor(self, I, s, args, a):
        off = I.need_const(s, a[0].off)
        o = s.w(a[0].obj)
        c = o.cells.get(off)
        if c is not None and isinstance(c[1], StrRec):
            s.w(c[1].buf).alive = False
            del o.cells[off]
        return None

    def s_assign_op(self, I, s, args, a):
        bs = self.arg_bytes(I, s, args, a[1:])
        if isinstance(bs, Throw):
            return bs
        if isinstance(bs, tuple):
            b = s.mem[bs[1].buf]
            o = s.new(b.size, 'strbuf', 'std::string buffer')
            o.lazy, o.segs, o.cells = b.lazy, b.segs, dict(b.cells)
            self.setstr(I, s, a[0], StrRec(o.id, bs[1].len))
            return a[0]
        self.put(I, s, a[0], bs)
        return a[0]

    s_assign = s_assign_op

    def s_append_op(self, I, s, args, a):
        bs = self.arg_bytes(I, s, args, a[1:])
        if isinstance(bs, Throw):
            return bs
        return self.do_append(I, s, a[0], bs)

    def do_append(self, I, s, p, bs):
        rec = self.getstr(I, s, p)
        b = s.mem[rec.buf]
        if b.segs is not None or b.lazy is not None or isinstance(bs, tuple):
            segs = self.segs_of(I, s, rec)
            if isinstance(bs, tuple):
                segs = segs + self.segs_of(I, s, bs[1])
            else:
                segs = segs + [('b', x) for x in bs]
            self.setstr(I, s, p, self.newsegs(I, s, segs))
            return p
        if len(bs) == 1 and isinstance(rec.len, int):
            # in-place growth
            o = s.w(rec.buf)
            o.size = rec.len + 2
            if bs[0] is UNDEF:
                o.cells.pop(rec.len, None)
            else:
                o.cells[rec.len] = (1, bs[0])
            o.cells[rec.len + 1] = (1, 0)
            self.setstr(I, s, p, StrRec(rec.buf, rec.len + 1))
            return p
        cur = self.bytes_of(I, s, rec)
        self.put(I, s, p, cur + bs)
        return p

    def segs_of(self, I, s, rec):
        b = s.mem[rec.buf]
        if b.segs is not None:
            return list(b.segs)
        if b.lazy is not None and not isinstance(rec.len, int):
            return [('sym', b.lazy[0], rec.len)]
        return [('b', x) for x in self.bytes_of(I, s, rec)]

    def newsegs(self, I, s, segs):
        ln = 0
        for g in segs:
            if g[0] == 'b':
                ln = add(ln, 1)
            elif g[0] == 'sym':
                ln = add(ln, g[2])
            else:
                ln = add(ln, dom.fn('imglen', (g[1:],), 0, 1 << 60))
        o = s.new(add(ln, 1), 'strbuf', 'std::string buffer')
        o.segs = tuple(segs)
        return StrRec(o.id, ln)

    s_append = s_append_op

    def s_push_back(self, I, s, args, a):
        self.do_append(I, s, a[0], [I.num(s, a[1])] if a[1] is not UNDEF else [UNDEF])
        return None

    def s_pop_back(self, I, s, args, a):
        rec = self.getstr(I, s, a[0])
        bs = self.bytes_of(I, s, rec)
        if not bs:
            I.report(s, 'oob', 'pop_back on an empty string')
            raise PathEnd('violation')
        self.put(I, s, a[0], bs[:-1])

    def s_insert(self, I, s, args, a):
        rec = self.getstr(I, s, a[0])
        if args[0] == 'unsigned long':
            pos = I.need_const(s, I.uview(s, a[1], 64))
        else:
            pos = I.need_const(s, a[1].off)
        bs = self.arg_bytes(I, s, args[1:], a[2:])
        if isinstance(bs, Throw):
            return bs
        b = s.mem[rec.buf]
        if b.segs is not None or b.lazy is not None or isinstance(bs, tuple):
            if pos != 0:
                raise Unsupported('insert in the middle of a symbolic string')
            new = [('b', x) for x in bs] if not isinstance(bs, tuple) else self.segs_of(I, s, bs[1])
            self.setstr(I, s, a[0], self.newsegs(I, s, new + self.segs_of(I, s, rec)))
            return a[0]
        cur = self.bytes_of(I, s, rec)
        if pos > len(cur):
            return Throw('std::out_of_range')
        self.put(I, s, a[0], cur[:pos] + bs + cur[pos:])
        if args[0] != 'unsigned long':
            return Ptr(self.getstr(I, s, a[0]).buf, pos)
        return a[0]

    def s_erase(self, I, s, args, a):
        rec = self.getstr(I, s, a[0])
        bs = self.bytes_of(I, s, rec)
        if args and args[0] == 'unsigned long':
            pos = I.need_const(s, I.uview(s, a[1], 64))
            n = I.need_const(s, I.uview(s, a[2], 64))
            if pos > len(bs):
                return Throw('std::out_of_range')
            self.put(I, s, a[0], bs[:pos] + (bs[pos + n:] if n < 1 << 62 else []))
            return a[0]
        i = I.need_const(s, a[1].off)
        j = I.need_const(s, a[2].off) if len(a) > 2 else i + 1
        self.put(I, s, a[0], bs[:i] + bs[j:])
        return Ptr(self.getstr(I, s, a[0]).buf, i)

    def s_resize(self, I, s, args, a):
        rec = self.getstr(I, s, a[0])
        bs = self.bytes_of(I, s, rec)
        n = I.need_const(s, I.uview(s, a[1], 64), limit=5000)
        ch = I.num(s, a[2]) if len(a) > 2 else 0
        self.put(I, s, a[0], (bs + [ch] * max(0, n - len(bs)))[:n])

    def s_clear(self, I, s, args, a):
        self.put(I, s, a[0], [])

    def s_reserve(self, I, s, args, a):
        return None

    def s_shrink_to_fit(self, I, s, args, a):
        return None

    def s_size(self, I, s, args, a):
        return self.getstr(I, s, a[0]).len

    s_length = s_size

    def s_capacity(self, I, s, args, a):
        return dom.sym('cap', 15, 1 << 30)

    def s_max_size(self, I, s, args, a):
        return (1 << 62) - 1

    def s_empty(self, I, s, args, a):
        n = self.getstr(I, s, a[0]).len
        return int(n == 0) if isinstance(n, int) else unc(eq(n))

    def s_data(self, I, s, args, a):
        rec = self.getstr(I, s, a[0])
        return Ptr(rec.buf, 0, 0, add(rec.len, 1))

    s_c_str = s_data

    def s_begin(self, I, s, args, a):
        rec = self.getstr(I, s, a[0])
        return Ptr(rec.buf, 0, 0, rec.len)

    s_cbegin = s_begin

    def s_end(self, I, s, args, a):
        rec = self.getstr(I, s, a[0])
        return Ptr(rec.buf, rec.len, 0, rec.len)

    s_cend = s_end

    def elem(self, I, s, rec, i, limit):
        """reference to element i; limit = number of valid indices"""
        ok = c_and([ge(i), ge(sub(sub(limit, 1), i))]) if not (isinstance(i, int) and isinstance(limit, int)) else \
            (TRUE if 0 <= i < limit else FALSE)
        I.oblige('string-index')
        d = s.st.decide(ok)
        if d is not True:
            I.report(s, 'oob', 'std::string element %s outside its %s characters' % (i, rec.len), c_not(ok))
            if d is False:
                raise PathEnd('violation')
            raise Split([partition_one(ok)])
        return Ptr(rec.buf, i, 0, add(rec.len, 1))

    def s_front(self, I, s, args, a):
        rec = self.getstr(I, s, a[0])
        return self.elem(I, s, rec, 0, rec.len)

    def s_back(self, I, s, args, a):
        rec = self.getstr(I, s, a[0])
        return self.elem(I, s, rec, sub(rec.len, 1), rec.len)

    def s_index(self, I, s, args, a):
        rec = self.getstr(I, s, a[0])
        return self.elem(I, s, rec, I.uview(s, a[1], 64), add(rec.len, 1))

    def s_at(self, I, s, args, a):
        rec = self.getstr(I, s, a[0])
        i = I.uview(s, a[1], 64)
        ok = ge(sub(sub(rec.len, 1), i)) if not (isinstance(i, int) and isinstance(rec.len, int)) else (TRUE if i < rec.len else FALSE)
        if not I.truth(s, unc(ok)):
            return Throw('std::out_of_range')
        return Ptr(rec.buf, i, 0, add(rec.len, 1))

    def s_swap(self, I, s, args, a):
        x, y = self.getstr(I, s, a[0]), self.getstr(I, s, a[1])
        self.setstr(I, s, a[0], y)
        self.setstr(I, s, a[1], x)

    def s_compare(self, I, s, args, a):
        rec = self.getstr(I, s, a[0])
        if args and args[0] == 'unsigned long':
            pos = I.need_const(s, I.uview(s, a[1], 64))
            n = I.need_const(s, I.uview(s, a[2], 64))
            if not isinstance(rec.len, int):
                # make the length relation explicit
                if I.truth(s, unc(ge(sub(pos - 1, rec.len)))):
                    return Throw('std::out_of_range')
                if not I.truth(s, unc(ge(sub(rec.len, pos + n)))):
                    m = I.need_const(s, rec.len)
                    n = max(0, m - pos)
                b = s.mem[rec.buf]
                xs = [I.byte_at(s, b, pos + i) for i in range(n)] if b.lazy is None else [I.lazy_byte(s, b, pos + i) for i in range(n)]
            else:
                xs = self.bytes_of(I, s, rec)
                if pos > len(xs):
                    return Throw('std::out_of_range')
                xs = xs[pos:pos + n] if n < 1 << 62 else xs[pos:]
            ys = self.arg_bytes(I, s, args[2:], a[3:])
        else:
            ys = self.arg_bytes(I, s, args, a[1:])
            if not isinstance(rec.len, int):
                n = len(ys)
                if not I.truth(s, unc(eq(sub(rec.len, n)))):
                    # unequal lengths: never equal
                    return dom.fn('cmpne', (rec.buf, n), 1, 1)
                b = s.mem[rec.buf]
                xs = [I.lazy_byte(s, b, i) for i in range(n)]
            else:
                xs = self.bytes_of(I, s, rec)
        if isinstance(ys, tuple) or isinstance(ys, Throw):
            raise Unsupported('compare')
        ys = [I.uview(s, y, 8) for y in ys]
        xs = [I.uview(s, x, 8) for x in xs]
        if len(xs) != len(ys):
            m = min(len(xs), len(ys))
            r = self.cmp_bytes(I, s, None, xs[:m], ys[:m]) if m else 0
            tail = 1 if len(xs) > len(ys) else 0xffffffff
            if isinstance(r, int):
                return r if r else tail
            e = c_and([eq(sub(x, y)) for x, y in zip(xs[:m], ys[:m])])
            if I.truth(s, unc(e)):
                return tail
            # nonzero either way; sign by first difference
            for x, y in zip(xs, ys):
                if not I.truth(s, unc(eq(sub(x, y)))):
                    return 1 if I.truth(s, unc(ge(sub(x, y)))) else 0xffffffff
        if not xs:
            return 0
        return self.cmp_bytes(I, s, None, xs, ys)

    def s_substr(self, I, s, args, a):
        # sret: a[0] result, a[1] this
        rec = self.getstr(I, s, a[1])
        pos = I.need_const(s, I.uview(s, a[2], 64))
        n = I.uview(s, a[3], 64)
        if pos == 0 and not isinstance(rec.len, int) and (isinstance(n, int) and n >= 1 << 62 or s.st.decide(eq(sub(n, rec.len))) is True):
            return self.s_ctor(I, s, [STR + ' const&'], [a[0], a[1]])
        bs = self.bytes_of(I, s, rec)
        n = I.need_const(s, n)
        if pos > len(bs):
            return Throw('std::out_of_range')
        self.put(I, s, a[0], bs[pos:pos + n] if n < 1 << 62 else bs[pos:])

    # searches: exact on strings of known length
    def needle(self, I, s, args, a):
        """(bytes searched for, position argument) of find(x, pos[, n])"""
        if args[0] == 'char':
            return [I.uview(s, I.num(s, a[1]), 8)], a[2] if len(a) > 2 else None
        if args[0] == 'char const*' and len(args) >= 3:
            bs = self.raw(I, s, a[1], I.uview(s, a[3], 64))
            return [I.uview(s, b, 8) for b in bs], a[2]
        bs = self.arg_bytes(I, s, args[:1], a[1:2])
        if isinstance(bs, (tuple, Throw)):
            raise Unsupported('search for a symbolic string')
        return [I.uview(s, b, 8) for b in bs], a[2] if len(a) > 2 else None

    def search(self, I, s, args, a, back, match, default):
        """first (or last) position for which match(bytes, i, needle) may hold, by cases"""
        rec = self.getstr(I, s, a[0])
        bs = [I.uview(s, b, 8) for b in self.bytes_of(I, s, rec)]
        nd, pos = self.needle(I, s, args, a)
        pos = I.need_const(s, I.uview(s, pos, 64)) if pos is not None else default
        for i in (range(min(pos, len(bs)), -1, -1) if back else range(pos, len(bs) + 1)):
            c = match(bs, i, nd)
            if c is FALSE:
                continue
            if c is TRUE or I.truth(s, unc(c)):
                return i
        return (1 << 64) - 1

    @staticmethod
    def m_sub(bs, i, nd):
        if i + len(nd) > len(bs):
            return FALSE
        return c_and([_eqc(x, y) for x, y in zip(bs[i:], nd)])

    @staticmethod
    def m_any(bs, i, nd):
        return c_or([_eqc(bs[i], y) for y in nd]) if i < len(bs) else FALSE

    @staticmethod
    def m_none(bs, i, nd):
        return c_and([c_not(_eqc(bs[i], y)) for y in nd]) if i < len(bs) else FALSE

    def s_find(self, I, s, args, a):
        return self.search(I, s, args, a, False, self.m_sub, 0)

    def s_rfind(self, I, s, args, a):
        return self.search(I, s, args, a, True, self.m_sub, (1 << 64) - 1)

    def s_find_first_of(self, I, s, args, a):
        return self.search(I, s, args, a, False, self.m_any, 0)

    def s_find_last_of(self, I, s, args, a):
        return self.search(I, s, args, a, True, self.m_any, (1 << 64) - 1)

    def s_find_first_not_of(self, I, s, args, a):
        return self.search(I, s, args, a, False, self.m_none, 0)

    def s_find_last_not_of(self, I, s, args, a):
        return self.search(I, s, args, a, True, self.m_none, (1 << 64) - 1)

    def s_copy(self, I, s, args, a):
        rec = self.getstr(I, s, a[0])
        bs = self.bytes_of(I, s, rec)
        n = I.need_const(s, I.uview(s, a[2], 64))
        pos = I.need_const(s, I.uview(s, a[3], 64)) if len(a) > 3 else 0
        if pos > len(bs):
            return Throw('std::out_of_range')
        n = min(n, len(bs) - pos)
        if n:
            I.copy_mem(s, a[1], Ptr(rec.buf, pos), n, False)
        return n

    def s_replace(self, I, s, args, a):
        rec = self.getstr(I, s, a[0])
        bs = self.bytes_of(I, s, rec)
        if args[0] == 'unsigned long':
            pos, n = (I.need_const(s, I.uview(s, x, 64)) for x in a[1:3])
        else:
            pos = I.need_const(s, a[1].off)
            n = I.need_const(s, a[2].off) - pos
        new = self.arg_bytes(I, s, args[2:], a[3:])
        if isinstance(new, Throw):
            return new
        if isinstance(new, tuple):
            raise Unsupported('replace by a symbolic string')
        if pos > len(bs):
            return Throw('std::out_of_range')
        self.put(I, s, a[0], bs[:pos] + new + (bs[pos + n:] if n < 1 << 62 else []))
        return a[0]


def _eqc(x, y):
    if isinstance(x, int) and isinstance(y, int):
        return TRUE if x == y else FALSE
    return eq(sub(x, y))


def partition_one(c):
    from .dom import partition
    return partition(c)[0]


def split_args(x):
    out = []
    d = 0
    cur = ''
    for ch in x:
        if ch in '<(':
            d += 1
        if ch in '>)':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur)
    return out
