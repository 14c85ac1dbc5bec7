"""C20 C23: float extraction and the power-of-ten lookup."""
import random
from fractions import Fraction
from .common import *
from .ints import _M, prepare
from engine import models, check

FTYPES = {'float': ('float', 'strtof'), 'double': ('double', 'strtod'), 'ldouble': ('x86_fp80', 'strtold')}

BASIC = [b'', b'0', b'-0', b'0.0', b'1', b'-1', b'+1', b' 1', b'\t\n-2.5', b'1.', b'.5', b'-.5', b'.', b'-', b'+', b'e5', b'1e', b'1e+', b'1e5', b'1E5', b'1e-5', b'1e+05',
         b'1.5abc', b'abc', b'1 2', b'1\x002', b'\x001', b'--1', b'+-1', b'0x10', b'0x1.8p1', b'0X1P-3', b'0x', b'0x.8', b'inf', b'-inf', b'Infinity', b'-Infinity',
         b'INFINITY', b'nan', b'NaN', b'-nan', b'nan(1)', b'infx', b'i', b'1e400', b'-1e400', b'1e-400', b'1e5000', b'1e-5000', b'1e39', b'1e-46', b'3.4028235e38',
         b'3.4028236e38', b'3.5e38', b'1.17549435e-38', b'1.4e-45', b'7e-46', b'1.7976931348623157e308', b'1.7976931348623159e308', b'2.2250738585072014e-308',
         b'2.2250738585072011e-308', b'4.9e-324', b'2.4703282292062327e-324', b'2.4703282292062328e-324', b'3e-324', b'1.18973149535723176502e+4932', b'3.6e-4951',
         b'0.1', b'0.2', b'0.3', b'123456789', b'16777217', b'16777219', b'33554433', b'9007199254740993', b'9007199254740995', b'18446744073709551617', b'1e22', b'1e23',
         b'8.5e22', b'123456789012345678901234567890', b'3.14159265358979323846264338327950288', b'2.3229841458370558e201', b'00001.50000', b'1,5', b'1_0', b'1e 5', b'1.e3',
         b'1.00000000000000011102230246251565404236316680908203126', b'1.00000000000000011102230246251565404236316680908203125',
         b'1.00000000000000011102230246251565404236316680908203124', b'1.000000059604644775390625', b'1.0000000596046447753906250000000000000000001',
         b'1.00000017881393432617187499', b'1.00000017881393432617187500', b'1.00000017881393432617187501', b'7.038531e-26', b'0.000000000000000000000000000000000000011754943',
         b'5e-324', b'1.7976931348623158e308', b'179769313486231580793728971405301e276', b'6.02214076e23', b'1e-323', b'1' + b'0' * 400, b'0.' + b'0' * 400 + b'1', b'1' * 60,
         b'9' * 30 + b'.' + b'9' * 30, b'0' * 50 + b'7.25', b'10000000000000000000000000000000000000000e-40', b'0.00001', b'100000', b'12345678', b'1.2345678', b'0e999', b'-0e999']


# texts whose value depends on their end: lengths around the sizes a fixed buffer would have
SIZES = [15, 16, 23, 24, 31, 32, 39, 40, 47, 48, 63, 64, 79, 80, 99, 100, 127, 128, 199, 200, 255, 256, 299, 300, 399, 400, 499, 500, 511, 512, 767, 768, 799, 800, 999, 1000, 1023, 1024,
         1279, 1280, 1499, 1500, 1999, 2000, 2047, 2048, 4095, 4096]
LONG = [b'1.' + b'0' * (n - 3) + b'e5' for n in SIZES] + [b'0' * n + b'4.5e1' for n in SIZES[::4] + SIZES[-1:]] + [b' ' * n + b'-2.5' for n in SIZES[1::6]]


def ties(n, seed):
    """decimals at and beside the midpoints between neighbouring floats, doubles and long doubles"""
    rnd = random.Random(seed)
    out = []
    for i in range(n):
        p = rnd.choice((24, 24, 53, 53, 64))
        m = rnd.getrandbits(p - 1) | 1 << (p - 1)
        q = rnd.randint(-40, 40)
        v = (2 * m + 1) * Fraction(2) ** (q - 1)
        d = rnd.choice((0, 0, 1, -1))
        s = dec(v)
        if d:
            # a hair above or below: below the resolution of the next wider type
            w = v * (1 + d * Fraction(1, 10 ** rnd.choice((17, 20, 25, 40))))
            s = dec(w, 60)
        out.append(((b'-' if rnd.random() < .2 else b'') + s))
    for i in range(n // 2):
        k = rnd.randint(1, 20)
        out.append(b'%s%d%s%d' % (rnd.choice((b'', b'-', b'+', b' ')), rnd.randint(0, 10 ** rnd.randint(1, 18)), rnd.choice((b'.', b'e', b'e-', b'.0', b'.00')), rnd.randint(0, rnd.choice((9, 30, 99, 320)))))
    return out


def dec(v, digits=None):
    """decimal text of a positive Fraction: exact when it terminates, cut to `digits` otherwise"""
    if digits is None:
        k = 0
        d = v.denominator
        while d % 2 == 0:
            d //= 2
            k += 1
        n = v * 10 ** k
        n = int(n)
        s = str(n)
        return (s[:-k].rjust(1, '0') + '.' + s[-k:].rjust(k, '0') if k else s).encode()
    e = len(str(int(v))) if v >= 1 else 0
    k = max(digits - e, 0)
    n = int(v * 10 ** k)
    s = str(n).rjust(k + 1, '0')
    return (s[:-k] + '.' + s[-k:] if k else s).encode()


def fval(v):
    """(sign, value) of a constant float, None if it is not one"""
    import math
    if v.kind == 'k':
        if v.v != v.v:
            return 'nan'
        sg = math.copysign(1, v.v) < 0
        return (sg, 'inf' if abs(v.v) == math.inf else Fraction(abs(v.v)))
    if v.kind == 't' and v.v[0] == 'ldk':
        return (v.v[1], v.v[2])
    return None


def task(key, cfg, entry, ty, strings, budget, seed):
    """strings: 'any' or a list of concrete strings"""
    M = _M[key]
    fmt, name = FTYPES[ty]
    tot = Result()
    for x in ([None] if strings == 'any' else strings):
        dom.reset()
        if check.LIMIT[0] and check.time.time() > check.LIMIT[0]:
            tot.unknown('budget', 'not analysed in time')
            break
        run = Run(M, cfg, entry, kinds=MEMKINDS, seed=seed, budget=budget)
        I = run.I

        def setup(s, a, x=x, run=run):
            if x is None:
                p, N = mklazy(run, s, 's')
                return [p]
            run.inputs['string'] = repr(x)
            return [mkstr(run, s, list(x))]

        def hook(I, s, ins, a, x=x, run=run):
            v = a[1]
            s.ghost['done'] = True
            if v is UNDEF:
                run.fail(s, 'uninit', 'the extracted value is uninitialised')
                return
            if x is None:
                ok = v == F('t', fmt, (name, 's', 0))
                if ok:
                    run.r.ob('rounded-once', True)
                else:
                    run.undecided(s, 'rounded-once', 'the result is not %s of the whole string' % name)
                return
            want = fval(models.strto_const(x, fmt))
            got = fval(v)
            if got is None:
                run.undecided(s, 'rounded-once', 'the value extracted from %r is not known' % x)
            else:
                run.hold(s, 'rounded-once', got == want, '%r extracts as %s instead of %s' % (x[:80], show(got), show(want)))

        def onret(s, v, run=run):
            run.hold(s, 'yields-a-value', s.ghost.get('done', False), 'extraction returned without a value')
        run.hook({'float': 'vf_f', 'double': 'vf_d', 'ldouble': 'vf_l'}[ty], hook)
        for h in ('vf_f', 'vf_d', 'vf_l'):
            if h not in I.hooks:
                run.hook(h, lambda I, s, ins, a, run=run: run.fail(s, 'rounded-once', 'a value of another type is extracted'))
        r = run.go([], setup=setup, onret=onret)
        for v in r.violations:
            v['witness'] = {'string': repr(x)}
        tot.merge(r)
        if tot.violations:
            break
    tot.samples.append('%s on %s' % (entry, 'any string' if strings == 'any' else '%d strings' % len(strings)))
    return tot


def show(v):
    if v == 'nan':
        return v
    sg, x = v
    if not isinstance(x, str):
        try:
            x = '%r' % float(x) if Fraction(float(x)) == x else '%s*2^%d' % (x.numerator, 1 - x.denominator.bit_length())
        except OverflowError:
            x = '%d' % x
    return ('-' if sg else '') + x


def tasks(strings, seed, entries=('e_ex_', 'e_exf_', 'e_exc_'), lazy=True):
    out = []
    for k in list(_M):
        if k[0] != ('extract.cpp',):
            continue
        for ty in FTYPES:
            for pre in entries:
                if lazy and pre != 'e_exc_':
                    out.append((task, (k, k[1], pre + ty, ty, 'any', 60, seed), pre + ty + '/any'))
                for i in range(0, len(strings), 60):
                    out.append((task, (k, k[1], pre + ty, ty, strings[i:i + 60], 60, seed), pre + ty + '/corpus'))
    return out


def C20(tier, seed):
    prepare(['extract.cpp'], {'gcc': build.GCC, 'release': build.GCC + ['-DNDEBUG']})
    strings = BASIC + LONG + ties(60 if tier == 'quick' else 600, 1)
    return tasks(strings, seed), ['gcc', 'release'], 20, lambda: tasks(ties(3000, 2 + seed), seed, entries=('e_exf_',), lazy=False)


# ---------------------------------------------------------------- C23
def pow_task(key, cfg, ns, budget, seed):
    M = _M[key]
    tot = Result()
    for n in ns:
        dom.reset()
        run = Run(M, cfg, 'e_pow10', kinds=MEMKINDS, seed=seed, budget=budget)
        run.inputs['n'] = n

        def onret(s, v, run=run, n=n):
            if v is UNDEF:
                run.fail(s, 'nearest-power', 'pow10(%d) is uninitialised' % n)
                return
            got = fval(v) if isinstance(v, F) else None
            want = (False, models.round_to(Fraction(10) ** n, 'double'))
            if got is None:
                run.undecided(s, 'nearest-power', 'pow10(%d) is not known' % n)
            else:
                run.hold(s, 'nearest-power', got == want, 'pow10(%d) is %s, the nearest double is %s' % (n, show(got), repr(float(want[1]))))
        r = run.go([n], onret=onret)
        for v in r.violations:
            v['witness'] = {'n': n}
        tot.merge(r)
    tot.samples.append('pow10(n) for n in [%d, %d]' % (ns[0], ns[-1]))
    return tot


def C23(tier, seed):
    cfgs = {'gcc': build.GCC, 'clang': []}
    prepare(['pow.cpp'], cfgs)
    out = []
    for k in list(_M):
        for i in range(0, 309, 40):
            out.append((pow_task, (k, k[1], list(range(i, min(i + 40, 309))), 60, seed), 'pow10'))
    return out, list(cfgs), 300
