"""C05 C06 C07 C08 and the float part of C09 C10 C13 C17.

Assume/guarantee analysis of the float formatter along its own functions:

  A   grisu2 up to the call of generateDigits, per binary exponent, any significand
  B   generateDigits, per scaling exponent, any arguments that A guarantees
  G   grisuRound, any arguments that B guarantees
  P   FormatFloat(x) with grisu2 replaced by its guarantee: any sign, digits and exponent

A failed obligation is an alarm only if a bit pattern derived from the failing abstract state, or from
the list of notable patterns, exhibits it when the analysis is refined down to that single pattern.
"""
import struct, re, time
from fractions import Fraction
from .common import *
from .ints import _M, prepare
from engine import wit, check
from engine.models import fconst, round_to

MAXLEN = 17
S_LO, S_HI = 32, 60
M52 = (1 << 52) - 1
LITS = (b'NaN', b'Infinity', b'-Infinity')
CFG = {'gcc': build.GCC, 'clang': []}


def find_fn(M, base, params=None):
    out = []
    for n, f in M.functions.items():
        d = f.dem.replace('(anonymous namespace)::', '')
        m = re.search(r'(?:^|[: ])%s\((.*)\)' % base, d)
        if m and 'lexi' in d and (params is None or re.sub(r'\s|lexi::detail::|lexi::', '', m.group(1)) == re.sub(r'\s', '', params)):
            out.append(n)
    return out[0] if len(out) == 1 else None


def fn_grisu2(M):
    return find_fn(M, 'grisu2', 'double, char*, int*, int*')


def fn_digits(M):
    return find_fn(M, 'generateDigits', 'DiyFp const&, DiyFp const&, unsigned long, char*, int*, int*')


def fn_round(M):
    return find_fn(M, 'grisuRound', 'char*, int, unsigned long, unsigned long, unsigned long, unsigned long')


def bits_of(x):
    return struct.unpack('<Q', struct.pack('<d', x))[0]


def double_of(b):
    return struct.unpack('<d', struct.pack('<Q', b))[0]


def dbl(v):
    """a double argument with bit pattern v"""
    return F('b', 'double', v)


def diy_layout(M):
    """(offset of the significand, offset of the exponent, bytes of the exponent, size) of the extended float, from its type"""
    from .bigint import fields
    for nm, t in M.types.items():
        if nm.strip('"').endswith('lexi::detail::DiyFp') and t[0] == 'struct':
            fs = [x for x in fields(M, t) if x[1][0] != 'arr']
            f = [o for o, x in fs if x == ('int', 64)]
            e = [(o, x[1] // 8) for o, x in fs if x[0] == 'int' and x[1] in (16, 32)]
            if len(fs) == 2 and len(f) == len(e) == 1:
                return f[0], e[0][0], e[0][1], M.sizeof(t)
    return None


def diy_get(I, s, p, L):
    """(significand, exponent) of the extended float at p"""
    f = I.uview(s, I.num(s, I.load(s, Ptr(p.obj, add(p.off, L[0])), ('int', 64))), 64)
    e = I.sview(s, I.num(s, I.load(s, Ptr(p.obj, add(p.off, L[1])), ('int', 8 * L[2]))), 8 * L[2])
    return f, e


def diy_put(s, name, f, e, L):
    o = s.new(L[3], 'arg', name)
    o.cells[L[0]] = (8, f)
    o.cells[L[1]] = (L[2], e & ((1 << 8 * L[2]) - 1))
    return o


def mem_i32(I, s, p):
    v = I.load(s, p, ('int', 32))
    return I.sview(s, I.num(s, v), 32)


# ---------------------------------------------------------------- one bit pattern
INFB = 0x7ff << 52


def interval(b):
    """open interval of reals that round to the positive finite double with pattern b (as Fractions), and its value"""
    e, m = b >> 52, b & M52
    f = m if e == 0 else m + (1 << 52)
    q = (1 if e == 0 else e) - 1075
    u = Fraction(2) ** q
    v = f * u
    hi = v + u / 2
    lo = v - u / 2
    if m == 0 and e > 1:
        lo = v - u / 4
    return lo, hi, v


NUM = re.compile(rb'^(-?)(?:(0|[1-9][0-9]*)\.([0-9]+)|([1-9])(?:\.([0-9]+))?e(-?(?:0|[1-9][0-9]*)))$')


def text_bad(b, t, lits):
    """-> list of (rule, message) contradicted by text t for pattern b"""
    out = []
    neg_ = b >> 63
    a = b & ((1 << 63) - 1)
    INFB = 0x7ff << 52
    if a > INFB:
        return [] if t == lits[0] else [('special-literals', 'a NaN formats as %r' % t)]
    if a == INFB:
        return [] if t == lits[1 + neg_] else [('special-literals', 'an infinity formats as %r' % t)]
    m = NUM.match(t)
    if not m:
        out.append(('number-notation', 'the text %r is not in the plain or scientific notation' % t))
        if t in lits:
            out.append(('special-literals', 'a finite value formats as %r' % t))
        try:
            val = Fraction(t.decode()) if b'/' not in t else None
        except Exception:
            val = None
        if val is None:
            out.append(('identifies-the-double', 'the text %r denotes no number' % t))
            return out
        neg_t = t[:1] == b'-'
    else:
        neg_t = m.group(1) == b'-'
        val = Fraction(t.decode())
        if a == 0:
            if t != b'0.0':
                out.append(('number-notation', 'zero formats as %r' % t))
        else:
            if m.group(2) is not None:
                ds = m.group(2) + m.group(3)
                i = len(ds) - len(ds.lstrip(b'0'))
                kk = len(m.group(2)) - i
                if not -6 < kk <= 21:
                    out.append(('number-notation', 'plain notation with the decimal point %d places after the first digit: %r' % (kk, t)))
            else:
                kk = int(m.group(6)) + 1
                if -6 < kk <= 21:
                    out.append(('number-notation', 'scientific notation with the decimal point %d places after the first digit: %r' % (kk, t)))
    if m and a:
        out += short_bad(a, t, m, abs(val))
    if a == 0:
        if val != 0:
            out.append(('identifies-the-double', 'zero formats as %r' % t))
    else:
        lo, hi, v = interval(a)
        if not lo < abs(val) < hi or (val < 0) != bool(neg_):
            out.append(('identifies-the-double', 'the text %r is outside the rounding interval of the value' % t))
    return out


MARGIN = 256                                  # a 256th of the rounding interval is given away at either end


def short_bad(a, t, m, val):
    """text t of the positive pattern a: is there a shorter or a nearer decimal well inside the rounding interval"""
    out = []
    if not val:
        return out
    lo, hi, v = interval(a)
    w = (hi - lo) / MARGIN
    frac = m.group(3) if m.group(2) is not None else m.group(5) or b''
    if frac[-1:] == b'0' and not (m.group(2) is not None and frac == b'0'):
        out.append(('short-text', 'the text %r ends in a superfluous zero' % t))
    e = -len(frac) + int(m.group(6) or 0)
    while val % Fraction(10) ** e:
        e -= 1
    while not val % Fraction(10) ** (e + 1):
        e += 1
    u = Fraction(10) ** (e + 1)
    c = ((lo + w) // u + 1) * u
    if c < hi - w:
        out.append(('short-text', 'the text %r has more digits than %s, which is well inside the rounding interval' % (t, dec(c))))
    u /= 10
    for c in (val - u, val + u):
        if lo + w < c < hi - w and abs(c - v) < abs(val - v) - 2 * w:
            out.append(('nearest-text', 'the text %r is farther from the value than %s, which has the same number of digits and is well inside the rounding interval' % (t, dec(c))))
    return out


def dec(x):
    e = 0
    while x.denominator != 1:
        x *= 10
        e -= 1
    n = int(x)
    while n and n % 10 == 0:
        n //= 10
        e += 1
    return '%de%d' % (n, e)


def run_const(b):
    return F('k', 'double', double_of(b))


def tofloat(b):
    """(float bits, double bits) of the float nearest to the double with pattern b, or None"""
    try:
        x = struct.unpack('<f', struct.pack('<f', double_of(b)))[0]
    except OverflowError:
        return None
    if x != x or x in (float('inf'), float('-inf')) or x == 0:
        return None
    return x, bits_of(x)


EXTREME = {'over': Fraction(10) ** 400, 'under': Fraction(1, 10 ** 400)}


def ld_arg(b):
    """(long double, pattern of the double it rounds to, ghosts): b is the pattern of a double or (class, sign) of an extreme"""
    if isinstance(b, tuple):
        sg = b[1]
        return fconst(bool(sg), round_to(EXTREME[b[0]], 'x86_fp80'), 'x86_fp80'), (sg << 63) + (INFB if b[0] == 'over' else 0), {}
    a = b & ((1 << 63) - 1)
    if a <= INFB:
        return F('k', 'x86_fp80', double_of(b)), b, {}
    arg = F('t', 'x86_fp80', ('arg', b))
    v = run_const(b)
    return arg, b, {'fptrunc': lambda x, fmt: v if x == arg and fmt == 'double' else None, 'ldclass': ('nan', b >> 63)}


def single(M, cfg, b, rules, entry=None, lits=LITS, seed=1, mem=True, ty='double', more=None, texts=None):
    """the analysis refined to one bit pattern: -> finding dict or None"""
    entry = entry or 'e_fmt_' + ty
    ghost = {}
    x = b if isinstance(b, tuple) else None
    if ty == 'double':
        arg = run_const(b)
    elif ty == 'float':
        c = tofloat(b)
        if c is None:
            return None
        arg, b = F('k', 'float', c[0]), c[1]
    else:
        arg, b, ghost = ld_arg(b)
    run = Run(M, cfg, entry, kinds=MEMKINDS if mem else (), seed=seed, budget=20)
    I = run.I
    res = []
    run.inputs['bits'] = b

    def hook(I_, s, ins, a):
        if more is not None:
            s.ghost['text'] = more.obj(run, s, a)
            return
        r = obj_bytes(run, s, a, 'float-storage')
        if r is None:
            return
        bs = r[0]
        if any(not isinstance(x, int) for x in bs):
            return
        t = bytes(x & 255 for x in bs[:-1])
        if texts is not None:
            texts.append(t)
        for rule, msg in text_bad(b, t, lits):
            if rule in rules:
                res.append((s, rule, msg))
        if 'null-terminated' in rules and bs[-1] & 255:
            res.append((s, 'null-terminated', 'the byte after the text is not a null terminator'))
    run.hook('vf_obj', hook)
    if hasattr(more, 'hooks'):
        more.hooks(run)
    run.hook('vf_str', (lambda I, s, ins, a: more.str(run, s, a)) if more is not None else (lambda I, s, ins, a: None))

    def onlimit(s, info):
        if 'terminates' in rules:
            res.append((s, 'terminates', 'formatting does not terminate (%s)' % info))
    def setup(s, a):
        s.ghost.update(ghost)
        return [arg]
    try:
        r = run.go([], setup=setup, onlimit=onlimit)
    except Exception:
        return None
    w = {'bits': hex(b), 'value': repr(double_of(b)), 'type': ty} if x is None else {'value': ('-' if x[1] else '') + ('1e400L' if x[0] == 'over' else '1e-400L'), 'type': ty}
    for v in r.violations:
        if more is not None and v['rule'] in more.rules or v['rule'] in rules or (mem and v['rule'] in MEMKINDS) or v['rule'] == 'float-storage' and mem:
            return dict(rule=v['rule'], msg=v['message'], loc=v['location'], func=v['function'], stack=v['call_path'], path=v['decisions'], witness=w)
    for s, rule, msg in res:
        loc, func, stack = I.where(s)
        return dict(rule=rule, msg=msg, loc=None, func=func, stack=stack, path=I.decisions(s), witness=w)
    return None


def notable(more=False):
    """bit patterns of doubles that exercise every branch of the algorithm"""
    xs = []
    import random
    R = random.Random(7)
    for v in ('5e-324', '1e-323', '2.2250738585072014e-308', '2.225073858507201e-308', '1.7976931348623157e308', '1.7976931348623155e308',
              '1', '0.1', '0.3', '0.5', '1.5', '9.5', '10', '99', '100', '123456789', '1e21', '1e22', '1e20', '123456789012345680000',
              '999999999999999900000', '1e-5', '1e-6', '1e-7', '0.00001', '0.000001', '0.0000001', '1.2345678901234567e-300', '9007199254740993',
              '9007199254740992', '4503599627370496.5', '1.2345e30', '1e100', '1e-100', '1.5e-10', '9e9', '4.35', '2.5e-8', '5e-7', '1.2e-6',
              '3.1415926535897931', '2.718281828459045', '0.30000000000000004', '1.1125369292536007e-308', '8.5', '1e23', '9.5e-323',
              '4.9406564584124654e-324', '1.7800590868057611e-307', '2e-308', '1e10', '1e9', '1e8', '12345.678', '1e5', '1e6', '1e7',
              '5.9604644775390625e-8', '100000000000000000000', '1e99', '1e-99', '1.25e99', '1.25e100', '1e101', '1.25e-9', '1.25e-10', '1.25e-99', '1.25e-100'):
        xs.append(bits_of(float(v)))
    for e in range(1, 2047, 5 if more else 61):
        for m in (0, 1, M52, R.getrandbits(52)):
            xs.append((e << 52) | m)
    for j in range(0, 52, 1 if more else 5):
        xs.append(1 << j)
        xs.append((1 << j) | R.getrandbits(max(j, 1)))
    for k in range(-22, 24, 2):
        for n in (range(1, 18) if more else (1, 2, 3, 9, 15, 16, 17)):
            d = R.randrange(10 ** (n - 1), 10 ** n)
            xs.append(bits_of(float('%de%d' % (d, k - n))))
    out = []
    for x in xs:
        if x not in out and x < 0x7ff << 52 and x > 0:
            out.append(x)
    neg_ = [x | 1 << 63 for x in out[::3]]
    return out + neg_


def near(E, seed=1, samples=12000, top=40, inner=False):
    """patterns with biased exponent E for which a short decimal lies just outside (inner: inside, but for the margin) a rounding boundary"""
    import random
    R = random.Random(seed * 4096 + E)
    q = (1 if E == 0 else E) - 1075
    fs = set()
    for _ in range(samples):
        f = R.getrandbits(52)
        if E == 0:
            f >>= R.randrange(0, 46)
            if not f:
                continue
        else:
            f |= 1 << 52
        fs.add(f)
    if E:
        fs.add(1 << 52)
    out = []
    for n in (15, 16, 17):
        lg = int((q + (52 if E else 40)) * 0.30103)
        for k in (lg - n, lg - n + 1, lg - n + 2):
            # boundary B * 2^(q-1) = B * P / Q in units of 10^k
            P = Q = 1
            if q - 1 >= 0:
                P <<= q - 1
            else:
                Q <<= 1 - q
            if k >= 0:
                Q *= 10 ** k
            else:
                P *= 10 ** -k
            lo, hi = 10 ** (n - 1), 10 ** n
            lim = P // 8                    # within an eighth of half a unit in the last place
            if inner:
                mg = 2 * P // MARGIN + 1
                for f in fs:
                    x = (2 * f + 1) * P
                    for r in (x % Q, (2 * P - x) % Q):
                        if mg < r < 2 * lim and lo <= x // Q < hi:
                            out.append((r / P + n, f))
                continue
            for f in fs:
                x = (2 * f + 1) * P
                r = x % Q
                if Q - r < lim and lo <= x // Q < hi:
                    out.append(((Q - r) / P, f))
                if f == 1 << 52 and E > 1:
                    continue
                r = (x - 2 * P) % Q
                if r < lim and lo <= x // Q < hi:
                    out.append((r / P, f))
    out.sort()
    res = []
    for _, f in out:
        b = f if E == 0 else (E << 52) | (f & M52)
        if b not in res:
            res.append(b)
        if len(res) >= top:
            break
    return res


def attach(run, r, res):
    """turn a confirmed refutation into a violation of this run's result"""
    loc = None
    if res['loc']:
        a, b = res['loc'].rsplit(':', 1)
        loc = (a, b)
    r.violation(res['rule'], res['msg'], loc, res['func'], res['stack'], res['witness'], None, run.config, run.entry, res['path'])


def cached_power(e):
    import math
    dk = (-61 - e) * 0.30102999566398114 + 347
    kk = int(dk)
    if kk != dk:
        kk += 1
    idx = (kk >> 3) + 1
    k = -348 + (idx << 3)
    # 64-bit significand of 10^k
    x = Fraction(10) ** k
    ex = 0
    p = x.numerator.bit_length() - x.denominator.bit_length() - 64
    f = x / Fraction(2) ** p
    while f >= 1 << 64:
        f /= 2
        p += 1
    while f < 1 << 63:
        f *= 2
        p -= 1
    return int(f + Fraction(1, 2)), p


def doubles_for(sv, Mp, delta):
    """bit patterns whose scaled upper boundary is close to Mp * 2^-s"""
    out = []
    if Mp and delta and delta * (1 << 51) > Mp:
        f0 = Mp // delta
        for f in (f0 - 1, f0, f0 + 1, f0 + 2):
            if 0 < f < 1 << 52:
                out.append(f)
    n = 0
    for e in list(range(1023, 2047, 23)) + list(range(1, 1023, 23)) + list(range(1, 2047)):
        q = e - 1075
        wpe = q - 1 - 10
        cf, ce = cached_power(wpe)
        if -(wpe + ce + 64) != sv:
            continue
        g = (Mp << 64) // cf          # ~ (2f+1) << 10
        f = (g >> 11)
        for x in (f - 1, f, f + 1, f + 7):
            if (1 << 52) <= x < (1 << 53):
                out.append((e << 52) | (x - (1 << 52)))
        n += 1
        if n >= 8:
            break
    return out


def doubles_for_text(neg_, digits, k):
    t = ''.join(map(str, digits)) + 'e%d' % k
    try:
        v = float(t)
    except ValueError:
        return []
    if v == 0 or v == float('inf'):
        return []
    b = bits_of(v) | (neg_ << 63)
    return [b, b + 1, b - 1]


class Collect:
    """gather undischarged obligations of a phase and try to refute them at the end"""

    def __init__(self, run, rules, cands, **kw):
        self.run = run
        self.rules = rules
        self.cands = cands
        self.kw = kw

    def finish(self, r, M, cfg, mem, limit=60):
        """violations of an abstract phase hold for abstract inputs only: refine to single patterns"""
        alarms = r.violations
        r.violations = []
        extra = []
        for v in alarms:
            try:
                extra += self.cands(v)
            except Exception:
                pass
        r.alarms = alarms
        if not alarms and not r.unknowns:
            return r
        t0 = time.time()
        seen = set()
        for b in extra[:limit]:
            if b in seen or time.time() - t0 > 100:
                continue
            seen.add(b)
            f = single(M, cfg, b, self.rules, mem=mem, **self.kw)
            if f:
                if alarms:
                    f['msg'] = f['msg'] + ' (undischarged: %s)' % alarms[0]['message']
                    if not f['loc']:
                        f['loc'], f['func'], f['stack'] = alarms[0]['location'], alarms[0]['function'], alarms[0]['call_path']
                attach(self.run, r, f)
                return r
        for v in alarms:
            r.unknown(v['rule'], v['message'] + ' | abstract witness %s' % (v['witness'],), None, v['function'], cfg, self.run.entry)
        return r


# ---------------------------------------------------------------- phase A
def phase_a(key, cfg, exps, rules, mem, budget, seed):
    """exps: list of biased exponents; 0 means the subnormals"""
    M = _M[key]
    g2, gd = fn_grisu2(M), fn_digits(M)
    tot = Result()
    inside = 'identifies-the-double' in rules
    if g2 is None or gd is None or diy_layout(M) is None:
        tot.unknown('structure', 'grisu2/generateDigits not found under their names: phase A not applicable', config=cfg)
        return tot
    spent = 0
    for E in exps:
        dom.reset()
        r = phase_a1(M, cfg, g2, gd, E, rules, mem, budget, seed)
        tot.merge(r)
        if tot.violations:
            break
        if r.alarms and (inside or 'short-text' in rules) and spent < 3:
            # the scaled bounds leave the rounding interval: look for a double whose text does, too
            spent += 1
            rn = Run(M, cfg, g2, seed=seed)
            for b in near(E, seed, inner=not inside):
                f = single(M, cfg, b, rules, mem=mem)
                if f:
                    f['loc'], f['func'], f['stack'] = (r.alarms[0][x] for x in ('location', 'function', 'call_path'))
                    f['msg'] += ' (undischarged: %s)' % r.alarms[0]['message']
                    attach(rn, tot, f)
                    return tot
    return tot


def phase_a1(M, cfg, g2, gd, E, rules, mem, budget, seed):
    run = Run(M, cfg, g2, kinds=MEMKINDS if mem else (), seed=seed, budget=budget)
    I = run.I
    hit = [0]
    L = diy_layout(M)
    inside = 'identifies-the-double' in rules
    tight = 'short-text' in rules
    # the smallest normal number has no narrower lower half, but may be treated as if it had: analysed as a value of its own
    alone = tight and E == 1
    m = run.sym('m', 1 if alone or not E else 0, M52)
    box = {}

    def setup(s, args):
        buf = s.new(MAXLEN, 'arg', 'digit buffer')
        ln = s.new(4, 'arg', 'length')
        k = s.new(4, 'arg', 'decimal exponent')
        box.update(buf=buf.id, ln=ln.id, k=k.id)
        return [dbl(add(m, E << 52)), Ptr(buf.id, 0), Ptr(ln.id, 0), Ptr(k.id, 0)]

    def hook(I, s, ins, a):
        hit[0] += 1
        W, Mp, delta, buf, ln, k = a
        run.hold(s, 'digit-arguments', isinstance(buf, Ptr) and buf.obj == box['buf'] and buf.off == 0, 'digits are generated into another buffer')
        mf, me = diy_get(I, s, Mp, L)
        wf, we = diy_get(I, s, W, L)
        d = I.uview(s, I.num(s, delta), 64)
        k0 = I.need_const(s, mem_i32(I, s, k), limit=2000)
        me = I.need_const(s, me, limit=200)
        sv = -me
        if not run.hold(s, 'scaling', S_LO <= sv <= S_HI, 'scaled exponent %d outside [-%d, -%d]' % (me, S_HI, S_LO)):
            return None
        run.oblige(s, 'scaling', ge(sub(mf, 1 << sv)), 'scaled boundary below one')
        if mem or inside or tight:
            run.oblige(s, 'digit-count', ge(sub(scale(d, 10 ** 16), mf)), 'interval too narrow for %d digits' % MAXLEN)
            run.oblige(s, 'digit-count', c_and([ge(sub(d, 1)), ge(sub(sub(mf, 1), d))]), 'interval wider than the value')
        if inside:
            # [Mp - delta, Mp] * 2^me * 10^k0 strictly inside the rounding interval
            f = m if E == 0 else add(m, 1 << 52)
            q = (1 if E == 0 else E) - 1075
            X = Fraction(2) ** me * Fraction(10) ** k0
            Yh = Fraction(2) ** (q - 1)
            hi = add(scale(f, 2), 1)
            z = X / Yh
            run.oblige(s, 'inside-rounding-interval', ge(sub(sub(scale(hi, z.denominator), scale(mf, z.numerator)), 1)),
                       'scaled upper bound not below the upper rounding boundary')
            low = sub(mf, d)
            if E > 1:
                z0 = I.truth(s, interp.unc(eq(m)))
            else:
                z0 = False
            lo4 = sub(scale(f, 4), 1 if z0 else 2)
            z = X / (Yh / 2)
            run.oblige(s, 'inside-rounding-interval', ge(sub(sub(scale(low, z.numerator), scale(lo4, z.denominator)), 1)),
                       'scaled lower bound not above the lower rounding boundary')
        if tight:
            # the scaled interval gives away at most a 256th of the rounding interval at either end, and W is as near to the value
            f = m if E == 0 else add(m, 1 << 52)
            q = (1 if E == 0 else E) - 1075
            X = Fraction(2) ** me * Fraction(10) ** k0 / Fraction(2) ** (q - 2)          # in quarters of a unit in the last place
            z0 = E > 1 and I.truth(s, interp.unc(eq(m)))
            lim = Fraction(3 if z0 else 4, MARGIN)
            hi, lo_, v = add(scale(f, 4), 2), sub(scale(f, 4), 1 if z0 else 2), scale(f, 4)
            den = X.denominator * lim.denominator

            def within(a, b, what):
                # a - b <= lim
                run.oblige(s, 'tight-interval', ge(sub(int(lim * den), sub(a, b))), what)
            sx = int(X * den)
            run.oblige(s, 'tight-interval', eq(sub(we, -sv)), 'the scaled value and the scaled boundary have different exponents')
            within(scale(hi, den), scale(mf, sx), 'scaled upper bound too far below the upper rounding boundary')
            within(scale(sub(mf, d), sx), scale(lo_, den), 'scaled lower bound too far above the lower rounding boundary')
            within(scale(v, den), scale(wf, sx), 'scaled value too low')
            within(scale(wf, sx), scale(v, den), 'scaled value too high')
            run.oblige(s, 'tight-interval', c_and([ge(sub(mf, wf)), ge(sub(d, sub(mf, wf)))]), 'scaled value outside the scaled interval')
        raise interp.PathEnd('digits')
    run.hook(gd, hook)
    r = run.go([], setup=setup, onthrow=None, onret=lambda s, v: run.fail(s, 'digit-arguments', 'grisu2 returns without generating digits'))
    if alone:
        texts = []
        f = single(M, cfg, 1 << 52, rules, mem=mem, texts=texts)
        if f:
            attach(run, r, f)
        elif not texts:
            r.unknown('short-text', 'the text of the smallest normal number could not be determined')
        r.ob('short-text', bool(texts) and not f)
    r.samples.append('A: biased exponent %d, any significand: %d partitions' % (E, r.paths))

    def cands(v):
        w = v['witness'] or {}
        mm = int(w.get('m', 1))
        return [(E << 52) | x for x in (mm, max(mm - 1, 0 if E else 1), min(mm + 1, M52), 1, M52, 0 if E else 2)]
    return Collect(run, rules, cands).finish(r, M, cfg, mem, limit=8)


# ---------------------------------------------------------------- phase B
def phase_b(key, cfg, sv, regime, rules, mem, budget, seed):
    M = _M[key]
    gd, gr = fn_digits(M), fn_round(M)
    L = diy_layout(M)
    if gd is None or L is None:
        r = Result()
        r.unknown('structure', 'generateDigits not found under its name: phase B not applicable', config=cfg)
        return r
    run = Run(M, cfg, gd, kinds=MEMKINDS if mem else (), seed=seed, budget=budget)
    I = run.I
    mp = run.sym('Mp', 1 << sv, (1 << 64) - 1)
    dl = run.sym('delta', 1, (1 << 64) - 1)
    wf = run.sym('W', 0, (1 << 64) - 1)
    k0 = run.sym('k0', -400, 400)
    tight = 'short-text' in rules
    box = {}

    def power(s):
        return I.need_const(s, sub(mem_i32(I, s, Ptr(box['k'], 0)), k0), limit=100)

    def number(s, bs):
        D = 0
        for b in bs:
            D = add(scale(D, 10), sub(b, 48))
        return s.st.simp(D)

    def scaled(kp):
        """(upper bound, value, interval, unit) at the scale of the digits"""
        if kp >= 0:
            return mp, wf, dl, 10 ** kp << sv
        return scale(mp, 10 ** -kp), scale(wf, 10 ** -kp), scale(dl, 10 ** -kp), 1 << sv

    def setup(s, args):
        W = diy_put(s, 'W', wf, -sv, L)
        P = diy_put(s, 'Mp', mp, -sv, L)
        buf = s.new(MAXLEN, 'arg', 'digit buffer')
        ln = s.new(4, 'arg', 'length')
        k = s.new(4, 'arg', 'decimal exponent')
        k.cells[0] = (4, k0)
        box.update(buf=buf.id, ln=ln.id, k=k.id)
        s.st.assume(ge(sub(sub(mp, 1), dl)))
        s.st.assume(ge(sub(scale(dl, 10 ** 16), mp)))
        if tight:
            s.st.assume(ge(sub(mp, wf)))
            s.st.assume(ge(sub(add(wf, dl), mp)))
        c = ge(sub(mp, scale(dl, 1 << 51)))
        s.st.assume(c if regime == 'normal' else c_not(c))
        return [Ptr(W.id, 0), Ptr(P.id, 0), dl, Ptr(buf.id, 0), Ptr(ln.id, 0), Ptr(k.id, 0)]

    jn = [0]

    def roundhook(I, s, ins, a):
        buf, ln, delta, rest, tk, wp = a
        n = I.need_const(s, I.sview(s, I.num(s, ln), 32), limit=100)
        delta, rest, tk = (I.uview(s, I.num(s, x), 64) for x in (delta, rest, tk))
        if not run.hold(s, 'round-arguments', isinstance(buf, Ptr) and buf.obj is not None and n >= 1, 'rounding without a digit'):
            return None
        p = Ptr(buf.obj, add(buf.off, n - 1), buf.zlo, buf.zhi)
        b = I.load(s, p, ('int', 8))
        b = I.uview(s, I.num(s, b), 8)
        tk = I.need_const(s, tk, limit=4, why='ten_kappa')
        d = sub(b, 48)
        ok = run.oblige(s, 'round-arguments', c_and([ge(d), ge(sub(9, d))]), 'the last character is not a digit before rounding')
        ok &= run.oblige(s, 'round-arguments', ge(sub(delta, rest)), 'rounding starts outside the interval')
        ok &= run.oblige(s, 'round-arguments', ge(sub(add(scale(d, tk), rest), delta) if n > 1 else sub(sub(add(scale(d, tk), rest), delta), 1)),
                         'rounding could take the last digit below zero')
        run.hold(s, 'round-arguments', tk >= 1, 'zero rounding unit')
        if tight:
            H, V, L, u = scaled(power(s))
            bs = [I.uview(s, I.num(s, x), 8) for x in I.load_bytes(s, s.mem[buf.obj], buf.off, n)]
            run.hold(s, 'round-arguments', tk == u, 'the rounding unit is not that of the last digit')
            run.oblige(s, 'round-arguments', eq(sub(rest, sub(H, scale(number(s, bs), u)))), 'the rest is not that of the digits')
            run.oblige(s, 'round-arguments', eq(sub(I.uview(s, I.num(s, wp), 64), sub(H, V))), 'rounding towards another value')
            run.oblige(s, 'round-arguments', eq(sub(delta, L)), 'rounding in another interval')
        if not ok:
            raise interp.PathEnd('violation')
        jn[0] += 1
        j = dom.sym('j_%d_%d_%d' % (n, tk, s.nsplit), 0, 9)
        s.st.assume(ge(sub(d, j)))
        s.st.assume(ge(sub(sub(delta, rest), scale(j, tk))))
        if n == 1:
            s.st.assume(ge(sub(sub(d, j), 1)))
        I.store(s, p, ('int', 8), sub(b, j))
        return None
    if gr is not None:
        run.hook(gr, roundhook)

    def onret(s, v):
        n = I.need_const(s, mem_i32(I, s, Ptr(box['ln'], 0)), limit=100)
        if not run.hold(s, 'digit-count', 1 <= n <= MAXLEN, '%d digits' % n):
            return
        kp = power(s)
        bs = [I.uview(s, I.num(s, x), 8) if x is not UNDEF else UNDEF for x in I.load_bytes(s, s.mem[box['buf']], 0, n)]
        if any(b is UNDEF for b in bs):
            run.fail(s, 'digit-count', 'an uninitialised digit')
            return
        for i, b in enumerate(bs):
            run.oblige(s, 'digits', c_and([ge(sub(b, 48 if i else 49)), ge(sub(57, b))]), 'digit %d is not %s' % (i, 'a digit' if i else 'a non-zero digit'))
        D = number(s, bs)
        H, V, lim, u = scaled(kp)
        R = sub(H, scale(D, u))
        if tight:
            # with one digit less, the largest number up to the upper bound is not above the lower bound
            T = add(R, scale(sub(bs[-1], 48), u))
            run.oblige(s, 'no-shorter', ge(sub(T, lim)), 'a number with fewer digits is in the interval')
            run.oblige(s, 'no-shorter', ge(sub(sub(10 * u, 1), T)), 'the digits are not those of the upper bound')
            if gr is None:
                w = sub(H, V)
                up, dn = sub(w, R), sub(add(scale(R, 2), u), scale(w, 2))
                if not I.truth(s, interp.unc(ge(neg(up)))) and not I.truth(s, interp.unc(ge(sub(sub(add(R, u), lim), 1)))):
                    run.oblige(s, 'nearest', ge(dn), 'the next lower number is nearer to the value')
                if I.truth(s, interp.unc(ge(sub(R, u)))):
                    run.oblige(s, 'nearest', ge(add(sub(scale(w, 2), scale(R, 2)), u)), 'the next higher number is nearer to the value')
        run.oblige(s, 'digits-in-interval', ge(R), 'the digits denote more than the upper bound')
        run.oblige(s, 'digits-in-interval', ge(sub(lim, R)), 'the digits denote less than the lower bound')

    def onlimit(s, info):
        run.I.want_kinds.add('terminates')
        run.r.ob('terminates', False)
        I.report(s, 'terminates', 'digit generation does not terminate (%s)' % info)
    I.LOOPMAX = 80
    r = run.go([], setup=setup, onret=onret, onlimit=onlimit)
    r.ob('terminates', True)
    r.samples.append('B: scaling 2^-%d, %s intervals: %d partitions' % (sv, regime, r.paths))

    def cands(v):
        w = v['witness'] or {}
        return doubles_for(sv, int(w.get('Mp', 0)), int(w.get('delta', 0))) + doubles_for(sv, (1 << 63) + 12345678901234567, 1024)
    return Collect(run, rules, cands).finish(r, M, cfg, mem, limit=40)


# ---------------------------------------------------------------- phase G
def phase_g(key, cfg, n, rules, mem, budget, seed):
    M = _M[key]
    gr = fn_round(M)
    if gr is None:
        r = Result()
        r.notes.append('grisuRound not found under its name: analysed inside generateDigits')
        return r
    tot = Result()
    for d in range(10):
        if n == 1 and d == 0:
            continue
        dom.reset()
        tot.merge(phase_g1(M, cfg, gr, n, d, rules, mem, budget, seed))
    return tot


def phase_g1(M, cfg, gr, n, d, rules, mem, budget, seed):
    run = Run(M, cfg, gr, kinds=MEMKINDS if mem else (), seed=seed, budget=budget)
    I = run.I
    U = (1 << 64) - 1
    dl, rest, tk, wp = (run.sym(x, 0 if x != 'ten_kappa' else 1, U) for x in ('delta', 'rest', 'ten_kappa', 'wp_w'))
    others = [run.sym('c%d' % i, 48, 57) for i in range(n - 1)]
    box = {}

    def setup(s, args):
        buf = s.new(MAXLEN, 'arg', 'digit buffer')
        for i, c in enumerate(others):
            buf.cells[i] = (1, c)
        buf.cells[n - 1] = (1, 48 + d)
        box['buf'] = buf.id
        s.st.assume(ge(sub(dl, rest)))
        c = sub(add(scale(tk, d), rest), dl)
        s.st.assume(ge(c if n > 1 else sub(c, 1)))
        return [Ptr(buf.id, 0), n, dl, rest, tk, wp]

    def onret(s, v):
        bs = I.load_bytes(s, s.mem[box['buf']], 0, n)
        if any(b is UNDEF for b in bs):
            run.fail(s, 'round-effect', 'an uninitialised digit')
            return
        for i in range(n - 1):
            run.oblige(s, 'round-effect', eq(sub(bs[i], others[i])), 'rounding changes digit %d' % i)
        j = sub(48 + d, I.uview(s, I.num(s, bs[n - 1]), 8))
        j = I.need_const(s, j)
        run.hold(s, 'round-effect', 0 <= j <= (d if n > 1 else d - 1), 'rounding takes the last digit %d to %d' % (d, d - j))
        run.oblige(s, 'round-effect', ge(sub(sub(dl, rest), scale(tk, j))), 'rounding leaves the interval')
        if 'nearest-text' in rules:
            R = add(rest, scale(tk, j))
            if j:
                # the previous candidate is not nearer: wp - (R - tk) >= R - wp
                run.oblige(s, 'nearest', ge(add(sub(scale(wp, 2), scale(R, 2)), tk)), 'rounding moves away from the value')
            if j < (d if n > 1 else d - 1) and not I.truth(s, interp.unc(ge(sub(R, wp)))) and not I.truth(s, interp.unc(ge(sub(sub(add(R, tk), dl), 1)))):
                run.oblige(s, 'nearest', ge(sub(add(scale(R, 2), tk), scale(wp, 2))), 'rounding stops before the nearest number')

    def onlimit(s, info):
        run.I.want_kinds.add('terminates')
        run.r.ob('terminates', False)
        I.report(s, 'terminates', 'rounding does not terminate (%s)' % info)
    I.LOOPMAX = 40
    r = run.go([], setup=setup, onret=onret, onlimit=onlimit)
    r.samples.append('G: %d digits, last digit %d: %d partitions' % (n, d, r.paths))
    return Collect(run, rules, lambda v: notable()[:160]).finish(r, M, cfg, mem, limit=160)


# ---------------------------------------------------------------- phase P


def f32map(cls):
    """float class -> (float bits, double bits) as functions of fresh symbols; cls: ('normal',) ('sub', j) ('inf',) ('nan',) ('zero',)"""
    pass


def setup_input(run, ty, cls, sg):
    """cls: number | zero | inf | nan; returns (args, magnitude of the double, ghost updates)"""
    sgn = sg
    if ty == 'double' or ty == 'ldouble':
        if cls == 'number':
            x = run.sym('x', 1, INFB - 1)
        elif cls in ('zero', 'under'):
            x = 0
        elif cls in ('inf', 'over'):
            x = INFB
        else:
            x = run.sym('x', INFB + 1, (1 << 63) - 1)
        b = add(x, sgn << 63)
        if ty == 'double':
            return [dbl(b) if isinstance(b, Poly) else run.I.ffrombits('double', b)], x, {}
        arg = F('t', 'x86_fp80', ('arg', sgn, cls))
        res = dbl(b) if isinstance(b, Poly) else run.I.ffrombits('double', b)

        def tr(v, fmt):
            if v == arg and fmt == 'double':
                return res
            return None
        return [arg], x, {'fptrunc': tr, 'ldclass': ('number' if cls in ('over', 'under') else cls, sgn)}
    # float
    F32INF = 0xff << 23
    if cls == 'zero':
        return [F('k', 'float', -0.0 if sgn else 0.0)], 0, {}
    if cls == 'inf':
        return [F('k', 'float', float('-inf') if sgn else float('inf'))], INFB, {}
    if cls == 'nan':
        p = run.sym('p', 1, (1 << 23) - 1)
        fb = add(p, F32INF)
        q = run.sym('q', 0, (1 << 22) - 1)
        # conversion quiets a NaN: payload bits below the quiet bit are kept
        db = add(scale(q, 1 << 29), INFB + (1 << 51))
    elif cls == 'number':
        e = run.sym('e', 1, 254)
        m = run.sym('m', 0, (1 << 23) - 1)
        fb = add(scale(e, 1 << 23), m)
        db = add(scale(add(e, 896), 1 << 52), scale(m, 1 << 29))
    else:                                    # subnormal with leading bit j
        j = cls[1]
        m = run.sym('m', 0, (1 << j) - 1) if j else 0
        fb = add(m, 1 << j)
        db = add(scale(m, 1 << (52 - j)), (1023 - 149 + j) << 52)
    fb = add(fb, sgn << 31)
    mag = db
    db = add(db, sgn << 63)
    if isinstance(fb, int):
        return [run.I.ffrombits('float', fb)], mag, {}
    return [F('b', 'float', fb)], mag, {'f32': (fb, db)}


FREQ = ('double', 'float', 'ldouble')


def phase_p(key, cfg, pre, ty, cls, sg, n, rules, mem, budget, seed, lits=LITS, more=None):
    """FormatFloat of a finite value with n digits (n = None for zero, inf, nan)"""
    M = _M[key]
    g2 = fn_grisu2(M)
    entry = pre + ty
    run = Run(M, cfg, entry, kinds=MEMKINDS if mem else (), seed=seed, budget=budget)
    I = run.I
    args, mag, ghost = setup_input(run, ty, cls, sg)
    ds = []
    k = 0
    if n is not None:
        if g2 is None:
            run.r.unknown('structure', 'grisu2 not found under its name: phase P not applicable', config=cfg)
            return run.r
        ds = [run.sym('d%d' % i, 0 if i else 1, 9) for i in range(n)]
        k = run.sym('k', -323 - n, 309 - n)
    seen = [0]
    digits = []
    if cls in EXTREME:
        run.inputs['value'] = ('-' if sg else '') + ('1e400L' if cls == 'over' else '1e-400L')
        cls = 'inf' if cls == 'over' else 'zero'

    def setup(s, a):
        s.ghost.update(ghost)
        return args

    def g2hook(I, s, ins, a):
        seen[0] += 1
        v, buf, ln, kp = a
        if n is None:
            digits.append(1)
            if 'special-literals' in rules:
                run.fail(s, 'special-literals', 'digits are generated for a value that is not a non-zero number')
            raise interp.PathEnd('violation')
        b = I.uview(s, I.num(s, I.fbits(s, v)), 64)
        if 'identifies-the-double' in rules or 'short-text' in rules or mem:
            run.oblige(s, 'magnitude', eq(sub(b, mag)), 'digits are generated for another value than the magnitude of the argument')
        I.bounds(s, buf, MAXLEN, True, 'digits')
        o = s.w(buf.obj)
        off = I.need_const(s, buf.off)
        for i, d in enumerate(ds):
            I.clear(s, o, off + i, 1)
            o.cells[off + i] = (1, add(d, 48))
        I.store(s, ln, ('int', 32), n)
        I.store(s, kp, ('int', 32), k)
        return None
    if g2 is not None:
        run.hook(g2, g2hook)

    def hook(I, s, ins, a):
        if more is not None:
            s.ghost['text'] = more.obj(run, s, a)
            return
        r = obj_bytes(run, s, a, 'float-storage') if mem else obj_quiet(run, s, a)
        if r is None:
            return
        bs = r[0][:-1]
        if any(b is UNDEF for b in r[0]):
            if mem:
                run.fail(s, 'uninit', 'the text or its terminator contains an uninitialised byte')
            elif any(b is UNDEF for b in bs):
                run.fail(s, 'number-notation' if 'number-notation' in rules else 'identifies-the-double', 'uninitialised byte in the text')
            return
        check_text(run, s, bs, cls, sg, ds, k, rules, lits)
    run.hook('vf_obj', hook)
    if hasattr(more, 'hooks'):
        more.hooks(run)
    run.hook('vf_str', (lambda I, s, ins, a: more.str(run, s, a)) if more is not None else (lambda I, s, ins, a: None))

    def onlimit(s, info):
        if 'terminates' in rules:
            run.I.want_kinds.add('terminates')
            run.r.ob('terminates', False)
            I.report(s, 'terminates', 'formatting does not terminate (%s)' % info)
    I.LOOPMAX = 200
    r = run.go([], setup=setup, onlimit=onlimit)
    r.samples.append('P: %s, %s%s, %s: %d partitions' % (ty, '-' if sg else '+', cls, 'any %d digits and exponent' % n if n else 'literal', r.paths))
    if n is None:
        if digits and not r.violations:
            # digit generation is only analysed for numbers: refine to single inputs
            S = sg << 63
            xs = [(x, sg) for x in EXTREME] if ty == 'ldouble' else []
            xs += [S] if cls == 'zero' else [S + INFB] if cls == 'inf' else [S + INFB + 1, S + INFB + (1 << 51)]
            for x in xs:
                f = single(M, cfg, x, rules, entry=entry, lits=lits, seed=seed, mem=mem, ty=ty, more=more)
                if f:
                    attach(run, r, f)
                    break
            else:
                r.unknown('structure', 'digits are generated for a value that is not a non-zero number', config=cfg)
        return r

    def cands(v):
        w = v['witness'] or {}
        dd = [int(w.get('d%d' % i, 1 if i == 0 else 5)) for i in range(n)]
        kk = int(w.get('k', 0))
        out = doubles_for_text(sg, dd, kk)
        # other digits of the same length and exponent
        for alt in ([1] + [0] * (n - 2) + [5] if n > 1 else [3], ([1, 2, 3, 4, 5, 6, 7, 8, 9, 1, 2, 3, 4, 5, 6, 7, 8])[:n], [9] * n):
            out += doubles_for_text(sg, alt, kk)
        return out
    return Collect(run, rules, cands, ty=ty, entry=entry, lits=lits, more=more).finish(r, M, cfg, mem, limit=24)


def obj_quiet(run, s, a):
    """text bytes for rules that are not about storage: no finding of its own"""
    I = run.I
    self_, ss, data, cstr, size, length = a
    size = I.need_const(s, I.uview(s, size, 64), limit=5000)
    if not isinstance(data, Ptr) or data.obj is None or size > 4096:
        return None
    o = s.mem[data.obj]
    if not o.alive:
        return None
    off = I.need_const(s, data.off)
    return I.load_bytes(s, o, off, size + 1), size


def check_text(run, s, bs, cls, sg, ds, k, rules, lits):
    I = run.I
    bs = [u8(I, s, b) for b in bs]
    if cls in ('nan', 'inf'):
        if 'special-literals' in rules:
            lit = lits[0] if cls == 'nan' else lits[1 + sg]
            same_bytes(run, s, 'special-literals', bs, list(lit), 'the text of %s' % ('a NaN' if cls == 'nan' else 'an infinity'))
        return
    if 'special-literals' in rules:
        for l in lits:
            c = c_and([eq(sub(b, x)) for b, x in zip(bs, l)]) if len(bs) == len(l) else FALSE
            run.oblige(s, 'special-literals', c_not(c), 'a finite value formats as %r' % l)
    if cls == 'zero':
        if 'number-notation' in rules:
            same_bytes(run, s, 'number-notation', bs, list(b'0.0'), 'the text of zero')
        elif 'identifies-the-double' in rules:
            t = bytes(b for b in bs if isinstance(b, int))
            ok = len(t) == len(bs)
            try:
                ok = ok and Fraction(t.decode()) == 0
            except Exception:
                ok = False
            run.hold(s, 'identifies-the-double', ok, 'zero formats as %r' % t)
        return
    if not ({'number-notation', 'identifies-the-double', 'short-text'} & set(rules)):
        return
    NR = 'number-notation' if 'number-notation' in rules else None
    VR = 'identifies-the-double' if 'identifies-the-double' in rules else 'short-text' if 'short-text' in rules else None

    def bad(msg):
        run.fail(s, NR or VR, msg)
    n = len(ds)
    if sg:
        if not bs or not run.oblige(s, NR or VR, eq(sub(bs[0], 45)), 'a negative value does not start with a minus sign'):
            if not bs:
                bad('empty text')
            return
        bs = bs[1:]

    def dig(b):
        """is this byte a digit (concretely known); splits otherwise"""
        if isinstance(b, int):
            return 48 <= b <= 57
        return I.truth(s, interp.unc(c_and([ge(sub(b, 48)), ge(sub(57, b))])))

    def is_(b, v):
        return b == v if isinstance(b, int) else I.truth(s, interp.unc(eq(sub(b, v))))
    i = 0
    N = len(bs)
    ip = []
    while i < N and dig(bs[i]):
        ip.append(sub(bs[i], 48))
        i += 1
    fp = []
    if not ip:
        return bad('the text has no digit before the decimal point')
    if i < N and is_(bs[i], 46):
        i += 1
        while i < N and dig(bs[i]):
            fp.append(sub(bs[i], 48))
            i += 1
        if not fp:
            return bad('no digit after the decimal point')
    kk = add(k, n)
    plain = c_and([ge(add(kk, 5)), ge(sub(21, kk))])
    if i == N:
        # plain
        if NR:
            if not run.oblige(s, NR, plain, 'plain notation although the decimal point is too far from the first digit'):
                return
            run.hold(s, NR, bool(fp), 'plain notation without a fraction part')
            if len(ip) > 1:
                run.oblige(s, NR, ge(sub(ip[0], 1)), 'superfluous leading zero')
        if VR or NR:
            kc = I.need_const(s, k, limit=2000)
            if VR == 'short-text':
                run.hold(s, VR, len(fp) == max(1, -kc), 'the text has zeros after the last digit')
            T = D = 0
            for d in ip + fp:
                T = add(scale(T, 10), d)
            for d in ds:
                D = add(scale(D, 10), d)
            e1, e2 = -len(fp), kc
            mn = min(e1, e2)
            run.oblige(s, VR or NR, eq(sub(scale(T, 10 ** (e1 - mn)), scale(D, 10 ** (e2 - mn)))), 'the text does not denote the generated digits and exponent')
        return
    if not is_(bs[i], 101):
        return bad('unexpected character in the text')
    i += 1
    if NR:
        if not run.oblige(s, NR, c_not(plain), 'scientific notation although the decimal point is close to the first digit'):
            return
        run.hold(s, NR, len(ip) == 1, 'more than one digit before the decimal point in scientific notation')
        run.oblige(s, NR, ge(sub(ip[0], 1)), 'zero leading digit in scientific notation')
    ex = bs[i:]
    int_text(run, s, ex, sub(add(kk, -1), len(ip) - 1), NR or VR)
    mant = ip + fp
    if VR == 'short-text':
        run.hold(s, VR, len(mant) == n, 'the text has zeros after the last digit')
    for j in range(max(len(mant), n)):
        x = mant[j] if j < len(mant) else 0
        y = ds[j] if j < n else 0
        if not run.oblige(s, VR or NR, eq(sub(x, y)), 'digit %d of the text differs from the generated digit' % j):
            return


# ---------------------------------------------------------------- classification functions
def cls_task(key, cfg, budget, seed):
    M = _M[key]
    tot = Result()
    S = 1 << 63
    ranges = {'+0': (0, 0), '+sub': (1, M52), '+norm': (1 << 52, INFB - 1), '+inf': (INFB, INFB), '+nan': (INFB + 1, S - 1)}
    want = {'isNan': lambda c: c[1:] == 'nan', 'isInf': lambda c: c[1:] == 'inf', 'isInfinity': lambda c: c == '+inf',
            'isNegativeInfinity': lambda c: c == '-inf', 'isFinite': lambda c: c[1:] not in ('nan', 'inf'), 'isZero': lambda c: c[1:] == '0',
            'isPositive': lambda c: c[0] == '+'}
    for nm, w in want.items():
        for c0, (lo, hi) in ranges.items():
            for sg in (0, 1):
                dom.reset()
                c = ('-' if sg else '+') + c0[1:]
                run = Run(M, cfg, 'e_' + nm, seed=seed, budget=budget)
                x = run.sym('x', lo, hi) if lo != hi else lo
                b = add(x, sg << 63)

                def onret(s, v, run=run, nm=nm, c=c):
                    r = run.I.uview(s, run.I.num(s, v), 32)
                    run.oblige(s, 'classification', eq(sub(r, 1 if want[nm](c) else 0)), '%s is wrong on a %s pattern' % (nm, c))
                tot.merge(run.go([dbl(b) if isinstance(b, Poly) else run.I.ffrombits('double', b)], onret=onret))
    return tot


# ---------------------------------------------------------------- the properties
def chunks(xs, n):
    return [xs[i::n] for i in range(n)]


def p_tasks(k, cfg, pre, rules, mem, seed, tier, lits=None, types=FREQ, more=None, ns=None, specials=True):
    tasks = []
    kw = {}
    extra = (lits or LITS, more)
    for ty in types:
        for sg in (0, 1):
            if specials:
                for cls in ('zero', 'inf', 'nan') + (('over', 'under') if ty == 'ldouble' else ()):
                    tasks.append((phase_p, (k, cfg, pre, ty, cls, sg, None, rules, mem, 100, seed) + extra, 'P/%s/%s' % (ty, cls)))
            lens = ns or (range(1, MAXLEN + 1) if ty == 'double' else (1, 2, 9, 17))
            for n in lens:
                tasks.append((phase_p, (k, cfg, pre, ty, 'number', sg, n, rules, mem, 200, seed) + extra, 'P/%s/%d' % (ty, n)))
            if ty == 'float':
                for j in range(23):
                    tasks.append((phase_p, (k, cfg, pre, ty, ('sub', j), sg, 3, rules, mem, 100, seed) + extra, 'P/float/sub%d' % j))
    return tasks


def ab_tasks(k, cfg, rules, mem, seed, tier):
    tasks = []
    exps = [0] + list(range(1, 2047))
    for ch in chunks(exps, 64):
        tasks.append((phase_a, (k, cfg, ch, rules, mem, 100, seed), 'A'))
    for sv in range(S_LO, S_HI + 1):
        for reg in ('normal', 'wide'):
            tasks.append((phase_b, (k, cfg, sv, reg, rules, mem, 200, seed), 'B/%d/%s' % (sv, reg)))
    for n in range(1, MAXLEN + 1):
        tasks.append((phase_g, (k, cfg, n, rules, mem, 100, seed), 'G/%d' % n))
    return tasks


def mk(tier, seed, rules, mem, ab=True, cfgs=None):
    cfgs = cfgs or CFG
    prepare(['format.cpp'], cfgs)
    tasks = []
    for k in list(_M):
        if k[0] != ('format.cpp',):
            continue
        if ab:
            tasks += ab_tasks(k, k[1], rules, mem, seed, tier)
        tasks += p_tasks(k, k[1], 'e_fmt_', rules, mem, seed, tier)
    return tasks, list(cfgs)


def C05(tier, seed):
    rules = ('terminates', 'float-storage')
    t, c = mk(tier, seed, rules, True)
    return t, c, 1000, lambda: refine_tasks(rules, True, seed)


def C06(tier, seed):
    t, c = mk(tier, seed, ('identifies-the-double',), False)
    return t, c, 1000, lambda: refine_tasks(('identifies-the-double',), False, seed)


def C27(tier, seed):
    rules = ('short-text', 'nearest-text')
    t, c = mk(tier, seed, rules, False)
    return t, c, 1000, lambda: refine_tasks(rules, False, seed)


def C07(tier, seed):
    t, c = mk(tier, seed, ('number-notation',), False, ab=False)
    return t, c, 500, lambda: refine_tasks(('number-notation',), False, seed)


def C08(tier, seed):
    prepare(['classify.cpp'], dict(CFG, portable=build.PORTABLE))
    tasks = []
    for k in list(_M):
        tasks.append((cls_task, (k, k[1], 100, seed), 'classify'))
    t, c = mk(tier, seed, ('special-literals',), False, ab=False)
    return tasks + t, c, 200, lambda: refine_tasks(('special-literals',), False, seed)


class Views:
    """C09: every view of the same formatter"""
    rules = ('views-agree', 'null-terminated', 'string-equals-text')

    def obj(self, run, s, a):
        from .simple import c09_views
        return c09_views(run, s, a)

    def str(self, run, s, a):
        t = s.ghost.get('text')
        if a[0] in (0, 1) and t is not None:
            same_bytes(run, s, 'string-equals-text', str_bytes(run, s, a[1]), t, ('string()', 'conversion to std::string')[a[0]])


class Free:
    """C17: free functions and members give the same text"""
    rules = ('free-function-agrees',)

    def __init__(self, free):
        self.free = free

    def obj(self, run, s, a):
        r = obj_quiet(run, s, a)
        t = s.ghost.get('text')
        if r is None:
            return t
        if t is None:
            return r[0][:-1]
        same_bytes(run, s, 'free-function-agrees', r[0][:-1], t, 'Format()(x)')
        return t

    def str(self, run, s, a):
        t = s.ghost.get('text')
        if t is None:
            return
        nm = (('lexi(x)', 'string(x)', 'escape(x)', 'jsonify(x)') if self.free else ('string()', 'std::string(f)', 'f.escape()', 'f.jsonify()'))[a[0]]
        same_bytes(run, s, 'free-function-agrees', str_bytes(run, s, a[1]), t, nm)


def view_tasks(tier, seed, which):
    """float part of C09 and C17: any digits and exponent, every type"""
    tasks = []
    for k in list(_M):
        if k[0] != ('format.cpp',):
            continue
        ns = (1, 2, 9, 16, 17) if tier == 'quick' else range(1, MAXLEN + 1)
        if which == 'C09':
            tasks += p_tasks(k, k[1], 'e_str_', (), False, seed, tier, more=Views(), ns=ns)
        else:
            for pre, fr in (('e_str_', False), ('e_free_', True)):
                tasks += p_tasks(k, k[1], pre, (), False, seed, tier, more=Free(fr), ns=ns)
    return tasks


# ---------------------------------------------------------------- refinement of undischarged obligations
def refine(key, cfg, pats, rules, mem, ty, seed):
    """only used when some obligation could not be discharged: refine the analysis to notable bit patterns"""
    M = _M[key]
    r = Result()
    run = Run(M, cfg, 'e_fmt_' + ty, seed=seed)
    if pats and isinstance(pats[0], tuple):
        pats = [b for _, E in pats for b in near(E, seed, inner='short-text' in rules)]
    for b in pats:
        if check.LIMIT[0] and time.time() > check.LIMIT[0]:
            break
        dom.reset()
        f = single(M, cfg, b, rules, mem=mem, ty=ty)
        if f:
            attach(run, r, f)
            break
    return r


def refine_tasks(rules, mem, seed):
    tasks = []
    pats = notable(True)
    for k in list(_M):
        if k[0] != ('format.cpp',):
            continue
        for ty in FREQ:
            for ch in chunks(pats if ty == 'double' else pats[::4], 16):
                tasks.append((refine, (k, k[1], ch, rules, mem, ty, seed), 'refine'))
        if 'identifies-the-double' in rules or 'short-text' in rules:
            for ch in chunks([('near', E) for E in [0] + list(range(1, 2047, 8))], 64):
                tasks.append((refine, (k, k[1], ch, rules, mem, 'double', seed), 'refine'))
    return tasks
