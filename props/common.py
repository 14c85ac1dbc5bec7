"""Specifications shared by several properties."""
from engine import dom, interp, build
from engine.dom import add, sub, scale, ge, eq, ne, c_and, c_or, c_not, neg, Poly, TRUE, FALSE
from engine.interp import UNDEF, Ptr, StrRec, F
from engine.check import Run, MEMKINDS, Result

INTS = {'schar': (8, 1), 'uchar': (8, 0), 'short': (16, 1), 'ushort': (16, 0), 'int': (32, 1), 'uint': (32, 0),
        'long': (64, 1), 'ulong': (64, 0), 'llong': (64, 1), 'ullong': (64, 0)}
ENUMS = {'e8': (8, 1), 'eu8': (8, 0), 'e16': (16, 1), 'ec': (8, 1), 'ew': (32, 1), 'eu32': (32, 0), 'e64': (64, 1), 'eu64': (64, 0)}
POS = {'fpos': (64, 1)}


def int_types(cfg, *groups):
    """types by name -> (width, signed) in this configuration"""
    out = {}
    for g in groups or (INTS, ENUMS, POS):
        out.update(g)
    if cfg == 'unsigned-char' and 'ec' in out:
        out['ec'] = (8, 0)
    if cfg == 'ilp32':
        out['long'], out['ulong'] = (32, 1), (32, 0)
        out.pop('fpos', None)       # passed in memory there; its offset is a long long like any other
    return out


def irange(w, sg):
    return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)


def obj_bytes(run, s, a, rule='view'):
    """bytes of the text shown by a formatter (vf_obj arguments), after checking that they lie inside the object.
    Returns (list of bytes, size) or None."""
    I = run.I
    self_, ss, data, cstr, size, length = a
    size = I.need_const(s, I.uview(s, size, 64), limit=5000)
    if not isinstance(data, Ptr) or data.obj is None:
        run.fail(s, rule, 'data() is not a pointer into the formatter')
        return None
    o = s.mem[data.obj]
    off = I.need_const(s, data.off)
    if data.obj != self_.obj or not o.alive:
        run.fail(s, rule, 'data() points outside the formatter (into %s)' % o.name)
        return None
    base = I.need_const(s, self_.off)
    if not (base <= off and off + size + 1 <= base + ss):
        run.fail(s, rule, 'the text [%d,+%d] and its terminator do not lie inside the %d-byte formatter' % (off - base, size, ss))
        return None
    run.r.ob(rule, True)
    return I.load_bytes(s, o, off, size + 1), size


def str_bytes(run, s, p):
    """bytes of a std::string given by pointer"""
    I = run.I
    rec = I.models.getstr(I, s, p)
    return I.models.bytes_of(I, s, rec)


def u8(I, s, b):
    return I.uview(s, I.num(s, b), 8)


def same_bytes(run, s, rule, xs, ys, what):
    I = run.I
    if len(xs) != len(ys):
        run.fail(s, rule, '%s: %d bytes instead of %d' % (what, len(xs), len(ys)))
        return False
    ok = True
    for i, (x, y) in enumerate(zip(xs, ys)):
        if x is UNDEF or y is UNDEF:
            run.fail(s, rule, '%s: byte %d is uninitialised' % (what, i))
            return False
        c = eq(sub(u8(I, s, x), u8(I, s, y)))
        if not run.oblige(s, rule, c, '%s: byte %d differs' % (what, i)):
            ok = False
            break
    return ok


def int_text(run, s, bs, v, rule='canonical-decimal'):
    """bs: the text without terminator; v: the value (a polynomial with its mathematical range)"""
    I = run.I
    if any(b is UNDEF for b in bs):
        run.fail(s, rule, 'the text contains an uninitialised byte')
        return
    negv = I.truth(s, interp.unc(ge(sub(-1, v))))
    bs = [u8(I, s, b) for b in bs]
    if negv:
        if not bs:
            run.fail(s, rule, 'empty text')
            return
        if not run.oblige(s, rule, eq(sub(bs[0], 45)), 'a negative value does not start with a minus sign'):
            return
        bs = bs[1:]
    mag = neg(v) if negv else v
    if not bs:
        run.fail(s, rule, 'no digits')
        return
    tot = 0
    for i, b in enumerate(bs):
        if not run.oblige(s, rule, c_and([ge(sub(b, 48)), ge(sub(57, b))]), 'character %d is not a decimal digit' % (i + negv)):
            return
        tot = add(scale(tot, 10), sub(b, 48))
    if len(bs) > 1:
        if not run.oblige(s, rule, ge(sub(bs[0], 49)), 'leading zero'):
            return
    run.oblige(s, rule, eq(sub(tot, mag)), 'the digits do not denote the value')


def mkstr(run, s, bs, name='argument'):
    """a std::string argument with the given bytes"""
    o = s.new(32, 'arg', name)
    run.I.models.put(run.I, s, Ptr(o.id, 0), bs)
    return Ptr(o.id, 0)


def mklazy(run, s, name='s', maxlen=1 << 40, lo=0):
    """a std::string argument of any length and content"""
    if run.I.M.ptrsize == 4:
        maxlen = min(maxlen, 1 << 30)
    N = dom.sym('N_' + name, lo, maxlen)
    o = s.new(32, 'arg', 'argument')
    b = s.new(add(N, 1), 'strbuf', 'the argument string')
    b.lazy = (name, N)
    run.I.models.setstr(run.I, s, Ptr(o.id, 0), StrRec(b.id, N))
    return Ptr(o.id, 0), N


# ---------------------------------------------------------------- reference encodings
def inr(I, s, b, ranges):
    return I.truth(s, interp.unc(c_or([c_and([ge(sub(b, l)), ge(sub(h, b))]) for l, h in ranges])))


def escape_spec(I, s, bs):
    out = []
    for b in bs:
        b = u8(I, s, b)
        if inr(I, s, b, [(0, 47), (58, 64), (91, 96), (123, 126)]):
            out.append(92)
        out.append(b)
    return out


def json_decode(run, s, out, rule, what):
    """decode a JSON string literal given as a byte list; returns the byte list it denotes or None after reporting"""
    I = run.I
    n = len(out)
    if any(b is UNDEF for b in out):
        run.fail(s, rule, what + ': uninitialised byte in the literal')
        return None
    out = [u8(I, s, b) for b in out]

    def is_(b, v):
        return I.truth(s, interp.unc(eq(sub(b, v)))) if not isinstance(b, int) else b == v
    if n < 2 or not is_(out[0], 34) or not is_(out[n - 1], 34):
        run.fail(s, rule, what + ': the literal is not enclosed in double quotes')
        return None
    i = 1
    res = []
    while i < n - 1:
        b = out[i]
        if is_(b, 92):
            if i + 1 >= n - 1:
                run.fail(s, rule, what + ': lone backslash')
                return None
            c = I.need_const(s, out[i + 1])
            i += 2
            m = {34: 34, 92: 92, 47: 47, 98: 8, 102: 12, 110: 10, 114: 13, 116: 9}
            if c in m:
                res.append(m[c])
            elif c == 117:
                v = 0
                if i + 4 > n - 1:
                    run.fail(s, rule, what + ': truncated \\u escape')
                    return None
                for j in range(4):
                    h = I.need_const(s, out[i + j])
                    d = '0123456789abcdef'.find(chr(h).lower()) if h < 128 else -1
                    if d < 0:
                        run.fail(s, rule, what + ': bad hexadecimal digit')
                        return None
                    v = v * 16 + d
                if v > 127:
                    run.fail(s, rule, what + ': a \\u escape above U+007F stands for other bytes')
                    return None
                res.append(v)
                i += 4
            else:
                run.fail(s, rule, what + ': unknown escape \\%s' % chr(c))
                return None
            continue
        if inr(I, s, b, [(0, 31)]):
            run.fail(s, rule, what + ': raw control character in the literal')
            return None
        if is_(b, 34):
            run.fail(s, rule, what + ': raw quote inside the literal')
            return None
        res.append(('raw', b))
        i += 1
    return res


def json_spec(run, s, src, out, rule, what='jsonify'):
    """out must be a JSON string literal for the bytes src, with bytes >= 0x20 other than quote/backslash unchanged"""
    I = run.I
    res = json_decode(run, s, out, rule, what)
    if res is None:
        return
    src = [u8(I, s, b) for b in src]
    if len(res) != len(src):
        run.fail(s, rule, what + ': the literal decodes to %d bytes instead of %d' % (len(res), len(src)))
        return
    for i, (x, y) in enumerate(zip(res, src)):
        if isinstance(x, tuple):
            ok = run.oblige(s, rule, eq(sub(x[1], y)), what + ': decoded byte %d differs' % i)
        else:
            ok = run.oblige(s, rule, eq(sub(x, y)), what + ': decoded byte %d differs' % i)
            if ok and not (x < 32 or x in (34, 92)):
                ok = run.fail(s, rule, what + ': byte 0x%02x must appear unchanged' % x)
        if not ok:
            return
