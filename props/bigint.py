"""C21 C22: BigInteger from any state, one operation at a time.

The object is given any words: count_ = n, words 0..n-1 symbolic (no superfluous leading zero word), the
rest uninitialised.  Every operation is analysed on it and the resulting words are compared with the exact
result as a polynomial identity over the input words.
"""
from .common import *
from .ints import _M, prepare
from .simple import interp_is_runtime

B = 1 << 64
U = B - 1
CFG = {'gcc': build.GCC, 'clang': [], 'msvc': build.MSVC, 'gcc-release': build.GCC + ['-DNDEBUG']}


def fields(M, t, off=0):
    """[(offset, type)] of the leaves of a struct, arrays of integers being leaves"""
    r = []
    for i, f in enumerate(t[2]):
        o = off + M.field_offset(t, i)
        f = M.resolve(f)
        r += fields(M, f, o) if f[0] == 'struct' else [(o, f)]
    return r


def layout(M):
    """(offset of the words, capacity, offset of the count, size, bytes of the count) from the type of the object"""
    for nm, t in M.types.items():
        if nm.strip('"').endswith('lexi::detail::BigInteger') and t[0] == 'struct':
            ws, cs, rest = [], [], []
            for o, f in fields(M, t):
                if f[0] == 'arr' and f[2] == ('int', 64):
                    ws.append((o, f[1]))
                elif f[0] == 'int' and f[1] in (8, 16, 32, 64):
                    cs.append((o, f[1] // 8))
                elif not (f[0] == 'arr' and f[2] == ('int', 8) and f[1] < 8):  # short arrays of bytes are padding
                    rest.append(f)
            if len(ws) == len(cs) == 1 and not rest:
                return ws[0][0], ws[0][1], cs[0][0], M.sizeof(t), cs[0][1]
    return None


def reach(L):
    """the largest number of words that the count can express"""
    return min(L[1], (1 << 8 * L[4]) - 1)


def words(run, name, n, kind='any'):
    """n words without a superfluous leading zero word: all of them any value, or, near the capacity, only the top ones"""
    if kind == 'top':
        return [(0x9e3779b97f4a7c15 * (i + 1)) & U for i in range(n - 2)] + [run.sym('%s%d' % (name, i), i == n - 1, U) for i in range(max(n - 2, 0), n)]
    if kind == 'max':
        return [U] * n
    if kind == 'small':
        return [U] * (n - 1) + [1]
    if kind == 'zero':
        return [0]
    if kind == 'nonzero':
        return [run.sym('%s%d' % (name, i), 1 if i == n - 1 else 0, U) for i in range(n)]
    ws = [run.sym('%s%d' % (name, i), 1 if i == n - 1 and n > 1 else 0, U) for i in range(n)]
    return ws


def put(s, L, ws, name):
    wo, cap, co, size, cw = L
    o = s.new(size, 'arg', name)
    for i, w in enumerate(ws):
        o.cells[wo + 8 * i] = (8, w)
    o.cells[co] = (cw, len(ws))
    return Ptr(o.id, 0)


def value(ws):
    v = 0
    for w in reversed(ws):
        v = add(scale(v, B), w)
    return v


class Big:
    def __init__(self, M, cfg, entry, rules, mem, budget, seed):
        self.L = layout(M)
        self.run = Run(M, cfg, entry, kinds=MEMKINDS if mem else (), seed=seed, budget=budget)
        self.I = self.run.I
        self.I.LOOPMAX = 2000
        dom.Store.keep = True
        self.mem = mem
        self.exact = not mem
        if mem:
            self.I.depthcap = 4
        self.want = {}

    def read(self, s, p):
        """words of the object at p, after checking its shape"""
        I, run = self.I, self.run
        wo, cap, co, size, cw = self.L
        n = I.need_const(s, I.uview(s, I.num(s, I.load(s, Ptr(p.obj, add(p.off, co)), ('int', 8 * cw))), 8 * cw), limit=cap + 2)
        if not 1 <= n <= cap:
            run.fail(s, 'count-in-range', 'the big integer has %d words' % n)
            raise interp.PathEnd('violation')
        off = I.need_const(s, p.off)
        o = s.mem[p.obj]
        ws = []
        for i in range(n):
            v = I.load(s, Ptr(p.obj, off + wo + 8 * i), ('int', 64))
            if v is UNDEF:
                run.fail(s, 'words-initialised', 'word %d of the result is uninitialised' % i)
                raise interp.PathEnd('violation')
            ws.append(I.uview(s, I.num(s, v), 64))
        run.r.ob('count-in-range', True)
        run.r.ob('words-initialised', True)
        return ws

    NAMES = {'mul64': 'operator*=(unsigned long)', 'mul32': 'operator*=(unsigned int)', 'shl': 'operator<<=(unsigned long)',
             'add': 'operator+=(unsigned long)', 'setw': 'operator=(unsigned long)', 'iszero': 'isZero() const',
             'pow5': 'mulPow5(unsigned int)'}

    def contracts(self, which):
        """replace the named operations by the contract that their own analysis establishes"""
        I, M = self.I, self.run.M
        cap = self.L[1]
        for k in which:
            for n, f in M.functions.items():
                if f.dem == 'lexi::detail::BigInteger::' + self.NAMES[k]:
                    self.run.hook(n, self.contract(k))

    def muladd(self):
        """mulAdd(a, b, k, &high) by its contract: high * 2^64 + result = a * b + k"""
        fn = fn_muladd(self.run.M)

        def h(I, s, ins, a):
            x, y, k = (I.uview(s, I.num(s, v), 64) for v in a[:3])
            v = add(distr(x, y), k)
            hi = dom.floor_div(v, B)
            I.store(s, a[3], ('int', 64), hi)
            return sub(v, scale(hi, B))
        if fn:
            self.run.hook(fn, h)

    def chunks(self):
        """BigInteger::add(first, last), analysed on its own from any state, only reads [first, last)"""
        def h(I, s, ins, a):
            o, f, l = a
            n = I.need_const(s, sub(l.off, f.off)) if f.obj == l.obj else -1
            self.run.hold(s, 'decimal-range', f.obj == l.obj and n >= 0, 'digits are appended from a reversed range')
            self.run.r.ob('decimal-range', True)
            if n > 0:
                I.bounds(s, f, n, False, 'digits')
            return None
        for n, f in self.run.M.functions.items():
            if 'lexi::detail::BigInteger::add(char const*, char const*)' in f.dem:
                self.run.hook(n, h)

    def val(self, s, p):
        off = self.I.need_const(s, p.off)
        v = s.ghost.get(('big', p.obj, off))
        if v is not None and s.mem[p.obj].cells.get(off + self.L[2], (0, 0))[1] == v[0]:
            return v[1]
        return value(self.read(s, p))

    def contract(self, k):
        I = self.I
        wo, cap, co, size, cw = self.L
        cap = reach(self.L)

        def h(I, s, ins, a):
            p = a[0]
            off = I.need_const(s, p.off)
            v = 0 if k == 'setw' else self.val(s, p)
            if k == 'iszero':
                return 1 if I.truth(s, interp.unc(eq(v))) else 0
            if k in ('shl', 'pow5'):
                n = I.need_const(s, I.uview(s, I.num(s, a[1]), 64 if k == 'shl' else 32))
                r = scale(v, (2 if k == 'shl' else 5) ** min(n, 64 * 1000))
            else:
                d = I.uview(s, I.num(s, a[1]), 32 if k == 'mul32' else 64)
                if k in ('mul64', 'mul32'):
                    d = I.need_const(s, d)
                r = d if k == 'setw' else add(v, d) if k == 'add' else scale(v, d)
            r = s.st.simp(r)
            if s.st.decide(ge(sub(B ** (cap - 1) - 1, r))) is not True:
                raise interp.Unsupported('contract of a big integer operation near its capacity')
            o = s.w(p.obj)
            I.clear(s, o, off, size)
            t = dom.sym('cnt_%d_%d' % (p.obj, s.steps), 1, cap)
            o.cells[off + co] = (cw, t)
            s.ghost[('big', p.obj, off)] = (t, r)
            s.ghost['approx'] = True
            return p
        return h

    def result(self, s, p, expect, what):
        off = self.I.need_const(s, p.off)
        v = s.ghost.get(('big', p.obj, off))
        if v is not None and s.mem[p.obj].cells.get(off + self.L[2], (0, 0))[1] == v[0]:
            old = s.ghost.pop('approx', None)
            self.run.oblige(s, 'exact', eq(sub(s.st.simp(v[1]), s.st.simp(expect))), '%s is not exact' % what)
            if old:
                s.ghost['approx'] = True
            return None
        ws = self.read(s, p)
        if self.exact:
            self.run.oblige(s, 'exact', eq(sub(s.st.simp(value(ws)), s.st.simp(expect))), '%s is not exact' % what)
            if len(ws) > 1:
                self.run.oblige(s, 'no-leading-zero-word', ge(sub(ws[-1], 1)), '%s has a superfluous leading zero word' % what)
        return ws

    def hooks(self, big=None, u=None, sgn=None):
        run, I = self.run, self.I
        run.hook('vf_big', lambda I, s, ins, a: big(s, a[0] if isinstance(a[0], int) else 0, a[1]))

        def hu(I, s, ins, a):
            if u:
                u(s, a[0], I.uview(s, I.num(s, a[1]), 64))
        run.hook('vf_u', hu)

        def hs(I, s, ins, a):
            if sgn:
                sgn(s, a[0], I.sview(s, I.num(s, a[1]), 64))
        run.hook('vf_s', hs)
        run.hook('vf_same', lambda I, s, ins, a: run.hold(s, 'exact', a[0].obj == a[1].obj and a[0].off == a[1].off, 'the operator does not return the object itself') if self.exact else None)

    def throws(self, allowed, what):
        """allowed(s): condition under which rejection is right"""
        def f(s, ty):
            self.run.hold(s, 'rejects-with-runtime_error', interp_is_runtime(self.I, ty), 'rejection raises %s' % ty)
            if self.exact and allowed is not None:
                self.run.oblige(s, 'not-rejected', allowed(s), '%s is rejected although its result fits' % what)
        return f


def task(op, key, cfg, a, mem, budget, seed):
    tot = Result()
    for x in a:
        dom.reset()
        if check_late():
            tot.unknown('budget', 'not analysed in time: %s %s' % (op, x))
            break
        tot.merge(OPS[op](_M[key], cfg, x, mem, budget, seed))
        if tot.violations:
            break
    return tot


def check_late():
    import time
    from engine import check
    return check.LIMIT[0] and time.time() > check.LIMIT[0]


def guarded(fn):
    def g(M, cfg, x, mem, budget, seed):
        if layout(M) is None:
            r = Result()
            r.unknown('structure', 'BigInteger is not an array of words and a count', config=cfg)
            return r
        return fn(M, cfg, x, mem, budget, seed)
    return g


def room(cap, bound):
    """condition that rejection is right: the exact result leaves no free word"""
    return lambda s: bound


def unary(entry, mk, what):
    """entry(object, operand): mk(run, x) -> words, operand value/poly, expected value, operand arg"""
    @guarded
    def f(M, cfg, x, mem, budget, seed):
        b = Big(M, cfg, entry, None, mem, budget, seed)
        run = b.run
        ws, arg, expect = mk(run, x)
        cap = b.L[1]

        def setup(s, args):
            if len(ws) > 1:
                s.st.assume(ge(sub(ws[-1], 1)))
            return [put(s, b.L, ws, 'the big integer')] + ([arg] if arg is not None else [])
        if entry == 'e_mul64' and not mem:
            b.muladd()
        if entry == 'e_pow5' and not mem:
            b.contracts(('mul64', 'mul32', 'setw', 'iszero'))
        b.hooks(big=lambda s, tag, p: b.result(s, p, expect, what))
        def big(s, tag, p):
            b.result(s, p, expect, what)
            if mem and not s.ghost.get('approx'):
                run.oblige(s, 'overflow-rejected', ge(sub(B ** cap - 1, expect)), '%s whose result does not fit is not rejected' % what)
        if mem:
            b.hooks(big=big)
        # rejection is right only if the result does not leave a free word
        rej = ge(sub(expect, B ** (cap - 1)))
        r = run.go([], setup=setup, onthrow=b.throws(lambda s: rej, what))
        r.samples.append('%s: %d words, operand %s: %d partitions' % (entry, len(ws), x, r.paths))
        return r
    return f


def mk_add(run, x):
    n, kind = x
    ws = words(run, 'a', n, {'carry': 'max', 'nocarry': 'small'}.get(kind, kind))
    d = run.sym('d', 0, U)
    return ws, d, add(value(ws), d)


def mk_mul64(run, x):
    n, d, kind = x
    ws = words(run, 'a', n, kind)
    if d is None:
        d = run.sym('d', 0, U)
    return ws, d, mulsum(ws, d)


def mulsum(ws, d):
    v = 0
    for w in reversed(ws):
        v = add(scale(v, B), distr(w, d))
    return v


def distr(w, d):
    """w * d term by term"""
    if isinstance(w, int) or isinstance(d, int):
        return dom.mul(w, d)
    out = 0
    for m, c in w.t.items():
        for m2, c2 in d.t.items():
            x = dom.mul(Poly({m: 1}), Poly({m2: 1})) if m and m2 else Poly({m or m2: 1}) if m or m2 else 1
            out = add(out, scale(x, c * c2))
    return out


def halves(run, n, top=None):
    """any words, each given by its two halves; top: 'hi' / 'lo' for the leading one bit's half of the last word"""
    ws = []
    for i in range(n):
        last = i == n - 1 and n > 1
        h, l = run.sym('h%d' % i, 1 if last and top == 'hi' else 0, (1 << 32) - 1), run.sym('l%d' % i, 1 if last and top == 'lo' else 0, (1 << 32) - 1)
        if last and top == 'lo':
            h = 0
        ws.append(add(scale(h, 1 << 32), l))
    return ws


def mk_mul32(run, x):
    n, d, kind = x
    ws = halves(run, n, kind) if kind in ('hi', 'lo') else words(run, 'a', n, kind)
    if d is None:
        d = run.sym('d', 0, (1 << 32) - 1)
    return ws, d, mulsum(ws, d)


def mk_shl(run, x):
    n, sh, kind = x
    ws = words(run, 'a', n, 'nonzero' if kind == 'any' and sh >= 64 * 1000 else kind)
    return ws, sh, scale(value(ws), 1 << sh) if sh < 64 * 1000 else (0 if ws == [0] else 1 << (64 * 1000))


def mk_pow5(run, x):
    n, e, kind = x
    ws = words(run, 'a', n, kind)
    return ws, e, scale(value(ws), 5 ** e)


def mk_set(run, x):
    ws = words(run, 'a', x)
    d = run.sym('d', 0, U)
    return ws, d, d


def mk_self(run, x):
    ws = words(run, 'a', x)
    return ws, None, value(ws)


def fn_muladd(M):
    import re
    fn = [n for n, f in M.functions.items() if re.search(r'lexi::detail::(\(anonymous namespace\)::)?mulAdd\(unsigned long, unsigned long, unsigned long, unsigned long\*\)', f.dem)]
    return fn[0] if len(fn) == 1 else None


def op_muladd(M, cfg, x, mem, budget, seed):
    fn = fn_muladd(M)
    if fn is None:
        r = Result()
        r.notes.append('no mulAdd(a, b, k, *high): multiplication is analysed without its contract')
        return r
    run = Run(M, cfg, fn, kinds=MEMKINDS if mem else (), seed=seed, budget=budget)
    I = run.I
    H = (1 << 32) - 1
    ah, al, bh, bl = (run.sym(n, 0, H) for n in ('ah', 'al', 'bh', 'bl'))
    a, b = add(scale(ah, 1 << 32), al), add(scale(bh, 1 << 32), bl)
    k = run.sym('k', 0, U)
    box = {}

    def setup(s, args):
        o = s.new(8, 'arg', 'the high word')
        box['o'] = o.id
        return [a, b, k, Ptr(o.id, 0)]

    def onret(s, v):
        hi = I.load(s, Ptr(box['o'], 0), ('int', 64))
        if hi is UNDEF:
            run.fail(s, 'exact', 'the high word is not set')
            return
        hi = I.uview(s, I.num(s, hi), 64)
        lo = I.uview(s, I.num(s, v), 64)
        if not mem:
            run.oblige(s, 'exact', eq(sub(add(scale(hi, B), lo), add(distr(a, b), k))), 'high and low word are not the product plus the carry')
    return run.go([], setup=setup, onret=onret)


@guarded
def op_new(M, cfg, x, mem, budget, seed):
    b = Big(M, cfg, 'e_new', None, mem, budget, seed)
    d = b.run.sym('d', 0, U)
    b.hooks(big=lambda s, tag, p: b.result(s, p, d, 'construction from a word'))
    return b.run.go([d])


@guarded
def op_copy(M, cfg, x, mem, budget, seed):
    n = x
    b = Big(M, cfg, 'e_copy', None, mem, budget, seed)
    ws = words(b.run, 'a', n)
    b.hooks(big=lambda s, tag, p: b.result(s, p, value(ws), 'copy construction' if tag == 0 else 'the source of a copy'))
    return b.run.go([], setup=lambda s, a: [put(s, b.L, ws, 'the source')])


@guarded
def op_assign(M, cfg, x, mem, budget, seed):
    n, m = x
    b = Big(M, cfg, 'e_assign', None, mem, budget, seed)
    ws, vs = words(b.run, 'a', n), words(b.run, 'b', m)
    b.hooks(big=lambda s, tag, p: b.result(s, p, value(vs), 'assignment' if tag == 0 else 'the source of an assignment'))
    return b.run.go([], setup=lambda s, a: [put(s, b.L, ws, 'the target'), put(s, b.L, vs, 'the source')])


def two(run, x):
    n, m, sh = x
    ws, vs = words(run, 'a', n), words(run, 'b', m)
    if sh == 'const':
        ws, vs = [0] * (n - 1) + [1], [U] * m
    elif isinstance(sh, int):
        # the words below sh are free, those above are shared
        for i in range(sh, min(n, m)):
            vs[i] = ws[i]
    return ws, vs


@guarded
def op_cmp(M, cfg, x, mem, budget, seed):
    b = Big(M, cfg, 'e_cmp', None, mem, budget, seed)
    run, I = b.run, b.I
    ws, vs = two(run, x)
    D = sub(value(ws), value(vs))

    def sgn(s, tag, r):
        r = I.need_const(s, r)
        if b.exact:
            c = ge(sub(D, 1)) if r > 0 else ge(sub(-1, D)) if r < 0 else eq(D)
            run.oblige(s, 'exact', c, 'compare() returns %d' % r)
    b.hooks(sgn=sgn)
    return run.go([], setup=lambda s, a: [put(s, b.L, ws, 'the left operand'), put(s, b.L, vs, 'the right operand')])


@guarded
def op_eq(M, cfg, x, mem, budget, seed):
    b = Big(M, cfg, 'e_eq', None, mem, budget, seed)
    run, I = b.run, b.I
    ws, vs = two(run, x)
    same = c_and([eq(sub(p, q)) for p, q in zip(ws, vs)]) if len(ws) == len(vs) else FALSE

    def u(s, tag, r):
        r = I.need_const(s, r)
        if b.exact:
            run.oblige(s, 'exact', same if r else c_not(same), 'operator== returns %s' % bool(r))
    b.hooks(u=u)
    return run.go([], setup=lambda s, a: [put(s, b.L, ws, 'the left operand'), put(s, b.L, vs, 'the right operand')])


@guarded
def op_eq64(M, cfg, x, mem, budget, seed):
    b = Big(M, cfg, 'e_eq64', None, mem, budget, seed)
    run, I = b.run, b.I
    ws = words(run, 'a', x)
    d = run.sym('d', 0, U)
    same = eq(sub(ws[0], d)) if x == 1 else FALSE

    def u(s, tag, r):
        r = I.need_const(s, r)
        if b.exact:
            run.oblige(s, 'exact', same if r else c_not(same), 'operator==(uint64_t) returns %s' % bool(r))
    b.hooks(u=u)
    return run.go([], setup=lambda s, a: [put(s, b.L, ws, 'the operand'), d])


@guarded
def op_diff(M, cfg, x, mem, budget, seed):
    b = Big(M, cfg, 'e_diff', None, mem, budget, seed)
    run, I = b.run, b.I
    ws, vs = two(run, x)
    D = sub(value(ws), value(vs))

    def u(s, tag, r):
        s.ghost['neg'] = I.need_const(s, r)

    def big(s, tag, p):
        r = s.ghost.get('neg')
        if b.exact:
            run.oblige(s, 'exact', ge(sub(-1, D)) if r else ge(sub(D, 1)), 'difference() reports the wrong sign')
        b.result(s, p, neg(D) if r else D, 'difference()')
    b.hooks(big=big, u=u)
    r = run.go([], setup=lambda s, a: [put(s, b.L, ws, 'the left operand'), put(s, b.L, vs, 'the right operand')],
               onthrow=b.throws(lambda s: eq(D), 'difference()'))
    r.samples.append('difference: %d and %d words: %d partitions' % (len(ws), len(vs), r.paths))
    return r


@guarded
def op_parse(M, cfg, x, mem, budget, seed):
    """x: (length, kind): digits = any decimal digits; bytes = any bytes"""
    n, kind = x
    b = Big(M, cfg, 'e_parse', None, mem, budget, seed)
    run, I = b.run, b.I
    if kind == 'digits':
        bs = [add(run.sym('c%d' % i, 0, 9), 48) for i in range(n)]
    elif kind == 'bytes':
        bs = [run.sym('c%d' % i, 0, 255) for i in range(n)]
    else:
        bs = [48 + (int(kind) if kind.isdigit() else (i * 7 + 3) % 10) for i in range(n)]
    v = 0
    if not mem:
        b.contracts(('pow5', 'mul64', 'mul32', 'setw', 'iszero', 'shl', 'add'))
    elif n > 19:
        b.chunks()
    for c in bs:
        v = add(scale(v, 10), sub(c, 48))
    dig = c_and([c_and([ge(sub(c, 48)), ge(sub(57, c))]) for c in bs]) if kind == 'bytes' else TRUE

    def setup(s, a):
        o = s.new(n, 'arg', 'the decimal string')
        for i, c in enumerate(bs):
            o.cells[i] = (1, c)
        return [Ptr(o.id, 0), n]

    def big(s, tag, p):
        if kind == 'bytes':
            run.oblige(s, 'rejects-non-digits', dig, 'a string with a non-digit character is accepted')
            return
        b.result(s, p, v, 'construction from a decimal string')
    b.hooks(big=big)

    def onthrow(s, ty):
        run.hold(s, 'rejects-with-runtime_error', interp_is_runtime(I, ty), 'rejection raises %s' % ty)
        if kind == 'bytes':
            run.oblige(s, 'not-rejected', c_not(dig), 'a decimal string is rejected')
        else:
            run.fail(s, 'not-rejected', 'a decimal string is rejected')
    r = run.go([], setup=setup, onthrow=onthrow)
    r.samples.append('construction from %d %s: %d partitions' % (n, {'digits': 'digits', 'bytes': 'bytes'}.get(kind, 'fixed digits'), r.paths))
    return r


@guarded
def op_append(M, cfg, x, mem, budget, seed):
    """the step of the decimal constructor on any state: (words, digits)"""
    n, m = x[:2]
    fn = [k for k, f in M.functions.items() if 'lexi::detail::BigInteger::add(char const*, char const*)' in f.dem]
    if not fn:
        r = Result()
        r.notes.append('no BigInteger::add(first, last): the decimal constructor is analysed as a whole only')
        return r
    b = Big(M, cfg, fn[0], None, mem, budget, seed)
    run, I = b.run, b.I
    ws = words(run, 'a', n, x[2] if len(x) > 2 else 'any')
    bs = [add(run.sym('c%d' % i, 0, 9), 48) for i in range(m)] if len(x) < 3 else [57] * m
    d = 0
    for c in bs:
        d = add(scale(d, 10), sub(c, 48))
    box = {}

    def setup(s, a):
        p = put(s, b.L, ws, 'the big integer')
        o = s.new(m, 'arg', 'digits')
        for i, c in enumerate(bs):
            o.cells[i] = (1, c)
        box['p'] = p
        return [p, Ptr(o.id, 0), Ptr(o.id, m)]
    expect = add(scale(value(ws), 10 ** m), d)
    if not mem:
        b.contracts(('pow5', 'mul64', 'mul32', 'setw', 'iszero', 'shl', 'add'))
    cap = b.L[1]
    return run.go([], setup=setup, onret=lambda s, v: b.result(s, box['p'], expect, 'appending decimal digits'),
                  onthrow=b.throws(lambda s: ge(sub(expect, B ** (cap - 1))), 'appending decimal digits'))


@guarded
def op_digit(M, cfg, x, mem, budget, seed):
    b = Big(M, cfg, 'e_digit', None, mem, budget, seed)
    run, I = b.run, b.I
    n, i = x if isinstance(x, tuple) else (x, None)
    ws = words(run, 'a', n)
    i = run.sym('i', 0, U) if i is None else i

    def u(s, tag, r):
        if not run.oblige(s, 'index-in-range', ge(sub(n - 1, i)), 'a word out of range is returned'):
            return
        k = I.need_const(s, i, limit=1000)
        if b.exact:
            run.oblige(s, 'exact', eq(sub(r, ws[k])), 'digit(%d) is another word' % k)
    b.hooks(u=u)
    return run.go([], setup=lambda s, a: [put(s, b.L, ws, 'the operand'), i],
                  onthrow=b.throws(lambda s: ge(sub(i, n)), 'digit()'))


@guarded
def op_count(M, cfg, x, mem, budget, seed):
    b = Big(M, cfg, 'e_count', None, mem, budget, seed)
    run, I = b.run, b.I
    n = x
    ws = words(run, 'a', n)
    z = eq(ws[0]) if n == 1 else FALSE

    def u(s, tag, r):
        if not b.exact:
            return
        if tag == 0:
            run.oblige(s, 'exact', eq(sub(r, n)), 'count() is not the number of words')
        else:
            r = I.need_const(s, r)
            run.oblige(s, 'exact', z if r else c_not(z), 'isZero() returns %s' % bool(r))
    b.hooks(u=u)
    return run.go([], setup=lambda s, a: [put(s, b.L, ws, 'the operand')])


OPS = {'add': unary('e_add', mk_add, 'addition'), 'mul64': unary('e_mul64', mk_mul64, 'multiplication'),
       'mul32': unary('e_mul32', mk_mul32, 'multiplication'), 'shl': unary('e_shl', mk_shl, 'left shift'),
       'pow5': unary('e_pow5', mk_pow5, 'multiplication by a power of five'), 'set': unary('e_set', mk_set, 'assignment of a word'),
       'self': unary('e_self', mk_self, 'self-assignment'), 'new': op_new, 'muladd': op_muladd, 'copy': op_copy, 'assign': op_assign, 'cmp': op_cmp,
       'eq': op_eq, 'eq64': op_eq64, 'diff': op_diff, 'parse': op_parse, 'append': op_append, 'digit': op_digit, 'count': op_count}


SHIFTS = list(range(0, 66)) + [95, 100, 126, 127, 128, 129, 130, 191, 192, 193, 255, 256, 257]
FACTORS = [0, 1, 2, 3, 10, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, 1 << 63, U - 1, U, 5 ** 27]


def jobs(mem, cap, tier):
    """[(operation, [cases])]"""
    thorough = tier != 'quick'
    S = [1, 2, 3, 4] + ([5, 8, 16, 17, 33, 64] if thorough else [9])
    C = [cap - 1, cap]
    J = []
    J.append(('add', [(n, 'any') for n in S]))
    J += [('add', [(n, 'top')]) for n in C]
    J.append(('add', [(n, k) for n in [1, 2, 3] + C for k in ('carry', 'nocarry')]))
    J.append(('muladd', [0]))
    J.append(('mul64', [(n, None, 'any') for n in [1, 2, 3, 4] + ([6, 8] if thorough else [])]))
    J.append(('mul64', [(n, d, 'any') for n in (1, 2, 3) for d in FACTORS]))
    J += [('mul64', [(n, d, 'max') for d in (2, 5 ** 27, U)]) for n in C]
    J.append(('mul32', [(n, None, k) for n in (1, 2, 3, 4) for k in ('hi', 'lo')]))
    J.append(('mul32', [(n, d, k) for n in (1, 2, 3) for k in ('hi', 'lo') for d in (0, 1, 2, 10, (1 << 32) - 1)]))
    J += [('mul32', [(n, d, 'max') for d in (2, 5 ** 13, (1 << 32) - 1)]) for n in C]
    for n in S[:4] if not thorough else S[:6]:
        J.append(('shl', [(n, s, 'any') for s in SHIFTS]))
    for n in (cap - 2, cap - 1, cap):
        J.append(('shl', [(n, s, k) for s in (0, 1, 63, 64, 65, 127, 128, 129, 192) for k in ('top', 'small')]))
    J.append(('shl', [(n, s, 'any') for n in (1, 2) for s in (64 * (cap - 3), 64 * (cap - 3) + 1, 64 * (cap - 2), 64 * (cap - 1) - 1, 64 * (cap - 1), 64 * (cap - 1) + 1,
                                                              64 * cap, 64 * cap + 1, 1 << 32, 1 << 63, U - 63, U)]))
    J.append(('shl', [(1, s, 'zero') for s in (0, 1, 64, 65, 64 * cap, U)]))
    ex = list(range(0, 120)) + [325, 343, 1000]
    for n in (1, 2, 3):
        J.append(('pow5', [(n, e, 'any') for e in (ex if not mem else [0, 1, 2, 12, 13, 14, 25, 26, 27, 28, 39, 40, 41, 53, 54])]))
    if mem:
        J += [('pow5', [(n, e, 'max') for e in (1, 13, 27, 54)]) for n in C]
        J += [('mul64', [(n, d, 'top') for d in (2,)]) for n in C] + [('mul32', [(n, d, 'top') for d in (2, 5 ** 13)]) for n in C]
    N = [1, 2, 3] + C
    J.append(('set', N))
    J.append(('self', N))
    J.append(('new', [0]))
    J.append(('copy', N))
    J.append(('assign', [(n, m) for n in (1, 3, cap) for m in N]))
    P = [(n, m, None) for n in (1, 2, 3, 4) for m in (1, 2, 3, 4)]
    J.append(('cmp', P + [(cap, cap, 2), (cap, cap - 1, None), (cap - 1, cap, None)]))
    J.append(('eq', P + [(cap, cap, 2), (cap, cap - 1, None)]))
    J.append(('eq64', [1, 2, 3, cap]))
    J += [('diff', [x]) for x in P] + [('diff', [(cap, 1, 'const')]), ('diff', [(cap, cap - 1, 'const')]), ('diff', [(cap, cap, 2)])]
    if thorough:
        J += [('diff', [(5, 5, None)]), ('diff', [(5, 3, None)]), ('diff', [(6, 2, None)])]
    L = list(range(0, 60)) + [75, 76, 77, 95, 114, 200]
    for i in range(4):
        J.append(('parse', [(n, 'digits') for n in (L[i::4] if not mem else [x for x in L[i::4] if x < 19 or x > 19])]))
    J.append(('parse', [(n, 'bytes') for n in ((1, 2, 3, 4, 5, 18, 19) + ((20, 21, 38, 39) if not mem else ()))]))
    if mem:
        J.append(('parse', [(n, k) for n in (19, 20, 38, 39, 57) for k in ('9', '0', '1', 'x')]))
    J += [('append', [(n, m) for m in (1, 5, 18, 19)]) for n in (1, 2, 3)]
    if mem:
        J += [('append', [(n, m, k)]) for n in C for m in (1, 19) for k in ('small', 'max')]
    J.append(('digit', [1, 2, 3, 8] + [(n, i) for n in (1, 3) for i in (0, n - 1, n, n + 1, 8, cap - 1, cap, cap + 1, 1 << 32, U)] + [(cap, i) for i in (0, cap - 1, cap, U)]))
    J.append(('count', N))
    return J


def make(mem, tier, seed):
    prepare(['bigint.cpp'], CFG)
    tasks = []
    for k in list(_M):
        L = layout(_M[k])
        cap = reach(L) if L else 416
        for op, cases in jobs(mem, cap, tier):
            if k[1] == 'gcc-release' and not mem:
                continue
            tasks.append((task, (op, k, k[1], cases, mem, 60 if tier == 'quick' else 600, seed), '%s/%s/%s' % (op, k[1], str(cases)[:40])))
    return tasks, list(CFG)


def C21(tier, seed):
    t, c = make(True, tier, seed)
    return t, c, 500


def C22(tier, seed):
    t, c = make(False, tier, seed)
    return t, [x for x in c if x != 'gcc-release'], 500
