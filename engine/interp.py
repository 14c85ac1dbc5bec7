"""Abstract interpreter over LLVM IR with trace partitioning.

Every register holds an element of the domain in dom.py (or a pointer, a float term, an
aggregate).  Undecided branches partition the trace; nothing is executed on concrete inputs.
Findings are recorded through `report`: a finding becomes a violation only if the abstract
state can be concretised to an input (wit.find); otherwise it is an undischarged obligation.
"""
import re, time, struct
from fractions import Fraction
from . import dom, wit
from .dom import (Poly, add, sub, mul, scale, neg, floor_div, mod, ge, eq, ne, c_not, c_and, c_or, TRUE, FALSE,
                  partition, INF, Store, Infeasible, ATOMS)
from .ir import fp_const
from .build import REPO


class Split(Exception):
    def __init__(self, cases):
        self.cases = cases      # list of conjunction lists


class Unsupported(Exception):
    pass


class PathEnd(Exception):
    def __init__(self, kind, info=None):
        self.kind = kind
        self.info = info


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()


class PB:
    """an integer some of whose bytes are uninitialised (register copies of structs)"""
    __slots__ = ('b',)

    def __init__(self, b):
        self.b = b

    def __repr__(self):
        return 'partial%r' % (self.b,)


class Ptr:
    __slots__ = ('obj', 'off', 'zlo', 'zhi')

    def __init__(self, obj, off, zlo=None, zhi=None):
        self.obj = obj
        self.off = off
        self.zlo = zlo
        self.zhi = zhi

    def __repr__(self):
        return 'ptr(%s+%s%s)' % (self.obj, self.off, '' if self.zhi is None else ' z%s..%s' % (self.zlo, self.zhi))

    def key(self):
        return (self.obj, self.off)


NULL = Ptr(None, 0)


class FnPtr:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '@' + self.name


def fexact(v):
    """exact value of a constant: ('nan', sign) | ('inf', sign) | (sign, magnitude as a Fraction); None for the rest"""
    if v is UNDEF:
        return None
    if v.kind == 'k':
        x = v.v
        if x != x:
            return ('nan', 0)
        sg = 1 if str(x)[0] == '-' else 0
        return ('inf', sg) if x in (float('inf'), float('-inf')) else (sg, Fraction(abs(x)))
    if v.kind == 't' and v.v[0] == 'ldk':
        return (int(v.v[1]), v.v[2])
    if v.kind == 't' and v.v[0] == 'ext':
        return fexact(v.v[1])
    return None


def fexact_op(op, fmt, x, y):
    from .models import fconst, round_to
    if x is None or y is None or 'nan' in (x[0], y[0]):
        return None
    if op == 'fsub':
        y = ('inf', 1 - y[1]) if y[0] == 'inf' else (1 - y[0], y[1])
        op = 'fadd'
    if op == 'fadd':
        if x[0] == 'inf' or y[0] == 'inf':
            if x[0] == y[0]:
                return F('k', fmt, float('nan')) if x[1] != y[1] else fconst(x[1], 'inf', fmt)
            return fconst(x[1] if x[0] == 'inf' else y[1], 'inf', fmt)
        r = (-x[1] if x[0] else x[1]) + (-y[1] if y[0] else y[1])
        if not r:
            return F('k', fmt, -0.0 if x[0] and y[0] else 0.0)
        return fconst(int(r < 0), round_to(abs(r), fmt), fmt)
    if x[0] == 'inf' or y[0] == 'inf':
        return None
    if op == 'fdiv' and not y[1]:
        return None
    r = x[1] * y[1] if op == 'fmul' else x[1] / y[1]
    return fconst(x[0] ^ y[0], round_to(r, fmt), fmt)


class F:
    """float value: kind 'k' concrete python float (double/float/ld exactly a double), 'b' bits poly, 't' term"""
    __slots__ = ('kind', 'fmt', 'v')

    def __init__(self, kind, fmt, v):
        self.kind = kind
        self.fmt = fmt
        self.v = v

    def __repr__(self):
        return 'F(%s,%s,%s)' % (self.kind, self.fmt, self.v)

    def __eq__(self, o):
        return isinstance(o, F) and (self.kind, self.fmt, self.v) == (o.kind, o.fmt, o.v)

    def __hash__(self):
        return hash((self.kind, self.fmt, self.v))


class StrRec:
    """contents of a std::string object: buffer object id and length"""
    __slots__ = ('buf', 'len')

    def __init__(self, buf, ln):
        self.buf = buf
        self.len = ln

    def __repr__(self):
        return 'str(%s,%s)' % (self.buf, self.len)

    def __eq__(self, o):
        return isinstance(o, StrRec) and (self.buf, self.len) == (o.buf, o.len)

    def __hash__(self):
        return hash((self.buf, self.len))


class Obj:
    __slots__ = ('id', 'size', 'cells', 'kind', 'name', 'ro', 'alive', 'owner', 'lazy', 'site', 'segs', 'ty')

    def __init__(self, id, size, kind, name):
        self.id = id
        self.size = size
        self.cells = {}
        self.kind = kind
        self.name = name
        self.ro = False
        self.alive = True
        self.owner = None
        self.lazy = None
        self.site = None
        self.segs = None
        self.ty = None

    def clone(self, owner):
        o = Obj(self.id, self.size, self.kind, self.name)
        o.cells = dict(self.cells)
        o.ro = self.ro
        o.alive = self.alive
        o.lazy = self.lazy
        o.site = self.site
        o.segs = self.segs
        o.ty = self.ty
        o.owner = owner
        return o


class Frame:
    __slots__ = ('fn', 'blk', 'idx', 'prev', 'env', 'call', 'allocas', 'visits', 'insts')

    def copy(self):
        f = Frame()
        f.fn = self.fn
        f.blk = self.blk
        f.idx = self.idx
        f.prev = self.prev
        f.env = dict(self.env)
        f.call = self.call
        f.allocas = list(self.allocas)
        f.visits = dict(self.visits)
        f.insts = self.insts
        return f


class State:
    __slots__ = ('st', 'mem', 'frames', 'token', 'steps', 'trace', 'events', 'nextobj', 'exc', 'ghost', 'nsplit', 'since',
                 'loops', 'last')

    def __init__(self):
        self.st = Store()
        self.mem = {}
        self.frames = []
        self.token = object()
        self.steps = 0
        self.trace = []
        self.events = []
        self.nextobj = 1
        self.exc = None
        self.ghost = {}
        self.nsplit = 0
        self.since = 0
        self.loops = {}
        self.last = None

    def copy(self):
        s = State()
        s.st = self.st.copy()
        s.mem = dict(self.mem)
        self.token = object()
        s.token = object()
        s.frames = [f.copy() for f in self.frames]
        s.steps = self.steps
        s.trace = list(self.trace)
        s.events = list(self.events)
        s.nextobj = self.nextobj
        s.exc = self.exc
        s.ghost = dict(self.ghost)
        s.nsplit = self.nsplit
        s.since = self.since
        s.loops = dict(self.loops)
        s.last = self.last
        return s

    def w(self, oid):
        o = self.mem[oid]
        if o.owner is not self.token:
            o = o.clone(self.token)
            self.mem[oid] = o
        return o

    def new(self, size, kind, name):
        oid = self.nextobj
        self.nextobj += 1
        o = Obj(oid, size, kind, name)
        o.owner = self.token
        self.mem[oid] = o
        return o


class Finding:
    def __init__(self, kind, msg, loc, stack, witness, cond, func, path=None):
        self.path = path
        self.kind = kind
        self.msg = msg
        self.loc = loc
        self.stack = stack
        self.witness = witness
        self.cond = cond
        self.func = func

    def key(self):
        return (self.kind, self.func, self.loc)


class Interp:
    MAXSTEPS = 400000
    MAXPATHS = 60000
    LOOPMAX = 3000
    WITMAX = 40.0              # seconds spent on concretising findings, per run

    def __init__(self, M, models, seed=1, deadline=None):
        self.M = M
        self.models = models
        self.seed = seed
        self.violations = []
        self.unknowns = []
        self.seen = set()
        self.cov_funcs = {}
        self.cov_inst = 0
        self.cov_paths = 0
        self.obligations = {}
        self.deadline = deadline
        self.hooks = {}            # function name -> python callable(interp, state, ins, args) (overrides definitions)
        self.dispatch_cache = {}
        self.on_oob = 'end'
        self.gobj = {}
        self.init = None
        self.want_kinds = None     # finding kinds that count
        self.wit_hints = None
        self.failed = {}
        self.muted = False
        self.pures = {}
        self.depthcap = None
        self.fresh = 0
        self.images = []
        self.summaries = []
        self.wit_time = 0.0
        self.wit_want = None
        self.corpus = None
        self.symstr = {}
        self.summarise = False
        self.build_globals()

    # ------------------------------------------------------------------ globals
    def build_globals(self):
        s = State()
        s.nextobj = 1
        M = self.M
        for name, g in M.globals.items():
            if g.init is not None and g.init[0] == 'alias':
                continue
            if g.type[0] == 'fn':
                continue
            if name.startswith('llvm.'):
                continue
            try:
                sz = M.sizeof(g.type)
            except Exception:
                sz = 0
            o = s.new(sz, 'global', name)
            o.ro = g.const
            o.ty = g.type
            self.gobj[name] = o.id
        for name, g in M.globals.items():
            if name not in self.gobj:
                continue
            o = s.mem[self.gobj[name]]
            if g.init is not None:
                try:
                    self.init_const(s, o, 0, g.type, g.init)
                except Unsupported:
                    pass
            elif g.linkage == 'external' or g.init is None:
                o.kind = 'extern'
        self.init = s
        self.errno = s.new(4, 'errno', 'errno')
        self.errno.cells[0] = (4, 0)
        # dynamic initialisers
        gc = M.globals.get('llvm.global_ctors')
        self.ctors = []
        if gc is not None and gc.init and gc.init[0] == 'agg':
            for (_, e) in gc.init[1]:
                if e[0] == 'agg':
                    fnv = e[1][1][1]
                    if fnv[0] == 'g':
                        self.ctors.append(fnv[1])
        if self.ctors:
            for c in self.ctors:
                outs = []
                self._start(s, self.M.functions[c], [])
                for r in self.explore(s):
                    outs.append(r)
                if len(outs) == 1 and outs[0][0] == 'ret':
                    s = outs[0][1]
                    s.frames = []
                    s.steps = 0
                    s.trace = []
                else:
                    self.note_unknown('init', 'dynamic initialiser %s not analysed' % c)
                    s.frames = []
            self.init = s

    def init_const(self, s, o, off, ty, v):
        M = self.M
        k = v[0]
        ty = M.resolve(ty)
        if k == 'undef':
            return
        if k == 'zero':
            self.zero_init(s, o, off, ty)
            return
        if k == 'bytes':
            for i, b in enumerate(v[1]):
                o.cells[off + i] = (1, b)
            return
        if k == 'agg':
            if ty[0] == 'arr':
                es = M.sizeof(ty[2])
                for i, (t, e) in enumerate(v[1]):
                    self.init_const(s, o, off + i * es, t, e)
            elif ty[0] == 'struct':
                for i, (t, e) in enumerate(v[1]):
                    self.init_const(s, o, off + M.field_offset(ty, i), t, e)
            else:
                raise Unsupported('agg init')
            return
        o.cells[off] = (M.sizeof(ty), self.const(s, ty, v))

    def zero_init(self, s, o, off, ty):
        ty = self.M.resolve(ty)
        if ty[0] == 'arr':
            es = self.M.sizeof(ty[2])
            for i in range(ty[1]):
                self.zero_init(s, o, off + i * es, ty[2])
        elif ty[0] == 'struct':
            for i, t in enumerate(ty[2]):
                self.zero_init(s, o, off + self.M.field_offset(ty, i), t)
        elif ty[0] == 'int':
            o.cells[off] = (self.M.sizeof(ty), 0)
        elif ty[0] == 'ptr':
            o.cells[off] = (self.M.ptrsize, NULL)
        elif ty[0] == 'fp':
            o.cells[off] = (self.M.sizeof(ty), F('k', ty[1], 0.0))

    # ------------------------------------------------------------------ values
    def const(self, s, ty, v):
        k = v[0]
        if k == 'c':
            if ty[0] == 'int':
                return v[1] & ((1 << ty[1]) - 1)
            return v[1]
        if k == 'g':
            return self.gptr(v[1])
        if k == 'null':
            return NULL
        if k == 'undef':
            return UNDEF
        if k == 'f':
            t, x = fp_const(v[1], v[2])
            if t == 'd':
                return F('k', v[1], x)
            # x87 80-bit: convert if exact in double
            sign = x >> 79
            e = (x >> 64) & 0x7fff
            m = x & ((1 << 64) - 1)
            if e == 0x7fff:
                return F('k', v[1], float('inf') * (-1 if sign else 1)) if (m << 1) & ((1 << 64) - 1) == 0 else F('k', v[1], float('nan'))
            fr = Fraction(m) * (Fraction(2) ** (e - 16383 - 63))
            f = float(fr) if fr < Fraction(2) ** 1024 else float('inf')
            if f != float('inf') and Fraction(f) == fr:
                return F('k', v[1], -f if sign else f)
            return F('t', v[1], ('x87c', x))
        if k == 'zero':
            return self.zero_val(ty)
        if k == 'cgep':
            base = self.const(s, v[2][0][0], v[2][0][1])
            return self.gep(s, v[1], base, [(t, self.const(s, t, x)) for t, x in v[2][1:]])
        if k == 'ccast':
            x = self.const(s, v[2], v[3])
            return self.cast(s, v[1], v[2], x, v[4])
        if k == 'cbin':
            return self.binop(s, v[1], v[2], self.const(s, v[2], v[3]), self.const(s, v[2], v[4]), set())
        if k == 'agg':
            return tuple(self.const(s, t, e) for t, e in v[1])
        if k == 'md':
            return None
        raise Unsupported('constant %s' % k)

    def zero_val(self, ty):
        ty = self.M.resolve(ty)
        if ty[0] == 'int':
            return 0
        if ty[0] == 'ptr':
            return NULL
        if ty[0] == 'fp':
            return F('k', ty[1], 0.0)
        if ty[0] == 'struct':
            return tuple(self.zero_val(t) for t in ty[2])
        if ty[0] == 'arr':
            return tuple(self.zero_val(ty[2]) for _ in range(ty[1]))
        raise Unsupported('zero %s' % (ty,))

    def gptr(self, name):
        g = self.M.globals.get(name)
        if g is not None and g.init is not None and g.init[0] == 'alias':
            return self.const(None, ('ptr',), g.init[1])
        if name in self.M.functions or name in self.M.declares:
            return FnPtr(name)
        if name in self.gobj:
            return Ptr(self.gobj[name], 0)
        raise Unsupported('global %s' % name)

    def val(self, s, ty, v):
        if v[0] == 'r':
            try:
                return s.frames[-1].env[v[1]]
            except KeyError:
                raise Unsupported('unset register %s' % v[1])
        return self.const(s, ty, v)

    # ------------------------------------------------------------------ numeric views
    def isint(self, v):
        return isinstance(v, (int, Poly))

    def num(self, s, v):
        """i1 conditions and polys to a poly"""
        if isinstance(v, (int, Poly)):
            return v
        if isinstance(v, tuple) and v and v[0] in ('T', 'F', 'ge', 'eq', 'ne', 'and', 'or'):
            return 1 if self.truth(s, v) else 0
        if v is UNDEF or isinstance(v, PB):
            raise UndefUse()
        if isinstance(v, Ptr):
            return self.ptrint(v)
        raise Unsupported('number from %r' % (v,))

    def ptrint(self, p):
        if p.obj is None:
            return p.off
        return add(dom.base(p.obj), p.off)

    def uview(self, s, p, w):
        p = s.st.simp(p) if isinstance(p, Poly) else p
        if isinstance(p, int):
            return p & ((1 << w) - 1)
        lo, hi = s.st.rng(p)
        if lo >= 0 and hi < (1 << w):
            return p
        a, b = lo >> w, hi >> w
        if a == b:
            return sub(p, a << w)
        # try constraints
        q = sub(p, 0)
        if b - a <= 3:
            m = (a + b + 1) // 2
            c = ge(sub(p, m << w))
            d = s.st.decide(c)
            if d is None:
                raise Split([[c], [c_not(c)]])
            if b - a == 1:
                return sub(p, (b if d else a) << w)
            c2 = ge(sub(p, (m + 1) << w)) if d else ge(sub(p, (m - 1) << w))
            d2 = s.st.decide(c2)
            if d2 is None:
                raise Split([[c2], [c_not(c2)]])
            if d:
                k = None
                if not d2:
                    k = m
                elif b == m + 1:
                    k = m + 1
            else:
                k = None
                if d2:
                    k = m - 1
                elif a == m - 2:
                    k = m - 2
            if k is not None:
                return sub(p, k << w)
        if b - a > 3 and len(p.t) <= 3 and max(map(len, p.t)) < 2 and s.st.decide(ge(p)) and s.st.decide(ge(sub((1 << w) - 1, p))):
            return p
        return sub(p, scale(floor_div(p, 1 << w, s.st), 1 << w))

    def sview(self, s, p, w):
        h = 1 << (w - 1)
        u = self.uview(s, add(p, h), w)
        return sub(u, h)

    def truth(self, s, c):
        """decide a condition or split"""
        if isinstance(c, int):
            return bool(c & 1)
        if c is UNDEF:
            raise UndefUse()
        if isinstance(c, Poly):
            c = ne(self.uview(s, c, 1))
        d = s.st.decide(c)
        if d is not None:
            return d
        cases = partition(c) + partition(c_not(c))
        # avoid no-progress splits
        raise Split(cases)

    def need_const(self, s, p, limit=600, why=''):
        """concretise a small-range quantity by trace partitioning"""
        if isinstance(p, int):
            return p
        p = s.st.simp(p)
        if isinstance(p, int):
            return p
        lo, hi = s.st.rng(p)
        if lo == hi:
            return lo
        if hi - lo + 1 <= limit:
            # gcd step
            from math import gcd
            g = 0
            for m, c in p.t.items():
                if m:
                    g = gcd(g, c)
            k = p.t.get((), 0) % g
            vals = [v for v in range(lo, hi + 1) if v % g == k]
            while len(vals) > 8:
                n = len(vals) // 2
                c = ge(sub(p, vals[n]))
                d = s.st.decide(c)
                if d is None:
                    raise Split([[c], [c_not(c)]])
                vals = vals[n:] if d else vals[:n]
            vals = [v for v in vals if s.st.decide(eq(sub(p, v))) is not False]
            if not vals:
                raise dom.Infeasible()
            if len(vals) == 1:
                return vals[0]
            raise Split([[eq(sub(p, v))] for v in vals])
        raise Unsupported('unbounded quantity (%s) in [%s,%s] %s' % (p, lo, hi, why))

    # ------------------------------------------------------------------ findings
    def where(self, s):
        if not s.frames:
            return ('?', 0), '?', []
        stack = []
        loc = None
        for f in reversed(s.frames):
            ins = f.insts[min(f.idx, len(f.insts) - 1)]
            l = self.M.loc(ins.dbg) if ins.dbg else None
            stack.append('%s (%s:%s)' % (f.fn.dem, l[0] if l else '?', l[1] if l else 0))
            if loc is None and l and l[1] and l[0].startswith(REPO) and not f.fn.dem.startswith('e_'):
                loc = l
        fnname = s.frames[-1].fn.dem
        if loc is None and s.last is not None:
            # judged in the entry point: the result came out of the last function of the library that returned
            f, ins = s.last
            l = self.M.loc(ins.dbg) if ins.dbg else None
            if l and l[1] and l[0].startswith(REPO):
                return l, f.dem, stack
        return loc or ('?', 0), fnname, stack

    def oblige(self, kind, n=1):
        self.obligations[kind] = self.obligations.get(kind, 0) + n

    def note_unknown(self, kind, msg, loc=None, stack=None, func=None):
        if self.muted:
            return
        f = Finding(kind, msg, loc, stack, None, None, func)
        k = ('unk', kind, func, loc, msg[:80])
        if k not in self.seen:
            self.seen.add(k)
            self.unknowns.append(f)

    def report(self, s, kind, msg, cond=TRUE, force=False):
        """cond: the violating condition inside the current state. -> True if violated for a concrete input"""
        if self.muted or (self.want_kinds is not None and kind not in self.want_kinds):
            return False
        loc, func, stack = self.where(s)
        key = (kind, func, loc, msg.split('|')[0])
        if key in self.seen:
            return True
        tries = self.failed.get(key, 0)
        if s.ghost.get('approx') and not force:
            self.note_unknown(kind, msg, loc, stack, func)
            return False
        if tries >= 4 or self.wit_time > self.WITMAX:
            self.note_unknown(kind, msg, loc, stack, func)
            return False
        t0 = time.time()
        w = wit.find(s.st, cond, seed=self.seed, hints=self.wit_hints, corpus=self.corpus, want=self.wit_want)
        self.wit_time += time.time() - t0
        if w is None:
            self.failed[key] = tries + 1
            self.note_unknown(kind, msg, loc, stack, func)
            return False
        w = self.fill(s, w)
        self.seen.add(key)
        self.violations.append(Finding(kind, msg, loc, stack, w, dom.show_cond(cond), func, self.decisions(s)))
        return True

    def decisions(self, s, n=24):
        """the branch decisions in the repository's sources along this partition"""
        out = []
        for fnm, dbg, t in s.trace:
            l = self.M.loc(dbg) if dbg else None
            if l and l[1] and l[0].startswith(REPO):
                out.append('%s:%s %s' % (l[0], l[1], 'taken' if t else 'not taken'))
        return out[-n:]

    def fill(self, s, w):
        """add symbols of the entry that the conditions did not mention"""
        for nm, p in s.ghost.get('inputs', {}).items():
            if nm not in w and isinstance(p, Poly):
                l, h = s.st.rng(p)
                w[nm] = l
        return w

    # ------------------------------------------------------------------ memory
    def bounds(self, s, p, n, write, what):
        """check that [p, p+n) is inside its object/zone.  Ends or narrows the path otherwise."""
        self.oblige('write-in-bounds' if write else 'read-in-bounds')
        if isinstance(p, FnPtr):
            raise Unsupported('access through function pointer')
        if p is UNDEF:
            self.report(s, 'uninit', 'uninitialised pointer dereferenced')
            raise PathEnd('violation')
        if p.obj is None:
            self.report(s, 'null', 'null pointer dereference (%s)' % what)
            raise PathEnd('violation')
        o = s.mem[p.obj]
        if not o.alive:
            self.report(s, 'dangling', '%s of storage whose lifetime has ended (%s)' % ('write' if write else 'read', o.name))
            raise PathEnd('violation')
        if write and o.ro:
            self.report(s, 'oob', 'write to constant %s' % o.name)
            raise PathEnd('violation')
        lo = p.zlo if p.zlo is not None else 0
        hi = p.zhi if p.zhi is not None else o.size
        off = p.off
        if isinstance(off, int) and isinstance(hi, int) and isinstance(n, int) and isinstance(lo, int):
            if lo <= off and off + n <= hi:
                return
            if n == 0 and 0 <= off <= o.size:
                return
            bad = TRUE
        else:
            if isinstance(n, int) and n == 0:
                return
            ok = c_and([ge(sub(off, lo)), ge(sub(sub(hi, n), off))])
            d = s.st.decide(ok)
            if d is True:
                return
            bad = c_not(ok)
            if d is None:
                self.report(s, 'oob', '%s outside %s%s (%d..%s) | offset %s size %s' % (
                    'write' if write else 'read', o.name, '' if p.zhi is None else ' field', lo if isinstance(lo, int) else -1, hi, off, n), bad)
                raise Split([[x for x in partition(ok)[0]]])
        self.report(s, 'oob', '%s outside %s%s [%s,%s) | offset %s size %s' % (
            'write' if write else 'read', o.name, '' if p.zhi is None else ' field', lo, hi, off, n), bad)
        raise PathEnd('violation')

    def load_bytes(self, s, o, off, n):
        """list of n byte values (int/Poly/UNDEF) at concrete offset"""
        out = []
        for i in range(n):
            out.append(self.byte_at(s, o, off + i))
        return out

    def byte_at(self, s, o, x):
        if o.lazy is not None:
            return self.lazy_byte(s, o, x)
        c = o.cells.get(x)
        if c is not None:
            return self.byte_of(s, c[1], c[0], 0)
        for j in range(1, 32):
            c = o.cells.get(x - j)
            if c is not None:
                if c[0] > j:
                    return self.byte_of(s, c[1], c[0], j)
                return UNDEF
        return UNDEF

    def byte_of(self, s, v, size, j):
        if v is UNDEF:
            return UNDEF
        if isinstance(v, F):
            v = self.fbits(s, v)
        if isinstance(v, (int, Poly)):
            if size == 1:
                return v
            return mod(floor_div(v, 1 << (8 * j), s.st), 256, s.st)
        if isinstance(v, Ptr) or isinstance(v, StrRec) or isinstance(v, FnPtr):
            raise Unsupported('byte of %r' % (v,))
        if isinstance(v, tuple):
            return self.num(s, v) if j == 0 else 0
        raise Unsupported('byte of %r' % (v,))

    def lazy_byte(self, s, o, x):
        name, N = o.lazy
        c = eq(sub(x, N))
        d = s.st.decide(c)
        if d is None:
            raise Split([[c], [c_not(c)]])
        if d:
            return 0
        return dom.fn('sel', (name, x), 0, 255)

    def load(self, s, p, ty):
        M = self.M
        n = M.sizeof(ty)
        if ty[0] == 'int':
            n = (ty[1] + 7) // 8
        self.bounds(s, p, n, False, 'load')
        o = s.mem[p.obj]
        off = p.off
        if not isinstance(off, int):
            off = s.st.simp(off)
        rty = M.resolve(ty)
        if not isinstance(off, int):
            if o.lazy is not None:
                if n != 1:
                    raise Unsupported('wide load from symbolic string')
                return self.lazy_byte(s, o, off)
            if rty[0] == 'int' and (o.ro or o.kind == 'global'):
                v = self.table_load(s, o, p, off, n)
                if v is not None:
                    return v
            off = self.need_const(s, off, why='load offset')
        if rty[0] in ('struct', 'arr'):
            return self.load_agg(s, o, off, rty)
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            return self.coerce(s, c[1], rty)
        if o.kind == 'extern':
            raise Unsupported('read of external object %s' % o.name)
        if rty[0] == 'int' or rty[0] == 'fp':
            bs = self.load_bytes(s, o, off, n)
            if any(b is UNDEF for b in bs):
                if rty[0] == 'int' and not all(b is UNDEF for b in bs):
                    return PB(tuple(bs))
                return UNDEF
            v = 0
            for i, b in enumerate(bs):
                b = self.uview(s, b, 8)
                v = add(v, scale(b, 1 << (8 * i)))
            if rty[0] == 'fp':
                return F('b', rty[1], v)
            return v
        if c is None:
            return UNDEF
        raise Unsupported('load %s from %r' % (ty, c))

    def load_agg(self, s, o, off, rty):
        if rty[0] == 'arr':
            es = self.M.sizeof(rty[2])
            return tuple(self.load(s, Ptr(o.id, off + i * es), rty[2]) for i in range(rty[1]))
        return tuple(self.load(s, Ptr(o.id, off + self.M.field_offset(rty, i)), t) for i, t in enumerate(rty[2]))

    def coerce(self, s, v, ty):
        if v is UNDEF:
            return v
        if ty[0] == 'int':
            if isinstance(v, F):
                return self.fbits(s, v)
            if isinstance(v, Ptr):
                return self.ptrint(v)
            return v
        if ty[0] == 'fp':
            if isinstance(v, (int, Poly)):
                return F('b', ty[1], v) if not isinstance(v, int) else self.ffrombits(ty[1], v)
            return v
        if ty[0] == 'ptr':
            if isinstance(v, (int, Poly)):
                return self.toptr(v)
            return v
        return v

    def toptr(self, v):
        if isinstance(v, int):
            return Ptr(None, v)
        bs = [m for m in v.t if len(m) == 1 and ATOMS[m[0]].kind == 'base']
        if len(bs) == 1 and v.t[bs[0]] == 1:
            oid = ATOMS[bs[0][0]].args[0]
            return Ptr(oid, sub(v, Poly({bs[0]: 1})))
        raise Unsupported('inttoptr')

    def table_load(self, s, o, p, off, n):
        lo = p.zlo if p.zlo is not None else 0
        hi = p.zhi if p.zhi is not None else o.size
        l, h = s.st.rng(off)
        l = max(l, lo)
        h = min(h, hi - n)
        if h - l > 40000:
            return None
        rel = sub(off, l)
        vals = []
        # stride
        from math import gcd
        g = 0
        for m, c in off.t.items():
            if m:
                g = gcd(g, c)
        k = off.t.get((), 0) % g
        start = l + ((k - l) % g)
        # values only at reachable residues; index = (off-start)/g
        x = start
        while x <= h:
            c = o.cells.get(x)
            if c is not None and c[0] == n and isinstance(c[1], int):
                vals.append(c[1])
            else:
                bs = self.load_bytes(s, o, x, n)
                if any(not isinstance(b, int) for b in bs):
                    return None
                vals.append(int.from_bytes(bytes(bs), 'little'))
            x += g
        idx = Poly({m: c // g for m, c in off.t.items() if m}) if True else None
        idx = add(idx, (off.t.get((), 0) - start) // g)
        return dom.table(vals, idx, s.st)

    def clear(self, s, o, off, n):
        """remove cells overlapping [off, off+n), keeping their outside bytes"""
        cells = o.cells
        if not cells:
            return
        if len(cells) <= n + 32:
            ks = [k for k in cells if k < off + n and k + cells[k][0] > off]
        else:
            ks = [k for k in range(off - 31, off + n) if k in cells and k + cells[k][0] > off]
        for k in ks:
            sz, v = cells[k]
            if k < off or k + sz > off + n:
                parts = {}
                for j in range(sz):
                    if not (off <= k + j < off + n):
                        b = self.byte_of(s, v, sz, j)
                        if b is not UNDEF:
                            parts[k + j] = (1, b)
                cells.pop(k, None)
                cells.update(parts)
            else:
                del cells[k]

    def widen(self, s, v):
        """forget how a deeply nested term was computed, keep its range"""
        if dom.depth(v) <= self.depthcap:
            return v
        lo, hi = s.st.rng(v)
        self.fresh += 1
        s.ghost['approx'] = True
        return dom.sym('w%d' % self.fresh, lo, hi)

    def store(self, s, p, ty, v):
        if self.depthcap is not None and isinstance(v, Poly):
            v = self.widen(s, v)
        n = self.M.sizeof(ty)
        if ty[0] == 'int':
            n = (ty[1] + 7) // 8
        self.bounds(s, p, n, True, 'store')
        off = p.off
        if not isinstance(off, int):
            off = s.st.simp(off)
        if not isinstance(off, int):
            off = self.need_const(s, off, why='store offset')
        rty = self.M.resolve(ty)
        o = s.w(p.obj)
        if o.kind == 'global':
            self.on_global_write(s, o)
        if rty[0] in ('struct', 'arr'):
            for i in range(len(v)):
                if rty[0] == 'arr':
                    self.store(s, Ptr(p.obj, off + i * self.M.sizeof(rty[2])), rty[2], v[i])
                else:
                    self.store(s, Ptr(p.obj, off + self.M.field_offset(rty, i)), rty[2][i], v[i])
            return
        c = o.cells.get(off)
        if c is None or c[0] != n:
            self.clear(s, o, off, n)
        if isinstance(v, PB):
            o.cells.pop(off, None)
            for i, b in enumerate(v.b):
                if b is not UNDEF:
                    o.cells[off + i] = (1, b)
        elif v is UNDEF:
            o.cells.pop(off, None)
        else:
            o.cells[off] = (n, v)

    def on_global_write(self, s, o):
        s.events.append(('gwrite', o.name))

    def copy_mem(self, s, dst, src, n, move):
        if isinstance(n, int) and n == 0:
            return
        n = self.need_const(s, n, limit=5000, why='copy length')
        if n == 0:
            return
        if n >= 1 << 40:
            self.bounds(s, dst, n, True, 'copy')
            self.bounds(s, src, n, False, 'copy')
            raise Unsupported('huge copy')
        self.bounds(s, src, n, False, 'copy source')
        self.bounds(s, dst, n, True, 'copy destination')
        doff = self.need_const(s, dst.off, why='copy dst')
        so = s.mem[src.obj]
        soff = src.off if isinstance(src.off, int) else s.st.simp(src.off)
        cells = []
        if not isinstance(soff, int):
            if (so.ro or so.kind == 'global') and n <= 64:
                for i in range(n):
                    v = self.table_load(s, so, src, add(soff, i), 1)
                    if v is None:
                        break
                    cells.append((i, 1, v))
                if len(cells) != n:
                    soff = self.need_const(s, soff, why='copy src')
                    cells = []
            elif so.lazy is not None:
                for i in range(n):
                    cells.append((i, 1, self.lazy_byte(s, so, add(soff, i))))
            else:
                soff = self.need_const(s, soff, why='copy src')
        if isinstance(soff, int):
            if so.lazy is not None:
                for i in range(n):
                    cells.append((i, 1, self.lazy_byte(s, so, soff + i)))
            else:
                if not move and src.obj == dst.obj and abs(soff - doff) < n and soff != doff:
                    self.report(s, 'overlap', 'memcpy with overlapping ranges')
                i = 0
                while i < n:
                    c = so.cells.get(soff + i)
                    if c is not None and i + c[0] <= n:
                        cells.append((i, c[0], c[1]))
                        i += c[0]
                        continue
                    b = self.byte_at(s, so, soff + i)
                    if b is not UNDEF:
                        cells.append((i, 1, b))
                    i += 1
        o = s.w(dst.obj)
        if o.kind == 'global':
            self.on_global_write(s, o)
        self.clear(s, o, doff, n)
        for (i, sz, v) in cells:
            if isinstance(v, StrRec):
                raise Unsupported('byte copy of std::string')
            o.cells[doff + i] = (sz, v)

    def set_mem(self, s, dst, b, n):
        if isinstance(n, int) and n == 0:
            return
        n = self.need_const(s, n, limit=5000, why='memset length')
        if n == 0:
            return
        self.bounds(s, dst, n, True, 'memset')
        if n > 1 << 20:
            raise Unsupported('huge memset')
        off = self.need_const(s, dst.off, why='memset dst')
        o = s.w(dst.obj)
        if o.kind == 'global':
            self.on_global_write(s, o)
        self.clear(s, o, off, n)
        i = 0
        while i < n:
            o.cells[off + i] = (1, b)
            i += 1

    # ------------------------------------------------------------------ floats
    def fbits(self, s, f):
        if f.kind == 'b':
            return f.v
        if f.kind == 'k':
            if f.fmt == 'double':
                return struct.unpack('<Q', struct.pack('<d', f.v))[0]
            if f.fmt == 'float':
                return struct.unpack('<I', struct.pack('<f', f.v))[0]
        if f.fmt == 'x86_fp80':
            x = fexact(f)
            if x is not None and x[0] not in ('inf', 'nan'):
                if not x[1]:
                    return x[0] << 79
                e = x[1].numerator.bit_length() - x[1].denominator.bit_length()
                e -= x[1] < Fraction(2) ** e
                q = max(e, -16382)
                n = int(x[1] / Fraction(2) ** (q - 63))
                return (x[0] << 79) + ((q + 16383 if n >> 63 else 0) << 64) + n
            c = self.fclass(s, f)
            if c is not None:
                lo, hi = {'zero': (0, 0), 'number': (1, (0x7fff << 64) - 1), 'inf': ((0x7fff << 64) + (1 << 63),) * 2,
                          'nan': ((0x7fff << 64) + (1 << 63) + 1, (1 << 79) - 1)}[c[0]]
                t = s.ghost.get(('ldbits', f))
                if t is None:
                    t = s.ghost[('ldbits', f)] = lo if lo == hi else dom.sym('ldbits_%s_%d' % (c[0], s.steps), lo, hi)
                return add(t, c[1] << 79)
        x = f
        while x.kind == 't' and x.v[0] == 'ext':
            x = x.v[1]
        m = s.ghost.get('f32') if s is not None else None
        if m is not None and x.kind == 'b' and x.fmt == 'float' and f.fmt == 'double':
            if x.v == m[0]:
                return m[1]
            if add(x.v, 1 << 31) == m[0]:
                return sub(m[1], 1 << 63)
            if sub(x.v, 1 << 31) == m[0]:
                return add(m[1], 1 << 63)
        raise Unsupported('bits of %r' % (f,))

    def ffrombits(self, fmt, v):
        if fmt == 'double':
            return F('k', fmt, struct.unpack('<d', struct.pack('<Q', v & (2 ** 64 - 1)))[0])
        if fmt == 'float':
            return F('k', fmt, struct.unpack('<f', struct.pack('<I', v & (2 ** 32 - 1)))[0])
        raise Unsupported('fp80 bits')

    # ------------------------------------------------------------------ gep / casts / binops
    def gep(self, s, ty, basep, idx):
        if basep is UNDEF:
            return UNDEF
        if isinstance(basep, FnPtr):
            raise Unsupported('gep on function')
        M = self.M
        off = basep.off
        zlo, zhi = basep.zlo, basep.zhi
        cur = ty
        for n, (t, v) in enumerate(idx):
            if v is UNDEF:
                return UNDEF
            if n == 0:
                v = self.sidx(s, v, t)
                if isinstance(v, int) and v == 0:
                    continue
                off = add(off, scale(v, M.sizeof(cur)))
                continue
            r = M.resolve(cur)
            if r[0] == 'struct':
                fo = M.field_offset(r, v)
                off = add(off, fo)
                cur = r[2][v]
                rr = M.resolve(cur)
                if rr[0] == 'arr':
                    zlo = off
                    zhi = add(off, M.sizeof(rr))
            elif r[0] in ('arr', 'vec'):
                v = self.sidx(s, v, t)
                es = M.sizeof(r[2])
                # a nested array element narrows the zone to that row
                cur = r[2]
                off = add(off, scale(v, es))
                if M.resolve(cur)[0] == 'arr':
                    zlo, zhi = off, add(off, es)
            else:
                raise Unsupported('gep into %s' % (r,))
        return Ptr(basep.obj, off, zlo, zhi)

    def sidx(self, s, v, t):
        if isinstance(v, int):
            w = t[1]
            v &= (1 << w) - 1
            return v - (1 << w) if v >> (w - 1) else v
        v = self.num(s, v)
        if s is None:
            return v
        return self.sview(s, v, t[1])

    def cast(self, s, op, t1, v, t2):
        if v is UNDEF:
            return UNDEF
        if isinstance(v, PB):
            if op == 'trunc' and all(b is not UNDEF for b in v.b[:t2[1] // 8]) and t2[1] % 8 == 0:
                r = 0
                for i, b in enumerate(v.b[:t2[1] // 8]):
                    r = add(r, scale(self.uview(s, b, 8), 1 << (8 * i)))
                return r
            return UNDEF
        if op == 'trunc':
            v = self.num(s, v)
            w = t2[1]
            if isinstance(v, int):
                return v & ((1 << w) - 1)
            if w == 1:
                return self.uview(s, v, 1)
            return v
        if op == 'zext':
            if t1[1] == 1:
                return self.num(s, v)
            return self.uview(s, self.num(s, v), t1[1])
        if op == 'sext':
            if t1[1] == 1:
                return (-self.num(s, v)) & ((1 << t2[1]) - 1)
            r = self.sview(s, self.num(s, v), t1[1])
            return r & ((1 << t2[1]) - 1) if isinstance(r, int) else r
        if op == 'ptrtoint':
            if isinstance(v, FnPtr):
                raise Unsupported('function address')
            return self.ptrint(v)
        if op == 'inttoptr':
            return self.toptr(self.num(s, v))
        if op in ('bitcast', 'addrspacecast'):
            if t1[0] == 'fp' and t2[0] == 'int':
                return self.fbits(s, v)
            if t1[0] == 'int' and t2[0] == 'fp':
                return F('b', t2[1], v) if not isinstance(v, int) else self.ffrombits(t2[1], v)
            return v
        if op in ('fpext', 'fptrunc'):
            return self.fconv(s, op, v, t1[1], t2[1])
        if op in ('sitofp', 'uitofp'):
            n = self.num(s, v)
            n = self.sview(s, n, t1[1]) if op == 'sitofp' else self.uview(s, n, t1[1])
            if not isinstance(n, int):
                lo, hi = s.st.rng(n)
                if hi - lo <= 600:
                    n = self.need_const(s, n)
                else:
                    return F('t', t2[1], ('itof', n))
            if t2[1] == 'float':
                return F('k', 'float', struct.unpack('<f', struct.pack('<f', float(n)))[0])
            if abs(n) < 2 ** 53 or t2[1] == 'double':
                return F('k', t2[1], float(n))
            if Fraction(float(n)) == n:
                return F('k', t2[1], float(n))
            return F('t', t2[1], ('itof', n))
        if op in ('fptosi', 'fptoui'):
            if v.kind == 'k' and v.v == v.v and abs(v.v) != float('inf'):
                n = int(v.v)
                w = t2[1]
                lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if op == 'fptosi' else (0, (1 << w) - 1)
                if not lo <= n <= hi:
                    raise Unsupported('float to int overflow')
                return n & ((1 << w) - 1)
            raise Unsupported('fptosi of %r' % (v,))
        raise Unsupported('cast ' + op)

    def fconv(self, s, op, v, a, b):
        if v.kind == 'k':
            if b == 'float':
                try:
                    x = struct.unpack('<f', struct.pack('<f', v.v))[0]
                except OverflowError:
                    x = float('inf') if v.v > 0 else float('-inf')
                return F('k', 'float', x)
            return F('k', b, v.v)
        if op == 'fpext':
            if v.kind == 'b' and a == 'float' and b == 'double' and v.v is not None:
                return F('t', b, ('ext', v))
            return F('t', b, ('ext', v))
        # trunc of an extension of the same format is exact
        x = v
        while x.kind == 't' and x.v[0] == 'ext':
            x = x.v[1]
            if x.fmt == b:
                return x
        if x is not v and b == 'double' and x.fmt == 'float':
            return F('t', b, ('ext', x))
        if v.kind == 't' and v.v[0] == 'ldk':
            from .models import fconst, round_to
            return fconst(v.v[1], round_to(v.v[2], b), b)
        if v.kind == 't' and v.v[0] == 'fneg':
            return self.fneg(s, self.fconv(s, op, v.v[1], a, b))
        if v.kind == 't' and v.v[0] == 'fabs':
            return self.models.i_fabs(self, s, None, [self.fconv(s, op, v.v[1], a, b)])
        h = s.ghost.get('fptrunc')
        if h is not None:
            r = h(v, b)
            if r is not None:
                return r
        return F('t', b, ('trunc', v))

    def binop(self, s, op, ty, a, b, flags):
        if ty[0] == 'fp':
            return self.fbin(s, op, ty[1], a, b)
        if ty[0] != 'int':
            raise Unsupported('vector op')
        w = ty[1]
        if isinstance(a, PB) and isinstance(b, int) and op in ('lshr', 'and'):
            if op == 'lshr' and b % 8 == 0:
                k = b // 8
                bs = tuple(a.b[k:]) + (0,) * k
                return self.fromPB(s, bs)
            if op == 'and' and all(((b >> (8 * i)) & 255) in (0, 255) for i in range(w // 8)):
                return self.fromPB(s, tuple(x if (b >> (8 * i)) & 255 else 0 for i, x in enumerate(a.b)))
        if a is UNDEF or b is UNDEF or isinstance(a, PB) or isinstance(b, PB):
            return UNDEF
        if w == 1:
            return self.boolop(s, op, a, b)
        a = self.num(s, a)
        b = self.num(s, b)
        M = (1 << w) - 1
        if isinstance(a, int) and isinstance(b, int):
            return self.cbin(s, op, w, a, b, flags)
        if op == 'add':
            r = add(a, b)
        elif op == 'sub':
            r = sub(a, b)
        elif op == 'mul':
            r = mul(a, b)
            if isinstance(r, Poly) and not isinstance(a, int) and not isinstance(b, int):
                # products need their factors in value range
                r = mul(self.uview(s, a, w), self.uview(s, b, w))
        elif op == 'shl':
            b = self.need_const(s, self.uview(s, b, w), limit=200, why='shift')
            if b >= w:
                self.report(s, 'shift', 'shift amount %d >= width %d' % (b, w))
                return UNDEF
            r = scale(a, 1 << b)
        elif op in ('lshr', 'udiv', 'urem'):
            ua = self.uview(s, a, w)
            if op == 'lshr':
                b = self.need_const(s, self.uview(s, b, w), limit=200, why='shift')
                if b >= w:
                    self.report(s, 'shift', 'shift amount %d >= width %d' % (b, w))
                    return UNDEF
                return floor_div(ua, 1 << b, s.st)
            ub = self.uview(s, b, w)
            if not isinstance(ub, int):
                z = eq(ub)
                if s.st.decide(z) is not False:
                    self.report(s, 'div0', 'division by zero', z)
                ub = self.need_const(s, ub, limit=200, why='divisor')
            if ub == 0:
                self.report(s, 'div0', 'division by zero')
                raise PathEnd('violation')
            if op == 'udiv':
                return floor_div(ua, ub, s.st)
            return mod(ua, ub, s.st)
        elif op in ('ashr', 'sdiv', 'srem'):
            sa = self.sview(s, a, w)
            if op == 'ashr':
                b = self.need_const(s, self.uview(s, b, w), limit=200, why='shift')
                if b >= w:
                    self.report(s, 'shift', 'shift amount %d >= width %d' % (b, w))
                    return UNDEF
                return floor_div(sa, 1 << b, s.st)
            sb = self.need_const(s, self.sview(s, b, w), limit=200, why='divisor')
            if sb == 0:
                self.report(s, 'div0', 'division by zero')
                raise PathEnd('violation')
            c = ge(sa)
            nonneg = self.truth(s, c)
            d = abs(sb)
            q = floor_div(sa, d, s.st) if nonneg else neg(floor_div(neg(sa), d, s.st))
            if op == 'srem':
                return sub(sa, scale(q, d))
            return q if sb > 0 else neg(q)
        elif op in ('and', 'or', 'xor'):
            r = self.bitop(s, op, w, a, b)
        else:
            raise Unsupported(op)
        if isinstance(r, int):
            return r & M
        return r

    def fromPB(self, s, bs):
        if any(x is UNDEF for x in bs):
            return PB(bs)
        r = 0
        for i, x in enumerate(bs):
            r = add(r, scale(self.uview(s, x, 8), 1 << (8 * i)))
        return r

    def bitop(self, s, op, w, a, b):
        M = (1 << w) - 1
        if isinstance(a, int):
            a, b = b, a
        if isinstance(b, int):
            b &= M
            if op == 'and':
                return self.maskand(s, a, b, w)
            if op == 'or':
                if b == 0:
                    return a
                return sub(add(a, b), self.maskand(s, a, b, w))
            if b == 0:
                return a
            if b == M:
                return sub(-1, a)
            return sub(add(a, b), scale(self.maskand(s, a, b, w), 2))
        ua, ub = self.uview(s, a, w), self.uview(s, b, w)
        if isinstance(ua, int) or isinstance(ub, int):
            return self.bitop(s, op, w, ua, ub)
        if ua == ub:
            return {'and': ua, 'or': ua, 'xor': 0}[op]
        # disjoint bits
        for x, y in ((ua, ub), (ub, ua)):
            k = self.lowzero(s, x, w)
            hi = s.st.rng(y)[1]
            if hi < (1 << k):
                return 0 if op == 'and' else add(x, y)
            # x = c * 2^k with small support
        # 0/1 values: split
        for x in (ua, ub):
            lo, hi = s.st.rng(x)
            if hi - lo <= 1:
                raise Split([[eq(sub(x, lo))], [eq(sub(x, hi))]])
        l1, h1 = s.st.rng(ua)
        l2, h2 = s.st.rng(ub)
        bits = max(h1.bit_length(), h2.bit_length())
        if op == 'and':
            return dom.fn('and', (ua, ub), 0, min(h1, h2))
        return dom.fn(op, (ua, ub), 0 if op == 'xor' else max(l1, l2), (1 << bits) - 1)

    def lowzero(self, s, p, w):
        from math import gcd
        g = 0
        for m, c in p.t.items():
            g = gcd(g, c)
        k = 0
        while g and g % 2 == 0:
            g //= 2
            k += 1
        return k

    def maskand(self, s, a, mask, w):
        if mask == 0:
            return 0
        if mask == (1 << w) - 1:
            return a
        u = self.uview(s, a, w)
        if isinstance(u, int):
            return u & mask
        out = 0
        lo = 0
        m = mask
        while m:
            while not m & 1:
                m >>= 1
                lo += 1
            ln = 0
            while m & 1:
                m >>= 1
                ln += 1
            q = floor_div(u, 1 << lo, s.st)
            # keep ln bits of q
            l, h = s.st.rng(q)
            if l >= 0 and h < (1 << ln):
                r = q
            else:
                x, y = l >> ln, h >> ln
                if y - x == 0:
                    r = sub(q, x << ln)
                elif y - x == 1:
                    c = ge(sub(q, y << ln))
                    d = s.st.decide(c)
                    if d is None:
                        raise Split([[c], [c_not(c)]])
                    r = sub(q, (y if d else x) << ln)
                else:
                    r = mod(q, 1 << ln, s.st)
            out = add(out, scale(r, 1 << lo))
            lo += ln
        return out

    def boolop(self, s, op, a, b):
        def cond(x):
            if isinstance(x, int):
                return TRUE if x & 1 else FALSE
            if isinstance(x, Poly):
                return ne(self.uview(s, x, 1))
            return x
        a, b = cond(a), cond(b)
        if op == 'and':
            return unc(c_and([a, b]))
        if op == 'or':
            return unc(c_or([a, b]))
        if op in ('xor', 'add', 'sub'):
            if b == TRUE:
                return unc(c_not(a))
            if b == FALSE:
                return unc(a)
            if a == TRUE:
                return unc(c_not(b))
            if a == FALSE:
                return unc(b)
            return unc(c_or([c_and([a, c_not(b)]), c_and([c_not(a), b])]))
        raise Unsupported('i1 ' + op)

    def cbin(self, s, op, w, a, b, flags):
        M = (1 << w) - 1
        a &= M
        b &= M
        sg = lambda x: x - (1 << w) if x >> (w - 1) else x
        if op == 'add':
            return (a + b) & M
        if op == 'sub':
            return (a - b) & M
        if op == 'mul':
            return (a * b) & M
        if op == 'and':
            return a & b
        if op == 'or':
            return a | b
        if op == 'xor':
            return a ^ b
        if op in ('shl', 'lshr', 'ashr'):
            if b >= w:
                self.report(s, 'shift', 'shift amount %d >= width %d' % (b, w))
                return UNDEF
            if op == 'shl':
                return (a << b) & M
            if op == 'lshr':
                return a >> b
            return (sg(a) >> b) & M
        if b == 0:
            self.report(s, 'div0', 'division by zero')
            raise PathEnd('violation')
        if op == 'udiv':
            return a // b
        if op == 'urem':
            return a % b
        x, y = sg(a), sg(b)
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0):
            q = -q
        if op == 'sdiv':
            return q & M
        return (x - q * y) & M

    def fclass(self, s, v):
        """(class, sign) of a float: class nan | inf | zero | number (finite, not zero), or None; splits where it must"""
        x = fexact(v)
        if x is not None:
            return x if len(x) == 2 and isinstance(x[0], str) else ('number' if x[1] else 'zero', x[0])
        if v.kind == 't' and v.v[0] == 'ext':
            return self.fclass(s, v.v[1])
        if v.kind == 't' and v.v[0] in ('fneg', 'fabs'):
            c = self.fclass(s, v.v[1])
            return c and (c[0], 0 if v.v[0] == 'fabs' else 1 - c[1])
        if v.kind == 't' and v.v[0] == 'arg':
            return s.ghost.get('ldclass')
        if v.kind == 'b' and v.fmt in ('float', 'double'):
            w, INFB = (64, 0x7ff << 52) if v.fmt == 'double' else (32, 0xff << 23)
            p = self.uview(s, v.v, w)
            sg = self.truth(s, unc(ge(sub(p, 1 << (w - 1)))))
            m = sub(p, 1 << (w - 1)) if sg else p
            if self.truth(s, unc(ge(sub(m, INFB)))):
                return ('inf' if self.truth(s, unc(eq(sub(m, INFB)))) else 'nan', int(sg))
            return ('zero' if self.truth(s, unc(eq(m))) else 'number', int(sg))
        return None

    def fbin(self, s, op, fmt, a, b):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if fmt in ('float', 'x86_fp80') and op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            r = fexact_op(op, fmt, fexact(a), fexact(b))
            if r is not None:
                return r
        if op == 'fsub' and a == b:
            c = self.fclass(s, a)
            if c is not None:
                return F('k', fmt, float('nan') if c[0] in ('nan', 'inf') else 0.0)
        if a.kind == 'k' and b.kind == 'k' and fmt == 'double':
            x, y = a.v, b.v
            try:
                if op == 'fadd':
                    return F('k', fmt, x + y)
                if op == 'fsub':
                    return F('k', fmt, x - y)
                if op == 'fmul':
                    return F('k', fmt, x * y)
                if op == 'fdiv' and y != 0:
                    return F('k', fmt, x / y)
            except OverflowError:
                pass
        if op == 'fsub' and a.kind == 'k' and a.v == 0.0 and str(a.v) == '-0.0':
            return self.fneg(s, b)
        return F('t', fmt, (op, a, b))

    def fneg(self, s, v):
        if v is UNDEF:
            return v
        if v.kind == 'k':
            return F('k', v.fmt, -v.v)
        if v.kind == 'b':
            w = 64 if v.fmt == 'double' else 32
            p = self.uview(s, v.v, w)
            c = ge(sub(p, 1 << (w - 1)))
            if self.truth(s, c):
                return F('b', v.fmt, sub(p, 1 << (w - 1)))
            return F('b', v.fmt, add(p, 1 << (w - 1)))
        if v.kind == 't' and v.v[0] == 'ext':
            return F('t', v.fmt, ('ext', self.fneg(s, v.v[1])))
        if v.kind == 't' and v.v[0] == 'ldk':
            return F('t', v.fmt, ('ldk', not v.v[1], v.v[2]))
        if v.kind == 't' and v.v[0] == 'fneg':
            return v.v[1]
        return F('t', v.fmt, ('fneg', v))

    # condition on a bits-valued float compared with a constant
    def fcmp(self, s, pred, a, b):
        if a is UNDEF or b is UNDEF:
            raise UndefUse()
        if pred == 'true':
            return 1
        if pred == 'false':
            return 0
        if a.kind == 'k' and b.kind == 'k':
            x, y = a.v, b.v
            un = x != x or y != y
            o = {'eq': x == y, 'gt': x > y, 'ge': x >= y, 'lt': x < y, 'le': x <= y, 'ne': x != y}
            if pred == 'ord':
                return int(not un)
            if pred == 'uno':
                return int(un)
            if pred[0] == 'o':
                return int((not un) and o[pred[1:]])
            return int(un or o[pred[1:]])
        if a.kind == 'k':
            fl = {'gt': 'lt', 'ge': 'le', 'lt': 'gt', 'le': 'ge', 'eq': 'eq', 'ne': 'ne'}
            if pred in ('ord', 'uno'):
                return self.fcmp(s, pred, b, a)
            return self.fcmp(s, pred[0] + fl[pred[1:]], b, a)

        xa, xb = fexact(a), fexact(b)
        if xa is not None and xb is not None:
            if xa[0] == 'nan' or xb[0] == 'nan':
                return int(pred[0] == 'u')
            if pred in ('ord', 'uno'):
                return int(pred == 'ord')

            def key(x):
                return Fraction(10) ** 6000 * (-1 if x[1] else 1) if x[0] == 'inf' else -x[1] if x[0] else x[1]
            d = key(xa) - key(xb)
            return int({'eq': d == 0, 'gt': d > 0, 'ge': d >= 0, 'lt': d < 0, 'le': d <= 0, 'ne': d != 0}[pred[1:]])

        def strip(x):
            while x.kind == 't' and x.v[0] == 'ext':
                x = x.v[1]
            return x
        x = strip(a)
        if x.kind == 't' and x.v[0] in ('arg', 'fneg', 'fabs'):
            c = self.fclass(s, x)
            d = self.fclass(s, b)
            if c is not None and d is not None:
                if c[0] == 'nan' or d[0] == 'nan':
                    return int(pred[0] == 'u')
                if pred in ('ord', 'uno'):
                    return int(pred == 'ord')
                rank = {'zero': 0, 'number': 1, 'inf': 2}
                i, j = (rank[y[0]] * (-1 if y[1] else 1) for y in (c, d))
                if i != j or abs(i) != 1 or x == strip(b):
                    return int({'eq': i == j, 'gt': i > j, 'ge': i >= j, 'lt': i < j, 'le': i <= j, 'ne': i != j}[pred[1:]])
        if x.kind == 't' and x.v[0] == 'trunc':
            raise Unsupported('fcmp on truncated value')
        if x.kind != 'b':
            raise Unsupported('fcmp on %r' % (a,))
        w = 64 if x.fmt == 'double' else 32
        if w == 64:
            INFB = 0x7ff << 52
        else:
            INFB = 0xff << 23
        p = self.uview(s, x.v, w)
        S = 1 << (w - 1)

        def between(lo, hi):
            return c_and([ge(sub(p, lo)), ge(sub(hi, p))])
        nan = c_or([between(INFB + 1, S - 1), between(S + INFB + 1, 2 * S - 1)])
        if b.kind != 'k':
            y = strip(b)
            if y == x:
                if pred in ('uno', 'une'):
                    return unc(nan)
                if pred in ('ord', 'oeq', 'oge', 'ole'):
                    return unc(c_not(nan))
                if pred in ('ugt', 'ult'):
                    return unc(nan)
                return int(pred[0] == 'u')
            raise Unsupported('fcmp of two symbolic values')
        y = b.v
        if y != y:
            return 0 if pred[0] == 'o' else 1
        if pred == 'uno':
            return unc(nan)
        if pred == 'ord':
            return unc(c_not(nan))
        # key of y in the format; y must be representable, otherwise shift the comparison
        if w == 64:
            yb = struct.unpack('<Q', struct.pack('<d', abs(y)))[0]
            exact = True
        else:
            try:
                f = struct.unpack('<f', struct.pack('<f', abs(y)))[0]
            except OverflowError:
                f = float('inf')
            if f != abs(y):
                raise Unsupported('fcmp with a constant the format cannot hold')
            yb = struct.unpack('<I', struct.pack('<f', abs(y)))[0]
        neg_ = y < 0

        def lt(strict):
            # { x : x < y } or <=
            e = 0 if strict else 1
            if y == 0:
                posset = [] if strict else [between(0, 0)]
                negset = [between(S + 1, S + INFB)] if strict else [between(S, S + INFB)]
                return c_or(posset + negset)
            if not neg_:
                return c_or([between(0, yb - 1 + e), between(S, S + INFB)])
            return c_or([between(S + yb + 1 - e, S + INFB)]) if yb + 1 - e <= INFB else FALSE
        if pred[1:] == 'eq':
            r = c_or([eq(p), eq(sub(p, S))]) if y == 0 else eq(sub(p, yb + (S if neg_ else 0)))
        elif pred[1:] == 'ne':
            r = c_not(c_or([eq(p), eq(sub(p, S))])) if y == 0 else ne(sub(p, yb + (S if neg_ else 0)))
            if pred[0] == 'o':
                r = c_and([r, c_not(nan)])
            return unc(r)
        elif pred[1:] == 'lt':
            r = lt(True)
        elif pred[1:] == 'le':
            r = lt(False)
        elif pred[1:] == 'gt':
            r = c_and([c_not(lt(False)), c_not(nan)])
        else:
            r = c_and([c_not(lt(True)), c_not(nan)])
        if pred[0] == 'u':
            r = c_or([r, nan])
        return unc(r)

    def icmp(self, s, pred, ty, a, b):
        if a is UNDEF or b is UNDEF:
            raise UndefUse()
        if ty[0] == 'ptr':
            return self.pcmp(s, pred, a, b)
        w = ty[1]
        if w == 1:
            if pred in ('eq', 'ne'):
                r = self.boolop(s, 'xor', a, b)
                if pred == 'ne':
                    return r
                return unc(c_not(r)) if not isinstance(r, int) else 1 - r
        a = self.num(s, a)
        b = self.num(s, b)
        if isinstance(a, int) and isinstance(b, int):
            M = (1 << w) - 1
            a &= M
            b &= M
            if pred[0] == 's':
                a = a - (1 << w) if a >> (w - 1) else a
                b = b - (1 << w) if b >> (w - 1) else b
            return int({'eq': a == b, 'ne': a != b, 'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[
                pred if pred in ('eq', 'ne') else pred[1:]])
        if pred in ('eq', 'ne'):
            mc = self.memcmp_eq(s, a, b)
            if mc is not None:
                return unc(mc if pred == 'eq' else c_not(mc))
            d = sub(a, b)
            if isinstance(d, int):
                d &= (1 << w) - 1
                return int((d == 0) == (pred == 'eq'))
            lo, hi = s.st.rng(d)
            if lo > -(1 << w) and hi < (1 << w):
                c = eq(d)
                if lo < 0 and hi > 0 or True:
                    # difference strictly inside (-2^w, 2^w): equal iff zero
                    return unc(c if pred == 'eq' else c_not(c))
            d = self.uview(s, d, w)
            c = eq(d)
            return unc(c if pred == 'eq' else c_not(c))
        if pred[0] == 'u':
            a = self.uview(s, a, w)
            b = self.uview(s, b, w)
        else:
            a = self.sview(s, a, w)
            b = self.sview(s, b, w)
        k = pred[1:]
        if k == 'ge':
            return unc(ge(sub(a, b)))
        if k == 'le':
            return unc(ge(sub(b, a)))
        if k == 'gt':
            return unc(ge(sub(sub(a, b), 1)))
        return unc(ge(sub(sub(b, a), 1)))

    def memcmp_eq(self, s, a, b):
        """memcmp(...) == 0 as a conjunction of element equalities"""
        if isinstance(a, int):
            a, b = b, a
        if b == 0 and isinstance(a, Poly) and len(a.t) == 1:
            (m, c), = a.t.items()
            if len(m) == 1 and c == 1 and ATOMS[m[0]].kind == 'fn' and ATOMS[m[0]].args[0] == 'memcmp':
                _, (w, xs, ys) = ATOMS[m[0]].args
                return c_and([eq(sub(x, y)) for x, y in zip(xs, ys)])
        return None

    def pcmp(self, s, pred, a, b):
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            same = isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.name == b.name
            if pred in ('eq', 'ne'):
                return int(same == (pred == 'eq'))
            raise Unsupported('function pointer order')
        if a.obj != b.obj:
            if pred == 'eq':
                return 0
            if pred == 'ne':
                return 1
            if a.obj is None or b.obj is None:
                r = {'ugt': b.obj is None, 'uge': b.obj is None, 'ult': a.obj is None, 'ule': a.obj is None}
                return int(r[pred])
            raise Unsupported('order of unrelated pointers')
        d = sub(a.off, b.off)
        r = {'eq': eq(d), 'ne': ne(d), 'uge': ge(d), 'ugt': ge(sub(d, 1)), 'ule': ge(neg(d)), 'ult': ge(sub(-1, d)),
             'sge': ge(d), 'sgt': ge(sub(d, 1)), 'sle': ge(neg(d)), 'slt': ge(sub(-1, d))}[pred]
        return unc(r)

    # ------------------------------------------------------------------ running
    def start(self, fname, args, state=None):
        s = (state or self.init).copy()
        self._start(s, self.M.functions[fname], args)
        return s

    def _start(self, s, fn, args, call=None):
        f = Frame()
        f.fn = fn
        f.blk = fn.entry
        f.idx = 0
        f.prev = None
        f.env = {}
        f.call = call
        f.allocas = []
        f.visits = {}
        f.insts = fn.blocks[fn.entry]
        if len(args) < len([p for p in fn.params if p[1] is not None]):
            raise Unsupported('argument count of %s' % fn.name)
        for (t, nm, a), v in zip(fn.params, args):
            f.env[nm] = v
        s.frames.append(f)
        self.cov_funcs[fn.name] = self.cov_funcs.get(fn.name, 0) + 1

    def explore(self, s0):
        """yield (kind, state, info) for each trace partition; kinds: ret, throw, violation, unknown, limit"""
        work = [s0]
        n = 0
        while work:
            s = work.pop()
            if self.deadline and time.time() > self.deadline:
                self.note_unknown('budget', 'time budget exhausted')
                return
            try:
                r = self.run(s, work)
            except PathEnd as e:
                r = (e.kind, s, e.info)
            except UndefUse as e:
                self.report(s, 'uninit', 'an uninitialised value decides %s' % (s.frames[-1].insts[s.frames[-1].idx].op,))
                r = ('violation', s, 'uninit')
            except Unsupported as e:
                loc, func, stack = self.where(s)
                self.note_unknown('unsupported', str(e), loc, stack, func)
                r = ('unknown', s, str(e))
            except Infeasible:
                r = None
            if r is None:
                continue
            n += 1
            self.cov_paths += 1
            yield r
            if n > self.MAXPATHS:
                self.note_unknown('budget', 'more than %d trace partitions' % self.MAXPATHS)
                return

    def run(self, s, work):
        while True:
            f = s.frames[-1]
            ins = f.insts[f.idx]
            s.steps += 1
            self.cov_inst += 1
            if s.steps > self.MAXSTEPS:
                return ('limit', s, 'step limit')
            try:
                r = self.step(s, f, ins)
            except Split as e:
                kids = []
                for conj in e.cases:
                    c = s.copy()
                    try:
                        for x in conj:
                            c.st.assume(x)
                    except Infeasible:
                        continue
                    c.nsplit += 1
                    c.since = c.steps
                    kids.append(c)
                if s.nsplit > 4000:
                    return ('limit', s, 'too many splits')
                for k in kids[1:]:
                    work.append(k)
                if not kids:
                    return None
                s = kids[0]
                if self.deadline and time.time() > self.deadline:
                    raise Unsupported('time budget')
                continue
            if r is not None:
                return r

    def jump(self, s, f, target):
        if 'probe' in s.loops:
            pr = s.loops['probe']
            d = len(s.frames)
            if d < pr[0] or (d == pr[0] and target not in pr[2]):
                from .loops import LoopExit
                raise LoopExit()
        f.prev = f.blk
        f.blk = target
        f.insts = f.fn.blocks[target]
        if target in f.fn.loopheads:
            v = f.visits.get(target, 0) + 1
            f.visits[target] = v
            if v > self.LOOPMAX:
                raise PathEnd('limit', 'loop at %s' % target)
        # phis in parallel
        i = 0
        vals = []
        insts = f.insts
        while i < len(insts) and insts[i].op == 'phi':
            p = insts[i]
            try:
                v = p.a[f.prev]
            except KeyError:
                raise Unsupported('phi without edge')
            v = self.val(s, p.ty, v)
            if self.depthcap is not None and isinstance(v, Poly):
                v = self.widen(s, v)
            vals.append((p.res, v))
            i += 1
        for nm, v in vals:
            f.env[nm] = v
        f.idx = i
        if target in f.fn.loopheads and self.summarise:
            self.loop_head(s, f, target)

    PURE = {'load', 'icmp', 'zext', 'sext', 'trunc', 'getelementptr', 'phi', 'add', 'sub', 'and', 'or', 'xor', 'freeze'}

    def pure_block(self, fn, b):
        c = self.pures.setdefault(fn.name, {})
        if b not in c:
            ii = fn.blocks[b]
            c[b] = len(ii) <= 12 and ii[-1].op == 'br' and all(i.op in self.PURE for i in ii[:-1]) and b not in fn.loopheads
        return c[b]

    def rejoin(self, s, f, ins):
        """an undecided branch whose two arms provably meet in one block without an effect needs no
        partition: -> (predecessor, block) or None"""
        fn = f.fn
        a, b = ins.a[1], ins.a[2]
        if a == b or not (self.pure_block(fn, a) or self.pure_block(fn, b)):
            return None
        pa, pb = self.follow(s, f, a), self.follow(s, f, b)
        for prev, blk in pa:
            for prev2, blk2 in pb:
                if blk == blk2:
                    for p in fn.blocks[blk]:
                        if p.op != 'phi':
                            break
                        if p.a[prev] != p.a[prev2]:
                            return None
                        x = p.a[prev]
                    return prev, blk
        return None

    def follow(self, s, f, blk):
        """blocks reached from the edge f.blk -> blk while nothing but reads happens"""
        out = [(f.blk, blk)]
        if not self.pure_block(f.fn, blk):
            return out
        c = s.copy()
        g = c.frames[-1]
        muted, self.muted = self.muted, True
        try:
            while len(out) < 5 and self.pure_block(f.fn, blk):
                self.jump(c, g, blk)
                while g.insts[g.idx].op != 'br':
                    self.step(c, g, g.insts[g.idx])
                br = g.insts[g.idx]
                if br.a[0] is None:
                    nxt = br.a[1]
                else:
                    v = self.val(c, ('int', 1), br.a[0])
                    if v is UNDEF:
                        break
                    nxt = br.a[1] if self.truth(c, v) else br.a[2]
                out.append((g.blk, nxt))
                blk = nxt
        except (Split, Unsupported, UndefUse, PathEnd, Infeasible):
            pass
        finally:
            self.muted = muted
        return out

    def loop_head(self, s, f, target):
        pass

    def step(self, s, f, ins):
        op = ins.op
        if op == 'br':
            c = ins.a[0]
            if c is None:
                self.jump(s, f, ins.a[1])
                return
            v = self.val(s, ('int', 1), c)
            try:
                t = self.truth(s, v)
            except Split:
                to = self.rejoin(s, f, ins)
                if to is None:
                    raise
                f.blk, tgt = to
                self.jump(s, f, tgt)
                return
            if not isinstance(v, int):
                s.trace.append((f.fn.name, ins.dbg, t))
            self.jump(s, f, ins.a[1] if t else ins.a[2])
            return
        if op == 'call' or op == 'invoke':
            return self.call(s, f, ins)
        if op == 'ret':
            v = self.val(s, ins.ty, ins.a[0]) if ins.a else None
            return self.ret(s, v)
        h = getattr(self, 'i_' + op, None)
        if h is None:
            if op in BINOPS:
                v = self.binop(s, op, ins.ty, self.val(s, ins.ty, ins.a[0]), self.val(s, ins.ty, ins.a[1]), ins.extra)
            elif op in CASTS:
                v = self.cast(s, op, ins.a[0], self.val(s, ins.a[0], ins.a[1]), ins.ty)
            else:
                raise Unsupported('instruction %s' % (ins.text.strip()[:80]))
        else:
            v = h(s, f, ins)
        if ins.res is not None:
            f.env[ins.res] = v
        f.idx += 1

    def i_load(self, s, f, ins):
        return self.load(s, self.val(s, ('ptr',), ins.a[0]), ins.ty)

    def i_store(self, s, f, ins):
        self.store(s, self.val(s, ('ptr',), ins.a[2]), ins.a[0], self.val(s, ins.a[0], ins.a[1]))

    def i_alloca(self, s, f, ins):
        cnt = self.val(s, ('int', 64), ins.a[0])
        o = s.new(self.M.sizeof(ins.ty) * cnt, 'stack', '%s in %s' % (ins.res, f.fn.dem.split('(')[0]))
        o.ty = ins.ty
        f.allocas.append(o.id)
        return Ptr(o.id, 0)

    def i_getelementptr(self, s, f, ins):
        ops = ins.a
        b = self.val(s, ops[0][0], ops[0][1])
        return self.gep(s, ins.ty, b, [(t, self.val(s, t, v)) for t, v in ops[1:]])

    def i_icmp(self, s, f, ins):
        return self.icmp(s, ins.a[0], ins.ty, self.val(s, ins.ty, ins.a[1]), self.val(s, ins.ty, ins.a[2]))

    def i_fcmp(self, s, f, ins):
        return self.fcmp(s, ins.a[0], self.val(s, ins.ty, ins.a[1]), self.val(s, ins.ty, ins.a[2]))

    def i_fneg(self, s, f, ins):
        return self.fneg(s, self.val(s, ins.ty, ins.a[0]))

    def i_freeze(self, s, f, ins):
        return self.val(s, ins.ty, ins.a[0])

    def i_select(self, s, f, ins):
        c = self.val(s, ('int', 1), ins.a[0])
        if isinstance(c, tuple) and ins.ty == ('int', 1):
            a = self.val(s, ins.ty, ins.a[1])
            b = self.val(s, ins.ty, ins.a[2])
            if isinstance(a, int) and isinstance(b, int):
                if a == b:
                    return a
                return c if a else unc(c_not(c))
            if b == 0:
                return self.boolop(s, 'and', c, a)
            if a == 1:
                return self.boolop(s, 'or', c, b)
        t = self.truth(s, c)
        return self.val(s, ins.ty, ins.a[1] if t else ins.a[2])

    def i_switch(self, s, f, ins):
        raise Unsupported('switch')

    def i_extractvalue(self, s, f, ins):
        v = self.val(s, ins.ty, ins.a[0])
        for i in ins.a[1]:
            if v is UNDEF:
                return UNDEF
            v = v[i]
        return v

    def i_insertvalue(self, s, f, ins):
        agg = self.val(s, ins.ty, ins.a[0])
        ty = self.M.resolve(ins.ty)
        v = self.val(s, ('int', 64), ins.a[1]) if ins.a[1][0] != 'f' else self.const(s, None, ins.a[1])

        def put(agg, ty, idx):
            if not idx:
                return v
            n = ty[1] if ty[0] == 'arr' else len(ty[2])
            l = [UNDEF] * n if agg is UNDEF else list(agg)
            sub_ = ty[2] if ty[0] == 'arr' else ty[2][idx[0]]
            l[idx[0]] = put(l[idx[0]], self.M.resolve(sub_), idx[1:])
            return tuple(l)
        return put(agg, ty, ins.a[2])

    def i_landingpad(self, s, f, ins):
        ex = s.exc
        if ex is None:
            raise Unsupported('landingpad without exception')
        sel = 0
        for cl in ins.a:
            if cl[0] == 'catch':
                t = cl[1]
                if t[0] == 'null':
                    sel = self.typeid(None)
                    break
                nm = t[1] if t[0] == 'g' else None
                if nm and self.models.exc_matches(ex[0], nm):
                    sel = self.typeid(nm)
                    break
        return (ex[1], sel)

    def typeid(self, nm):
        if nm is None:
            return 1
        ids = self.__dict__.setdefault('_tids', {})
        return ids.setdefault(nm, len(ids) + 2)

    def i_resume(self, s, f, ins):
        raise Unsupported('resume')

    def i_unreachable(self, s, f, ins):
        self.report(s, 'unreachable', 'control reaches an unreachable point')
        raise PathEnd('violation')

    # switch and resume need control
    def ret(self, s, v):
        f = s.frames.pop()
        if 'lexi::' in f.fn.dem:
            s.last = (f.fn, f.insts[min(f.idx, len(f.insts) - 1)])
        for a in f.allocas:
            o = s.w(a)
            o.alive = False
        if 'probe' in s.loops and len(s.frames) < s.loops['probe'][0]:
            from .loops import LoopExit
            raise LoopExit()
        if not s.frames or f.call is None:
            s.ghost['frame'] = f
            return ('ret', s, v)
        c = s.frames[-1]
        ins = f.call
        if ins.res is not None:
            c.env[ins.res] = v
        if ins.op == 'invoke':
            self.jump(s, c, ins.extra[0])
        else:
            c.idx += 1

    def throw(self, s, tyname, ptr):
        """unwind"""
        s.exc = (tyname, ptr)
        while s.frames:
            f = s.frames[-1]
            ins = f.insts[f.idx]
            if ins.op == 'invoke' and self._in_invoke(s, f, ins):
                self.jump(s, f, ins.extra[1])
                return None
            s.frames.pop()
            for a in f.allocas:
                s.w(a).alive = False
            if f.call is None and not s.frames:
                return ('throw', s, tyname)
        return ('throw', s, tyname)

    def _in_invoke(self, s, f, ins):
        # landing pad reachable: does any clause apply or is there a cleanup
        lp = None
        for x in f.fn.blocks[ins.extra[1]]:
            if x.op == 'landingpad':
                lp = x
                break
        if lp is None:
            return True
        for cl in lp.a:
            if cl[0] == 'cleanup':
                return True
            if cl[0] == 'catch':
                if cl[1][0] == 'null':
                    return True
                if cl[1][0] == 'g' and self.models.exc_matches(s.exc[0], cl[1][1]):
                    return True
            if cl[0] == 'filter':
                return True
        return False

    # ------------------------------------------------------------------ calls
    def call(self, s, f, ins):
        callee, args = ins.a
        if callee[0] == 'g':
            name = callee[1]
            g = self.M.globals.get(name)
            if g is not None and g.init is not None and g.init[0] == 'alias':
                name = g.init[1][1]
        else:
            v = self.val(s, ('ptr',), callee)
            if not isinstance(v, FnPtr):
                raise Unsupported('indirect call')
            name = v.name
        h = self.dispatch_cache.get(name)
        if h is None:
            h = self.dispatch(name)
            self.dispatch_cache[name] = h
        if h[0] == 'def':
            vals = []
            temps = []
            for (t, v, at) in args:
                x = self.val(s, t, v)
                if 'byval' in at:
                    x = self.byval(s, x, at['byval'])
                    temps.append(x.obj)
                vals.append(x)
            if len(s.frames) > 200:
                raise Unsupported('recursion')
            self._start(s, h[1], vals, ins)
            s.frames[-1].allocas += temps
            return
        if h[0] == 'skip':
            if ins.op == 'invoke':
                self.jump(s, f, ins.extra[0])
            else:
                f.idx += 1
            return
        vals = [self.val(s, t, v) for (t, v, at) in args]
        r = h[1](self, s, ins, vals)
        if isinstance(r, Throw):
            return self.throw(s, r.ty, r.ptr)
        if isinstance(r, Control):
            return r.result
        f = s.frames[-1]
        if ins.res is not None:
            f.env[ins.res] = r
        if ins.op == 'invoke':
            self.jump(s, f, ins.extra[0])
        else:
            f.idx += 1

    def byval(self, s, p, at):
        """the callee's own copy of an aggregate passed by value"""
        if len(at) != 1 or at[0][0] != 'loc':
            raise Unsupported('byval')
        n = self.M.sizeof(('named', at[0][1].lstrip('%').strip('"')))
        o = s.new(n, 'stack', 'an argument passed by value')
        q = Ptr(o.id, 0)
        self.copy_mem(s, q, p, n, False)
        return q

    def dispatch(self, name):
        if name in self.hooks:
            return ('hook', self.hooks[name])
        m = self.models.lookup(self, name)
        if m is not None:
            return m
        fn = self.M.functions.get(name)
        if fn is not None:
            if fn.dem in self.hooks:
                return ('hook', self.hooks[fn.dem])
            return ('def', fn)
        raise Unsupported('external function %s' % (self.dem(name)))

    def dem(self, name):
        fn = self.M.functions.get(name) or self.M.declares.get(name)
        return fn.dem if fn is not None else name


class Throw:
    def __init__(self, ty, ptr=NULL):
        self.ty = ty
        self.ptr = ptr


class Control:
    def __init__(self, result=None):
        self.result = result


class UndefUse(Exception):
    pass


def unc(c):
    """condition to i1 value"""
    if c == TRUE:
        return 1
    if c == FALSE:
        return 0
    return c


BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
          'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint', 'inttoptr',
         'bitcast', 'addrspacecast'}


def _switch(self, s, f, ins):
    v = self.val(s, ins.ty, ins.a[0])
    if v is UNDEF:
        raise UndefUse()
    v = self.num(s, v)
    w = ins.ty[1]
    M = (1 << w) - 1
    if isinstance(v, Poly):
        v = s.st.simp(v)
    if isinstance(v, int):
        v &= M
        for c, l in ins.a[2]:
            if c & M == v:
                self.jump(s, f, l)
                return
        self.jump(s, f, ins.a[1])
        return
    # signed view keeps small negative case labels simple
    sv = self.sview(s, v, w)
    others = []
    for c, l in ins.a[2]:
        c &= M
        sc = c - (1 << w) if c >> (w - 1) else c
        e = eq(sub(sv, sc))
        d = s.st.decide(e)
        if d is True:
            self.jump(s, f, l)
            return
        if d is None:
            others.append(e)
    if not others:
        self.jump(s, f, ins.a[1])
        return
    raise Split([[e] for e in others] + [[c_not(e) for e in others]])


def _step_switch(self, s, f, ins):
    _switch(self, s, f, ins)


_orig_step = Interp.step


def _step(self, s, f, ins):
    if ins.op == 'switch':
        return _switch(self, s, f, ins)
    if ins.op == 'resume':
        if s.exc is None:
            raise Unsupported('resume')
        # leave this frame
        s.frames.pop()
        for a in f.allocas:
            s.w(a).alive = False
        if not s.frames:
            return ('throw', s, s.exc[0])
        return self.throw(s, s.exc[0], s.exc[1])
    return _orig_step(self, s, f, ins)


Interp.step = _step
