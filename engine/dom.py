"""Numeric abstract domain: integer polynomials over atoms, with exact floor division.

A machine value of width w is a polynomial P over atoms, meaning "the value modulo 2^w".
Atoms are input symbols, floor(P/c) terms, constant-table lookups and uninterpreted but
evaluable functions.  A Store holds what is known on a trace partition: interval per atom,
linear constraints, equalities and disequalities.  Everything is exact integer arithmetic;
there is no solver: queries are answered by interval evaluation, by the affine relaxation
of floor terms, and by adding multiples of known constraints.
"""
from math import gcd
import sys

sys.setrecursionlimit(20000)

INF = float('inf')


class Atom:
    __slots__ = ('id', 'kind', 'args', 'lo', 'hi', 'name', 'deps')

    def __repr__(self):
        return show_atom(self)


ATOMS = []
_INTERN = {}


def _mk(kind, key, args, lo, hi, name=None):
    k = (kind, key)
    a = _INTERN.get(k)
    if a is None:
        a = Atom()
        a.id = len(ATOMS)
        a.kind = kind
        a.args = args
        a.lo = lo
        a.hi = hi
        a.name = name
        ATOMS.append(a)
        _INTERN[k] = a
    return a


class Poly:
    __slots__ = ('t', '_h')

    def __init__(self, t):
        self.t = t
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and (self is o or (hash(self) == hash(o) and self.t == o.t))

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        return show(self)

    def const(self):
        return self.t.get((), 0)


def norm(t):
    t = {m: c for m, c in t.items() if c}
    if not t:
        return 0
    if len(t) == 1 and () in t:
        return t[()]
    return Poly(t)


def terms(p):
    return p.t if isinstance(p, Poly) else ({(): p} if p else {})


def sym(name, lo, hi):
    a = _mk('sym', name, (), lo, hi, name)
    if (a.lo, a.hi) != (lo, hi):
        raise ValueError('symbol %s redefined' % name)
    return Poly({(a.id,): 1})


def base(objid):
    a = _mk('base', objid, (objid,), 4096, (1 << 46), 'addr%s' % objid)
    return Poly({(a.id,): 1})


def add(p, q):
    if isinstance(p, int) and isinstance(q, int):
        return p + q
    if isinstance(q, int):
        if q == 0:
            return p
        t = dict(p.t)
        t[()] = t.get((), 0) + q
        if not t[()]:
            del t[()]
        return Poly(t)
    if isinstance(p, int):
        return add(q, p)
    t = dict(p.t)
    for m, c in q.t.items():
        t[m] = t.get(m, 0) + c
    return norm(t)


def scale(p, k):
    if isinstance(p, int):
        return p * k
    if k == 0:
        return 0
    if k == 1:
        return p
    return Poly({m: c * k for m, c in p.t.items()})


def neg(p):
    return scale(p, -1)


def sub(p, q):
    if isinstance(q, int):
        return add(p, -q)
    return add(p, scale(q, -1))


def alias(p):
    """name a multi-term polynomial so that products keep its interval"""
    if isinstance(p, int) or len(p.t) == 1:
        return p
    a = _mk('als', p, (p,), -INF, INF)
    return Poly({(a.id,): 1})


def mul(p, q, st=None):
    if isinstance(p, int):
        return scale(q, p)
    if isinstance(q, int):
        return scale(p, q)
    if len(p.t) > 1:
        p = alias(p)
    if len(q.t) > 1:
        q = alias(q)
    t = {}
    for m, c in p.t.items():
        for n, d in q.t.items():
            k = tuple(sorted(m + n))
            t[k] = t.get(k, 0) + c * d
    return norm(t)


def expand_alias(p):
    """fully multiply alias atoms out"""
    if isinstance(p, int):
        return p
    if not any(ATOMS[a].kind == 'als' for m in p.t for a in m):
        return p
    out = {}
    for m, c in p.t.items():
        cur = {(): c}
        for a in m:
            at = ATOMS[a]
            if at.kind == 'als':
                q = terms(expand_alias(at.args[0]))
            else:
                q = {(a,): 1}
            nxt = {}
            for x, cx in cur.items():
                for y, cy in q.items():
                    k = tuple(sorted(x + y))
                    nxt[k] = nxt.get(k, 0) + cx * cy
            cur = nxt
        for k, v in cur.items():
            out[k] = out.get(k, 0) + v
    return norm(out)


def fn(name, args, lo, hi):
    """uninterpreted but evaluable function atom; args: tuple of int/Poly/hashables"""
    a = _mk('fn', (name, tuple(args)), (name, tuple(args)), lo, hi)
    return Poly({(a.id,): 1})


_depth = {}


def depth(p):
    """nesting depth of floor terms"""
    if isinstance(p, int):
        return 0
    d = 0
    for m in p.t:
        for a in m:
            x = _depth.get(a)
            if x is None:
                at = ATOMS[a]
                x = 0
                if at.kind in ('flr', 'als'):
                    x = depth(at.args[0]) + (at.kind == 'flr')
                _depth[a] = x
            d = max(d, x)
    return d


def nest(p):
    """rewrite floor((g*Q + A) / (g*m)) as floor((Q + floor(A/g)) / m): an equal form that may meet one the program built"""
    out = 0
    for m, c in p.t.items():
        cur = c
        for a in m:
            cur = mul(cur, nest_atom(a))
        out = add(out, cur)
    return out


def flat(p):
    """the reverse of nest: floor((Q + floor(A/g)) / m) as floor((g*Q + A) / (g*m))"""
    out = 0
    for m, c in p.t.items():
        cur = c
        for a in m:
            cur = mul(cur, flat_atom(a))
        out = add(out, cur)
    return out


def flat_atom(a):
    at = ATOMS[a]
    if at.kind != 'flr':
        return Poly({(a,): 1})
    P, m = at.args
    P = flat(expand_alias(P)) if isinstance(P, Poly) else P
    if isinstance(P, int):
        return floor_div(P, m)
    fl = [x for x, c in P.t.items() if len(x) == 1 and c == 1 and ATOMS[x[0]].kind == 'flr']
    if len(fl) == 1:
        A, g = ATOMS[fl[0][0]].args
        rest = norm({x: c for x, c in P.t.items() if x != fl[0]})
        return floor_div(add(scale(rest, g), A), g * m)
    return floor_div(P, m)


def nest_atom(a):
    at = ATOMS[a]
    me = Poly({(a,): 1})
    if at.kind != 'flr':
        return me
    P, m = at.args
    P = nest(expand_alias(P)) if isinstance(P, Poly) else P
    if isinstance(P, int):
        return floor_div(P, m)
    g = 1 << 32
    if m % g == 0 and m > g:
        hi = {x: c // g for x, c in P.t.items() if c % g == 0}
        lo = {x: c for x, c in P.t.items() if c % g}
        if any(x for x in hi) and any(x for x in lo):
            return floor_div(add(norm(hi), floor_div(norm(lo), g)), m // g)
    return floor_div(P, m)


def floor_div(p, c, st=None):
    """floor(p / c), c > 0, canonicalised"""
    if isinstance(p, int):
        return p // c
    if c == 1:
        return p
    if any(ATOMS[a].kind == 'als' for m in p.t for a in m if len(m) == 1):
        # linear aliases are multiplied out so that coefficients can cancel
        p = expand_alias(p)
        if isinstance(p, int):
            return p // c
    out = {}
    rem = {}
    h = c // 2
    for m, k in p.t.items():
        if m == ():
            q, r = divmod(k, c)
        else:
            q, r = divmod(k, c)
            if r > h:
                r -= c
                q += 1
        if q:
            out[m] = out.get(m, 0) + q
        if r:
            rem[m] = r
    a = norm(out)
    if not rem:
        return a
    r = norm(rem)
    if isinstance(r, int):
        return add(a, r // c)
    # common factor
    g = c
    for m, k in r.t.items():
        if m != ():
            g = gcd(g, k)
    if g > 1:
        t = {m: k // g for m, k in r.t.items()}   # constant: floor
        if () in r.t:
            t[()] = r.t[()] // g
        r = norm(t)
        c //= g
        if c == 1:
            return add(a, r)
        return add(a, floor_div(r, c, st))
    if st is not None:
        lo, hi = st.rng(r)
        if lo != -INF and hi != INF and lo // c == hi // c:
            return add(a, lo // c)
    # floor((floor(Q/d) + k)/c) = floor((Q + k d)/(c d))
    nc = [(m, k) for m, k in r.t.items() if m != ()]
    if len(nc) == 1 and nc[0][1] == 1 and len(nc[0][0]) == 1:
        at = ATOMS[nc[0][0][0]]
        if at.kind == 'flr':
            q, d = at.args
            return add(a, floor_div(add(q, r.t.get((), 0) * d), c * d, st))
    at = _mk('flr', (r, c), (r, c), -INF, INF)
    return add(a, Poly({(at.id,): 1}))


def mod(p, c, st=None):
    return sub(p, scale(floor_div(p, c, st), c)) if not isinstance(p, int) else p % c


def table(values, idx, st):
    """values[idx] for 0 <= idx < len(values); tries linear/floor/mod forms first"""
    if isinstance(idx, int):
        return values[idx]
    # idx = a*X + b
    lo, hi = st.rng(idx)
    lo = max(lo, 0)
    hi = min(hi, len(values) - 1)
    b = idx.t.get((), 0)
    g = 0
    for m, k in idx.t.items():
        if m != ():
            g = gcd(g, k)
    x = norm({m: k // g for m, k in idx.t.items() if m != ()})
    # idx = g*x + b
    xl, xh = st.rng(x)
    xl = max(xl, -((b - lo) // g) if True else xl)
    xl = max(xl, -(-(lo - b) // g))
    xh = min(xh, (hi - b) // g)
    if xl > xh:
        raise ValueError('empty table index')
    if xh - xl > 5000:
        return fn('tab', (tuple(values), idx), min(values), max(values))
    vals = [values[g * v + b] for v in range(xl, xh + 1)]
    if all(v == vals[0] for v in vals):
        return vals[0]
    n = len(vals)

    def fits(f):
        return all(f(v) == y for v, y in zip(range(xl, xh + 1), vals))
    # linear k*x + c
    k = vals[1] - vals[0]
    c0 = vals[0] - k * xl
    if fits(lambda v: k * v + c0):
        return add(scale(x, k), c0)
    for d in (10, 100, 16, 2, 4, 8, 1000):
        for o in range(min(d, 100)):
            c1 = vals[0] - (xl + o) // d
            if vals[-1] == (xh + o) // d + c1 and fits(lambda v: (v + o) // d + c1):
                return add(floor_div(add(x, o), d, st), c1)
            c2 = vals[0] - (xl + o) % d
            if vals[-1] == (xh + o) % d + c2 and fits(lambda v: (v + o) % d + c2):
                return add(mod(add(x, o), d, st), c2)
    return fn('tab', (tuple(vals), add(x, -xl)), min(vals), max(vals))


# ---------------------------------------------------------------- conditions
TRUE = ('T',)
FALSE = ('F',)


def ge(p):
    """p >= 0"""
    if isinstance(p, int):
        return TRUE if p >= 0 else FALSE
    return ('ge', p)


def eq(p):
    if isinstance(p, int):
        return TRUE if p == 0 else FALSE
    if next(iter(sorted(p.t.items())))[1] < 0:
        p = neg(p)
    return ('eq', p)


def ne(p):
    if isinstance(p, int):
        return TRUE if p != 0 else FALSE
    if next(iter(sorted(p.t.items())))[1] < 0:
        p = neg(p)
    return ('ne', p)


def c_not(c):
    k = c[0]
    if k == 'T':
        return FALSE
    if k == 'F':
        return TRUE
    if k == 'ge':
        return ge(sub(-1, c[1]))
    if k == 'eq':
        return ('ne', c[1])
    if k == 'ne':
        return ('eq', c[1])
    if k == 'and':
        return c_or([c_not(x) for x in c[1]])
    if k == 'or':
        return c_and([c_not(x) for x in c[1]])
    raise ValueError(c)


def c_and(cs):
    out = []
    for c in cs:
        if c == FALSE:
            return FALSE
        if c == TRUE:
            continue
        if c[0] == 'and':
            out += list(c[1])
        else:
            out.append(c)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return ('and', tuple(out))


def c_or(cs):
    out = []
    for c in cs:
        if c == TRUE:
            return TRUE
        if c == FALSE:
            continue
        if c[0] == 'or':
            out += list(c[1])
        else:
            out.append(c)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return ('or', tuple(out))


def partition(c):
    """disjoint list of conjunctions (lists of atomic conditions) covering c"""
    k = c[0]
    if k == 'T':
        return [[]]
    if k == 'F':
        return []
    if k in ('ge', 'eq', 'ne'):
        return [[c]]
    if k == 'and':
        out = [[]]
        for x in c[1]:
            px = partition(x)
            out = [a + b for a in out for b in px]
        return out
    if k == 'or':
        out = []
        pre = [[]]
        for x in c[1]:
            px = partition(x)
            out += [a + b for a in pre for b in px]
            nx = partition(c_not(x))
            pre = [a + b for a in pre for b in nx]
        return out
    raise ValueError(c)


def show_atom(a):
    if a.kind == 'sym':
        return a.name
    if a.kind == 'flr':
        return 'floor((%s)/%s)' % (show(a.args[0]), a.args[1])
    if a.kind == 'als':
        return '[%s]' % show(a.args[0])
    if a.kind == 'base':
        return '&obj%s' % a.args[0]
    if a.kind == 'fn':
        if a.args[0] == 'tab':
            return 'table%d[%s]' % (len(a.args[1][0]), show(a.args[1][1]))
        return '%s(%s)' % (a.args[0], ','.join(show(x) if isinstance(x, (int, Poly)) else str(x)[:40] for x in a.args[1]))
    return a.kind


def show(p):
    if isinstance(p, int):
        return str(p)
    out = []
    for m, c in sorted(p.t.items(), key=lambda x: (len(x[0]), x[0])):
        s = '*'.join(show_atom(ATOMS[a]) for a in m)
        if not m:
            out.append('%d' % c)
        elif c == 1:
            out.append(s)
        else:
            out.append('%d*%s' % (c, s))
    r = ' + '.join(out)
    return r if len(r) < 400 else r[:400] + '...'


def show_cond(c):
    if c[0] in 'TF':
        return c[0]
    if c[0] in ('ge', 'eq', 'ne'):
        return show(c[1]) + {'ge': ' >= 0', 'eq': ' == 0', 'ne': ' != 0'}[c[0]]
    return '(' + (' %s ' % c[0]).join(show_cond(x) for x in c[1]) + ')'


# ---------------------------------------------------------------- evaluation under an assignment
EVAL_FN = {}
STRINGS = {}       # contents of symbolic strings during concretisation


def ev(p, env, memo):
    if isinstance(p, int):
        return p
    s = 0
    for m, c in p.t.items():
        v = c
        for a in m:
            v *= ev_atom(a, env, memo)
            if not v:
                break
        s += v
    return s


def ev_atom(a, env, memo):
    v = memo.get(a)
    if v is not None:
        return v
    at = ATOMS[a]
    k = at.kind
    if k == 'sym':
        v = env[a]
    elif k == 'flr':
        v = ev(at.args[0], env, memo) // at.args[1]
    elif k == 'als':
        v = ev(at.args[0], env, memo)
    elif k == 'base':
        v = 4096 + at.args[0] * 65536
    elif k == 'fn':
        name, args = at.args
        if name == 'tab':
            i = ev(args[1], env, memo)
            if not 0 <= i < len(args[0]):
                raise KeyError('table index')
            v = args[0][i]
        else:
            v = EVAL_FN[name](*[ev(x, env, memo) if isinstance(x, (int, Poly)) else
                                (tuple(ev(y, env, memo) if isinstance(y, Poly) else y for y in x)
                                 if isinstance(x, tuple) else x) for x in args])
    memo[a] = v
    return v


def ev_cond(c, env, memo):
    k = c[0]
    if k == 'T':
        return True
    if k == 'F':
        return False
    if k == 'ge':
        return ev(c[1], env, memo) >= 0
    if k == 'eq':
        return ev(c[1], env, memo) == 0
    if k == 'ne':
        return ev(c[1], env, memo) != 0
    if k == 'and':
        return all(ev_cond(x, env, memo) for x in c[1])
    return any(ev_cond(x, env, memo) for x in c[1])


def base_syms(p, out, seen):
    if isinstance(p, Poly):
        for m in p.t:
            for a in m:
                if a in seen:
                    continue
                seen.add(a)
                at = ATOMS[a]
                if at.kind == 'sym':
                    out.add(a)
                elif at.kind in ('flr', 'als'):
                    base_syms(at.args[0], out, seen)
                elif at.kind == 'fn':
                    for x in at.args[1]:
                        base_syms(x, out, seen)
    elif isinstance(p, tuple):
        for x in p:
            base_syms(x, out, seen)


# ---------------------------------------------------------------- store
class Infeasible(Exception):
    pass


class Store:
    __slots__ = ('r', 'cons', 'conds', 'subst', 'neq', 'memo', 'ver', 'facts')

    def __init__(self):
        self.r = {}
        self.cons = []
        self.conds = []
        self.subst = {}
        self.neq = set()
        self.memo = {}
        self.ver = 0
        self.facts = set()

    def copy(self):
        s = Store()
        s.r = dict(self.r)
        s.cons = list(self.cons)
        s.conds = list(self.conds)
        s.subst = dict(self.subst)
        s.neq = set(self.neq)
        s.facts = set(self.facts)
        s.memo = self.memo
        self.memo = dict(self.memo) if len(self.memo) < 3000 else {}
        return s

    def touch(self):
        self.memo = {}
        self.ver += 1

    # ---- ranges
    def arng(self, a):
        key = a
        v = self.memo.get(key)
        if v is not None:
            return v
        at = ATOMS[a]
        lo, hi = at.lo, at.hi
        if a in self.r:
            l2, h2 = self.r[a]
            lo = max(lo, l2)
            hi = min(hi, h2)
        if at.kind == 'flr':
            l2, h2 = self.rng(at.args[0])
            c = at.args[1]
            if l2 != -INF:
                lo = max(lo, l2 // c)
            if h2 != INF:
                hi = min(hi, h2 // c)
        elif at.kind == 'als':
            l2, h2 = self.rng(at.args[0])
            lo = max(lo, l2)
            hi = min(hi, h2)
        self.memo[key] = (lo, hi)
        return lo, hi

    def irng(self, p):
        lo = hi = 0
        for m, c in p.t.items():
            if not m:
                lo += c
                hi += c
                continue
            if len(m) == 1:
                l, h = self.arng(m[0])
            else:
                l, h = 1, 1
                i = 0
                while i < len(m):
                    a, b = self.arng(m[i])
                    if i + 1 < len(m) and m[i + 1] == m[i]:
                        cand = _prods(a, b, a, b)
                        lo2 = 0 if a <= 0 <= b else min(cand)
                        a, b = lo2, max(cand)
                        i += 1
                    cand = _prods(l, h, a, b)
                    l, h = min(cand), max(cand)
                    i += 1
            if c > 0:
                lo += _m(c, l)
                hi += _m(c, h)
            else:
                lo += _m(c, h)
                hi += _m(c, l)
        return lo, hi

    def rng(self, p, depth=0):
        if isinstance(p, int):
            return p, p
        v = self.memo.get(p)
        if v is not None:
            return v
        if len(p.t) > 1:
            # common factor of the non-constant part: c + g*q
            g = 0
            for m, c in p.t.items():
                if m:
                    g = gcd(g, c)
                    if g == 1:
                        break
            if g > 1:
                k = p.t.get((), 0)
                q = Poly({m: c // g for m, c in p.t.items() if m})
                lo, hi = self.rng(q, depth)
                lo = k + g * lo if lo != -INF else lo
                hi = k + g * hi if hi != INF else hi
                self.memo[p] = (lo, hi)
                return lo, hi
        lo, hi = self.irng(p)
        if lo != hi and depth < 40:
            # relax the newest linear floor/alias term
            best = None
            for m, c in p.t.items():
                if len(m) == 1 and ATOMS[m[0]].kind in ('flr', 'als'):
                    if best is None or m[0] > best:
                        best = m[0]
            if best is not None and len(p.t) > 1:
                at = ATOMS[best]
                k = p.t[(best,)]
                rest = norm({m: c for m, c in p.t.items() if m != (best,)})
                if at.kind == 'als':
                    l, h = self.rng(add(rest, scale(at.args[0], k)), depth + 1)
                else:
                    q, c = at.args
                    g = gcd(k, c)
                    f = c // g
                    kk = k // g
                    n = add(scale(rest, f), scale(q, kk))
                    l, h = self.rng(n, depth + 1)
                    if kk > 0:
                        l = l - kk * (c - 1) if l != -INF else l
                    else:
                        h = h - kk * (c - 1) if h != INF else h
                    if l != -INF:
                        l = -((-l) // f)
                    if h != INF:
                        h = h // f
                lo = max(lo, l)
                hi = min(hi, h)
        self.memo[p] = (lo, hi)
        return lo, hi

    # ---- proving
    def lower(self, p, depth=2):
        """best lower bound found for p"""
        lo, _ = self.rng(p)
        if depth <= 0 or isinstance(p, int):
            return lo
        for c in self.cons:
            # p >= p - l*c  for l >= 0
            for m, k in c.t.items():
                if not m:
                    continue
                pk = p.t.get(m)
                if pk is None or (pk > 0) != (k > 0):
                    continue
                # scale: a*p - b*c with a,b>0 cancelling m
                g = gcd(pk, k)
                a, b = abs(k) // g, abs(pk) // g
                q = sub(scale(p, a), scale(c, b))
                if isinstance(q, int):
                    l = q
                elif depth > 1 and len(q.t) <= len(p.t) + 2:
                    l = self.lower(q, depth - 1)
                else:
                    l = self.rng(q)[0]
                if l != -INF:
                    l = -((-l) // a)
                    if l > lo:
                        lo = l
        return lo

    def prove_ge(self, p, depth=2):
        """is p >= 0 certain"""
        if isinstance(p, int):
            return p >= 0
        lo, hi = self.rng(p)
        if lo >= 0:
            return True
        if hi < 0:
            return False
        if not self.cons:
            return False
        g = 0
        for m, c in p.t.items():
            if m:
                g = gcd(g, c)
                if g == 1:
                    break
        if g > 1:
            p = norm({m: c // g for m, c in p.t.items()})
        for d in range(1, depth + 1):
            if self._pge(p, d):
                return True
        return False

    def _pge(self, p, depth):
        for c in self.cons:
            done = set()
            for m, k in c.t.items():
                if not m:
                    continue
                pk = p.t.get(m)
                if pk is None or (pk > 0) != (k > 0):
                    continue
                g = gcd(pk, k)
                a, b = abs(k) // g, abs(pk) // g
                if (a, b) in done:
                    continue
                done.add((a, b))
                q = sub(scale(p, a), scale(c, b))
                if isinstance(q, int):
                    if q > -a:
                        return True
                    continue
                if self.rng(q)[0] > -a:
                    return True
                if depth > 1 and len(q.t) <= len(p.t) + 2:
                    if self._pge(add(q, a - 1), depth - 1):
                        return True
        return False

    def decide(self, c):
        """True / False / None"""
        k = c[0]
        if k == 'T':
            return True
        if k == 'F':
            return False
        if k == 'and':
            r = True
            for x in c[1]:
                d = self.decide(x)
                if d is False:
                    return False
                if d is None:
                    r = None
            return r
        if k == 'or':
            r = False
            for x in c[1]:
                d = self.decide(x)
                if d is True:
                    return True
                if d is None:
                    r = None
            return r
        if c in self.facts:
            return True
        if c_not(c) in self.facts:
            return False
        p = c[1]
        key = (k, p)
        v = self.memo.get(key, 0)
        if v != 0:
            return v
        v = self._decide(k, p)
        self.memo[key] = v
        return v

    def _decide(self, k, p):
        r = self._decide1(k, p)
        if r is None and isinstance(p, Poly):
            q = expand_alias(self.simp(p))
            if isinstance(q, Poly):
                for f in (nest, flat):
                    q2 = f(q)
                    if q2 != q:
                        r = self._decide1(k, q2)
                        if r is not None:
                            break
                if r is None and k in ('eq', 'ne') and self.floor_zero(q):
                    r = k == 'eq'
        return r

    def floor_zero(self, p):
        """is p == 0 certain, p being linear in few floor terms: each is eliminated by its definition"""
        if isinstance(p, int):
            return p == 0
        fl = [m[0] for m in p.t if len(m) == 1 and ATOMS[m[0]].kind == 'flr']
        if not fl or len(fl) > 3 or len(p.t) > 8:
            return False
        g = 0
        for m, c in p.t.items():
            if m:
                g = gcd(g, c)
        if p.t.get((), 0) % g:
            return False
        p = norm({m: c // g for m, c in p.t.items()})
        return self._floor_ge(p, fl) and self._floor_ge(neg(p), fl)

    def _floor_ge(self, p, fl):
        if self.prove_ge(p):
            return True
        for a in fl:
            c = p.t.get((a,)) if isinstance(p, Poly) else None
            if not c:
                continue
            P, m = ATOMS[a].args
            # m*p is at least this; p is an integer, so m*p > -m suffices
            q = sub(scale(p, m), scale(Poly({(a,): 1}), c * m))
            q = add(q, scale(P if c < 0 else sub(P, m - 1), c))
            q = add(q, m - 1)
            for x in (q, expand_alias(q)):
                if self.prove_ge(x):
                    return True
        return False

    def _decide1(self, k, p):
        p = self.simp(p)
        if isinstance(p, int):
            return {'ge': p >= 0, 'eq': p == 0, 'ne': p != 0}[k]
        if k == 'ge':
            if self.prove_ge(p):
                return True
            if self.prove_ge(sub(-1, p)):
                return False
            return None
        lo, hi = self.rng(p)
        r = None
        if lo > 0 or hi < 0:
            r = False
        elif lo == 0 and hi == 0:
            r = True
        else:
            e = expand_alias(p)
            if isinstance(e, int):
                r = e == 0
            elif p in self.neq or neg(p) in self.neq or e in self.neq or neg(e) in self.neq:
                r = False
            else:
                # all coefficients share a factor that does not divide the constant
                g = 0
                for m, c in e.t.items():
                    if m:
                        g = gcd(g, c)
                if e.t.get((), 0) % g:
                    r = False
                elif self.cons and (self.prove_ge(sub(p, 1)) or self.prove_ge(sub(-1, p))):
                    r = False
                elif self.cons and self.prove_ge(p) and self.prove_ge(neg(p)):
                    r = True
        if r is None:
            return None
        return r if k == 'eq' else (not r)

    # ---- simplification under the store
    def simp(self, p, memo=None):
        if isinstance(p, int):
            return p
        key = ('simp', p)
        v = self.memo.get(key)
        if v is not None:
            return v
        out = 0
        changed = False
        for m, c in p.t.items():
            cur = c
            for a in m:
                s = self.asimp(a)
                if not (isinstance(s, Poly) and len(s.t) == 1 and s.t.get((a,)) == 1):
                    changed = True
                cur = mul(cur, s)
            out = add(out, cur)
        if not changed:
            out = p
        self.memo[key] = out
        return out

    def asimp(self, a):
        key = ('as', a)
        v = self.memo.get(key)
        if v is not None:
            return v
        at = ATOMS[a]
        lo, hi = self.arng(a)
        if lo == hi:
            v = lo
        elif a in self.subst:
            v = self.simp(self.subst[a])
        elif at.kind == 'flr':
            q = self.simp(at.args[0])
            v = floor_div(q, at.args[1], self)
        elif at.kind == 'als':
            v = alias(self.simp(at.args[0]))
        elif at.kind == 'fn' and at.args[0] == 'tab':
            i = self.simp(at.args[1][1])
            if isinstance(i, int):
                v = at.args[1][0][i]
            else:
                v = Poly({(a,): 1})
        else:
            v = Poly({(a,): 1})
        self.memo[key] = v
        return v

    # ---- assumptions
    def assume(self, c, record=True):
        k = c[0]
        if k == 'T':
            return
        if k == 'F':
            raise Infeasible()
        if k == 'and':
            for x in c[1]:
                self.assume(x, record)
            return
        if k == 'or':
            if self.decide(c) is False:
                raise Infeasible()
            live = [x for x in c[1] if self.decide(x) is not False]
            if len(live) == 1:
                self.assume(live[0], record)
                return
            if record:
                self.conds.append(c)
            return
        d = self.decide(c)
        if d is False:
            raise Infeasible()
        if d is True:
            return
        if record:
            self.conds.append(c)
        self.facts.add(c)
        p = self.simp(c[1])
        if k == 'ge':
            if ne(c[1]) in self.facts or ne(neg(c[1])) in self.facts:
                p = self.simp(sub(c[1], 1))
                if isinstance(p, int):
                    if p < 0:
                        raise Infeasible()
                    return
            elif ge(neg(c[1])) in self.facts:
                # p >= 0 and -p >= 0
                if isinstance(p, Poly):
                    self.facts.add(eq(c[1]))
                    self._eq(p)
                return
            self._ge(p)
        elif k == 'eq':
            self._eq(p)
        else:
            self._ne(p)
            for q in (c[1], neg(c[1])):
                if self.decide(ge(q)) is True:
                    q = self.simp(sub(q, 1))
                    if isinstance(q, Poly):
                        self._ge(q)
                    elif q < 0:
                        raise Infeasible()
                    break

    def _ge(self, p):
        g = 0
        for m, c in p.t.items():
            if m:
                g = gcd(g, c)
        if g > 1:
            t = {m: c // g for m, c in p.t.items()}
            p = norm(t)
        self.touch()
        nc = [(m, c) for m, c in p.t.items() if m]
        if len(nc) > 1:
            self.cons.append(p)
        self.propagate(p, 0)
        # a second look: the new bound may contradict an older constraint
        for c in self.cons[-12:]:
            if self.rng(c)[1] < 0:
                raise Infeasible()

    def propagate(self, p, depth):
        """p >= 0: tighten atoms that occur linearly"""
        for m, c in p.t.items():
            if len(m) != 1:
                continue
            a = m[0]
            rest = norm({x: y for x, y in p.t.items() if x != m})
            lo, hi = self.rng(rest) if not isinstance(rest, int) else (rest, rest)
            # c*a + rest >= 0
            if hi == INF:
                continue
            if c > 0:
                self.setrng(a, -(hi // c), INF, depth)      # a >= ceil(-hi/c)
            else:
                self.setrng(a, -INF, hi // (-c), depth)

    def relate(self, p, depth):
        if depth < 2 and self.keep and len(p.t) > 2:
            self.cons.append(p)

    keep = False

    def setrng(self, a, lo, hi, depth=0):
        l0, h0 = self.arng(a)
        nl, nh = max(l0, lo), min(h0, hi)
        if nl > nh:
            raise Infeasible()
        if (nl, nh) == (l0, h0):
            return
        self.r[a] = (nl, nh)
        self.touch()
        at = ATOMS[a]
        if depth > 8:
            return
        if at.kind == 'flr':
            q, c = at.args
            if isinstance(q, Poly):
                if nl > l0:
                    self.relate(sub(q, nl * c), depth)
                    self.propagate(sub(q, nl * c), depth + 1)
                if nh < h0:
                    self.relate(sub(nh * c + c - 1, q), depth)
                    self.propagate(sub(nh * c + c - 1, q), depth + 1)
        elif at.kind == 'als':
            q = at.args[0]
            if nl > l0:
                self.propagate(sub(q, nl), depth + 1)
            if nh < h0:
                self.propagate(sub(nh, q), depth + 1)
        elif at.kind == 'fn' and at.args[0] == 'tab':
            vals, idx = at.args[1]
            l, h = self.rng(idx)
            ok = [i for i in range(max(l, 0), min(h, len(vals) - 1) + 1) if nl <= vals[i] <= nh]
            if not ok:
                raise Infeasible()
            self.propagate(sub(idx, ok[0]), depth + 1)
            self.propagate(sub(ok[-1], idx), depth + 1)
        elif at.kind == 'fn' and at.args[0] in PROP_FN:
            PROP_FN[at.args[0]](self, at, nl, nh, depth)

    def _eq(self, p):
        g = 0
        for m, c in p.t.items():
            if m:
                g = gcd(g, c)
        if p.t.get((), 0) % g:
            raise Infeasible()
        if g > 1:
            p = norm({m: c // g for m, c in p.t.items()})
        self.touch()
        self.propagate(p, 0)
        self.propagate(neg(p), 0)
        for c in self.cons[-12:]:
            if self.rng(c)[1] < 0:
                raise Infeasible()
        p = self.simp(p)
        if isinstance(p, int):
            if p != 0:
                raise Infeasible()
            return
        # solve for a symbol (or atom) with coefficient +-1 that does not occur elsewhere in p
        cand = []
        for m, c in p.t.items():
            if len(m) == 1 and c in (1, -1) and ATOMS[m[0]].kind in ('sym', 'fn', 'flr'):
                cand.append((0 if ATOMS[m[0]].kind == 'sym' else 1, -m[0], m, c))
        cand.sort()
        for _, _, m, c in cand:
            a = m[0]
            rest = norm({x: y for x, y in p.t.items() if x != m})
            if not occurs(a, rest):
                v = neg(rest) if c == 1 else rest
                lo, hi = self.rng(v) if isinstance(v, Poly) else (v, v)
                l0, h0 = self.arng(a)
                if max(lo, l0) > min(hi, h0):
                    raise Infeasible()
                at = ATOMS[a]
                if at.kind == 'flr' and isinstance(v, Poly):
                    # keep what the floor meant: c v <= Q <= c v + c - 1
                    q, k = self.simp(at.args[0]), at.args[1]
                    self.subst[a] = v
                    for z in (sub(q, scale(v, k)), sub(add(scale(v, k), k - 1), q)):
                        if isinstance(z, Poly):
                            self.cons.append(z)
                            self.propagate(z, 0)
                self.subst[a] = v
                if isinstance(v, int) and l0 != h0:
                    self.setrng(a, v, v)
                if isinstance(v, Poly) and (l0 > lo or h0 < hi):
                    if l0 != -INF:
                        self.cons.append(sub(v, l0))
                        self.propagate(sub(v, l0), 0)
                    if h0 != INF:
                        self.cons.append(sub(h0, v))
                        self.propagate(sub(h0, v), 0)
                self.touch()
                return
        self.cons.append(p)
        self.cons.append(neg(p))
        self.touch()

    def _ne(self, p):
        lo, hi = self.rng(p)
        if lo == 0:
            self._ge(sub(p, 1))
            return
        if hi == 0:
            self._ge(sub(-1, p))
            return
        if self.cons:
            if self.prove_ge(p):
                self._ge(sub(p, 1))
            elif self.prove_ge(neg(p)):
                self._ge(sub(-1, p))
        self.neq.add(p)
        e = expand_alias(p)
        if isinstance(e, Poly):
            self.neq.add(e)
        self.touch()


PROP_FN = {}


def occurs(a, p):
    if not isinstance(p, Poly):
        return False
    for m in p.t:
        for b in m:
            if a == b:
                return True
            at = ATOMS[b]
            if at.kind in ('flr', 'als') and occurs(a, at.args[0]):
                return True
            if at.kind == 'fn' and any(occurs(a, x) for x in at.args[1]):
                return True
    return False


def _m(c, x):
    return x * c if x not in (INF, -INF) else (x if c > 0 else -x)


def _prods(a, b, c, d):
    out = []
    for x in (a, b):
        for y in (c, d):
            if x == 0 or y == 0:
                out.append(0)
            else:
                try:
                    out.append(x * y)
                except OverflowError:
                    out.append(INF if (x > 0) == (y > 0) else -INF)
    return out


def reset():
    """forget all atoms (between independent analysis tasks)"""
    del ATOMS[:]
    _INTERN.clear()
    _depth.clear()
