"""Concretisation: find input values inside an abstract state (all path conditions true)
that also satisfy a given condition.  Only terms are evaluated, never the program."""
import random, time
from . import dom
from .dom import ATOMS, ev, ev_cond, base_syms, INF

CORN = [0, 1, 2, 9, 10, 99, 100, 127, 128, 255, 256, 999, 1000, 9999, 10000, 99999, 100000, 32767, 32768, 65535,
        65536, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1, 2 ** 52, 2 ** 52 - 1, 2 ** 53] + \
       [10 ** k for k in range(6, 20)] + [10 ** k - 1 for k in range(6, 20)]
CORN = sorted(set(CORN + [-c for c in CORN] + [-c - 1 for c in CORN]))


def cond_syms(c, out, seen):
    if c[0] in 'TF':
        return
    if c[0] in ('ge', 'eq', 'ne'):
        base_syms(c[1], out, seen)
    else:
        for x in c[1]:
            cond_syms(x, out, seen)


def _numcoef(p, a, env):
    """numeric slope of p in symbol a (may be approximate under floors)"""
    memo = {}
    v0 = ev(p, env, memo)
    d = dict(env)
    step = 1 << 20
    d[a] = env[a] + step
    v1 = ev(p, d, {})
    if v1 == v0:
        step = 1 << 55
        d[a] = env[a] + step
        v1 = ev(p, d, {})
    return v0, v1 - v0, step


def find(st, extra=None, seed=1, tries=3000, tmax=8.0, hints=None, want=None, corpus=None):
    """-> {symbol name: value} or None.  `want(env)` may add a final semantic test.
    corpus: candidate contents of symbolic-length strings, [{name: bytes}]"""
    if corpus:
        t0 = time.time()
        for c in corpus:
            c = {k: _pad(st, k, v) for k, v in c.items()}
            dom.STRINGS.clear()
            dom.STRINGS.update(c)
            fix = {'N_' + k: len(v) for k, v in c.items()}
            w = _find(st, extra, seed, 12, 0.5, hints, want, fix)
            if w is not None:
                w.update({k: repr(v) for k, v in c.items()})
                dom.STRINGS.clear()
                return w
            if time.time() - t0 > 2 * tmax:
                break
        dom.STRINGS.clear()
        return None
    return _find(st, extra, seed, tries, tmax, hints, want, None)


def _pad(st, name, v, most=5000):
    """extend a candidate content to the smallest length the state allows"""
    for a in ATOMS:
        if a.kind == 'sym' and a.name == 'N_' + name:
            lo = st.arng(a.id)[0]
            if len(v) < lo < most:
                return v + b'x' * (lo - len(v))
    return v


def _find(st, extra, seed, tries, tmax, hints, want, fix):
    conds = list(st.conds)
    goal = [extra] if extra is not None and extra[0] != 'T' else []
    if extra is not None and extra[0] == 'F':
        return None
    goals = []
    if goal:
        goals = [list(c) for c in dom.partition(extra)]
    else:
        goals = [[]]
    syms = set()
    seen = set()
    for c in conds + goal:
        cond_syms(c, syms, seen)
    # symbols that matter elsewhere are filled by the caller with in-range values
    syms = sorted(syms)
    rnd = random.Random(seed)
    t0 = time.time()
    for g in goals:
        allc = conds + list(g)
        try:
            s2 = st.copy()
            for c in g:
                s2.assume(c, record=False)
        except dom.Infeasible:
            continue
        rng = {a: s2.arng(a) for a in syms}
        if fix:
            bad = False
            for a in syms:
                if ATOMS[a].name in fix:
                    v = fix[ATOMS[a].name]
                    if not rng[a][0] <= v <= rng[a][1]:
                        bad = True
                    rng[a] = (v, v)
            if bad:
                continue
        cand = {}
        for a in syms:
            lo, hi = rng[a]
            if lo == -INF or hi == INF:
                lo = max(lo, -2 ** 70)
                hi = min(hi, 2 ** 70)
                rng[a] = (lo, hi)
            cs = [c for c in CORN if lo <= c <= hi]
            w = hi - lo
            cs += [lo, hi, lo + w // 2, lo + 1 if w > 1 else lo, hi - 1 if w > 1 else hi]
            cand[a] = cs
        for t in range(tries):
            if time.time() - t0 > tmax:
                return None
            env = {}
            for a in syms:
                lo, hi = rng[a]
                x = rnd.random()
                if t == 0:
                    env[a] = lo
                elif t == 1:
                    env[a] = hi
                elif hints and t - 2 < len(hints):
                    v = hints[t - 2].get(ATOMS[a].name, lo)
                    env[a] = min(max(v, lo), hi)
                elif x < 0.5:
                    env[a] = rnd.choice(cand[a])
                elif x < 0.8:
                    env[a] = rnd.randint(lo, hi)
                else:
                    k = rnd.randint(0, max(1, (hi - lo).bit_length()))
                    env[a] = min(hi, lo + rnd.getrandbits(k)) if rnd.random() < .5 else max(lo, hi - rnd.getrandbits(k))
            ok = _repair(env, allc, syms, rng, rnd, s2)
            if ok and (want is None or want(env)):
                return {ATOMS[a].name: v for a, v in env.items()}
            if not syms:
                break
    return None


def _violated(c, env, memo):
    try:
        return not ev_cond(c, env, memo)
    except KeyError:
        return True


def _repair(env, conds, syms, rng, rnd, st, rounds=12):
    # equalities recorded as substitutions first
    for _ in range(rounds):
        memo = {}
        bad = None
        for c in conds:
            if _violated(c, env, memo):
                bad = c
                break
        if bad is None:
            return True
        while bad[0] in ('and', 'or'):
            xs = [x for x in bad[1] if _violated(x, env, memo)]
            if not xs:
                return False
            bad = xs[0] if bad[0] == 'and' else rnd.choice(xs)
        if bad[0] not in ('ge', 'eq', 'ne'):
            return False
        p = bad[1]
        s = set()
        base_syms(p, s, set())
        s = [a for a in s if a in env]
        if not s:
            return False
        rnd.shuffle(s)
        done = False
        for a in s:
            lo, hi = rng[a]
            if lo == hi:
                continue
            if bad[0] == 'ne':
                env[a] = rnd.randint(lo, hi)
                done = True
                break
            try:
                v0, dv, step = _numcoef(p, a, env)
            except KeyError:
                continue
            if dv == 0:
                continue
            # want v0 + dv*d/step == 0 (or >= 0)
            target = -v0 if bad[0] == 'eq' else -v0 + (rnd.choice([0, 0, 1, abs(dv)]) if dv else 0)
            num = target * step
            d = -((-num) // dv) if (bad[0] == 'ge' and dv > 0) else num // dv
            nv = env[a] + d
            nv = min(max(nv, lo), hi)
            if nv == env[a]:
                continue
            env[a] = nv
            done = True
            break
        if not done:
            return False
    memo = {}
    return all(not _violated(c, env, memo) for c in conds)
