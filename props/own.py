"""C24: extractors own the value they parsed."""
from .common import *
from .ints import _M, prepare, CORPUS

WHAT = {1: 'converting again', 2: 'the string it was built from has died', 3: 'being built from a temporary string', 4: 'its string was changed',
        5: 'other extractions', 6: 'being copied from an extractor that has died', 7: 'being moved from an extractor that has died', 8: 'copy assignment',
        9: 'assignment from a temporary', 10: 'being passed and returned by value', 11: 'the extractor it was copied from was reassigned', 12: 'self-assignment'}
OTHER = {'float': b'0.5', 'double': b'0.5', 'ldouble': b'0.5', 'bool': b'true', 'boolf': b'false', 'char': b'!', 'charu': b'!', 'null': b'null'}
TEXTS = {'num': [b'', b'5', b'-1', b'12345678901234567890', b'300', b'99999', b'x', b'1\x002', b'-9223372036854775808'],
         'flt': [b'', b'1.5', b'-2.25e10', b'1e400', b'1.00000000000000011102230246251565404236316680908203126', b'0.1', b'x', b'1\x002'],
         'bool': [b'true', b'false'], 'char': [b'a', b'\x00', b'\xff', b'xyz', b'z' * 30], 'null': [b'null']}


def values(run):
    """hooks that remember the first value per tag and compare the others with it"""
    def cmp(kind):
        def h(I, s, ins, a):
            tag, v = a[0], a[1]
            if v is UNDEF:
                run.fail(s, 'keeps-its-value', 'the conversion gives an uninitialised value')
                raise interp.PathEnd('violation')
            if kind in 'su':
                v = (I.sview if kind == 's' else I.uview)(s, I.num(s, v), 64)
            key = 0 if tag < 20 else tag
            m = dict(s.ghost.get('vals', {}))
            if key not in m:
                m[key] = v
                s.ghost['vals'] = m
                return
            w = m[key]
            msg = 'after %s the conversion gives another value' % WHAT.get(tag, 'a conversion to another type')
            if kind in 'su':
                run.oblige(s, 'keeps-its-value', eq(sub(v, w)), msg)
            elif v == w:
                run.r.ob('keeps-its-value', True)
            elif isinstance(v, F) and isinstance(w, F) and (v.kind == w.kind == 'k' or v.kind == w.kind == 't' and v.v[0] == w.v[0] == 'ldk') and v.v == v.v and w.v == w.v:
                run.fail(s, 'keeps-its-value', msg)
            else:
                same = isinstance(v, F) and isinstance(w, F) and v.kind == w.kind == 'k' and v.v != v.v and w.v != w.v
                if same:
                    run.r.ob('keeps-its-value', True)
                else:
                    run.undecided(s, 'keeps-its-value', msg)
        return h
    for k in 'sufdl':
        run.hook('vf_' + k, cmp(k))

    def src(I, s, ins, a):
        rec = I.models.getstr(I, s, a[0])
        c = I.models.content(I, s, rec)
        if 'src' in s.ghost and s.ghost['src'] is not None:
            o = s.ghost['src']
            s.ghost['src'] = None
            if c[0] == 'whole' and o[0] == 'whole':
                b, p = s.mem[c[1].buf], s.mem[o[1].buf]
                if c[1].len == o[1].len and b.lazy == p.lazy and b.segs == p.segs:
                    run.r.ob('source-unchanged', True)
                else:
                    run.undecided(s, 'source-unchanged', 'extraction may have changed the string')
            elif c[0] == o[0] == 'bytes':
                same_bytes(run, s, 'source-unchanged', c[1], o[1], 'the string after extraction')
            else:
                run.undecided(s, 'source-unchanged', 'extraction may have changed the string')
        else:
            s.ghost['src'] = c
    run.hook('vf_src', src)


def task(key, cfg, entry, text, budget, seed):
    run = Run(_M[key], cfg, entry, kinds=MEMKINDS, seed=seed, budget=budget)
    I = run.I
    values(run)

    def setup(s, a):
        if text is None:
            I.corpus = [{'s': c} for c in CORPUS + [b'true', b'false', b'null', b'a', b'1.5']]
            return [mklazy(run, s, 's')[0]]
        run.inputs['string'] = repr(text)
        return [mkstr(run, s, list(text))]

    def onret(s, v):
        run.hold(s, 'yields-a-value', 'vals' in s.ghost, 'extraction returned without a value')

    def onthrow(s, t):
        # rejection is allowed before the first value only
        run.hold(s, 'keeps-its-value', 'vals' not in s.ghost, 'an exception leaves a conversion of an accepted text')
    r = run.go([], setup=setup, onret=onret, onthrow=onthrow)
    r.samples.append('%s on %s: %d partitions' % (entry, 'any string' if text is None else repr(text), r.paths))
    return r


def C24(tier, seed):
    cfgs = {'gcc': build.GCC, 'release': build.GCC + ['-DNDEBUG'], 'no-elision': build.GCC + ['-fno-elide-constructors'], 'ilp32': build.ILP32}
    prepare(['own.cpp'], cfgs)
    tasks = []
    for k in list(_M):
        for e in sorted(_M[k].functions):
            if not e.startswith(('e_own_', 'e_all_')):
                continue
            n = e[6:]
            g = 'flt' if n in ('float', 'double', 'ldouble') else n[:4] if n[:4] in ('bool', 'char', 'null') else 'num'
            if k[1] == 'ilp32' and g == 'flt':
                continue
            for x in [None] + TEXTS[g]:
                tasks.append((task, (k, k[1], e, x, 60, seed), '%s/%s' % (e, k[1])))
    return tasks, sorted({k[1] for k in _M}), 300
