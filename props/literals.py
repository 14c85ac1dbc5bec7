"""C13: configured literals."""
from .common import *
from .ints import _M, prepare
from .simple import arg_for, c11_task, c11_rt
from engine import check

NAMES = ('TRUE', 'FALSE', 'NULL', 'NAN', 'INFINITY', 'NEGATIVE_INFINITY')
DEFAULT = (b'true', b'false', b'null', b'NaN', b'Infinity', b'-Infinity')
SETS = {
    'default': DEFAULT,
    'python': (b'True', b'False', b'None', b'nan', b'inf', b'-inf'),
    'one-character': (b'1', b'0', b'~', b'?', b'+', b'-'),
    'longest': (b'TRUE!', b'FALSE', b'NULL', b'N' * 29, b'I' * 29, b'M' * 29),
    'mixed': (b'T', b'untru', b'', b'not-a-number', b'oo', b'minus-infinity'),
    'prefixes': (b'ye', b'yes', b'ye', b'inf', b'infinity', b'infin'),
    'bytes': ('\u00e9'.encode(), b'\xff\x80', '\u2205'.encode(), '\u2260'.encode(), '\u221e'.encode(), '-\u221e'.encode()),
    'unrelated': (b'no', b'true', b'nul', b'Infinity', b'NaN', b'0.0'),
}
LONG = {'TRUE': 5, 'FALSE': 5, 'NULL': 4, 'NAN': 29, 'INFINITY': 29, 'NEGATIVE_INFINITY': 29}


def flags(lits):
    out = []
    for n, l in zip(NAMES, lits):
        out.append('-DLEXI_%s="%s"' % (n, ''.join(chr(c) if 32 <= c < 127 and c not in b'"\\' else '\\%03o' % c for c in l)))
    return out


def lit_task(key, cfg, entry, n, lits, budget, seed):
    run = Run(_M[key], cfg, entry, kinds=MEMKINDS, seed=seed, budget=budget)
    args, v = arg_for(run, n)

    def want(I, s):
        if n == 'bool':
            return lits[0] if I.truth(s, interp.unc(ge(sub(v, 1)))) else lits[1]
        return lits[2]

    def hook(I, s, ins, a):
        r = obj_bytes(run, s, a, 'configured-literal')
        if r is not None:
            same_bytes(run, s, 'configured-literal', r[0], list(want(I, s)) + [0], 'the text of %s' % n)

    def hs(I, s, ins, a):
        same_bytes(run, s, 'configured-literal', str_bytes(run, s, a[1]), list(want(I, s)), 'a string of %s' % n)
    run.hook('vf_obj', hook)
    run.hook('vf_str', hs)
    r = run.go(args)
    r.samples.append('%s with literals %s: %d partitions' % (entry, cfg, r.paths))
    return r


class Lit:
    rules = ('configured-literal',)

    def __init__(self, lit):
        self.lit = lit

    def obj(self, run, s, a):
        r = obj_bytes(run, s, a, 'configured-literal')
        if r is not None:
            same_bytes(run, s, 'configured-literal', r[0], list(self.lit) + [0], 'the text')
        return None

    def str(self, run, s, a):
        same_bytes(run, s, 'configured-literal', str_bytes(run, s, a[1]), list(self.lit), 'a string')


def note_task(names, built):
    r = Result()
    for n in names:
        r.ob('rejected-at-build', True)
    r.samples.append('rejected at build time: %s; built: %s' % (', '.join(names), ', '.join(built)))
    return r


def C13(tier, seed):
    from . import floats
    sets = dict(SETS)
    for i, n in enumerate(NAMES):
        for k in (1, 2, 11) if tier == 'quick' else (1, 2, 3, 8, 11, 27, 200):
            l = list(DEFAULT)
            l[i] = bytes(97 + j % 26 for j in range(LONG[n] + k))
            sets['%s+%d' % (n.lower(), k)] = tuple(l)
    from concurrent.futures import ThreadPoolExecutor
    # the library with its default literals must build
    prepare(['format.cpp'], {'default': build.GCC + flags(DEFAULT)})

    def one(nm):
        try:
            prepare(['format.cpp'], {nm: build.GCC + flags(sets[nm])})
            prepare(['extract.cpp'], {nm: build.GCC + flags(sets[nm])})
            return nm, True
        except build.BuildError:
            return nm, False
    with ThreadPoolExecutor(4) as ex:
        res = dict(ex.map(one, sets))
    built = [n for n in sets if res[n]]
    tasks = [(note_task, ([n for n in sets if not res[n]], built), 'builds')]
    for k in list(_M):
        nm = k[1]
        if nm not in built:
            continue
        L = sets[nm]
        if k[0] == ('format.cpp',):
            for e, n in (('e_str_bool', 'bool'), ('e_free_bool', 'bool'), ('e_str_null', 'null'), ('e_free_null', 'null'), ('e_fmt_null0', 'null0')):
                tasks.append((lit_task, (k, nm, e, n, L, 100, seed), e + '/' + nm))
            for ty in floats.FREQ:
                for cls, sg, l in (('nan', 0, L[3]), ('nan', 1, L[3]), ('inf', 0, L[4]), ('inf', 1, L[5])):
                    for pre in ('e_str_', 'e_free_'):
                        tasks.append((floats.phase_p, (k, nm, pre, ty, cls, sg, None, ('configured-literal',), True, 100, seed, L[3:], Lit(l)), 'P/%s/%s' % (ty, cls)))
        else:
            for what in ('bool', 'null'):
                if what == 'bool' and L[0] == L[1]:
                    continue
                lens = sorted({len(x) + d for x in L[:3] for d in (-1, 0, 1) if 0 <= len(x) + d <= 8})
                for e in ('e_ex_' + what, 'e_exf_' + what):
                    for fam in ['lazy'] + lens:
                        tasks.append((c11_task, (k, nm, e, what, fam, L[:3], 100, seed), '%s/%s/%s' % (e, fam, nm)))
                for pre in ('e_rt_', 'e_rtf_', 'e_rtc_'):
                    tasks.append((c11_rt, (k, nm, pre + what, what, 100, seed), pre + what))
    return tasks, built, 200
