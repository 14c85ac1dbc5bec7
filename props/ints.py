"""C01 C02 C03: integer text, round trip, extraction."""
from .common import *
from engine import models

_M = {}


def mod(cfg):
    return _M[cfg]


CONFIGS = {'gcc': build.GCC, 'clang': [], 'portable': build.PORTABLE, 'ilp32': build.ILP32}


def prepare(drivers, configs):
    for name, flags in configs.items():
        if name in ('ilp32', 'portable', 'msvc'):
            try:
                m = build.module(drivers, flags, name='_'.join(drivers).replace('.cpp', '') + '_' + name)
            except build.BuildError:
                continue        # no headers for what the sources include, or an extension is used
            _M[(tuple(drivers), name)] = m
            continue
        _M[(tuple(drivers), name)] = build.module(drivers, flags, name='_'.join(drivers).replace('.cpp', '') + '_' + name)
    return _M


def c01_task(key, cfg, entry, w, sg, budget, seed):
    M = _M[key]
    run = Run(M, cfg, entry, seed=seed, budget=budget)
    v = run.sym('v', *irange(w, sg))

    def hook(I, s, ins, a):
        r = obj_bytes(run, s, a)
        if r is None:
            return
        bs, size = r
        int_text(run, s, bs[:-1], v)
    run.hook('vf_obj', hook)
    run.hook('vf_str', lambda I, s, ins, a: int_text(run, s, str_bytes(run, s, a[1]), v))
    r = run.go([v])
    r.samples.append('%s, value in [%d, %d]: %d partitions by sign and length' % (entry, *irange(w, sg), r.paths))
    return r


def C01(tier, seed):
    key = prepare(['format.cpp'], CONFIGS)
    tasks = []
    for k in list(_M):
        for n, (w, sg) in int_types(k[1]).items():
            for pre in ('e_fmt_', 'e_free_'):
                tasks.append((c01_task, (k, k[1], pre + n, w, sg, 200, seed), pre + n + '/' + k[1]))
    return tasks, [k[1] for k in _M], 500


# ---------------------------------------------------------------- C02 round trip
def c02_task(key, cfg, entry, w, sg, budget, seed):
    M = _M[key]
    run = Run(M, cfg, entry, seed=seed, budget=budget)
    v = run.sym('v', *irange(w, sg))
    seen = [0]

    def hook(signed):
        def h(I, s, ins, a):
            seen[0] += 1
            r = (I.sview if signed else I.uview)(s, I.num(s, a[1]), 64)
            run.oblige(s, 'round-trip', eq(sub(r, v)), 'extraction of the formatted text does not give the value back')
        return h
    run.hook('vf_s', hook(True))
    run.hook('vf_u', hook(False))
    r = run.go([v])
    r.samples.append('%s, value in [%d, %d]: %d partitions' % (entry, *irange(w, sg), r.paths))
    return r


def C02(tier, seed):
    prepare(['extract.cpp'], CONFIGS)
    tasks = []
    for k in list(_M):
        for n, (w, sg) in int_types(k[1]).items():
            for pre in (('e_rt_', 'e_rtf_', 'e_rtc_') if n != 'fpos' else ('e_rtf_',)):
                tasks.append((c02_task, (k, k[1], pre + n, w, sg, 200, seed), pre + n + '/' + k[1]))
    return tasks, [k[1] for k in _M], 500


# ---------------------------------------------------------------- C03 extraction
CORPUS = [b'', b'0', b'1', b'7', b'10', b'010', b'0x10', b'0X1f', b'0b11', b' 12', b'\t-3', b'-1', b'+5', b'--1', b'+-1', b'- 1',
          b'12abc', b'abc', b'1 2', b'1\x002', b'\x0012', b'00012', b'127', b'128', b'255', b'256', b'-128', b'-129', b'32767', b'32768', b'65535',
          b'65536', b'2147483647', b'2147483648', b'-2147483648', b'-2147483649', b'4294967295', b'4294967296', b'9223372036854775807',
          b'9223372036854775808', b'-9223372036854775808', b'-9223372036854775809', b'18446744073709551615', b'18446744073709551616',
          b'-18446744073709551615', b'99999999999999999999', b'123456789012345678', b'12.5', b'1e3', b'1_000', b'1,000', b'\x0b\x0c\r\n 42', b'\xa012',
          b'9007199254740993', b'-9007199254740993', b'000000000000000000000000000000000000012', b' ' * 40 + b'77', b'3.99', b'08', b'09', b'0777']

# texts whose value depends on their end: lengths around the sizes a fixed buffer would have
CORPUS += [b'0' * n + b'77' for n in (15, 20, 24, 30, 31, 32, 48, 62, 63, 64, 100, 127, 128, 200, 254, 256, 512, 1000, 1024, 2048, 4096)] + [b' ' * n + b'-5' for n in (31, 64, 128, 256, 1024)]


def c03_spec(run, s, bs, w, r, kind):
    I = run.I
    spec = None
    if kind != 'lazy':
        spec = s.ghost.get('strto', {}).get(('ull', 10, tuple(bs)))
        if spec is None:
            spec = I.models.parse_int(I, s, 'ull', 10, bs, split='strto' in s.ghost and len(bs) < 8)
    if kind == 'lazy':
        spec = bs
    elif spec is None:
        spec = dom.fn('strto', ('ull', 10, tuple(bs)), 0, (1 << 64) - 1)
    d = sub(r, spec)
    m = d % (1 << w) if isinstance(d, int) else dom.mod(s.st.simp(d), 1 << w, s.st)
    run.oblige(s, 'base-10-extraction', eq(m), 'the extracted value is not the base-10 integer reduced to %d bits' % w)


def c03_task(key, cfg, entry, w, sg, fam, budget, seed):
    M = _M[key]
    run = Run(M, cfg, entry, seed=seed, budget=budget, kinds=MEMKINDS)
    I = run.I
    box = {}

    def setup(s, args):
        if fam[0] == 'lazy':
            p, N = mklazy(run, s, 's')
            I.corpus = [{'s': c} for c in CORPUS]
            box['spec'] = dom.fn('strto_sym', ('ull', 10, 's', 0), 0, (1 << 64) - 1)
            return [p]
        bs = []
        for i, c in enumerate(fam[1]):
            if c == 'd':
                bs.append(add(48, run.sym('d%d' % i, 0, 9)))
            elif c == '*':
                bs.append(run.sym('b%d' % i, 0, 255))
            else:
                bs.append(c)
        I.wit_hints = [{('b%d' % i): (c[i] if i < len(c) else 0) for i in range(len(bs))} for c in CORPUS if len(c) == len(bs)]
        box['bs'] = bs + [0]
        return [mkstr(run, s, bs)]

    def hook(signed):
        def h(I, s, ins, a):
            r = (I.sview if signed else I.uview)(s, I.num(s, a[1]), 64)
            if fam[0] == 'lazy':
                c03_spec(run, s, box['spec'], w, r, 'lazy')
            else:
                bs = []
                for b in box['bs']:
                    b = I.uview(s, b, 8)
                    if s.st.decide(eq(b)) is True:
                        bs.append(0)
                        break
                    bs.append(b)
                c03_spec(run, s, bs, w, r, 'bytes')
        return h
    run.hook('vf_s', hook(True))
    run.hook('vf_u', hook(False))
    if fam[0] == 'string':
        run.inputs['string'] = repr(bytes(fam[1]))
    r = run.go([], setup=setup)
    r.samples.append('%s over %s' % (entry, fam))
    return r


def c03_corpus(key, cfg, entry, w, sg, budget, seed):
    r = Result()
    for c in CORPUS:
        r.merge(c03_task(key, cfg, entry, w, sg, ('string', list(c)), budget, seed))
        if len(r.violations) > 5:
            break
    return r


def families(tier):
    f = [('lazy', None)]
    for n in range(0, 4 if tier == 'quick' else 5):
        f.append(('free', ['*'] * n))
    for n in (1, 2, 5, 10, 19, 20, 21):
        f.append(('digits', ['d'] * n))
    for n in (1, 3, 19, 20):
        f.append(('neg', [45] + ['d'] * n))
    f += [('pos', [43, 'd', 'd']), ('blank', [32, 9, 'd', 'd']), ('blankneg', [10, 45, 'd', 'd']), ('zero', [48, 'd', 'd', 'd']),
          ('hex', [48, 120, 'd', 'd']), ('tail', ['d', 'd', '*']), ('nul', ['d', 0, 'd']), ('zeros', [48] * 25 + ['d', 'd'])]
    return f


def C03(tier, seed):
    prepare(['extract.cpp'], {'gcc': build.GCC, 'ilp32': build.ILP32})
    tasks = []
    for k in list(_M):
        for n, (w, sg) in int_types(k[1]).items():
            for pre in ('e_ex_', 'e_exf_', 'e_exc_'):
                if n == 'fpos' and pre == 'e_ex_':
                    continue
                for fam in families(tier):
                    if fam[0] == 'lazy' and pre == 'e_exc_':
                        continue
                    tasks.append((c03_task, (k, k[1], pre + n, w, sg, fam, 60, seed), pre + n + '/' + fam[0]))
                tasks.append((c03_corpus, (k, k[1], pre + n, w, sg, 60, seed), pre + n + '/strings'))
    return tasks, [k[1] for k in _M], 500
