"""C25: the extended floats compute exactly, or round to nearest."""
from .common import *
from .ints import _M, prepare
from engine.dom import mul

ER = (-1200, 1200)
HIDDEN = 1 << 52


def task(key, cfg, what, par, budget, seed):
    run = Run(_M[key], cfg, 'e_' + what, kinds=MEMKINDS, seed=seed, budget=budget)
    I = run.I
    S = run.sym
    H = (1 << 32) - 1

    def word(n):
        return add(scale(S(n + 'h', 0, H), 1 << 32), S(n + 'l', 0, H))
    want = {}
    if what in ('mul', 'sqr'):
        f1, e1 = word('f'), S('e1', *ER)
        f2, e2 = (word('g'), S('e2', *ER)) if what == 'mul' else (f1, e1)
        P = mul(f1, f2)
        args = [f1, e1] + ([f2, e2] if what == 'mul' else [])

        def product(s, f, e):
            d = sub(add(P, 1 << 63), scale(f, 1 << 64))
            run.oblige(s, 'product-rounded', c_and([ge(d), ge(sub((1 << 64) - 1, d))]), 'the product is not the nearest one')
            run.oblige(s, 'exponent', eq(sub(e, add(add(e1, e2), 64))), 'the exponent of the product is wrong')
        want[0] = product
        want[1] = exactly(run, f1, e1, 'the operand')
    elif what == 'sub':
        e1, g, d = S('e1', *ER), S('g', 0, 1 << 63), S('d', 0, (1 << 63) - 1)
        args = [add(g, d), e1, g]
        want[0] = exactly(run, d, e1, 'the difference')
    elif what == 'conv':
        sg, f = S('sign', 0, 1), S('f', 0, HIDDEN - 1)
        if par == 'normal':
            b = S('e', 1, 2046)
            args = [add(add(scale(sg, 1 << 63), scale(b, HIDDEN)), f)]
            want[0] = exactly(run, add(f, HIDDEN), sub(b, 1075), 'the converted double')
        else:
            args = [add(scale(sg, 1 << 63), f)]
            want[0] = exactly(run, f, -1074, 'the converted double')
    else:
        e1 = S('e1', *ER)
        n = par
        f = 1 << (n - 1) if what == 'bounds1' else S('f', 1 << (n - 1), (1 << n) - 1)
        args = [f, e1]
        if what in ('norm', 'normb'):
            k = 64 - n
            want[0] = exactly(run, scale(f, 1 << k) if not isinstance(f, int) else f << k, sub(e1, k), 'the normalised value')
        else:
            k = 64 - (n + 1)
            def lower(s, g, e):
                if n == 53:
                    hid = eq(sub(f, HIDDEN))
                    if I.truth(s, interp.unc(hid)):
                        return exactly(run, ((4 << 52) - 1) << (k - 1), sub(e1, 1 + k), 'the lower boundary')(s, g, e)
                return exactly(run, scale(sub(scale(f, 2), 1), 1 << k), sub(e1, 1 + k), 'the lower boundary')(s, g, e)
            want[0] = lower
            want[1] = exactly(run, scale(add(scale(f, 2), 1), 1 << k), sub(e1, 1 + k), 'the upper boundary')
            want[2] = exactly(run, f, e1, 'the operand')

    def diy(I, s, ins, a):
        if a[1] is UNDEF or a[2] is UNDEF:
            run.fail(s, 'uninit', 'the result is uninitialised')
            raise interp.PathEnd('violation')
        want[a[0]](s, I.uview(s, I.num(s, a[1]), 64), I.sview(s, I.num(s, a[2]), 32))
    run.hook('vf_diy', diy)
    r = run.go(args)
    r.samples.append('%s %s: %d partitions' % (what, par or '', r.paths))
    return r


def exactly(run, f, e, what):
    def h(s, g, x):
        run.oblige(s, 'exact', eq(sub(g, f)), '%s has the wrong significand' % what)
        run.oblige(s, 'exponent', eq(sub(x, e)), '%s has the wrong exponent' % what)
    return h


def C25(tier, seed):
    cfgs = {'gcc': build.GCC, 'clang': [], 'portable': build.PORTABLE, 'msvc': build.MSVC, 'ilp32': build.ILP32}
    prepare(['diyfp.cpp'], cfgs)
    tasks = []
    for k in list(_M):
        J = [('mul', None), ('sqr', None), ('sub', None), ('conv', 'normal'), ('conv', 'subnormal')]
        J += [('norm', n) for n in range(1, 54)] + [('normb', n) for n in range(1, 55)] + [('bounds', n) for n in range(1, 54)]
        for w, p in J:
            tasks.append((task, (k, k[1], w, p, 100, seed), '%s/%s/%s' % (w, p, k[1])))
    return tasks, sorted({k[1] for k in _M}), 300
