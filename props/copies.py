"""C10: formatters are self-contained values."""
from .common import *
from .ints import _M, prepare
from .simple import arg_for

HOW = {0: 'construction', 1: 'copy construction from a source that has died', 2: 'move construction from a source that has died',
       3: 'copy assignment from a source that has died', 4: 'move assignment from a source that has died', 5: 'assignment from a temporary',
       6: 'return by value', 7: 'passing and returning by value', 8: 'copying, then reassigning the source', 9: 'being copied from',
       10: 'self-assignment', 11: 'all operations on its copies'}


class Copies:
    rules = ('self-contained', 'same-text')

    def hooks(self, run):
        def tag(I, s, ins, a):
            s.ghost['tag'] = (a[0], a[1])
        run.hook('vf_tag', tag)

    def obj(self, run, s, a):
        I = run.I
        exp, how = s.ghost['tag']
        what = 'after %s' % HOW[how]
        self_, ss, data, cstr, size, length = a
        if not isinstance(data, Ptr) or not isinstance(cstr, Ptr):
            run.fail(s, 'self-contained', '%s: data() is not set' % what)
            raise interp.PathEnd('violation')
        o = s.mem.get(data.obj) if data.obj is not None else None
        if data.obj != self_.obj:
            run.fail(s, 'self-contained', '%s: data() points outside the formatter (into %s)' % (what, (o.name + ('' if o.alive else ', which no longer exists')) if o else 'nothing'))
            raise interp.PathEnd('violation')
        r = obj_bytes(run, s, a, 'self-contained')
        if r is None:
            raise interp.PathEnd('violation')
        bs = r[0]
        if exp < 2:
            t = dict(s.ghost.get('texts', {}))
            t[exp] = bs
            s.ghost['texts'] = t
        else:
            same_bytes(run, s, 'same-text', bs, s.ghost['texts'][exp - 2], 'the text %s' % what)
        return bs

    def str(self, run, s, a):
        pass


def task(key, cfg, entry, n, budget, seed):
    run = Run(_M[key], cfg, entry, kinds=('uninit', 'dangling'), seed=seed, budget=budget)
    args, v = arg_for(run, n)
    c = Copies()
    c.hooks(run)
    run.hook('vf_obj', lambda I, s, ins, a: c.obj(run, s, a))
    r = run.go(args)
    r.samples.append('%s: %d partitions' % (entry, r.paths))
    return r


def C10(tier, seed):
    cfgs = {'gcc': build.GCC, 'clang': []}
    # without copy elision, every return by value uses the copy or move constructor
    cfgs['no-elision'] = build.GCC + ['-fno-elide-constructors']
    prepare(['copies.cpp'], cfgs)
    from . import floats
    tasks = []
    for k in list(_M):
        for n in list(INTS) + ['e64', 'bool', 'char', 'null']:
            for pre in ('e_cps_', 'e_cpl_'):
                e = pre + n
                tasks.append((task, (k, k[1], e, n, 200, seed), e + '/' + k[1]))
        ns = (1, 2, 9, 17) if tier == 'quick' else range(1, floats.MAXLEN + 1)
        for pre in ('e_cps_', 'e_cpl_'):
            tasks += floats.p_tasks(k, k[1], pre, (), False, seed, tier, more=Copies(), ns=ns)
    return tasks, list(cfgs), 100
