"""C04 C09 C11 C12 C17: the non-float formatters and the literal extractors."""
from .common import *
from .ints import _M, prepare
from engine import check

OTHERS = {'bool': 'bool', 'char': 'char', 'charu': 'uchar', 'null': 'null', 'null0': 'none'}


def arg_for(run, n):
    """(args, value) for entry suffix n"""
    T = int_types(run.config)
    if n in T:
        v = run.sym('v', *irange(*T[n]))
        return [v], v
    if n == 'bool':
        v = run.sym('v', 0, 1)
        return [v], v
    if n in ('char', 'charu'):
        v = run.sym('v', 0, 255)
        return [v], v
    if n == 'null':
        return [interp.NULL], None
    return [], None


# ---------------------------------------------------------------- C04
def c04_task(key, cfg, entry, n, budget, seed):
    run = Run(_M[key], cfg, entry, kinds=MEMKINDS, seed=seed, budget=budget)
    args, v = arg_for(run, n)

    def hook(I, s, ins, a):
        r = obj_bytes(run, s, a, 'text-inside-object')
        if r is None:
            return
        run.hold(s, 'text-initialised', all(b is not UNDEF for b in r[0]), 'the text or its terminator contains an uninitialised byte')
    run.hook('vf_obj', hook)
    run.hook('vf_str', lambda I, s, ins, a: None)
    r = run.go(args)
    r.samples.append('%s: %d partitions, %d accesses checked' % (entry, r.paths, r.obl.get('memory-access', [0])[0]))
    return r


def C04(tier, seed):
    cfgs = {'gcc': build.GCC, 'clang': [], 'portable': build.PORTABLE, 'ilp32': build.ILP32}
    prepare(['format.cpp'], cfgs)
    tasks = []
    for k in list(_M):
        for n in list(int_types(k[1])) + list(OTHERS):
            for pre in ('e_fmt_', 'e_str_'):
                e = pre + n
                if e in _M[k].functions:
                    tasks.append((c04_task, (k, k[1], e, n, 200, seed), e + '/' + k[1]))
    return tasks, sorted({k[1] for k in _M}), 1000


# ---------------------------------------------------------------- C09 views agree
def c09_views(run, s, a):
    """data/c_str/size/length/terminator; returns the bytes"""
    I = run.I
    self_, ss, data, cstr, size, length = a
    if not (isinstance(data, Ptr) and isinstance(cstr, Ptr)):
        run.fail(s, 'views-agree', 'data() or c_str() is uninitialised')
        return None
    if data.obj != cstr.obj:
        run.fail(s, 'views-agree', 'data() and c_str() point to different objects')
        return None
    run.oblige(s, 'views-agree', eq(sub(data.off, cstr.off)), 'data() and c_str() differ')
    run.oblige(s, 'views-agree', eq(sub(I.uview(s, size, 64), I.uview(s, length, 64))), 'size() and length() differ')
    r = obj_bytes(run, s, a, 'views-agree')
    if r is None:
        return None
    bs, n = r
    if bs[-1] is UNDEF:
        run.fail(s, 'null-terminated', 'the byte after the text is uninitialised')
    else:
        run.oblige(s, 'null-terminated', eq(u8(I, s, bs[-1])), 'the byte after the text is not a null terminator')
    return bs[:-1]


def c09_task(key, cfg, entry, n, budget, seed):
    run = Run(_M[key], cfg, entry, seed=seed, budget=budget)
    args, v = arg_for(run, n)

    def hook(I, s, ins, a):
        s.ghost['text'] = c09_views(run, s, a)

    def hs(I, s, ins, a):
        t = s.ghost.get('text')
        if a[0] in (0, 1) and t is not None:
            same_bytes(run, s, 'string-equals-text', str_bytes(run, s, a[1]), t, ('string()', 'conversion to std::string')[a[0]])
    run.hook('vf_obj', hook)
    run.hook('vf_str', hs)
    r = run.go(args)
    r.samples.append('%s: %d partitions' % (entry, r.paths))
    return r


def C09(tier, seed):
    cfgs = {'gcc': build.GCC, 'clang': [], 'portable': build.PORTABLE, 'ilp32': build.ILP32}
    prepare(['format.cpp'], cfgs)
    tasks = []
    for k in list(_M):
        for n in list(int_types(k[1])) + list(OTHERS):
            e = 'e_str_' + n
            if e not in _M[k].functions:
                e = 'e_fmt_' + n
            tasks.append((c09_task, (k, k[1], e, n, 200, seed), e + '/' + k[1]))
    from . import floats
    tasks += floats.view_tasks(tier, seed, 'C09')
    return tasks, sorted({k[1] for k in _M}), 1000


# ---------------------------------------------------------------- C17 free functions
def c17_task(key, cfg, entry, n, budget, seed):
    run = Run(_M[key], cfg, entry, seed=seed, budget=budget)
    args, v = arg_for(run, n)

    def hook(I, s, ins, a):
        r = obj_bytes(run, s, a)
        t = s.ghost.get('text')
        if r is None:
            return
        if t is None:
            s.ghost['text'] = r[0][:-1]
        else:
            same_bytes(run, s, 'free-function-agrees', r[0][:-1], t, 'Format()(x)')

    def hs(I, s, ins, a):
        t = s.ghost.get('text')
        if t is None:
            return
        bs = str_bytes(run, s, a[1])
        tag = a[0]
        free = entry.startswith('e_free')
        nm = (('lexi(x)', 'string(x)', 'escape(x)', 'jsonify(x)') if free else ('string()', 'std::string(f)', 'f.escape()', 'f.jsonify()'))[tag]
        if tag >= 2 and n == 'char':
            if tag == 2:
                same_bytes(run, s, 'free-function-agrees', bs, escape_spec(I, s, t), nm)
            else:
                json_spec(run, s, t, bs, 'free-function-agrees', nm)
            return
        same_bytes(run, s, 'free-function-agrees', bs, t, nm)
    run.hook('vf_obj', hook)
    run.hook('vf_str', hs)
    r = run.go(args)
    r.samples.append('%s: %d partitions' % (entry, r.paths))
    return r


def C17(tier, seed):
    cfgs = {'gcc': build.GCC}
    prepare(['format.cpp'], {**cfgs, 'ilp32': build.ILP32})
    prepare(['strings.cpp'], cfgs)
    tasks = []
    for k in list(_M):
        if k[0] != ('format.cpp',):
            continue
        for n in list(int_types(k[1])) + ['bool', 'char', 'null']:
            for pre in ('e_str_', 'e_free_'):
                e = pre + n
                if e in _M[k].functions:
                    tasks.append((c17_task, (k, k[1], e, n, 200, seed), e + '/' + k[1]))
    from . import floats, strings
    tasks += floats.view_tasks(tier, seed, 'C17')
    tasks += strings.c17_tasks(tier, seed)
    return tasks, sorted({k[1] for k in _M}), 1000


# ---------------------------------------------------------------- C11 literals
def lit_cond(I, s, rec, lit):
    """condition: the string (lazy, content name, length) equals lit"""
    name, N = rec
    return c_and([eq(sub(N, len(lit)))] + [eq(sub(dom.fn('sel', (name, i), 0, 255), b)) for i, b in enumerate(lit)])


def bytes_cond(bs, lit):
    if len(bs) != len(lit):
        return FALSE
    return c_and([eq(sub(b, c)) for b, c in zip(bs, lit)])


def c11_task(key, cfg, entry, what, fam, lits, budget, seed):
    run = Run(_M[key], cfg, entry, kinds=MEMKINDS, seed=seed, budget=budget)
    I = run.I
    box = {}
    T, Fa, Nu = lits

    def setup(s, args):
        if fam == 'lazy':
            p, N = mklazy(run, s, 's')
            box['eq'] = lambda lit: lit_cond(I, s, ('s', N), lit)
            cand = []
            for l in (T, Fa, Nu):
                cand += [l, l[:-1], l + b'x', l + b'\0', l.upper(), l.capitalize(), b' ' + l, l + b' ', l[:1], l[1:], l + b'\0junk', b'"' + l + b'"', l * 2, l[::-1]]
            I.corpus = [{'s': c} for c in [b'', b'\0', b'1', b'0', b'yes', b'x'] + cand]
            return [p]
        bs = [run.sym('b%d' % i, 0, 255) for i in range(fam)]
        box['eq'] = lambda lit: bytes_cond(bs, lit)
        I.wit_hints = []
        for l in (T, Fa, Nu):
            for c in (l, l + b'\0' * 8, l + b'x' * 8, l.upper() + b'\0' * 8, l[:-1] + b'\0' * 8):
                I.wit_hints.append({'b%d' % i: (c[i] if i < len(c) else 120) for i in range(fam)})
        return [mkstr(run, s, bs)]

    def hook(I, s, ins, a):
        r = I.uview(s, I.num(s, a[1]), 64)
        if what == 'bool':
            r = I.need_const(s, r, limit=300)
            if r not in (0, 1):
                run.fail(s, 'literal-only', 'boolean extraction yields %d' % r)
                return
            run.oblige(s, 'literal-only', box['eq'](T if r else Fa), 'a string other than %r is accepted as %s' % ((T if r else Fa).decode('latin1'), bool(r)))
        else:
            run.oblige(s, 'literal-only', eq(sub(r, 1)), 'null extraction yields a non-null value')
            run.oblige(s, 'literal-only', box['eq'](Nu), 'a string other than %r is accepted as null' % Nu.decode('latin1'))
        s.ghost['done'] = True

    def onthrow(s, ty):
        run.hold(s, 'rejects-with-runtime_error', interp_is_runtime(I, ty), 'rejection raises %s' % ty)
        for l in ((T, Fa) if what == 'bool' else (Nu,)):
            run.oblige(s, 'literal-accepted', c_not(box['eq'](l)), 'the literal %r is rejected' % l.decode('latin1'))

    def onret(s, v):
        run.hold(s, 'yields-a-value', s.ghost.get('done', False), 'extraction returned without a value')
    run.hook('vf_u', hook)
    run.hook('vf_s', hook)
    r = run.go([], setup=setup, onthrow=onthrow, onret=onret)
    r.samples.append('%s, %s: %d partitions' % (entry, 'any string' if fam == 'lazy' else 'all strings of length %d' % fam, r.paths))
    return r


def interp_is_runtime(I, ty):
    from engine.models import EXC_PARENT
    while ty is not None:
        if ty == 'std::runtime_error':
            return True
        ty = EXC_PARENT.get(ty)
    return False


def c11_rt(key, cfg, entry, n, budget, seed):
    run = Run(_M[key], cfg, entry, kinds=MEMKINDS, seed=seed, budget=budget)
    args, v = arg_for(run, n)

    def hook(I, s, ins, a):
        r = I.uview(s, I.num(s, a[1]), 64)
        run.oblige(s, 'round-trip', eq(sub(r, v if n != 'null' else 1)), 'extraction of the formatted text does not give the value back')
    run.hook('vf_u', hook)
    r = run.go(args)
    return r


DEFAULT = (b'true', b'false', b'null')


def C11(tier, seed):
    cfgs = {'debug': build.GCC, 'release': build.GCC + ['-DNDEBUG'], 'ilp32': build.ILP32}
    prepare(['extract.cpp'], cfgs)
    tasks = []
    lens = range(0, 7 if tier == 'quick' else 12)
    for k in list(_M):
        for what in ('bool', 'null'):
            for e in ('e_ex_' + what, 'e_exf_' + what) + (('e_ex_nullop',) if what == 'null' else ()):
                for fam in ['lazy'] + list(lens):
                    tasks.append((c11_task, (k, k[1], e, what, fam, DEFAULT, 100, seed), '%s/%s/%s' % (e, fam, k[1])))
            for pre in ('e_rt_', 'e_rtf_', 'e_rtc_'):
                tasks.append((c11_rt, (k, k[1], pre + what, what, 100, seed), pre + what))
    return tasks, sorted({k[1] for k in _M}), 100


# ---------------------------------------------------------------- C12 characters
def c12_fmt(key, cfg, entry, n, budget, seed):
    run = Run(_M[key], cfg, entry, kinds=MEMKINDS, seed=seed, budget=budget)
    args, v = arg_for(run, n)

    def hook(I, s, ins, a):
        r = obj_bytes(run, s, a, 'one-byte-text')
        if r is not None:
            same_bytes(run, s, 'one-byte-text', r[0], [v, 0], 'the text of a character')

    def hs(I, s, ins, a):
        if a[0] in (0, 1):
            same_bytes(run, s, 'one-byte-text', str_bytes(run, s, a[1]), [v], 'string of a character')
    run.hook('vf_obj', hook)
    run.hook('vf_str', hs)

    def hu(I, s, ins, a):
        run.oblige(s, 'round-trip', eq(sub(I.uview(s, I.num(s, a[1]), 64), v)), 'the character does not survive format and extract')
    run.hook('vf_u', hu)
    return run.go(args)


def c12_ex(key, cfg, entry, fam, budget, seed):
    run = Run(_M[key], cfg, entry, kinds=MEMKINDS, seed=seed, budget=budget)
    I = run.I
    box = {}

    def setup(s, args):
        if fam == 'lazy':
            p, N = mklazy(run, s, 's')
            box['N'] = N
            box['first'] = dom.fn('sel', ('s', 0), 0, 255)
            I.corpus = [{'s': c} for c in (b'', b'a', b'\0', b'\0x', b'\xff', b'ab', b'\x80', b' ', b'abc', b'0123456789abcdefghijk')]
            return [p]
        bs = [run.sym('b%d' % i, 0, 255) for i in range(fam)]
        box['N'] = fam
        box['first'] = bs[0] if bs else None
        return [mkstr(run, s, bs)]

    def hook(I, s, ins, a):
        if not run.oblige(s, 'first-byte', ge(sub(box['N'], 1)), 'a character is extracted from the empty string'):
            return
        run.oblige(s, 'first-byte', eq(sub(I.uview(s, I.num(s, a[1]), 64), box['first'])), 'the extracted character is not the first byte')

    def onthrow(s, ty):
        run.hold(s, 'rejects-with-runtime_error', interp_is_runtime(I, ty), 'rejection raises %s' % ty)
        run.oblige(s, 'accepts-non-empty', eq(box['N']), 'a non-empty string is rejected')
    run.hook('vf_u', hook)
    run.hook('vf_s', hook)
    return run.go([], setup=setup, onthrow=onthrow)


def C12(tier, seed):
    cfgs = {'debug': build.GCC, 'release': build.GCC + ['-DNDEBUG'], 'unsigned-char': build.GCC + ['-funsigned-char'],
            'unsigned-char-release': build.GCC + ['-funsigned-char', '-DNDEBUG'], 'ilp32': build.ILP32}
    prepare(['format.cpp'], cfgs)
    prepare(['extract.cpp'], cfgs)
    tasks = []
    for k in list(_M):
        if k[0] == ('format.cpp',):
            for e, n in (('e_fmt_char', 'char'), ('e_str_char', 'char'), ('e_free_char', 'char'), ('e_fmt_charu', 'charu')):
                tasks.append((c12_fmt, (k, k[1], e, n, 100, seed), e))
        else:
            for e in ('e_rt_char', 'e_rtf_char'):
                tasks.append((c12_fmt, (k, k[1], e, 'char', 100, seed), e))
            for e in ('e_ex_char', 'e_exf_char', 'e_ex_charu'):
                for fam in ('lazy', 0, 1, 2, 3):
                    tasks.append((c12_ex, (k, k[1], e, fam, 100, seed), e))
    return tasks, sorted({k[1] for k in _M}), 50
