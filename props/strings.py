"""C14 C15 and the string overloads of C17."""
import time
from .common import *
from .ints import _M, prepare
from engine import loops

CORPUS = [b'', b'a', b'"', b'\\', b'\n', b'\0', b'\x1f', b' ', b'/', b'\x7f', b'\xc3\xa9', b'ab', b'\\"', b'a\0b', b'\x1b[0m', b'~', b'\x7e\x7f\x80\xff',
          bytes(range(256)), bytes(range(255, -1, -1)), b'a"b\\c\nd\te\x01f/g' * 3, b'"' * 40, b'x' * 15 + b'"', b'x' * 16 + b'"', b'plain text, 100%',
          b'\t' * 20 + b'end', b'\\\\\\\\', b'\r\n' * 9, bytes(range(32)) * 2, b'x' * 63 + b'\n' + b'x' * 64]

LONG = [b'x' * 299 + b'"', b'x' * 40000, b'x' * 65536, b'x' * 69999 + b'\\']


def ref_escape(c):
    out = bytearray()
    for b in c:
        if b <= 0x7e and not (48 <= b <= 57 or 65 <= b <= 90 or 97 <= b <= 122):
            out.append(92)
        out.append(b)
    return bytes(out)


def ref_json_ok(src, out):
    """does the JSON literal out denote src"""
    if len(out) < 2 or out[0] != 34 or out[-1] != 34:
        return False
    i, n = 1, len(out) - 1
    res = bytearray()
    m = {34: 34, 92: 92, 47: 47, 98: 8, 102: 12, 110: 10, 114: 13, 116: 9}
    while i < n:
        b = out[i]
        if b == 92:
            if i + 1 >= n:
                return False
            c = out[i + 1]
            i += 2
            if c in m:
                v = m[c]
            elif c == 117:
                h = bytes(out[i:i + 4])
                if i + 4 > n or not all(x in b'0123456789abcdefABCDEF' for x in h):
                    return False
                v = int(h, 16)
                i += 4
                if v > 127:
                    return False
            else:
                return False
            if not (v < 32 or v in (34, 92)):
                return False
            res.append(v)
            continue
        if b < 32 or b == 34:
            return False
        res.append(b)
        i += 1
    return bytes(res) == bytes(src)


BUDGET = [15.0]      # seconds this process may spend on long contents


class _Late(Exception):
    pass


def refute_lazy(run, s, name, N, gs, good, rule, what):
    """evaluate the derived result on candidate contents; report a violation if one contradicts the reference"""
    I = run.I
    na = next(iter(N.t))[0]
    from engine.wit import _pad
    for c in CORPUS + LONG:
        c = _pad(s.st, name, c, 200000)
        t0 = time.time()
        end = t0 + BUDGET[0] if len(c) > 5000 else None
        if end is not None and BUDGET[0] <= 0:
            continue
        dom.STRINGS.clear()
        dom.STRINGS[name] = c
        env = {na: len(c)}
        for isym in s.ghost.get('loops', ()):
            env[next(iter(isym.t))[0]] = len(c)
        try:
            memo = {}
            if len(s.ghost.get('loops', ())) == 1:
                # the number of trips is the first at which the path leaves the loop
                ia = next(iter(s.ghost['loops'][0].t))[0]
                for n in range(len(c) + 1):
                    if end is not None and n % 256 == 0 and time.time() > end:
                        raise _Late
                    env[ia] = n
                    memo = {}
                    if all(dom.ev_cond(x, env, memo) for x in s.st.conds):
                        break
                else:
                    continue
            elif not all(dom.ev_cond(x, env, memo) for x in s.st.conds):
                continue
            out = bytearray()
            ok = True
            for g in gs:
                if g[0] == 'b':
                    out.append(dom.ev(g[1], env, memo) & 255)
                elif g[0] == 'sym':
                    out += c
                else:
                    k = dom.ev(g[2], env, memo)
                    r = loops.eval_image(I, I.images[g[1]], c, name, k, env, end)
                    if r is None:
                        ok = False
                        break
                    out += bytes(r)
            if ok and not good(c, bytes(out)):
                loc, func, stack = I.where(s)
                run.r.violation(rule, what + ': wrong result %r' % bytes(out)[:60], loc, func, stack, {'s': repr(c[:80]), 'length': len(c)},
                                'length %d' % len(c), run.config, run.entry, I.decisions(s))
                return True
        except (KeyError, _Late):
            continue
        finally:
            dom.STRINGS.clear()
            if end is not None:
                BUDGET[0] -= time.time() - t0
    return False


def lazy_result(run, s, p, name, N, mode, rule):
    """a result derived from the symbolic string: mode escape, json, same"""
    I = run.I
    rec = I.models.getstr(I, s, p)
    gs = I.models.segs_of(I, s, rec)
    what = {'escape': 'escape', 'json': 'jsonify', 'same': 'the string overload'}[mode]
    good = {'escape': lambda c, o: o == ref_escape(c), 'json': ref_json_ok, 'same': lambda c, o: o == c}[mode]
    isN = lambda q: s.st.decide(eq(sub(q, N))) is True
    Nv = s.st.simp(N)
    if isinstance(Nv, int):
        # the partition fixed the length
        src = [dom.fn('sel', (name, i), 0, 255) for i in range(Nv)]
        if all(g[0] == 'b' for g in gs):
            out = [g[1] for g in gs]
            if mode == 'json':
                json_spec(run, s, src, out, rule)
            else:
                same_bytes(run, s, rule, out, escape_spec(I, s, src) if mode == 'escape' else src, what)
            return
    core = gs
    proven = False
    if mode == 'json' and len(gs) >= 2 and gs[0] == ('b', 34) and gs[-1] == ('b', 34):
        core = gs[1:-1]
    elif mode == 'json':
        core = None
    if mode == 'same':
        proven = len(gs) == 1 and gs[0][0] == 'sym' and gs[0][1] == name and isN(gs[0][2])
    elif core is not None and len(core) == 1 and core[0][0] == 'img' and isN(core[0][2]):
        img = I.images[core[0][1]]
        proven = True
        # every recorded trip appends exactly the encoding of character I
        for b, app in img['parts']:
            if not trip_ok(run, b, name, img['isym'], app, mode, rule):
                proven = False
    if proven:
        run.r.ob(rule, True)
        return
    if refute_lazy(run, s, name, N, gs, good, rule, what):
        run.r.ob(rule, False)
        return
    run.undecided(s, rule, what + ': result shape %s not recognised' % ([g[0] for g in gs][:8],))


def trip_ok(run, b, name, isym, app, mode, rule):
    """does the trip in state b append the encoding of character I? (partition-local, exact)"""
    I = run.I
    ch = dom.fn('sel', (name, isym), 0, 255)
    work = [b]
    ok = True
    trips = 0
    while work:
        x = work.pop()
        trips += 1
        if trips > 4000:
            return False        # the partitions do not get finer: not decided this way
        try:
            y = x.copy()
            probe_run = _Quiet(run)
            if mode == 'escape':
                same_bytes(probe_run, y, rule, app, escape_spec(I, y, [ch]), 'escape')
            else:
                json_spec(probe_run, y, [ch], [34] + list(app) + [34], rule)
            if probe_run.bad:
                ok = False
            run.r.ob(rule + '-step', not probe_run.bad)
        except interp.Split as e:
            for conj in e.cases:
                c = x.copy()
                try:
                    for z in conj:
                        c.st.assume(z)
                except dom.Infeasible:
                    continue
                work.append(c)
        except dom.Infeasible:
            pass
    return ok


class _Quiet:
    """collects failures without reporting them"""

    def __init__(self, run):
        self.I = run.I
        self.bad = False

    def oblige(self, s, rule, cond, msg):
        if s.st.decide(cond) is True:
            return True
        self.bad = True
        return False

    def fail(self, s, rule, msg):
        self.bad = True
        return False

    def hold(self, s, rule, ok, msg):
        if not ok:
            self.bad = True
        return ok


def str_task(key, cfg, entry, mode, fam, budget, seed, rule, cstr=False):
    run = Run(_M[key], cfg, entry, kinds=MEMKINDS, seed=seed, budget=budget, summarise=(fam == 'lazy'))
    I = run.I
    if fam == 'lazy':
        I.LOOPMAX = 40
    box = {}

    def setup(s, args):
        if fam == 'lazy':
            p, N = mklazy(run, s, 's', maxlen=1 << 30)
            box['N'] = N
            I.corpus = [{'s': c} for c in CORPUS]
            return [p]
        if fam == 'char':
            v = run.sym('v', 0, 255)
            box['bs'] = [v]
            return [v]
        box['bs'] = [run.sym('b%d' % i, 0, 255) for i in range(fam)]
        return [mkstr(run, s, box['bs'])]

    def hook(I, s, ins, a):
        if fam == 'lazy':
            lazy_result(run, s, a[1], 's', box['N'], mode, rule)
            return
        src = box['bs']
        if cstr:
            cut = []
            for b in src:
                if I.truth(s, interp.unc(eq(b))):
                    break
                cut.append(b)
            src = cut
        out = str_bytes(run, s, a[1])
        if mode == 'escape':
            same_bytes(run, s, rule, out, escape_spec(I, s, src), 'escape')
        elif mode == 'json':
            json_spec(run, s, src, out, rule)
        else:
            same_bytes(run, s, rule, out, src, 'the string overload')
    run.hook('vf_str', hook)
    r = run.go([], setup=setup)
    r.samples.append('%s, %s: %d partitions; loop summaries: %s' % (
        entry, {'lazy': 'strings of any length'}.get(fam, 'strings of length %s' % fam), r.paths,
        ['%s at %s, %d trip partitions' % (a.split('(')[0], b, c) for a, b, c in I.summaries]))
    return r


def mk(tier, seed, mode):
    cfgs = {'signed-char': build.GCC + ['-fsigned-char'], 'unsigned-char': build.GCC + ['-funsigned-char']}
    if mode == 'escape':
        cfgs = {'signed-char': cfgs['signed-char'], 'unsigned-char': cfgs['unsigned-char']}
    prepare(['strings.cpp'], cfgs)
    rule = {'escape': 'escape-exact', 'json': 'json-literal'}[mode]
    e = {'escape': 'escape', 'json': 'jsonify'}[mode]
    tasks = []
    for k in list(_M):
        for fam in ['lazy', 0, 1, 2] + ([3] if mode == 'escape' else []) + ([4] if tier == 'thorough' and mode == 'escape' else []):
            tasks.append((str_task, (k, k[1], 'e_' + e, mode, fam, 400 if fam == 'lazy' or tier == 'thorough' else 90, seed, rule), '%s/%s' % (e, fam)))
        for fam in (0, 1, 2):
            tasks.append((str_task, (k, k[1], 'e_cstr_' + e, mode, fam, 90, seed, rule, True), 'cstr_%s/%s' % (e, fam)))
        tasks.append((str_task, (k, k[1], 'e_char_' + e, mode, 'char', 200, seed, rule), 'char_' + e))
    return tasks, list(cfgs), 100


def C14(tier, seed):
    return mk(tier, seed, 'escape')


def C15(tier, seed):
    return mk(tier, seed, 'json')


def c17_tasks(tier, seed):
    prepare(['strings.cpp'], {'gcc': build.GCC})
    tasks = []
    k = (('strings.cpp',), 'gcc')
    for e in ('e_same', 'e_derived'):
        for fam in ('lazy', 0, 1, 3, 20):
            tasks.append((str_task, (k, 'gcc', e, 'same', fam, 100, seed, 'string-unchanged'), e))
    for fam in (0, 1, 2, 3):
        tasks.append((str_task, (k, 'gcc', 'e_cstr', 'same', fam, 100, seed, 'string-unchanged', True), 'e_cstr'))
    for e, m in (('escape', 'escape'), ('jsonify', 'json')):
        for fam in (0, 1, 2):
            tasks.append((str_task, (k, 'gcc', 'e_' + e, m, fam, 100, seed, 'string-encoded'), e))
    return tasks
