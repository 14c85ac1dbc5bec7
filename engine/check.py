"""Check runner: collects obligations from analysis tasks, writes evidence, prints the verdict."""
import json, os, sys, time, traceback, signal, multiprocessing as mp
from . import build, interp, models, dom
from .dom import c_not, TRUE, FALSE, Poly

HERE = build.HERE


class Result:
    def __init__(self):
        self.violations = []     # dicts
        self.unknowns = []
        self.obl = {}            # kind -> [generated, discharged]
        self.funcs = {}
        self.paths = 0
        self.insts = 0
        self.samples = []
        self.notes = []
        self.alarms = []

    def ob(self, kind, ok, n=1):
        o = self.obl.setdefault(kind, [0, 0])
        o[0] += n
        if ok:
            o[1] += n

    def violation(self, rule, msg, loc=None, func=None, stack=None, witness=None, cond=None, config=None, entry=None, path=None):
        self.violations.append(dict(rule=rule, decisions=path, message=msg, location=('%s:%s' % loc) if loc else None, function=func,
                                    call_path=stack, witness=witness, condition=cond, config=config, entry=entry))

    def unknown(self, rule, msg, loc=None, func=None, config=None, entry=None):
        self.unknowns.append(dict(rule=rule, message=msg[:400], location=('%s:%s' % loc) if loc and loc[1] else None, function=func,
                                  config=config, entry=entry))

    def merge(self, o):
        self.violations += o.violations
        self.unknowns += o.unknowns
        for k, (a, b) in o.obl.items():
            x = self.obl.setdefault(k, [0, 0])
            x[0] += a
            x[1] += b
        for k, v in o.funcs.items():
            self.funcs[k] = self.funcs.get(k, 0) + v
        self.paths += o.paths
        self.insts += o.insts
        if len(self.samples) < 12:
            self.samples += o.samples[:2]
        self.notes += [n for n in o.notes if n not in self.notes]


MEMKINDS = ('oob', 'uninit', 'null', 'dangling', 'shift', 'overlap', 'div0', 'unreachable', 'terminate', 'trap')


LIMIT = [None]            # no task of this check runs past this time


class Run:
    """one entry point under one configuration"""

    def __init__(self, M, config, entry, kinds=(), seed=1, budget=120, summarise=False):
        self.r = Result()
        self.M = M
        self.config = config
        self.entry = entry
        self.I = interp.Interp(M, models.Models(), seed=seed, deadline=min(time.time() + budget, LIMIT[0] or 1e18))
        self.kinds = set(kinds)
        self.I.want_kinds = set(kinds)
        self.I.summarise = summarise
        self.inputs = {}
        self.outs = {}

    def sym(self, name, lo, hi):
        p = dom.sym(name, lo, hi)
        self.inputs[name] = p
        return p

    def hook(self, name, fn):
        self.I.hooks[name] = fn

    def oblige(self, s, rule, cond, msg, want=None):
        """cond must hold in every concretisation of the state"""
        I = self.I
        d = s.st.decide(cond)
        if d is True:
            self.r.ob(rule, True)
            return True
        I.want_kinds.add(rule)
        self.r.ob(rule, False)
        I.report(s, rule, msg, c_not(cond))
        return False

    def fail(self, s, rule, msg):
        return self.oblige(s, rule, FALSE, msg)

    def hold(self, s, rule, ok, msg):
        return self.oblige(s, rule, TRUE if ok else FALSE, msg)

    def undecided(self, s, rule, msg):
        self.r.ob(rule, False)
        loc, func, stack = self.I.where(s)
        self.I.want_kinds.add(rule)
        self.I.note_unknown(rule, msg, loc, stack, func)

    def go(self, args, onret=None, onthrow=None, setup=None, onlimit=None):
        """explore; onret(state, value), onthrow(state, type)"""
        I = self.I
        s = I.init.copy()
        if setup:
            args = setup(s, args)
        s.ghost['inputs'] = self.inputs
        I._start(s, I.M.functions[self.entry], args)
        for kind, st, info in I.explore(s):
            self.outs[kind] = self.outs.get(kind, 0) + 1
            try:
                if kind == 'ret' and onret:
                    self.post(I, st, onret, info)
                elif kind == 'throw':
                    if onthrow:
                        self.post(I, st, onthrow, info)
                    else:
                        self.fail(st, 'no-throw', 'an exception (%s) leaves %s' % (info, self.entry))
                elif kind == 'limit':
                    if onlimit:
                        onlimit(st, info)
                    else:
                        I.note_unknown('limit', 'analysis limit: %s' % info, *self._loc(st))
            except interp.Unsupported as e:
                I.note_unknown('unsupported', 'at exit: %s' % e, *self._loc(st))
        return self.finish()

    def post(self, I, st, fn, info):
        """run a post-condition, partitioning the final state further if it asks for it"""
        work = [st]
        n = 0
        while work:
            x = work.pop()
            n += 1
            if n > 3000:
                I.note_unknown('limit', 'too many partitions at exit')
                return
            try:
                fn(x, info)
            except interp.Split as e:
                for conj in e.cases:
                    c = x.copy()
                    try:
                        for y in conj:
                            c.st.assume(y)
                    except dom.Infeasible:
                        continue
                    work.append(c)
            except dom.Infeasible:
                pass
            except interp.UndefUse:
                I.want_kinds.add('uninit')
                I.report(x, 'uninit', 'an uninitialised byte is part of the result')

    def _loc(self, st):
        loc, func, stack = self.I.where(st)
        return loc, stack, func

    def finish(self):
        I, r = self.I, self.r
        for f in I.violations:
            r.violation(f.kind, f.msg, f.loc, f.func, f.stack, f.witness, f.cond, self.config, self.entry, f.path)
        for f in I.unknowns:
            if f.kind in ('unsupported', 'budget', 'limit', 'strto', 'init') or f.kind in I.want_kinds:
                r.unknown(f.kind, f.msg, f.loc, f.func, self.config, self.entry)
        bad = {}
        for f in list(I.violations) + list(I.unknowns):
            k = {'oob': 'memory-access'}.get(f.kind)
            if k:
                bad[k] = bad.get(k, 0) + 1
        if self.kinds & set(MEMKINDS):
            n = sum(I.obligations.values())
            b = bad.get('memory-access', 0)
            o = r.obl.setdefault('memory-access', [0, 0])
            o[0] += n
            o[1] += n - b
        r.funcs = {I.M.functions[k].dem: v for k, v in I.cov_funcs.items() if not k.startswith('e_')}
        r.paths = I.cov_paths
        r.insts = I.cov_inst
        return r


# ---------------------------------------------------------------- tasks
_TASKS = None


class TimeUp(BaseException):
    pass


def _alarm(*a):
    raise TimeUp()


def _work(i):
    fn, args, label = _TASKS[i]
    dom.reset()
    t = time.time()
    if LIMIT[0] and t > LIMIT[0]:
        r = Result()
        r.unknown('budget', 'not analysed within the time of the check: %s' % label)
        return i, r, 0, None
    try:
        if LIMIT[0]:
            # whatever does not look at its deadline by itself is stopped
            signal.signal(signal.SIGALRM, _alarm)
            signal.setitimer(signal.ITIMER_REAL, LIMIT[0] - t + 30, 5)
        try:
            return i, fn(*args), time.time() - t, None
        finally:
            if LIMIT[0]:
                signal.setitimer(signal.ITIMER_REAL, 0)
    except TimeUp:
        r = Result()
        r.unknown('budget', 'stopped at the time limit of the check: %s' % label)
        return i, r, time.time() - t, None
    except Exception:
        return i, None, time.time() - t, traceback.format_exc()


def run_tasks(tasks, procs=8):
    """tasks: list of (function, args, label); returns merged Result and errors"""
    global _TASKS
    _TASKS = tasks
    res = Result()
    errs = []
    times = []
    if procs == 1 or len(tasks) == 1:
        it = (_work(i) for i in range(len(tasks)))
        for i, r, t, e in it:
            times.append((t, tasks[i][2]))
            if e:
                errs.append((tasks[i][2], e))
            else:
                res.merge(r)
        return res, errs, times
    ctx = mp.get_context('fork')
    with ctx.Pool(min(procs, len(tasks)), maxtasksperchild=8) as pool:
        it = pool.imap_unordered(_work, range(len(tasks)), chunksize=1)
        for _ in tasks:
            try:
                i, r, t, e = it.next(max(1, LIMIT[0] - time.time() + 90) if LIMIT[0] else None)
            except mp.TimeoutError:
                res.unknown('budget', '%d tasks gave no answer' % (len(tasks) - len(times)))
                break
            times.append((t, tasks[i][2]))
            if e:
                errs.append((tasks[i][2], e))
            else:
                res.merge(r)
    return res, errs, times


def known_findings(pid):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith('finding: property=%s ' % pid):
                out.append(ln[len('finding: property=%s ' % pid):])
    return out


def finish(pid, tier, seed, t0, level, res, errs, times, explanation, assumptions, configs, minimum):
    """write evidence, print, return exit code"""
    seen = {}
    for v in res.violations:
        k = (v['rule'], v['function'], v['location'])
        seen.setdefault(k, v)
        if (v['location'] or '?:0') == '?:0' and v.get('decisions'):
            v['location'] = v['decisions'][-1].split(' ')[0] + ' (last decision on the path)'
        if (v['function'] or '?').startswith(('e_', '?')):
            v['function'] = '%s (analysed from entry %s)' % (v['function'] or '?', v['entry'])
    viol = list(seen.values())
    known = known_findings(pid)
    fresh = []
    for v in viol:
        sig = '%s %s %s' % (v['rule'], v['location'], v['function'])
        hit = [k for k in known if k.startswith(sig)]
        if hit:
            print('KNOWN-FINDING: property=%s %s' % (pid, hit[0]))
        else:
            fresh.append(v)
    viol = fresh
    gen = sum(a for a, b in res.obl.values())
    dis = sum(b for a, b in res.obl.values())
    cov = dict(
        explanation=explanation,
        obligations=gen, discharged=dis,
        obligations_by_rule={k: {'generated': a, 'discharged': b} for k, (a, b) in sorted(res.obl.items())},
        configurations=configs,
        functions_analysed=sorted(res.funcs),
        trace_partitions=res.paths,
        abstract_instructions=res.insts,
        undecided=res.unknowns[:40],
        undecided_count=len(res.unknowns),
        samples=res.samples[:12],
    )
    if res.notes:
        cov['notes'] = res.notes
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=assumptions,
              wall_s=round(time.time() - t0, 3), violations=len(viol))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    rp = os.path.join(HERE, 'evidence', '%s.violation.json' % pid)
    if os.path.exists(rp):
        os.unlink(rp)
    if errs:
        ev['coverage']['errors'] = ['%s: %s' % (a, b[-600:]) for a, b in errs[:10]]
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s [%s]: %d obligations, %d discharged, %d undecided notes, %d functions, %d trace partitions, %d configurations, %.1f s'
          % (pid, tier, gen, dis, len(res.unknowns), len(res.funcs), res.paths, len(configs), time.time() - t0))
    if os.environ.get('VERIF_VERBOSE'):
        for u in res.unknowns[:20]:
            print('  undecided:', u)
        for t, l in sorted(times, reverse=True)[:5]:
            print('  %.1fs %s' % (t, l))
    if viol:
        with open(rp, 'w') as f:
            json.dump(viol, f, indent=1, default=str)
        for v in viol[:5]:
            print('  %s at %s in %s: %s' % (v['rule'], v['location'], v['function'], v['message'][:300]))
            if v.get('decisions'):
                print('    path: ... %s' % ' ; '.join(v['decisions'][-6:]))
            if v['witness'] is not None:
                print('    for input %s (entry %s, configuration %s)' % (str(v['witness'])[:300], v['entry'], v['config']))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    if errs:
        for l, e in errs[:3]:
            print('analysis error in %s:\n%s' % (l, e), file=sys.stderr)
    if gen < minimum and not res.unknowns:
        print('analysis broken: only %d obligations generated (at least %d expected)' % (gen, minimum), file=sys.stderr)
        return 2
    return 0
