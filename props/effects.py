"""C18 C19: effects of the conversions, decided on the call graph and the flow of pointers in the linked module."""
import re
from .common import *
from .ints import _M, prepare
from .simple import interp_is_runtime, arg_for
from engine import check, models


# ---------------------------------------------------------------- call graph
def resolve(M, n):
    while True:
        g = M.globals.get(n)
        if g is not None and g.init is not None and g.init[0] == 'alias':
            n = g.init[1][1]
            continue
        return n


def calls(f):
    for b in f.blocks.values():
        for ins in b:
            if ins.op in ('call', 'invoke'):
                yield ins


def globals_in(v, out):
    if isinstance(v, tuple):
        if len(v) == 2 and v[0] == 'g':
            out.add(v[1])
            return
        for x in v:
            globals_in(x, out)
    elif isinstance(v, (list, set)):
        for x in v:
            globals_in(x, out)
    elif isinstance(v, dict):
        for x in v.values():
            globals_in(x, out)


def edges(M, n):
    """[(callee, instruction)]: direct calls, and functions whose address is taken (they may be called)"""
    f = M.functions[n]
    out = []
    for b in f.blocks.values():
        for ins in b:
            gs = set()
            if ins.op in ('call', 'invoke'):
                globals_in(ins.a[0], gs)
                for a in ins.a[1]:
                    globals_in(a[1], gs)
            elif ins.op == 'store':
                globals_in(ins.a, gs)
            elif ins.op in ('phi', 'select', 'ret', 'bitcast'):
                globals_in(ins.a, gs)
            for g in gs:
                g = resolve(M, g)
                if g in M.functions or g in M.declares:
                    out.append((g, ins))
    return out


def reach(M, entries):
    """function -> (caller, instruction) for everything reachable"""
    seen = {e: None for e in entries}
    work = list(entries)
    while work:
        n = work.pop()
        if n not in M.functions:
            continue
        for g, ins in edges(M, n):
            if g not in seen:
                seen[g] = (n, ins)
                work.append(g)
    return seen


def dem(M, n):
    f = M.functions.get(n) or M.declares.get(n)
    return (f.dem or n) if f else n


def path(M, seen, n):
    out = []
    while seen.get(n) is not None:
        c, ins = seen[n]
        l = M.loc(ins.dbg) if ins.dbg else None
        out.append('%s called by %s (%s:%s)' % (dem(M, n), dem(M, c), l[0] if l else '?', l[1] if l else 0))
        n = c
    return out[::-1]


def lib_loc(M, seen, n):
    """innermost call site inside the library on the path to n"""
    while seen.get(n) is not None:
        c, ins = seen[n]
        l = M.loc(ins.dbg) if ins.dbg else None
        if l and l[0].startswith(build.REPO):
            return l, dem(M, c)
        n = c
    return None, dem(M, n)


# ---------------------------------------------------------------- flow of pointers
STRN = r'std::(?:__cxx11::)?basic_string<'
READERS = {'strlen': (), 'memcmp': (), 'strcmp': (), 'strncmp': (), 'memchr': (), 'strchr': (), 'llvm.memcpy': (0,), 'llvm.memmove': (0,), 'llvm.memset': (0,), 'memcpy': (0,),
           'memmove': (0,), 'memset': (0,), 'strncpy': (0,), 'strcpy': (0,), 'strcat': (0,), 'strncat': (0,), 'stpcpy': (0,), 'strtof': (1,), 'strtod': (1,), 'strtold': (1,), 'strtoull': (1,), 'strtoll': (1,),
           'strtoul': (1,), 'strtol': (1,), 'snprintf': (0,), 'sprintf': (0,), 'vsnprintf': (0,), 'free': (0,), 'atof': (), 'atoi': (), 'atol': (), 'atoll': (),
           '__cxa_guard_acquire': (), '__cxa_guard_release': (), '__cxa_guard_abort': (), '__cxa_atexit': (), '__cxa_throw': (), '__gxx_personality_v0': ()}


def writes_args(n, d):
    """indices of pointer arguments an external function writes through; None: unknown"""
    k = re.sub(r'^__isoc\d+_', '', n)
    k = re.sub(r'\.p0.*$', '', k)
    if k in READERS:
        return READERS[k]
    if n.startswith('llvm.'):
        return ()
    if re.match(STRN, d):
        if d.endswith(' const'):
            return ()
        return (0,)
    if re.match(r'std::(runtime_error|logic_error|exception|allocator)', d):
        return (0,) if not d.endswith(' const') else ()
    if n.startswith('vf_'):
        return ()
    return None


class Flow:
    """where may a pointer to the target flow, and is it written through?"""

    def __init__(self, M, funcs):
        self.M = M
        self.funcs = funcs
        self.rets = {}               # function -> call instructions of it: [(caller, ins)]
        for n in funcs:
            f = M.functions.get(n)
            if f is None:
                continue
            for ins in calls(f):
                gs = set()
                globals_in(ins.a[0], gs)
                for g in gs:
                    self.rets.setdefault(resolve(M, g), []).append((n, ins))

    def track(self, seeds, gname=None, follow_loads=True):
        """seeds: {(function, register)}; gname: a global whose address is a seed everywhere.
        -> ([(function, instruction, what)] writes, [..] unknown uses)"""
        M = self.M
        der = set(seeds)
        writes, unk = {}, {}

        def isder(n, v):
            if isinstance(v, tuple) and len(v) == 2 and v[0] == 'r':
                return (n, v[1]) in der
            if gname is not None and isinstance(v, tuple):
                gs = set()
                globals_in(v, gs)
                return gname in gs
            return False
        work = set(n for n in self.funcs if n in M.functions) if gname is not None else {n for n, _ in seeds}
        while work:
            n = work.pop()
            f = M.functions[n]
            changed = True
            while changed:
                changed = False
                for b in f.blocks.values():
                    for ins in b:
                        op = ins.op
                        new = False
                        if op == 'getelementptr':
                            new = isder(n, ins.a[0][1])
                        elif op in ('bitcast', 'inttoptr', 'ptrtoint', 'addrspacecast'):
                            new = isder(n, ins.a[1])
                        elif op == 'phi':
                            new = any(isder(n, v) for v in ins.a.values())
                        elif op == 'select':
                            new = isder(n, ins.a[1]) or isder(n, ins.a[2])
                        elif op == 'load':
                            new = follow_loads and ins.ty[0] == 'ptr' and isder(n, ins.a[0])
                        elif op == 'store':
                            if isder(n, ins.a[2]):
                                writes[(n, id(ins))] = (n, ins, 'a store')
                            elif isder(n, ins.a[1]):
                                # kept in a local or an object: its own loads are followed from there
                                base = self.base(f, ins.a[2])
                                if base and ('r', base) != ins.a[1]:
                                    for b2 in f.blocks.values():
                                        for i2 in b2:
                                            if i2.op == 'load' and i2.ty[0] == 'ptr' and i2.res and self.base(f, i2.a[0]) == base and (n, i2.res) not in der:
                                                der.add((n, i2.res))
                                                changed = True
                                unk[(n, id(ins))] = (n, ins, 'its address is stored')
                        elif op == 'ret':
                            if ins.a and isder(n, ins.a[0]):
                                for c, ci in self.rets.get(n, []):
                                    if ci.res and (c, ci.res) not in der:
                                        der.add((c, ci.res))
                                        work.add(c)
                        elif op in ('call', 'invoke'):
                            gs = set()
                            globals_in(ins.a[0], gs)
                            if any(g.startswith('llvm.threadlocal.address') for g in gs) and isder(n, ins.a[1][0][1]):
                                new = True
                            for i, a in enumerate(ins.a[1]):
                                if not isder(n, a[1]):
                                    continue
                                if not gs:
                                    unk[(n, id(ins))] = (n, ins, 'it is passed to an indirect call')
                                for g in gs:
                                    g = resolve(M, g)
                                    if g in M.functions:
                                        t = M.functions[g]
                                        if i < len(t.params):
                                            k = (g, t.params[i][1])
                                            if k not in der:
                                                der.add(k)
                                                work.add(g)
                                    else:
                                        w = writes_args(g, dem(M, g))
                                        if w is None:
                                            unk[(n, id(ins))] = (n, ins, 'it is passed to %s' % dem(M, g))
                                        elif i in w and not re.search(r'::~', dem(M, g)):
                                            writes[(n, id(ins))] = (n, ins, 'a call of %s' % dem(M, g)[:80])
                                        if w is not None and ins.res and g in ('strcpy', 'strncpy', 'memcpy', 'memmove', 'stpcpy', 'memchr', 'strchr') and i == 0:
                                            new = True
                        elif op in ('atomicrmw', 'cmpxchg', 'unsupported'):
                            t = ins.text
                            hit = gname is not None and re.search(r'@"?%s\b' % re.escape(gname), t)
                            if not hit:
                                for x in re.findall(r'%("?[\w.$-]+"?)', t):
                                    if (n, x.strip('"')) in der:
                                        hit = True
                            if hit:
                                if re.match(r'\s*(%\S+ = )?(atomicrmw|cmpxchg)', t):
                                    writes[(n, id(ins))] = (n, ins, 'an atomic update')
                                else:
                                    unk[(n, id(ins))] = (n, ins, 'an unknown instruction')
                        if new and ins.res and (n, ins.res) not in der:
                            der.add((n, ins.res))
                            changed = True
                            work.add(n)
        return list(writes.values()), list(unk.values())

    def base(self, f, v):
        """register of the alloca or parameter a pointer is based on"""
        defs = getattr(self, '_defs', {}).get(f.name)
        if defs is None:
            defs = {i.res: i for b in f.blocks.values() for i in b if i.res}
            self.__dict__.setdefault('_defs', {})[f.name] = defs
        for _ in range(50):
            if not (isinstance(v, tuple) and len(v) == 2 and v[0] == 'r'):
                return None
            i = defs.get(v[1])
            if i is None or i.op == 'alloca':
                return v[1]
            if i.op == 'getelementptr':
                v = i.a[0][1]
            elif i.op == 'bitcast':
                v = i.a[1]
            else:
                return v[1]
        return None


# ---------------------------------------------------------------- one-time initialisation
def init_region(M, f, guard_only=True):
    """blocks of f that run only under a successful __cxa_guard_acquire, up to the release"""
    start = []
    for bn, b in f.blocks.items():
        acq = [i for i in b if i.op in ('call', 'invoke') and i.a[0] == ('g', '__cxa_guard_acquire')]
        if not acq:
            continue
        t = b[-1]
        # br (icmp ne acquire, 0), init, done
        if t.op == 'br' and t.a[0] is not None:
            start.append(t.a[1])
    out = set()
    work = list(start)
    while work:
        bn = work.pop()
        if bn in out:
            continue
        out.add(bn)
        b = f.blocks[bn]
        if any(i.op in ('call', 'invoke') and i.a[0] == ('g', '__cxa_guard_release') for i in b):
            continue
        work += norm_succs(b[-1])
    return out


def norm_succs(ins):
    from engine.ir import _succs as succs
    return [ins.extra[0]] if ins.op == 'invoke' else succs(ins)


def normal_blocks(f):
    """blocks reachable without an exception"""
    out = set()
    work = [f.entry]
    while work:
        b = work.pop()
        if b not in out:
            out.add(b)
            work += norm_succs(f.blocks[b][-1])
    return out


def regs(v, out):
    if isinstance(v, tuple):
        if len(v) == 2 and v[0] == 'r':
            out.add(v[1])
            return
        for x in v:
            regs(x, out)
    elif isinstance(v, list):
        for x in v:
            regs(x, out)
    elif isinstance(v, dict):
        for x in v.values():
            regs(x, out)


def constant_init(M, f, region):
    """nothing in the region depends on the arguments or on values computed before"""
    inside = {i.res for b in region for i in f.blocks[b] if i.res}
    allocas = {i.res for b in f.blocks.values() for i in b if i.op == 'alloca'}
    for bn in region:
        for i in f.blocks[bn]:
            u = set()
            regs(i.a, u)
            for r in u - inside:
                if r not in allocas:
                    return False
                # an alloca that is written outside the region carries outside data
                for b2 in normal_blocks(f):
                    b = f.blocks[b2]
                    if b2 in region:
                        continue
                    for j in b:
                        u2 = set()
                        regs(j.a, u2)
                        if r in u2 and j.op in ('store', 'call', 'invoke'):
                            return False
    return True


# ---------------------------------------------------------------- C18
ALWAYS = r'''^(set|new|use|free|dup)locale$|^localeconv$|^s?rand(_r)?$|^random$|^[dlm]rand48$|^arc4random|^time$|^clock$|^clock_gettime$|^gettimeofday$|^localtime|^gmtime|^getenv$|^secure_getenv$|^setenv$|^putenv$|^fe(set|get)(round|env)|^getpid$|^gettid$|^pthread_self$|^open$|^fopen|^fwrite|^fread|^fputs|^fputc|^puts$|^putchar|^write$|^read$|^system$|^signal$|^f?printf$|^v?f?scanf$|^strtok$|^getrandom'''
LOCALE = r'''^(v?s?n?printf|v?sn?printf|v?asprintf|v?sscanf|asprintf)$|^_?_?is(alnum|alpha|blank|cntrl|graph|lower|print|punct|space|upper)(_l)?$|^to(upper|lower)$|^__ctype_|^strto(d|f|ld)$|^ato[f]$|^strcoll|^strxfrm|^mb[rs]?|^wc|^nl_langinfo|^nearbyint|^l?l?rint|^gcvt|^[ef]cvt'''
DEMD = r'std::locale|std::basic_(o|i|io)stream|std::__cxx11::basic_(o|i|)stringstream|std::basic_(o|i)stream|std::ios_base|std::ctype|std::num_put|std::num_get|std::use_facet|std::random_device|std::chrono|std::cout|std::__cxx11::(sto|std)[dfl]|std::ostream|std::istream'


def plain_printf(M, funcs, name):
    """all calls of a printf function have a constant format without a conversion that depends on the locale"""
    k = {'snprintf': 2, 'sprintf': 1}.get(name)
    if k is None:
        return False
    for n in funcs:
        f = M.functions.get(n)
        for ins in (i for b in f.blocks.values() for i in b) if f is not None else ():
            if ins.op in ('call', 'invoke') and ins.a[0] == ('g', name):
                v = ins.a[1][k][1]
                g = M.globals.get(v[1]) if v[0] == 'g' else None
                try:
                    t = g.init[1]
                    t = (t if isinstance(t, bytes) else bytes(t)).decode('latin1')
                except Exception:
                    return False
                if not g.const or re.sub(r'%[-0+ #]*(\*|\d+)?(\.(\*|\d*))?(hh|h|ll|l|j|z|t)?[diuxXo%]|%-?\d*(\.\d*)?[cs]', '', t).count('%'):
                    return False
    return True


def c18_task(key, cfg, kind):
    M = _M[key]
    r = Result()
    entries = [n for n in M.functions if n.startswith('e_')]
    if kind == 'extract':
        entries = [n for n in entries if n.startswith('e_ex')]
    seen = reach(M, entries)
    funcs = set(seen)
    for n in funcs:
        if n in M.functions:
            r.funcs[dem(M, n)] = 1
    fl = Flow(M, funcs)
    # 1. shared mutable state
    nglob = 0
    for gn, g in M.globals.items():
        if g.init is not None and g.init[0] == 'alias' or g.type[0] == 'fn' or gn.startswith('llvm.'):
            continue
        if gn.startswith('_ZGV'):
            continue
        nglob += 1
        if g.const and not g.tls:
            r.ob('no-shared-writes', True)
            continue
        writes, unk = fl.track(set(), gname=gn)
        bad = []
        for n, ins, what in writes:
            f = M.functions[n]
            reg = init_region(M, f)
            bn = [b for b, L in f.blocks.items() if ins in L][0]
            if bn in reg and constant_init(M, f, reg):
                continue
            bad.append((n, ins, what))
        # a callee of the initialisation writes through its parameter: same exemption when every call with the global is in such a region
        if bad and any(init_region(M, M.functions[n]) for n in funcs if n in M.functions):
            bad = [x for x in bad if not only_init(M, fl, gn, x[0])]
        r.ob('no-shared-writes', not bad)
        for n, ins, what in bad[:3]:
            l = M.loc(ins.dbg) if ins.dbg else None
            if not (l and l[0].startswith(build.REPO)):
                l = lib_loc(M, seen, n)[0]
            r.violation('no-shared-writes', '%s writes the %s variable %s, which outlives the call' % (what, 'thread-local' if g.tls else 'static', pretty(gn)), l, dem(M, n),
                        path(M, seen, n), {'reached from': entry_of(seen, n)}, None, cfg, entry_of(seen, n))
        if not bad and [u for u in unk if not init_region(M, M.functions[u[0]])] and not g.const:
            for n, ins, what in unk[:2]:
                if 'stored' in what:
                    continue
                r.unknown('no-shared-writes', '%s: %s' % (pretty(gn), what), M.loc(ins.dbg) if ins.dbg else None, dem(M, n), cfg)
    # 2. hidden inputs and process-wide effects
    for n in sorted(funcs):
        if n in M.functions:
            continue
        d = dem(M, n)
        k = re.sub(r'^__isoc\d+_', '', n)
        bad = bool(re.search(ALWAYS, k)) or bool(re.search(DEMD, d))
        if kind != 'extract':
            bad = bad or bool(re.search(LOCALE, k)) and not plain_printf(M, funcs, n)
        r.ob('no-hidden-input', not bad)
        if bad:
            l, fn = lib_loc(M, seen, n)
            r.violation('no-hidden-input', 'the conversion depends on or changes process-wide state through %s' % d[:120], l, fn, path(M, seen, n),
                        {'reached from': entry_of(seen, n)}, None, cfg, entry_of(seen, n))
    # 3. const objects are only read
    for n in sorted(funcs):
        f = M.functions.get(n)
        d = dem(M, n)
        if f is None or not re.search(r'(^|\s)lexi::', d):
            continue
        for i, what in const_params(f, d):
            seeds = {(n, f.params[i][1])}
            # only the object's own members: pointers it holds point into itself
            writes, unk = fl.track(seeds, follow_loads=what == 'this')
            r.ob('const-objects-only-read', not writes)
            for wn, ins, wh in writes[:2]:
                l = M.loc(ins.dbg) if ins.dbg else None
                r.violation('const-objects-only-read', '%s writes to its const %s through %s' % (d[:120], 'object' if what == 'this' else 'argument', wh), l if l and l[0].startswith(build.REPO) else None,
                            dem(M, wn), path(M, seen, n), {'reached from': entry_of(seen, n)}, None, cfg, entry_of(seen, n))
    r.samples.append('%s: %d entry points, %d functions reached, %d variables' % (key[0][0], len(entries), len(funcs), nglob))
    r.paths = len(entries)
    return r


def only_init(M, fl, gn, n):
    """does the global reach function n only from one-time initialisations with constant data?"""
    # callers chain: n is called with the global only inside init regions
    frontier = {n}
    seen = set()
    while frontier:
        x = frontier.pop()
        seen.add(x)
        for c, ci in fl.rets.get(x, []):
            f = M.functions[c]
            reg = init_region(M, f)
            bn = [b for b, L in f.blocks.items() if ci in L][0]
            if bn in reg and constant_init(M, f, reg):
                continue
            gs = set()
            for a in ci.a[1]:
                globals_in(a[1], gs)
            if gn in gs:
                return False
            if c not in seen and c in M.functions and not c.startswith('e_'):
                frontier.add(c)
    return any(init_region(M, M.functions[c]) for x in seen for c, ci in fl.rets.get(x, []))


def pretty(gn):
    import subprocess
    r = subprocess.run([build.LLVM + 'llvm-cxxfilt', gn.split('.')[0]], stdout=subprocess.PIPE, text=True)
    return r.stdout.strip() or gn


def entry_of(seen, n):
    while seen.get(n) is not None:
        n = seen[n][0]
    return n


def split_params(d):
    """explicit parameter types of a demangled name"""
    k = d.rfind(')')
    if k < 0:
        return None
    depth = 0
    for i in range(k, -1, -1):
        depth += (d[i] == ')') - (d[i] == '(')
        if depth == 0:
            break
    body = d[i + 1:k]
    if not body:
        return []
    out, depth, cur = [], 0, ''
    for c in body:
        if c in '<([':
            depth += 1
        if c in '>)]':
            depth -= 1
        if c == ',' and depth == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    out.append(cur.strip())
    return out


def const_params(f, d):
    """[(index of the IR parameter, 'this' | 'arg')] that are references to const"""
    ps = split_params(d)
    if ps is None:
        return []
    out = []
    off = 1 if f.params and is_sret(f.params[0]) else 0
    if d.endswith(' const') and re.search(r'lexi::(\w+::)*(Format|Extract|BigInteger)\w*::', d.split('(')[0]):
        if len(f.params) > off:
            out.append((off, 'this'))
        m = 1
    else:
        m = len(f.params) - off - len(ps)
    if m in (0, 1) and len(f.params) == off + m + len(ps):
        for j, p in enumerate(ps):
            if re.search(r' const ?[&*]$', p):
                out.append((off + m + j, 'arg'))
    return out


def is_sret(p):
    return len(p) > 2 and 'sret' in str(p[2])


def C18(tier, seed):
    cfgs = {'gcc': build.GCC, 'clang': [], 'portable': build.PORTABLE}
    tasks = []
    for d, kind in (('format.cpp', 'format'), ('strings.cpp', 'format'), ('copies.cpp', 'format'), ('extract.cpp', 'extract')):
        prepare([d], cfgs)
        for k in list(_M):
            if k[0] == (d,):
                tasks.append((c18_task, (k, k[1], kind), d + '/' + k[1]))
    return tasks, list(cfgs), 50


# ---------------------------------------------------------------- C19
ALLOC = r'^(_Zn[wa][mj].*|malloc|calloc|realloc|aligned_alloc|posix_memalign|memalign|strdup|strndup|v?asprintf|fopen|__cxa_allocate_exception|getline|open_memstream)$'
THROW = r'^(__cxa_throw|__cxa_rethrow|__cxa_bad_cast|_ZSt\d+__throw_.*|_ZSt17rethrow_exception.*|_ZSt9terminatev|abort|exit|_exit|longjmp)$'
NOEXC = r'::(~\w+|size|length|data|c_str|begin|end|cbegin|cend|empty|capacity|max_size|operator\[\]|front|back|clear|swap|compare|find\w*|rfind|operator==|get_allocator|allocator|~allocator)(\(|<|$)'


def may_allocate(n, d):
    """can this external function allocate? (the throwing of bad_alloc comes with it)"""
    if re.match(ALLOC, n):
        return True
    if re.search(r'std::(__cxx11::)?basic_string<', d):
        # std::string itself: only the members that cannot allocate are let through
        body = re.sub(r'\(.*', '', re.sub(r'<[^<>]*(<[^<>]*(<[^<>]*>[^<>]*)*>[^<>]*)*>', '', d))
        if re.search(r'::(~\w+|size|length|data|c_str|begin|end|cbegin|cend|empty|capacity|max_size|operator\[\]|front|back|clear|swap|compare|find\w*|rfind|get_allocator|allocator|pop_back)$', body):
            return False
        if re.search(r'std::(char_traits|allocator|__new_allocator|__cxx11::basic_string::_Alloc_hider)', body) and not re.search(r'allocate$', body):
            return False
        return True
    if re.search(r'std::(basic_)?[io]?f?stream|std::__cxx11::basic_\w*stringstream|std::locale|std::function|std::shared_ptr|std::to_string|std::__cxx11::to_string', d):
        return True
    return False


def may_throw(n, d):
    return bool(re.match(THROW, n))


def quiet(n):
    """entries that must neither allocate nor throw"""
    if n.startswith(('e_fmt_', 'e_cps_', 'e_cpl_')):
        return True
    m = re.match(r'e_(ex|exf)_(\w+)$', n)
    return bool(m) and m.group(2) in NUMEX


NUMEX = set(INTS) | set(ENUMS) | {'fpos', 'float', 'double', 'ldouble'}


def throw_sites(M, seen):
    """(function, instruction, type) of the throw expressions in the library itself"""
    for n in sorted(seen):
        f = M.functions.get(n)
        if f is None or not (re.search(r'(^|[\s:(])lexi::', f.dem or '') or n.startswith('e_')):
            continue
        for ins in calls(f):
            if ins.a[0] == ('g', '__cxa_throw'):
                gs = set()
                globals_in(ins.a[1][1][1], gs)
                yield n, ins, (sorted(gs) or ['?'])[0]


def is_runtime_ti(M, ti, depth=0):
    """typeinfo symbol: std::runtime_error or something derived from it. None: unknown"""
    if ti in ('_ZTISt13runtime_error', '_ZTISt11range_error', '_ZTISt14overflow_error', '_ZTISt15underflow_error', '_ZTISt12system_error'):
        return True
    g = M.globals.get(ti)
    if g is None or g.init is None or depth > 5:
        return False if ti.startswith('_ZTI') else None
    gs = set()
    globals_in(g.init, gs)
    return any(is_runtime_ti(M, x, depth + 1) for x in gs if x.startswith('_ZTI') and x != ti)


def c19_task(key, cfg):
    """-> Result; entries whose call graph needs a closer look are left undischarged"""
    M = _M[key]
    r = Result()
    for e in sorted(n for n in M.functions if n.startswith('e_')):
        seen = reach(M, [e])
        for n in seen:
            if n in M.functions and not n.startswith('e_'):
                r.funcs[dem(M, n)] = 1
        if quiet(e):
            bad = [n for n in seen if n not in M.functions and (may_allocate(n, dem(M, n)) or may_throw(n, dem(M, n)))]
            unkn = [n for n in seen if n not in M.functions and not bad and not n.startswith('vf_') and not known_quiet(n, dem(M, n))]
            r.ob('no-allocation-no-throw', not bad and not unkn)
            if bad or unkn:
                n = (bad or unkn)[0]
                l, fn = lib_loc(M, seen, n)
                r.unknown('no-allocation-no-throw', '%s may be called (%s)' % (dem(M, n)[:120], '; '.join(path(M, seen, n)[-3:])[:250]), l, fn, cfg, e)
        elif not e.startswith(('e_ex', 'e_rt')):
            t = list(throw_sites(M, seen))
            r.ob('string-results-not-rejected', not t)
            if t:
                l = M.loc(t[0][1].dbg) if t[0][1].dbg else None
                r.unknown('string-results-not-rejected', 'a throw expression is reachable', l, dem(M, t[0][0]), cfg, e)
        else:
            for n, ins, ti in throw_sites(M, seen):
                k = is_runtime_ti(M, ti)
                r.ob('rejects-with-runtime-error', bool(k))
                if not k:
                    l = M.loc(ins.dbg) if ins.dbg else None
                    r.unknown('rejects-with-runtime-error', 'a throw of another type (%s) is reachable' % pretty(ti), l, dem(M, n), cfg, e)
    r.paths = sum(a for a, b in r.obl.values())
    r.samples.append('%s/%s: %d entries, %d functions on their call graphs' % (key[0][0], cfg, sum(n.startswith('e_') for n in M.functions), len(r.funcs)))
    return r


def known_quiet(n, d):
    k = re.sub(r'^__isoc\d+_', '', n)
    return n.startswith('llvm.') or re.sub(r'\.p0.*$', '', k) in READERS or d.startswith('std::') or n.startswith('__') or re.match(r'^(is\w+|to(upper|lower)|str\w+|mem\w+|f?abs[fl]?|ceil[fl]?|floor[fl]?|log(10|2)?[fl]?|pow[fl]?|frexp[fl]?|ldexp[fl]?|modf[fl]?|v?s?n?printf|ato\w+|llabs|labs|isinf|isnan|signbit)$', k)


class AllocModels(models.Models):
    """std::string keeps up to 15 characters inside the object; more are allocated"""
    run = None
    armed = False

    def setstr(self, I, s, p, rec):
        if self.armed:
            # taking over or copying an existing short string does not allocate; any longer text needs storage
            n = rec.len
            c = ge(sub(n, 16)) if not isinstance(n, int) else (TRUE if n > 15 else FALSE)
            if s.st.decide(c) is not False:
                I.want_kinds.add('no-allocation')
                I.report(s, 'no-allocation', 'a std::string of more than 15 characters is built on the way', c)
        return models.Models.setstr(self, I, s, p, rec)


def arm(run):
    I = run.I
    mm = AllocModels()
    I.models = mm
    M = run.M
    for n in list(M.functions) + list(M.declares):
        d = dem(M, n)
        if re.match(ALLOC, n) and n != '__cxa_allocate_exception':
            def h(I, s, ins, a, d=d):
                run.fail(s, 'no-allocation', 'memory is allocated by %s' % d)
                raise interp.PathEnd('violation')
            run.hook(n, h)
        elif re.search(r'basic_string<.*>::reserve\(unsigned long\)$', d):
            def h(I, s, ins, a):
                run.oblige(s, 'no-allocation', ge(sub(15, I.uview(s, a[1], 64))), 'std::string::reserve allocates')
            run.hook(n, h)
    return mm


def c19_confirm(key, cfg, entry, seed):
    """the alarm is confirmed on abstract executions of the entry"""
    M = _M[key]
    out = Result()
    must = quiet(entry)
    suffix = entry.split('_')[-1]

    def one(args_of, name, budget=60):
        run = Run(M, cfg, entry, seed=seed, budget=budget)
        mm = arm(run) if must else None
        for h in ('vf_obj', 'vf_str', 'vf_tag', 'vf_s', 'vf_u', 'vf_f', 'vf_d', 'vf_l', 'vf_begin', 'vf_end'):
            run.hook(h, lambda I, s, ins, a: None)

        def setup(s, args):
            a = args_of(run, s)
            if mm is not None:
                mm.armed = True
            return a

        def onthrow(s, ty):
            if must:
                run.fail(s, 'no-throw', 'an exception (%s) leaves the conversion' % ty)
            elif entry.startswith(('e_ex', 'e_rt')):
                run.hold(s, 'rejects-with-runtime-error', interp_is_runtime(run.I, ty), 'the input is rejected with %s instead of std::runtime_error' % ty)
            elif 'bad_alloc' not in ty and 'length_error' not in ty:
                run.fail(s, 'no-throw', 'an exception (%s) leaves a conversion that rejects nothing' % ty)
        try:
            r = run.go([], setup=setup, onthrow=onthrow, onlimit=lambda st, i: None)
        except Exception as e:
            return
        for v in r.violations:
            if v['rule'] in ('no-throw', 'no-allocation', 'rejects-with-runtime-error'):
                out.violations.append(v)
    if suffix in ('float', 'double', 'ldouble') and not entry.startswith('e_ex'):
        from . import floats
        for b in floats.notable()[::3] + [0, 1 << 63, 0x7ff << 52, 0xfff << 52, 0x7ff8 << 48] + ([(x, sg) for x in floats.EXTREME for sg in (0, 1)] if suffix == 'ldouble' else []):
            def args_of(run, s, b=b):
                run.inputs['bits'] = b
                if suffix == 'double':
                    return [floats.run_const(b)]
                if suffix == 'float':
                    c = floats.tofloat(b)
                    return [F('k', 'float', c[0] if c else floats.double_of(b) if b in (0, 1 << 63) else float('inf'))]
                arg, b, g = floats.ld_arg(b)
                s.ghost.update(g)
                return [arg]
            one(args_of, str(b), 15)
            if out.violations:
                break
    elif entry.startswith('e_ex') or entry in ('e_escape', 'e_jsonify', 'e_same', 'e_cstr', 'e_cstr_escape', 'e_cstr_jsonify', 'e_derived'):
        from .ints import CORPUS
        from .fextract import BASIC
        one(lambda run, s: [mkstr(run, s, [run.sym('b0', 0, 255)])], 'one byte')
        one(lambda run, s: [mkstr(run, s, [])], 'empty')
        for c in (CORPUS + BASIC if not out.violations else []):
            one(lambda run, s, c=c: (run.inputs.update(s=c), [mkstr(run, s, list(c))])[1], c, 15)
            if out.violations:
                break
    else:
        one(lambda run, s: arg_for(run, suffix)[0], 'any value', 120)
    return out


def c19_refine(seed, tier):
    def f():
        tasks = []
        for k in list(_M):
            M = _M[k]
            for e in sorted(n for n in M.functions if n.startswith('e_')):
                seen = reach(M, [e])
                if quiet(e):
                    need = any(n not in M.functions and (may_allocate(n, dem(M, n)) or may_throw(n, dem(M, n))) for n in seen)
                else:
                    t = list(throw_sites(M, seen))
                    need = bool(t) if not e.startswith(('e_ex', 'e_rt')) else any(not is_runtime_ti(M, x[2]) for x in t)
                if need:
                    tasks.append((c19_confirm, (k, k[1], e, seed), 'confirm ' + e))
        return tasks or [(lambda: Result(), (), 'nothing to confirm')]
    return f


def C19(tier, seed):
    cfgs = {'gcc': build.GCC, 'clang': [], 'NDEBUG': build.GCC + ['-DNDEBUG']}
    tasks = []
    for d in ('format.cpp', 'strings.cpp', 'copies.cpp', 'extract.cpp'):
        prepare([d], cfgs)
    for k in list(_M):
        tasks.append((c19_task, (k, k[1]), k[0][0] + '/' + k[1]))
    return tasks, list(cfgs), 50, c19_refine(seed, tier)
