"""C26: the headers work alone, in any order, in any number of translation units, and what they declare is there to link."""
import json, os, re, glob
from .common import *

CC = {'clang++': [build.CXX, '-ferror-limit=3'], 'g++': ['g++', '-fmax-errors=3']}
DECLS = ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl')


def found(sub):
    root = os.path.join(build.REPO, 'include')
    return sorted(os.path.relpath(h, root) for h in glob.glob(os.path.join(root, sub)))


def unit(nm, code):
    d = os.path.join(build.tmpdir(), 'headers')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, nm + '.cpp')
    with open(p, 'w') as f:
        f.write(code)
    return p


def cc(compiler, std, flags, p):
    return build.run(CC[compiler] + ['-std=c++%d' % std, '-w', '-I' + build.REPO + '/include'] + flags + [p])


def where(err):
    m = re.search(r'(?m)^(%s/[\w/.]+):(\d+):\d+: (?:fatal )?error: (.*)' % re.escape(build.REPO), err)
    if m:
        return (m.group(1), int(m.group(2))), m.group(3)
    m = re.search(r'error: (.*)', err)
    return None, m.group(1) if m else err[:200]


def alone(compiler, std, hs):
    r = Result()
    for h in hs:
        p = unit('alone-%s-%d-%s' % (compiler, std, re.sub(r'\W', '_', h)), '#include "%s"\n#include "%s"\n' % (h, h))
        x = cc(compiler, std, ['-fsyntax-only'], p)
        r.ob('self-contained', x.returncode == 0)
        if x.returncode:
            loc, msg = where(x.stderr)
            r.violation('self-contained', '%s does not compile on its own as C++%d: %s' % (h, std, msg[:200]), loc or (os.path.join(build.REPO, 'include', h), 1), h, None, None, None, compiler, '#include "%s"' % h)
    r.samples.append('%s, C++%d: %d headers alone and twice' % (compiler, std, len(hs)))
    return r


def order(compiler, std, seqs):
    r = Result()
    for i, q in seqs:
        p = unit('order-%s-%d-%d' % (compiler, std, i), ''.join('#include "%s"\n' % h for h in q))
        x = cc(compiler, std, ['-fsyntax-only'], p)
        r.ob('any-order', x.returncode == 0)
        if x.returncode:
            loc, msg = where(x.stderr)
            r.violation('any-order', '%s do not compile in this order: %s' % (' then '.join(q), msg[:200]), loc or (os.path.join(build.REPO, 'include', q[-1]), 1), q[-1], None, None, None, compiler, ' '.join(q))
    r.samples.append('%s, C++%d: %s' % (compiler, std, ' then '.join(seqs[0][1])))
    return r


def symbols(obj):
    x = build.run([build.LLVM + 'llvm-nm', '--defined-only', obj])
    out = []
    for l in x.stdout.split('\n'):
        t = l.split()
        if len(t) == 3:
            out.append((t[1], t[2]))
    return out


def once(compiler, std, h):
    """symbols a translation unit that only includes the header defines strongly: a second such unit does not link with it"""
    r = Result()
    p = unit('once-%s-%d-%s' % (compiler, std, re.sub(r'\W', '_', h)), '#include "%s"\n' % h)
    o = p[:-4] + '.o'
    x = cc(compiler, std, ['-c', '-o', o], p)
    if x.returncode:
        return r                    # reported by the rule above
    bad = [n for k, n in symbols(o) if k in 'TDBRCS']
    r.ob('one-definition', not bad)
    if bad:
        dem = build.run([build.LLVM + 'llvm-cxxfilt'] + bad).stdout.split('\n')
        r.violation('one-definition', 'every translation unit that includes %s defines %s: two of them do not link' % (h, ', '.join(dem[:3])), (os.path.join(build.REPO, 'include', h), 1), dem[0], None, None, None, compiler, '#include "%s"' % h)
    r.samples.append('%s: strong symbols of %s' % (compiler, h))
    return r


def declared(hs):
    """public functions the headers declare without a body: mangled name -> (name, file, line)"""
    p = unit('all', ''.join('#include "%s"\n' % h for h in hs))
    x = build.run([build.CXX, '-std=c++14', '-w', '-I' + build.REPO + '/include', '-fsyntax-only', '-Xclang', '-ast-dump=json', p])
    if x.returncode:
        return None
    out = {}
    cur = [None, None]
    root = build.REPO + '/include'

    def walk(n, tmpl, pub):
        l = n.get('loc', {})
        for q in (l.get('spellingLoc', {}), l.get('expansionLoc', {}), l):
            if 'file' in q:
                cur[0] = q['file']
            if 'line' in q:
                cur[1] = q['line']
        k = n.get('kind', '')
        tmpl = tmpl or 'Template' in k
        if k in DECLS and not tmpl and pub and (cur[0] or '').startswith(root) and not n.get('isImplicit') and not n.get('explicitlyDeleted') \
                and not n.get('explicitlyDefaulted') and not n.get('pure'):
            body = any(c.get('kind') in ('CompoundStmt', 'CXXTryStmt') for c in n.get('inner', []))
            m = n.get('mangledName', '')
            if not body and 'lexi' in m:
                out.setdefault(m, (n.get('name'), cur[0], cur[1]))
        acc = True
        if k == 'CXXRecordDecl':
            acc = n.get('tagUsed') != 'class'
        for c in n.get('inner', []):
            if c.get('kind') == 'AccessSpecDecl':
                acc = c.get('access') == 'public'
            walk(c, tmpl, acc)
    walk(json.loads(x.stdout), False, True)
    return out


def linked(compiler, std, hs):
    r = Result()
    D = declared(hs)
    if D is None:
        r.unknown('declared-is-defined', 'the headers do not compile together')
        return r
    have = set()
    for i, src in enumerate(build.sources()):
        o = os.path.join(build.tmpdir(), 'headers', 'lib-%s-%d.o' % (compiler, i))
        x = cc(compiler, std, ['-include', 'cstdint', '-c', '-o', o], src)
        if x.returncode:
            r.unknown('declared-is-defined', '%s does not compile with %s' % (src, compiler))
            return r
        have |= {n for k, n in symbols(o)}
    for m, (nm, f, ln) in D.items():
        alt = {m, re.sub(r'C1(?=E)', 'C2', m), re.sub(r'D1(?=E)', 'D2', m)}
        ok = bool(alt & have)
        r.ob('declared-is-defined', ok)
        if not ok:
            r.violation('declared-is-defined', '%s is declared but the library does not define it (%s)' % (nm, m), (f, ln), nm, None, None, None, compiler, m)
    r.samples.append('%s: %d functions declared in headers, all looked up among %d symbols of the library' % (compiler, len(D), len(have)))
    return r


def C26(tier, seed):
    pub, det = found('lexi/*.hpp'), found('lexi/detail/*.hpp')
    if not pub:
        raise build.BuildError('no public headers under %s/include/lexi' % build.REPO)
    tasks = []
    for c in CC:
        for std in (14, 17, 20):
            hs = pub + det
            for i in range(0, len(hs), 4):
                tasks.append((alone, (c, std, hs[i:i + 4]), 'alone/%s/%d' % (c, std)))
            if std != 14 and tier == 'quick':
                continue
            pairs = list(enumerate([[a, b] for a in pub for b in pub if a != b] + [pub, pub[::-1], pub + det, det + pub, det[::-1] + pub]))
            if c == 'g++' and tier == 'quick':
                pairs = pairs[-5:]
            for i in range(0, len(pairs), 8):
                tasks.append((order, (c, std, pairs[i:i + 8]), 'order/%s/%d' % (c, std)))
        for std in (14, 17):
            for h in hs:
                tasks.append((once, (c, std, h), 'once/%s/%d' % (c, std)))
        tasks.append((linked, (c, 14, pub), 'linked/' + c))
    return tasks, list(CC), 50
