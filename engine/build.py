"""Front end: compile a driver unit and the repository's sources to one LLVM IR module per configuration."""
import os, subprocess, tempfile, shutil, glob, atexit
from concurrent.futures import ThreadPoolExecutor
from . import ir

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LLVM = '/usr/lib/llvm-18/bin/'
CXX = LLVM + 'clang++'

_tmp = None


class BuildError(Exception):
    pass


class DriverError(BuildError):
    """the library compiles, but an entry-point unit of the analysis does not compile against it"""


def tmpdir():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix='lexi-verif-')
        pid = os.getpid()

        def rm():
            if os.getpid() == pid:
                shutil.rmtree(_tmp, ignore_errors=True)
        atexit.register(rm)
    return _tmp


BASEFLAGS = ['-std=c++14', '-include', 'cstdint', '-I' + REPO + '/include', '-O0', '-Xclang', '-disable-O0-optnone',
             '-fno-discard-value-names', '-gline-tables-only', '-ffp-contract=off', '-w', '-fdebug-compilation-dir=/none']
GCC = ['-fgnuc-version=4.9.0']
# neither GCC-compatible nor MSVC: the portable branches
PORTABLE = ['-fgnuc-version=0']
# the MSVC branches, over stand-ins for its intrinsics
MSVC = ['-I' + os.path.join(HERE, 'drivers', 'msvc'), '-include', os.path.join(HERE, 'drivers', 'msvc', 'pre.h')]
# 32-bit long and pointers; the architecture header selects its other branch
ILP32 = ['--target=i686-linux-gnu', '-I' + os.path.join(HERE, 'drivers', 'ilp32')]
for _d in ('/usr/include/c++/13', '/usr/include/x86_64-linux-gnu/c++/13', '/usr/include/x86_64-linux-gnu'):
    ILP32 += ['-isystem', _d]


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def sources():
    """the library's translation units: every .cpp below src/"""
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, 'src')):
        for f in sorted(fs):
            if f.endswith(('.cpp', '.cc', '.cxx')):
                out.append(os.path.join(d, f))
    return sorted(out)


def module(drivers=(), flags=(), name='m', with_lib=True, passes='sroa'):
    """compile, link, promote memory to registers, parse"""
    d = os.path.join(tmpdir(), name)
    os.makedirs(d, exist_ok=True)
    srcs = [os.path.join(HERE, 'drivers', x) for x in drivers] + (sources() if with_lib else [])
    if with_lib and len(srcs) <= len(drivers):
        raise BuildError('no library sources found under %s/src' % REPO)

    def one(i):
        o = os.path.join(d, '%d.ll' % i)
        r = run([CXX] + BASEFLAGS + list(flags) + ['-S', '-emit-llvm', '-o', o, srcs[i]], cwd=d)
        return o, '%s: %s' % (srcs[i], r.stderr[-3000:]) if r.returncode else None
    with ThreadPoolExecutor(8) as ex:
        done = list(ex.map(one, range(len(srcs))))
    for i, (o, e) in enumerate(done):
        if e and i >= len(drivers):
            raise BuildError(e)
    for o, e in done:
        if e:
            raise DriverError(e)
    lls = [o for o, e in done]
    r = run([LLVM + 'llvm-link', '-S', '-o', d + '/all.ll'] + lls)
    if r.returncode:
        raise BuildError('llvm-link: ' + r.stderr[-2000:])
    r = run([LLVM + 'opt', '-S', '-passes=' + passes, '-o', d + '/opt.ll', d + '/all.ll'])
    if r.returncode:
        raise BuildError('opt: ' + r.stderr[-2000:])
    M = ir.parse_module(open(d + "/opt.ll").read())
    demangle(M)
    return M


def demangle(M):
    names = list(M.functions) + list(M.declares)
    r = subprocess.run([LLVM + 'llvm-cxxfilt'] + names, stdout=subprocess.PIPE, text=True)
    for n, dn in zip(names, r.stdout.split('\n')):
        (M.functions.get(n) or M.declares.get(n)).dem = dn
