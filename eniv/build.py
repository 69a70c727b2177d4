"""Compile translation units of the code under verification to LLVM IR.

Always from /repo's working tree, into a fresh scratch directory.
"""
import os, subprocess, tempfile, shutil, atexit, re
from .ir import Module, demangle_all, demangle

REPO = os.environ.get('ENIV_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG = 'clang++-18' if shutil.which('clang++-18') else 'clang++'
OPT = 'opt-18' if shutil.which('opt-18') else '/usr/lib/llvm-18/bin/opt'
SCRATCH = None


class BuildError(Exception):
    pass


def scratch():
    global SCRATCH
    if SCRATCH is None or not os.path.isdir(SCRATCH[0]) or SCRATCH[1] != os.getpid():
        root = os.environ.get('ENIV_SCRATCH')
        d = tempfile.mkdtemp(prefix='eniv.', dir=root)
        SCRATCH = (d, os.getpid())
        if root is None:
            os.environ['ENIV_SCRATCH'] = d      # children put theirs inside; removed with it
            atexit.register(lambda d=d, p=os.getpid(): shutil.rmtree(d, ignore_errors=True) if os.getpid() == p else None)
    return SCRATCH[0]


def flags():
    inc = ['-I%s/include/eni' % REPO, '-I%s/tools/eni_cli' % REPO, '-I%s/tools/eni_scrypt' % REPO,
           '-I%s/tools/eni_crypto' % REPO, '-I%s/examples/eni/reverse' % REPO, '-I%s' % REPO]
    return ['-DLIBENI_VERIFY', '-std=c++11'] + inc


_mods = {}


def compile_ir(src, extra=()):
    """src: path relative to /repo, or absolute -> Module (once per process)"""
    k = (src, tuple(extra))
    if k not in _mods:
        _mods[k] = compile_ir_(src, extra)
    return _mods[k]


def compile_ir_(src, extra):
    d = scratch()
    path = src if os.path.isabs(src) else os.path.join(REPO, src)
    base = os.path.join(d, re.sub(r'[^A-Za-z0-9]+', '_', src) + str(len(os.listdir(d))))
    c1 = [CLANG] + flags() + list(extra) + ['-O1', '-Xclang', '-disable-llvm-passes', '-fno-access-control', '-S',
                                           '-emit-llvm', '-w', path, '-o', base + '.ll']
    r = subprocess.run(c1, capture_output=True, text=True)
    if r.returncode:
        raise BuildError('clang: ' + r.stderr[-2000:])
    c2 = [OPT, '-passes=sroa,simplifycfg<no-sink-common-insts>', '-S', base + '.ll', '-o', base + '.o.ll']
    r = subprocess.run(c2, capture_output=True, text=True)
    if r.returncode:
        raise BuildError('opt: ' + r.stderr[-2000:])
    m = Module(open(base + '.o.ll').read())
    m.src = src
    m.cmd = ' '.join(c1[:-3]) + ' | ' + ' '.join(c2[:2])
    demangle_all(list(m.funcs) + list(m.decls))
    os.unlink(base + '.ll')
    os.unlink(base + '.o.ll')
    return m


STR = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >'


def norm(dm):
    dm = dm.replace(STR, 'std::string').replace('std::basic_ostream<char, std::char_traits<char> >', 'std::ostream')
    dm = dm.replace('[abi:cxx11]', '')
    return dm


def find(m, pat, all_=False):
    """functions of the module whose normalised demangled name matches pat (string: exact; regex: search)"""
    out = []
    for n in m.funcs:
        d = norm(demangle(n))
        if (d == pat) if isinstance(pat, str) else pat.search(d):
            out.append(n)
    if all_:
        return out
    # constructors: prefer the complete-object variant
    if len(out) > 1:
        c1 = [n for n in out if 'C1' in n or 'D1' in n]
        if len(c1) == 1:
            return c1[0]
        c2 = [n for n in out if 'C2' in n or 'D2' in n]
        if len(c2) == 1:
            return c2[0]
    if len(out) != 1:
        raise BuildError('function %s: %d matches in %s' % (getattr(pat, 'pattern', pat), len(out), m.src))
    return out[0]


def glob_sources(pat):
    import glob
    return sorted(os.path.relpath(p, REPO) for p in glob.glob(os.path.join(REPO, pat)))


LIBSRC = glob_sources('lib/*.cpp') + glob_sources('lib/*/*.cpp')
