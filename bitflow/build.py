"""Builds the analyser and lowers the analysis entries (over /repo's current
headers) to LLVM IR, one module per (wrapper, configuration)."""
import hashlib, os, subprocess, sys, fcntl, glob
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('BF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
CLANG = 'clang++-18'
OPT = 'opt-18'

BASE = ['-O1', '-Xclang', '-disable-llvm-passes', '-gline-tables-only', '-emit-llvm', '-c',
        '-include', os.path.join(VERIF, 'wrappers', 'pre.h'), '-w', '-ferror-limit=0']
CT = ['-include', os.path.join(VERIF, 'wrappers', 'ct.h')]
STREAM = ['-fno-threadsafe-statics', '-isystem', os.path.join(VERIF, 'wrappers', 'shims')]
# configuration name -> flags
CONFIGS = {
    'cpp11': ['-std=c++11'],
    'cpp14': ['-std=c++14'],
    'cpp17': ['-std=c++17'],
    'cpp20': ['-std=c++20'],
    'cpp23': ['-std=c++23'],
    'nospace': ['-std=c++20', '-DIPADDRESS_NO_SPACESHIP_OPERATOR'],
    'noexc11': ['-std=c++11', '-DIPADDRESS_NO_EXCEPTIONS', '-fno-exceptions'],
    'noexc17': ['-std=c++17', '-DIPADDRESS_NO_EXCEPTIONS', '-fno-exceptions'],
    'noexc20': ['-std=c++20', '-DIPADDRESS_NO_EXCEPTIONS', '-fno-exceptions'],
    'noexc20rt': ['-std=c++20', '-DIPADDRESS_NO_EXCEPTIONS'],
    'noover': ['-std=c++20', '-DIPADDRESS_NO_OVERLOAD_STD'],
    'utf8char': ['-std=c++20', '-DIPADDRESS_CHAR_IS_UTF8'],
    'scope0': ['-std=c++20', '-DIPADDRESS_IPV6_SCOPE_MAX_LENGTH=0'],
    'scope0_11': ['-std=c++11', '-DIPADDRESS_NO_IPV6_SCOPE'],
    'scope0noexc': ['-std=c++20', '-DIPADDRESS_NO_IPV6_SCOPE', '-DIPADDRESS_NO_EXCEPTIONS', '-fno-exceptions'],
    'scope1': ['-std=c++20', '-DIPADDRESS_IPV6_SCOPE_MAX_LENGTH=1'],
    'scope4': ['-std=c++20', '-DIPADDRESS_IPV6_SCOPE_MAX_LENGTH=4'],
    'scope64': ['-std=c++20', '-DIPADDRESS_IPV6_SCOPE_MAX_LENGTH=64'],
    'scopesp': ['-std=c++20', '-DIPADDRESS_SCOPE_ID_SUPPORT_SPACES'],
    'namesp': ['-std=c++20', '-DIPADDRESS_NAMESPACE=other_ns'],
    'assert20': ['-std=c++20'],
    'noover11': ['-std=c++11', '-DIPADDRESS_NO_OVERLOAD_STD'],
    'utf8char11': ['-std=c++11', '-DIPADDRESS_CHAR_IS_UTF8'],
    'scope4_11': ['-std=c++11', '-DIPADDRESS_IPV6_SCOPE_MAX_LENGTH=4'],
    'scope64_17': ['-std=c++17', '-DIPADDRESS_IPV6_SCOPE_MAX_LENGTH=64'],
    'scopesp11': ['-std=c++11', '-DIPADDRESS_SCOPE_ID_SUPPORT_SPACES'],
    'namesp11': ['-std=c++11', '-DIPADDRESS_NAMESPACE=other_ns'],
    # the constant-evaluation branches of the library, where it asks
    'ct14': ['-std=c++14'] + CT,
    'ct17': ['-std=c++17'] + CT,
    'ct20': ['-std=c++20'] + CT,
    'ctnoexc17': ['-std=c++17', '-DIPADDRESS_NO_EXCEPTIONS', '-fno-exceptions'] + CT,
    'ctnoexc20': ['-std=c++20', '-DIPADDRESS_NO_EXCEPTIONS', '-fno-exceptions'] + CT,
    # a program that imports the module
    'module20': ['-std=c++20', '@module'],
    'module23': ['-std=c++23', '@module'],
    'modnoexc20': ['-std=c++20', '-DIPADDRESS_NO_EXCEPTIONS', '-fno-exceptions', '@module'],
    'modscope0': ['-std=c++20', '-DIPADDRESS_IPV6_SCOPE_MAX_LENGTH=0', '@module'],
    # the stream operators, against a model of the standard streams
    'strm11': ['-std=c++11'] + STREAM,
    'strm14': ['-std=c++14'] + STREAM,
    'strm17': ['-std=c++17'] + STREAM,
    'strm20': ['-std=c++20'] + STREAM,
    'strm23': ['-std=c++23'] + STREAM,
    'strmnoexc': ['-std=c++20', '-DIPADDRESS_NO_EXCEPTIONS', '-fno-exceptions'] + STREAM,
    'strmutf8': ['-std=c++20', '-DIPADDRESS_CHAR_IS_UTF8'] + STREAM,
    'nodisc': ['-std=c++17', '-DIPADDRESS_NO_NODISCARD'],
    'mixed': ['-std=c++20', '-DIPADDRESS_NO_EXCEPTIONS', '-DIPADDRESS_NO_OVERLOAD_STD', '-DIPADDRESS_NO_IPV6_SCOPE', '-DIPADDRESS_NO_SPACESHIP_OPERATOR', '-fno-exceptions'],
    # big-endian target: the header paths are the host's, only the data layout
    # and __BYTE_ORDER__ differ
    'be20': ['-std=c++20', '--target=powerpc64-linux-gnu'],
    'bez20': ['-std=c++20', '--target=s390x-linux-gnu'],
    'be11': ['-std=c++11', '--target=powerpc64-linux-gnu'],
}


class BuildError(Exception):
    pass


def _hash(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b'\0')
    return h.hexdigest()[:20]


def read(p):
    with open(p, 'rb') as f:
        return f.read()


def repo_hash():
    parts = []
    for p in sorted(glob.glob(REPO + '/include/ipaddress/*') + glob.glob(REPO + '/src/*')):
        parts += [os.path.basename(p), read(p)]
    return _hash(*parts)


def lib():
    os.makedirs(BUILD, exist_ok=True)
    src = [os.path.join(VERIF, 'engine', f) for f in ('algebra.h', 'interp.cpp')]
    h = _hash(*[read(s) for s in src])
    out = os.path.join(BUILD, 'libbitflow-%s.so' % h)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(out):
            tmp = out + '.tmp'
            r = subprocess.run([CLANG, '-O2', '-std=c++17', '-fPIC', '-shared', '-w', '-I/usr/lib/llvm-18/include',
                                '-o', tmp, src[1], '-L/usr/lib/llvm-18/lib', '-lLLVM-18'],
                               capture_output=True, text=True)
            if r.returncode:
                raise BuildError('analyser does not build: ' + r.stderr[-3000:])
            os.rename(tmp, out)
    return out


def be_flags():
    """system include directories of the host, needed when lowering for another target"""
    r = subprocess.run([CLANG, '-std=c++20', '-E', '-x', 'c++', '-v', '/dev/null'], capture_output=True, text=True)
    inc, on = [], False
    for l in r.stderr.splitlines():
        if l.startswith('#include <...>'):
            on = True
        elif l.startswith('End of search'):
            on = False
        elif on:
            inc += ['-isystem', l.strip().split(' ')[0]]
    return ['-nostdinc', '-nostdinc++', '-isystem', os.path.join(VERIF, 'wrappers', 'shim')] + inc


def module(flags):
    """(interface, bitcode of the module's own object), or BuildError"""
    src = sorted(glob.glob(REPO + '/src/*.ixx'))
    if not src:
        raise BuildError('there is no module interface unit under %s/src' % REPO)
    flags = [f for f in flags if f != '@module'] + ['-w', '-D_GLIBCXX_EXTERN_TEMPLATE=-1', '-I' + REPO + '/include']
    out = os.path.join(BUILD, 'module-%s' % _hash(repo_hash(), *flags))
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock.' + os.path.basename(out)), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(out + '.bc'):
            r = subprocess.run([CLANG] + flags + ['-x', 'c++-module', '--precompile', src[0], '-o', out + '.pcm'], capture_output=True, text=True)
            if not r.returncode:
                r = subprocess.run([CLANG] + [f for f in flags if not f.startswith('-I')] + ['-O1', '-Xclang', '-disable-llvm-passes', '-gline-tables-only', '-emit-llvm', '-c', out + '.pcm', '-o', out + '.tmp'],
                                   capture_output=True, text=True)
            if r.returncode:
                raise BuildError('the module interface does not compile: ' + r.stderr[:3000])
            os.rename(out + '.tmp', out + '.bc')
    return out + '.pcm', out + '.bc'


def lower(unit, config, extra=()):
    """wrapper file -> bitcode path"""
    src = os.path.join(VERIF, 'wrappers', unit + '.cpp')
    flags = BASE + CONFIGS[config] + list(extra)
    if any(f.startswith('--target') for f in flags):
        flags = flags + be_flags()
    deps = [read(src)] + [read(p) for p in sorted(glob.glob(os.path.join(VERIF, 'wrappers', '*.h')) + glob.glob(os.path.join(VERIF, 'wrappers', 'shims', '*')))]
    h = _hash(repo_hash(), *deps, *flags)
    out = os.path.join(BUILD, '%s-%s-%s.bc' % (unit, config, h))
    if os.path.exists(out):
        return out
    tmp = '%s.%d' % (out, os.getpid())
    own = None
    if '@module' in flags:
        pcm, own = module(CONFIGS[config])
        flags = [f for f in flags if f != '@module'] + ['-D_GLIBCXX_EXTERN_TEMPLATE=-1', '-DBF_MODULE_UNDER_ANALYSIS', '-fmodule-file=ipaddress=' + pcm]
    r = subprocess.run([CLANG] + flags + ['-I' + REPO + '/include', '-o', tmp + '.0', src], capture_output=True, text=True)
    if r.returncode:
        raise BuildError('%s does not compile in configuration %s:\n%s' % (unit, config, r.stderr[:4000]))
    if own:
        r = subprocess.run(['llvm-link-18', tmp + '.0', own, '-o', tmp + '.1'], capture_output=True, text=True)
        if r.returncode:
            raise BuildError(r.stderr[:2000])
        os.rename(tmp + '.1', tmp + '.0')
    r = subprocess.run([OPT, '-passes=sroa', tmp + '.0', '-o', tmp], capture_output=True, text=True)
    if r.returncode:
        raise BuildError(r.stderr[:2000])
    os.remove(tmp + '.0')
    os.rename(tmp, out)
    return out


def lower_all(pairs):
    os.makedirs(BUILD, exist_ok=True)
    with ThreadPoolExecutor(8) as ex:
        def one(p):
            try:
                return lower(*p)
            except BuildError as e:
                return e
        return dict(zip(pairs, ex.map(one, pairs)))


def prune(keep=60):
    """bounded cache"""
    fs = sorted(glob.glob(os.path.join(BUILD, '*.bc')), key=os.path.getmtime, reverse=True)
    for f in fs[400:]:
        try:
            os.remove(f)
        except OSError:
            pass
