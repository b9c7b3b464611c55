import collections, fcntl, importlib, os, re, subprocess
from concurrent.futures import ThreadPoolExecutor
from bitflow import build as B
from props import c26, c27
LEVEL = 'other'
TECHNIQUE = 'syntax-tree comparison of the module with the headers (exported declarations), type-checking of importing programs, and abstract interpretation of programs lowered through the module interface'
NOTE = ('Completeness of the exports is decided for the listed public names (every overload the headers declare), per language level and switch; "the same behaviour" is decided by the cells of the other properties, '
        'lowered from programs that import the module and linked with its object, which are a sample of the argument classes. Clang 18 is the only compiler here whose module support builds the interface.')
RULE = ('Obligations: (public declaration in the headers, level, switch) is declared and exported by the module with the same type; (importing program, level, switch) type-checks; (invalid literal, importing program) is rejected; '
        '(operation, argument class) of a program importing the module gives the oracle value.')
ASSUME = ['only clang 18 builds the module here (g++ 13 rejects importing programs that instantiate it)']
MODS = ['c01', 'c02', 'c03', 'c04', 'c06', 'c07', 'c08', 'c09', 'c10', 'c11', 'c12', 'c13', 'c14', 'c16', 'c17', 'c18', 'c19', 'c20', 'c22', 'c23']
OPTS = {'modnoexc20': 'noexc20', 'modscope0': 'scope0'}


def cells(tier):
    per = 60 if tier == 'quick' else 600
    for mod in MODS:
        m = importlib.import_module('props.' + mod)
        src = [c for c in m.cells('quick') if c.config == 'cpp20']
        for si, cfg in enumerate(['module20', 'module23', 'modnoexc20', 'modscope0']):
            use = src
            if cfg in OPTS:
                use = [c for c in src if mod in c27.MODS and c27.fits(mod, c, OPTS[cfg])]
            step = max(1, len(use) // (per if cfg == 'module20' else per // 3))
            for c in use[si % step::step]:
                name = '%s_%s' % (mod, c.make)
                globals().setdefault(name, c27._make(mod, c.make))
                yield type(c)(c.unit, cfg, name, c.params, group='%s through the module' % mod.upper(), **dict(c.opts))


# the public names of the headers (std:: ones written in full)
PUBLIC = set('''
base_v4 base_v6 byte_array compact compressed error error_code exclude_network_sequence fixed_string format full hosts_any_sequence hosts_sequence ip_address ip_address_base ip_address_iterator
ip_any_iterator ip_exclude_network_iterator ip_network ip_network_base ip_network_iterator ip_reverse_iterator ip_version ipv4_address ipv4_address_base ipv4_network ipv4_network_base ipv6_address
ipv6_address_base ipv6_network ipv6_network_base is_little_endian logic_error make_fixed_string non_strict operator!= operator""_ip operator""_ipv4 operator""_ipv4_net operator""_ipv6
operator""_ipv6_net operator""_net operator% operator& operator* operator+ operator- operator/ operator<=> operator== operator^ operator| optional parse_error raise_error scope strict
subnets_any_sequence subnets_sequence swap_bytes uint128_t std::abs std::operator<< std::operator>> std::swap std::to_string std::to_wstring
'''.split())
LEVELS = ['20', '23']
SWITCHES = {k: v for k, v in c27.SWITCHES.items()}
UNITS = ['ct', 'all', 'net', 'cmp', 'conv', 'cls', 'u128', 'seq', 'iter', 'parse', 'fmt', 'any', 'scope', 'safe', 'ops', 'codes']
WITH = {'no exceptions': 'noexc', 'no exceptions (library only)': 'noexc'}


def tool():
    os.makedirs(B.BUILD, exist_ok=True)
    src = os.path.join(B.VERIF, 'engine', 'exports.cpp')
    out = os.path.join(B.BUILD, 'exports-%s' % B._hash(B.read(src)))
    with open(os.path.join(B.BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(out):
            r = subprocess.run([B.CLANG, '-O0', '-std=c++17', '-w', '-fno-rtti', '-I/usr/lib/llvm-18/include', '-o', out + '.tmp', src,
                                '-L/usr/lib/llvm-18/lib', '-l:libclang-cpp.so.18.1', '-lLLVM-18'], capture_output=True, text=True)
            if r.returncode:
                raise B.BuildError('the declaration lister does not build: ' + r.stderr[-2000:])
            os.rename(out + '.tmp', out)
    return out


def listing(q):
    level, switch, module = q
    res = subprocess.run([B.CLANG, '-print-resource-dir'], capture_output=True, text=True).stdout.strip()
    src = os.path.join(B.REPO, 'src', 'ipaddress.ixx') if module else os.path.join(B.VERIF, 'wrappers', 'headers.cpp')
    r = subprocess.run([tool(), B.REPO + '/include/', src, '-std=c++' + level, '-w', '-I' + B.REPO + '/include', '-resource-dir', res] + SWITCHES[switch] + ['-x', 'c++-module' if module else 'c++'],
                       capture_output=True, text=True)
    if r.returncode:
        return None, r.stderr[:400]
    out = []
    for l in r.stdout.splitlines():
        name, sig, exported, fwd, at, local = l.split('\t')
        ns = name.split('::')[0]
        short = name if ns == 'std' else name.split('::', 1)[-1]
        if short in PUBLIC and '::internal::' not in name:
            out.append((short, sig, exported == '1', fwd == '1', at))
    return out, ''


def consumer(q):
    level, switch, unit = q
    try:
        pcm, _ = B.module(['-std=c++' + level] + SWITCHES[switch])
    except B.BuildError as e:
        return q, 2, str(e)[:400]
    src = os.path.join(B.VERIF, 'wrappers', unit + '.cpp')
    r = subprocess.run([B.CLANG, '-std=c++' + level, '-fsyntax-only', '-w', '-D_GLIBCXX_EXTERN_TEMPLATE=-1', '-DBF_MODULE_UNDER_ANALYSIS', '-fmodule-file=ipaddress=' + pcm] + SWITCHES[switch] + [src], capture_output=True, text=True)
    return q, r.returncode, next((l for l in r.stderr.splitlines() if 'error' in l), r.stderr[:200])


def invalid(q):
    """invalid initializers in an importing program: those accepted, and valid twins rejected"""
    level, switch = q
    pcm, _ = B.module(['-std=c++' + level] + SWITCHES[switch])
    prog = c26.program(int(level), switch)
    bad = []

    def run(lines):
        src = '#include <string_view>\n#include <cstdint>\nimport ipaddress;\nusing namespace ipaddress;\n' + ''.join(l.replace('@', 'v%d' % k) + '\n' for k, l in enumerate(lines))
        r = subprocess.run([B.CLANG, '-std=c++' + level, '-fsyntax-only', '-w', '-ferror-limit=0', '-D_GLIBCXX_EXTERN_TEMPLATE=-1', '-fmodule-file=ipaddress=' + pcm] + SWITCHES[switch] + ['-x', 'c++', '-'], input=src, capture_output=True, text=True)
        return r.returncode, set(int(m.group(1)) - 5 for m in re.finditer(r'<stdin>:(\d+):', r.stderr))
    rc, hit = run([b for b, g in prog])
    for k, (b, g) in enumerate(prog):
        if not (rc and k in hit) and run([b])[0] == 0:
            bad.append('accepts the invalid program: ' + b.replace('@', 'v'))
    rc, hit = run([g for b, g in prog])
    if rc:
        for k, (b, g) in enumerate(prog):
            if run([g])[0]:
                bad.append('rejects the valid program: ' + g.replace('@', 'v'))
                if len(bad) > 5:
                    break
    return q, 2 * len(prog), bad


def structural(tier, verbose):
    bad, n, total = [], 0, 0
    quick = tier == 'quick'
    combos = [(l, s) for l in LEVELS for s in SWITCHES]
    decls = 0
    tool()
    with ThreadPoolExecutor(8) as ex:
        built = {}

        def mk(c):
            try:
                B.module(['-std=c++' + c[0]] + SWITCHES[c[1]])
                return c, ''
            except B.BuildError as e:
                return c, str(e)[:400]
        for c, err in ex.map(mk, combos):
            total += 1
            built[c] = not err
            if err:
                bad.append(dict(cell='module/c++%s/%s' % c, info='C++%s, switch "%s": %s' % (c + (err,)), witness={}))
            else:
                n += 1
        combos = [c for c in combos if built[c]]
        hs = ex.map(listing, [c + (False,) for c in combos])
        ms = ex.map(listing, [c + (True,) for c in combos])
        cons = [(l, s, u) for l, s in combos for u in UNITS if u in ('ct', 'all') or s == 'default']
        cs = ex.map(consumer, cons)
        iv = ex.map(invalid, [c for c in combos if c[1] in ('default', 'no exceptions') and (c[0] == '20' or not quick)])
        seen = set()
        for c, (h, he), (m, me) in zip(combos, hs, ms):
            if h is None or m is None:
                raise B.BuildError('declarations of C++%s, switch "%s" cannot be listed: %s' % (c + (he or me,)))
            exported = collections.Counter((s, t) for s, t, e, f, at in m if e)
            for (s, t), k in collections.Counter((s, t) for s, t, e, f, at in h if not f).items():
                total += 1
                decls += 1
                if exported[s, t] >= k:
                    n += 1
                    continue
                if (s, t) in seen:
                    continue
                seen.add((s, t))
                at = next(a for x, y, e, f, a in h if (x, y) == (s, t))
                bad.append(dict(cell='export/c++%s/%s/%s' % (c + (s,)), info='%s: "%s" (%s) is declared by the headers but not exported by the module (C++%s, switch "%s")' % ((at, s, t) + c), witness={}))
        for q, rc, err in cs:
            total += 1
            if rc:
                bad.append(dict(cell='import/c++%s/%s/%s' % q, info='a program that imports the module does not type-check: C++%s, switch "%s", wrappers/%s.cpp: %s' % (q + (err[:300],)), witness={}))
            else:
                n += 1
        for q, k, msgs in iv:
            total += k
            n += k - len(msgs)
            for t in msgs[:5]:
                bad.append(dict(cell='reject/c++%s/%s' % q, info='C++%s, switch "%s", through the module: %s' % (q + (t,)), witness={}))
    return bad, dict(obligations=total, discharged=n, public_names=len(PUBLIC), declarations_compared=decls, importing_programs=len(cons), module_builds=len(built))
