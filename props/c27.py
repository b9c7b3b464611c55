import importlib, os, subprocess
from concurrent.futures import ThreadPoolExecutor
from bitflow import build as B
from props import c22
LEVEL = 'other'
TECHNIQUE = 'abstract interpretation of LLVM IR of the same operations under each configuration switch against the same oracles; type-checking of the whole interface under every switch and language level'
NOTE = ('"Unchanged" is decided by showing that each operation meets the same oracle (the one its own property uses) under the switch as without it, on a sample of the cells of C06-C08, C10-C14, C16, C17, C19, C20, C23 '
        'that do not involve what the switch documents; the sample is not a complete partition. Compilation is decided completely for the listed switch and language-level pairs with the two compilers installed.')
RULE = 'Obligations: (switch, language level, compiler) type-checks with every member instantiated; (operation, argument class, switch) gives the oracle value; scope length zero: every scope suffix rejected, none stored.'
ASSUME = ['operator new does not fail']
SWITCH = ['noover', 'noover11', 'utf8char', 'utf8char11', 'scope4_11', 'scope64_17', 'scopesp', 'scopesp11', 'namesp', 'namesp11', 'nodisc', 'nospace', 'noexc11', 'noexc20', 'noexc20rt', 'scope0', 'scope0_11', 'mixed']
OLD = ('noover11', 'utf8char11', 'scope4_11', 'scope64_17', 'scopesp11', 'namesp11', 'nodisc', 'noexc11', 'scope0_11')
MODS = ['c06', 'c07', 'c08', 'c10', 'c11', 'c12', 'c13', 'c14', 'c16', 'c17', 'c19', 'c20', 'c23']


def _make(mod, name):
    def make(ctx, *p):
        return getattr(importlib.import_module('props.' + mod), name)(ctx, *p)
    return make


def flat(x):
    if isinstance(x, (tuple, list, frozenset, set)):
        for y in x:
            yield from flat(y)
    else:
        yield x


def fits(mod, c, cfg):
    """does the cell stay clear of what the switch documents?"""
    vals = list(flat(c.params))
    scoped = 37 in vals or '%' in vals or any(isinstance(v, str) and '%' in v for v in vals)
    if 'scope' in cfg or cfg == 'mixed':
        if c.make == 'createx':
            return False  # its bound on the text length is the one of the default scope length
        if scoped or 'scope' in str(c.group) or mod in ('c12', 'c13', 'c19', 'c20', 'c17') and cfg in ('scope0', 'scope0_11', 'mixed', 'scope4_11'):
            return False
    if cfg.startswith('utf8char') and mod in ('c06', 'c07', 'c08') and any(isinstance(v, str) and ('#' in v or '*' in v) for v in vals):
        return False
    if 'noexc' in cfg or cfg == 'mixed':
        if c.make in ('createx', 'superx', 'suberrx') or c.make == 'reject' and c.params[-1] == 1 or mod in ('c06', 'c08') and any(v in (2, 3) for v in c.params[1:3]):
            return False
    if cfg.startswith('noover') or cfg == 'mixed':
        if mod == 'c13' or c.unit == 'conv' or mod == 'c10' and len(c.params) > 1:
            return False
    if cfg in ('nospace', 'mixed') and mod in ('c12', 'c23') and 6 in vals:
        return False
    return True


def cells(tier):
    per = 40 if tier == 'quick' else 400
    for mod in MODS:
        m = importlib.import_module('props.' + mod)
        new = [c for c in m.cells('quick') if c.config == 'cpp20']
        old = [c for c in m.cells('quick') if c.config == 'cpp11']
        for si, cfg in enumerate(SWITCH):
            src = [c for c in (old if cfg in OLD else new) if fits(mod, c, cfg)]
            step = max(1, len(src) // per)
            for c in src[si % step::step]:
                name = '%s_%s' % (mod, c.make)
                globals().setdefault(name, _make(mod, c.make))
                opts = dict(c.opts) if hasattr(c, 'opts') else {}
                yield type(c)(c.unit, cfg, name, c.params, group='%s under a switch' % mod.upper(), **opts)
    for c in c22.cells(tier):
        if c.config.startswith('scope0'):
            name = 'c22_' + c.make
            globals().setdefault(name, _make('c22', c.make))
            c.make, c.group = name, 'scope length zero'
            yield c


LEVELS = ['11', '14', '17', '20', '23']
SWITCHES = {
    'default': [],
    'no exceptions': ['-DIPADDRESS_NO_EXCEPTIONS', '-fno-exceptions'],
    'no exceptions (library only)': ['-DIPADDRESS_NO_EXCEPTIONS'],
    'no std overloads': ['-DIPADDRESS_NO_OVERLOAD_STD'],
    'plain char is UTF-8': ['-DIPADDRESS_CHAR_IS_UTF8'],
    'scope length 0': ['-DIPADDRESS_IPV6_SCOPE_MAX_LENGTH=0'],
    'scope length 1': ['-DIPADDRESS_IPV6_SCOPE_MAX_LENGTH=1'],
    'scope length 255': ['-DIPADDRESS_IPV6_SCOPE_MAX_LENGTH=255'],
    'no scope': ['-DIPADDRESS_NO_IPV6_SCOPE'],
    'scope with spaces': ['-DIPADDRESS_SCOPE_ID_SUPPORT_SPACES'],
    'namespace': ['-DIPADDRESS_NAMESPACE=other_ns'],
    'no nodiscard': ['-DIPADDRESS_NO_NODISCARD'],
    'no spaceship': ['-DIPADDRESS_NO_SPACESHIP_OPERATOR'],
    'no exceptions, no scope': ['-DIPADDRESS_NO_EXCEPTIONS', '-fno-exceptions', '-DIPADDRESS_NO_IPV6_SCOPE'],
    'UTF-8, no std overloads, namespace': ['-DIPADDRESS_CHAR_IS_UTF8', '-DIPADDRESS_NO_OVERLOAD_STD', '-DIPADDRESS_NAMESPACE=n2'],
}


def typecheck(q):
    cxx, level, switch = q
    src = os.path.join(B.VERIF, 'wrappers', 'all.cpp')
    r = subprocess.run([cxx, '-std=c++' + level, '-fsyntax-only', '-w', '-I' + B.REPO + '/include'] + SWITCHES[switch] + [src], capture_output=True, text=True)
    return q, r.returncode, next((l for l in r.stderr.splitlines() if 'error' in l), r.stderr[:200])


def structural(tier, verbose):
    qs = [('clang++-18', l, s) for l in LEVELS for s in SWITCHES]
    qs += [('g++', l, s) for l in (LEVELS if tier != 'quick' else ['11', '20']) for s in SWITCHES]
    bad, n = [], 0
    with ThreadPoolExecutor(8) as ex:
        for q, rc, err in ex.map(typecheck, qs):
            if rc:
                bad.append(dict(cell='compile/%s/c++%s/%s' % q, info='the interface does not compile with %s, C++%s, switch "%s": %s' % (q + (err[:300],)), witness={}))
            else:
                n += 1
    return bad, dict(obligations=len(qs), discharged=n, type_checked='%d of %d (compiler, language level, switch) combinations with every member of every class template instantiated' % (n, len(qs)))
