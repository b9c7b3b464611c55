import importlib, os, re, subprocess
from concurrent.futures import ThreadPoolExecutor
from bitflow import build as B
from bitflow import engine as E
from props import c27
LEVEL = 'other'
TECHNIQUE = 'type-level witnesses decided by the compilers (constant expressions that must be accepted with the stated value, and invalid programs that must be rejected), and abstract interpretation of the branches taken in constant evaluation'
NOTE = ('Acceptance, values and rejection are decided for the listed witnesses (compilers, language levels and switches listed in the evidence); every public operation documented as usable in constant expressions '
        'occurs in one. That constant evaluation gives the run-time results beyond the witnesses follows from the borrowed cells, which interpret the library with the question "is this a constant evaluation?" answered '
        'yes and are compared with the same oracles as at run time; those cells are a sample of the argument classes.')
RULE = 'Obligations: (compiler, language level, switch) accepts every witness; (compiler, language level, switch, invalid initializer) is rejected and its valid twin accepted; (operation, argument class) interpreted as in a constant evaluation gives the oracle value.'
ASSUME = ['clang 18 and g++ 13 decide constant expressions as the standard defines them']
MODS = ['c01', 'c02', 'c03', 'c04', 'c06', 'c07', 'c10', 'c11', 'c12', 'c13', 'c14', 'c16', 'c17', 'c18', 'c19', 'c20', 'c22', 'c23']
CT = ['ct14', 'ct17', 'ct20', 'ctnoexc17', 'ctnoexc20']


def cells(tier):
    per = 30 if tier == 'quick' else 300
    for mod in MODS:
        m = importlib.import_module('props.' + mod)
        base = {k: [c for c in m.cells('quick') if c.config == k] for k in ('cpp11', 'cpp17', 'cpp20')}
        for si, cfg in enumerate(CT):
            src = base['cpp20'] if '20' in cfg else (base['cpp11'] if cfg == 'ct14' else base['cpp17']) or base['cpp11']
            if 'noexc' in cfg:
                src = [c for c in src if c27.fits(mod, c, 'noexc17')] if mod in c27.MODS else []
            step = max(1, len(src) // per)
            for c in src[si % step::step]:
                name = '%s_%s' % (mod, c.make)
                globals().setdefault(name, c27._make(mod, c.make))
                yield type(c)(c.unit, cfg, name, c.params, group='%s as in a constant evaluation' % mod.upper(), **dict(c.opts))


# ---- witnesses ----
INC = ['-w', '-fsyntax-only']
LEVELS = ['11', '14', '17', '20', '23']
SWITCHES = {
    'default': [],
    'no exceptions': ['-DIPADDRESS_NO_EXCEPTIONS', '-fno-exceptions'],
    'no exceptions (library only)': ['-DIPADDRESS_NO_EXCEPTIONS'],
    'scope length 0': ['-DIPADDRESS_IPV6_SCOPE_MAX_LENGTH=0'],
    'scope length 4': ['-DIPADDRESS_IPV6_SCOPE_MAX_LENGTH=4'],
    'plain char is UTF-8': ['-DIPADDRESS_CHAR_IS_UTF8'],
    'no std overloads': ['-DIPADDRESS_NO_OVERLOAD_STD'],
    'no spaceship': ['-DIPADDRESS_NO_SPACESHIP_OPERATOR'],
    'namespace': ['-DIPADDRESS_NAMESPACE=other_ns'],
}
V4_BAD = ['', '1', '1.2.3', '1.2.3.4.5', '256.0.0.1', '1.2.3.300', '01.2.3.4', '1.2.3.00', '1..2.3', '.1.2.3', '1.2.3.', '1.2.3.4/8', '1.2.3.4 ', ' 1.2.3.4', '1.2.3.a', '1.2.3.-4', '1.2.3.0004',
          '::1', '1,2,3,4', '1.2.3.4%1', '0x1.2.3.4', '1.2.3.4.']
V6_BAD = ['', ':', ':::', '1', '1:2', '1:2:3:4:5:6:7', '1:2:3:4:5:6:7:8:9', '1::2::3', '1::g', '12345::', '::12345', ':1:2:3:4:5:6:7', '1:2:3:4:5:6:7:', '1:2:3:4:5:6:7:8::', '::1/64', '::1%', '::1.2.3', '::1.2.3.256',
          '::1.2.3.4.5', '::1%a%b', '1:2:3:4:5:6:7:1.2.3.4', '::1 ', '1.2.3.4', '::%01234567890123456']
N4_BAD = ['', '/', '/8', '1.2.3.4/', '1.2.3.4/33', '1.2.3.4/8', '1.2.3.0/24/24', '1.2.3.0/255.0.255.0', '1.2.3.0/a', '10.0.0.0/-1', '10.0.0.0/8 ', '10.0.0/8', '10.0.0.1/255.0.0.0', '300.0.0.0/8', '1.2.3.4/31x', '::/8']
N6_BAD = ['', '/', '/8', '::/', '::/129', '::1/64', '::/64/64', '1::/0x10', '::/-1', '1:2:3:4:5:6:7:8/127x', 'g::/8', '10.0.0.0/8', '::/ffff::', '1::8000/112']
SETS = [('ipv4_address', 'ipv4', V4_BAD, '1.2.3.4'), ('ipv6_address', 'ipv6', V6_BAD, '1::2'), ('ip_address', 'ip', sorted((set(V4_BAD) | set(V6_BAD)) - {'::1', '1.2.3.4'}), '1.2.3.4'),
        ('ipv4_network', 'ipv4_net', N4_BAD, '10.0.0.0/8'), ('ipv6_network', 'ipv6_net', N6_BAD, '1::/16'), ('ip_network', 'net', sorted((set(N4_BAD) | set(N6_BAD)) - {'::/8', '10.0.0.0/8'}), '1::/16')]
OTHER = [  # (level from, bad, good)
    (14, 'auto @ = ipv4_network::from_address(ipv4_address::from_uint(1), 8);', 'auto @ = ipv4_network::from_address(ipv4_address::from_uint(1), 8, false);'),
    (14, 'auto @ = ipv6_network::from_address(ipv6_address::from_uint(uint128_t(1)), 64);', 'auto @ = ipv6_network::from_address(ipv6_address::from_uint(uint128_t(1)), 128);'),
    (14, 'auto @ = ipv4_network::parse("1.2.3.0/24").supernet(25);', 'auto @ = ipv4_network::parse("1.2.3.0/24").supernet(24);'),
    (14, 'auto @ = ipv6_network::parse("1::/64").supernet(65);', 'auto @ = ipv6_network::parse("1::/64").supernet(64);'),
    (14, 'auto @ = ipv4_network::parse("1.2.3.0/24").subnets(9);', 'auto @ = ipv4_network::parse("1.2.3.0/24").subnets(8);'),
    (14, 'auto @ = ipv6_network::parse("1::/64").subnets(65);', 'auto @ = ipv6_network::parse("1::/64").subnets(64);'),
    (14, 'auto @ = ipv4_network::parse("1.2.3.0/24").address_exclude(ipv4_network::parse("1.2.4.0/25"));', 'auto @ = ipv4_network::parse("1.2.3.0/24").address_exclude(ipv4_network::parse("1.2.3.0/25"));'),
    (14, 'auto @ = ipv6_network::parse("1::/64").address_exclude(ipv6_network::parse("2::/65"));', 'auto @ = ipv6_network::parse("1::/64").address_exclude(ipv6_network::parse("1::/65"));'),
]
OTHER20 = [  # immediate functions: rejected outside constant expressions too
    (20, 'auto @ = ipv4_address::parse<"256.0.0.1">();', 'auto @ = ipv4_address::parse<"255.0.0.1">();'),
    (20, 'auto @ = ipv6_address::parse<"1::2::3">();', 'auto @ = ipv6_address::parse<"1::2:3">();'),
    (20, 'auto @ = ip_address::parse<"1.2.3">();', 'auto @ = ip_address::parse<"1.2.3.4">();'),
    (20, 'auto @ = ipv4_network::parse<"1.2.3.4/8">();', 'auto @ = ipv4_network::parse<"1.0.0.0/8">();'),
    (20, 'auto @ = ipv6_network::parse<"1::/129">();', 'auto @ = ipv6_network::parse<"1::/128">();'),
    (20, 'auto @ = ip_network::parse<"1::/12">();', 'auto @ = ip_network::parse<"1::/16">();'),
]
SCOPE = [  # without exceptions an invalid scope id leaves the address as it is
    (14, 'constexpr ipv6_address f@() { ipv6_address a; a.set_scope_id("a%b"); return a; } constexpr auto @ = f@();', 'constexpr ipv6_address f@() { ipv6_address a; a.set_scope_id("a"); return a; } constexpr auto @ = f@();')]


def program(level, switch):
    """(bad, good) declarations; @ is the name"""
    q = []
    for typ, lit, bad, good in SETS:
        for k, t in enumerate(bad):
            pre = ['', 'L', 'u', 'U'][k % 4]
            q.append(('constexpr auto @ = %s::parse(%s"%s");' % (typ, pre, t), 'constexpr auto @ = %s::parse(%s"%s");' % (typ, pre, good)))
            q.append(('constexpr auto @ = %s"%s"_%s;' % (pre, t, lit), 'constexpr auto @ = %s"%s"_%s;' % (pre, good, lit)))
            if level >= 20 and k % 5 == 0:  # an immediate function in an ordinary initializer
                q.append(('auto @ = %s"%s"_%s;' % (pre, t, lit), 'auto @ = %s"%s"_%s;' % (pre, good, lit)))
            if level >= 17 and k % 6 == 1:
                q.append(('constexpr auto @ = %s::parse(std::string_view("%s"));' % (typ, t), 'constexpr auto @ = %s::parse(std::string_view("%s"));' % (typ, good)))
    q += [('constexpr ' + b, 'constexpr ' + g) for l, b, g in OTHER if l <= level]
    q += [(p + b, p + g) for p in ('', 'constexpr ') for l, b, g in OTHER20 if l <= level]
    q += [(b, g) for l, b, g in SCOPE if l <= level and 'no exceptions' not in switch]
    return q


def check(q):
    """one combination: which declarations are rejected"""
    cxx, level, switch, lines = q
    src = '#include <ipaddress/ipaddress.hpp>\n#include <string_view>\nusing namespace %s;\n' % ('other_ns' if switch == 'namespace' else 'ipaddress')
    src += ''.join(l.replace('@', 'v%d' % k) + '\n' for k, l in enumerate(lines))
    limit = ['-ferror-limit=0'] if 'clang' in cxx else ['-fmax-errors=0']
    r = subprocess.run([cxx, '-std=c++' + level] + INC + limit + ['-I' + B.REPO + '/include'] + SWITCHES[switch] + ['-x', 'c++', '-'], input=src, capture_output=True, text=True)
    hit = set(int(m.group(1)) - 4 for m in re.finditer(r'<stdin>:(\d+):', r.stderr))
    return hit & set(range(len(lines))), r.returncode


def single(q):
    cxx, level, switch, line = q
    return check((cxx, level, switch, [line]))[1] != 0


def accept(q):
    cxx, level, switch = q
    src = os.path.join(B.VERIF, 'wrappers', 'ct.cpp')
    r = subprocess.run([cxx, '-std=c++' + level] + INC + ['-I' + B.REPO + '/include'] + SWITCHES[switch] + [src], capture_output=True, text=True)
    errs = [l for l in r.stderr.splitlines() if 'error' in l]
    return q, r.returncode, [re.sub(r'^.*?wrappers/', '', e)[:300] for e in errs[:3]] or [r.stderr[:200]]


def structural(tier, verbose):
    bad, n, total = [], 0, 0
    quick = tier == 'quick'
    acc = [(c, l, s) for c in ('clang++-18', 'g++') for l in LEVELS for s in SWITCHES if not quick or s in ('default', 'no exceptions') or l in ('14', '20')]
    rej = [(c, l, s) for c in ('clang++-18', 'g++') for l in ('14', '17', '20', '23') for s in ('default', 'no exceptions', 'no exceptions (library only)', 'namespace', 'plain char is UTF-8')
           if not quick or s in ('default', 'no exceptions') or l in ('14', '20') and s != 'namespace']
    ctn = sum(1 for l in B.read(os.path.join(B.VERIF, 'wrappers', 'ct.cpp')).decode().splitlines() if l.startswith('CT(') or 'TYPE(' in l or 'CODE(' in l)
    with ThreadPoolExecutor(8) as ex:
        a = ex.map(accept, acc)
        jobs = []
        for c, l, s in rej:
            prog = program(int(l), s)
            jobs.append(((c, l, s, [b for b, g in prog]), (c, l, s, [g for b, g in prog])))
        fb = ex.map(check, [b for b, g in jobs])
        fg = ex.map(check, [g for b, g in jobs])
        for q, rc, errs in a:
            total += 1
            if rc:
                bad.append(dict(cell='accept/%s/c++%s/%s' % q, info='a compile-time witness is not accepted by %s, C++%s, switch "%s": %s' % (q + (' | '.join(errs),)), witness={}))
            else:
                n += 1
        for (b, g), (hit, rc), (ghit, grc) in zip(jobs, fb, fg):
            c, l, s, lines = b
            total += 2 * len(lines)
            for k, line in enumerate(lines):
                if k in hit and rc or single((c, l, s, line)):
                    n += 1
                else:
                    bad.append(dict(cell='reject/%s/c++%s/%s/%d' % (c, l, s, k), info='%s, C++%s, switch "%s" accepts the invalid program: %s' % (c, l, s, line.replace('@', 'v')), witness={}))
            for k, line in enumerate(g[3]):
                if grc == 0 or not single((c, l, s, line)):
                    n += 1
                else:
                    bad.append(dict(cell='twin/%s/c++%s/%s/%d' % (c, l, s, k), info='%s, C++%s, switch "%s" rejects the valid program: %s' % (c, l, s, line.replace('@', 'v')), witness={}))
            if len(bad) > 20:
                break
    return bad, dict(obligations=total, discharged=n, accepted='%d combinations of compiler, language level and switch with %d witnesses each' % (len(acc), ctn),
                     rejected='%d combinations with up to %d invalid initializers each, every one with a valid twin' % (len(rej), max(len(j[0][3]) for j in jobs)))
