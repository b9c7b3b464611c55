from bitflow import engine as E
from bitflow.driver import Cell, default_judge
from props import text as T
LEVEL = 'other'
TECHNIQUE = 'abstract interpretation of LLVM IR (memory, shift, arithmetic and indeterminate-value obligations; states joined at merge points)'
NOTE = ('Texts made of completely unknown code units (the netmask and network parts of wide and UTF-8 texts: unknown ASCII): every IPv4 text of every length up to 24 (and 72), every IPv6 and version-independent text up to 7 units (10 thorough), every network text up to those lengths without or with one slash; '
        'longer IPv6 texts as delimiter skeletons with unknown other characters and as valid texts with a sliding window of unknown characters, every scope text up to 40 units, every netmask text after a first digit or non-digit. '
        'Not a complete partition of the long IPv6 texts, hence "other". Every access, shift, addition and branch of every path is an obligation; termination is part of it (the analysis of a cell ends only when every loop of it has ended).')
RULE = 'Entry: parse a text of unknown characters and branch on every byte of the result; no path may have an out-of-bounds or indeterminate read, an undefined operation, a failed assertion or std::terminate.'
ASSUME = ['operator new does not fail', 'the library functions of std::basic_string and std::basic_string_view are those of the installed headers']
A = frozenset
ANY = A(range(256))
NS = ANY - {47}
ND = ANY - {ord(c) for c in ':.%/'}
G = A(ord(c) for c in '0123456789abcdefABCDEF')
CTS = ['c', 'w', 'c16', 'c32', 'c8']


def judge(o):
    if o.kind == E.RET:
        return 'ok', ''
    return default_judge(o)


def chars(ctx, ct, specs):
    """a wide code unit of an unrestricted position has all its bytes unknown"""
    w = T.UNIT[ct]
    vals = []
    for i, s in enumerate(specs):
        if isinstance(s, frozenset) and s & set(range(128, 256)):
            vals += [ctx.var('t%d' % i, s)] + [ctx.var('t%d.%d' % (i, k)) for k in range(1, w)]
        else:
            vals += T.unit(ctx, 't%d' % i, s, w)
    return ctx.buf(vals, 'text') if vals else ctx.out(0, 'text')


def safe(ctx, kind, ct, how, specs):
    return 'safe_%s_%s' % (kind, ct), [chars(ctx, ct, specs), ctx.const(64, len(specs)), ctx.const(32, how)], judge


def scope(ctx, kind, ct, how, specs):
    return 'safe_scope_%s' % ct, [chars(ctx, ct, specs), ctx.const(64, len(specs)), ctx.const(32, how)], judge


def lit(s):
    return tuple(ord(c) for c in s)


def skeleton(widths, c=ND, tail=()):
    r = ()
    for i, w in enumerate(widths):
        r += ((58,) if i else ()) + (c,) * w
    return r + tuple(tail)


DOT = (ND,) * 3 + (46,) + (ND,) * 3 + (46,) + (ND,) * 3 + (46,) + (ND,) * 3
SKEL = [(3,) * 8, (4,) * 8, (1, 2, 3, 4, 4, 3, 2, 1), (4,) * 7 + (0,), (0, 0, 4, 4, 4, 4, 4, 4), (4,) * 9, (5, 4), (1,) * 9, (1,) * 10, (2,) * 7, (4, 0, 4, 0, 4), (0, 4, 4), (4,) * 7 + (0, 0), (0, 0) + (4,) * 7,
        (4,) * 4 + (0,) + (4,) * 4, (4,) * 3 + (0,) + (4,) * 4, (4, 0, 0, 4), (0, 0), (0, 0, 0), (0,), (4, 0), (4, 0, 0), (12,), (4, 5)]
WORDS6 = ['1:22:333:4444:5:6:7:8', '1:2:3:4:5:6:1.22.3.4', '::ffff:1.2.3.4', '1::8%eth0', '1:2::7:8', '1:2:3:4:5:6:7::']
WORDS4 = ['1.2.3.4', '255.255.255.255', '10.0.0.1']
NETS4 = ['10.0.0.0/8', '10.1.2.3/255.0.0.0', '1.2.3.4/0.0.0.255', '0.0.0.0/0']
NETS6 = ['ab::/16', '1:2:3:4:5:6:7:8/128', '::%ab/0', '::1.2.3.4/96']


def windows(w, k):
    t = lit(w)
    for p in range(0, len(t) - k + 1):
        yield t[:p] + (ANY,) * k + t[p + k:]


def masks(deep, full, NS):
    """texts of a prefix or netmask: first characters by class (or digit by digit, where the value matters)"""
    yield ()
    D = A(range(48, 58))
    X = NS - D
    for n in (1, 2, 3, 4, 7, 15, 16, 20, 60) if full else (1, 16):
        yield (X,) + (NS,) * (n - 1)
    for a in range(48, 58) if full else (48, 49, 51, 57):
        yield (a,)
        for n in (1, 2, 6, 14, 20, 50) if deep else (1, 14) if full else (3,):
            yield (a, X) + (NS,) * (n - 1)
        for b in range(48, 58) if full else (48, 50, 51, 57):
            yield (a, b)
            for n in (1, 2, 5, 13, 30) if deep else (1, 13) if full and b in (48, 53) else (1,):
                yield (a, b, X) + (NS,) * (n - 1)
            if deep or b in (48, 50, 57):
                for c in range(48, 58) if deep else (48, 56, 57):
                    yield (a, b, c)
                    if full:
                        yield (a, b, c, NS)
                if full:
                    yield (a, b, X) + (NS,) * 12


def base(tier, cfg, ct, full):
    deep = tier == 'thorough'
    nm = A(range(1, 128)) - {47} if ct != 'c' or cfg == 'utf8char' else NS  # foreign units: C09
    def C(k, specs, g, how=0, **o):
        return Cell('safe', cfg, 'safe', (k, ct, how, tuple(specs)), group=g, merge=2, **dict(dict(budget=3000000 if full or deep else 400000), **o))
    for n in list(range(0, 25)) + [40, 72] if full else (0, 1, 3, 7, 14, 15, 16, 17, 72):
        yield C('a4', (ANY,) * n, 'every IPv4 text')
        yield C('a4', (ANY,) * n, 'every IPv4 text', 1)
        yield C('n4', (nm,) * n, 'every IPv4 network text without slash')
        yield C('n4', (nm,) * n + lit('/8'), 'every IPv4 network address part')
        yield C('n4', (nm,) * n + lit('/255.0.0.0'), 'every IPv4 network address part')
        yield C('n4', (nm,) * n + lit('/8/') + (ANY,), 'two slashes')
        if n % 4 == 0:
            yield C('n6', (nm,) * min(n, 4) + lit('/8/') + (ANY,), 'two slashes')
    m = (9 if deep else 7 if ct == 'c' else 5) if full else 3
    for n in range(0, m + 1):
        for k in ('a6', 'aa'):
            yield C(k, (ANY,) * n, 'every short text', budget=6000000)
        yield C('n6', (nm,) * n, 'every short network text', budget=6000000)
        yield C('n6', (nm,) * n + lit('/64'), 'every short network text', budget=6000000)
        if n <= 5:
            yield C('na', (nm,) * n, 'every short network text')
            yield C('na', (nm,) * n + lit('/8'), 'every short network text')
        yield C('a6', (ANY,) * n, 'every short text', 1)
    for s in SKEL if full else SKEL[:14:6]:
        yield C('a6', skeleton(s), 'delimiter skeletons')
        yield C('a6', skeleton(s) + (37,) + (ND,) * 20, 'delimiter skeletons')
        yield C('a6', skeleton(s) + (58,) + DOT, 'delimiter skeletons')
        yield C('aa', skeleton(s), 'delimiter skeletons')
        yield C('n6', skeleton(s, ND) + lit('/64'), 'delimiter skeletons')
        yield C('a6', skeleton(s) + (58, 46) + (ND,) * 18, 'delimiter skeletons')
        yield C('a6', skeleton(s) + (58,) + (ND, 46) * 4 + (ND,) * 3, 'delimiter skeletons')
        yield C('a6', skeleton(s) + (58,) + DOT + (58,) + (ND,) * 2, 'delimiter skeletons')
        yield C('a6', skeleton(s) + (58,) + DOT + (37,) + (ND,) * 2, 'delimiter skeletons')
    for n in list(range(0, 24)) + [40, 65, 66] if full else (0, 1, 4, 5, 16, 17, 64, 65):
        for pre in ('::', '1:2:3:4:5:6:7:8', '', '1', '1:2:3:4:5:6:1.2.3.4'):
            yield C('a6', lit(pre + '%') + (ANY,) * n, 'every scope text')
        yield C('n6', lit('::%') + (nm,) * n + lit('/0'), 'every scope text')
        yield C('n6', lit('::%') + (nm,) * n + lit('/'), 'every scope text')
        for how in ((0, 1) if ct == 'c' or full else (0,)):
            yield Cell('safe', cfg, 'scope', ('scope', ct, how, (ANY,) * n), group='every scope text given to set_scope_id', merge=2)
    for mk in masks(deep and full, full, nm):
        yield C('n4', lit('0.0.0.0/') + mk, 'every netmask text')
        yield C('n6', lit('::/') + mk, 'every netmask text')
        if full and deep:
            yield C('na', lit('0.0.0.0/') + mk, 'every netmask text')
    for k in ((2, 3, 4) if deep else (2, 3) if full else (2,)):
        for w_ in WORDS6 if full else WORDS6[1:4:2]:
            for s in windows(w_, k):
                yield C('a6', s, 'unknown window')
        for w_ in NETS6 if k < 3 else ():
            for s in windows(w_, k):
                if w_.index('/') > len(lit(w_)) or True:
                    s2 = s
                    # an unknown character of the prefix part is left to 'every netmask text'
                    p = [i for i, x in enumerate(s2) if isinstance(x, frozenset)]
                    if p[-1] < w_.index('/'):
                        yield C('n6', s2, 'unknown window')
    for how, size in ((2, 8), (3, 24)):
        yield C('a4', (ANY,) * size, 'arrays of unknown characters, possibly without NUL', how)
        yield C('n4', (nm,) * size, 'arrays of unknown characters, possibly without NUL', how)
    yield C('a6', (ANY,) * 6 + (0, ANY), 'arrays of unknown characters, possibly without NUL', 2)
    yield C('a6', (ND,) * 8, 'arrays of unknown characters, possibly without NUL', 2)
    yield C('a6', lit('1:2:3:4:5:6:7:8%') + (ANY,) * 8, 'arrays of unknown characters, possibly without NUL', 3)
    yield C('n6', lit('1:2:3:4:5:6:7:8%') + (NS,) * 8, 'arrays of unknown characters, possibly without NUL', 3)
    yield C('a6', lit('1111:2222:3333:4444:5555:6666:7777:8888%') + (ANY,) * 32, 'arrays of unknown characters, possibly without NUL', 4)


def cells(tier):
    yield from base(tier, 'cpp20', 'c', True)
    for ct in CTS[1:]:
        yield from base(tier, 'cpp20', ct, tier == 'thorough')
    rest = ['cpp11', 'noexc20', 'bez20', 'scope0', 'scope1', 'scope64', 'utf8char']
    if tier == 'thorough':
        rest += ['cpp14', 'cpp17', 'cpp23', 'noexc11', 'scope4', 'scopesp', 'scope0noexc', 'be11']
    for cfg in rest:
        yield from base('quick', cfg, 'c', tier == 'thorough')
