from bitflow import engine as E
from bitflow.driver import Cell
from props import c07, text as T
LEVEL = 'other'
TECHNIQUE = 'abstract interpretation of LLVM IR (bit-level and affine value domain) over classes of scope texts'
NOTE = ('Scope texts by length and by the position of the first forbidden or foreign character; permitted characters, the previous scope, the address and the text after the fault are unknown. '
        'Lengths: 0, 1, 2, the configured maximum and its neighbours, and far beyond; every character type, entry point and scope configuration. Numbers: every length, split at the 32-bit limit.')
RULE = 'Scopes: verbatim storage, formatting, copying and comparison; rejection with the documented code leaves the old scope; numeric value exactly for decimal numbers below 2^32.'
SUMM = c07.SUMM
MAX = dict(scope0=0, scope0_11=0, scope0noexc=0, scope1=1, scope4=4, scope64=64)
SP = {9, 10, 11, 12, 13, 32}
GOOD = frozenset(range(1, 128)) - {37, 47} - SP
BAD = frozenset({37, 47, 0} | SP)


def good(c):
    return frozenset(GOOD | SP) if c == 'scopesp' else GOOD


def bad(c):
    return frozenset({37, 47, 0}) if c == 'scopesp' else BAD


def old(ctx, n):
    return [ctx.buf([ctx.var('o%d' % i, set(range(97, 123))) for i in range(n)] or [ctx.const(8, 0)], 'old'), ctx.const(64, n)]


def set_(ctx, ct, no, specs, how, any_, code, arr=0):
    t = T.text(ctx, specs, ct, arr or None, arr and '*') if specs or arr else ctx.raw(b'\0' * 4)
    return 'sc_set_' + ct, [ctx.buf(ctx.bytes('a', 16))] + old(ctx, no) + [t, ctx.const(64, len(specs)), ctx.const(32, how), ctx.const(32, any_), ctx.const(32, code), ctx.opaque(32, 'stale')]


def parse(ctx, ct, pre, specs, how, any_, code):
    s = T.lit(pre) + [37] + list(specs)
    return 'sc_parse_' + ct, [T.text(ctx, s, ct), ctx.const(64, len(s)), ctx.const(64, len(pre) + 1), ctx.const(32, how), ctx.const(32, any_), ctx.const(32, code), ctx.opaque(32, 'stale')]


def keep(ctx, n, dom):
    return 'sc_keep', [ctx.buf(ctx.bytes('a', 16)), ctx.buf([ctx.var('s%d' % i, set(dom)) for i in range(n)] or [ctx.const(8, 0)]), ctx.const(64, n)]


def text(ctx, n, fmt, k, dom):
    b = [ctx.const(8, [0x20, 0, 0, 0xFE, 0, 0, 0, 0, 0x12, 0x34, 0, 0, 0, 9, 0, k][i]) for i in range(16)]
    return 'sc_text', [ctx.buf(b), ctx.buf([ctx.var('s%d' % i, set(dom)) for i in range(n)] or [ctx.const(8, 0)]), ctx.const(64, n), ctx.const(32, fmt)]


def num(ctx, specs, has):
    return 'sc_num', [T.text(ctx, specs, 'c') if specs else ctx.raw(b'\0'), ctx.const(64, len(specs)), ctx.const(32, has)]


D = frozenset(range(48, 58))
NOTD = frozenset(GOOD - D)


def ten():
    """ten-digit numbers not starting with 0, split at 2^32"""
    pre = []
    for i, d in enumerate('4294967295'):
        lo, hi = (49 if i == 0 else 48), int(d) + 47
        if hi >= lo:
            yield tuple(pre) + (frozenset(range(lo, hi + 1)),) + (D,) * (9 - i), 1
        if int(d) < 9:
            yield tuple(pre) + (frozenset(range(ord(d) + 1, 58)),) + (D,) * (9 - i), 0
        pre.append(ord(d))
    yield tuple(pre), 1


def numbers(m):
    """(character sets, is it a number below 2^32)"""
    for n in range(0, m + 1):
        if n == 0:
            yield (), 0
            continue
        z = 0
        if n < 10:
            yield (D,) * n, 1
        else:
            lead = n - 10
            yield (48,) * (lead + 1) + (D,) * 9, 1
            for t, has in ten():
                yield (48,) * lead + t, has
                for k in range(lead):  # more than ten significant digits
                    yield (48,) * k + t + (D,) * (lead - k), 0
        for k in range(min(n, 10)):
            yield (D,) * k + (NOTD,) + (GOOD,) * (n - k - 1), 0
        for k in range(10, n):
            yield (48,) * k + (NOTD,) + (GOOD,) * (n - k - 1), 0


def cells(tier):
    quick = tier == 'quick'
    for c in ['cpp20', 'cpp11', 'scope1', 'scope4', 'scope64', 'scopesp', 'scope0', 'noexc20'] if quick else ['cpp20', 'cpp11', 'cpp14', 'cpp17', 'cpp23', 'noexc20', 'noexc11', 'scope0', 'scope0_11', 'scope0noexc', 'scope1', 'scope4', 'scope64', 'scopesp', 'utf8char', 'noover', 'be20']:
        m = MAX.get(c, 16)
        cts = ['c', 'w', 'c16', 'c32'] + (['c8'] if '11' not in c and c not in ('cpp14', 'cpp17') else [])
        exc = 'noexc' not in c
        hows = [0, 1] + ([2, 3] if exc else [])
        g, b = good(c), bad(c)
        foreign = lambda ct: {'c': None, 'c8': None, 'c16': (frozenset(range(256)), frozenset(range(1, 256))), 'w': ('top', 9), 'c32': ('top', 20)}[ct]
        i = 0
        lens = sorted({0, 1, 2, m - 1, m, m + 1, m + 2, m + 9, 40, 80} - {-1})
        for n in lens:
            for ct in cts:
                forms = []
                code = 23 if n > m else 0
                forms.append(((g,) * n, code if m else 0))
                if n <= m or not quick:
                    ks = range(n) if n < 5 or not quick else sorted({0, 1, n // 2, n - 2, n - 1})
                    for k in ks:
                        forms.append(((g,) * k + (b,) + ('*',) * (n - k - 1), (23 if n > m else 24) if m else 0))
                        f = foreign(ct)
                        if ct == 'c8' or ct == 'c' and c == 'utf8char':
                            f = frozenset(range(128, 256))
                        if f is not None:
                            forms.append(((g,) * k + (f,) + ('*',) * (n - k - 1), (23 if n > m else -1) if m else 0))
                for j, (s, code) in enumerate(forms):
                    i += 1
                    for h in hows if not quick or ct == 'c' and c == 'cpp20' else [hows[i % len(hows)]]:
                        for any_ in (0, 1) if not quick else ((i + h) % 2,):
                            no = [0, 1, 3, m][(i + h) % 4]
                            yield Cell('scope', c, 'set_', (ct, min(no, m), s, h, any_, code), summ=SUMM, merge=1)
                    if n <= m and code in (0, 24) and m:
                        # an array is a C string: unknown characters may follow the NUL
                        if code == 0:
                            for h in (4, 5) if exc else (4,):
                                if h == 4 or exc:
                                    yield Cell('scope', c, 'set_', (ct, min(3, m), s, h, 0, 0, m + 1), summ=SUMM, merge=1)
                                    if exc:
                                        yield Cell('scope', c, 'set_', (ct, min(3, m), s, 5, 1, 0, m + 1), summ=SUMM, merge=1)
                        elif all(0 != x for x in s):
                            s2 = tuple(x - {0} if isinstance(x, frozenset) else frozenset(range(1, 128)) if x == '*' else x for x in s)
                            yield Cell('scope', c, 'set_', (ct, min(2, m), s2, 4, 0, 24, m + 1), summ=SUMM, merge=1)
                    # in a parsed text the scope is read character by character
                    if any(isinstance(x, tuple) or x == frozenset(range(128, 256)) for x in s):
                        pc = -1
                    elif code == 24 and n <= m:
                        pc = 24
                    elif n > m:
                        f = next((k for k, x in enumerate(s) if x == b), n)
                        pc = 24 if f < m else 23
                    else:
                        pc = 24 if n == 0 else 0
                    pre = ['::', '1::', 'ab:0:0:1:2:3:4:5', '::1.2.3.4'][i % 4]
                    for h in (0, 1) if not quick else (i % 2,):
                        for any_ in (0, 1) if not quick else ((i // 2) % 2,):
                            yield Cell('scope', c, 'parse', (ct, pre, s, h, any_, pc), summ=SUMM, merge=1)
        if m:
            for n in sorted({0, 1, 2, 3, m // 2, m - 1, m}):
                if n > m:
                    continue
                yield Cell('scope', c, 'keep', (n, frozenset(g - D)))
                yield Cell('scope', c, 'keep', (min(n, 9), D))
                for fmt in (0, 1, 2):
                    yield Cell('scope', c, 'text', (n, fmt, n % 3, g))
            for s, has in numbers(m):
                if m == 64 and len(s) > 14 and len(s) not in (16, 17, 63, 64):
                    continue
                if quick and c != 'cpp20' and len(s) not in (1, m, 10, 11):
                    continue
                yield Cell('scope', c, 'num', (s, has))
