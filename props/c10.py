import itertools
from bitflow import engine as E
from bitflow.driver import Cell
LEVEL = 'other'
TECHNIQUE = 'abstract interpretation of LLVM IR (bit-level and table value domain) over digit-count classes of the octets and groups'
NOTE = ('IPv4: every combination of octet digit counts (complete). IPv6: every pattern of zero groups with every format, each digit count of each group; '
        'the combination of digit counts over all non-zero groups is sampled; digits unknown throughout. Every conversion function and character type.')
RULE = 'Formatting: exact text for every class; reverse pointers for all values; parsing back gives an equal object.'
D4 = [set(range(0, 10)), set(range(10, 100)), set(range(100, 256))]


def v4bytes(ctx, cls):
    return [ctx.var('a%d' % i, D4[c]) for i, c in enumerate(cls)]


def v6bytes(ctx, cls, only=None):
    """digit count of each group: 0 (zero) .. 4"""
    b = []
    z = E.const(8, 0)
    for i, c in enumerate(cls):
        h, l = 'a%d' % (2 * i), 'a%d' % (2 * i + 1)
        if c == 0:
            b += [z, z]
        elif c == 1:
            b += [z, ctx.var(l, set(range(1, 16)))]
        elif c == 2:
            b += [z, ctx.var(l, set(range(16, 256)))]
        elif c == 3:
            b += [ctx.var(h, set(range(1, 16))), ctx.var(l)]
        else:
            b += [ctx.var(h, set(range(16, 256))), ctx.var(l)]
    return b


def a4(ctx, cls, fmt, how, any_):
    return 'fmt_a4', [ctx.buf(v4bytes(ctx, cls)), ctx.const(32, fmt), ctx.const(32, how), ctx.const(32, any_)]


def a6(ctx, cls, fmt, how, any_):
    return 'fmt_a6', [ctx.buf(v6bytes(ctx, cls)), ctx.const(32, fmt), ctx.const(32, how), ctx.const(32, any_)]


def full6(ctx, how, any_):
    return 'fmt_a6', [ctx.buf(ctx.bytes('a', 16)), ctx.const(32, 0), ctx.const(32, how), ctx.const(32, any_)]


def n4(ctx, p, cls, fmt, how, any_):
    b = [ctx.var('a%d' % i, D4[c]) if p >= 8 * (i + 1) else E.const(8, 0) if p <= 8 * i else E.const(8, [1 << (8 * (i + 1) - p), 0xFF00 >> (p - 8 * i) & 255][c & 1]) for i, c in enumerate(cls)]
    return 'fmt_n4', [ctx.buf(b), ctx.const(64, p), ctx.const(32, fmt), ctx.const(32, how), ctx.const(32, any_)]


def n6(ctx, p, cls, fmt, how, any_):
    b = v6bytes(ctx, cls)
    for i in range(16):
        if p <= 8 * i:
            b[i] = E.const(8, 0)
        elif p < 8 * (i + 1):
            b[i] = E.const(8, [1 << (8 * (i + 1) - p), 0xFF00 >> (p - 8 * i) & 255][cls[0] & 1])
    return 'fmt_n6', [ctx.buf(b), ctx.const(64, p), ctx.const(32, fmt), ctx.const(32, how), ctx.const(32, any_)]


LETTERS = set(range(97, 123))


def scope(ctx, cls, n, fmt, how, any_):
    return 'fmt_scope', [ctx.buf(v6bytes(ctx, cls)), ctx.buf([ctx.var('s%d' % i, LETTERS) for i in range(n)], 'scope'), ctx.const(64, n), ctx.const(32, fmt), ctx.const(32, how), ctx.const(32, any_)]


def rev(ctx, v, cls, any_):
    return 'fmt_rev%d' % v, [ctx.buf(v4bytes(ctx, cls) if v == 4 else ctx.bytes('a', 16)), ctx.const(32, any_)]


def back4(ctx, cls, fmt, any_):
    return 'fmt_back4', [ctx.buf(v4bytes(ctx, cls)), ctx.const(32, fmt), ctx.const(32, any_)]


def back6(ctx, pat, fmt, any_):
    """pat: one character per nibble: 0, d (1-9), e (0-9), x (a-f)"""
    b = []
    dom = {'0': [0], 'd': range(1, 10), 'e': range(10), 'x': range(10, 16)}
    for i in range(16):
        h, l = pat[2 * i], pat[2 * i + 1]
        if h == l == '0':
            b.append(E.const(8, 0))
        else:
            b.append(ctx.var('a%d' % i, {16 * p + q for p in dom[h] for q in dom[l]}))
    return 'fmt_back6', [ctx.buf(b), ctx.const(32, fmt), ctx.const(32, any_)]


def backn(ctx, v, p, pat, fmt):
    b = []
    for i in range(4 if v == 4 else 16):
        x = int(pat[i % len(pat)], 16) * 17 & 255
        keep = max(0, min(8, p - 8 * i))
        b.append(E.const(8, x & (0xFF00 >> keep) & 255))
    return 'fmt_backn%d' % v, [ctx.buf(b), ctx.const(64, p), ctx.const(32, fmt)]


def cells(tier):
    quick = tier == 'quick'
    for c in ['cpp20', 'cpp11'] if quick else ['cpp11', 'cpp14', 'cpp17', 'cpp20', 'cpp23', 'noexc20', 'noexc11', 'noover', 'scope0', 'scope64', 'utf8char']:
        main = c == 'cpp20'
        hows = [h for h in range(17) if not (c in ('cpp11', 'cpp14', 'cpp17', 'noexc11') and h in (4, 15, 16)) and not (c == 'noover' and h in (6, 7))]
        for i, cls in enumerate(itertools.product(range(3), repeat=4)):
            for fmt in (0, 1, 2):
                yield Cell('fmt', c, 'a4', (cls, fmt, 0, (i + fmt) % 2))
            for h in hows[1:] if not quick or i in (0, 40, 80) else [hows[1 + i % (len(hows) - 1)]]:
                yield Cell('fmt', c, 'a4', (cls, 2, h, 0))
                yield Cell('fmt', c, 'a4', (cls, 2, h, 1))
            yield Cell('fmt', c, 'rev', (4, cls, 0))
            yield Cell('fmt', c, 'rev', (4, cls, 1))
            for fmt in (0, 1, 2) if not quick else [i % 3]:
                yield Cell('fmt', c, 'back4', (cls, fmt, 0))
                yield Cell('fmt', c, 'back4', (cls, fmt, 1))
        for h in hows:
            if h < 5:
                for a in (0, 1):
                    yield Cell('fmt', c, 'full6', (h, a))
        for a in (0, 1):
            yield Cell('fmt', c, 'rev', (6, (), a))
        for m in range(256):
            cls = [[1 + (i * 3 + m) % 4, 0][m >> i & 1] for i in range(8)]
            for fmt in (2, 1, 0):
                if quick and fmt < 2 and m % 4 != fmt or quick and not main and m % 3 and fmt != 2:
                    continue
                yield Cell('fmt', c, 'a6', (tuple(cls), fmt, 0, m % 2))
                if fmt == 2 and (m % 16 == 5 or not quick):
                    for h in hows if not quick or main and m % 64 == 5 else [hows[m % len(hows)]]:
                        yield Cell('fmt', c, 'a6', (tuple(cls), fmt, h, (m + h) % 2))
            for k in range(3 if not quick else 1):
                cls2 = [[1 + (i * (5 + 2 * k) + m // 3 + k) % 4, 0][m >> i & 1] for i in range(8)]
                yield Cell('fmt', c, 'a6', (tuple(cls2), 1 + (m + k) % 2, (m + k) % 4, (m + k) % 2))
        for g in range(8):
            for d in range(5):
                for rest in (1, 4):
                    cls = tuple(d if i == g else rest for i in range(8))
                    for fmt in (1, 2):
                        yield Cell('fmt', c, 'a6', (cls, fmt, 0, 0))
        for p in range(33):
            for k in range(2):
                cls = tuple((p + i + k) % 3 for i in range(4))
                h = hows[(p * 2 + k) % len(hows)]
                yield Cell('fmt', c, 'n4', (p, cls, 2, h, (p + k) % 2))
                yield Cell('fmt', c, 'n4', (p, cls, p % 3, 0, k))
            for f in range(3):
                yield Cell('fmt', c, 'backn', (4, p, 'fa1039', f))
        for p in range(129):
            cls = tuple([1 + (p + i) % 4, 0, 4][(i + p) % 3] for i in range(8))
            h = hows[p % len(hows)]
            yield Cell('fmt', c, 'n6', (p, cls, 2, h, p % 2))
            yield Cell('fmt', c, 'n6', (p, cls, p % 3, p % 4, (p + 1) % 2))
            for f in range(3):
                if quick and (p + f) % 3:
                    continue
                for pat in ('fa1039c7', '00f', '1000000f', 'f'):
                    yield Cell('fmt', c, 'backn', (6, p, pat, f))
        if c != 'scope0':
            for n in (1, 2, 3, 7, 15, 16):
                for fmt in (0, 1, 2):
                    for a in (0, 1):
                        yield Cell('fmt', c, 'scope', ((4, 3, 0, 0, 0, 2, 1, 0) if n % 2 else (4,) * 8, n, fmt, 0, a))
                yield Cell('fmt', c, 'scope', ((0,) * 8, n, 2, hows[n % len(hows)], 0))
        pats = []
        for m in range(0, 256, 7 if quick else 1):
            pats.append(''.join('0000' if m >> i & 1 else ['000d', '000x', '00de', '00xx', '0dxe', '0xex', 'dexx', 'xeex'][(i * 3 + m) % 8] for i in range(8)))
        for j, pat in enumerate(pats):
            for fmt in (0, 1, 2):
                yield Cell('fmt', c, 'back6', (pat, fmt, (j + fmt) % 2))
