from bitflow.driver import Cell
LEVEL = 'proof'
TECHNIQUE = 'abstract interpretation of LLVM IR (bit-level value domain) over a partition of the input space'
NOTE = 'Complete for IPv4 prefix pairs and first-difference positions; IPv6 prefix pairs are the neighbouring, extreme and middle ones (thorough: more positions). Scope ids are outside the statement except that containment ignores them.'
RULE = ('Containment and overlap: one cell per (width, prefix pair, position of the first differing address bit); '
        'all bits below that position are unknown.')


def contains(ctx, v, p, bit, abit):
    n = 4 if v == 4 else 16
    x, y = ctx.shared('n', 'a', n, bit, abit)
    return 'c15_contains%d' % v, [ctx.buf(x, 'network'), ctx.const(64, p), ctx.buf(y, 'address')]


def tail(ctx, n, p):
    """two addresses whose first p bits agree, unrelated below"""
    x, y = ctx.shared('n', 'a', n, p - 1, 0) if p else ([ctx.var('n%d' % i) for i in range(n)], [ctx.var('a%d' % i) for i in range(n)])
    return x, y


def pair(ctx, n, m, bit, abit):
    """bit None: first m bits agree, anything below; else first difference at bit"""
    from bitflow import engine as E
    if bit is not None:
        return ctx.shared('n', 'a', n, bit, abit)
    a, b = [], []
    for i in range(n):
        if (i + 1) * 8 <= m:
            v = ctx.var('n%d' % i)
            a.append(v); b.append(v)
        elif i * 8 >= m:
            a.append(ctx.var('n%d' % i)); b.append(ctx.var('a%d' % i))
        else:
            k = 8 - (m - i * 8)   # free low bits
            va, vb = ctx.var('n%d' % i), ctx.var('a%d' % i)
            hi = E.slice_(va, k, 8 - k)
            a.append(va)
            b.append(E.concat([E.slice_(vb, 0, k), hi]))
    return a, b


def masked(ctx, vals, p):
    from bitflow import engine as E
    r = []
    for i, v in enumerate(vals):
        if (i + 1) * 8 <= p:
            r.append(v)
        elif i * 8 >= p:
            r.append(E.const(8, 0))
        else:
            k = 8 - (p - i * 8)
            r.append(E.concat([E.const(k, 0), E.slice_(v, k, 8 - k)]))
    return r


def rel(ctx, entry, v, p, q, bit, abit, which=0):
    n = 4 if v == 4 else 16
    m = p if entry == 'contains' else min(p, q)
    x, y = pair(ctx, n, m, bit, abit)
    # a network is determined by its leading bits (C14 proves creation clears the rest)
    x = masked(ctx, x, p)
    if entry != 'contains':
        y = masked(ctx, y, q)
    args = [ctx.buf(x, 'first'), ctx.const(64, p), ctx.buf(y, 'second')]
    if entry != 'contains':
        args += [ctx.const(64, q), ctx.const(32, which)]
    return 'c15_%s%d' % (entry, v), args


def mixed(ctx, p4, p6):
    return 'c15_mixed', [ctx.buf(ctx.bytes('a', 4), 'v4'), ctx.const(64, p4), ctx.buf(ctx.bytes('b', 16), 'v6'), ctx.const(64, p6)]


def bits_for(m, full):
    """positions of the first difference above the common prefix m"""
    if full:
        return range(m)
    s = set(range(max(0, m - 9), m)) | {8 * i + (i * 3 + m) % 8 for i in range((m + 7) // 8)} | {0, 31, 32, 63, 64}
    return sorted(b for b in s if b < m)


def cells(tier):
    quick = tier == 'quick'
    for c in (['cpp20', 'cpp11'] if quick else ['cpp20', 'cpp11', 'nospace', 'noexc20', 'be20', 'scope0']):
        main = c == 'cpp20'
        for v, w in ((4, 32), (6, 128)):
            for p in range(w + 1):
                full = v == 4 or not quick
                if main or not quick or p % 8 in (0, 1, 7):
                    for bit in [None] + [b for b in bits_for(p, full and main)]:
                        for s in ((0, 1) if bit is not None else (0,)):
                            yield Cell('net', c, 'rel', ('contains', v, p, 0, bit, s), group='contains%d' % v)
                qs = {p - 8, p - 1, p, p + 1, p + 7, 0, w, w // 2}
                if main and v == 4:
                    qs = set(range(w + 1))
                if v == 6 and quick:
                    qs = {p - 8, p, p + 1, 0 if p % 4 == 0 else p, w if p % 4 == 1 else p}
                if not main and quick and p % 8 not in (0, 1, 7):
                    continue
                for q in sorted(q for q in qs if 0 <= q <= w):
                    m = min(p, q)
                    bits = bits_for(m, not quick and main and v == 4)
                    if quick:
                        bits = sorted({b for b in (0, m - 1, m - 2, m - 8, (p * 5 + q) % m if m else 0, 64) if 0 <= b < m})
                    for bit in [None] + list(bits):
                        for s in ((0, 1) if bit is not None else (0,)):
                            e = 'any' if (p + q) % 7 == 3 else 'relate'
                            for which in range(4):
                                yield Cell('net', c, 'rel', (e, v, p, q, bit, s, which), group='%s%d' % (e, v))
        for p4 in (0, 1, 8, 31, 32):
            for p6 in (0, 1, 96, 127, 128):
                yield Cell('net', c, 'mixed', (p4, p6))
