from bitflow.driver import Cell
LEVEL = 'proof'
TECHNIQUE = 'abstract interpretation of LLVM IR (bit-level value domain) over a partition of the input space'
NOTE = ('Addresses: complete over all bits (one cell per first differing bit and direction). Scopes up to 3 characters and the configured maximum at the extremes; '
        'network masks: every IPv4 prefix pair, IPv6 neighbouring/extreme pairs. Iterators are not covered here.')
RULE = 'Six operators and <=> against the unsigned big-endian comparison; one cell per (type, first differing bit, direction, operator), all bits below unknown.'
SC = [c for c in range(33, 127) if c not in (37, 47)]


def addr(ctx, v, entry, bit, ab, w):
    n = 4 if v == 4 else 16
    x, y = ctx.shared('a', 'b', n, bit, ab)
    return entry, [ctx.buf(x, 'left'), ctx.buf(y, 'right'), ctx.const(32, w)]


def mixed(ctx):
    return 'c12_mixed', [ctx.buf(ctx.bytes('a', 4)), ctx.buf(ctx.bytes('b', 16))]


def scoped(ctx, entry, bit, ab, n, m, same, w, cb=None, cab=0):
    """scopes of n and m characters, the first `same` characters equal; the next
    one (if cb is given) first differs at its bit cb"""
    from bitflow import engine as E
    x, y = ctx.shared('a', 'b', 16, bit, ab)
    s = [ctx.var('s%d' % i, SC) for i in range(n)]
    t = [s[i] if i < same else ctx.var('t%d' % i, SC) for i in range(m)]
    if cb is not None:
        k = 7 - cb
        hi = [E.slice_(s[same], k + 1, 7 - k)]
        s[same] = E.concat(([E.slice_(s[same], 0, k)] if k else []) + [E.const(1, cab)] + hi)
        t[same] = E.concat(([E.slice_(t[same], 0, k)] if k else []) + [E.const(1, 1 - cab)] + hi)
    return entry, [ctx.buf(x), ctx.buf(y), ctx.buf(s or [ctx.const(8, 0)]), ctx.const(64, n), ctx.buf(t or [ctx.const(8, 0)]), ctx.const(64, m), ctx.const(32, w)]


def masked(ctx, vals, p):
    from bitflow import engine as E
    r = []
    for i, v in enumerate(vals):
        if (i + 1) * 8 <= p:
            r.append(v)
        elif i * 8 >= p:
            r.append(E.const(8, 0))
        else:
            k = 8 - (p - i * 8)
            r.append(E.concat([E.const(k, 0), E.slice_(v, k, 8 - k)]))
    return r


def net(ctx, v, entry, p, q, bit, ab, w):
    n = 4 if v == 4 else 16
    x, y = ctx.shared('a', 'b', n, bit, ab)
    if bit is None:
        m = min(p, q)
        x, y = masked(ctx, x, m), masked(ctx, y, m)
    else:
        x, y = masked(ctx, x, p), masked(ctx, y, q)
    return entry, [ctx.buf(x), ctx.const(64, p), ctx.buf(y), ctx.const(64, q), ctx.const(32, w)]


def mixednet(ctx, p, q):
    return 'c12_mixednet', [ctx.buf(masked(ctx, ctx.bytes('a', 4), p)), ctx.const(64, p), ctx.buf(masked(ctx, ctx.bytes('b', 16), q)), ctx.const(64, q)]


def cells(tier):
    quick = tier == 'quick'
    cfgs = ['cpp20', 'nospace', 'cpp11'] if quick else ['cpp20', 'nospace', 'cpp11', 'cpp14', 'cpp17', 'cpp23', 'noexc20', 'scope0', 'scope0_11', 'be20']
    for c in cfgs:
        ops = range(7) if c in ('cpp20', 'cpp23', 'noexc20', 'scope0', 'be20') else range(6)
        for w in ops:
            for v, bits in ((4, 32), (6, 128)):
                pos = [None] + list(range(bits))
                for entry in ('c12_v%d' % v, 'c12_any%d' % v):
                    ps = pos
                    if quick and c != 'cpp20':
                        ps = [None] + [b for b in range(bits) if b % 8 in (0, 7)]
                    for b in ps:
                        for ab in ((0,) if b is None else (0, 1)):
                            yield Cell('cmp', c, 'addr', (v, entry, b, ab, w), group='addresses v%d' % v)
                # networks
                for entry in ('c12_net%d' % v, 'c12_anynet%d' % v):
                    if v == 4:
                        pq = [(p, q) for p in range(33) for q in range(33)]
                        if quick:
                            pq = [(p, q) for p, q in pq if abs(p - q) <= 1 or p in (0, 32) or q in (0, 32)] if c == 'cpp20' and 'any' not in entry else [(0, 0), (0, 1), (1, 0), (8, 9), (24, 23), (32, 32), (31, 32), (0, 32), (16, 16)]
                    else:
                        L = [0, 1, 7, 8, 9, 32, 63, 64, 65, 120, 127, 128]
                        if quick:
                            L = [0, 1, 63, 64, 65, 127, 128] if c == 'cpp20' else [0, 64, 128]
                        pq = [(p, q) for p in L for q in L]
                    for p, q in pq:
                        yield Cell('cmp', c, 'net', (v, entry, p, q, None, 0, w), group='networks v%d same address' % v)
                        top = min(p, q)
                        bs = {0, top - 1, top, max(p, q) - 1} if quick else set(range(0, bits, 3 if v == 4 else 11)) | {0, top - 1, top, max(p, q) - 1}
                        for b in sorted(x for x in bs if 0 <= x < max(p, q)):
                            for ab in (0, 1):
                                # a differing bit beyond one side's prefix is zero there
                                if b >= p and ab == 1 or b >= q and ab == 0:
                                    continue
                                yield Cell('cmp', c, 'net', (v, entry, p, q, b, ab, w), group='networks v%d' % v)
            if 'scope0' not in c:
                for entry in ('c12_scoped', 'c12_anyscoped'):
                    lens = [(0, 0), (0, 1), (1, 0), (1, 1), (1, 2), (2, 1), (2, 2), (0, 16), (16, 16), (15, 16), (16, 0), (16, 15)]
                    if not quick:
                        lens = [(n, m) for n in (0, 1, 2, 3, 4, 15, 16) for m in (0, 1, 2, 3, 4, 15, 16)]
                    for n, m in lens:
                        k = min(n, m)
                        yield Cell('cmp', c, 'scoped', (entry, None, 0, n, m, k, w), group='scopes')
                        for same in sorted({k - 1} | ({0, 1} if n < 4 and m < 4 else set())):
                            if same < 0 or same >= k:
                                continue
                            for cb in range(1, 8):
                                for cab in (0, 1):
                                    yield Cell('cmp', c, 'scoped', (entry, None, 0, n, m, same, w, cb, cab), group='scopes')
                        for b in (0, 64, 127):
                            for ab in (0, 1):
                                yield Cell('cmp', c, 'scoped', (entry, b, ab, n, m, 0, w), group='scopes, bytes differ')
        yield Cell('cmp', c, 'mixed', ())
        for p in (0, 1, 24, 32):
            for q in (0, 1, 64, 128):
                yield Cell('cmp', c, 'mixednet', (p, q))
