from bitflow import engine as E
from bitflow.driver import Cell
LEVEL = 'proof'
TECHNIQUE = 'abstract interpretation of LLVM IR (bit-level value domain); dependence of the hash decided from its abstract value'
NOTE = ('Copies, assignments and swaps: all address bits and scope characters unknown, scope lengths 0..3 and the maximum. Hash dependence is decided per byte '
        '(the abstract hash is an exact function of that byte); collision quality is not in the statement.')
RULE = 'Copy, assignment, swap and hash: one cell per (type pair, scope lengths, way of exchanging) or (type, byte position).'
SC = [c for c in range(33, 127) if c not in (37, 47)]
SCL = [c for c in SC if not 48 <= c <= 57]
BG = [0x20, 0x01, 0x0d, 0xb8, 0x5a, 0x3c, 0x91, 0xe7, 0x44, 0x12, 0xfe, 0x6b, 0x08, 0xd3, 0x77, 0x2f]


def varies(o):
    """the returned hash is not the same for all values of the one unknown byte"""
    if o.kind != E.RET:
        return ('bad' if o.kind in (E.ALARM, E.TERMINATE, E.THROW) else 'und'), o.msg
    if o.joined:
        return 'und', 'joined'
    c = o.st.isconst(o.ret)
    if c is not None:
        return 'bad', 'the hash does not depend on this byte of the value (constant %x)' % c
    lo, hi = o.st.range(o.ret)
    return 'ok', ''


class _J:
    pass


def hashb(ctx, entry, n, i, w):
    vals = [ctx.const(8, BG[k]) for k in range(n)]
    vals[i] = E.Var('b').val if ctx.assign is None else ctx.const(8, ctx.assign.get('b', 0))
    return entry, [ctx.buf(vals, 'address'), ctx.const(32, w)], judge_for(ctx)


def judge_for(ctx):
    # the judgement is about the whole set of values of the byte, so a witness
    # run on a single value would always look constant: no concretisation
    return varies


def hashn(ctx, entry, n, i, p, w):
    vals = [ctx.const(8, BG[k] if k * 8 < p else 0) for k in range(n)]
    vals[i] = ctx.var('b')
    return entry, [ctx.buf(vals, 'address'), ctx.const(64, p), ctx.const(32, w)], varies


def hashs(ctx, n, i, w):
    a = [ctx.const(8, x) for x in BG]
    s = [ctx.const(8, 97 + k) for k in range(n)]
    s[i] = ctx.var('b', SC)
    return 'c13_hs', [ctx.buf(a), ctx.buf(s), ctx.const(64, n), ctx.const(32, w)], varies


def hashu(ctx, half, i):
    h = [ctx.const(8, x) for x in BG[:8]]
    l = [ctx.const(8, x) for x in BG[8:]]
    (h if half == 'h' else l)[i] = ctx.var('b')
    return 'c13_hu', [E.concat(h), E.concat(l)], varies


def hp(ctx, v, w):
    n = 4 if v == 4 else 16
    vals = [ctx.const(8, BG[k]) for k in range(n - 1)] + [ctx.const(8, 0)]
    return 'c13_hp%d' % v, [ctx.buf(vals), ctx.const(32, w)]


def hneq(ctx, v, p, w):
    n = 4 if v == 4 else 16
    # free bits below the prefix in one byte, and constants elsewhere
    vals = [ctx.const(8, BG[k]) for k in range(n)]
    if p < n * 8:
        vals[p // 8] = ctx.var('b')
    return 'c13_hneq%d' % v, [ctx.buf(vals), ctx.const(64, p), ctx.const(32, w)]


def chars(ctx, name, n):
    # long scopes without digits: the numeric value of a scope forks per digit (C22)
    return ctx.buf([ctx.var('%s%d' % (name, i), SC if n <= 2 else SCL) for i in range(n)] or [ctx.const(8, 0)], name)


def history(ctx, n, m, w):
    a = ctx.buf([ctx.const(8, x) for x in BG])
    s = ctx.buf([ctx.const(8, 97 + i) for i in range(n)] or [ctx.const(8, 0)])
    t = [ctx.var('t%d' % i, SC) if i == 0 else ctx.const(8, 65 + i) for i in range(m)]
    return 'c13_history', [a, s, ctx.const(64, n), ctx.buf(t or [ctx.const(8, 0)]), ctx.const(64, m), ctx.const(32, w)]


def swap4(ctx, how):
    return 'c13_swap4', [ctx.buf(ctx.bytes('a', 4)), ctx.buf(ctx.bytes('b', 4)), ctx.const(32, how)]


def swap6(ctx, n, m, how):
    return 'c13_swap6', [ctx.buf(ctx.bytes('a', 16)), chars(ctx, 's', n), ctx.const(64, n), ctx.buf(ctx.bytes('b', 16)), chars(ctx, 't', m), ctx.const(64, m), ctx.const(32, how)]


def any2(ctx, entry, va, n, vb, m, how):
    return entry, [ctx.const(32, va), ctx.buf(ctx.bytes('a', 4 if va == 4 else 16)), chars(ctx, 's', n), ctx.const(64, n),
                   ctx.const(32, vb), ctx.buf(ctx.bytes('b', 4 if vb == 4 else 16)), chars(ctx, 't', m), ctx.const(64, m), ctx.const(32, how)]


def masked(ctx, vals, p):
    r = []
    for i, v in enumerate(vals):
        if (i + 1) * 8 <= p:
            r.append(v)
        elif i * 8 >= p:
            r.append(E.const(8, 0))
        else:
            k = 8 - (p - i * 8)
            r.append(E.concat([E.const(k, 0), E.slice_(v, k, 8 - k)]))
    return r


def swapnet(ctx, v, p, q, how):
    n = 4 if v == 4 else 16
    return 'c13_swapnet%d' % v, [ctx.buf(masked(ctx, ctx.bytes('a', n), p)), ctx.const(64, p), ctx.buf(masked(ctx, ctx.bytes('b', n), q)), ctx.const(64, q), ctx.const(32, how)]


def swapanynet(ctx, va, p, vb, q, how):
    na, nb = (4 if va == 4 else 16), (4 if vb == 4 else 16)
    return 'c13_swapanynet', [ctx.const(32, va), ctx.buf(masked(ctx, ctx.bytes('a', na), p)), ctx.const(64, p), ctx.const(32, vb), ctx.buf(masked(ctx, ctx.bytes('b', nb), q)), ctx.const(64, q), ctx.const(32, how)]


def cells(tier):
    quick = tier == 'quick'
    cfgs = ['cpp20', 'cpp11', 'noexc20'] if quick else ['cpp20', 'cpp11', 'cpp14', 'cpp17', 'cpp23', 'noexc20', 'noexc11', 'nospace', 'scope1', 'scope64', 'scope0', 'be20']
    for c in cfgs:
        sm = {'scope0': 0, 'scope1': 1, 'scope64': 64}.get(c, 16)
        for w in range(4):
            for i in range(4):
                yield Cell('conv', c, 'hashb', ('c13_h4', 4, i, w), group='hash depends on each byte')
            for i in range(16):
                yield Cell('conv', c, 'hashb', ('c13_h6', 16, i, w), group='hash depends on each byte')
        for h in 'hl':
            for i in range(8):
                yield Cell('conv', c, 'hashu', (h, i), group='hash depends on each byte')
        for w in (0, 1):
            for v in (4, 6):
                n = 4 if v == 4 else 16
                for i in range(n):
                    yield Cell('conv', c, 'hashn', ('c13_hn%d' % v, n, i, n * 8, w), group='network hash depends on each byte')
                yield Cell('conv', c, 'hp', (v, w), group='network hash depends on the prefix')
                for p in (range(n * 8 + 1) if not quick or v == 4 else (0, 1, 7, 8, 63, 64, 65, 127, 128)):
                    yield Cell('conv', c, 'hneq', (v, p, w), group='equal networks hash equally')
            if sm:
                for n in sorted({1, 2, sm}):
                    if n <= sm:
                        for i in range(n):
                            yield Cell('conv', c, 'hashs', (n, i, w), group='hash depends on the scope')
        if sm:
            for w in range(4):
                for n in sorted({0, 1, 2, 3, sm - 1, sm}):
                    for m in sorted({0, 1, 2, 3, sm - 1, sm}):
                        if 0 <= n <= sm and 0 <= m <= sm:
                            yield Cell('conv', c, 'history', (n, m, w), group='equal values hash equally')
        L = sorted({x for x in ((0, 1, 3, sm) if quick else (0, 1, 2, 3, sm - 1, sm)) if 0 <= x <= sm})
        for how in range(5):
            yield Cell('conv', c, 'swap4', (how,), group='exchange')
            for n in L:
                for m in L:
                    yield Cell('conv', c, 'swap6', (n, m, how), group='exchange')
            for va in (4, 6):
                for vb in (4, 6):
                    for n in (L if va == 6 else [0]):
                        for m in (L if vb == 6 else [0]):
                            yield Cell('conv', c, 'any2', ('c13_swapany', va, n, vb, m, how), group='exchange')
                            yield Cell('conv', c, 'any2', ('c13_copyany', va, n, vb, m, how), group='copy')
                    for p in (0, 24, 32):
                        for q in (0, 9, 32):
                            yield Cell('conv', c, 'swapanynet', (va, p * (4 if va == 6 else 1), vb, q * (4 if vb == 6 else 1), how), group='exchange networks')
            for v, mx in ((4, 32), (6, 128)):
                for p in (0, 1, mx // 2, mx):
                    for q in (0, 1, mx // 2, mx - 1, mx):
                        yield Cell('conv', c, 'swapnet', (v, p, q, how), group='exchange networks')
