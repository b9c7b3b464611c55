from bitflow import engine as E
from bitflow.driver import Cell
LEVEL = 'proof'
TECHNIQUE = 'abstract interpretation of LLVM IR (bit-level and affine value domain) over a carry/first-difference partition'
NOTE = ('All operands at once per cell (cells fix where the carry, borrow or comparison is decided); every shift count below 128 for seven count types. '
        'Multiplication, division, text and floating-point conversions are not part of the statement.')
RULE = '128-bit arithmetic: one cell per (operation form, position that decides the carry/borrow/order); operand bits outside that position unknown.'


def u64(ctx, name):
    return E.concat([ctx.var('%s%d' % (name, i)) for i in range(8)])


def pick(ctx, name, i):
    v = ctx.var('%s%d' % (name, i // 8))
    return E.slice_(v, i % 8, 1)


def words(ctx, na, nb, k, mode, c):
    """two 64-bit words; bits above k are complementary (mode 'c') or equal (mode 'e'),
    bit k (63 = most significant; None: no such bit) decides: both c, or a=c b=!c"""
    a, b = [], []
    ones = {}
    for byte in range(8):
        va, vb = ctx.var('%s%d' % (na, byte)), ctx.var('%s%d' % (nb, byte))
        lo, hi = byte * 8, byte * 8 + 7
        def rel(lowbit, n):
            if n <= 0:
                return []
            x = E.slice_(va, lowbit, n)
            return [x], [(ctx.st.op('xor', x, E.const(n, (1 << n) - 1)) if mode == 'c' else x)]
        if k is None or k < lo:
            x, y = rel(0, 8)
            a += x; b += y
        elif k > hi:
            a.append(va); b.append(vb)
        else:
            j = k - lo
            if j:
                a.append(E.slice_(va, 0, j)); b.append(E.slice_(vb, 0, j))
            a.append(E.const(1, c))
            b.append(E.const(1, c if mode == 'c' else 1 - c))
            if j < 7:
                x, y = rel(j + 1, 7 - j)
                a += x; b += y
    return E.concat(a), E.concat(b)


def add(ctx, k, c, how):
    al, bl = words(ctx, 'a', 'b', k, 'c', c)
    return 'c23_add', [u64(ctx, 'p'), al, u64(ctx, 'q'), bl, ctx.const(64, c if k is not None else 0), ctx.const(32, how)]


def sub(ctx, k, c, how):
    al, bl = words(ctx, 'a', 'b', k, 'e', c)
    return 'c23_sub', [u64(ctx, 'p'), al, u64(ctx, 'q'), bl, ctx.const(64, 0 if k is None or c else 1), ctx.const(32, how)]


def lead(ctx, name, k, c):
    """64-bit word whose low k bits are all c and bit k is not c (k None: all c)"""
    parts = []
    for byte in range(8):
        v = ctx.var('%s%d' % (name, byte))
        for j in range(8):
            i = byte * 8 + j
            if k is None or i < k:
                parts.append(E.const(1, c))
            elif i == k:
                parts.append(E.const(1, 1 - c))
            else:
                parts.append(E.slice_(v, j, 1))
    return E.concat(parts)


def inc(ctx, k, how):
    return 'c23_inc', [u64(ctx, 'p'), lead(ctx, 'a', k, 1), ctx.const(64, int(k is None)), ctx.const(32, how)]


def dec(ctx, k, how):
    return 'c23_dec', [u64(ctx, 'p'), lead(ctx, 'a', k, 0), ctx.const(64, int(k is None)), ctx.const(32, how)]


def neg(ctx, k):
    return 'c23_neg', [u64(ctx, 'p'), lead(ctx, 'a', k, 0), ctx.const(64, int(k is not None))]


def bits(ctx, how):
    return 'c23_bits', [u64(ctx, 'a'), u64(ctx, 'b'), u64(ctx, 'c'), u64(ctx, 'd'), ctx.const(32, how)]


def shift(ctx, n, how, t):
    return 'c23_shift', [u64(ctx, 'a'), u64(ctx, 'b'), ctx.const(32, n), ctx.const(32, how), ctx.const(32, t)]


def cmp(ctx, half, k, c, w):
    if half == 'h':
        ah, bh = words(ctx, 'p', 'q', k, 'e', c)
        al, bl = u64(ctx, 'a'), u64(ctx, 'b')
    else:
        ah = bh = u64(ctx, 'p')
        al, bl = words(ctx, 'a', 'b', k, 'e', c)
    r = 0 if k is None else (1 if c else -1)
    return 'c23_cmp', [ah, al, bh, bl, ctx.const(32, r), ctx.const(32, w)]


def cmp64(ctx, side, half, k, c, w):
    """against a 64-bit integer: the high half is zero, or its lowest set bit is k"""
    if half == 'h':
        h = lead(ctx, 'p', k, 0)
        l, o, r = u64(ctx, 'a'), u64(ctx, 'b'), 1
    else:
        h = E.const(64, 0)
        l, o = words(ctx, 'a', 'b', k, 'e', c)
        r = 0 if k is None else (1 if c else -1)
    if side == 'r':
        return 'c23_cmpr', [h, l, o, ctx.const(32, r), ctx.const(32, w)]
    return 'c23_cmpl', [o, h, l, ctx.const(32, -r), ctx.const(32, w)]


def truth(ctx, half, k):
    h = lead(ctx, 'p', k, 0) if half == 'h' else E.const(64, 0)
    l = u64(ctx, 'a') if half == 'h' else lead(ctx, 'a', k, 0)
    return 'c23_truth', [h, l, ctx.const(32, int(half == 'l' and k is None))]


def to(ctx):
    return 'c23_to', [u64(ctx, 'a'), u64(ctx, 'b')]


def fromu(ctx):
    return 'c23_fromu', [u64(ctx, 'a')]


def froms(ctx, neg):
    parts = []
    for i in range(8):
        v = ctx.var('a%d' % i)
        parts.append(E.concat([E.slice_(v, 0, 7), E.const(1, neg)]) if i in (1, 3, 7) else v)
    return 'c23_froms', [E.concat(parts), ctx.const(32, neg)]


def cells(tier):
    quick = tier == 'quick'
    cfgs = ['cpp20', 'cpp11', 'nospace'] if quick else ['cpp20', 'cpp11', 'nospace', 'cpp14', 'cpp17', 'cpp23', 'noexc20', 'be20']
    pos = [None] + list(range(64))
    for c in cfgs:
        ops = range(7) if c not in ('cpp11', 'nospace', 'cpp14', 'cpp17') else range(6)
        for how in range(4):
            for k in pos:
                for b in ((0,) if k is None else (0, 1)):
                    yield Cell('u128', c, 'add', (k, b, how))
                    yield Cell('u128', c, 'sub', (k, b, how))
        for k in pos:
            for how in (0, 1):
                yield Cell('u128', c, 'inc', (k, how))
                yield Cell('u128', c, 'dec', (k, how))
            yield Cell('u128', c, 'neg', (k,))
            yield Cell('u128', c, 'truth', ('l', k))
            if k is not None:
                yield Cell('u128', c, 'truth', ('h', k))
            for b in ((0,) if k is None else (0, 1)):
                for w in ops:
                    yield Cell('u128', c, 'cmp', ('l', k, b, w))
                    if k is not None:
                        yield Cell('u128', c, 'cmp', ('h', k, b, w))
                    for side in 'rl':
                        yield Cell('u128', c, 'cmp64', (side, 'l', k, b, w))
                        if k is not None and b == 0:
                            yield Cell('u128', c, 'cmp64', (side, 'h', k, b, w))
        for how in range(7):
            yield Cell('u128', c, 'bits', (how,))
        for n in range(128):
            for how in range(4):
                for t in ((0, 2, 3) if quick and c != 'cpp20' else range(7)):
                    if t == 4 and n > 127:
                        continue
                    yield Cell('u128', c, 'shift', (n, how, t))
        yield Cell('u128', c, 'to', ())
        yield Cell('u128', c, 'fromu', ())
        for neg in (0, 1):
            yield Cell('u128', c, 'froms', (neg,))
