from bitflow import engine as E
from bitflow.driver import Cell
LEVEL = 'proof'
TECHNIQUE = 'abstract interpretation of LLVM IR (bit-level and affine value domain) over a partition of the input space'
NOTE = ('Supernet: every prefix and every difference, all address bits unknown. Subnets: every rejected request; every prefix and difference for size, ends and '
        'the element at an unknown index; complete enumeration for differences up to 3.')
RULE = 'Supernet and subnets: one cell per (width, prefix length, difference or new prefix, call form), address bits and index bits unknown.'
BIG = [(1 << 31), (1 << 32), (1 << 32) + 1, (1 << 63), (1 << 64) - 1, (1 << 64) - 8, (1 << 64) - 32, (1 << 64) - 128]


def W(v):
    return (4, 32) if v == 4 else (16, 128)


def bits_to_bytes(bits):
    """list of 1-bit values, most significant first -> bytes"""
    return [E.concat(list(reversed(bits[i:i + 8]))) for i in range(0, len(bits), 8)]


def bit(ctx, name, i):
    return E.slice_(ctx.var('%s%d' % (name, i // 8)), 7 - i % 8, 1)


def netbits(ctx, v, p, z):
    """leading p bits; z: position of their last zero (-1: none, None: unconstrained)"""
    n, w = W(v)
    out = []
    for i in range(p):
        if z is None or i < z:
            out.append(bit(ctx, 'a', i))
        else:
            out.append(E.const(1, 0 if i == z else 1))
    return out


def net(ctx, v, p, z=None, noise=True):
    n, w = W(v)
    b = netbits(ctx, v, p, z)
    b += [E.const(1, 0)] * (w - p)
    return bits_to_bytes(b)


def super_(ctx, v, p, d, q, has):
    n, w = W(v)
    return 'c16_super%d' % v, [ctx.buf(net(ctx, v, p)), ctx.const(64, p), ctx.const(64, d), ctx.const(64, q), ctx.const(32, has), ctx.opaque(32, 'stale')]


def superx(ctx, v, p, d, q, has):
    return 'c16_superx%d' % v, [ctx.buf(net(ctx, v, p)), ctx.const(64, p), ctx.const(64, d), ctx.const(64, q), ctx.const(32, has)]


def suberr(ctx, v, p, d, q, has):
    return 'c16_suberr%d' % v, [ctx.buf(net(ctx, v, p)), ctx.const(64, p), ctx.const(64, d), ctx.const(64, q), ctx.const(32, has), ctx.opaque(32, 'stale')]


def suberrx(ctx, v, p, d, q, has):
    return 'c16_suberrx%d' % v, [ctx.buf(net(ctx, v, p)), ctx.const(64, p), ctx.const(64, d), ctx.const(64, q), ctx.const(32, has)]


def suball(ctx, v, p, d, how, z):
    return 'c16_suball%d' % v, [ctx.buf(net(ctx, v, p, z)), ctx.const(64, p), ctx.const(64, d), ctx.const(32, how), ctx.opaque(32, 'stale')]


def subat(ctx, v, p, d, how, z=None):
    n, w = W(v)
    a = netbits(ctx, v, p, z)
    i = [bit(ctx, 'i', k) for k in range(d)]
    e = a + i + [E.const(1, 0)] * (w - p - d)
    return 'c16_subat%d' % v, [ctx.buf(net(ctx, v, p, z)), ctx.const(64, p), ctx.const(64, d),
                               ctx.buf(bits_to_bytes([E.const(1, 0)] * (128 - d) + i), 'index'), ctx.buf(bits_to_bytes(e), 'expected'), ctx.const(32, how)]


def subends(ctx, v, p, d, z):
    return 'c16_subends%d' % v, [ctx.buf(net(ctx, v, p, z)), ctx.const(64, p), ctx.const(64, d)]


def zs(p, full):
    """positions of the last zero among the network bits"""
    if full:
        return list(range(-1, p))
    return sorted({-1, p - 1, p - 2, 0, p // 2, p - 9} & set(range(-1, p)))


def cells(tier):
    quick = tier == 'quick'
    cfgs = ['cpp20', 'cpp11'] if quick else ['cpp20', 'cpp11', 'cpp17', 'nospace', 'noexc20', 'scope0', 'be20']
    for c in cfgs:
        exc = not c.startswith('noexc')
        for v in (4, 6):
            n, w = W(v)
            main = c == 'cpp20'
            if quick:
                ps = [p for p in range(w + 1) if (v == 4 and (main or p % 4 in (0, 3) or p == 31)) or (v == 6 and (p % 8 in (0, 7) or p in (1, 2, 126, 127) or p % 5 == 3) and (main or p % 16 in (0, 1, 15)))]
            else:
                ps = range(w + 1)
            for p in ps:
                ds = set(range(w + 2)) if v == 4 or not quick else {0, 1, 2, 7, 8, 9, 63, 64, 65, p - 1, p, p + 1, p // 2, 127, 128, 129}
                for d in sorted(d for d in ds | set(BIG) if d >= 0):
                    yield Cell('seq', c, 'super_', (v, p, d, 0, 0))
                    yield Cell('seq', c, 'super_', (v, p, 1, d, 1))
                    if d in (0, 2, 3) or d > 1 << 62:
                        for q in (0, p - 1 if p else 0, p, p + 1):
                            yield Cell('seq', c, 'super_', (v, p, d, q, 1))
                    if exc and (d < 4 or d > w or d in (p, p + 1)):
                        yield Cell('seq', c, 'superx', (v, p, d, 0, 0), summ=[('::ip_to_chars', 15 if v == 4 else 56)])
                        yield Cell('seq', c, 'superx', (v, p, 1, d, 1), summ=[('::ip_to_chars', 15 if v == 4 else 56)])
                    # requests for subnets that cannot be met
                    if p < w:
                        if d > w - p:
                            yield Cell('seq', c, 'suberr', (v, p, d, 0, 0))
                            if exc and (d > w or d == w - p + 1):
                                yield Cell('seq', c, 'suberrx', (v, p, d, 0, 0))
                        if d > w or d < p:
                            yield Cell('seq', c, 'suberr', (v, p, 1, d, 1))
                            if exc and (d > w or d == p - 1):
                                yield Cell('seq', c, 'suberrx', (v, p, 1, d, 1))
                        if d in (0, 2, 3) or d > 1 << 62:
                            for q in (0, p, p + 1, w, w + 1):
                                yield Cell('seq', c, 'suberr', (v, p, d, q, 1))
                # requests that can
                for d in range(0, 4):
                    if p + d <= w or p == w:
                        for how in (range(4) if exc else range(2)):
                            for z in (zs(p, (not quick or v == 4) and how == 0 and d == 1) if how < 2 else ([p - 1] if p else [-1])):
                                yield Cell('seq', c, 'suball', (v, p, d, how, z))
                dd = range(0, w - p + 1) if v == 4 or not quick else sorted({0, 1, 8, 31, 32, 63, 64, 65, w - p - 1, w - p, (w - p) // 2} & set(range(w - p + 1)))
                for d in dd:
                    for how in range(4):
                        if quick and (p + d) % 2 and how not in ((0, 3) if p % 3 else (1, 2)):
                            continue
                        for z in {p - 1, -1}:
                            yield Cell('seq', c, 'subat', (v, p, d, how, z))
                    for z in zs(p, False) if not quick or d in (1, w - p) else {-1, p - 1}:
                        yield Cell('seq', c, 'subends', (v, p, d, z))
