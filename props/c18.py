from bitflow import engine as E
from bitflow.driver import Cell
from props.c16 import W, bits_to_bytes, bit, netbits, net, zs
LEVEL = 'other'
TECHNIQUE = 'abstract interpretation of LLVM IR (bit-level and affine value domain) over a partition of the input space'
NOTE = ('Small sequences (up to 14 elements: hosts of the four or five longest prefixes, subnetworks for differences up to 3) are walked completely in every direction, with the address bits unknown above a fixed carry stop '
        '(patterns 0 1^k and 1 0^k); for every prefix length the size, ends and the element at an unknown index are decided with the index bits unknown (one cell per position of the lowest zero bit). '
        'The carry-stop patterns make the partition of the small sequences incomplete on the quick tier, hence "other".')
RULE = ('Sequences: complete laws (order, both directions, indexing, differences, iterator arithmetic, relations) for the sequences of up to 14 elements, address bits unknown; '
        'size, ends and the element at an unknown index for every prefix length.')


def shaped(ctx, v, p, s):
    """network bits: unknown, then 0 1^k ('u01', k) or 1 0^k ('u10', k): additions and
    subtractions of small numbers stop inside the fixed part; k == p: no unknown bit"""
    n, w = W(v)
    kind, k = s
    lead, rest = ([0], 1) if kind == 'u01' else ([1], 0)
    t = lead + [rest] * k if k < p else [rest] * p
    b = [bit(ctx, 'a', i) for i in range(p - len(t))] + [E.const(1, x) for x in t]
    return bits_to_bytes(b + [E.const(1, 0)] * (w - p))


def shapes(p, full):
    if p == 0:
        return [('u01', 0)]
    ks = range(1, p + 1) if full else sorted({min(1, p), min(p, 2), p // 2 or 1, p})
    return [(kind, k) for kind in ('u01', 'u10') for k in ks]


def hosts(ctx, v, p, part, z):
    return 'c18_hosts%d' % v, [ctx.buf(shaped(ctx, v, p, z)), ctx.const(64, p), ctx.const(32, part)]


def subs(ctx, v, p, d, part, z):
    return 'c18_subs%d' % v, [ctx.buf(shaped(ctx, v, p, z)), ctx.const(64, p), ctx.const(64, d), ctx.const(32, part)]


def big(ctx, v, p, z):
    return 'c18_big%d' % v, [ctx.buf(net(ctx, v, p, z)), ctx.const(64, p)]


def at(ctx, v, p, how, z, y):
    """index: unknown bits, a zero at position y from the right, ones below"""
    n, w = W(v)
    h = w - p
    a = netbits(ctx, v, p, z)
    i = [bit(ctx, 'i', k) for k in range(h - y - 1)] + [E.const(1, 0)] + [E.const(1, 1)] * y
    e = a + [bit(ctx, 'i', k) for k in range(h - y - 1)] + [E.const(1, 1)] + [E.const(1, 0)] * y
    return 'c18_at%d' % v, [ctx.buf(net(ctx, v, p, z)), ctx.const(64, p), ctx.buf(bits_to_bytes([E.const(1, 0)] * (128 - h) + i), 'index'),
                            ctx.buf(bits_to_bytes(e), 'expected'), ctx.const(32, how)]


def cells(tier):
    quick = tier == 'quick'
    cfgs = ['cpp20', 'cpp11'] if quick else ['cpp20', 'cpp11', 'cpp17', 'nospace', 'noexc20', 'scope0', 'be20']
    for c in cfgs:
        main = c == 'cpp20'
        for v in (4, 6):
            n, w = W(v)
            for p in range(w - (3 if quick else 4), w + 1):
                for part in range(8):
                    if (w - p == 4 and part > 3) or (w - p == 3 and part in (4, 5, 6) and quick):
                        continue
                    for s in shapes(p, not quick) if main or not quick else [('u01', 1), ('u10', 1)]:
                        if quick and part not in (0, 2) and s[1] not in (1, p):
                            continue
                        yield Cell('iter', c, 'hosts', (v, p, part, s))
            if quick:
                ps = ([0, 1, 8, 24, 29, 30, 31, 32] if main else [0, 30, 31, 32]) if v == 4 else ([0, 1, 62, 63, 64, 65, 125, 126, 127, 128] if main else [0, 63, 64, 126, 127, 128])
            else:
                ps = range(w + 1)
            for p in ps:
                for d in (0, 1, 2, 3):
                    if p + d > w and p != w or (p == w and d > 1):
                        continue
                    for part in range(8):
                        if d == 3 and quick and (part > 2 or p not in (0, w - 3)) or d == 2 and part in (4, 5, 6) and quick and p % 31:
                            continue
                        for s in [x for x in shapes(p, False) if x[1] in (1, p)] if main and part < 3 or not quick else [('u01', 1 if p else 0)] + ([('u10', 1)] if p else []):
                            yield Cell('iter', c, 'subs', (v, p, d, part, s))
            for p in range(w + 1):
                if quick and not main and p % 8 not in (0, 7):
                    continue
                for z in zs(p, (v == 4 and main) or not quick):
                    yield Cell('iter', c, 'big', (v, p, z))
                h = w - p
                if h >= 2:
                    ys = range(h) if v == 4 and main or not quick else sorted({0, 1, h - 1, h // 2, 63 if h > 63 else 0, 64 if h > 64 else 0})
                    for y in ys:
                        if (1 << h) - 1 <= (1 << (y + 1)) - 1 and v == 4 and y == h - 1:
                            pass
                        for how in range(5):
                            if quick and (p + y) % 5 != how and not (p % 8 == 0 and main):
                                continue
                            yield Cell('iter', c, 'at', (v, p, how, p - 1 if p else -1, y))
