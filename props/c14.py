from bitflow.driver import Cell
LEVEL = 'proof'
TECHNIQUE = 'abstract interpretation of LLVM IR (bit-level value domain) over a partition of the input space'
NOTE = 'Every prefix length (plus out-of-range ones), both strictness modes, all address bits unknown; trusts the clang front end and the analyser in engine/.'
RULE = 'Network creation, masks, broadcast and size: one cell per (width, prefix length, strictness), all address bits unknown.'


def create(ctx, v, p, strict):
    n = 4 if v == 4 else 16
    a = ctx.buf(ctx.bytes('a', n), 'address')
    return 'c14_create%d' % v, [a, ctx.const(64, p), ctx.const(32, strict), ctx.opaque(32, 'stale')]


def createx(ctx, v, p, strict):
    n = 4 if v == 4 else 16
    a = ctx.buf(ctx.bytes('a', n), 'address')
    return 'c14_createx%d' % v, [a, ctx.const(64, p), ctx.const(32, strict)]


def count(ctx, v, p):
    n = 4 if v == 4 else 16
    a = ctx.buf(ctx.bytes('a', n), 'address')
    return 'c14_count%d' % v, [a, ctx.const(64, p)]


def dflt(ctx, v):
    return 'c14_default%d' % v, []


BIGP = {4: [33, 34, 64, 65, 127, 128, 129, 255, 256, 1 << 32, (1 << 32) + 24, (1 << 64) - 1],
        6: [129, 130, 135, 136, 137, 192, 255, 256, 264, 1 << 32, (1 << 32) + 64, (1 << 64) - 1]}


def cells(tier):
    cfgs = ['cpp20', 'cpp11', 'noexc20'] if tier == 'quick' else ['cpp20', 'cpp11', 'cpp14', 'cpp17', 'cpp23', 'noexc20', 'noexc11', 'nospace', 'scope0', 'be20']
    for c in cfgs:
        for v, mx in ((4, 32), (6, 128)):
            yield Cell('net', c, 'dflt', (v,))
            for p in list(range(mx + 1)) + BIGP[v]:
                for s in (0, 1):
                    yield Cell('net', c, 'create', (v, p, s))
                    if not c.startswith('noexc') and (c == 'cpp20' or tier != 'quick'):
                        yield Cell('net', c, 'createx', (v, p, s), summ=[('::ip_to_chars', 15 if v == 4 else 56)])
                if p <= mx:
                    yield Cell('net', c, 'count', (v, p))
