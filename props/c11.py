from bitflow.driver import Cell
LEVEL = 'proof'
TECHNIQUE = 'abstract interpretation of LLVM IR (bit-level value domain), all address bits unknown, host and big-endian targets'
NOTE = 'All addresses at once (every bit symbolic), raw ranges of 0..24 bytes, lowered for little- and big-endian data layouts; 32-bit targets in thorough.'
RULE = 'Byte and integer conversions: one cell per (type, conversion, target configuration), every address bit unknown.'


def conv(ctx, v, w):
    n = 4 if v == 4 else 16
    return 'c11_v%d' % v, [ctx.buf(ctx.bytes('a', n), 'address'), ctx.const(32, w)]


def raw(ctx, v, n):
    return 'c11_raw%d' % v, [ctx.buf(ctx.bytes('p', n), 'range'), ctx.const(64, n)]


def cells(tier):
    cfgs = ['cpp20', 'cpp11', 'noexc17', 'be20', 'be11'] if tier == 'quick' else ['cpp20', 'cpp11', 'cpp14', 'cpp17', 'cpp23', 'noexc20', 'noexc11', 'noexc17', 'nospace', 'scope0', 'noover', 'be20', 'be11']
    for c in cfgs:
        for v in (4, 6):
            for w in range(9):
                yield Cell('conv', c, 'conv', (v, w))
            for n in range(0, 25 if tier == 'quick' else 65):
                yield Cell('conv', c, 'raw', (v, n))
