from bitflow import engine as E
from bitflow.driver import Cell
from props import registry as R
LEVEL = 'proof'
TECHNIQUE = 'abstract interpretation of LLVM IR (bit-level value domain) over the prefix-tree partition induced by the registry ranges'
NOTE = 'Addresses: every leaf of the prefix tree of the registry ranges, remaining bits unknown. Networks: every inner node of the tree and, per leaf, several prefix lengths (thorough: all).'
RULE = 'Classification: one cell per (query, leaf of the registry prefix tree); answers come from the documented ranges.'


def fill(ctx, s, n, p=None):
    """bytes of an address with leading bits s, unknown below (zero beyond p)"""
    out = []
    for i in range(n):
        seg = s[i * 8:i * 8 + 8]
        free = 8 - len(seg)
        zero = 0
        if p is not None:
            zero = min(8, max(0, (i + 1) * 8 - p))
            if zero > free:
                seg = seg[:8 - zero] if len(seg) > 8 - zero else seg
                free = 8 - len(seg)
        if free == 0:
            out.append(E.const(8, int(seg, 2)))
            continue
        parts = []
        if zero:
            parts.append(E.const(zero, 0))
        if free - zero > 0:
            v = ctx.var('a%d' % i)
            parts.append(E.slice_(v, zero, free - zero))
        if seg:
            parts.append(E.const(len(seg), int(seg, 2)))
        out.append(E.concat(parts))
    return out


def address(ctx, v, s, any_, sc=0):
    n = 4 if v == 4 else 16
    want = sum(R.addr_want(v, q, s) << i for i, q in enumerate(R.Q))
    return 'c19_every%d' % v, [ctx.buf(fill(ctx, s, n), 'address'), ctx.const(32, want), ctx.const(32, any_), ctx.const(32, sc)]


def net(ctx, v, s, p, any_):
    n = 4 if v == 4 else 16
    want = sum(R.net_want(v, q, s, p) << i for i, q in enumerate(R.Q))
    return 'c19_everyn%d' % v, [ctx.buf(fill(ctx, s, n, p), 'network'), ctx.const(64, p), ctx.const(32, want), ctx.const(32, any_)]


def cells(tier):
    quick = tier == 'quick'
    cfgs = ['cpp20', 'cpp11'] if quick else ['cpp20', 'cpp11', 'cpp14', 'cpp17', 'cpp23', 'noexc20', 'scope0', 'be20']
    for c in cfgs:
        # static tables initialised dynamically in C++11: run their initialisers first
        o = {'ctors': 1} if c == 'cpp11' else {}
        for v, mx in ((4, 32), (6, 128)):
            inner, leaves = R.nodes(v)
            for any_ in (0, 1):
                for s in sorted(leaves):
                    yield Cell('cls', c, 'address', (v, s, any_), group='addresses v%d' % v, **o)
                    if v == 6 and c != 'scope0' and not (quick and c == 'cpp11'):
                        yield Cell('cls', c, 'address', (v, s, any_, ord('7')), group='scoped addresses', **o)
                if quick and c == 'cpp11':
                    continue
                for s in sorted(inner):
                    yield Cell('cls', c, 'net', (v, s, len(s), any_), group='networks', **o)
                for s in sorted(leaves):
                    ps = {len(s), min(mx, len(s) + 1), mx - 1, mx} if quick else set(range(len(s), mx + 1, 1 if v == 4 or c == 'cpp20' else 5))
                    for p in sorted(x for x in ps if x >= len(s)):
                        yield Cell('cls', c, 'net', (v, s, p, any_), group='networks', **o)
