from bitflow import engine as E
from bitflow.driver import Cell
from props import registry as R
from props.c19 import fill
LEVEL = 'proof'
TECHNIQUE = 'abstract interpretation of LLVM IR (bit-level value domain) over the prefix-tree partition of the three schemes'
NOTE = 'Complete: every leaf of the prefix tree of the three schemes, all remaining address bits unknown.'
RULE = 'Embedded IPv4 extraction: one cell per (query, leaf of the prefix tree); the returned bytes are compared bit by bit.'
K = ['mapped', 'sixtofour', 'teredo']


def embedded(ctx, s, q, any_, sc):
    return 'c20_v6', [ctx.buf(fill(ctx, s, 16), 'address'), ctx.const(32, q), ctx.const(32, int(R.under(s, R.B6[K[q]]))), ctx.const(32, any_), ctx.const(32, sc)]


def v4(ctx):
    return 'c20_v4', [ctx.buf(ctx.bytes('a', 4), 'address')]


def cells(tier):
    cfgs = ['cpp20', 'cpp11', 'noexc20'] if tier == 'quick' else ['cpp20', 'cpp11', 'cpp14', 'cpp17', 'cpp23', 'noexc20', 'noexc11', 'nospace', 'scope0', 'be20']
    inner, leaves = R.tree({p for k in K for p in R.B6[k]})
    for c in cfgs:
        yield Cell('cls', c, 'v4', ())
        for q in range(3):
            for s in sorted(leaves):
                for any_ in (0, 1):
                    for sc in (0,) if c == 'scope0' else (0, 97):
                        yield Cell('cls', c, 'embedded', (s, q, any_, sc))
