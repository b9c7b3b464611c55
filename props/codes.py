"""Cells shared by C03 and C04: every code-reporting call, over word classes, prefixes and relations."""
from bitflow import engine as E
from bitflow.driver import Cell
from props import text as T
from props import c01, c07, c09
from props.c16 import bits_to_bytes, bit
HUGE = [1 << 32, (1 << 63) - 1, (1 << 64) - 1]
SIZE = {2: 24, 3: 72}
A = frozenset


def L(s):
    return tuple(T.lit(s))


def W(ctx, v, w=64):
    return ctx.const(w, v)


def stales(ctx):
    return [ctx.opaque(32, 'stale'), ctx.opaque(32, 'stale2')]


def parse(ctx, kind, ct, how, strict, specs, what):
    return 'code_%s_%s' % (kind, ct), [T.text(ctx, specs, ct, SIZE.get(how)), W(ctx, len(specs)), W(ctx, how, 32), W(ctx, strict, 32)] + stales(ctx) + [W(ctx, what, 32)]


def blind(ctx, kind, ct, how, strict, specs):
    """completely unknown characters, joined states: some code has been stored over the invalid one"""
    return 'code_%s_%s' % (kind, ct), [c01.chars(ctx, ct, specs), W(ctx, len(specs)), W(ctx, how, 32), W(ctx, strict, 32), W(ctx, 77, 32), W(ctx, 78, 32), W(ctx, 0, 32)]


def scope(ctx, ct, how, any_, specs, what):
    return 'code_scope_' + ct, [T.text(ctx, specs, ct, 16 if how == 2 else None), W(ctx, len(specs)), W(ctx, how, 32), W(ctx, any_, 32)] + stales(ctx) + [W(ctx, what, 32)]


def width(x, six):
    return 128 if x == '6' or x == 'a' and six else 32


def address(ctx, name, x, six, p, kind):
    """'any': unknown; 'net': network bits unknown, host bits zero; ('host', k): as net, with bit k set; 'tail': the last two network bits fixed"""
    w = width(x, six)
    if kind == 'any':
        return ctx.buf(ctx.bytes(name, w // 8), name)
    p = min(p, w)
    bits = [E.const(1, k & 1) if kind == 'tail' and k > p - 3 else bit(ctx, name, k) for k in range(p)] + [E.const(1, 0)] * (w - p)
    if isinstance(kind, tuple):
        bits[kind[1]] = E.const(1, 1)
    return ctx.buf(bits_to_bytes(bits), name)


def from_(ctx, x, six, p, strict, kind, what):
    return 'code_from_' + x, [address(ctx, 'a', x, six, p, kind), W(ctx, six, 32), W(ctx, p), W(ctx, strict, 32)] + stales(ctx) + [W(ctx, what, 32)]


def super_(ctx, x, six, p, d, q, has, what):
    return 'code_super_' + x, [address(ctx, 'a', x, six, p, 'net'), W(ctx, six, 32), W(ctx, p), W(ctx, d), W(ctx, q), W(ctx, has, 32)] + stales(ctx) + [W(ctx, what, 32)]


def subs(ctx, x, six, p, d, q, has, what):
    return 'code_subs_' + x, [address(ctx, 'a', x, six, p, 'tail'), W(ctx, six, 32), W(ctx, p), W(ctx, d), W(ctx, q), W(ctx, has, 32)] + stales(ctx) + [W(ctx, what, 32)]


def excl(ctx, x, six, u6, p, q, rel, what):
    """rel: k < min(p, q): the networks differ first in bit k; -1: the first min(p, q) bits are the same"""
    w = width(x, six)
    if six != u6:
        a, b = address(ctx, 'a', x, six, p, 'net'), address(ctx, 'b', x, u6, q, 'net')
    else:
        m = min(p, q)
        common = [E.const(1, 1) if k > m - 2 else bit(ctx, 'a', k) for k in range(m)]
        far = lambda n, f: bits_to_bytes([E.const(1, (0 if n == 'a' else 1)) if k == rel else common[k] if k < m and (rel < 0 or k < rel) else E.const(1, k & 1) for k in range(f)] + [E.const(1, 0)] * (w - f))
        a, b = ctx.buf(far('a', p), 'a'), ctx.buf(far('b', q), 'b')
    return 'code_excl_' + x, [a, b, W(ctx, six, 32), W(ctx, u6, 32), W(ctx, p), W(ctx, q)] + stales(ctx) + [W(ctx, what, 32)]


SCOPES = ['', 'a', 'eth0', '1', '4294967295', 'abcdefghijklmno', 'abcdefghijklmnop', 'abcdefghijklmnopq', 'a%b', '%', 'a/b', 'e h', 'a\tb', '0123456789abcdefghijklmnopqrstuv']


def cells(tier, whats, cfgs):
    quick = tier == 'quick'
    ws = c09.words(quick)
    for c in cfgs:
        main = c == 'cpp20' or not quick

        def C(make, *params, **o):
            return Cell('codes', c, make, params, group=make, **o)
        cts = ['c', 'w', 'c16', 'c32'] + (['c8'] if '11' not in c and c not in ('cpp14', 'cpp17') else [])
        i = 0
        for kind, l in ws.items():
            for w in l if main else l[::5]:
                if c == 'scope0' and 37 in w:
                    continue
                for what in whats:
                    i += 1
                    hows = [h for h in (0, 1, 2, 3) if len(w) < SIZE.get(h, 999) and not (h > 1 and 0 in w)]
                    for how in ([hows[i % len(hows)]] if quick else hows):
                        for strict in ((i // 3 % 3,) if quick else (0, 1, 2)) if kind[0] == 'n' else (1,):
                            for ct in ((cts[i // 7 % len(cts)],) if quick else cts):
                                yield C('parse', kind, ct, how, strict, w, what, summ=c07.SUMM)
        for ct in cts:
            for s in SCOPES:
                w = L(s)
                for what in whats:
                    for any_ in (0, 1):
                        for how in (0, 1) if any_ or len(s) > 15 else (0, 1, 2):
                            if c == 'scope0':
                                continue
                            yield C('scope', ct, how, any_, w, what, summ=c07.SUMM)
            if not main and ct != 'c':
                continue
            # malformed code units and unknown characters in scopes and addresses
            for ui, u in enumerate(c09.units(ct) if ct != 'c' or c == 'utf8char' else []):
                for wi, w in enumerate((u, L('a') + tuple(u), tuple(u) + L('b'))):
                    for what in whats:
                        if c != 'scope0' and (ui + wi + what) % (3 if quick else 1) == 0:
                            yield C('scope', ct, ui % 2, what & 1, tuple(w), what, summ=c07.SUMM)
                        if (ui + wi) % (4 if quick else 1) == 0:
                            yield C('parse', ('a4', 'a6', 'n4', 'n6')[(ui + what) % 4], ct, ui % 2, 1, L('1') + tuple(w), what, summ=c07.SUMM)
        for x, six, top in (('4', 0, 32), ('6', 1, 128), ('a', 0, 32), ('a', 1, 128)):
            n = 15 if top == 32 else 56
            o = dict(summ=[('::ip_to_chars', n)])
            ps = range(top + 1) if main else [0, 7, 8, top // 2, top]
            for what in whats:
                for p in list(ps) + [top + 1, 255, 256] + HUGE:
                    for strict in (0, 1, 2):
                        yield C('from_', x, six, p, strict, 'net', what, **o)
                        if strict == 0 or p >= top:
                            yield C('from_', x, six, p, strict, 'any', what, **o)
                        for k in {p, top - 1, (p + top) // 2} if p < top and strict else ():
                            yield C('from_', x, six, p, strict, ('host', k), what, **o)
                few = [0, 1, 8, 9, top - 1, top] if main else [0, 9, top]
                for p in few:
                    for d in ([0, 1, 2, 9, 31, 33, 65, 128] if main else [0, 1, 9]) + HUGE:
                        yield C('super_', x, six, p, d, 0, 0, what, **o)
                        yield C('subs', x, six, p, d, 0, 0, what, **o)
                    for q in ([0, 1, 8, 9, 10, top - 1, top, top + 1] if main else [8, 10, top + 1]) + HUGE:
                        for d in (1, 0, 2):
                            yield C('super_', x, six, p, d, q, 1, what, **o)
                            yield C('subs', x, six, p, d, q, 1, what, **o)
                    for q in {0, p - 1, p, p + 1, p + 3, top}:
                        if 0 <= q <= top:
                            for rel in {-1, 0, min(p, q) - 1}:
                                if rel < min(p, q) and (rel >= 0 or abs(p - q) < 5 or q < p):
                                    yield C('excl', x, six, six, p, q, rel, what, **o)
                            if x == 'a':
                                yield C('excl', x, six, 1 - six, p, min(q, 32), 0, what, **o)
        if 1 in whats:
            for kind in ('a4', 'a6', 'aa', 'n4', 'n6', 'na'):
                for ct in cts if main else ('c',):
                    for k in range(0, 8 if kind[1] == '4' or not quick else 5):
                        for how in (0, 1):
                            s = c01.NS if kind[0] == 'n' else c01.ANY
                            yield C('blind', kind, ct, how, 1, (s,) * k, merge=2, summ=c07.SUMM)
                            if kind[0] == 'n' and k:
                                yield C('blind', kind, ct, how, 0, (s,) * k + (47,), merge=2, summ=c07.SUMM)
