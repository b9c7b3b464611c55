from bitflow import engine as E
from bitflow.driver import Cell
from props import text as T
from props.c07 import TAILS, SUMM, wrong, BAD
LEVEL = 'other'
TECHNIQUE = 'abstract interpretation of LLVM IR (bit-level and affine value domain) over structural classes of the grammar'
NOTE = ('Every prefix length, netmask and hostmask, strict and non-strict, with unknown digits above the prefix and each kind of host bit; classes of malformed prefixes, slashes and addresses. '
        'Combinations of address form and prefix form are sampled; scope suffixes in network texts are left to C22.')
RULE = 'Network texts: resulting prefix, mask and masked address of every accepted class; code of every rejected class.'


def n4(ctx, ct, how, strict, specs, code, pos, plen):
    size = {4: 24, 5: 24, 6: 72, 7: 72}.get(how)
    t = T.text(ctx, specs, ct, size)
    return 'n4_' + ct, [t, ctx.const(64, len(specs)), ctx.const(32, how), ctx.const(32, strict), ctx.const(32, code),
                        ctx.raw(bytes(pos or [0] * 8), 'pos'), ctx.const(64, plen), ctx.opaque(32, 'stale')]


def n6(ctx, ct, how, strict, specs, code, plen):
    size = {4: 24, 5: 24, 6: 72, 7: 72}.get(how)
    t = T.text(ctx, specs, ct, size)
    if code < 0:
        return 'n6bad_' + ct, [t, ctx.const(64, len(specs)), ctx.const(32, how), ctx.const(32, strict), ctx.opaque(32, 'stale')]
    a = list(specs)[:list(specs).index(47)] if 47 in specs else list(specs)
    g = T.read6(a) if not code else None
    return 'n6_' + ct, [t, ctx.const(64, len(specs)), ctx.const(32, how), ctx.const(32, strict), ctx.const(32, code),
                        ctx.raw(T.groups_bytes(g), 'groups'), ctx.const(64, plen), ctx.opaque(32, 'stale')]


def dotted(octs):
    """octets (ints or digit forms) -> specs, places"""
    s, pos = [], []
    for i, o in enumerate(octs):
        if i:
            s.append(46)
        o = T.lit(str(o)) if isinstance(o, int) else o
        pos += [len(s), len(o)]
        s += o
    return s, pos


def mask(p, w=32):
    return ((1 << p) - 1) << (w - p)


def addr4(p, host, k=0):
    """an address text of prefix p; host: None aligned, else which host bit is set"""
    o = []
    for i in range(4):
        if p >= 8 * (i + 1):
            # (digits of one-digit octets only where host bits matter: the comparison with the masked value stays decidable)
            o.append(T.FULL[(i + p + k) % 6] if host is None else [['N'], 0, 9, 255, 100, ['N']][(i + p + k) % 6])
        elif p <= 8 * i:
            o.append(0)
        else:
            o.append([mask(p - 8 * i, 8), 1 << (8 * (i + 1) - p), mask(p - 8 * i, 8) & 0x55 | 0x80][k % 3])
    if host is not None:
        if host == 'N':
            o[3] = ['N'] if 32 - p >= 8 else o[3] | 1
        else:
            i = host // 8
            o[i] = (o[i] if isinstance(o[i], int) else 0) | 0x80 >> host % 8
    return dotted(o)


def texts4(quick):
    """(specs, strict, code, places, prefix)"""
    sl = [47]
    for p in range(33):
        forms = [T.lit(str(p))]
        if p % 4 == 0 or not quick:
            forms += [T.lit('0%d' % p), T.lit('000000000000000000000%d' % p)]
        m, h = mask(p), mask(p) ^ 0xFFFFFFFF
        dm = ['.'.join(str(x >> s & 255) for s in (24, 16, 8, 0)) for x in (m, h)]
        forms.append(T.lit(dm[0]))
        if p not in (0, 32):
            forms.append(T.lit(dm[1]))
        for fi, f in enumerate(forms):
            for k in range(3):
                s, pos = addr4(p, None, k)
                for st in (0, 1):
                    yield s + sl + f, st, 0, pos, p
            if p < 32:
                for host in ['N', p, (p + 31) // 2, 31][:4 if fi == 0 else 1]:
                    s, pos = addr4(p, host, p)
                    yield s + sl + f, 1, 5, None, 0
                    yield s + sl + f, 0, 0, pos, p
    s0, p0 = dotted([10, 0, 0, 0])
    # no prefix
    for f in range(6):
        s, pos = dotted([T.FULL[(f + i) % 6] for i in range(4)])
        yield s, 1, 0, pos, 32
        yield s, 0, 0, pos, 32
    # impossible prefixes
    bad = [[51, {51, 52, 53, 54, 55, 56, 57}], [{52, 53, 54, 55, 56, 57}, 'D'], ['N', 'D', 'D'], ['N', 'D', 'D', 'D'], ['N'] + ['D'] * 9, ['N'] + ['D'] * 19, ['N'] + ['D'] * 40, [48, 51, 51], [48, 'N', 'D', 'D']]
    bad += [T.lit(x) for x in ('4294967296', '4294967304', '18446744073709551616', '18446744073709551640', '18446744073709551624', '34028236692093846346337460743176821145', '-1', '+8', ' 8', '8 ', '0x8', '8.', '.8', '1.2', '1.2.3', '255.255.255', '255.255.255.256',
                               '255.255.255.0.', '255.255.255.0.0', '255.255.255.00', '::', 'ffff::')]
    bad += [['#~'], ['D', '#~'], ['D', 'D', '#~'], ['#~', 'D'], T.lit('255.255.255.') + ['#~'], T.lit('255.255.255.0') + ['#~']]
    for b in bad:
        for st in (0, 1):
            yield s0 + sl + b, st, 3, None, 0
    # masks that mix ones and zeros
    for m in list(dict.fromkeys([0xFF00FF00, 0x00FF00FF, 0xFFFFFF01, 0x80000001, 0x7FFFFFFE, 0x0000FF00, 0xAAAAAAAA, 0x55555555, 0xFFFF0001, 0xFFFEFFFF, 0xC0000001, 0x00800000, 0x40000000, 0x7FFF0000] +
                                [mask(p) ^ (1 << b) for p in range(2, 31) for b in (0, 31, 32 - p + 1) if b != 32 - p and not (b == 31 and p == 1)][::1 if not quick else 3])):
        c = ~m & 0xFFFFFFFF
        if c & (c + 1) == 0 or m & (m + 1) == 0:
            continue
        yield s0 + sl + T.lit('.'.join(str(m >> s & 255) for s in (24, 16, 8, 0))), 1, 4, None, 0
    # slashes
    for t in ('10.0.0.0/', '/', '10.0.0.0//'):
        yield T.lit(t), 1, 6 if t.endswith('//') else 2, None, 0
    for t in ('10.0.0.0//8', '10.0.0.0/8/8', '//', '/8/8', '10.0/0.0/8', '10.0.0.0/8/x', '10.0.0.0/255.0.0.0/8'):
        yield T.lit(t), 0, 6 if t != '//' else 6, None, 0
    yield T.lit('10.0.0.0/8/'), 1, 6, None, 0
    yield T.lit('/8'), 1, 1, None, 0
    yield T.lit('/255.0.0.0'), 1, 1, None, 0
    yield [], 1, 1, None, 0
    # a malformed address, with and without a prefix
    for i, (s, code, ends, pos) in enumerate(T.v4_texts([T.FULL[0], T.FULL[5]])):
        s = ['#~' if x == '#' else '*~' if x == '*' else x for x in s]
        if code in (0, 1):
            continue
        yield s, i % 2, code, None, 0
        yield s + T.lit(['/0', '/24', '/32', '/255.255.255.0'][i % 4]), i % 2, code, None, 0
    for s in ('10.0.0.0.0.0.0.0.0.0.0.0.0', '10.0.0.0xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx'):
        yield T.lit(s) + T.lit('/8'), 1, 9 if 'x' not in s else 12, None, 0


T.CLASS['#~'] = T.CLASS['#'] - {47}
T.CLASS['a~'] = T.CLASS['a'] - {47}
T.CLASS['*~'] = set(range(256)) - {47}
T.CLASS['b*~'] = set(range(128)) - {47}


def addr6(p, host, k=0):
    """eight groups; digits above the prefix unknown, host digits zero or with one bit set"""
    s = []
    for g in range(8):
        if g:
            s.append(58)
        for d in range(4):
            n = 4 * (4 * g + d)
            hb = host is not None and n <= host < n + 4 and 8 >> (host - n) or 0
            if p >= n + 4:
                s.append(T.HEXCLS[(g + d + k) % 3])
            elif p <= n:
                s.append(ord('%x' % hb))
            else:
                v = [mask(p - n, 4), 1 << (4 - (p - n)), 8][k % 3] | hb
                s.append(ord('%x' % v if k % 2 else '%X' % v))
    return s


def texts6(quick):
    sl = [47]
    for p in range(129):
        for k in range(3 if p % 4 or not quick else 1):
            for st in (0, 1):
                yield addr6(p, None, k) + sl + T.lit(str(p)), st, 0, p
        if p % 16 == 0 or not quick:
            yield addr6(p, None, 1) + sl + T.lit('00%d' % p), 1, 0, p
        if p < 128:
            for host in sorted({p, 127, (p + 127) // 2, min(127, (p // 8 + 1) * 8)}):
                yield addr6(p, host, p) + sl + T.lit(str(p)), 1, 5, 0
                yield addr6(p, host, p) + sl + T.lit(str(p)), 0, 0, p
    yield addr6(128, None), 1, 0, 128
    yield addr6(128, None, 1), 0, 0, 128
    for a, p in (('::', 0), ('::', 128), ('1::', 16), ('fe80::', 10), ('2001:db8::', 32), ('::1', 128), ('::ffff:1.2.3.0', 120), ('64:ff9b::', 96), ('::', 64)):
        yield T.lit('%s/%d' % (a, p)), 1, 0, p
    s0 = T.lit('2001::')
    bad = [[49, 50, {57}], [49, {51, 52, 53, 54, 55, 56, 57}, 'D'], [{50, 51, 52, 53, 54, 55, 56, 57}, 'D', 'D'], ['N', 'D', 'D', 'D'], ['N'] + ['D'] * 9, ['N'] + ['D'] * 19, ['N'] + ['D'] * 40, [48, 49, 50, 57]]
    bad += [T.lit(x) for x in ('4294967296', '4294967360', '18446744073709551616', '18446744073709551680', '-1', '+8', ' 8', '8 ', '0x8', '8.', '.8', 'ffff::', '255.0.0.0', '::', 'a', '6a')]
    bad += [['#~'], ['D', '#~'], ['D', 'D', '#~'], ['#~', 'D'], ['D', 'D', 'D', '#~']]
    for b in bad:
        for st in (0, 1):
            yield s0 + sl + b, st, 3, 0
    for t in ('2001::/', '/', '::/'):
        yield T.lit(t), 1, 2, 0
    for t in ('2001:://8', '2001::/8/8', '//', '/8/8', '2001/::/8', '::/8/x', '::/8/'):
        yield T.lit(t), 0, 6, 0
    yield T.lit('/8'), 1, 1, 0
    yield [], 1, 1, 0
    for i, w in enumerate(wrong()):
        if 47 in w or 37 in w or not w:
            continue
        if T.read6(w) is False:
            yield list(w) + T.lit(['/0', '/64', '/128', ''][i % 4]), i % 2, -1, 0
    for sfx in ('x' * 20, '1' * 20, ':' * 20):
        yield T.lit('1:2:3:4:5:6:7:8' + sfx) + T.lit('/64'), 1, -1, 0


def cells(tier):
    quick = tier == 'quick'
    t4 = list(texts4(quick))
    t6 = list(texts6(quick))
    for c in ['cpp20', 'cpp11'] if quick else ['cpp11', 'cpp14', 'cpp17', 'cpp20', 'cpp23', 'noexc20', 'noexc11', 'scope0', 'utf8char', 'be20']:
        main = c == 'cpp20'
        low = lambda s: tuple({'#~': 'a~', '*~': 'b*~'}.get(x, x) if c == 'utf8char' and isinstance(x, str) else x for x in s)
        for i, (s, st, code, pos, p) in enumerate(t4):
            hows = [0 if main or i % 2 else 1] if quick else [0, 1]
            if 'noexc' not in c and (i % 6 == 0 or not quick and i % 2):
                hows += [2] if i % 12 else [3]
            for h in hows:
                s_ = tuple(frozenset(x) if isinstance(x, set) else x for x in low(s))
                yield Cell('parse', c, 'n4', ('c', h, st, s_, code, tuple(pos) if pos else None, p), summ=SUMM)
        for i, (s, st, code, p) in enumerate(t6):
            if quick and not main and i % 3:
                continue
            hows = [0 if main or i % 2 else 1] if quick else [0, 1]
            if 'noexc' not in c and (i % 6 == 0 or not quick and i % 2):
                hows += [2] if i % 12 else [3]
            for h in hows:
                s_ = tuple(frozenset(x) if isinstance(x, set) else x for x in low(s))
                yield Cell('parse', c, 'n6', ('c', h, st, s_, code, p), summ=SUMM)
