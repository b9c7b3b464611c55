"""Texts as sequences of character specifications, and the grammar of IPv4
and IPv6 texts written from the standards' textual rules."""
from bitflow import engine as E
DIG = set(range(48, 58))
UNIT = dict(c=1, c8=1, w=4, c16=2, c32=4)
CLASS = {
    'N': set(range(49, 58)), 'D': DIG, 'L': set(range(48, 53)), 'M': set(range(48, 54)), 'H': set(range(54, 58)), 'T': set(range(51, 58)),
    'x': set(range(97, 103)), 'X': set(range(65, 71)),
    '#': set(range(256)) - DIG - {46},         # neither digit nor dot
    'a': set(range(1, 128)) - DIG - {46},      # the same, ASCII
    '*': None,                                 # anything
}
# escapes: a specification is a list; an int is a literal character, a str a class, a set a domain


def unit(ctx, name, spec, w):
    """one code unit of w bytes, least significant first"""
    if isinstance(spec, int):
        return [E.const(8, (spec >> (8 * i)) & 0xFF) for i in range(w)]
    if isinstance(spec, tuple) and spec[0] == 'top':  # highest set bit fixed, lower ones unknown
        j, r = divmod(spec[1], 8)
        b = [ctx.var('%s.%d' % (name, i)) for i in range(j)]
        t = ctx.var('%s.%d' % (name, j)) if r else None
        b.append(E.concat(([E.slice_(t, 0, r)] if r else []) + [E.const(1, 1)] + ([E.const(7 - r, 0)] if r < 7 else [])))
        return b + [E.const(8, 0)] * (w - j - 1)
    if isinstance(spec, tuple):  # bytes given one by one
        return [E.const(8, s) if isinstance(s, int) else ctx.var('%s.%d' % (name, i), set(s)) for i, s in enumerate(spec)]
    dom = CLASS[spec] if isinstance(spec, str) else spec
    if dom is None:
        return [ctx.var('%s.%d' % (name, i)) for i in range(w)]
    return [ctx.var(name, dom)] + [E.const(8, 0)] * (w - 1)


def text(ctx, specs, ct='c', size=None, fill='*', name='t'):
    """-> pointer to the text; size: units of the object (an array), NUL terminated"""
    w = UNIT[ct]
    b = []
    for i, s in enumerate(specs):
        b += unit(ctx, '%s%d' % (name, i), s, w)
    if size is not None:
        b += [E.const(8, 0)] * w
        for i in range(len(specs) + 1, size):
            b += unit(ctx, '%s%d' % (name, i), 0 if i == size - 1 else fill, w)
    return ctx.buf(b, 'text') if b else ctx.out(0, 'text')


def lit(s):
    return [ord(c) for c in s]


# ---- IPv4
FULL = [[48], ['N'], ['N', 'D'], [49, 'D', 'D'], [50, 'L', 'D'], [50, 53, 'M']]
OVER = [[50, 53, 'H'], [50, 'H', 'D'], ['T', 'D', 'D']]
BIG = FULL[3:] + OVER


def v4_texts(prior):
    """every text is described by exactly one of these: (characters read, code, ends, octet places).
    `prior`: the octet forms used for the octets before the one being read"""
    import itertools
    for k in range(5):
        for combo in itertools.product(prior, repeat=k):
            pre, pos = [], []
            for o in combo:
                pos += [len(pre), len(o)]
                pre = pre + o + [46]
            if k == 4:
                yield pre, 9, True, None
                yield pre + ['*'], 9, False, None
                continue
            # an empty octet so far
            yield pre, (1 if k == 0 else 9 if k < 3 else 8), True, None
            yield pre + [46], 8, False, None
            yield pre + ['#'], 12, False, None
            for o in FULL + OVER:
                over = o in OVER
                t = pre + o
                yield t, (9 if k < 3 else 13 if over else 0), True, pos + [len(pre), len(o)]
                yield t + ['#'], 12, False, None
                if over:
                    yield t + [46], 13, False, None
                if len(o) == 3:
                    yield t + ['D'], 11, False, None
                if o == [48]:
                    yield t + ['D'], 10, False, None


# ---- IPv6
SCOPEBAD = {0, 37, 47, 32, 9, 10, 11, 12, 13}
HEXCLS = ('D', 'x', 'X')


def ishex(s):
    return s in HEXCLS or s in ('N', 'L', 'M', 'H', 'T') or isinstance(s, int) and chr(s) in '0123456789abcdefABCDEF'


def isdec(s):
    return s in ('D', 'N', 'L', 'M', 'H', 'T') or isinstance(s, int) and 48 <= s <= 57


def dom(s):
    return {s} if isinstance(s, int) else CLASS[s]


def octet_ok(o):
    """a list of decimal digit specifications: is it an octet?  None: depends on the digits"""
    if not 1 <= len(o) <= 3 or not all(isdec(x) for x in o):
        return False
    if len(o) > 1:
        if dom(o[0]) == {48}:
            return False
        if 48 in dom(o[0]):
            return None
    lo = int(''.join(chr(min(dom(x))) for x in o))
    hi = int(''.join(chr(max(dom(x))) for x in o))
    return True if hi <= 255 else False if lo > 255 else None


def split(specs, ch):
    out, cur, at = [], [], 0
    for i, s in enumerate(specs):
        if s == ch:
            out.append((at, cur))
            cur, at = [], i + 1
        else:
            cur.append(s)
    out.append((at, cur))
    return out


def read6(specs, maxscope=16, bad_scope=None):
    """the RFC 4291 text forms.  -> None (depends on the digits), False (not an address) or
    dict(groups=[(start, len)] * 8, v4=[...] or None, scope=(start, len))"""
    scope = (0, 0)
    if 37 in specs:
        k = specs.index(37)
        scope = (k + 1, len(specs) - k - 1)
        if scope[1] == 0 or scope[1] > maxscope:
            return False
        odd = [dom(x) & SCOPEBAD if dom(x) is not None else SCOPEBAD for x in specs[k + 1:]]
        if any(o and o == dom(x) for o, x in zip(odd, specs[k + 1:])):
            return False
        if any(odd):
            return None
        specs = specs[:k]
    if not specs:
        return False
    parts = split(specs, 58)
    v4 = None
    if any(x == 46 for x in parts[-1][1]):
        at, last = parts[-1]
        os_ = split(last, 46)
        if len(os_) != 4:
            return False
        r = [octet_ok(o) for _, o in os_]
        if False in r:
            return False
        if None in r:
            return None
        v4 = [x for a, o in os_ for x in (at + a, len(o))]
        parts = parts[:-1]
    for _, p in parts:
        if len(p) > 4 or not all(ishex(x) for x in p):
            return False
    lens = [len(p) for _, p in parts]
    want = 6 if v4 else 8
    total = parts + ([(-1, 'v4')] if v4 else [])
    n = len(total)
    empties = [i for i, (a, p) in enumerate(total) if len(p) == 0]
    if not empties:
        if len(parts) != want:
            return False
        g = [(a, len(p)) for a, p in parts]
    else:
        # '::' gives one empty part inside, two at an end, three for '::' alone
        if n == 1:
            return False
        if empties == [0, 1, 2] and n == 3:
            hi, lo = [], []
        elif empties == [0, 1] and n > 2:
            hi, lo = [], parts[2:]
        elif empties == [n - 2, n - 1] and n > 2:
            hi, lo = parts[:-2], []
        elif len(empties) == 1 and 0 < empties[0] < n - 1:
            hi, lo = parts[:empties[0]], parts[empties[0] + 1:]
        else:
            return False
        if len(hi) + len(lo) > want - 1:
            return False
        g = [(a, len(p)) for a, p in hi] + [(0, 0)] * (want - len(hi) - len(lo)) + [(a, len(p)) for a, p in lo]
    if v4:
        g += [(0, 0), (0, 0)]
    return dict(groups=g, v4=v4, v4at=(v4[0] if v4 else 0), scope=scope)


def groups_bytes(r):
    """the struct the entries take"""
    if not r:
        return bytes(27)
    b = bytes(a for a, l in r['groups']) + bytes(l for a, l in r['groups'])
    b += bytes([1 if r['v4'] else 0, r['scope'][0], r['scope'][1]])
    return b + bytes(r['v4'] or [0] * 8)


def hexes(n, seed):
    return [HEXCLS[(i * (1 + seed // 3) + seed) % 3] for i in range(n)]


def joined(hi, lo, tail=None, seed=0, scope=None):
    """groups of the given lengths, '::' between hi and lo (lo None: no '::')"""
    def grp(ls, k):
        o = []
        for j, l in enumerate(ls):
            if j:
                o.append(58)
            o += hexes(l, seed + k + j)
        return o
    t = grp(hi, 0)
    if lo is not None:
        t += [58, 58] + grp(lo, len(hi))
        if tail:
            t += ([58] if lo else []) + tail
    elif tail:
        t += ([58] if hi else []) + tail
    if scope:
        t += [37] + list(scope)
    return t
