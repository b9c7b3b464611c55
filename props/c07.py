import random
from bitflow import engine as E
from bitflow.driver import Cell
from props import text as T
LEVEL = 'other'
TECHNIQUE = 'abstract interpretation of LLVM IR (bit-level and affine value domain) over structural classes of the grammar'
NOTE = ('Texts are words of character classes (decimal digit, lower and upper case hex digit, colon, dot, percent, other) read by an independent recogniser of the RFC 4291 forms; '
        'all digits of a class are unknown. Every position of "::" and of the dotted tail, every group length, and every single-character insertion, deletion and replacement of the base forms; '
        'the combination of group lengths and of digit classes over all groups is sampled.')
RULE = 'IPv6 parsing: value of every accepted class and rejection of every other class, the characters of each class unknown.'


def v6(ctx, ct, how, specs):
    specs = list(specs)
    r = T.read6([s for s in specs])
    size = {4: 24, 5: 24, 6: 72, 7: 72}.get(how)
    t = T.text(ctx, specs, ct, size)
    if r is False:
        return 'v6bad_' + ct, [t, ctx.const(64, len(specs)), ctx.const(32, how), ctx.opaque(32, 'stale')]
    return 'v6_' + ct, [t, ctx.const(64, len(specs)), ctx.const(32, how), ctx.const(32, 0), ctx.raw(T.groups_bytes(r), 'groups'), ctx.opaque(32, 'stale')]


BAD = set(range(256)) - set(map(ord, '0123456789abcdefABCDEF:.%'))
T.CLASS['B'] = BAD
T.CLASS['b'] = {c for c in BAD if c < 128}
TAILS = [[49, 46, 50, 46, 51, 46, 'D'], [50, 53, 'M', 46, 48, 46, 50, 53, 53, 46, 49], [48, 46, 49, 'D', 46, 49, 48, 48, 46, 50, 53, 53], [49, 48, 46, 49, 46, 49, 57, 'D', 46, 57]]


def bases(quick):
    for s in range(3 if quick else 9):
        for l in (1, 2, 3, 4):
            yield T.joined([l] * 8, None, seed=s)
        yield T.joined([1, 2, 3, 4, 4, 3, 2, 1], None, seed=s)
    for g in range(8):
        for l in (1, 2, 3, 4):
            for s in range(3):
                yield T.joined([l if i == g else 1 for i in range(8)], None, seed=s)
    for hi in range(8):
        for lo in range(8 - hi):
            for s in range(3 if quick else 9):
                for pat in ([1] * 8, [4] * 8, [2, 1, 4, 3, 1, 2, 3, 4]):
                    yield T.joined(pat[:hi], pat[hi:hi + lo], seed=s)
    for t in TAILS if quick else TAILS + [[50, 53, 'M', 46, 50, 53, 'M', 46, 50, 53, 'M', 46, 50, 53, 'M']]:
        yield T.joined([1] * 6, None, tail=t)
        yield T.joined([4] * 6, None, tail=t, seed=1)
        for hi in range(6):
            for lo in range(6 - hi):
                for pat in ([1] * 8, [4] * 8, [2, 1, 4, 3, 1, 2, 3, 4])[:1 if quick and t is not TAILS[0] else 3]:
                    yield T.joined(pat[:hi], pat[hi:hi + lo], tail=t, seed=hi)


def wrong():
    """structurally wrong texts and texts that look wrong"""
    for n in list(range(1, 8)) + [9, 10, 17]:
        yield T.joined([1] * n, None)
        yield T.joined([4] * n, None, seed=2)
    for hi in range(0, 10):
        for lo in range(0, 10):
            if hi + lo > 7 and (hi + lo < 11 or lo in (0, 9)):
                yield T.joined([1] * hi, [1] * lo)
                yield T.joined([3] * hi, [3] * lo, seed=1)
    for n in (0, 1, 2, 3, 4, 5, 7, 8, 9):
        yield T.joined([1] * n, None, tail=TAILS[0])
    for hi in range(0, 9):
        for lo in range(0, 9):
            if 5 < hi + lo < 9:
                yield T.joined([1] * hi, [1] * lo, tail=TAILS[0])
    for l in (5, 6, 7, 8, 15, 16, 17, 18, 40):
        for g in (0, 3, 7):
            yield T.joined([l if i == g else 1 for i in range(8)], None)
            yield T.joined([l if i == g else 1 for i in range(4)], [1] * 2)
    for s in ('', ':', '::', ':::', '::::', '1', '1:', ':1', '1::', '::1', ':1::', '::1:', '1:::2', '1::2::3', '::1::', '1:2:3:4:5:6:7:', ':1:2:3:4:5:6:7', '1:2:3:4:5:6:7:8:', ':1:2:3:4:5:6:7:8',
              '1:2:3:4:5:6:7::', '::1:2:3:4:5:6:7', '1:2:3:4:5:6:7:8::', '::1:2:3:4:5:6:7:8', '1:2:3:4::5:6:7:8', ':1:2:3:4:5:6::', '::1:2:3:4:5:6:', '%', '%1', ':%1', '::%', '::%%', '::%1%', '.', ':.', '::.',
              '1.2.3.4', ':1.2.3.4', '::1.2.3.4', '::1.2.3', '::1.2.3.', '::.1.2.3', '::1.2.3.4.', '::1.2.3.4.5', '::1..2.3', '::01.2.3.4', '::1.2.3.04', '::256.1.1.1', '::1.1.1.256', '::1111.2.3.4', '::1.2.3.4:', '::1.2.3.4:1', '::1.2.3.4::',
              '1.2.3.4::', '1.2.3.4:1:2:3:4:5:6', '::a.2.3.4', '::1.2.3.f', '::1.2.3.4%1', '::255.255.255.255', '::1:255.255.255.255', '::255.255.255.2555', '::255.255.255.255.', '::ffff:255.255.255.255', '::fffff:1.2.3.4',
              'g::', '::g', '1:2:3:4:5:6:7:g', '0x1::', '-1::', '+1::', '::1 ', ' ::1', '::1/64', '::1/', '[::1]', '::1\n', '::\0', '\0::', '::1\0', '1\0::'):
        yield T.lit(s)


EDIT = [58, 46, 37, 'D', 'x', 'B']


def mutations(base):
    base = list(base)
    for i in range(len(base) + 1):
        for e in EDIT:
            yield base[:i] + [e] + base[i:]
            if i < len(base) and base[i] != e:
                yield base[:i] + [e] + base[i + 1:]
        if i < len(base):
            yield base[:i] + base[i + 1:]


def words(quick):
    seen = set()

    def new(w):
        k = tuple(w)
        if k in seen:
            return False
        seen.add(k)
        if any(k[i:i + 3] == (49, 'D', 'D') and 46 in k for i in range(len(k))):
            return False
        return T.read6(list(w)) is not None
    out = [tuple(w) for w in bases(quick) if new(w)]
    nb = len(out)
    out += [tuple(w) for w in wrong() if new(w)]
    mb = [T.joined([1] * 8, None), T.joined([4, 1, 2, 4, 3, 4, 1, 4], None, seed=1), T.joined([1, 1], [1, 1]), T.joined([], [4, 1], seed=2), T.joined([4, 4], []), T.joined([1] * 6, [1]), T.joined([], []),
          T.joined([1] * 6, None, tail=TAILS[0]), T.joined([], [4], tail=TAILS[0]), T.joined([], [], tail=TAILS[1]), T.joined([1], [], scope=[48, 49])]
    if True:
        mb += [T.joined([4] * 8, None, seed=2), T.joined([4, 3], [2, 1], seed=1), T.joined([1], [], tail=TAILS[3]), T.joined([1], [1] * 6), T.joined([], [1] * 7), T.joined([1] * 7, []), T.joined([1, 2], [3], tail=TAILS[2], scope=[97])]
    for b in mb:
        out += [tuple(w) for w in mutations(b) if new(w)]
    if not quick:
        rnd = random.Random(7)
        for b in mb:
            for _ in range(600):
                w = list(b)
                for _ in range(2):
                    i = rnd.randrange(len(w) + 1)
                    e = rnd.choice(EDIT)
                    w = w[:i] + [e] + w[i + rnd.randrange(2):]
                if new(w):
                    out.append(tuple(w))
    return out, nb


SUMM = [('::ip_to_chars', 56)]


def cells(tier):
    quick = tier == 'quick'
    ws, nb = words(quick)
    for c in ['cpp20', 'cpp11'] if quick else ['cpp11', 'cpp14', 'cpp17', 'cpp20', 'cpp23', 'noexc20', 'noexc11', 'utf8char', 'be20']:
        main = c == 'cpp20'
        for i, w in enumerate(ws):
            if c == 'utf8char':
                w = tuple('b' if s == 'B' else s for s in w)
            if quick and not main and i % 3:
                continue
            yield Cell('parse', c, 'v6', ('c', 0, w), summ=SUMM)
            if i % 16 == 3 and main or not quick and i % 5 == 1:
                for h in (1, 2, 3):
                    if 'noexc' not in c or h == 1:
                        yield Cell('parse', c, 'v6', ('c', h, w), summ=SUMM)
