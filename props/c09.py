from bitflow import engine as E
from bitflow.driver import Cell
from props import text as T
from props import c06, c07, c08
LEVEL = 'other'
TECHNIQUE = 'abstract interpretation of LLVM IR (bit-level and affine value domain) over structural classes of the grammar'
NOTE = ('Agreement of every character type and entry point with the narrow code-reporting view on a sample of the word classes of C06, C07 and C08 (characters of a class unknown); '
        'rejection of every class of non-ASCII or ill-formed code unit at the start, middle and end of address, scope and prefix.')
RULE = 'Entry points: equal object and equal code for the same ASCII text; a foreign code unit is never accepted.'
ASSUME = ['plain narrow text is ASCII unless IPADDRESS_CHAR_IS_UTF8 is defined, as the documentation says']
SUMM = c07.SUMM
SIZE = {4: 24, 5: 24, 6: 72, 7: 72}


def agree(ctx, kind, ct, how, specs, tail):
    """tail: what follows the terminating NUL of an array (never read)"""
    t = T.text(ctx, specs, 'c')
    u = T.text(ctx, specs, ct, SIZE.get(how), tail)
    return 'agree_%s_%s' % (kind, ct), [t, u, ctx.const(64, len(specs)), ctx.const(32, how), ctx.opaque(32, 'stale'), ctx.opaque(32, 'stale2')]


def foreign(ctx, kind, ct, how, specs):
    return 'foreign_%s_%s' % (kind, ct), [T.text(ctx, specs, ct, SIZE.get(how)), ctx.const(64, len(specs)), ctx.const(32, how), ctx.opaque(32, 'stale')]


def ascii_(w):
    m = {'#': 'a', '#~': 'a~', 'B': 'b1', '*': 'a*', '*~': 'a*'}
    r = []
    for x in w:
        x = m.get(x, x) if isinstance(x, str) else x
        r.append(frozenset(x) if isinstance(x, (set, frozenset)) else x)
    return tuple(r)


T.CLASS['a*'] = set(range(1, 128)) - {47}
T.CLASS['b1'] = T.CLASS['b'] - {0}


def words(quick):
    v4 = [s for s, c, e, p in T.v4_texts([T.FULL[1], T.FULL[5]])]
    v4 = v4[::3] if quick else v4
    ws, nb = c07.words(True)
    v6 = ws[:nb:9] + ws[nb::23] if quick else ws[:nb:2] + ws[nb::4]
    n4 = [s for s, *_ in c08.texts4(True)][::13 if quick else 2]
    n6 = [s for s, *_ in c08.texts6(True)][::11 if quick else 2]
    f = lambda l: list(dict.fromkeys(ascii_(w) for w in l))
    # NUL inside an array ends it: keep explicit NULs to the views
    return dict(a4=f(v4), a6=f(v6), aa=f(v4[::2] + list(v6[::2])), n4=f(n4), n6=f(n6), na=f([w for w in n4[::2] + n6[::2] if 47 not in w or all(isinstance(x, int) for x in list(w)[list(w).index(47):])]))


A = frozenset
ANY = A(range(256))
HI = A(range(128, 256))


def units(ct):
    """classes of one foreign code unit (bytes, least significant first), and what may follow it"""
    if ct in ('c8', 'c'):
        cont = [(ANY,)]
        for lead in ((range(0x80, 0xC0)), (0xC0, 0xC1), range(0xC2, 0xE0), (0xE0,), range(0xE1, 0xF0), (0xF0,), range(0xF1, 0xF8), range(0xF8, 0x100)):
            for k in range(4):
                yield [(A(lead),)] + cont * k
    elif ct == 'c16':
        for k in range(7, 15):
            yield [('top', k)]
        for hi in (A(range(0x80, 0xD8)), A(range(0xE0, 256)), A(range(0xDC, 0xE0))):
            yield [(ANY, hi)]
        yield [(ANY, A(range(0xD8, 0xDC)))]
        yield [(ANY, A(range(0xD8, 0xDC))), (ANY, A(range(0xDC, 0xE0)))]
        yield [(ANY, A(range(0xD8, 0xDC))), (ANY, A(range(0xD8, 0xDC)))]
        yield [(ANY, A(range(0xD8, 0xDC))), (ANY, 0)]
    else:
        for k in range(7, 32):
            yield [('top', k)]


HOSTS = dict(a4=['1.2.3.4', '10.20.30.40'], a6=['1:2:3:4:5:6:7:8', '::1', '1::2%ab', '::1.2.3.4'], aa=['1.2.3.4', '::1'], n4=['10.0.0.0/8', '10.0.0.0/255.0.0.0'], n6=['ab::/16'], na=['10.0.0.0/8', 'ab::/16'])


def cells(tier):
    quick = tier == 'quick'
    ws = words(quick)
    for c in ['cpp20', 'cpp11', 'utf8char'] if quick else ['cpp20', 'cpp11', 'cpp14', 'cpp17', 'cpp23', 'noexc20', 'noexc11', 'utf8char', 'scope0']:
        cts = ['c', 'w', 'c16', 'c32'] + (['c8'] if '11' not in c and c not in ('cpp14', 'cpp17') else [])
        nttp = c not in ('cpp11', 'cpp14', 'cpp17')
        for kind, l in ws.items():
            for i, w in enumerate(l):
                if c == 'scope0' and 37 in w:
                    continue
                for j, ct in enumerate(cts):
                    hows = [0, 1, 2, 3, 4, 5, 6, 7] + ([8] if not nttp else [])
                    if 'noexc' in c:
                        hows = [0, 1, 4, 6]
                    if ct == 'c':
                        hows = hows[1:]
                    if 0 in w or 'a' in w and False:
                        hows = [h for h in hows if h < 4]
                    hows = [h for h in hows if len(w) < SIZE.get(h, {8: 15 if kind == 'a4' else 18 if kind == 'n4' else 15}.get(h, 999))]
                    if c == 'utf8char' and ct != 'c':
                        continue
                    if quick:
                        hows = [hows[(i + j * 3 + k) % len(hows)] for k in range(2 if c == 'cpp20' else 1)]
                    for h in dict.fromkeys(hows):
                        yield Cell('parse', c, 'agree', (kind, ct, h, w, '*' if h in (4, 5, 6, 7) else 0), summ=SUMM)
        for ct in cts:
            if ct == 'c' and c != 'utf8char' or c == 'utf8char' and ct != 'c':
                continue
            for kind, hs in HOSTS.items():
                for hi, h0 in enumerate(hs):
                    if c == 'scope0' and '%' in h0:
                        continue
                    b = T.lit(h0)
                    for ui, u in enumerate(units(ct)):
                        for at in range(len(b) + 1):
                            if quick and (at + ui + hi) % (4 if c == 'cpp20' else 7) and at not in (0, len(b)):
                                continue
                            for repl in (0, 1):
                                if repl and (at == len(b) or quick and (at + ui) % 2):
                                    continue
                                w = tuple(b[:at] + u + b[at + repl:])
                                hows = [(at + ui + repl) % 4] if quick else [0, (at + ui) % 4, 6]
                                for how in dict.fromkeys(hows):
                                    if 'noexc' in c and how in (2, 3):
                                        how -= 2
                                    yield Cell('parse', c, 'foreign', (kind, ct, how, w), summ=SUMM)
