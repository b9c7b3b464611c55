from bitflow import engine as E
from bitflow.driver import Cell
from props import text as T
LEVEL = 'other'
TECHNIQUE = 'abstract interpretation of LLVM IR (bit-level and affine value domain) over the prefix automaton of the grammar'
NOTE = ('Every text is classified by its longest viable prefix and the character that ends it; the digits of each form and the text after the fault are unknown. '
        'Complete for octet forms; the length of the text after the first fault is sampled.')
RULE = 'IPv4 parsing: result and code of every prefix class of the dotted-quad grammar (octet forms 0, N, ND, 1DD, 2[0-4]D, 25[0-5] and their faults), all digits unknown.'


def v4(ctx, ct, how, specs, code, pos, rest):
    s = list(specs) + ['*'] * rest
    size = {4: 24, 5: 24, 6: 72, 7: 72}.get(how)
    t = T.text(ctx, s, ct, size)
    p = ctx.raw(bytes(pos) if pos and code == 0 else bytes(8), 'pos')
    return 'v4_' + ct, [t, ctx.const(64, len(s)), ctx.const(32, how), ctx.const(32, code), p, ctx.opaque(32, 'stale')]


SUMM = [('::ip_to_chars', 15)]


def cells(tier):
    quick = tier == 'quick'
    for c in ['cpp20', 'cpp11'] if quick else ['cpp11', 'cpp14', 'cpp17', 'cpp20', 'cpp23', 'noexc20', 'noexc11', 'scope0', 'utf8char', 'be20']:
        main = c == 'cpp20'
        priors = T.FULL if main or not quick else [T.FULL[0], T.FULL[5]]
        for i, (s, code, ends, pos) in enumerate(T.v4_texts(priors)):
            if c == 'utf8char':  # other units are decoded first: C09
                s = [{'#': 'a', '*': frozenset(range(1, 128))}.get(x, x) if isinstance(x, str) else x for x in s]
            rests = [0] if ends else [0, 3] if i % 2 or quick else [0, 1, 40]
            for r in rests:
                hows = [0] if main or not quick else [0, 2]
                if i % 7 == 0 or not quick:
                    hows = hows + [1, 2, 3]
                for h in dict.fromkeys(hows):
                    if 'noexc' in c and h in (2, 3):
                        continue
                    if h and len([x for x in s if x == 46]) > 1 and quick and i % 5:
                        continue
                    yield Cell('parse', c, 'v4', ('c', h, tuple(s), code, tuple(pos) if pos else None, r), summ=SUMM)
