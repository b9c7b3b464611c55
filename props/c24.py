from bitflow import engine as E
from bitflow.driver import Cell
LEVEL = 'other'
TECHNIQUE = 'abstract interpretation of LLVM IR (bit-level value domain): one-step transitions of the stream state from arbitrary slot contents, against a model of the standard streams'
NOTE = ('The stream operators are lowered against a model of basic_ostream/basic_istream (flags, slots, width, error state, formatted words as in the standard). Every step is analysed from arbitrary slot contents and flag words, '
        'and leaves the slots at their defaults, so the result extends to every sequence of operations by induction; the texts inserted and extracted are a grid.')
RULE = ('Insertion: unknown slot contents before the last manipulator, unknown flags; the text is to_string of the manipulated format, upper-cased before the scope only when the flag is set, padded to the width, and the slot is back at 0; '
        'the next insertion uses the default. Extraction: the result and the fail state are those of parse with the manipulated strictness, the slot is back at 0, exactly one word is consumed.')
ASSUME = ['the model of the streams in wrappers/shims agrees with the standard', 'toupper as in the C locale', 'operator new does not fail']
CONFIGS = ['strm11', 'strm14', 'strm17', 'strm20', 'strm23', 'strmnoexc', 'strmutf8']

INS = {
    'a4': ['1.2.3.4', '0.0.0.0', '255.255.255.255'],
    'a6': ['::', '2001:db8::ab:0:cd', 'abcd:ef01:2345:6789:abcd:ef01:2345:6789', 'fe80::1%eth0', '::ffff:1.2.3.4', '1:0:0:2:0:0:0:3%aBc'],
    'aa': ['1.2.3.4', '2001:db8::ab:0:cd', 'fe80::a%eth0', '::'],
    'n4': ['10.0.0.0/8', '1.2.3.4/32', '0.0.0.0/0'],
    'n6': ['2001:db8::/32', '::/0', 'fe80::a%eth0/128', 'abcd:ef01:2345:6789::/64'],
    'na': ['10.0.0.0/8', '2001:db8::/32', 'fe80::a%eth0/128'],
}
EXT = {
    'a4': ['1.2.3.4', '256.0.0.1', '1.2.3', 'x'],
    'a6': ['2001:db8::1', 'fe80::1%eth0', '1::2::3', ':', '12345::'],
    'aa': ['1.2.3.4', '::1', 'x', '1.2.3', '1::g'],
    'n4': ['10.0.0.0/8', '10.0.0.1/8', '10.0.0.1/255.0.0.0', '1.2.3.4', '10.0.0.0/33', 'x/8'],
    'n6': ['2001:db8::/32', '2001:db8::1/32', '::1', '::/129', 'x/8'],
    'na': ['10.0.0.0/8', '10.0.0.1/8', '2001:db8::1/32', '::/0', '1.2.3.4/33', 'x'],
}


def ins(ctx, kind, a, b, m, fl, width, c):
    p, q = a.encode(), b.encode()
    return 'ins_' + kind, [ctx.raw(p, 'a'), ctx.const(64, len(p)), ctx.raw(q, 'b'), ctx.const(64, len(q)), ctx.opaque(64, 'slot'), ctx.const(32, m),
                           ctx.opaque(32, 'flags') if fl is None else ctx.const(32, fl), ctx.const(32, width), ctx.const(32, c)]


def ext(ctx, kind, a, b, m, c):
    p, q = a.encode(), b.encode()
    return 'ext_' + kind, [ctx.raw(p, 'a'), ctx.const(64, len(p)), ctx.raw(q, 'b'), ctx.const(64, len(q)), ctx.opaque(64, 'slot'), ctx.const(32, m), ctx.opaque(32, 'flags'), ctx.const(32, c)]


def manips(ctx, c):
    return 'manips', [ctx.opaque(64, 'slot'), ctx.opaque(32, 'flags'), ctx.const(32, c)]


def failed(ctx, text, state, k):
    p = text.encode()
    return 'failed', [ctx.raw(p, 'a'), ctx.const(64, len(p)), ctx.const(32, state), ctx.const(32, k)]


def cells(tier):
    for ci, cfg in enumerate(CONFIGS):
        full = tier != 'quick' or cfg == 'strm20'
        chars = range(4) if full else [ci % 4, 0]
        for c in chars:
            yield Cell('strm', cfg, 'manips', (c,), group='manipulators set one slot')
        for kind, ts in INS.items():
            for ai, a in enumerate(ts):
                for m in range(4):
                    for c in chars:
                        if not full and (ai + m + c + ci) % 3:
                            continue
                        yield Cell('strm', cfg, 'ins', (kind, a, ts[(ai + 1) % len(ts)], m, None, 0, c), group='insertion')
            # widths: libstdc++'s adjustment bits (left 32, right 128, internal 16) with and without uppercase
            for k, w in enumerate([1, 12, 60]):
                for fl in (0x20, 0x80, 0x10, 0, 0x4000, 0x4020):
                    if full or k == ci % 3:
                        yield Cell('strm', cfg, 'ins', (kind, ts[k % len(ts)], ts[-1], k + 1, fl, w, (k + ci) % 4), group='insertion with a field width')
        for kind, ts in EXT.items():
            for ai, a in enumerate(ts):
                for bi, b in enumerate(ts):
                    for m in range(3):
                        for c in chars:
                            if (not full and (ai + bi + m + c + ci) % 4) or (tier == 'quick' and full and (ai + bi + c) % 2):
                                continue
                            yield Cell('strm', cfg, 'ext', (kind, a, b, m, c), group='extraction')
        for k, t in enumerate(['1.2.3.4', '::1', '::1', '1.2.3.4', '::1', '::1']):
            for state in (1, 2, 4, 5, 6):
                yield Cell('strm', cfg, 'failed', (t, state, k), group='a failed stream stays failed')
