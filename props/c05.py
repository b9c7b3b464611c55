import multiprocessing
from bitflow import engine as E
from bitflow import facts
from props import c01, c02, codes
LEVEL = 'other'
TECHNIQUE = 'exception-effect analysis of the call graph (every function declared non-throwing), and abstract interpretation of the sites it leaves open'
NOTE = ('Every member of every class template is instantiated, in every language level; an exception may reach std::terminate only at the call sites the effect analysis leaves open '
        '(about twenty functions that call a throwing helper with arguments which make it succeed). Those are run through the path-sensitive interpreter with the grids of C02-C04, '
        'which are not a complete partition of the arguments; the sites not entered by any cell are counted as undischarged. Allocation is assumed to succeed.')
RULE = 'Obligation: a call site inside a function declared non-throwing; its callee must not be able to throw (least fixpoint over the call graph), or no analysed path may reach std::terminate. No-exceptions configurations: no throw expression, and no path that throws or aborts.'
ASSUME = ['operator new does not fail', 'library functions of the installed C++ headers that are not lowered may throw']
NX = ('noexc11', 'noexc17', 'noexc20', 'noexc20rt', 'scope0noexc')


ASCII = frozenset(range(1, 128))  # units outside ASCII: the malformed-unit words of C03/C04


def judge(o):
    if o.kind in (E.RET, E.THROW):
        return 'ok', ''
    if o.kind == E.TERMINATE or o.kind == E.ABORT:
        return 'bad', '%s: %s' % (E.KIND[o.kind], o.msg)
    return 'und', '%s: %s' % (E.KIND[o.kind], o.msg)


def nojudge(o):
    if o.kind == E.RET:
        return 'ok', ''
    if o.kind in (E.TERMINATE, E.ABORT, E.THROW):
        return 'bad', 'with exceptions disabled: %s: %s' % (E.KIND[o.kind], o.msg)
    return 'und', '%s: %s' % (E.KIND[o.kind], o.msg)


def _wrap(f, j):
    return lambda ctx, *p: tuple(f(ctx, *p)[:2]) + (j,)


NAMES = [('c02', n, getattr(c02, n)) for n in ('one', 'two', 'net1', 'net2', 'regroup', 'hosts', 'subnets', 'exclude', 'blank', 'u128')] \
    + [('c01', n, getattr(c01, n)) for n in ('safe', 'scope')] + [('codes', n, getattr(codes, n)) for n in ('parse', 'scope', 'from_', 'super_', 'subs', 'excl')]
for _m, _n, _f in NAMES:
    globals()['%s_%s' % (_m, _n)] = _wrap(_f, judge)
    globals()['%s_%s_nx' % (_m, _n)] = _wrap(_f, nojudge)


def borrowed(mod, cells):
    for c in cells:
        c.make = '%s_%s%s' % (mod, c.make, '_nx' if c.config in NX else '')
        yield c


def cells(tier):
    quick = tier == 'quick'
    cfgs = ['cpp20', 'noexc20rt', 'cpp11', 'noexc11'] if quick else ['cpp20', 'cpp11', 'cpp14', 'cpp17', 'cpp23', 'noexc11', 'noexc17', 'noexc20', 'noexc20rt', 'scope0noexc']
    for i, c in enumerate(borrowed('c02', c02.cells(tier, cfgs))):
        if not quick or i % (7 if c.group in ('net1', 'net2', 'one', 'two', 'u128') else 2 if c.config == 'cpp20' else 3) == 0:
            yield c
    for cfg in cfgs:
        yield from borrowed('c01', c01.base('quick', cfg, 'c', not quick))
    for ct in ('c', 'w', 'c8', 'c16', 'c32') if not quick else ('c', 'c16'):
        for c in borrowed('c01', c01.base('quick', 'utf8char', ct, False)):
            k, t, how, specs = c.params
            c.params = k, t, how, tuple(x & ASCII if isinstance(x, frozenset) else x for x in specs)
            yield c
    for i, c in enumerate(borrowed('codes', codes.cells(tier, (0,), cfgs[:2] if quick else cfgs))):
        if not quick or i % (2 if c.config == 'cpp20' else 5) == 0:
            yield c
    # the throwing overloads: they may throw (the entry catches it), but must not end the program
    n = {}
    for cfg in ('cpp20', 'cpp11') if quick else ('cpp20', 'cpp11', 'cpp14', 'cpp17', 'cpp23', 'utf8char'):
        for c in borrowed('codes', codes.cells(tier, (3,), [cfg])):
            g = c.group
            n[g] = n.get(g, -1) + 1
            if not quick or n[g] % {'scope': 1, 'parse': 2, 'from_': 11, 'excl': 5}.get(g, 7) == 0:
                yield c


UNITS = ['all', 'safe', 'codes', 'ops']
SCONFIGS = ['cpp11', 'cpp14', 'cpp17', 'cpp20', 'cpp23', 'nospace', 'utf8char', 'scope0', 'noover', 'noexc11', 'noexc20', 'noexc20rt']


def analyse(cfg):
    """-> None where the configuration does not compile, else (functions, declared non-throwing, [(site, decided, function, description)], [(bad)])"""
    try:
        F = facts.Facts([u for u in UNITS if u != 'ops' or cfg not in ('noover', 'nospace')], cfg)
    except facts.B.BuildError as e:
        return str(e)[:300]
    may, source = facts.may_throw(F)
    sites, bad, nf, good = [], [], 0, 0
    for f, (calm, at, _, _) in F.fn.items():
        if not facts.ours(at):
            continue
        if cfg in NX:
            t = [c for c in F.by[f] if c.callee in ('__cxa_throw', '__cxa_rethrow', 'abort', 'exit', '_Exit', 'quick_exit', '_ZSt9terminatev')]
            for c in t:
                bad.append('%s at %s: %s with exceptions disabled' % (F.dem[f], facts.where(c.at), F.dem.get(c.callee, c.callee)))
            good += not t
        if not calm or cfg in NX and cfg != 'noexc20rt':
            continue
        nf += 1
        for c in F.by[f]:
            if c.kind in 'T-R':
                dec = not (source(c.callee) or c.callee in may)
                sites.append((dec, F.dem[f], '' if dec else '%s at %s -> %s' % (F.dem[f].split('(')[0], facts.where(c.at), ' -> '.join(facts.chain(F, may, c)))))
    return len(F.fn), nf, sites, bad, good


def structural(tier, verbose):
    cov = dict(obligations=0, discharged=0, configurations={})
    bad, open_ = [], {}
    facts.tool()
    facts.prepare(UNITS, SCONFIGS)
    with multiprocessing.Pool(8) as pool:
        res = pool.map(analyse, SCONFIGS, 1)
    for cfg, r in zip(SCONFIGS, res):
        if isinstance(r, str):
            if cfg == 'cpp20':
                raise facts.B.BuildError(r)
            cov['configurations'][cfg] = 'does not compile: ' + r
            continue
        n, nf, sites, b, good = r
        for t in b:
            bad.append(dict(cell='effects/' + cfg, info=t, witness={}))
        cov['obligations'] += len(sites) + good + len(b)
        cov['discharged'] += good
        left = 0
        for dec, f, text in sites:
            if not dec:
                left += 1
                open_.setdefault(text, set()).add('left to the interpreter' if f in ANALYSED else 'not entered by any cell')
            cov['discharged'] += dec or f in ANALYSED
        cov['configurations'][cfg] = '%d functions declared non-throwing of %d, %d call sites there that could pass an exception on, %d left to the interpreter' % (nf, n, len(sites), left)
        if cfg in NX:
            cov['configurations'][cfg] += '; %d functions without a throw or abort' % good
    cov['sites_left_open_by_the_effect_analysis'] = {k: sorted(v) for k, v in sorted(open_.items())}
    return bad, cov


ANALYSED = set()
