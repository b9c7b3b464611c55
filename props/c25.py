import multiprocessing
from bitflow import facts
LEVEL = 'other'
TECHNIQUE = 'interprocedural memory-effect analysis of LLVM IR (which arguments and which globals every function may write)'
NOTE = ('Every function of every header, all members of all class templates instantiated, per language level. Two rules: no function writes a variable with static or thread storage, other than the guarded one-time '
        'initialisation of a local static from constants or library calls (the stream slots); and no function writes through an object it takes as const (receiver or parameter). '
        'Library functions that are only declared are trusted to keep the const of their parameters; pointers loaded from memory (string buffers) belong to the object they were loaded from.')
RULE = 'Obligation: (function, effect): the least fixpoint of the may-write roots over the call graph contains no global and no const-qualified argument.'
ASSUME = ['declared-only library functions do not write through const parameters', 'two distinct objects do not share storage (value types: no pointer members)']
CONFIGS = ['cpp11', 'cpp14', 'cpp17', 'cpp20', 'cpp23', 'nospace', 'utf8char', 'scope0', 'noover', 'noexc11', 'noexc20']
UNITS = ['all', 'safe', 'codes', 'ops', 'fmt', 'cls']


def cells(tier):
    return []


def analyse(cfg):
    units = []
    for u in UNITS:
        try:
            facts.B.lower(u, cfg, facts.EVERYTHING if u == 'all' else ())
            units.append(u)
        except facts.B.BuildError as e:
            if u == 'all':
                return str(e)[:300]
    F = facts.Facts(units, cfg)
    mod = facts.writes(F)
    bad, n, nconst, partial, inits = [], 0, 0, 0, []
    for f, (_, at, sret, na) in F.fn.items():
        if not facts.ours(at) or f.startswith('__cxx_global_var_init') or f.startswith('_GLOBAL__'):
            continue
        n += 1
        ro, complete = facts.readonly(F, f)
        partial += not complete
        nconst += len(ro)
        for root, (how, w, init) in mod[f].items():
            g = root[2:]
            if root[0] == 'g' and 'c' not in F.glob.get(g, 'm'):
                if init == 'i':
                    inits.append('%s in %s' % (F.dem.get(g, g), F.dem[f].split('(')[0]))
                else:
                    bad.append('%s writes %s: %s' % (F.dem[f], F.dem.get(g, g), ' -> '.join(facts.trail(F, mod, f, root))))
            elif root.startswith('p:') and 'c' not in F.glob.get(g, 'm'):
                bad.append('%s writes what %s points to: %s' % (F.dem[f], F.dem.get(g, g), facts.where(w)))
            elif root[0] == 'a' and int(g) in ro:
                bad.append('%s writes its const argument %s: %s' % (F.dem[f], g, ' -> '.join(facts.trail(F, mod, f, root))))
    state = [F.dem.get(g, g) for g, k in F.glob.items() if 'ipaddress' in F.dem.get(g, g) and 'c' not in k and not g.startswith('_ZGV')]
    return n, nconst, partial, bad, sorted(set(inits)), state


def structural(tier, verbose):
    facts.tool()
    facts.prepare(UNITS, CONFIGS)
    cov = dict(obligations=0, discharged=0, configurations={}, rule=RULE)
    bad = []
    with multiprocessing.Pool(8) as pool:
        res = pool.map(analyse, CONFIGS, 1)
    inits, state = set(), set()
    for cfg, r in zip(CONFIGS, res):
        if isinstance(r, str):
            if cfg == 'cpp20':
                raise facts.B.BuildError(r)
            cov['configurations'][cfg] = 'does not compile: ' + r
            continue
        n, nconst, partial, b, i, s = r
        inits |= set(i)
        state |= set(s)
        cov['obligations'] += n + nconst
        cov['discharged'] += n + nconst - len(b)
        cov['configurations'][cfg] = '%d functions, %d const receivers and parameters, %d functions whose parameters could not be matched to their declared types (receiver only)' % (n, nconst, partial)
        for t in b:
            bad.append(dict(cell='effects/' + cfg, info=t, witness={}))
    cov['one_time_initialisations'] = sorted(inits)
    cov['variables_with_static_storage_that_are_not_constant'] = sorted(state)
    return bad, cov
