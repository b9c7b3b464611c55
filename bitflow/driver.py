"""Runs one property: enumerates its cells (a partition of the input space),
analyses every cell, concretises every alarm, writes the evidence."""
import importlib, json, os, sys, time, traceback, multiprocessing as mp
from . import engine as E, build as B

VERIF = B.VERIF


class Ctx:
    """What a property sees while it describes one cell.  With `assign` the
    same cell is described with every input byte fixed: that is how an alarm
    is concretised."""

    def __init__(self, assign=None):
        self.assign = assign
        self.opq = None
        self.opaques = []
        self.doms = {}
        self.vars = {}
        self.st = E.State()
        self.empty = False

    # -- values
    def var(self, name, dom=None):
        """one input byte"""
        if name in self.vars:
            v = self.vars[name]
            if dom is not None and self.assign is None:
                if not self.st.restrict(v, dom):
                    self.empty = True
            return v.val if self.assign is None else v
        if self.assign is not None:
            x = self.assign.get(name)
            if x is None:
                x = min(dom) if dom else 0
            self.vars[name] = E.const(8, x)
            return self.vars[name]
        v = E.Var(name)
        self.vars[name] = v
        self.doms[name] = dom
        if dom is not None:
            if not self.st.restrict(v, dom):
                self.empty = True
        return v.val

    def bytes(self, name, n):
        return [self.var('%s%d' % (name, i)) for i in range(n)]

    def const(self, w, v):
        return E.const(w, v)

    def opaque(self, w, name='any'):
        self.opaques.append(name)
        if self.opq is not None:
            return E.const(w, self.opq.get(name, 0))
        return E.L.bf_opaque(w, name.encode())

    def buf(self, vals, name='in', ro=1):
        vals = [E.const(8, v[0]) if isinstance(v, tuple) else v for v in vals]
        self.last = self.st.obj(vals, name, ro)
        return E.ptr(self.last)

    def raw(self, data, name='in', ro=1):
        return self.buf([E.const(8, b) for b in data], name, ro)

    def out(self, n, name='out'):
        self.last = self.st.buf(n, name)
        return E.ptr(self.last)

    def sym(self, name, w, signed=False):
        """integer made of fresh input bytes, least significant byte first"""
        return E.concat([self.var('%s.%d' % (name, i)) for i in range(w // 8)])

    def shared(self, na, nb, nbytes, bit, abit):
        """two big-endian byte strings, equal above `bit` (0 = most significant),
        differing at `bit` (first has abit), unrelated below; bit None: equal"""
        a, b = [], []
        for i in range(nbytes):
            if bit is None or (i + 1) * 8 <= bit:
                v = self.var('%s%d' % (na, i))
                a.append(v)
                b.append(v)
            elif i * 8 > bit:
                a.append(self.var('%s%d' % (na, i)))
                b.append(self.var('%s%d' % (nb, i)))
            else:
                k = 7 - (bit - i * 8)  # bit index inside the byte, lsb 0
                va, vb = self.var('%s%d' % (na, i)), self.var('%s%d' % (nb, i))
                hi = [E.slice_(va, k + 1, 7 - k)] if k < 7 else []
                la = [E.slice_(va, 0, k)] if k else []
                lb = [E.slice_(vb, 0, k)] if k else []
                a.append(E.concat(la + [E.const(1, abit)] + hi))
                b.append(E.concat(lb + [E.const(1, 1 - abit)] + hi))
        return a, b


class Cell:
    __slots__ = ('unit', 'config', 'make', 'params', 'opts', 'group')

    def __init__(self, unit, config, make, params, group=None, **opts):
        self.unit, self.config, self.make, self.params, self.opts = unit, config, make, params, opts
        self.group = group or make


def clause_text(unit, line):
    try:
        l = open(os.path.join(VERIF, 'wrappers', unit + '.cpp')).read().splitlines()
        t = l[line - 1].strip() if 0 < line <= len(l) else ''
        h = open(os.path.join(VERIF, 'wrappers', 'common.h')).read().splitlines()
        if ('REQUIRE' not in t and 'return' not in t) and 0 < line <= len(h):
            t = h[line - 1].strip()
        return t
    except OSError:
        return ''


def default_judge(o):
    """-> ('ok'|'bad'|'und', text)"""
    if o.kind == E.RET:
        c = o.st.isconst(o.ret)
        if c == 0:
            return 'ok', ''
        if c is None:
            return 'maybe', 'clause value not decided: ' + E.show(o.ret)[:120]
        return 'bad', 'clause at line %d' % c
    if o.kind in (E.ALARM, E.TERMINATE):
        return 'bad', '%s: %s' % (E.KIND[o.kind], o.msg)
    if o.kind == E.THROW:
        return 'bad', 'unexpected exception: ' + o.msg
    return 'und', '%s: %s' % (E.KIND[o.kind], o.msg)


_mod = None
_paths = None


def _init(libpath, modname, paths):
    global _mod, _paths
    E.load_lib(libpath)
    _paths = paths
    _mod = importlib.import_module('props.' + modname)


def _use(unit, config):
    k = unit + '@' + config
    if k not in E.MODS:
        E.load(k, _paths[(unit, config)])
    E.use(k)


def _run(cell, assign=None, opq=None):
    E.reset()
    o = dict(budget=3000000, loopcap=6000, merge=0, cap=6000, roglobals=0)
    for k in o:
        if k in cell.opts:
            o[k] = cell.opts[k]
    if assign is not None:
        o['merge'] = 0
    E.opt(**o)
    E.limit(cell.opts.get('secs', 150))
    E.summary('', 0)
    if assign is None:
        for nm, hi in cell.opts.get('summ', ()):
            E.summary(nm, hi)
    ctx = Ctx(assign)
    ctx.opq = opq
    if cell.opts.get('ctors'):
        n = E.L.bf_ctors(ctx.st.id)
        if n < 0:
            raise RuntimeError('dynamic initialisers of the module do not all return')
        ctx.st = E.State(n)
    r = getattr(_mod, cell.make)(ctx, *cell.params)
    fn, args = r[0], r[1]
    judge = r[2] if len(r) > 2 else default_judge
    if ctx.empty:
        return ctx, fn, [], judge
    return ctx, fn, E.run(ctx.st, fn, args), judge


def witness_of(o, ctx, tries):
    w = o.st.witness(tries)
    if w is None:
        return None
    d = {}
    for t in w.split():
        if '=' in t:
            k, v = t.rsplit('=', 1)
            try:
                d[k] = int(v)
            except ValueError:
                pass
    return d


_seen = {}


OPAQUE = [dict(stale=7, stale2=9, slot=1, flags=0), dict(stale=26, stale2=7, slot=2, flags=0x4000)]


def _mix(i, k, n):
    x = (i * 2654435761 + k * 40503 + 12345) & 0xffffffff
    x = (x ^ (x >> 15)) * 2246822519 & 0xffffffff
    return (x >> 13) % n


def _confirm(cell, res, ctx, outs, judge, und, opq, t0):
    """judges the outcomes; a bad one is a violation when a single member of the cell, analysed alone, is bad"""
    cands = []
    for o in outs:
        s, text = judge(o)
        if s == 'ok':
            continue
        if s == 'und':
            und.append(text)
        else:
            slow_ = time.time() - t0 > 20
            cands.append((o, s, text, None if len(cands) > 60 or slow_ and len(cands) > 6 else witness_of(o, ctx, 300 if slow_ else 3000)))
    names = list(ctx.vars)
    tried = set()
    for n_, (o, s, text, w) in enumerate(cands):
        if w is None:
            und.append('possible, no member found: ' + text)
            continue
        key = tuple(sorted(w.items()))
        if key in tried or len(tried) > 12 or len(tried) > 3 and time.time() - t0 > 40:
            continue
        tried.add(key)
        # concretise: the same abstract run on the single point
        ctx2, fn2, outs2, judge2 = _run(cell, dict(w), opq)
        v2 = [(q, judge2(q)) for q in outs2]
        bad2 = [(q, t) for q, (s2, t) in v2 if s2 == 'bad' and not q.joined]
        allbad = v2 and all(s2 == 'bad' for q, (s2, t) in v2)
        if bad2 or allbad:
            t = (bad2[0][1] if bad2 else v2[0][1][1])
            inp = {k: v for k, v in w.items() if k in names}
            if opq is not None:
                inp.update({k: v for k, v in opq.items() if k in ctx2.opaques})
            res['status'] = 'viol'
            res['info'] = t
            res['witness'] = inp
            return True
        und.append('possible, not confirmed: %s at %s [%s]' % (text, dict(list(w.items())[:8]), '; '.join('%s' % (t,) for q, (s2, t) in v2 if s2 != 'ok')[:300]))
    return False


def run_cell(cell):
    """-> dict(status, info, steps, outs)"""
    t0 = time.time()
    res = dict(status='ok', outs=0, steps=0, group=cell.group, cell=(cell.unit, cell.config, cell.make, cell.params))
    try:
        _use(cell.unit, cell.config)
        ctx, fn, outs, judge = _run(cell)
        res['fn'] = fn
        res['outs'] = len(outs)
        res['steps'] = E.steps()
        if not outs:
            if ctx.empty:
                res['status'] = 'empty'
                return res
            res['status'] = 'und'
            res['info'] = 'no outcome'
        und = []
        if _confirm(cell, res, ctx, outs, judge, und, None, t0):
            return res
        # a clause that depends on an unconstrained word (the previous error code, a stream slot): fix the word
        if ctx.opaques and any(u.startswith('possible') for u in und) and time.time() - t0 < 60:
            for opq in OPAQUE:
                ctx3, fn, outs3, judge3 = _run(cell, None, opq)
                if _confirm(cell, res, ctx3, outs3, judge3, [], opq, time.time()):
                    return res
        # an undecided cell is split: some of its members are analysed alone (a violation among them is one of the cell)
        if und and judge.__name__ in ('judge', 'nojudge', 'default_judge') and ctx.doms and not ctx.empty and time.time() - t0 < 120:
            doms = ctx.doms
            for k in range(6):
                w = {}
                for i, (nm, d) in enumerate(doms.items()):
                    d = sorted(d) if d is not None else range(256)
                    w[nm] = d[0] if k == 0 else d[-1] if k == 1 else d[(len(d) - 1) * (i & 1)] if k == 2 else d[_mix(i, k, len(d))]
                opq = OPAQUE[k & 1]
                ctx2, fn2, outs2, judge2 = _run(cell, w, opq)
                bad2 = [t for q, (s2, t) in ((q, judge2(q)) for q in outs2) if s2 == 'bad' and not q.joined]
                if bad2:
                    w.update({a: b for a, b in opq.items() if a in ctx2.opaques})
                    res['status'] = 'viol'
                    res['info'] = bad2[0]
                    res['witness'] = w
                    return res
        if und:
            res['status'] = 'und'
            res['info'] = ' | '.join(und[:3])[:700]
            res['nund'] = len(und)
    except Exception as e:
        res['status'] = 'err'
        res['info'] = '%s: %s' % (type(e).__name__, e) + traceback.format_exc()[-800:]
    res['t'] = time.time() - t0
    n = E.L.bf_nanalysed()
    k = _seen.get(E.CUR[0], 0)
    if n > k:
        res['functions'] = [E._s(E.L.bf_analysed(i)) for i in range(k, n)]
        _seen[E.CUR[0]] = n
    return res



def _work(q):
    return run_cell(q)


def load_known():
    p = os.path.join(VERIF, 'known-findings.json')
    if os.path.exists(p):
        return json.load(open(p))
    return {'findings': [], 'fixed': []}


def main(pid, tier, seed, only=None, verbose=False, limit=None, jobs=8):
    t0 = time.time()
    sys.path.insert(0, VERIF)
    mod = importlib.import_module('props.' + pid.lower())
    cells = list(mod.cells(tier))
    if only:
        cells = [c for c in cells if only in c.group or only in c.make or only in c.config or only == c.unit]
    if limit:
        cells = cells[:limit]
    pairs = sorted({(c.unit, c.config) for c in cells})
    violations, known_hits, errors, und = [], [], [], []
    extra_cov = {}
    try:
        libpath = B.lib()
        paths = B.lower_all(pairs) if pairs else {}
        broken = {k: v for k, v in paths.items() if isinstance(v, B.BuildError)}
        main_ = [k for k in broken if k[1] == 'cpp20'] or (list(broken) if len(broken) == len(paths) and not hasattr(mod, 'structural') else [])
        if main_:
            raise broken[main_[0]]
    except B.BuildError as e:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, e))
        return 2
    for k in broken:
        print('not analysed: unit %s does not compile in configuration %s' % k)
    total = len(cells)
    cells = [c for c in cells if (c.unit, c.config) not in broken]
    known = [k for k in load_known()['findings'] if k['property'] == pid]
    tb = time.time() - t0
    budget = getattr(mod, 'BUDGET', {}).get(tier, 700 if tier == 'quick' else 3000)
    deadline = t0 + budget
    done, steps, outs, groups, empty = 0, 0, 0, {}, 0
    status = {}
    functions = set()
    slow = []
    if cells:
        E.load_lib(libpath)
        pool = mp.Pool(jobs, _init, (libpath, pid.lower(), paths), maxtasksperchild=getattr(mod, 'TASKS', 400))
        try:
            it = pool.imap_unordered(_work, cells, chunksize=1)
            stop = False
            while not stop:
                try:
                    r = it.next(timeout=max(1, deadline - time.time()))
                except StopIteration:
                    break
                except mp.TimeoutError:
                    break
                done += 1
                steps += r['steps']
                functions.update(f for f in r.get('functions', ()) if 'ipaddress::' in f or 'ipaddress' in f)
                outs += r['outs']
                s = r['status']
                status[s] = status.get(s, 0) + 1
                g = groups.setdefault(r['group'], {'cells': 0, 'proved': 0})
                g['cells'] += 1
                if verbose:
                    slow.append((r.get('t', 0), r['cell'], r['outs'], r['steps']))
                if s in ('ok', 'empty'):
                    g['proved'] += 1
                elif s == 'und':
                    und.append(r)
                elif s == 'err':
                    errors.append(r)
                    if len(errors) > 20:
                        break
                elif s == 'viol':
                    k = next((k for k in known if matches(k, r)), None)
                    if k:
                        known_hits.append((k, r))
                    else:
                        violations.append(r)
                        if len(violations) >= 8 and not verbose:
                            stop = True
        finally:
            pool.terminate()
            pool.join()
    # structural parts
    if hasattr(mod, 'structural') and not only:
        try:
            mod.ANALYSED = functions
            v, cov = mod.structural(tier, verbose)
        except B.BuildError as e:
            print('ANALYSIS-BROKEN property=%s %s' % (pid, e))
            return 2
        extra_cov = cov
        for r in v:
            k = next((k for k in known if matches(k, r)), None)
            (known_hits.append((k, r)) if k else violations.append(r))
    if verbose:
        for t, c, o, st_ in sorted(slow, reverse=True, key=lambda x: x[0])[:8]:
            print('slow %.2fs outs %d steps %d %s' % (t, o, st_, c))
        for r in und[:12]:
            print('UND', brief(r['cell']), r.get('info')[:500])
        for r in errors[:5]:
            print('ERR', r['cell'], r.get('info'))
        for r in violations[:10]:
            print('VIOL', brief(r['cell']), r.get('info')[:260], {k: v for k, v in list(r.get('witness', {}).items())[:40]})
        print('cells %d done %d %s steps %d outs %d build %.1fs wall %.1fs' % (len(cells), done, status, steps, outs, tb, time.time() - t0))
    # evidence
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    nprov = status.get('ok', 0) + status.get('empty', 0)
    cov = {
        'obligations': total + extra_cov.get('obligations', 0),
        'discharged': nprov + extra_cov.get('discharged', 0),
        'checker_cmd': 'python3 check.py %s --tier %s' % (pid, tier),
        'trusted_base': ['clang 18 front end and LLVM sroa pass (lowering of /repo/include)', 'engine/interp.cpp, engine/algebra.h (the abstract interpreter)',
                         'wrappers/*.cpp (the specification entries)', 'models of operator new/delete, memcpy, memcmp, strlen and of the C++ exception runtime'],
        'explanation': getattr(mod, 'RULE', '') + ' Each obligation is one cell of a partition of the input space analysed over the IR of the current headers; it is discharged when every abstract outcome of the entry satisfies every clause and no outcome is undefined.',
        'entries': sorted({c.unit + '@' + c.config for c in cells}),
        'groups': groups,
        'abstract_steps': steps,
        'abstract_outcomes': outs,
        'undecided': [{'cell': brief(r['cell']), 'why': r.get('info', '')[:300]} for r in und[:30]],
        'undecided_count': len(und),
        'not_reached_before_time_limit': len(cells) - done,
        'configurations_that_do_not_compile': sorted('%s@%s' % k for k in broken),
        'functions_analysed': sorted(functions)[:600],
        'functions_analysed_count': len(functions),
        'known_findings_seen': sorted({k['id'] for k, r in known_hits}),
    }
    for k, v in extra_cov.items():
        if k not in ('obligations', 'discharged'):
            cov[k] = v
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'other'), 'coverage': cov, 'wall_s': round(time.time() - t0, 2),
          'assumptions': getattr(mod, 'ASSUME', []),
          'violations': 0}
    code = 0
    if errors:
        print('ANALYSIS-BROKEN property=%s %d cells failed to analyse: %s' % (pid, len(errors), errors[0].get('info')))
        code = 2
    if cells and done == 0:
        print('ANALYSIS-BROKEN property=%s nothing analysed' % pid)
        code = 2
    for k in {k['id']: k for k, r in known_hits}.values():
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    ev['violations'] = len(violations)
    if violations:
        d = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        for i, r in enumerate(violations[:2 if verbose else 4]):
            p = os.path.join(d, '%s-%d.json' % (pid, i))
            unit = r['cell'][0] if r.get('cell') else ''
            info = r.get('info', '')
            if info.startswith('clause at line '):
                ln = int(info.split()[3])
                info = 'wrappers/%s.cpp:%d: clause does not hold: %s' % (unit, ln, clause_text(unit, ln))
            rec = {'property': pid, 'entry': r.get('fn'), 'cell': brief(r.get('cell'), 2000), 'what': info, 'input': r.get('witness', {}), 'replay': 'python3 check.py %s --tier %s' % (pid, tier)}
            json.dump(rec, open(p, 'w'), indent=1)
            cov.setdefault('violation_details', []).append({'what': info[:400], 'entry': r.get('fn') or '', 'input': str(r.get('witness', {}))[:400]})
            print('%s: %s' % (r.get('fn'), info[:600]))
            print('   at %s input %s' % (brief(r.get('cell'), 800), str(r.get('witness', {}))[:1500]))
            print('VIOLATION property=%s replay=%s' % (pid, p))
        code = 1
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    if code == 0:
        print('property=%s held: %d of %d obligations discharged, %d undecided, %.1fs' % (pid, cov['discharged'], cov['obligations'], len(und), time.time() - t0))
    return code


def brief(x, limit=240):
    """a cell in words: sets of characters by their size"""
    def f(v):
        if isinstance(v, frozenset):
            return '{%d values}' % len(v) if len(v) > 4 else str(sorted(v))
        if isinstance(v, (tuple, list)):
            return '(' + ', '.join(f(e) for e in v) + ')'
        return str(v)
    t = f(x)
    return t if len(t) <= limit else t[:limit] + '...'


def matches(k, r):
    """a known finding names an entry and the input bytes (or cell parameters) that fail"""
    m = k.get('match', {})
    if 'entry' in m and r.get('fn') not in (m['entry'] if isinstance(m['entry'], list) else [m['entry']]):
        return False
    if 'params' in m and list(map(str, (r.get('cell') or ['', '', '', ()])[3])) not in [list(map(str, x)) for x in m['params']]:
        return False
    if 'input' in m and any(r.get('witness', {}).get(a) != b for a, b in m['input'].items()):
        return False
    if 'info' in m and m['info'] not in r.get('info', ''):
        return False
    return bool(m)
