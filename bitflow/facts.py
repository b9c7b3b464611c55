"""Facts of lowered modules (engine/facts.cpp) and the interprocedural effect analyses over them."""
import collections, fcntl, os, subprocess
from concurrent.futures import ThreadPoolExecutor
from bitflow import build as B


def tool():
    os.makedirs(B.BUILD, exist_ok=True)
    src = os.path.join(B.VERIF, 'engine', 'facts.cpp')
    out = os.path.join(B.BUILD, 'facts-%s' % B._hash(B.read(src)))
    with open(os.path.join(B.BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(out):
            r = subprocess.run([B.CLANG, '-O1', '-std=c++17', '-w', '-fno-rtti', '-I/usr/lib/llvm-18/include', '-o', out + '.tmp', src,
                                '-L/usr/lib/llvm-18/lib', '-lLLVM-18'], capture_output=True, text=True)
            if r.returncode:
                raise B.BuildError('fact extractor does not build: ' + r.stderr[-2000:])
            os.rename(out + '.tmp', out)
    return out


EVERYTHING = ('-Xclang', '-femit-all-decls')  # also the inline functions nothing calls


def prepare(units, configs):
    def one(p):
        try:
            B.lower(p[0], p[1], EVERYTHING if p[0] == 'all' else ())
        except B.BuildError:
            pass
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, [(u, c) for u in units for c in configs]))


class Call:
    __slots__ = ('caller', 'callee', 'kind', 'at')

    def __init__(self, a):
        self.caller, self.callee, self.kind, self.at = a


class Facts:
    def __init__(self, units, config):
        self.fn, self.ext, self.glob = {}, set(), {}
        self.by, self.stores, self.ptr = collections.defaultdict(list), collections.defaultdict(list), collections.defaultdict(list)
        for u in units:
            r = subprocess.run([tool(), B.lower(u, config, EVERYTHING if u == 'all' else ())], capture_output=True, text=True)
            if r.returncode:
                raise B.BuildError(r.stderr[-500:])
            new = set()
            for l in r.stdout.splitlines():
                p = l.split(' ')
                if p[0] == 'F':
                    if p[1] not in self.fn:
                        self.fn[p[1]] = (p[2][0] == 'n', p[3], p[2][1] == 's', int(p[2][2:]))
                        new.add(p[1])
                elif p[0] == 'N':
                    self.ext.add(p[1])
                elif p[0] == 'G':
                    self.glob[p[1]] = p[2]
                elif p[1] in new:
                    if p[0] == 'C':
                        self.by[p[1]].append(Call(p[1:5]))
                    elif p[0] == 'S':
                        self.stores[p[1]].append((p[2], p[3], p[4]))
                    elif p[0] == 'P':
                        self.ptr[p[1]].append((p[2], int(p[3]), p[4], p[5], p[6]))
        names = sorted(set(self.fn) | {c.callee for v in self.by.values() for c in v} | set(self.glob))
        d = subprocess.run(['llvm-cxxfilt-18'] if _has('llvm-cxxfilt-18') else ['c++filt'], input='\n'.join(names), capture_output=True, text=True).stdout.split('\n')
        self.dem = dict(zip(names, d))

    def src(self, f):
        return where(self.fn[f][1])


def _has(x):
    return subprocess.run(['which', x], capture_output=True).returncode == 0


def where(at):
    l, f = at.split(':', 1)
    return '%s:%s' % (f.split('/include/ipaddress/')[-1], l)


def ours(at):
    return '/include/ipaddress/' in at


# not a source of exceptions: the allocation functions are assumed to succeed
CALM = {'_Znwm', '_Znam', '_ZnwmSt11align_val_t', '__cxa_allocate_exception', '__cxa_free_exception', '__cxa_begin_catch', '__cxa_end_catch',
        '__clang_call_terminate', '__cxa_guard_acquire', '__cxa_guard_release', '__cxa_guard_abort'} | {
        '_ZNSt%s%sC%d%s' % (n, k, v, a) for n, k in (('13', 'runtime_error'), ('11', 'logic_error'), ('12', 'out_of_range'), ('16', 'invalid_argument'), ('12', 'length_error'))
        for v in (1, 2) for a in ('EPKc', 'ERKS_')}  # copying the message allocates, nothing else


def may_throw(F):
    """function -> the call through which an exception may leave it (least fixpoint over the call graph; unknown callees may throw)"""
    may = {}
    rev = collections.defaultdict(set)
    for f, cs in F.by.items():
        for c in cs:
            rev[c.callee].add(f)

    def source(g):
        return g not in F.fn and g not in F.ext and g not in CALM
    work = list(F.fn)
    while work:
        f = work.pop()
        if f in may or F.fn[f][0]:
            continue
        for c in F.by[f]:
            if c.kind in '-R' and (source(c.callee) or c.callee in may):
                may[f] = c
                work.extend(rev[f])
                break
    return may, source


def chain(F, may, c):
    out, x = [c.callee], c.callee
    while x in may and len(out) < 12:
        x = may[x].callee
        out.append(x)
    return [F.dem.get(x, x).split('(')[0] for x in out]


# ---- memory effects -------------------------------------------------------
WRITES0 = {'memcpy', 'memmove', 'memset', 'strcpy', 'strncpy', 'wmemcpy', 'wmemmove', 'wmemset'}
IGNORED = {'__cxa_throw', '__cxa_atexit', '__cxa_guard_acquire', '__cxa_guard_release', '__cxa_guard_abort', '__cxa_begin_catch', '_ZdlPv', '_ZdlPvm', '__assert_fail', '__cxa_free_exception', '_ZSt9terminatev'}


def params(dem):
    """parameter types of a demangled name, or None; and whether it is a const member"""
    const = False
    d = dem
    for tail in (' const', ' const&', ' const &&', ' const&&', ' const &'):
        if d.endswith(tail):
            d, const = d[:-len(tail)], True
            break
    if not d.endswith(')'):
        return None, const
    depth, i = 0, len(d) - 1
    while i >= 0:
        if d[i] == ')':
            depth += 1
        elif d[i] == '(':
            depth -= 1
            if not depth:
                break
        i -= 1
    inner, out, cur, depth = d[i + 1:-1], [], '', 0
    for ch in inner:
        if ch in '(<[':
            depth += 1
        elif ch in ')>]':
            depth -= 1
        if ch == ',' and not depth:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out, const


def readonly(F, f):
    """argument numbers of f which the declared types promise not to be written through; (set, complete)"""
    ps, const = params(F.dem.get(f, f))
    _, _, sret, n = F.fn.get(f, (0, '', False, -1))
    out = set()
    k = 1 if sret else 0
    if const:
        out.add(k)
    if ps is None:
        return out, False
    off = n - k - len(ps) if n >= 0 else (1 if const else None)
    if off not in (0, 1):
        return out, False
    for i, t in enumerate(ps):
        if t.endswith('const&') or t.endswith('const*'):
            out.add(k + off + i)
    return out, True


def writes(F):
    """function -> {root: how}: what a call may write, as roots a:<n>, g:<name>, p, r (least fixpoint)"""
    mod = {f: {} for f in F.fn}
    rev = collections.defaultdict(set)
    for f in F.fn:
        for root, at, init in F.stores[f]:
            mod[f].setdefault(root, ('store', at, init))
        for callee, n, root, at, init in F.ptr[f]:
            rev[callee].add(f)

    def external(g, n):
        if g in IGNORED:
            return False
        if g in WRITES0:
            return n == 0
        ps, const = params(F.dem.get(g, g))
        if ps is None:
            return g in ('<indirect>',)
        if g.startswith('_ZN'):
            k = 1 if const or True else 0  # a member function: its object first
        # a declared function: trust const in its type, in either position
        cand = [i for i in (n, n - 1, n - 2) if 0 <= i < len(ps)]
        if n == 0 and const:
            return False
        return not any(ps[i].endswith('const&') or ps[i].endswith('const*') or ps[i] in ('char const*',) for i in cand)
    work = list(F.fn)
    while work:
        f = work.pop()
        before = len(mod[f])
        for callee, n, root, at, init in F.ptr[f]:
            if root in mod[f] or init == 'r' or callee in IGNORED:
                continue
            if callee in F.fn:
                if 'a:%d' % n in mod[callee]:
                    mod[f][root] = ('call ' + callee, at, init)
            elif external(callee, n):
                mod[f][root] = ('call ' + callee, at, init)
        if len(mod[f]) != before:
            work.extend(rev[f])
    return mod


def trail(F, mod, f, root):
    out = []
    while f in mod and root in mod[f] and len(out) < 10:
        how, at, init = mod[f][root]
        out.append('%s at %s' % (F.dem.get(f, f).split('(')[0], where(at)))
        if how == 'store':
            return out + ['store']
        g = how[5:]
        nx = [n for callee, n, r, a, i in F.ptr[f] if callee == g and r == root and a == at and (g not in F.fn or 'a:%d' % n in mod[g])]
        if g not in F.fn:
            return out + [F.dem.get(g, g).split('(')[0]]
        f, root = g, 'a:%d' % nx[0] if nx else '?'
    return out
