"""Python face of the abstract interpreter (engine/interp.cpp)."""
import ctypes, os
L = None
RET, THROW, TERMINATE, ALARM, LOOPCAP, BUDGET, UNSUP, ABORT = range(8)
KIND = ['return', 'throw', 'terminate', 'alarm', 'loop cap', 'budget', 'unsupported', 'abort']
MODS = {}
CUR = [None]


def load_lib(path):
    global L
    if L is not None:
        return
    L = ctypes.CDLL(path)
    c = ctypes
    for f in 'bf_retstr bf_out_msg bf_out_type bf_str bf_analysed bf_externals'.split():
        getattr(L, f).restype = c.c_char_p
    L.bf_steps.restype = c.c_long
    L.bf_summary.argtypes = [c.c_char_p, c.c_int]
    L.bf_opt.argtypes = [c.c_long, c.c_int, c.c_int, c.c_int, c.c_int]
    L.bf_const.argtypes = [c.c_int, c.c_uint64, c.c_uint64]
    L.bf_ptr.argtypes = [c.c_int, c.c_long]
    L.bf_mem.argtypes = [c.c_int, c.c_int, c.c_long, c.c_int]
    L.bf_eq.argtypes = [c.c_int, c.c_int, c.c_int, c.c_int, c.c_uint]
    for f in ('bf_load', 'bf_has', 'bf_var'):
        getattr(L, f).argtypes = [c.c_char_p]
    L.bf_opaque.argtypes = [c.c_int, c.c_char_p]


def load(name, path):
    i = L.bf_load(path.encode())
    if i < 0:
        raise RuntimeError('cannot load ' + path)
    MODS[name] = i


def use(name):
    L.bf_use(MODS[name])
    CUR[0] = name


def reset():
    L.bf_reset()


def limit(secs):
    L.bf_limit(ctypes.c_double(secs))


def opt(budget=4000000, loopcap=4096, merge=0, cap=4000, roglobals=0):
    L.bf_opt(budget, loopcap, merge, cap, roglobals)


def summary(name, hi):
    L.bf_summary(name.encode(), hi)


def _s(b):
    return b.decode('utf-8', 'replace') if b else ''


M64 = (1 << 64) - 1


def set256(it):
    a = (ctypes.c_uint64 * 4)()
    for v in it:
        a[v >> 6] |= 1 << (v & 63)
    return a


class Var:
    __slots__ = ('id', 'name', 'val')

    def __init__(self, name):
        self.id = L.bf_var(name.encode())
        self.name = name
        self.val = L.bf_byte(self.id)


def const(w, v):
    v &= (1 << w) - 1
    return L.bf_const(w, v & M64, v >> 64)


def uninit(w):
    return L.bf_uninit(w)


def concat(vals):
    """least significant first"""
    a = (ctypes.c_int * len(vals))(*vals)
    r = L.bf_concat(a, len(vals))
    assert r >= 0
    return r


def slice_(v, lo, w):
    r = L.bf_slice(v, lo, w)
    assert r >= 0, (v, lo, w, L.bf_width(v))
    return r


def byval(i, n=32):
    """little-endian list of bytes of an abstract int"""


def table(var, w, fn):
    a = (ctypes.c_uint64 * 256)(*[fn(i) & ((1 << w) - 1) for i in range(256)])
    return L.bf_table(var.id, w, a)


def mux(c, a, b):
    return L.bf_mux(c, a, b)


def width(v):
    return L.bf_width(v)


def show(v):
    return _s(L.bf_str(v))


OPS = dict(add=0, sub=1, mul=2, and_=3, or_=4, xor=5, udiv=6, urem=7, eq=8, ult=9, not_=10, shl=11, lshr=12, slt=13)


class State:
    def __init__(self, id_=None):
        self.id = L.bf_state() if id_ is None else id_

    def copy(self):
        return State(L.bf_state_copy(self.id))

    def obj(self, vals, name='buf', ro=0):
        a = (ctypes.c_int * max(1, len(vals)))(*vals)
        return L.bf_obj(self.id, a, len(vals), name.encode(), ro)

    def buf(self, n, name='out'):
        return self.obj([-1] * n, name)

    def restrict(self, var, values):
        return L.bf_restrict(self.id, var.id, set256(values))

    def assume(self, v):
        return L.bf_assume(self.id, v)

    def op(self, name, a, b=0):
        return L.bf_op(self.id, OPS[name], a, b)

    def ext(self, a, w, signed=0):
        return L.bf_ext(self.id, a, w, signed)

    def mem(self, ob, off, n):
        return L.bf_mem(self.id, ob, off, n)

    def refresh(self, v):
        return L.bf_refresh(self.id, v)

    def isconst(self, v):
        if v < 0:
            return None
        o = (ctypes.c_uint64 * 2)()
        if L.bf_isconst(self.id, v, o):
            return o[0] | (o[1] << 64)
        return None

    def range(self, v):
        o = (ctypes.c_uint64 * 4)()
        L.bf_range(self.id, v, o)
        return o[0] | (o[1] << 64), o[2] | (o[3] << 64)

    def eq(self, a, b, tries=4000, seed=1):
        """1 equal on all members, 0 definitely differs (witness in .wit), -1 unknown, 2 uninitialised"""
        if a < 0 or b < 0:
            return -1
        r = L.bf_eq(self.id, a, b, tries, seed)
        self.wit = _s(L.bf_retstr())
        return r

    def hasuninit(self, v):
        return L.bf_hasuninit(self.id, v)

    def witness(self, tries=4000, seed=1):
        if L.bf_witness(self.id, tries, seed):
            return _s(L.bf_retstr())
        return None

    def witval(self, var):
        return L.bf_witness_val(self.id, var.id)

    def getset(self, var):
        o = (ctypes.c_uint64 * 4)()
        L.bf_getset(self.id, var.id, o)
        return [i for i in range(256) if o[i >> 6] >> (i & 63) & 1]

    def heap(self):
        return L.bf_heap_count(self.id)

    def written_globals(self):
        n = L.bf_written_globals(self.id)
        return _s(L.bf_retstr()).split() if n else []


class Outcome:
    def __init__(self, i):
        self.i = i
        self.kind = L.bf_out_kind(i)
        self.ret = L.bf_out_ret(i)
        self.msg = _s(L.bf_out_msg(i))
        self.type = _s(L.bf_out_type(i))
        self.joined = bool(L.bf_out_joined(i))
        self.soft = L.bf_out_soft(i)
        self.st = State(L.bf_out_state(i))


def has(fn):
    return bool(L.bf_has(fn.encode()))


def run(st, fn, args):
    a = (ctypes.c_int * max(1, len(args)))(*args)
    n = L.bf_run(st.id, fn.encode(), a, len(args))
    if n < 0:
        raise RuntimeError('missing analysis entry ' + fn)
    return [Outcome(i) for i in range(n)]


def ptr(ob, off=0):
    return L.bf_ptr(ob, off)


def steps():
    return L.bf_steps()


def analysed():
    return [_s(L.bf_analysed(i)) for i in range(L.bf_nanalysed())]


def externals():
    return [x for x in _s(L.bf_externals()).split('\n') if x]
