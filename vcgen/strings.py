"""Contracts of the C string functions the real libstdc++ string code bottoms out in, and helpers to read texts back."""
from .core import *
from .engine import *


def text_at(e, st, p, limit=4096):
    """the bytes from p up to the terminating NUL, when they are all known; None otherwise"""
    out = bytearray()
    if not isinstance(p, Ptr) or not isinstance(p.off, int): return None
    while len(out) < limit:
        r = e.load(st, Ptr(p.obj, p.off + len(out)), 1, 'i8')
        if len(r) != 1 or not isinstance(r[0][1], int): return None
        if r[0][1] == 0: return bytes(out)
        out.append(r[0][1])
    return None


def bytes_at(e, st, p, n):
    out = []
    for k in range(n):
        r = e.load(st, Ptr(p.obj, p.off + k), 1, 'i8')
        if len(r) != 1: return None
        out.append(r[0][1])
    return bytes(out) if all(isinstance(x, int) for x in out) else out


def std_string(e, st, p):
    """(length, text or None) of a std::string object"""
    o = st.mem[p.obj]
    d = e.load(st, Ptr(p.obj, p.off), 8, 'ptr'); n = e.load(st, Ptr(p.obj, p.off + 8), 8, 'i64')
    d, n = d[0][1], n[0][1]
    if not isinstance(n, int) or not isinstance(d, Ptr): return n, None
    return n, bytes_at(e, st, d, n)


def install(eng):
    def strlen(e, st, i, a, fn):
        t = text_at(e, st, a[0])
        if t is None: raise Unsupported('strlen of unknown text')
        return len(t)
    eng.contract('=strlen', strlen)


def run_static_init(eng, st):
    """dynamic initialisation of the extracted unit (its static std::string objects and tables)"""
    for n in [n for n in eng.m.fn if n.startswith('_GLOBAL__sub_I')]:
        r = eng.call(st, n, [])
        if len(r) != 1 or r[0][1][0] != 'ret': raise Unsupported('static initialisation of the unit is not deterministic')
        st = r[0][0]
    return st


def install_mem(eng):
    """memcmp / strnlen / htons / ntohs over known-length memory"""
    install(eng)
    def memcmp(e, st, i, a, fn):
        n = a[2]
        if not isinstance(n, int): raise Unsupported('memcmp of symbolic size')
        x, y = bytes_at(e, st, a[0], n), bytes_at(e, st, a[1], n)
        if any(v is UNDEF for v in list(x) + list(y)): e.fail(st, 'memory/uninitialised-value', 'memcmp'); return BV('memcmp', 32)
        r = z3.BitVecVal(0, 32)
        for u, v in reversed(list(zip(x, y))):
            u, v = bv(u, 8), bv(v, 8); r = z3.If(u == v, r, z3.If(z3.ULT(u, v), z3.BitVecVal(-1, 32), z3.BitVecVal(1, 32)))
        return norm(r)
    def swap(e, st, i, a, fn):
        x = bv(a[0], 16); return norm(z3.Concat(z3.Extract(7, 0, x), z3.Extract(15, 8, x)))
    def strnlen(e, st, i, a, fn):
        lim = a[1] if len(a) > 1 else 1 << 20
        if not isinstance(lim, int): raise Unsupported('strnlen bound')
        for k in range(lim):
            r = e.load(st, Ptr(a[0].obj, add(a[0].off, k)), 1, 'i8')
            if not r: return []
            d = e.decide(st, bv(r[0][1], 8) == 0) if not isinstance(r[0][1], int) else r[0][1] == 0
            if d is None: raise Unsupported('length of unknown text')
            if d: return k
        return lim
    eng.contract_first('=memcmp', memcmp); eng.contract_first(r'^(htons|ntohs)$', swap); eng.contract_first(r'^(strnlen|strlen)$', strnlen)
