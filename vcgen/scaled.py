"""Multiplication and division by constants (unit conversions) without bit-level multipliers: c * x is a fresh 128 bit
number with facts that hold of the mathematical product (sign, magnitude, strict monotonicity with distance c, successor),
machine results are its low bits.  x / c and x % c are defined by x = c * q + r."""
import z3
from .core import *
from .engine import *

W = 128


class Scaled:
    def __init__(s, eng): s.eng = eng; eng.hooks['divmod'] = True; eng.divmod = s.divmod; eng.hooks['mulc'] = s.mulc

    def prod(s, st, x, c):
        """the mathematical product c * x of a signed 64 bit x, as a 128 bit number"""
        if not is_term(x): x = x - (1 << 64) if x >> 63 else x; return z3.BitVecVal(x * c, W)
        if c == 1: return z3.SignExt(W - x.size(), x)
        x = z3.simplify(x); ps = st.tags.get('prods', ())
        for x2, c2, p2 in ps:
            if c2 == c and x2.eq(x): return p2
        e = s.eng; M = 1 << 63
        for x2, c2, p2 in ps:       # (x2 * c2) * c, if x2 * c2 did not overflow
            if x.eq(z3.simplify(z3.Extract(63, 0, p2))) and e.entails(st, z3.And(p2 < M, p2 >= -M)): return s.prod(st, x2, c2 * c)
        p = BV('product', W); X = z3.SignExt(W - x.size(), x); lim = c << (x.size() - 1); st.pc += [p <= lim, p >= -lim, (x == 0) == (p == 0), z3.Implies(x > 0, z3.And(p >= c, p >= X)), z3.Implies(x < 0, z3.And(p <= -c, p <= X))]
        if x.size() == 64:
            st.pc += [z3.Implies(x <= K, p <= c * K) for K in s.marks(c)] + [z3.Implies(x >= -K, p >= -c * K) for K in s.marks(c)]
            st.pc += [z3.Implies(x > K, p > c * K) for K in s.marks(c)] + [z3.Implies(x < -K, p < -c * K) for K in s.marks(c)]
        for x2, c2, p2 in ps:
            if c2 != c or x2.size() != x.size(): continue
            Y = z3.SignExt(W - x.size(), x2); st.pc += [z3.Implies(x == x2, p == p2), z3.Implies(x < x2, p + c <= p2), z3.Implies(x > x2, p2 + c <= p), z3.Implies(X == Y + 1, p == p2 + c), z3.Implies(X + 1 == Y, p + c == p2)]
        st.tags['prods'] = ps + ((x, c, p),); return p

    def marks(s, c): return sorted({(1 << k) // c for k in (60, 61, 62)} | {((1 << 63) - 1) // c})

    def mulc(s, st, x, c, w):
        if w != 64 or not is_term(x): return None
        c = c - (1 << 64) if c >> 63 else c
        if c <= 1 or c & (c - 1) == 0: return None
        return norm(z3.Extract(63, 0, s.prod(st, x, c)))

    def divmod(s, st, x, c, w, signed):
        if w != 64 or not signed or not is_term(x) or c & (c - 1) == 0: return Engine.divmod(s.eng, st, x, c, w, signed)
        for t, c2, q, r in st.tags.get('sdivs', ()):
            if c2 == c and t.eq(x): return q, r
        lim = (1 << 63) // c; q, r = BV('quot'), BV('rem'); st.pc += [q >= -lim, q <= lim]; p = s.prod(st, q, c); X = z3.SignExt(W - 64, x)
        st.pc += [X == p + z3.SignExt(W - 64, r), z3.If(x >= 0, z3.And(q >= 0, r >= 0, r < c), z3.And(q <= 0, r <= 0, r > -c))]
        st.tags['sdivs'] = st.tags.get('sdivs', ()) + ((x, c, q, r),); return q, r
