"""A value type whose every construction and destruction is an obligation: `tv` in tu/tracked.hpp."""
from .core import *
from .engine import *


class Tracked:
    def __init__(s, eng, copy_throws=True, move_throws=False):
        s.eng, s.ct, s.mt, s.on_throw = eng, copy_throws, move_throws, None; C = eng.contract_first
        C('=vc_tv_make', s.make); C('=vc_tv_copy', s.copy); C('=vc_tv_move', s.move); C('=vc_tv_dtor', s.dtor); C('=vc_tv_assign_copy', s.acopy); C('=vc_tv_assign_move', s.amove)

    def init(s, st): st.ghost.setdefault('live', ())

    def key(s, p):
        if not isinstance(p, Ptr) or not isinstance(p.off, int): raise Unsupported(f'tracked value at {p}')
        return (p.obj, p.off)

    def birth(s, st, p, v):
        k = s.key(p); s.eng.prove(st, k not in st.ghost['live'], 'value/constructed-twice', repr(p))
        st.ghost['live'] += (k,)
        r = s.eng.store(st, p, 8, v, 'i64'); assert len(r) == 1

    def get(s, st, p, what):
        s.eng.prove(st, s.key(p) in st.ghost['live'], 'value/use-outside-lifetime', f'{what} {p}')
        r = s.eng.load(st, p, 8, 'i64'); assert len(r) == 1
        return r[0][1]

    def threw(s, q, p, a):
        if s.on_throw: s.on_throw(q, p, a)
        else: q.ghost['exc'] = p.obj

    def make(s, e, st, i, a, fn): s.birth(st, a[0], a[1]); return None

    def copy(s, e, st, i, a, fn):
        v = s.get(st, a[1], 'copy of'); out = []
        if s.ct:
            q = st.clone(); st.forks += 1; q.forks += 1; p = q.new('heap', 'exception', 16); q.tags[('exc', p.obj)] = 'copy'; q.note('the copy throws'); s.threw(q, p, a); out.append((q, Throw(Exc(p, 'copy'))))
        s.birth(st, a[0], v); return [(st, None)] + out

    def move(s, e, st, i, a, fn):
        v = s.get(st, a[1], 'move of'); out = []
        if s.mt:
            q = st.clone(); st.forks += 1; q.forks += 1; p = q.new('heap', 'exception', 16); q.tags[('exc', p.obj)] = 'move'; q.note('the move throws'); s.threw(q, p, a); out.append((q, Throw(Exc(p, 'move'))))
        s.birth(st, a[0], v); e.store(st, a[1], 8, 0x30bed, 'i64'); return [(st, None)] + out

    def acopy(s, e, st, i, a, fn): v = s.get(st, a[1], 'copy of'); s.get(st, a[0], 'assignment to'); e.store(st, a[0], 8, v, 'i64'); return a[0]

    def amove(s, e, st, i, a, fn):
        v = s.get(st, a[1], 'move of'); s.get(st, a[0], 'assignment to'); e.store(st, a[1], 8, 0x30bed, 'i64'); e.store(st, a[0], 8, v, 'i64'); return a[0]

    def dtor(s, e, st, i, a, fn):
        k = s.key(a[0])
        if e.prove(st, k in st.ghost['live'], 'value/destroyed-exactly-once', f'{a[0]} is not alive'): st.ghost['live'] = tuple(x for x in st.ghost['live'] if x != k)
        return None
