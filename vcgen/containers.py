"""Assumed contracts of standard containers, as ghost sequences."""
import z3
from .core import *
from .engine import *


class GhostQueue:
    """std::queue<elem>: unknown length `len`, unknown ids; appended ids and popped ids are recorded in ghost state.
    Keys: qlen (term), qfront (object id or None), qfid (id of the front), qin (tuple of appended ids), qout (tuple of popped ids)."""
    def __init__(s, eng, is_it, guard, elem_size=8):
        s.eng, s.is_it, s.guard, s.es = eng, is_it, guard, elem_size
        C = eng.contract_first
        for n in ('push', 'emplace', 'pop', 'front', 'back', 'size', 'empty'): C('=std::queue::' + n, getattr(s, n))

    def reset(s, st):
        n = BV('qlen'); st.pc.append(z3.ULT(n, 1 << 40)); g = st.ghost
        g['qlen'] = n; g['qfront'] = None; g['qfid'] = None; g['qin'] = (); g['qout'] = ()

    def enter(s, st, a, what):
        s.eng.prove(st, isinstance(a[0], Ptr) and s.is_it(a[0]), 'container/unknown', repr(a[0])); s.guard(st, what)

    def size(s, e, st, i, a, fn): s.enter(st, a, 'size'); return st.ghost['qlen']
    def empty(s, e, st, i, a, fn): s.enter(st, a, 'empty'); return norm(bv(st.ghost['qlen'], 64) == 0)
    def back(s, e, st, i, a, fn): raise Unsupported('std::queue::back')

    def front(s, e, st, i, a, fn):
        s.enter(st, a, 'front'); g = st.ghost
        if not e.prove(st, bv(g['qlen'], 64) != 0, 'container/front-of-empty-queue'): return []
        if g['qfront'] is None:
            o = st.new('fresh', 'front element', s.es); v = BV('front'); st.w(o.obj).cells[0] = (8, v); g['qfront'] = o.obj; g['qfid'] = v
        return Ptr(g['qfront'], 0)

    def pop(s, e, st, i, a, fn):
        s.enter(st, a, 'pop'); g = st.ghost
        if not e.prove(st, bv(g['qlen'], 64) != 0, 'container/pop-of-empty-queue'): return []
        if g['qfid'] is None: g['qfid'] = BV('front')
        g['qout'] = g['qout'] + (g['qfid'],); g['qlen'] = sub(g['qlen'], 1)
        if g['qfront'] is not None: st.w(g['qfront']).dead = 'popped from the queue'
        g['qfront'] = None; g['qfid'] = None; st.note('elements.pop()'); return None

    def put(s, e, st, a, how):
        out = []
        p = st.new('fresh', 'queued element', s.es)
        for q, oc in e.call(st, how, [p, a[1]]):
            g = q.ghost; v = q.mem[p.obj].cells[0][1]
            for q2, emp in e.split(q, norm(bv(g['qlen'], 64) == 0)):
                g = q2.ghost
                if emp: g['qfront'] = p.obj; g['qfid'] = v
                g['qlen'] = add(g['qlen'], 1); g['qin'] = g['qin'] + (v,); q2.note(f'elements.push({v})'); out.append((q2, None))
        return out

    def push(s, e, st, i, a, fn):
        s.enter(st, a, 'push'); return s.put(e, st, a, 'vc_elem_move' if '&&' in fn.d.rsplit('(', 1)[-1] else 'vc_elem_copy')

    def emplace(s, e, st, i, a, fn):
        s.enter(st, a, 'emplace'); d = fn.d.rsplit('(', 1)[-1]
        how = 'vc_elem_id' if 'unsigned long' in d else 'vc_elem_move' if '&&' in d else 'vc_elem_copy'
        return [(q, 0) for q, _ in s.put(e, st, a, how)]
