"""Shared atomic cells: a load / CAS / exchange by the verified thread sees any value the other threads may have put
there (rely = invariant + what this thread's tokens exclude); every write must be a transition its protocol allows."""
import z3
from .core import *

ACQ = {'acquire', 'acq_rel', 'seq_cst'}
REL = {'release', 'acq_rel', 'seq_cst'}


def acq_ok(st, ord): return ord in ACQ or ord == 'rmw-ok'
def rel_ok(st, ord): return ord in REL or st.ghost.get('fence') in REL


class Cell:
    """subclass: name, values(eng, st, e), transition(eng, st, old, new, ord, how), observed(eng, st, v, ord)"""
    size = 8
    name = 'cell'
    ty = 'ptr'
    plain = False      # an ordinary (non-atomic) variable protected by a lock

    def values(s, eng, st, e=None): raise NotImplementedError
    def transition(s, eng, st, old, new, ord, how): raise NotImplementedError
    def observed(s, eng, st, v, ord): return None

    def load(s, eng, st, ord):
        out = []
        for q, v in s.vals(eng, st, None):
            s.observed(eng, q, v, ord); out.append((q, v))
        return out

    def vals(s, eng, st, e):
        r = s.values(eng, st, e)
        if len(r) > 1:
            for q, _ in r: q.forks += 1
        return r

    def store(s, eng, st, v, ord):
        out = []
        for q, old in s.vals(eng, st, None):
            out += s.transition(eng, q, old, v, ord, 'store')
        return out

    def rmw(s, eng, st, op, v, ord):
        out = []
        for q, old in s.vals(eng, st, None):
            nv = eng.rmw_val(q, op, old, v, s.size * 8)
            for q2 in s.transition(eng, q, old, nv, ord, 'rmw-' + op): out.append((q2, old))
        return out

    def cas(s, eng, st, e, v, so, fo, weak):
        out = []
        for q, cur in s.vals(eng, st, e):
            if isinstance(cur, Ptr) and isinstance(e, Ptr) and isinstance(cur.obj, NodeRef) and isinstance(e.obj, NodeRef) and cur.obj.chain != e.obj.chain:
                same = 0        # values() offers the case `the cell still holds e` separately
            else: same = eng.cmp(q, 'eq', cur, e, s.ty if (isinstance(cur, (Ptr, FnPtr)) or isinstance(e, (Ptr, FnPtr))) else f'i{s.size*8}')
            for q2, b in eng.split(q, boolterm(same) if is_term(same) else bool(same)):
                if b:
                    if weak:
                        q3 = q2.clone(); q3.forks += 1; q2.forks += 1
                        s.observed(eng, q3, cur, fo); out.append((q3, (cur, 0)))
                    for q4 in s.transition(eng, q2, cur, v, so, 'cas'): out.append((q4, (cur, 1)))
                else:
                    s.observed(eng, q2, cur, fo); s.failed(eng, q2, cur, e); out.append((q2, (cur, 0)))
        return out

    def failed(s, eng, st, cur, e): pass


class NodeKind:
    def __init__(s, name, next=None, handle=None, fields=None, size=None, body=None):
        # body(eng, st, chain id, idx) -> object id holding the node's other fields while this thread owns the node
        s.name, s.next, s.handle, s.fields, s.size, s.body = name, next, handle, fields or {}, size, body


class Nodes:
    """field access to waiter nodes of chains, and the right to resume them"""
    def __init__(s, eng):
        s.eng = eng; s.kinds = {}
        eng.hooks['node_load'] = s.load; eng.hooks['node_store'] = s.store; eng.hooks['node_body'] = s.body
        s.on_resume = None

    def kind(s, k): s.kinds[k.name] = k

    def body(s, eng, st, p, what='read'):
        """pointer into the body of a node (fields other than link and handle), or None"""
        r = p.obj; k = s.kinds[st.chains[r.chain].kind]
        if k.body is None or r.sub or p.off in (k.next, k.handle): return None
        s.may_access(st, p, what)
        for ch, idx, o in st.ghost.get('bodies', ()):
            if ch == r.chain and eng.entails(st, eq(idx, r.idx)): return Ptr(o, p.off)
        o = k.body(eng, st, r.chain, r.idx)
        st.ghost['bodies'] = st.ghost.get('bodies', ()) + ((r.chain, r.idx, o),)
        return Ptr(o, p.off)

    def body_of(s, st, p):
        for ch, idx, o in st.ghost.get('bodies', ()):
            if ch == p.obj.chain and s.eng.entails(st, eq(idx, p.obj.idx)): return o
        return None

    def chain(s, st, kind, excl, nmin=1, info=None, name=None):
        n = BV(f'n.{name or kind}'); st.pc += [z3.UGE(n, nmin), z3.ULT(n, 1 << 40)]
        cid = fresh_name('chain'); st.chains[cid] = Chain(cid, kind, n, excl=excl, info=info)
        if not excl: st.chains[cid] = st.chains[cid].upd(lo=n)      # nothing owned
        return cid

    def head(s, st, cid): return Ptr(NodeRef(cid, sub(st.chains[cid].n, 1)), 0)

    def may_access(s, st, p, what):
        c = st.chains[p.obj.chain]; i = p.obj.idx
        return s.eng.prove(st, And(ULE(c.lo, i), ULT(i, c.hi)), f'waiter/{what}-after-release',
                    f'{what} of waiter {p} which this thread does not own (it may already have been resumed and destroyed, or be unlinked by others)')

    def next_of(s, st, cid, i):
        """-> [(state, ptr)]"""
        c = st.chains[cid]; eng = s.eng; out = []
        for idx, off, v in reversed(c.over):
            if off != s.kinds[c.kind].next: continue
            sides = eng.split(st, norm(eq(idx, i)) if is_term(idx) or is_term(i) else idx == i)
            st = None
            for q, b in sides:
                if b: out.append((q, v))
                else: st = q
            if st is None: return out
        for q, b in eng.split(st, norm(ULE(c.rev, i))):
            if b:
                for q2, e in eng.split(q, norm(eq(i, sub(c.n, 1)))):
                    out.append((q2, 0 if e else Ptr(NodeRef(cid, add(i, 1)), 0)))
            else:
                for q2, e in eng.split(q, norm(eq(i, 0))):
                    out.append((q2, 0 if e else Ptr(NodeRef(cid, sub(i, 1)), 0)))
        return out

    def load(s, eng, st, p, size, t):
        r = p.obj; k = s.kinds[st.chains[r.chain].kind]
        if r.sub == '.handle': raise Unsupported('load through a coroutine handle')
        s.may_access(st, p, 'read')
        if p.off == k.next: return s.next_of(st, r.chain, r.idx)
        if p.off == k.handle: return [(st, Ptr(NodeRef(r.chain, r.idx, '.handle'), 0))]
        b = s.body(eng, st, p)
        if b is not None: return eng.load(st, b, size, t)
        f = k.fields.get(p.off)
        if f is None: raise Unsupported(f'load of field +{p.off} of a {k.name} node')
        for idx, off, v in reversed(st.chains[r.chain].over):
            if off == p.off and eng.entails(st, eq(idx, r.idx)): return [(st, v)]
        return f(eng, st, r)

    def store(s, eng, st, p, size, v):
        r = p.obj; c = st.chains[r.chain]; k = s.kinds[c.kind]
        s.may_access(st, p, 'write')
        b = s.body(eng, st, p, 'write')
        if b is not None: return eng.store(st, b, size, v, f'i{size*8}')
        if p.off == k.next:
            i = r.idx
            # in-place reversal from the head
            if not c.over and eng.entails(st, eq(add(i, 1), c.rev)):
                if isinstance(v, int) and v == 0 and eng.entails(st, eq(i, sub(c.n, 1))):
                    st.chains[r.chain] = c.upd(rev=i); return [(st, None)]
                if isinstance(v, Ptr) and isinstance(v.obj, NodeRef) and v.obj.chain == r.chain and eng.entails(st, eq(v.obj.idx, add(i, 1))):
                    st.chains[r.chain] = c.upd(rev=i); return [(st, None)]
        st.chains[r.chain] = c.upd(over=c.over + ((r.idx, p.off, v),))
        return [(st, None)]

    def consume(s, st, p, what='resume'):
        """the waiter p is handed to its resumption: exactly once, and this thread loses it"""
        eng = s.eng; cid = p.obj.chain; c = st.chains[cid]; i = p.obj.idx
        bo = s.body_of(st, p)
        if bo is not None: st.w(bo).dead = 'the waiter was resumed'; st.ghost['bodies'] = tuple(x for x in st.ghost['bodies'] if x[2] != bo)
        eng.prove(st, And(ULE(c.lo, i), ULT(i, c.hi)), 'waiter/resumed-exactly-once', f'{what} of {p}: not a waiter this call has claimed and not yet resumed (owned range [{c.lo},{c.hi}))')
        if eng.entails(st, eq(add(i, 1), c.hi)): st.chains[cid] = c.upd(hi=i)
        elif eng.entails(st, eq(i, c.lo)): st.chains[cid] = c.upd(lo=add(i, 1))
        else:
            raise Unsupported('waiters resumed in an order that is neither newest-first nor oldest-first')
