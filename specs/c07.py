"""C07: coro::shared_mutex -- one writer or many readers, arrival order, no lost waiter."""
import z3
from vcgen.core import *
from vcgen.engine import *
from vcgen.proto import *
from vcgen.monitor import *

NOTE = 'every operation proved against the monitor invariant of the state protected by the internal mutex (contract of C01): unlocked = no users and no waiters; shared = at least one user and, if anybody waits, the first waiter is exclusive; exclusive = no users; the exclusive-waiter count equals the exclusive operations in the list. The executor is assumed to accept the readers handed to it.'
TUS = ['shared_mutex.cpp']
U, S, X = 0, 1, 2


class Prot(Cell):
    """a variable of the shared mutex protected by its internal mutex"""
    def __init__(s, key, size, ty, fresh): s.key, s.size, s.ty, s.name, s.fresh = key, size, ty, key, fresh
    def values(s, eng, st, e=None):
        g = st.ghost
        if g['own'] is True: return [(st, g[s.key])]
        return s.fresh(eng, st)
    def transition(s, eng, st, old, new, ord, how):
        st.note(f'{how} {s.key} {old} -> {new}')
        eng.prove(st, st.ghost['own'] is True, 'shared_mutex/changed-without-lock', s.key)
        st.ghost[s.key] = new; return [st]


def setup(ctx, mod, name, op, excl=False):
    eng = ctx.engine(mod, f'shared_mutex::{name}'); off = lambda x: ctx.off(mod, x); nodes = Nodes(eng)
    def exclusive(e, q, ref):
        ex = z3.Function('exclusive.' + ref.chain, z3.BitVecSort(64), z3.BoolSort())
        return [(r, int(b)) for r, b in e.split(q, ex(bv(ref.idx, 64)))]
    nodes.kind(NodeKind('op', off('op_next'), off('op_handle'), fields={off('op_exclusive'): exclusive}))
    st = State(); M = st.new('shared', 'shared mutex', off('sm')); E = st.new('opaque', 'executor'); st.w(M.obj).cells[off('sm_executor')] = (8, E)
    st.ghost.update(op=op, own=False, state=None, **{'#users': None}, ew=None, head=None, tail=None, s0=None, u0=None, e0=None, h0=None, ch=None, claimed=None, granted=False, registered=None, coro=None, grants=0, events=(), fixed=None, did=())
    unk = lambda n, w=64: lambda e, q: [(q, BV(n, w))]
    def anyptr(e, q):
        x = q.clone(); c = nodes.chain(x, 'op', False); return [(q, 0), (x, nodes.head(x, c))]
    for k, size, ty, f in (('state', 4, 'i32', unk('state', 32)), ('#users', 8, 'i64', unk('users')), ('ew', 8, 'i64', unk('ew')), ('head', 8, 'ptr', anyptr), ('tail', 8, 'ptr', anyptr)):
        st.cells[(M.obj, off('sm_' + k.strip('#')))] = Prot(k, size, ty, f)
    def on_lock(q):
        out = []
        for s0 in ((S,) if op == 'unlock_shared' else (X,) if op == 'unlock' else (U, S, X)):
            for many in ((False, True) if s0 == S else (False,)):
                for w in ((False,) if s0 == U else (False, True)):
                    x = q.clone(); g = x.ghost; u = 0 if s0 != S else 1
                    if many: u = BV('users'); x.pc += [z3.UGE(u, 2), z3.ULT(u, 1 << 62)]
                    if w:
                        c = nodes.chain(x, 'op', False); n = x.chains[c].n; x.chains[c] = x.chains[c].upd(lo=0, hi=n); e = BV('ew'); x.pc += [z3.ULE(e, n)]
                        if s0 == S: x.pc += [z3.Function('exclusive.' + c, z3.BitVecSort(64), z3.BoolSort())(n - 1), z3.UGE(e, 1)]
                        h, t = nodes.head(x, c), Ptr(NodeRef(c, 0), 0)
                    else: c, e, h, t = None, 0, 0, 0
                    g.update(state=s0, **{'#users': u}, ew=e, head=h, tail=t, s0=s0, u0=u, e0=e, h0=h, ch=c); out.append(x)
        return out
    def on_unlock(q):
        g = q.ghost; P = lambda c, k, d='': eng.prove(q, c, 'shared_mutex/' + k, d); s0, s1 = g['s0'], g['state']
        if not P(not is_term(s1), 'state-unknown'): return
        c = q.chains[g['ch']] if g['ch'] else None
        same_users = eq(g['#users'], g['u0']); same_ew = eq(g['ew'], g['e0']); h1, t1 = g['head'], g['tail']
        null = lambda v: isinstance(v, int) and v == 0
        first = lambda v: isinstance(v, Ptr) and v.obj == NodeRef(g['ch'], v.obj.idx) if isinstance(v, Ptr) and isinstance(v.obj, NodeRef) else False
        def unchanged_list(): return And(eng.ptr_eq(q, h1, g['h0']), eng.ptr_eq(q, t1, Ptr(NodeRef(g['ch'], 0), 0) if c else 0), not (c and c.over))
        own_op = [v for v in (h1, t1) if isinstance(v, Ptr) and not isinstance(v.obj, NodeRef)] + ([v for _, _, v in c.over if isinstance(v, Ptr) and not isinstance(v.obj, NodeRef)] if c else [])
        can = s0 == U or (not excl and s0 == S and c is None)
        if op in ('lock', 'try') and own_op:
            r = own_op[0]; g['registered'] = r
            P(op == 'lock', 'try-never-waits'); P(not can, 'waits-although-free', 'a waiter registers although the lock can be granted: nobody may ever wake it')
            P(And(s1 == s0, same_users), 'waiting-changes-nothing')
            P(eq(g['ew'], add(g['e0'], int(excl))), 'exclusive-waiters-counted', f'exclusive waiters {g["e0"]} -> {g["ew"]} when a {"writer" if excl else "reader"} registers')
            P(eng.ptr_eq(q, t1, r), 'appended-at-the-tail')
            if c is None: P(eng.ptr_eq(q, h1, r), 'first-waiter-is-the-head')
            else:
                P(eng.ptr_eq(q, h1, g['h0']), 'earlier-waiters-kept-first')
                P(len(c.over) == 1 and c.over[0][1] == off('op_next') and eng.entails(q, eq(c.over[0][0], 0)) and eng.ptr_eq(q, c.over[0][2], r), 'linked-behind-the-last-waiter', str(c.over))
            o = q.mem[r.obj]; f = lambda n: o.cells.get(add(r.off, off(n)), (0, None))[1]
            P(null(f('op_next')), 'last-waiter-has-no-next'); P(isinstance(f('op_handle'), Ptr) and f('op_handle').obj == g['coro'], 'waiter-handle')
            P(eq(f('op_exclusive'), int(excl), 8) if f('op_exclusive') is not None else False, 'waiter-mode'); q.w(r.obj).dead = 'registered and lock released: another thread may already have resumed and destroyed it'
        elif op in ('lock', 'try'):
            P(unchanged_list(), 'waiters-lost'); P(same_ew, 'exclusive-waiters-counted')
            if s1 == s0 and eng.entails(q, same_users):
                if op == 'try': P(not can, 'try-fails-although-free', 'try_lock looked at a lock it could take and failed')
            else:
                P(can, 'granted-although-held', f'{"exclusive" if excl else "shared"} lock granted in state {("unlocked", "shared", "exclusive")[s0]}' + (' past a waiting writer' if c else ''))
                P(And(s1 == (X if excl else S), same_users if excl else eq(g['#users'], add(g['u0'], 1))), 'grant-recorded', f'state {s0} -> {s1}, users {g["u0"]} -> {g["#users"]}'); P(g['granted'] is False, 'granted-twice'); g['granted'] = True
        elif op in ('unlock', 'unlock_shared'):
            P(g['did'] == (), 'released-twice'); consumed = lambda lo: eq(c.hi, lo)
            if op == 'unlock_shared' and not isinstance(g['u0'], int):
                g['did'] = ('kept',); P(And(s1 == S, eq(g['#users'], sub(g['u0'], 1)), same_ew, unchanged_list()), 'other-readers-keep-the-lock', f'one of several readers releases: state {s1}, users {g["u0"]} -> {g["#users"]}')
                if c: P(consumed(c.n), 'woken-while-held')
            elif c is None: g['did'] = ('freed',); P(And(s1 == U, eq(g['#users'], 0), same_ew, unchanged_list()), 'freed-when-nobody-waits', f'state {s1} users {g["#users"]}')
            else:
                if null(h1): k = None; P(null(t1), 'list-consistent')
                elif not P(isinstance(h1, Ptr) and isinstance(h1.obj, NodeRef) and h1.obj.chain == c.id, 'list-consistent'): return
                else: k = h1.obj.idx; P(eng.ptr_eq(q, t1, Ptr(NodeRef(c.id, 0), 0)), 'list-consistent', 'tail')
                left = 0 if k is None else add(k, 1); P(not c.over, 'list-consistent', 'links changed')
                ex = z3.Function('exclusive.' + c.id, z3.BitVecSort(64), z3.BoolSort())
                if eng.entails(q, ex(sub(c.n, 1))):
                    g['did'] = ('writer',); P(And(eq(left, sub(c.n, 1)), s1 == X, eq(g['#users'], 0)), 'exactly-the-first-writer-granted', f'state {s1} users {g["#users"]} head {h1}'); P(eq(g['ew'], sub(g['e0'], 1)), 'exclusive-waiters-counted')
                    if eng.entails(q, eq(c.hi, c.n)): g['claimed'] = c.id; q.chains[c.id] = c.upd(lo=sub(c.n, 1))
                    else: P(consumed(sub(c.n, 1)), 'woken-waiters'); q.chains[c.id] = c.upd(lo=c.hi)
                    g['grants'] = 1
                else:
                    P(z3.Not(ex(sub(c.n, 1))), 'first-waiter-inspected', 'the lock is handed over without looking at what the first waiter wants')
                    g['did'] = ('readers',); P(ULT(left, c.n), 'next-waiter-granted', 'the last holder releases but the first waiter is not granted the lock')
                    P(And(s1 == S, eq(g['#users'], sub(c.n, left)), same_ew), 'granted-readers-counted', f'state {s1}, users {g["#users"]}, granted {sub(c.n, left)}')
                    P(consumed(left), 'every-granted-reader-resumed'); 
                    if k is not None: P(ex(bv(k, 64)), 'readers-granted-together', 'the next waiter is a reader and stays waiting')
                    q.chains[c.id] = q.chains[c.id].upd(lo=c.hi)
        g.update(state=None, **{'#users': None}, ew=None, head=None, tail=None)
    Monitor(eng, lambda m: m.obj == M.obj and m.off == off('sm_mutex'), off('lockop_mutex'), on_lock, on_unlock)
    def resume(e, q, h):
        if not isinstance(h.obj, NodeRef): return INLINE
        g = q.ghost; q.note(f'resume {h}'); c = q.chains[h.obj.chain]
        if g['own'] is not True: e.prove(q, g['claimed'] == c.id, 'shared_mutex/woken-without-grant', 'a waiter is resumed that was not granted the lock')
        nodes.consume(q, h)
        if g['own'] is not True: g['claimed'] = None
        return [q]
    eng.hooks['resume'] = resume
    def ex_resume(e, q, i, a, fn):
        h = a[1]; e.prove(q, isinstance(a[0], Ptr) and a[0].obj == E.obj, 'pre/own-executor')
        if not e.prove(q, isinstance(h, Ptr) and isinstance(h.obj, NodeRef), 'shared_mutex/resumes-unknown-handle', repr(h)): return 1
        r = resume(e, q, h); assert r == [q]; return 1
    eng.contract_first('=vc_executor::resume', ex_resume)
    return eng, st, M, E, off, nodes


def run_task(eng, st, entry, args):
    t = st.new('fresh', 'task', 8); out = []
    for q, oc in eng.call(st, entry, [*args, t]):
        eng.prove(q, oc[0] == 'ret', 'post/task-created'); h = q.mem[t.obj].cells[0][1]; q.ghost['coro'] = h.obj
        for q2, oc2 in resume_top(eng, q, h):
            eng.prove(q2, oc2[0] in ('ret', 'suspend', 'coro_end'), 'post/no-exception', str(oc2)); out.append((q2, t, h, q2.coros[h.obj].done))
    return out


def part_lock(ctx):
    mod = ctx.module('shared_mutex.cpp')
    for entry, excl in (('vc_lock', True), ('vc_lock_shared', False)):
        eng, st, M, E, off, nodes = setup(ctx, mod, entry[3:], 'lock', excl); seen = set()
        for q, t, h, done in run_task(eng, st, entry, [M]):
            g = q.ghost; eng.prove(q, g['own'] is False, 'post/internal-lock-released')
            if done: seen.add('direct'); eng.prove(q, g['granted'] is True and g['registered'] is None, 'post/returns-only-with-the-lock'); continue
            seen.add('waits'); eng.prove(q, g['registered'] is not None and g['granted'] is False, 'post/suspends-only-registered')
            if g['registered'] is None: continue
            q.w(g['registered'].obj).dead = None; n = len(q.trace) if hasattr(q, 'trace') else 0
            for x, oc in resume_top(eng, q, h):
                eng.prove(x, x.coros[h.obj].done and x.ghost['granted'] is False and x.ghost['own'] is False, 'post/finishes-when-granted', 'a coroutine that was granted the lock must continue with exactly that grant')
                for x2, oc in eng.call(x, 'vc_vresult', [t]): eng.prove(x2, oc[0] == 'ret', 'post/no-exception')
        eng.prove(State(), seen == {'direct', 'waits'}, 'cover/all-outcomes', str(seen))
    for entry, excl in (('vc_try_lock', True), ('vc_try_lock_shared', False)):
        eng, st, M, E, off, nodes = setup(ctx, mod, entry[3:], 'try', excl); seen = set()
        for q0, oc in eng.call(st, entry, [M]):
            for q, b in eng.split(q0, boolterm(oc[1])):
                seen.add(b); eng.prove(q, oc[0] == 'ret' and q.ghost['granted'] is b and q.ghost['own'] is False, 'post/true-iff-acquired', f'returned {b}, granted {q.ghost["granted"]}')
        eng.prove(State(), seen == {True, False}, 'cover/both')


def part_unlock(ctx):
    mod = ctx.module('shared_mutex.cpp')
    for entry in ('vc_unlock', 'vc_unlock_shared'):
        eng, st, M, E, off, nodes = setup(ctx, mod, entry[3:], entry[3:]); seen = set()
        for q, t, h, done in run_task(eng, st, entry, [M]):
            g = q.ghost; eng.prove(q, done, 'post/finishes'); eng.prove(q, g['own'] is False, 'post/internal-lock-released'); eng.prove(q, g['claimed'] is None, 'post/granted-writer-resumed', 'a writer was granted the lock but never resumed')
            eng.prove(q, len(g['did']) == 1, 'post/released', 'unlock returns without having released'); seen |= set(g['did'])
            for q2, oc in eng.call(q, 'vc_vresult', [t]): eng.prove(q2, oc[0] == 'ret', 'post/no-exception')
        eng.prove(State(), seen == ({'freed', 'writer', 'readers'} if entry == 'vc_unlock' else {'freed', 'writer', 'kept'}), 'cover/all-outcomes', str(seen))


def part_scoped(ctx):
    mod = ctx.module('shared_mutex.cpp')
    for entry, excl in (('vc_scoped', True), ('vc_scoped_shared', False)):
        eng, st, M, E, off, nodes = setup(ctx, mod, 'scoped_lock' + ('' if excl else '_shared'), 'lock', excl); seen = set(); C = eng.contract_first
        def user(e, q, i, a, fn):
            e.prove(q, q.ghost['events'] == () and (q.ghost['granted'] is True or q.ghost['registered'] is not None and q.ghost['fixed']), 'scoped/task-runs-once-with-the-lock', str(q.ghost['events'])); q.ghost['events'] += ('user',)
            x = q.clone(); x.ghost['events'] += ('throws',); p = x.new('heap', 'exception', 16); x.tags[('exc', p.obj)] = 'user'; x.ghost['exc'] = p.obj
            q.forks += 1; x.forks += 1
            return [(q, None), (x, Throw(Exc(p, 'user')))]
        C('=vc_user', user)
        def fx(which):
            def h(e, q, i, a, fn): e.prove(q, isinstance(a[0], Ptr) and a[0].obj == M.obj and which == excl, 'scoped/releases-what-it-acquired'); q.ghost['events'] += ('released',); return None
            return h
        C('=vc_fx_unlock', fx(True)); C('=vc_fx_unlock_shared', fx(False))
        def stub(ent):
            def h(e, q, i, a, fn): return [(x, None) for x, _ in e.call(q, ent, [a[1], a[0]])]
            return h
        C('=coro::shared_mutex::unlock', stub('vc_stub_unlock')); C('=coro::shared_mutex::unlock_shared', stub('vc_stub_unlock_shared'))
        def finished(q, t):
            ev = q.ghost['events']; seen.add(ev); eng.prove(q, ev in (('user', 'released'), ('user', 'throws', 'released')), 'post/released-exactly-once-after-the-task', f'history {ev}: the lock is {"never" if "released" not in ev else "wrongly"} released')
            for q2, oc in eng.call(q, 'vc_vresult', [t]):
                if 'throws' in ev: eng.prove(q2, oc[0] == 'throw' and oc[1].ptr.obj == q2.ghost.get('exc'), 'post/exception-reaches-the-caller', str(oc))
                else: eng.prove(q2, oc[0] == 'ret', 'post/no-exception')
        for q, t, h, done in run_task(eng, st, entry, [M]):
            g = q.ghost; eng.prove(q, g['own'] is False, 'post/internal-lock-released')
            if done: eng.prove(q, g['granted'] is True, 'post/acquired'); finished(q, t); continue
            eng.prove(q, g['registered'] is not None, 'post/suspends-only-registered')
            if g['registered'] is None: continue
            q.w(g['registered'].obj).dead = None; g['fixed'] = True
            for x, oc in resume_top(eng, q, h): eng.prove(x, x.coros[h.obj].done, 'post/finishes-when-granted'); finished(x, t)
        eng.prove(State(), len(seen) >= 2, 'cover/all-outcomes', str(seen))


def part_other(ctx):
    mod = ctx.module('shared_mutex.cpp')
    for nul in (False, True):
        eng, st, M, E, off, nodes = setup(ctx, mod, 'shared_mutex', 'ctor'); st.cells.clear(); u = st.new('fresh', 'unique_ptr', 8); st.w(u.obj).cells[0] = (8, 0 if nul else E); st.w(M.obj).cells.clear()
        for q, oc in eng.call(st, 'vc_ctor', [u, M]):
            if nul: eng.prove(q, oc[0] == 'throw', 'post/refuses-null-executor'); continue
            eng.prove(q, oc[0] == 'ret', 'post/constructed'); f = lambda n: q.mem[M.obj].cells.get(off('sm_' + n), (0, None))[1]
            for n in ('state', 'users', 'ew', 'head', 'tail'): eng.prove(q, isinstance(f(n), int) and f(n) == 0, 'post/starts-unlocked', n)
            eng.prove(q, isinstance(f('executor'), Ptr) and f('executor').obj == E.obj, 'post/executor')
    eng, st, M, E, off, nodes = setup(ctx, mod, 'executor', 'query')
    for q, oc in eng.call(st, 'vc_executor_of', [M]): eng.prove(q, oc[0] == 'ret' and eng.ptr_eq(q, oc[1], E), 'post/executor')


PARTS = [part_lock, part_unlock, part_scoped, part_other]
