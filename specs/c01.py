"""C01: coro::mutex -- mutual exclusion, direct hand-off, no lost waiter."""
import z3
from vcgen.core import *
from vcgen.engine import *
from vcgen.proto import *

PID = 'C01'
NOTE = 'Every function of mutex / lock_operation / scoped_lock proved against its contract for all states, waiter counts and interleavings (rely-guarantee over the state word); fairness of the executor and termination of CAS retry loops are assumed. Trusted: clang front end, the VC generator, z3.'


class MutexCell(Cell):
    """m_state: UNLOCKED sentinel | null (locked, nobody waits) | newest waiter.
    Tokens of the verified thread in st.ghost: own (holds the lock), seen (as owner it has observed waiters),
    claim (index of the waiter popped and not yet resumed)."""
    name = 'mutex state'

    def __init__(s, M, nodes, lay): s.M, s.nodes, s.lay = M, nodes, lay

    def is_unlocked(s, v): return isinstance(v, Ptr) and v.obj == s.M.obj

    def values(s, eng, st, e=None):
        out = []; g = st.ghost
        def alt(v, q=None):
            q = q or st.clone(); out.append((q, v)); return q
        if g['own'] is True:
            if not g['seen']: alt(0)
            q = st.clone(); c = s.nodes.chain(q, 'lockop', True); alt(s.nodes.head(q, c), q)
            if isinstance(e, Ptr) and isinstance(e.obj, NodeRef) and eng.entails(st, eq(e.obj.idx, sub(st.chains[e.obj.chain].n, 1))): alt(e)
        else:
            alt(Ptr(s.M.obj, s.M.off)); alt(0)
            q = st.clone(); c = s.nodes.chain(q, 'lockop', False); alt(s.nodes.head(q, c), q)
            if isinstance(e, Ptr) and isinstance(e.obj, NodeRef): alt(e)
        return out

    def observed(s, eng, st, v, ord):
        if st.ghost['own'] is True and isinstance(v, Ptr) and isinstance(v.obj, NodeRef): st.ghost['seen'] = True
        st.ghost['last_seen'] = 'unlocked' if s.is_unlocked(v) else 'locked'

    def failed(s, eng, st, cur, e): pass

    def transition(s, eng, st, old, new, ord, how):
        g = st.ghost
        P = lambda c, k, d='': eng.prove(st, c, 'mutex/' + k, d)
        st.note(f'{how} mutex state {old} -> {new} ({ord})')
        if how == 'store': P(s.is_unlocked(old) is False and g['own'] is True, 'unsynchronised-write', 'plain store to the mutex state'); 
        if s.is_unlocked(old) and isinstance(new, int) and new == 0:
            P(g['own'] is False, 'acquired-twice'); P(acq_ok(st, ord), 'acquire-order', ord)
            g['own'] = True; g['acquired'] = g['acquired'] + 1; return [st]
        if s.is_unlocked(old) and s.is_unlocked(new): return [st]
        if s.is_unlocked(new):
            P(g['own'] is True, 'released-by-owner-only'); P(isinstance(old, int) and old == 0, 'waiter-lost', 'the mutex is marked unlocked although waiters are queued')
            P(rel_ok(st, ord), 'release-order', ord)
            g['own'] = False; g['seen'] = False; g['released'] += 1; return [st]
        if isinstance(new, Ptr) and not isinstance(new.obj, NodeRef) and new.obj == g.get('node'):
            P(not s.is_unlocked(old), 'lost-wakeup', 'a waiter queues on a mutex that is unlocked: nobody will resume it')
            P(g['published'] is False, 'queued-twice'); P(g['own'] is False, 'queued-while-owner'); P(rel_ok(st, ord), 'publish-order', ord)
            o = st.mem[new.obj]
            nx = o.cells.get(s.lay['next']); hd = o.cells.get(s.lay['handle'])
            P(nx is not None and eng.ptr_eq(st, nx[1], old), 'queue-link', 'the new waiter must link to the previously newest waiter')
            P(hd is not None and isinstance(hd[1], Ptr) and hd[1].obj == g['handle'].obj, 'waiter-handle', 'the queued waiter must carry the suspended coroutine')
            g['published'] = True; st.w(new.obj).dead = 'queued: another thread may already have resumed and destroyed it'
            return [st]
        if isinstance(old, Ptr) and isinstance(old.obj, NodeRef):
            c = st.chains[old.obj.chain]
            P(g['own'] is True, 'waiters-removed-by-owner-only')
            P(acq_ok(st, ord), 'handoff-order', ord)
            out = []
            for q, nx in s.nodes.next_of(st, c.id, sub(c.n, 1)):
                eng.prove(q, eng.ptr_eq(q, new, nx), 'mutex/waiter-lost', 'the hand-off must leave exactly the remaining waiters queued')
                cc = q.chains[c.id]
                q.chains[c.id] = cc.upd(lo=sub(cc.n, 1), excl=False)
                q.ghost['own'] = False; q.ghost['seen'] = False; q.ghost['claims'] += 1
                out.append(q)
            return out
        if isinstance(old, int) and old == 0 and isinstance(new, int) and new == 0: return [st]
        eng.fail(st, 'mutex/illegal-transition', f'{old} -> {new}')
        return [st]


def setup(ctx, mod, name):
    eng = ctx.engine(mod, name)
    nodes = Nodes(eng); off = lambda n: ctx.off(mod, n)
    lay = {'next': off('lockop_next'), 'handle': off('lockop_handle')}
    nodes.kind(NodeKind('lockop', lay['next'], lay['handle']))
    st = State()
    M = st.new('shared', 'mutex', off('mutex'))
    st.ghost.update(own=False, seen=False, acquired=0, released=0, claims=0, resumed=0, published=False, last_seen=None)
    st.cells[(M.obj, off('mutex_state'))] = MutexCell(Ptr(M.obj, off('mutex_state')), nodes, lay)
    def resume(e, q, h):
        if isinstance(h.obj, NodeRef):
            e.prove(q, q.ghost['claims'] > q.ghost['resumed'], 'mutex/resume-without-handoff')
            nodes.consume(q, h); q.ghost['resumed'] += 1; q.note(f'resume {h}'); return [q]
        e.fail(q, 'mutex/resumes-a-coroutine-that-was-not-handed-the-lock', repr(h)); return [q]
    eng.hooks['resume'] = resume
    return eng, st, M, nodes, off


def node(eng, st, M, off):
    """a lock operation built by the real constructor, with an opaque awaiting coroutine"""
    p = st.new('fresh', 'lock operation', off('lockop')); h = st.new('opaque', 'awaiting coroutine')
    r = eng.call(st, 'vc_lock', [M, p]); assert len(r) == 1
    st = r[0][0]; st.ghost['node'] = p.obj; st.ghost['handle'] = h
    return st, p, h


def run(ctx):
    mod = ctx.module('mutex.cpp')
    F = lambda b, p=None: mod.one(b, p)
    ctx.trusted += ['opaque coroutines resumed by the mutex run arbitrary code (no assumption is made about what they do to the mutex)']

    # constructor: starts unlocked
    eng, st, M, nodes, off = setup(ctx, mod, 'mutex::mutex'); st.cells.clear()
    for q, oc in eng.call(st, 'vc_mutex_ctor', [M]):
        v = q.mem[M.obj].cells.get(off('mutex_state'))
        eng.prove(q, oc[0] == 'ret' and v is not None and isinstance(v[1], Ptr) and v[1].obj == M.obj and v[1].off == off('mutex_state'), 'post/starts-unlocked')

    # try_lock
    eng, st, M, nodes, off = setup(ctx, mod, 'mutex::try_lock')
    seen = set()
    for q, oc in eng.call(st, F('coro::mutex::try_lock'), [M]):
        eng.prove(q, oc[0] == 'ret', 'post/returns')
        for q2, b in eng.split(q, boolterm(oc[1])):
            seen.add(b); g = q2.ghost
            eng.prove(q2, (g['own'] is True) == b, 'post/true-iff-acquired', f'returned {b}, owner {g["own"]}')
            if not b: eng.prove(q2, g['last_seen'] == 'locked', 'post/fails-only-if-held', 'returned false without having seen the mutex held')
            eng.prove(q2, not g['published'] and g['released'] == 0 and g['claims'] == 0, 'post/frame')
    eng.prove(State(), seen == {True, False}, 'cover/both-results-reachable')

    # co_await lock(): await_ready / await_suspend / await_resume
    for kind, maker in (('lock', 'vc_lock'), ('scoped_lock', 'vc_scoped')):
        eng, st, M, nodes, off = setup(ctx, mod, f'co_await mutex::{kind}')
        p = st.new('fresh', 'lock operation', off('lockop')); h = st.new('opaque', 'awaiting coroutine')
        st.ghost['node'] = p.obj; st.ghost['handle'] = h
        seen = set()
        inst = (lambda d: 'scoped_lock' in d) if kind == 'scoped_lock' else (lambda d: '<void>' in d)
        def after_acquire(q, how):
            seen.add(how)
            if kind == 'lock':
                f = [x for x in mod.find('coro::detail::lock_operation::await_resume') if '<void>' in x.d]
                for q2, oc in eng.call(q, f[0], [p]): eng.prove(q2, oc[0] == 'ret' and q2.ghost['own'] is True, 'post/await_resume-keeps-ownership')
            else:
                f = [x for x in mod.find('coro::detail::lock_operation::await_resume') if 'scoped_lock' in x.d]
                r = q.new('fresh', 'scoped_lock', off('scoped_lock'))
                for q2, oc in eng.call(q, f[0], [r, p]):
                    v = q2.mem[r.obj].cells.get(off('scoped_mutex'))
                    eng.prove(q2, oc[0] == 'ret' and v is not None and isinstance(v[1], Ptr) and v[1].obj == M.obj and q2.ghost['own'] is True, 'post/scoped-lock-holds-the-mutex')
        for q0, oc in eng.call(st, maker, [M, p]):
            eng.prove(q0, oc[0] == 'ret', 'post/returns')
            for q, oc in eng.call(q0, F('coro::detail::lock_operation_base::await_ready'), [p]):
                eng.prove(q, oc[0] == 'ret', 'post/returns')
                for q2, b in eng.split(q, boolterm(oc[1])):
                    eng.prove(q2, (q2.ghost['own'] is True) == b and not q2.ghost['published'], 'post/await_ready-true-iff-acquired')
                    if b: after_acquire(q2, 'ready'); continue
                    for q3, oc3 in eng.call(q2, F('coro::detail::lock_operation_base::await_suspend'), [p, h]):
                        eng.prove(q3, oc3[0] == 'ret', 'post/returns')
                        for q4, b4 in eng.split(q3, boolterm(oc3[1])):
                            g = q4.ghost
                            eng.prove(q4, g['published'] is b4, 'post/suspends-iff-queued', f'await_suspend returned {b4}, queued {g["published"]}')
                            eng.prove(q4, (g['own'] is True) == (not b4), 'post/continues-iff-acquired', f'await_suspend returned {b4}, owner {g["own"]}')
                            if b4:
                                # resumed by the owner's hand-off: the lock now belongs to this coroutine
                                q4.w(p.obj).dead = None; g['own'] = True; after_acquire(q4, 'handed-over')
                            else: after_acquire(q4, 'second-chance')
        eng.prove(State(), seen == {'ready', 'handed-over', 'second-chance'}, 'cover/all-acquire-paths-reachable', str(seen))

    # unlock by the owner
    eng, st, M, nodes, off = setup(ctx, mod, 'mutex::unlock (owner)')
    st.ghost['own'] = True; st.ghost['acquired'] = 1
    seen = set()
    for q, oc in eng.call(st, F('coro::mutex::unlock'), [M]):
        g = q.ghost
        eng.prove(q, oc[0] == 'ret', 'post/returns', str(oc))
        eng.prove(q, g['own'] is False, 'post/not-owner-afterwards', 'unlock returned but the lock was neither released nor handed over')
        eng.prove(q, g['claims'] == g['resumed'], 'post/handed-over-waiter-resumed', 'a waiter was given the lock but not resumed: every later lock would wait forever')
        eng.prove(q, g['claims'] + g['released'] == 1, 'post/exactly-one-release')
        seen.add('handoff' if g['claims'] else 'release')
    eng.prove(State(), seen == {'handoff', 'release'}, 'cover/release-and-handoff-reachable')

    # unlock of an unlocked mutex throws and changes nothing
    eng, st, M, nodes, off = setup(ctx, mod, 'mutex::unlock (not locked)')
    class Free(MutexCell):
        def values(s, eng, st, e=None): return [(st, Ptr(s.M.obj, s.M.off))]
        def transition(s, eng, st, old, new, ord, how): eng.fail(st, 'mutex/unlock-of-unlocked-changes-state', f'{old} -> {new}'); return [st]
    k = (M.obj, off('mutex_state')); st.cells[k] = Free(Ptr(*k), nodes, {})
    for q, oc in eng.call(st, F('coro::mutex::unlock'), [M]):
        eng.prove(q, oc[0] == 'throw' and oc[1].ti == '_ZTISt13runtime_error', 'post/throws-runtime_error', str(oc))

    # scoped_lock: ownership of exactly one lock, released exactly once
    def sl(name, held):
        eng, st, M, nodes, off = setup(ctx, mod, name); st.cells.clear()
        def unlock(e, q, i, a, fn):
            m = a[0]
            e.prove(q, isinstance(m, Ptr) and q.ghost.get(('locked', m.obj)) is True, 'scoped_lock/unlocks-only-a-mutex-it-owns', f'unlock of {m}')
            if isinstance(m, Ptr): q.ghost[('locked', m.obj)] = False
            return None
        eng.contract_first('=coro::mutex::unlock', unlock)
        M2 = st.new('shared', 'mutex2', off('mutex'))
        return eng, st, M, M2, off
    def lock_obj(st, off, name, m):
        p = st.new('fresh', name, off('scoped_lock')); st.w(p.obj).cells[off('scoped_mutex')] = (8, m)
        if m: st.ghost[('locked', m.obj)] = True
        return p
    def holds(q, p, off):
        v = q.mem[p.obj].cells.get(off('scoped_mutex')); return None if v is None else v[1]
    def same(v, m): return (isinstance(v, int) and v == 0 and m == 0) or (isinstance(v, Ptr) and isinstance(m, Ptr) and v.obj == m.obj)
    for held in (True, False):
        tag = 'holding' if held else 'empty'
        for what, entry in (('unlock', F('coro::scoped_lock::unlock')), ('~scoped_lock', 'vc_sl_dtor')):
            eng, st, M, M2, off = sl(f'scoped_lock::{what} ({tag})', held)
            p = lock_obj(st, off, 'l', M if held else 0)
            for q, oc in eng.call(st, entry, [p]):
                eng.prove(q, oc[0] == 'ret' and q.ghost.get(('locked', M.obj)) is not True, 'post/released')
                eng.prove(q, same(holds(q, p, off), 0), 'post/empty-afterwards')
        eng, st, M, M2, off = sl(f'scoped_lock(scoped_lock&&) ({tag})', held)
        src = lock_obj(st, off, 'src', M if held else 0); d = st.new('fresh', 'dst', off('scoped_lock'))
        for q, oc in eng.call(st, 'vc_sl_move', [src, d]):
            eng.prove(q, oc[0] == 'ret' and same(holds(q, d, off), M if held else 0) and same(holds(q, src, off), 0), 'post/ownership-moves')
            eng.prove(q, q.ghost.get(('locked', M.obj), False) is held, 'post/lock-not-touched')
        for dheld in (True, False):
            eng, st, M, M2, off = sl(f'scoped_lock::operator= ({tag}, target {"holding" if dheld else "empty"})', held)
            src = lock_obj(st, off, 'src', M if held else 0); d = lock_obj(st, off, 'dst', M2 if dheld else 0)
            for q, oc in eng.call(st, 'vc_sl_assign', [d, src]):
                eng.prove(q, oc[0] == 'ret' and same(holds(q, d, off), M if held else 0) and same(holds(q, src, off), 0), 'post/ownership-moves')
                eng.prove(q, q.ghost.get(('locked', M2.obj)) is not True, 'post/previously-held-lock-released', 'move assignment over a scoped_lock that holds a mutex never unlocks that mutex')
                eng.prove(q, q.ghost.get(('locked', M.obj), False) is held, 'post/lock-not-touched')
        eng, st, M, M2, off = sl(f'scoped_lock::operator= (self, {tag})', held)
        d = lock_obj(st, off, 'l', M if held else 0)
        for q, oc in eng.call(st, 'vc_sl_assign', [d, d]):
            eng.prove(q, oc[0] == 'ret' and same(holds(q, d, off), M if held else 0) and q.ghost.get(('locked', M.obj), False) is held, 'post/self-assignment-keeps-the-lock')
