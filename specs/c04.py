"""C04: coro::semaphore -- permits are conserved, bounded by max, and no waiter is lost."""
import z3
from vcgen.core import *
from vcgen.engine import *
from vcgen.proto import *
from vcgen.monitor import *

NOTE = 'semaphore<1> and semaphore<7> (the template has no other use of its parameter than the bound) proved against the mutex contract of C01 for every starting value, waiter count and interleaving, with a monitor invariant over counter, waiter list and shutdown flag.'
TUS = ['semaphore.cpp']


def signed(v): return bv(v, 64)


class Counter(Cell):
    """available permits; while the lock is held it can only fall (try_acquire does not take the lock)"""
    ty = 'i64'
    def __init__(s, mx): s.mx = mx
    def values(s, eng, st, e=None):
        v = BV('permits'); g = st.ghost
        st.pc += [v <= s.mx, v >= 0]
        if g['own'] is True: st.pc.append(v <= g['bound']); g['bound'] = v
        g['lastseen'] = v
        return [(st, v)]
    def transition(s, eng, st, old, new, ord, how):
        g = st.ghost; P = lambda c, k, d='': eng.prove(st, c, 'semaphore/' + k, d)
        P(how != 'store', 'lost-permit', 'a plain store overwrites concurrent changes of the permit count')
        st.note(f'{how} permits {old} -> {new} ({ord})')
        out = []
        for q, dec in eng.split(st, norm(eq(new, sub(old, 1)))):
            g = q.ghost
            if dec:
                eng.prove(q, bv(old, 64) > 0, 'semaphore/permit-out-of-nothing', 'a permit is taken although none is available')
                eng.prove(q, acq_ok(q, ord), 'semaphore/acquire-order', ord)
                g['taken'] += 1
                if g['own'] is True: g['bound'] = sub(old, 1)
                out.append(q); continue
            for q2, inc in eng.split(q, norm(eq(new, add(old, 1)))):
                g = q2.ghost
                if not inc:
                    if eng.entails(q2, eq(old, new)): out.append(q2); continue
                    eng.fail(q2, 'semaphore/illegal-count-change', f'{old} -> {new}'); out.append(q2); continue
                eng.prove(q2, g['own'] is True, 'semaphore/permit-added-without-lock', 'a waiter may be registering at the same time and would miss the permit')
                eng.prove(q2, bv(old, 64) < s.mx, 'semaphore/exceeds-max')
                eng.prove(q2, isinstance(g['list'], int), 'semaphore/permit-bypasses-waiter', 'a permit is made available although somebody is waiting for it')
                eng.prove(q2, rel_ok(q2, ord), 'semaphore/release-order', ord)
                g['given'] += 1; g['bound'] = add(old, 1); out.append(q2)
        return out


class Waiters(Cell):
    """the waiter list; changed only with the lock held"""
    def __init__(s, nodes, lay): s.nodes, s.lay = nodes, lay
    def values(s, eng, st, e=None):
        if st.ghost['own'] is True: return [(st, st.ghost['list'])]
        q = st.clone(); c = s.nodes.chain(q, 'acq', False); return [(st, 0), (q, s.nodes.head(q, c))]
    def transition(s, eng, st, old, new, ord, how):
        g = st.ghost; P = lambda c, k, d='': eng.prove(st, c, 'semaphore/' + k, d)
        st.note(f'{how} waiters {old} -> {new}')
        P(g['own'] is True, 'waiters-changed-without-lock')
        if isinstance(new, Ptr) and not isinstance(new.obj, NodeRef):
            P(g['registered'] is None, 'registered-twice')
            o = st.mem[new.obj]; nx = o.cells.get(add(new.off, s.lay['next'])); hd = o.cells.get(add(new.off, s.lay['handle']))
            P(nx is not None and eng.ptr_eq(st, nx[1], old), 'waiter-link')
            P(hd is not None and isinstance(hd[1], Ptr) and hd[1].obj == g['coro'], 'waiter-handle', 'the registered handle must be the suspended coroutine')
            g['registered'] = new.obj; g['list'] = new; return [st]
        if isinstance(new, int) and new == 0 and isinstance(old, int): return [st]
        if isinstance(old, Ptr) and isinstance(old.obj, NodeRef):
            c = st.chains[old.obj.chain]
            if isinstance(new, int) and new == 0 and g['op'] == 'shutdown':
                st.chains[c.id] = c.upd(lo=0, hi=c.n, excl=True); g['all'] = c.id; g['list'] = 0; return [st]
            out = []
            for q, nx in s.nodes.next_of(st, c.id, sub(c.n, 1)):
                eng.prove(q, eng.ptr_eq(q, new, nx), 'semaphore/waiter-lost', 'exactly one waiter may be unlinked per released permit')
                eng.prove(q, q.ghost['popped'] == 0, 'semaphore/one-permit-wakes-two')
                cc = q.chains[c.id]; q.chains[c.id] = cc.upd(lo=sub(cc.n, 1), hi=cc.n); q.ghost['popped'] += 1; q.ghost['list'] = new; out.append(q)
            return out
        eng.fail(st, 'semaphore/illegal-list-change', f'{old} -> {new}'); return [st]


class Shut(Cell):
    size = 1; ty = 'i8'
    def values(s, eng, st, e=None):
        g = st.ghost
        if g['own'] is True or g['shut'] is True: return [(st, int(g['shut'] is True))]
        q = st.clone(); q.ghost['shut'] = True; return [(st, 0), (q, 1)]
    def observed(s, eng, st, v, ord): st.ghost['shut_seen'] = (bool(v), acq_ok(st, ord))
    def transition(s, eng, st, old, new, ord, how):
        g = st.ghost
        if not is_term(new) and int(new) == 1:
            eng.prove(st, g['own'] is True, 'semaphore/shutdown-flag-without-lock', 'an acquirer that has tested the flag would register after the waiters were collected')
            eng.prove(st, g['op'] == 'shutdown', 'semaphore/shutdown-only-by-shutdown'); g['shut'] = True; g['did_shutdown'] = g['did_shutdown'] or old == 0; st.note('shutdown flag set'); return [st]
        if old == new: return [st]
        eng.fail(st, 'semaphore/shutdown-undone'); return [st]


def setup(ctx, mod, N, name, op):
    eng = ctx.engine(mod, f'semaphore<{N}>::{name}'); off = lambda x: ctx.off(mod, x.replace('@', str(N))); nodes = Nodes(eng)
    lay = {'next': off('acq@_next'), 'handle': off('acq@_handle')}
    nodes.kind(NodeKind('acq', lay['next'], lay['handle']))
    st = State(); S = st.new('shared', 'semaphore', off('sem@'))
    st.ghost.update(op=op, own=False, shut=False, shut_seen=None, list=0, bound=z3.BitVecVal(N, 64), taken=0, given=0, popped=0, resumed=0, registered=None, coro=None, all=None, did_shutdown=False, lastseen=None)
    st.cells[(S.obj, off('sem@_counter'))] = Counter(N); st.cells[(S.obj, off('sem@_waiters'))] = Waiters(nodes, lay); st.cells[(S.obj, off('sem@_shutdown'))] = Shut()
    def on_lock(q):
        # invariant: waiters registered => no permit available; shut down => nobody registered
        out = []
        for shut in ((True,) if q.ghost['shut'] is True else (False, True)):
            for w in ((False,) if shut else (False, True)):
                x = q.clone(); g = x.ghost; g['shut'] = shut
                if w:
                    c = nodes.chain(x, 'acq', False); g['list'] = nodes.head(x, c); x.chains[c] = x.chains[c].upd(lo=0, hi=x.chains[c].n); g['bound'] = z3.BitVecVal(0, 64)
                else: g['list'] = 0; g['bound'] = z3.BitVecVal(N, 64)
                out.append(x)
        return out
    def on_unlock(q):
        g = q.ghost
        if isinstance(g['list'], Ptr):
            eng.prove(q, g['bound'] <= 0 if is_term(g['bound']) else g['bound'] <= 0, 'semaphore/waits-while-permit-available', 'a waiter is left registered although a permit is available: nobody will wake it')
            eng.prove(q, g['shut'] is False, 'semaphore/waits-after-shutdown', 'a waiter is left registered on a semaphore that is shut down: nobody will wake it')
        if g['registered'] is not None: q.w(g['registered']).dead = 'registered and lock released: another thread may already have resumed and destroyed it'
    Monitor(eng, lambda m: m.obj == S.obj and m.off == off('sem@_mutex'), off('lockop_mutex'), on_lock, on_unlock)
    def resume(e, q, h):
        g = q.ghost
        if isinstance(h.obj, NodeRef):
            nodes.consume(q, h); q.note(f'resume {h}')
            if op != 'shutdown': g['resumed'] += 1
            if op == 'shutdown': e.prove(q, g['shut'] is True, 'semaphore/woken-before-shutdown-is-visible', 'the waiter would take itself for the owner of a permit')
            else: e.prove(q, g['popped'] == 1 and g['given'] == 0, 'semaphore/woken-without-permit')
            return [q]
        return INLINE
    eng.hooks['resume'] = resume
    return eng, st, S, off, nodes


def run_task(eng, st, entry, args):
    """create the task and run it until it suspends or finishes -> [(state, task ptr, handle, done)]"""
    t = st.new('fresh', 'task', 8); out = []
    for q, oc in eng.call(st, entry, [*args, t]):
        eng.prove(q, oc[0] == 'ret', 'post/task-created'); h = q.mem[t.obj].cells[0][1]
        q.ghost['coro'] = h.obj
        for q2, oc2 in resume_top(eng, q, h):
            eng.prove(q2, oc2[0] in ('ret', 'suspend', 'coro_end'), 'post/no-exception', str(oc2))
            out.append((q2, t, h, q2.coros[h.obj].done))
    return out


def part(ctx, N):
    mod = ctx.module('semaphore.cpp')
    v = lambda x: f'vc_sem{N}_{x}'
    # constructor
    eng, st, S, off, nodes = setup(ctx, mod, N, 'semaphore', 'ctor'); st.cells.clear(); n = BV('start')
    for q, oc in eng.call(st, v('ctor'), [S, n]):
        c = q.mem[S.obj].cells; z = lambda o: c.get(o) is not None and isinstance(c[o][1], int) and c[o][1] == 0
        eng.prove(q, oc[0] == 'ret' and eq(c[off('sem@_counter')][1], n), 'post/starting-permits'); eng.prove(q, z(off('sem@_waiters')) and z(off('sem@_shutdown')), 'post/no-waiters-not-shutdown')
    # try_acquire
    eng, st, S, off, nodes = setup(ctx, mod, N, 'try_acquire', 'try'); seen = set()
    for q, oc in eng.call(st, v('try'), [S]):
        eng.prove(q, oc[0] == 'ret', 'post/returns')
        for q2, b in eng.split(q, boolterm(oc[1])):
            seen.add(b); g = q2.ghost
            eng.prove(q2, g['taken'] == int(b), 'post/true-iff-one-permit-taken', f'returned {b}, permits taken {g["taken"]}')
            if not b: eng.prove(q2, g['lastseen'] is not None and g['lastseen'] <= 0, 'post/fails-only-without-permits')
            eng.prove(q2, g['given'] == 0 and g['own'] is False, 'post/frame')
    eng.prove(State(), seen == {True, False}, 'cover/both')
    for what in ('value', 'is_shutdown'):
        eng, st, S, off, nodes = setup(ctx, mod, N, what, 'query')
        for q, oc in eng.call(st, v(what), [S]):
            if what == 'value': eng.prove(q, oc[0] == 'ret' and eq(oc[1], q.ghost['lastseen']), 'post/value')
            else: eng.prove(q, oc[0] == 'ret' and boolterm(oc[1]) == z3.BoolVal(q.ghost['shut_seen'][0]), 'post/flag')
    # acquire
    eng, st, S, off, nodes = setup(ctx, mod, N, 'acquire', 'acquire'); seen = set()
    def finished(q, t, h, how):
        g = q.ghost
        eng.prove(q, g['own'] is False, 'post/lock-released', 'acquire finished while holding the internal lock: every later acquire and release would wait forever')
        for q2, oc in eng.call(q, 'vc_result', [t]):
            eng.prove(q2, oc[0] == 'ret', 'post/has-result', str(oc)); seen.add((how, oc[1]))
            permits = g['taken'] + (how == 'granted')
            eng.prove(q2, permits <= 1, 'post/at-most-one-permit')
            if oc[1] == 0: eng.prove(q2, permits == 1, 'post/acquired-owns-a-permit', 'acquire reports success without owning a permit')
            else: eng.prove(q2, oc[1] == 1 and q2.ghost['shut'] is True, 'post/shutdown-only-after-shutdown', 'acquire reports shutdown but the semaphore is running')
            eng.prove(q2, g['given'] == 0 and g['popped'] == 0, 'post/frame')
    for q, t, h, done in run_task(eng, st, v('acquire'), [S]):
        g = q.ghost
        if done: eng.prove(q, g['registered'] is None, 'post/not-left-registered'); finished(q, t, h, 'direct'); continue
        eng.prove(q, g['registered'] is not None and g['own'] is False, 'post/suspends-only-registered', 'acquire is suspended but nobody knows it is waiting')
        eng.prove(q, g['taken'] == 0, 'post/waits-without-permit', 'a permit was taken by a coroutine that then waits'); seen.add(('suspended',))
        for how in ('granted', 'shutdown'):
            x = q.clone(); x.w(g['registered']).dead = None
            if how == 'shutdown': x.ghost['shut'] = True
            for x2, oc in resume_top(eng, x, h):
                eng.prove(x2, x2.coros[h.obj].done, 'post/finishes-when-resumed'); finished(x2, t, h, how)
    eng.prove(State(), {('suspended',), ('direct', 0), ('direct', 1), ('granted', 0), ('shutdown', 1)} <= seen, 'cover/all-outcomes', str(seen))
    # release
    eng, st, S, off, nodes = setup(ctx, mod, N, 'release', 'release'); seen = set()
    for q, t, h, done in run_task(eng, st, v('release'), [S]):
        g = q.ghost
        eng.prove(q, done, 'post/finishes'); eng.prove(q, g['own'] is False, 'post/lock-released', 'release finished while holding the internal lock'); eng.prove(q, g['taken'] == 0, 'post/frame')
        eng.prove(q, g['resumed'] == g['popped'], 'post/unlinked-waiter-resumed', 'a waiter was taken off the list but not resumed')
        eng.prove(q, g['given'] + g['popped'] <= 1, 'post/at-most-one-permit-released')
        if g['given'] + g['popped'] == 0: seen.add('full'); eng.prove(q, g['lastseen'] is not None and eq(g['lastseen'], N), 'post/permit-dropped-only-at-max', 'the released permit disappears although the semaphore is not full')
        else: seen.add('given' if g['given'] else 'handed')
        for q2, oc in eng.call(q, 'vc_vresult', [t]): eng.prove(q2, oc[0] == 'ret', 'post/no-exception')
    eng.prove(State(), seen == {'full', 'given', 'handed'}, 'cover/all-outcomes', str(seen))
    # shutdown
    eng, st, S, off, nodes = setup(ctx, mod, N, 'shutdown', 'shutdown'); seen = set()
    for q, t, h, done in run_task(eng, st, v('shutdown'), [S]):
        g = q.ghost
        eng.prove(q, done, 'post/finishes'); eng.prove(q, g['own'] is False, 'post/lock-released'); eng.prove(q, g['shut'] is True, 'post/is-shut-down')
        eng.prove(q, g['taken'] == 0 and g['given'] == 0, 'post/frame')
        if g['all']: seen.add('woke'); c = q.chains[g['all']]; eng.prove(q, eq(c.lo, c.hi), 'post/every-waiter-resumed')
        else: seen.add('first' if g['did_shutdown'] else 'again')
    eng.prove(State(), seen == {'woke', 'first', 'again'}, 'cover/all-outcomes', str(seen))


def part_1(ctx): part(ctx, 1)
def part_7(ctx): part(ctx, 7)


PARTS = [part_1, part_7]
