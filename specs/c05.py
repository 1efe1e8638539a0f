"""C05: coro::queue -- every accepted element is delivered exactly once, no popper is lost."""
import z3
from vcgen.core import *
from vcgen.engine import *
from vcgen.proto import *
from vcgen.monitor import *
from vcgen.containers import GhostQueue

NOTE = 'queue<elem> (elem tracks identity through copies and moves) proved for every queue content, waiter count and interleaving against the mutex contract of C01 and an assumed contract of std::queue; the element type is assumed not to throw.'
TUS = ['queue.cpp']
RUN, DRAIN, STOP = 0, 1, 2
PRODUCED, PSTOPPED = 0, 1
ENQ = {'push(const&)': ('vc_push_copy', 'copy'), 'push(&&)': ('vc_push_move', 'move'), 'emplace(args)': ('vc_emplace_id', 'id'), 'emplace(const&)': ('vc_emplace_copy', 'copy'), 'emplace(&&)': ('vc_emplace_move', 'move')}


class Waiters(Cell):
    plain = True; name = 'waiter list'
    def __init__(s, nodes, lay): s.nodes, s.lay = nodes, lay
    def values(s, eng, st, e=None):
        eng.prove(st, st.ghost['own'] is True, 'queue/waiters-accessed-without-lock', 'data race on the waiter list')
        return [(st, st.ghost['list'])]
    def transition(s, eng, st, old, new, ord, how):
        g = st.ghost; P = lambda c, k, d='': eng.prove(st, c, 'queue/' + k, d)
        st.note(f'waiters {old} -> {new}')
        if isinstance(new, Ptr) and not isinstance(new.obj, NodeRef):
            P(g['registered'] is None, 'registered-twice')
            g['registered'] = new; g['prev'] = old; g['list'] = new; return [st]
        if isinstance(new, int) and new == 0 and isinstance(old, int): return [st]
        if isinstance(old, Ptr) and isinstance(old.obj, NodeRef):
            if isinstance(new, Ptr) and isinstance(new.obj, NodeRef) and eng.entails(st, eng.ptr_eq(st, old, new)): return [st]
            c = st.chains[old.obj.chain]
            if isinstance(new, int) and new == 0 and g['op'] in ('shutdown', 'drain'):
                P(g['run'] == STOP, 'waiters-taken-before-stopped', 'the waiters are collected while the queue is not stopped yet')
                st.chains[c.id] = c.upd(lo=0, hi=c.n, excl=True); g['all'] = c.id; g['list'] = 0; return [st]
            out = []
            for q, nx in s.nodes.next_of(st, c.id, sub(c.n, 1)):
                eng.prove(q, eng.ptr_eq(q, new, nx), 'queue/waiter-lost', 'exactly one waiter may be unlinked per element')
                eng.prove(q, q.ghost['popped'] == 0, 'queue/one-element-unlinks-two-waiters')
                cc = q.chains[c.id]; q.chains[c.id] = cc.upd(lo=sub(cc.n, 1), hi=cc.n); q.ghost['popped'] += 1; q.ghost['list'] = new; out.append(q)
            return out
        eng.fail(st, 'queue/illegal-list-change', f'{old} -> {new}'); return [st]


class Running(Cell):
    size = 4; ty = 'i32'; name = 'running state'
    def values(s, eng, st, e=None):
        g = st.ghost
        if g['own'] is True: return [(st, g['run'])]
        out = []
        for v in range(g['run'], 3): q = st.clone(); q.ghost['run'] = v; out.append((q, v))
        return out
    def transition(s, eng, st, old, new, ord, how):
        g = st.ghost; P = lambda c, k, d='': eng.prove(st, c, 'queue/' + k, d)
        st.note(f'{how} running state {old} -> {new}')
        if old == new: return [st]
        P(g['op'] in ('shutdown', 'drain'), 'state-changed-by-shutdown-only')
        P(not is_term(new) and new > old, 'state-moves-forward-only', f'{old} -> {new}')
        P(g['own'] is True, 'state-changed-without-lock', 'a pop that has tested the state could register after the waiters were collected')
        if g['op'] == 'drain' and new == STOP: P(g['drained'] is True, 'stopped-before-drained', 'accepted elements are dropped although the queue promises to drain them')
        g['run'] = new; g['set'] = g['set'] + (new,)
        return [st]


def setup(ctx, mod, name, op):
    eng = ctx.engine(mod, f'queue::{name}'); off = lambda x: ctx.off(mod, x); nodes = Nodes(eng)
    lay = {'next': off('aw_next'), 'handle': off('aw_handle')}
    def body(e, q, ch, idx):
        o = q.new('fresh', 'waiter', off('aw'))
        r = e.call(q, 'vc_opt_empty', [Ptr(o.obj, off('aw_element'))]); assert len(r) == 1 and r[0][0] is q
        return o.obj
    nodes.kind(NodeKind('pop', lay['next'], lay['handle'], body=body))
    st = State(); Q = st.new('shared', 'queue', off('queue'))
    st.ghost.update(op=op, own=False, run=RUN, list=0, popped=0, resumed=0, handed=(), registered=None, prev=None, coro=None, all=None, set=(), drained=False, bodies=(), seen_run=None)
    def guard(q, what): eng.prove(q, q.ghost['own'] is True, 'queue/elements-accessed-without-lock', f'{what}() on the element container without holding the lock: data race with producers and consumers')
    G = GhostQueue(eng, lambda p: p.obj == Q.obj and p.off == off('q_elements'), guard); G.reset(st)
    st.cells[(Q.obj, off('q_waiters'))] = Waiters(nodes, lay); st.cells[(Q.obj, off('q_state'))] = Running()
    def on_lock(q):
        # invariant: poppers waiting => no element queued; stopped => nobody waiting
        out = []
        for run in range(q.ghost['run'], 3):
            for w in ((False,) if run == STOP else (False, True)):
                x = q.clone(); g = x.ghost; g['run'] = run; i, o = g['qin'], g['qout']; G.reset(x); g['qin'], g['qout'] = i, o
                if w:
                    c = nodes.chain(x, 'pop', False); g['list'] = nodes.head(x, c); x.chains[c] = x.chains[c].upd(lo=0, hi=x.chains[c].n); g['qlen'] = 0
                else: g['list'] = 0
                g['seen_run'] = run; g['len0'] = g['qlen']; g['list0'] = w
                out.append(x)
        return out
    def on_unlock(q):
        g = q.ghost
        if isinstance(g['list'], Ptr):
            eng.prove(q, eq(g['qlen'], 0), 'queue/waits-while-element-available', 'a popper is left waiting although an element is queued: nobody will wake it')
            eng.prove(q, g['run'] != STOP, 'queue/waits-after-shutdown', 'a popper is left waiting on a stopped queue: nobody will wake it')
        if g['run'] == DRAIN and eng.entails(q, eq(g['qlen'], 0)): g['drained'] = True
        if g['run'] == STOP and not (g['op'] == 'drain' and STOP in g['set']): g['drained'] = True     # stopped by somebody else
        r = g['registered']
        if r is not None and not q.mem[r.obj].dead:
            o = q.mem[r.obj]; nx = o.cells.get(add(r.off, lay['next'])); hd = o.cells.get(add(r.off, lay['handle']))
            eng.prove(q, nx is not None and eng.ptr_eq(q, nx[1], g['prev']), 'queue/waiter-link', 'the new waiter must link to the waiters before it')
            eng.prove(q, hd is not None and isinstance(hd[1], Ptr) and hd[1].obj == g['coro'], 'queue/waiter-handle', 'the registered handle must be the suspended coroutine')
            has, _ = opt(eng, q, Ptr(r.obj, add(r.off, off('aw_element')))); eng.prove(q, has is False, 'queue/waiter-starts-without-element')
            q.w(r.obj).dead = 'registered and lock released: another thread may already have resumed and destroyed it'
    def opt(e, q, p):
        f = q.new('fresh', 'flag', 1); r = e.call(q, 'vc_opt', [p, f]); assert len(r) == 1
        v = q.mem[f.obj].cells[0][1]; return (None if is_term(v) else bool(v)), r[0][1][1]
    Monitor(eng, lambda m: m.obj == Q.obj and m.off == off('q_mutex'), off('lockop_mutex'), on_lock, on_unlock)
    def resume(e, q, h):
        g = q.ghost
        if isinstance(h.obj, NodeRef):
            bo = nodes.body_of(q, h); has, v = (False, None) if bo is None else opt(e, q, Ptr(bo, off('aw_element')))
            nodes.consume(q, h); q.note(f'resume {h} with {v if has else "nothing"}')
            if op in ('shutdown', 'drain'):
                e.prove(q, g['run'] == STOP and has is False, 'queue/woken-without-element-before-stopped')
            else:
                e.prove(q, has is True, 'queue/woken-without-element', 'a popper is resumed while running without an element: it reports stopped')
                g['resumed'] += 1; g['handed'] = g['handed'] + (v,)
            return [q]
        return INLINE
    eng.hooks['resume'] = resume
    C = eng.contract_first
    C('=vc_executor::yield', lambda e, q, i, a, fn: UNDEF); C('=vc_executor::op::await_ready', lambda e, q, i, a, fn: 1)
    C('=vc_executor::op::await_resume', lambda e, q, i, a, fn: None); C('=vc_executor::op::await_suspend', lambda e, q, i, a, fn: None)
    return eng, st, Q, off, nodes


def run_task(eng, st, entry, args):
    t = st.new('fresh', 'task', 8); out = []
    for q, oc in eng.call(st, entry, [*args, t]):
        eng.prove(q, oc[0] == 'ret', 'post/task-created'); h = q.mem[t.obj].cells[0][1]; q.ghost['coro'] = h.obj
        for q2, oc2 in resume_top(eng, q, h):
            eng.prove(q2, oc2[0] in ('ret', 'suspend', 'coro_end'), 'post/no-exception', str(oc2)); out.append((q2, t, h, q2.coros[h.obj].done))
    return out


def produce(ctx, name):
    mod = ctx.module('queue.cpp'); entry, kind = ENQ[name]
    eng, st, Q, off, nodes = setup(ctx, mod, name, 'push'); seen = set(); X = BV('x')
    a = st.new('fresh', 'argument', 8); st.w(a.obj).cells[0] = (8, X)
    for q, t, h, done in run_task(eng, st, entry, [Q, a]):
        eng.prove(q, done, 'post/finishes', 'a producer never waits'); eng.prove(q, q.ghost['own'] is False, 'post/lock-released')
        for q2, oc in eng.call(q, 'vc_presult', [t]):
            g = q2.ghost; eng.prove(q2, oc[0] == 'ret', 'post/has-result'); r = oc[1]
            ids = g['qin'] + g['handed']
            if r == PRODUCED:
                seen.add('handed' if g['handed'] else 'queued')
                eng.prove(q2, g['seen_run'] == RUN, 'post/accepted-only-while-running', 'an element is accepted although the queue is shutting down')
                eng.prove(q2, len(ids) == 1, 'post/accepted-exactly-once', f'the element was queued {len(g["qin"])} times and handed over {len(g["handed"])} times')
                if ids: eng.prove(q2, eq(ids[0], X), 'post/delivers-this-element', 'what was queued or handed over is not the element that was pushed')
                if g['qin']: eng.prove(q2, g['popped'] == 0, 'post/no-waiter-unlinked')
                eng.prove(q2, g['resumed'] == g['popped'], 'post/unlinked-waiter-resumed', 'a waiter was taken off the list but not resumed')
            else:
                seen.add('stopped'); eng.prove(q2, r == PSTOPPED and g['seen_run'] != RUN, 'post/refused-only-when-shutting-down', 'push is refused although the queue is running')
                eng.prove(q2, not ids and g['popped'] == 0, 'post/refused-has-no-effect'); 
            eng.prove(q2, g['qout'] == (), 'post/frame')
            if kind == 'copy' or r != PRODUCED: eng.prove(q2, eq(q2.mem[a.obj].cells[0][1], X), 'post/argument-unchanged', 'the element of the caller was modified')
    eng.prove(State(), seen == {'handed', 'queued', 'stopped'}, 'cover/all-outcomes', str(seen))


def mk(name):
    def part(ctx): produce(ctx, name)
    part.__name__ = 'part_' + ENQ[name][0][3:]; return part


def part_pop(ctx):
    mod = ctx.module('queue.cpp'); eng, st, Q, off, nodes = setup(ctx, mod, 'pop', 'pop'); seen = set()
    def finished(q, t, how, X=None):
        eng.prove(q, q.ghost['own'] is False, 'post/lock-released', 'pop finished while holding the lock')
        I = q.new('fresh', 'id', 8)
        for q2, oc in eng.call(q, 'vc_cresult', [t, I]):
            g = q2.ghost; eng.prove(q2, oc[0] == 'ret', 'post/has-result'); r = oc[1]; seen.add((how, r)); v = q2.mem[I.obj].cells.get(0)
            if r == 0:
                exp = X if how == 'handed' else (g['qout'][0] if len(g['qout']) == 1 else None)
                eng.prove(q2, exp is not None and len(g['qout']) == (0 if how == 'handed' else 1), 'post/takes-exactly-one-element', f'{len(g["qout"])} elements removed')
                if exp is not None: eng.prove(q2, eq(v[1], exp), 'post/delivers-the-oldest-element', 'the element returned is not the one removed from the queue')
                eng.prove(q2, how == 'handed' or g['seen_run'] != STOP, 'post/no-element-after-stop')
            else:
                eng.prove(q2, r == 1 and g['run'] == STOP, 'post/stopped-only-after-shutdown', 'pop reports stopped on a queue that is not stopped'); eng.prove(q2, g['qout'] == (), 'post/element-lost', 'pop removed an element but reports stopped')
            eng.prove(q2, g['qin'] == () and g['popped'] == 0, 'post/frame')
    for q, t, h, done in run_task(eng, st, 'vc_pop', [Q]):
        g = q.ghost
        if done: eng.prove(q, g['registered'] is None, 'post/not-left-registered'); finished(q, t, 'direct'); continue
        eng.prove(q, g['registered'] is not None and g['own'] is False, 'post/suspends-only-registered', 'pop is suspended but nobody knows it is waiting'); seen.add('suspended')
        eng.prove(q, g['qout'] == (), 'post/waits-without-element')
        if g['registered'] is None: continue
        for how in ('handed', 'stopped'):
            x = q.clone(); r = g['registered']; x.w(r.obj).dead = None; X = BV('handed')
            if how == 'handed':
                rr = eng.call(x, 'vc_opt_make', [Ptr(r.obj, add(r.off, off('aw_element'))), X]); x = rr[0][0]
            else: x.ghost['run'] = STOP
            for x2, oc in resume_top(eng, x, h):
                eng.prove(x2, x2.coros[h.obj].done, 'post/finishes-when-resumed'); finished(x2, t, how, X)
    eng.prove(State(), {'suspended', ('direct', 0), ('direct', 1), ('handed', 0), ('stopped', 1)} <= seen, 'cover/all-outcomes', str(seen))


def part_try_pop(ctx):
    mod = ctx.module('queue.cpp'); eng, st, Q, off, nodes = setup(ctx, mod, 'try_pop', 'pop'); seen = set()
    I = st.new('fresh', 'id', 8)
    for q, oc in eng.call(st, 'vc_try_pop', [Q, I]):
        g = q.ghost; eng.prove(q, oc[0] == 'ret', 'post/returns'); r = oc[1]; seen.add(r); v = q.mem[I.obj].cells.get(0)
        eng.prove(q, g['own'] is False, 'post/lock-released'); eng.prove(q, g['qin'] == () and g['popped'] == 0, 'post/frame')
        if r == 0:
            eng.prove(q, len(g['qout']) == 1, 'post/takes-exactly-one-element')
            if g['qout']: eng.prove(q, eq(v[1], g['qout'][0]), 'post/delivers-the-oldest-element')
            eng.prove(q, g['seen_run'] != STOP, 'post/no-element-after-stop')
        else:
            eng.prove(q, g['qout'] == (), 'post/element-lost')
            if r == 1: eng.prove(q, g['run'] == STOP, 'post/stopped-only-after-shutdown')
            elif r == 2: eng.prove(q, g['seen_run'] is None, 'post/try-lock-failure-only-if-not-locked')
            else: eng.prove(q, r == 3 and g['seen_run'] is not None and eq(g['len0'], 0), 'post/empty-only-if-empty')
    eng.prove(State(), seen == {0, 1, 2, 3}, 'cover/all-outcomes', str(seen))


def part_shutdown(ctx):
    mod = ctx.module('queue.cpp')
    for entry, op in (('vc_shutdown', 'shutdown'), ('vc_drain', 'drain')):
        eng, st, Q, off, nodes = setup(ctx, mod, op, op); seen = set(); args = [Q]
        if op == 'drain':
            x = st.new('opaque', 'executor'); u = st.new('fresh', 'unique_ptr', 8); st.w(u.obj).cells[0] = (8, x); args.append(u)
        for q, t, h, done in run_task(eng, st, entry, args):
            g = q.ghost; eng.prove(q, done, 'post/finishes'); eng.prove(q, g['own'] is False, 'post/lock-released')
            eng.prove(q, g['qin'] == () and g['qout'] == () and g['popped'] == 0, 'post/frame')
            if op == 'shutdown' or g['set']: eng.prove(q, g['run'] == STOP, 'post/stopped', f'{op} returns although the queue is not stopped: waiting poppers stay suspended')
            else: eng.prove(q, g['run'] != RUN, 'post/shutting-down')
            if g['all']: c = q.chains[g['all']]; eng.prove(q, eq(c.lo, c.hi), 'post/every-waiter-resumed'); seen.add('woke')
            elif g['set']: seen.add('stopped')
            else: seen.add('again')
            for q2, oc in eng.call(q, 'vc_vresult', [t]): eng.prove(q2, oc[0] == 'ret', 'post/no-exception')
        eng.prove(State(), seen == {'woke', 'stopped', 'again'}, 'cover/all-outcomes', str(seen))
    eng, st, Q, off, nodes = setup(ctx, mod, 'is_shutdown', 'query')
    for q, oc in eng.call(st, 'vc_is_shutdown', [Q]): eng.prove(q, oc[0] == 'ret' and boolterm(oc[1]) == z3.BoolVal(q.ghost['run'] != RUN), 'post/flag')


PARTS = [mk(n) for n in ENQ] + [part_pop, part_try_pop, part_shutdown]
