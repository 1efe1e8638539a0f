"""C02: coro::event -- set releases every waiter exactly once, in the promised order; no waiter is lost."""
import z3
from vcgen.core import *
from vcgen.engine import *
from vcgen.proto import *

NOTE = 'event and its awaiter proved for every state, waiter count and interleaving (rely-guarantee over the state word); an executor handed to set() is assumed to resume every handle it is given exactly once.'
TUS = ['event.cpp']


class EventCell(Cell):
    """m_state: null (not set, nobody waits) | newest waiter (not set) | the event itself (set)"""
    def __init__(s, E, nodes, lay): s.E, s.nodes, s.lay = E, nodes, lay
    def is_set(s, v): return isinstance(v, Ptr) and v.obj == s.E.obj
    def values(s, eng, st, e=None):
        out = []
        def alt(v, q=None):
            q = q or st.clone(); out.append((q, v))
        alt(0); alt(Ptr(s.E.obj, 0))
        q = st.clone(); c = s.nodes.chain(q, 'awaiter', False); alt(s.nodes.head(q, c), q)
        if isinstance(e, Ptr) and isinstance(e.obj, NodeRef): alt(e)
        return out
    def observed(s, eng, st, v, ord): st.ghost['seen'] = ('set' if s.is_set(v) else 'unset', acq_ok(st, ord))
    def transition(s, eng, st, old, new, ord, how):
        g = st.ghost; P = lambda c, k, d='': eng.prove(st, c, 'event/' + k, d)
        st.note(f'{how} event state {old} -> {new} ({ord})')
        if how == 'store': P(False, 'unsynchronised-write', 'a plain store can overwrite a waiter registered in between')
        if s.is_set(new):
            P(g['op'] == 'set', 'set-only-by-set', f'{g["op"]} sets the event'); P(rel_ok(st, ord), 'set-order', ord)
            if s.is_set(old): g['did'] = 'already'; return [st]
            P(g['did'] in (None, 'already'), 'set-twice')
            g['did'] = 'set'
            if isinstance(old, Ptr):
                P(acq_ok(st, ord), 'detach-order', ord)
                c = st.chains[old.obj.chain]; st.chains[c.id] = c.upd(lo=0, hi=c.n, excl=True); g['chain'] = c.id
            st.w(s.E.obj).dead = 'set: a coroutine that saw the event set may already have destroyed it'
            return [st]
        if isinstance(new, int) and new == 0:
            if isinstance(old, int) and old == 0: return [st]
            P(g['op'] == 'reset', 'reset-only-by-reset', f'{g["op"]} resets the event'); P(s.is_set(old), 'waiter-lost', 'reset drops the registered waiters')
            g['did'] = 'reset'; return [st]
        if isinstance(new, Ptr) and not isinstance(new.obj, NodeRef) and new.obj == g.get('node'):
            P(not s.is_set(old), 'lost-wakeup', 'a waiter registers on an event that is set: nobody will resume it')
            P(g['op'] == 'await' and g['did'] is None, 'registered-twice'); P(rel_ok(st, ord), 'publish-order', ord)
            o = st.mem[new.obj]; nx = o.cells.get(s.lay['next']); hd = o.cells.get(s.lay['handle'])
            P(nx is not None and eng.ptr_eq(st, nx[1], old), 'waiter-link', 'the new waiter must link to the previously newest one')
            P(hd is not None and isinstance(hd[1], Ptr) and hd[1].obj == g['handle'].obj, 'waiter-handle')
            g['did'] = 'registered'; st.w(new.obj).dead = 'registered: another thread may already have resumed and destroyed it'
            st.w(s.E.obj).dead = 'registered: the resumed coroutine may already have destroyed the event'
            return [st]
        if eng.ptr_eq(st, new, old) is True: return [st]
        eng.fail(st, 'event/illegal-transition', f'{old} -> {new}'); return [st]


def setup(ctx, mod, name, op, policy=None):
    eng = ctx.engine(mod, name); nodes = Nodes(eng); off = lambda n: ctx.off(mod, n)
    lay = {'next': off('aw_next'), 'handle': off('aw_handle')}
    nodes.kind(NodeKind('awaiter', lay['next'], lay['handle']))
    st = State(); E = st.new('shared', 'event', off('event'))
    st.ghost.update(op=op, did=None, chain=None, resumed_on=None, seen=None)
    st.cells[(E.obj, off('event_state'))] = EventCell(E, nodes, lay)
    def resume(e, q, h, how='resume'):
        if not isinstance(h.obj, NodeRef): e.fail(q, 'event/resumes-a-coroutine-that-does-not-wait', repr(h)); return [q]
        c = q.chains[h.obj.chain]
        if policy == 'lifo': e.prove(q, eq(add(h.obj.idx, 1), c.hi), 'event/resume-order-lifo')
        if policy == 'fifo': e.prove(q, eq(h.obj.idx, c.lo), 'event/resume-order-fifo')
        nodes.consume(q, h); q.note(f'{how} {h}'); return [q]
    eng.hooks['resume'] = resume
    def pool_resume(e, q, i, a, fn):
        e.prove(q, isinstance(a[0], Ptr) and a[0].obj == q.ghost.get('pool'), 'event/resumed-on-the-given-executor')
        resume(e, q, a[1] if isinstance(a[1], Ptr) else Ptr(q.ghost['pool'], 0), 'executor resume'); return 1
    eng.contract_first('=coro::thread_pool::resume', pool_resume)
    return eng, st, E, nodes, off


def part_basic(ctx):
    mod = ctx.module('event.cpp'); F = lambda b, p=None: mod.one(b, p)
    for init in (0, 1):
        eng, st, E, nodes, off = setup(ctx, mod, f'event::event({bool(init)})', 'ctor'); st.cells.clear()
        for q, oc in eng.call(st, 'vc_event_ctor', [E, init]):
            v = q.mem[E.obj].cells.get(off('event_state'))
            ok = v is not None and ((isinstance(v[1], Ptr) and v[1].obj == E.obj and v[1].off == 0) if init else (isinstance(v[1], int) and v[1] == 0))
            eng.prove(q, oc[0] == 'ret' and ok, 'post/initial-state')
    eng, st, E, nodes, off = setup(ctx, mod, 'event::is_set', 'query')
    seen = set()
    for q, oc in eng.call(st, 'vc_event_is_set', [E]):
        eng.prove(q, oc[0] == 'ret' and q.ghost['did'] is None, 'post/no-effect')
        for q2, b in eng.split(q, boolterm(oc[1])):
            seen.add(b); eng.prove(q2, q2.ghost['seen'] is not None and b == (q2.ghost['seen'][0] == 'set'), 'post/true-iff-set')
            if b: eng.prove(q2, q2.ghost['seen'][1], 'post/set-observed-with-acquire', 'a caller that saw the event set must see what the setter wrote')
    eng.prove(State(), seen == {True, False}, 'cover/both-results')
    eng, st, E, nodes, off = setup(ctx, mod, 'event::reset', 'reset')
    seen = set()
    for q, oc in eng.call(st, F('coro::event::reset'), [E]):
        seen.add(q.ghost['did']); g = q.ghost
        eng.prove(q, oc[0] == 'ret', 'post/returns')
        eng.prove(q, g['did'] == 'reset' or (g['seen'] is not None and g['seen'][0] == 'unset'), 'post/not-set-afterwards')
    eng.prove(State(), seen == {None, 'reset'}, 'cover/reset-and-noop')


def part_await(ctx):
    mod = ctx.module('event.cpp'); F = lambda b, p=None: mod.one(b, p)
    eng, st, E, nodes, off = setup(ctx, mod, 'co_await event', 'await')
    p = st.new('fresh', 'awaiter', off('awaiter')); h = st.new('opaque', 'awaiting coroutine')
    st.ghost['node'] = p.obj; st.ghost['handle'] = h
    seen = set()
    for q0, oc in eng.call(st, 'vc_event_await', [E, p]):
        eng.prove(q0, oc[0] == 'ret' and q0.ghost['did'] is None, 'post/returns')
        for q, oc in eng.call(q0, 'vc_aw_ready', [p]):
            for q2, b in eng.split(q, boolterm(oc[1])):
                eng.prove(q2, q2.ghost['did'] is None and q2.ghost['seen'] is not None and b == (q2.ghost['seen'][0] == 'set'), 'post/ready-iff-set')
                if b:
                    seen.add('ready'); eng.prove(q2, q2.ghost['seen'][1], 'post/set-observed-with-acquire')
                    for q3, oc3 in eng.call(q2, 'vc_aw_resume', [p]): eng.prove(q3, oc3[0] == 'ret', 'post/returns')
                    continue
                for q3, oc3 in eng.call(q2, F('coro::event::awaiter::await_suspend'), [p, h]):
                    eng.prove(q3, oc3[0] == 'ret', 'post/returns')
                    for q4, b4 in eng.split(q3, boolterm(oc3[1])):
                        g = q4.ghost
                        eng.prove(q4, (g['did'] == 'registered') == b4, 'post/suspends-iff-registered', f'await_suspend returned {b4}, did {g["did"]}')
                        if not b4:
                            seen.add('set-meanwhile')
                            eng.prove(q4, g['seen'][0] == 'set', 'post/continues-only-if-set'); eng.prove(q4, g['seen'][1], 'post/set-observed-with-acquire')
                        else: seen.add('suspended')
    eng.prove(State(), seen == {'ready', 'set-meanwhile', 'suspended'}, 'cover/all-paths', str(seen))


def set_spec(ctx, executor, policy):
    mod = ctx.module('event.cpp')
    eng, st, E, nodes, off = setup(ctx, mod, f'event::set({"executor, " if executor else ""}{policy})', 'set', policy)
    pv = {'lifo': 0, 'fifo': 1}[policy]
    args = [E, pv]
    f = mod.one('coro::event::set', lambda d: 'unique_ptr' not in d)
    if executor:
        pool = st.new('opaque', 'executor', 4096); up = st.new('fresh', 'unique_ptr<executor>', 8); st.w(up.obj).cells[0] = (8, pool)
        st.ghost['pool'] = pool.obj; args = [E, up, pv]; f = mod.fn['vc_event_set_ex']
    seen = set()
    for q, oc in eng.call(st, f, args):
        g = q.ghost; seen.add((g['did'], g['chain'] is not None))
        eng.prove(q, oc[0] == 'ret', 'post/returns')
        eng.prove(q, g['did'] in ('set', 'already'), 'post/event-is-set')
        if g['chain']:
            c = q.chains[g['chain']]
            eng.prove(q, eq(c.lo, c.hi), 'post/every-waiter-resumed', 'a registered waiter was not resumed')
    eng.prove(State(), {('set', True), ('set', False), ('already', False)} <= seen, 'cover/with-and-without-waiters', str(seen))


def part_set_lifo(ctx): set_spec(ctx, False, 'lifo')
def part_set_fifo(ctx): set_spec(ctx, False, 'fifo')
def part_setx_lifo(ctx): set_spec(ctx, True, 'lifo')
def part_setx_fifo(ctx): set_spec(ctx, True, 'fifo')


PARTS = [part_basic, part_await, part_set_lifo, part_set_fifo, part_setx_lifo, part_setx_fifo]
