"""C10: coro::sync_wait -- blocks until completion and returns the outcome."""
import z3
from vcgen.core import *
from vcgen.engine import *
from vcgen.proto import *
from vcgen.monitor import resume_top
from vcgen.tracked import Tracked
from vcgen.threads import StdMutex

NOTE = 'the event is proved against the contracts of std::mutex and std::condition_variable for every interleaving with the waiter; sync_wait is proved against the event contract for values, const values, references, void and tasks of an awaitable that may be ready, suspend and be continued by another thread, return or throw; the event and the coroutine are treated as destroyed from the moment the waiter can run.'
TUS = ['sync_wait.cpp']


class Flag(Cell):
    size = 1; ty = 'i8'; name = 'set flag'
    def values(s, eng, st, e=None):
        g = st.ghost
        if g['held'] is True: return [(st, g['set'])]
        out = []
        for v in ((0, 1) if g['set'] == 0 else (1,)): q = st.clone(); q.ghost['set'] = v; out.append((q, v))
        return out
    def observed(s, eng, st, v, ord): st.ghost['seen'] = v if st.ghost['held'] is True else None
    def transition(s, eng, st, old, new, ord, how):
        g = st.ghost; st.note(f'{how} set flag {old} -> {new}')
        if g['op'] == 'reset': eng.prove(st, isinstance(new, int) and new == 0, 'event/reset-clears'); g['set'] = 0; return [st]
        eng.prove(st, g['op'] == 'set' and isinstance(new, int) and new == 1, 'event/set-sets', f'{old} -> {new} in {g["op"]}')
        eng.prove(st, g['held'] is True, 'event/set-under-the-lock', 'the waiter can see the flag and return, destroying the event, while set() still uses it')
        g['set'] = 1; g['mine'] = True; return [st]


def part_event(ctx):
    mod = ctx.module('sync_wait.cpp'); off = lambda x: ctx.off(mod, x)
    for op in ('set', 'wait', 'reset'):
        eng = ctx.engine(mod, f'sync_wait_event::{op}'); st = State(); E = st.new('shared', 'event', off('event')); st.cells[(E.obj, off('e_set'))] = Flag(); n = 0
        st.ghost.update(op=op, held=False, set=0, seen=None, mine=False, notified=False)
        def on_lock(q):
            q.ghost['seen'] = None
            if q.ghost['set'] == 1: return [q]
            x = q.clone(); x.ghost['set'] = 1; return [q, x]
        def on_unlock(q):
            g = q.ghost
            if op == 'set' and g['mine']:
                eng.prove(q, g['notified'], 'event/waiter-notified', 'the waiter is not woken, or woken after it may be gone'); q.w(E.obj).dead = 'the waiter can see the flag from here on and may have destroyed the event'
        def on_wait(q): eng.prove(q, q.ghost['seen'] == 0, 'event/waits-only-while-unset', 'the flag was not found unset in this critical section: the notification may already be gone'); q.ghost['seen'] = None
        def on_notify(q, all_):
            if q.ghost['mine'] and q.ghost['held'] is True: q.ghost['notified'] = True
        StdMutex(eng, lambda m: m.obj == E.obj and m.off == off('e_mutex'), on_lock, on_unlock, lambda c: c.obj == E.obj and c.off == off('e_cv'), on_wait, on_notify)
        for q, oc in eng.call(st, 'vc_e_' + op, [E]):
            g = q.ghost; n += 1; eng.prove(q, oc[0] == 'ret', 'post/no-exception', str(oc)); eng.prove(q, g['held'] is False, 'post/unlocked')
            if op == 'set': eng.prove(q, g['set'] == 1 and g['mine'], 'post/set')
            if op == 'reset': eng.prove(q, g['set'] == 0, 'post/reset')
            if op == 'wait': eng.prove(q, g['set'] == 1 and g['seen'] == 1, 'post/returns-only-when-set', 'wait returns without having found the flag set under the lock')
        eng.prove(State(), n > 0, 'cover/returns')
    for b in (0, 1):
        eng = ctx.engine(mod, f'sync_wait_event({b})'); st = State(); E = st.new('fresh', 'event', off('event')); StdMutex(eng, lambda m: True, lambda q: None, lambda q: None)
        for q, oc in eng.call(st, 'vc_e_ctor', [E, b]): eng.prove(q, oc[0] == 'ret' and eq(eng.load(q, Ptr(E.obj, off('e_set')), 1, 'i8')[0][1], b, 8), 'post/initial-state')


KINDS = ('void', 'int', 'cint', 'val', 'cval', 'ref', 'cref', 'task', 'vtask')


def wait_for(kind, how):
    def part(ctx):
        mod = ctx.module('sync_wait.cpp'); eng = ctx.engine(mod, f'sync_wait({"task of " if "task" in kind else ""}{kind}{", lvalue" if how else ""})'); st = State(); tr = Tracked(eng); C = eng.contract_first; seen = set()
        cell = st.new('fresh', 'referenced value', 8); st.ghost['live'] = (); tr.birth(st, cell, BV('referenced'))
        st.ghost.update(set=0, waited=0, id=None, exc=None, parked=None, event=None, done=False); StdMutex(eng, lambda m: True, lambda q: None, lambda q: None)
        def throws(q, what): x = q.clone(); q.forks += 1; x.forks += 1; p = x.new('heap', 'exception', 16); x.tags[('exc', p.obj)] = 'user'; x.ghost['exc'] = p.obj; x.note(what + ' throws'); return (x, Throw(Exc(p, 'user')))
        def ready(e, q, i, a, fn): t = throws(q, 'await_ready'); x = q.clone(); q.forks += 1; x.forks += 1; return [(q, 1), (x, 0), t]
        C('=vc_point_ready', ready)
        def point(e, q, i, a, fn): t = throws(q, 'await_suspend'); q.ghost['parked'] = a[0]; q.note('the awaited operation suspends'); return [(q, None), t]
        C('=vc_point', point)
        def vid(e, q, i, a, fn): e.prove(q, q.ghost['id'] is None, 'sync_wait/awaited-once'); t = throws(q, 'await_resume'); q.ghost['id'] = BV('value'); return [(q, q.ghost['id']), t]
        C('=vc_id', vid); C('=vc_cell', lambda e, q, i, a, fn: cell)
        def ctor(e, q, i, a, fn):
            if e.prove(q, len(a) < 2 or eq(a[1], 0, 8) if not (len(a) > 1 and isinstance(a[1], int)) else a[1] == 0, 'sync_wait/event-starts-unset'): q.ghost['event'] = a[0].obj
            return None
        C('=coro::detail::sync_wait_event::sync_wait_event', ctor); C('=coro::detail::sync_wait_event::~sync_wait_event', lambda e, q, i, a, fn: None)
        def set_(e, q, i, a, fn):
            g = q.ghost; e.prove(q, isinstance(a[0], Ptr) and a[0].obj == g['event'], 'sync_wait/sets-its-own-event'); e.prove(q, g['set'] == 0, 'sync_wait/set-once'); g['set'] = 1; q.note('event set')
            e.prove(q, g['id'] is not None or g['exc'] is not None, 'sync_wait/completion-signalled-after-completion', 'the caller is released before the awaited operation has finished')
            if not g['waited']: return None          # completed at once, on the calling thread
            # the waiter may have returned: it has destroyed the event, the coroutine and everything on its stack
            dead = [g['event']] + [o for fr in q.frames if fr.coro is not None for o in fr.allocas] + [o for o in q.coros]
            for o in dead:
                if q.mem[o].dead is None: q.w(o).dead = 'sync_wait may have returned'; q.tags['revive'] = q.tags.get('revive', ()) + (o,)
            return None
        C('=coro::detail::sync_wait_event::set', set_)
        def wait(e, q, i, a, fn):
            g = q.ghost; e.prove(q, isinstance(a[0], Ptr) and a[0].obj == g['event'], 'sync_wait/waits-for-its-own-event'); e.prove(q, g['waited'] == 0, 'sync_wait/waits-once'); g['waited'] = 1
            if g['set']: return None
            if not e.prove(q, g['parked'] is not None, 'sync_wait/waits-forever', 'nobody will set the event'): return []
            h = g['parked']; g['parked'] = None; out = []
            for y, oc in resume_top(e, q, h):
                e.prove(y, oc[0] in ('ret', 'suspend', 'coro_end'), 'sync_wait/no-exception-on-the-other-thread', str(oc)); e.prove(y, y.ghost['set'] == 1, 'sync_wait/waits-forever', 'the awaited operation finished and the event is not set')
                for o in y.tags.get('revive', ()): y.w(o).dead = None
                y.tags['revive'] = (); out.append((y, None))
            return out
        C('=coro::detail::sync_wait_event::wait', wait)
        out = st.new('fresh', 'where', 8)
        for q, oc in eng.call(st, f'vc_sw{"l" if how else ""}_{kind}', [out]):
            g = q.ghost; eng.prove(q, g['waited'] == 1 and g['set'] == 1, 'post/returns-after-completion', f'waited {g["waited"]}, set {g["set"]}')
            if g['exc'] is not None: seen.add('throws'); eng.prove(q, oc[0] == 'throw' and isinstance(oc[1].ptr, Ptr) and oc[1].ptr.obj == g['exc'], 'post/rethrows-exactly-the-exception', str(oc))
            else:
                seen.add('value'); eng.prove(q, oc[0] == 'ret', 'post/returns', str(oc))
                if oc[0] == 'ret' and 'void' not in kind and kind != 'vtask':
                    want = eng.load(q, cell, 8, 'i64')[0][1] if 'ref' in kind else g['id']; eng.prove(q, eq(oc[1], want), 'post/exactly-the-value', f'{oc[1]} instead of {want}')
                    if 'ref' in kind: eng.prove(q, eng.ptr_eq(q, eng.load(q, out, 8, 'ptr')[0][1], cell), 'post/exactly-the-object')
            eng.prove(q, g['live'] == ((cell.obj, 0),), 'post/every-value-destroyed', str(g['live']))
            for o in q.coros: eng.prove(q, q.mem[o].dead is not None, 'post/coroutine-destroyed')
        eng.prove(State(), seen == {'value', 'throws'}, 'cover/all-outcomes', str(seen))
    part.__name__ = f'part_wait_{kind}{how}'
    return part


PARTS = [part_event] + [wait_for(k, h) for k in KINDS for h in (0, 1)]
