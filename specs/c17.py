"""C17: coro::task_group -- waiting returns only after every started task finished."""
import z3
from vcgen.core import *
from vcgen.engine import *
from vcgen.proto import *
from vcgen.monitor import resume_top
from vcgen.threads import StdMutex
from vcgen.tracked import Tracked

NOTE = 'one start / one finishing task proved against any number of others starting, finishing and waiting at any time (rely-guarantee over the size and the event; the event itself by its contract, C02); the executor by its contract: runs an accepted handle once, never a refused one. Two operations of one task_group started while another thread destroys the group are excluded.'
TUS = ['task_group.cpp']
# Shared state: n tasks, the event, and possibly one task that has emptied the group and is about to set the event.
# Invariant while the start mutex is free:  n > 0 => event unset and nobody about to set it;  n == 0 => event set, or somebody is about to set it.
# Without the mutex others only finish: n -> n - 1 (then about to set it if n == 0), and about to set it -> set.


class Size(Cell):
    size = 8; ty = 'i64'; name = 'size'
    def values(s, eng, st, e=None):
        v = BV('size'); st.pc += [z3.ULT(v, 1 << 62)] + ([z3.UGE(v, 1)] if st.ghost['mine'] == 1 else []); return [(st, v)]
    def observed(s, eng, st, v, ord): st.ghost['sizes'] = () if st.ghost['looping'] else st.ghost['sizes'] + ((v, ord),); st.note(f'load size {ord}')
    def transition(s, eng, st, old, new, ord, how):
        g = st.ghost; st.note(f'{how} size {old} -> {new}'); up = eng.entails(st, eq(new, add(old, 1))); out = []
        if not up:
            if not eng.prove(st, eq(add(new, 1), old), 'size/changes-by-one', f'{old} -> {new}'): return [st]
            eng.prove(st, g['mine'] == 1, 'size/counted-down-once', 'a task that is not counted is counted down'); eng.prove(st, rel_ok(st, ord), 'size/finish-is-published', f'{ord}: what the task wrote is not visible to who waits'); eng.prove(st, g['over'](st), 'size/counted-until-finished', 'a task that has not finished is counted down'); g['mine'] = 2
            for q, last in eng.split(st, norm(eq(new, 0))):
                if last: eng.prove(q, acq_ok(q, ord), 'size/last-sees-the-others', ord); q.ghost['due'] = 1
                else: q.w(q.ghost['group']).dead = 'counted down: another task may have emptied the group and its owner destroyed it'
                out.append(q)
            return out
        eng.prove(st, g['mine'] == 0, 'size/counted-up-once'); eng.prove(st, g.get('held') is True, 'size/starts-are-serialized', 'another start may be about to re-arm the event'); g['mine'] = 1
        for q, first in eng.split(st, norm(eq(old, 0))): q.ghost['event'] = 'unknown' if first else 'unset'; out.append(q)
        return out


class W:
    def __init__(s, ctx, name):
        s.mod = ctx.module('task_group.cpp'); s.eng = e = ctx.engine(s.mod, 'task_group: ' + name); s.off = off = lambda x: ctx.off(s.mod, x); s.st = st = State(); s.tr = Tracked(e, copy_throws=False); s.tr.init(st); C = e.contract_first
        s.g = st.new('fresh', 'group', off('group')); s.ex = st.new('opaque', 'executor', 4096)
        st.ghost.update(ev=(), parked=(), mine=0, due=0, event='any', sizes=(), group=s.g.obj, over=s.over, handle=None, answer=None, seen=None, asked=0, looping=False)
        isg = lambda p: isinstance(p, Ptr) and p.obj == s.g.obj
        def unlock(q): g = q.ghost; e.prove(q, g['mine'] == 0 or g['event'] == 'unset', 'event/armed-before-the-next-start', 'the group is not empty, but its event is set or about to be set')
        StdMutex(e, isg, lambda q: None, unlock)
        C(r'^std::mutex::~?mutex$', lambda e, q, i, a, fn: None)
        def lk(op):
            def h(e, q, i, a, fn):
                if fn.base not in ('pthread_mutex_lock', 'pthread_mutex_unlock'): return None
            return h
        isev = lambda q, p: e.prove(q, isinstance(p, Ptr) and p.obj == s.g.obj and p.off == off('g_event'), 'event/the-group-s-own')
        def is_set(e, q, i, a, fn):
            isev(q, a[0]); e.chk_ptr(q, a[0], 8, False); g = q.ghost
            if g['event'] in ('set', 'unset'): return int(g['event'] == 'set')
            x = q.clone(); q.forks += 1; x.forks += 1; q.ghost['event'] = 'set' if g['mine'] == 1 or s.dtor else g['event']; q.ghost['seen'] = 'set'; q.note('event seen set'); return [(q, 1), (x, 0)]
        C('=coro::event::is_set', is_set)
        def reset(e, q, i, a, fn):
            isev(q, a[0]); g = q.ghost; q.note('event reset'); e.prove(q, g['mine'] == 1, 'event/reset-only-when-not-empty', 'the event of an empty group is reset: who waits for it waits forever')
            if g['event'] == 'set': g['event'] = 'unset'; return None
            if g['event'] == 'unset': return None
            x = q.clone(); q.forks += 1; x.forks += 1; q.ghost['event'] = 'unset'; x.ghost['event'] = 'about to be set'; return [(q, None), (x, None)]
        C('=coro::event::reset', reset)
        def evset(e, q, i, a, fn):
            isev(q, a[0]); e.chk_ptr(q, a[0], 8, False); g = q.ghost; q.note('event set'); e.prove(q, g['due'] == 1, 'event/set-only-by-the-last-task', 'the event is set although tasks have not finished'); e.prove(q, g.get('held') is not True, 'event/not-set-under-the-lock', 'a waiter resumed inline that starts a task deadlocks'); g['due'] = 2; q.w(s.g.obj).dead = 'the event is set: the waiter may have destroyed the group'; return None
        C('=coro::event::set', evset); C('=std::this_thread::yield', lambda e, q, i, a, fn: None); C('=std::this_thread::sleep_for', lambda e, q, i, a, fn: None); C('=sched_yield', lambda e, q, i, a, fn: 0)
        def resume(e, q, i, a, fn):
            g = q.ghost; h = a[1]; e.prove(q, isinstance(a[0], Ptr) and a[0].obj == s.ex.obj, 'start/on-the-given-executor'); e.prove(q, g['mine'] == 1 and g['event'] == 'unset', 'start/counted-before-it-can-run', f'counted {g["mine"]}, event {g["event"]}'); e.prove(q, g.get('held') is not True, 'start/not-resumed-under-the-lock', 'an executor that runs it at once deadlocks')
            e.prove(q, g['asked'] == 0, 'start/handed-over-once'); e.prove(q, isinstance(h, Ptr) and h.obj in q.coros and not q.coros[h.obj].done and q.mem[h.obj].dead is None and g['ev'] == (), 'start/hands-over-the-suspended-task', str(h)); g['asked'] = 1; g['handle'] = h
            x = q.clone(); q.forks += 1; x.forks += 1; q.w(h.obj).dead = 'accepted: it may have run and freed itself'; q.ghost['answer'] = 1; x.ghost['answer'] = 0; q.note('the executor accepts'); x.note('the executor refuses'); return [(q, 1), (x, 0)]
        C('=vc_executor::resume', resume); s.dtor = False
        def thrown(q): x = q.clone(); q.forks += 1; x.forks += 1; p = x.new('heap', 'exception', 16); x.tags[('exc', p.obj)] = 'user'; x.ghost['ev'] += ('throw',); x.note('the task throws'); return (x, Throw(Exc(p, 'user')))
        def ev(n):
            def h(e, q, i, a, fn): q.ghost['ev'] += (n,); q.note(n); return [(q, None), thrown(q)]
            return h
        C('=vc_enter', ev('enter')); C('=vc_run', ev('run'))
        def ready(e, q, i, a, fn): x = q.clone(); q.forks += 1; x.forks += 1; return [(q, 1), (x, 0)]
        C('=vc_ready', ready)
        def point(e, q, i, a, fn): q.ghost['parked'] += (a[1],); q.note('the task suspends'); return None
        C('=vc_point', point)

    def over(s, q):
        g = q.ghost; ev = g['ev']; h = g['handle']; fin = ev[-1:] in (('run',), ('throw',)) or (ev == ('enter',) and s.plain) or g['answer'] == 0
        return fin and g['live'] == () and all(q.mem[o].dead is not None for o in q.coros if h is None or o != h.obj)
    plain = False

    def shared(s, q):
        """the group as any history of operations leaves it"""
        s.eng.store(q, Ptr(s.g.obj, s.off('g_exec')), 8, s.ex, 'ptr'); q.cells[(s.g.obj, s.off('g_size'))] = Size()

    def one(s, q, f, a): r = s.eng.call(q, f, a); assert len(r) == 1 and r[0][1][0] == 'ret', (f, r); return r[0]


def start(fn):
    def part(ctx):
        w = W(ctx, f'{fn}'); w.plain = fn == 'plain'; e = w.eng; w.shared(w.st); seen = set()
        for q, oc in e.call(w.st, 'vc_g_' + fn, [w.g]):
            g = q.ghost; e.prove(q, oc[0] == 'ret' and g['asked'] == 1, 'post/asks-the-executor'); e.prove(q, eq(oc[1], g['answer'], 1), 'post/true-iff-accepted', str(oc)); e.prove(q, g.get('held') is not True, 'post/lock-released'); h = g['handle']
            if not g['answer']:
                seen.add('refused'); e.prove(q, g['ev'] == (), 'post/refused-task-never-runs'); e.prove(q, g['mine'] == 2, 'post/refused-task-does-not-count'); e.prove(q, g['due'] in (0, 2), 'post/waiters-released-if-it-was-the-last'); e.prove(q, all(q.mem[o].dead is not None for o in q.coros) and g['live'] == (), 'post/refused-task-is-freed', str([q.mem[o].name for o in q.coros if q.mem[o].dead is None])); continue
            e.prove(q, g['mine'] == 1 and g['ev'] == (), 'post/accepted-task-counts'); q.w(h.obj).dead = None
            for r in [r for r, oc in resume_top(e, q, h)]:
                ends = [r]
                if r.ghost['parked']: e.prove(r, r.ghost['mine'] == 1, 'post/running-task-counts'); ends = [y for y, oc in resume_top(e, r, r.ghost['parked'][0])]
                for y in ends:
                    g = y.ghost; seen.add((g['ev'][-1], g['due'])); e.prove(y, g['mine'] == 2, 'post/finished-task-does-not-count'); e.prove(y, g['due'] in (0, 2), 'post/last-task-sets-the-event', 'the group is empty, but nobody is told')
                    e.prove(y, all(y.mem[o].dead is not None for o in y.coros) and g['live'] == (), 'post/task-is-freed')
        e.prove(State(), len(seen) >= 5, 'cover/all-outcomes', str(seen))
    part.__name__ = 'part_' + fn
    return part


def part_queries(ctx):
    w = W(ctx, 'size, empty, await'); e = w.eng; w.shared(w.st); st = w.st
    for f in ('size', 'empty'):
        for q, oc in e.call(st.clone(), 'vc_g_' + f, [w.g]):
            z = q.ghost['sizes']; e.prove(q, oc[0] == 'ret' and len(z) == 1, 'post/reads-the-size'); e.prove(q, eq(oc[1], z[0][0]) if f == 'size' else norm(boolterm(oc[1]) == boolterm(eq(z[0][0], 0))) if is_term(oc[1]) else eq(z[0][0], 0), 'post/' + f, str(oc)); e.prove(q, acq_ok(q, z[0][1]), 'post/size-observed-with-acquire', z[0][1])
    p = st.new('fresh', 'awaiter', w.off('awaiter')); q, oc = w.one(st, 'vc_g_await', [w.g, p]); v = e.load(q, Ptr(p.obj, w.off('aw_event')), 8, 'ptr')[0][1]; e.prove(q, isinstance(v, Ptr) and v.obj == w.g.obj and v.off == w.off('g_event'), 'post/waits-for-the-group-s-event', str(v))


def part_dtor(ctx):
    w = W(ctx, 'destructor'); e = w.eng; w.shared(w.st); w.dtor = w.st.ghost['looping'] = True; n = 0
    for q, oc in e.call(w.st, 'vc_g_dtor', [w.g]): n += 1; e.prove(q, oc[0] == 'ret' and q.ghost['seen'] == 'set', 'post/waits-for-the-event', 'the group is destroyed while its last task is about to set the event, or while tasks run')
    e.prove(State(), n > 0, 'cover/ends')


def part_ctor(ctx):
    def clean(w, e, q):
        v = e.load(q, Ptr(w.g.obj, w.off('g_exec')), 8, 'ptr')[0][1]; e.prove(q, isinstance(v, Ptr) and v.obj == w.ex.obj, 'post/keeps-the-executor', str(v))
    def evctor(w):
        def h(e, q, i, a, fn): e.prove(q, isinstance(a[0], Ptr) and a[0].obj == w.g.obj and a[0].off == w.off('g_event'), 'event/the-group-s-own'); q.ghost['init'] = a[1]; return None
        w.eng.contract_first('=coro::event::event', h); w.st.ghost['init'] = None
    def up(w, q): x = q.new('fresh', 'unique_ptr', 8); w.eng.store(q, x, 8, w.ex, 'ptr'); return x
    for f in ('ctor', 'uctor'):
        w = W(ctx, f); e = w.eng; evctor(w); q, oc = w.one(w.st, 'vc_g_' + f, [w.g, w.ex if f == 'ctor' else up(w, w.st)]); clean(w, e, q); e.prove(q, e.load(q, Ptr(w.g.obj, w.off('g_size')), 8, 'i64')[0][1] == 0, 'post/empty'); e.prove(q, eq(q.ghost['init'], 1, 1), 'post/an-empty-group-does-not-wait', str(q.ghost['init'])); e.prove(q, q.ghost['asked'] == 0, 'post/starts-nothing')
    w = W(ctx, 'without an executor'); e = w.eng; evctor(w); (q, oc), = e.call(w.st, 'vc_g_ctor', [w.g, 0]); e.prove(q, oc[0] == 'throw', 'post/null-executor-is-refused')
    # with tasks: each is started once, in order
    for f in ('ctor1', 'uctor1'):
        w = W(ctx, f); e = w.eng; evctor(w); w.st.ghost['started'] = 0
        def st1(e, q, i, a, fn): e.prove(q, a[0].obj == w.g.obj and q.ghost['init'] is not None, 'ctor/starts-on-itself'); q.ghost['started'] += 1; h = e.load(q, a[1], 8, 'ptr')[0][1]; e.prove(q, isinstance(h, Ptr) and h.obj in q.coros, 'ctor/starts-the-given-task'); return [(q, 1), (x, 0)] if (x := q.clone()) and not setattr(x, 'forks', x.forks + 1) and not setattr(q, 'forks', q.forks + 1) else None
        e.contract_first('=coro::task_group::start', st1)
        for q, oc in e.call(w.st, 'vc_g_' + f, [w.g, w.ex if f == 'ctor1' else up(w, w.st)]): e.prove(q, oc[0] == 'ret' and q.ghost['started'] == 1, 'post/starts-its-task'); clean(w, e, q)
    w = W(ctx, 'with any number of tasks'); e = w.eng; evctor(w); st = w.st; arr = st.new('heap', 'tasks'); n = BV('tasks'); st.pc += [z3.ULT(n, 1 << 40)]; st.ghost['#started'] = 0; inp = st.new('fresh', 'input', 24); c = st.w(inp.obj).cells; end = Ptr(arr.obj, mul(n, 8)); c[0] = (8, Ptr(arr.obj, 0)); c[8] = (8, end); c[16] = (8, end)
    def st2(e, q, i, a, fn): p = a[1]; e.prove(q, isinstance(p, Ptr) and p.obj == arr.obj and eq(p.off, q.ghost['#started']), 'ctor/starts-each-task-once', str(p)); q.ghost['#started'] = add(q.ghost['#started'], 8); e.prove(q, q.ghost['init'] is not None, 'ctor/starts-when-ready'); x = q.clone(); q.forks += 1; x.forks += 1; return [(q, 1), (x, 0)]
    e.contract_first('=coro::task_group::start', st2); e.contract_first(lambda fn: fn.base == 'std::vector::~vector', lambda e, q, i, a, fn: None); m = 0
    for q, oc in e.call(st, 'vc_g_ctorn', [w.g, w.ex, inp]): m += 1; e.prove(q, oc[0] == 'ret', 'post/returns'); e.prove(q, eq(q.ghost['#started'], mul(n, 8)), 'post/starts-every-task', f'{q.ghost["#started"]} of {n}*8'); clean(w, e, q)
    e.prove(State(), m > 0, 'cover/ends')


PARTS = [start('start'), start('plain'), part_queries, part_dtor, part_ctor]
