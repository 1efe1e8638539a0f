"""C13: coro::thread_pool -- accepted work runs exactly once, shutdown drains."""
import z3
from vcgen.core import *
from vcgen.engine import *
from vcgen.proto import *
from vcgen.monitor import resume_top
from vcgen.threads import StdMutex
from vcgen.tracked import Tracked

NOTE = ('every function of the pool proved against any number of threads doing anything else to it: the queue by a monitor invariant of its mutex, the size and the shutdown flag by rely-guarantee, resume(range) for any number of handles, shutdown() and '
        'make_unique() for any number of threads, the worker for any number of iterations; spawn_detached with the real self deleting task; spawn_joinable against the contract of task_group (C17). Assumed: std::mutex, std::condition_variable_any, std::deque, std::thread by contract. Not covered: shutdown called by a thread of the pool itself.')
TUS = ['thread_pool.cpp']
MAX = 1 << 60


class Flag(Cell):
    """set once, by anybody, at any time"""
    size = 1; ty = 'i8'; name = 'shutdown flag'
    def values(s, eng, st, e=None):
        if st.ghost['shut']: return [(st, 1)]
        q = st.clone(); return [(q, 1), (st, 0)]
    def observed(s, eng, st, v, ord):
        st.note(f'shutdown flag {v}')
        if v: st.ghost['shut'] = True
        elif st.ghost['held'] is True: st.ghost['open'] = True
    def transition(s, eng, st, old, new, ord, how):
        eng.prove(st, st.ghost['op'] == 'shutdown' and eq(new, 1, 8) is not False and eng.entails(st, boolterm(eq(new, 1, 8))), 'shutdown/flag-only-set-by-shutdown', f'{how} {old} -> {new}'); st.note(f'{how} shutdown flag {old} -> {new}')
        eng.prove(st, how != 'store', 'shutdown/once', 'two calls can both believe to be the first')
        if eq(old, 0, 8) is True: st.ghost['mine'] = True; st.ghost['locked'] = st.ghost['held'] is True
        st.ghost['shut'] = True; return [st]


class Size(Cell):
    size = 8; ty = 'i64'; name = 'size'
    def values(s, eng, st, e=None): v = BV('size'); st.pc.append(z3.ULT(v, MAX)); st.pc.append(z3.UGE(v, bv(st.ghost['#bal'], 64))) if eng.entails(st, boolterm(bv(st.ghost['#bal'], 64) >= 0)) else None; return [(st, v)]
    def observed(s, eng, st, v, ord): st.ghost['sizes'] = ((v, ord),); st.note(f'load size ({ord})')
    def transition(s, eng, st, old, new, ord, how):
        g = st.ghost; d = norm(bv(new, 64) - bv(old, 64)); st.note(f'{how} size by {d} ({ord})'); eng.prove(st, how != 'store', 'size/lost-update', 'a plain store loses what others count')
        out = []
        for q, up in eng.split(st, norm(bv(d, 64) >= 0)):
            g = q.ghost
            if up: eng.prove(q, g['held'] is True or g['op'] == 'spawn', 'size/counted-when-accepted', 'counted without being accepted')
            else:
                eng.prove(q, rel_ok(q, ord), 'size/completion-is-published', f'{ord}: who sees the pool empty does not see what the work wrote'); eng.prove(q, bv(g['#bal'], 64) + bv(d, 64) >= 0, 'size/counted-down-once', 'work that is not counted is counted down')
                if g['op'] == 'executor': eng.prove(q, g['work'] == 'resumed', 'size/counts-until-it-was-run', 'counted down before it was run'); g['work'] = 'none'; g['task'] = None
            g['#bal'] = norm(bv(g['#bal'], 64) + bv(d, 64)); out.append(q)
        return out


class W:
    def __init__(s, ctx, name, op, tracked=False):
        s.mod = ctx.module('thread_pool.cpp'); s.eng = e = ctx.engine(s.mod, 'thread_pool: ' + name); s.off = off = lambda x: ctx.off(s.mod, x); s.st = st = State(); s.tr = Tracked(e, copy_throws=False); s.tr.init(st); C = e.contract_first
        s.p = st.new('fresh', 'pool', off('pool')); st.cells[(s.p.obj, off('p_size'))] = Size(); st.cells[(s.p.obj, off('p_shut'))] = Flag(); s.at = lambda n: Ptr(s.p.obj, off('p_' + n)); s.nthreads = None; s.accepted = None
        st.ghost.update(op=op, held=False, shut=False, open=False, mine=False, locked=False, work='none', task=None, sizes=(), drained=False, pushed=None, handed=0, empty=None, qlen=None, all=False)
        st.ghost.update({'#bal': 0, '#pushes': 0, '#notified': 0})
        is_ = lambda n: (lambda q: isinstance(q, Ptr) and q.obj == s.p.obj and q.off == off('p_' + n))
        s.mx = StdMutex(e, is_('mutex'), s.on_lock, s.on_unlock, is_('cv'), s.on_wait, s.on_notify)
        for n in ('emplace_back', 'push_back', 'front', 'pop_front', 'empty', 'size', 'emplace_front', 'push_front', 'back', 'pop_back', 'clear', 'erase', 'insert'): C('=std::deque::' + n, getattr(s, 'q_' + n, s.q_other))
        C('=std::deque::deque', lambda e, q, i, a, fn: None); C('=std::deque::~deque', lambda e, q, i, a, fn: None); C('=pthread_self', lambda e, q, i, a, fn: BV('self'))
        e.hooks['resume'] = s.resume; e.hooks['done'] = s.done

    # ---- the monitor
    def on_lock(s, q):
        g = q.ghost; n = BV('queued'); q.pc.append(z3.ULT(n, MAX)); g.update(qlen=n, open=False, empty=None, drained=False)
        if g['mine']: g['locked'] = True
    def on_unlock(s, q):
        g = q.ghost; e = s.eng; e.prove(q, bv(g['#bal'], 64) >= 0, 'size/accepted-work-is-counted', 'a worker can run the work and count it down before it is counted'); g.update(open=False, qlen=None)
        if g['handed']:
            h = g['pushed']
            if isinstance(h, Ptr):
                dead = [h.obj] + [o for fr in q.frames if fr.coro == h.obj for o in fr.allocas]
                for o in dead:
                    if q.mem[o].dead is None: q.w(o).dead = 'accepted: a worker may already have run and destroyed it'; q.tags['revive'] = q.tags.get('revive', ()) + (o,)
    def on_wait(s, q):
        g = q.ghost; e = s.eng; e.prove(q, g['op'] == 'executor', 'wait/only-workers-wait'); e.prove(q, g['empty'] is True, 'wait/only-while-the-queue-is-empty', 'queued work was not ruled out in this critical section: its notification may already be gone'); e.prove(q, g['open'] and not g['shut'], 'wait/only-before-shutdown', 'shutdown was not ruled out in this critical section: its notification may already be gone')
    def on_notify(s, q, all_):
        g = q.ghost
        if all_: g['all'] = True if g['op'] != 'shutdown' else bool(g['locked'])
        else: g['#notified'] = add(g['#notified'], 1)

    # ---- the queue
    def enter(s, q, p, what): e = s.eng; e.prove(q, isinstance(p, Ptr) and p.obj == s.p.obj and p.off == s.off('p_queue'), 'queue/unknown', repr(p)); return e.prove(q, q.ghost['held'] is True, 'queue/used-under-its-lock', what)
    def q_other(s, e, q, i, a, fn): raise Unsupported('std::deque operation ' + fn.base)
    def q_empty(s, e, q, i, a, fn):
        if not s.enter(q, a[0], 'empty'): return []
        out = []
        for x, v in e.split(q, norm(eq(q.ghost['qlen'], 0))): x.ghost['empty'] = bool(v); x.ghost['drained'] = bool(v) and x.ghost['shut']; x.note('queue empty' if v else 'queue not empty'); out.append((x, int(v)))
        return out
    def q_size(s, e, q, i, a, fn): return q.ghost['qlen'] if s.enter(q, a[0], 'size') else []
    def q_front(s, e, q, i, a, fn):
        if not s.enter(q, a[0], 'front') or not e.prove(q, Not(eq(q.ghost['qlen'], 0)), 'queue/front-of-empty-queue'): return []
        if q.ghost['task'] is None or q.ghost['work'] != 'front':
            e.prove(q, q.ghost['work'] == 'none', 'worker/one-at-a-time', 'the work taken before was not run'); h = q.new('opaque', 'queued coroutine', 64); c = q.new('fresh', 'queue front', 8); q.w(c.obj).cells[0] = (8, h); q.ghost['task'] = (h.obj, c.obj); q.ghost['work'] = 'front'
        return Ptr(q.ghost['task'][1], 0)
    def q_pop_front(s, e, q, i, a, fn):
        if not s.enter(q, a[0], 'pop_front') or not e.prove(q, Not(eq(q.ghost['qlen'], 0)), 'queue/pop-of-empty-queue'): return []
        g = q.ghost; e.prove(q, g['work'] == 'front', 'queue/popped-work-is-taken', 'work is removed from the queue without being looked at: it is lost'); e.prove(q, g['op'] == 'executor', 'queue/only-workers-take-work')
        if g['task']: q.w(g['task'][1]).dead = 'popped from the queue'
        g['work'] = 'taken'; g['qlen'] = sub(g['qlen'], 1); g['empty'] = None; g['#bal'] = add(g['#bal'], 1); q.note('takes the oldest work'); return None
    def q_emplace_back(s, e, q, i, a, fn):
        if not s.enter(q, a[0], fn.base): return []
        g = q.ghost; h = e.load(q, a[1], 8, 'ptr')[0][1]; e.prove(q, g['open'] and not g['shut'], 'accept/only-before-shutdown', 'shutdown was not ruled out in this critical section: all workers may be gone, the work is never run'); e.prove(q, isinstance(h, Ptr), 'accept/not-null', str(h))
        s.push(q, h); g['#bal'] = sub(g['#bal'], 1); g['#pushes'] = add(g['#pushes'], 1); g['qlen'] = add(g['qlen'], 1); g['empty'] = None; q.note(f'queued {h}'); return Ptr(s.p.obj, s.off('p_queue'))
    q_push_back = q_emplace_back
    def push(s, q, h): s.eng.prove(q, s.accepted is not None and isinstance(h, Ptr) and s.accepted(q, h), 'accept/exactly-the-given-work', str(h)); s.eng.prove(q, q.ghost['handed'] == 0, 'accept/queued-once'); q.ghost.update(handed=1, pushed=h)

    # ---- coroutines
    def resume(s, e, q, h):
        g = q.ghost
        if h.obj in q.coros and g['op'] != 'executor':
            if s.inside(q, h): return INLINE
            e.fail(q, 'accept/not-run-by-the-caller', 'the given work is resumed by who hands it over'); return [q]
        if not e.prove(q, g['op'] == 'executor' and g['work'] == 'taken' and g['task'] and g['task'][0] == h.obj, 'worker/runs-what-it-took-once', f'{g["work"]}'): return [q]
        e.prove(q, g['held'] is not True, 'worker/runs-without-the-lock', 'work that uses the pool deadlocks'); g['work'] = 'resumed'; q.w(h.obj).dead = 'it ran: it may be gone'; q.note('runs it'); return [q]
    def inside(s, q, h): return True
    def done(s, e, q, h):
        if h.obj in q.coros: e.chk_ptr(q, h, 8, False); return INLINE if q.mem[h.obj].dead is None else s.gone(q, h)
        if q.mem[h.obj].dead: return s.gone(q, h)
        t = q.tags.get(('done', h.obj))
        if t is not None: return t
        x = q.clone(); q.forks += 1; x.forks += 1; q.tags[('done', h.obj)] = 0; x.tags[('done', h.obj)] = 1; x.note('the handle is done'); return [(q, 0), (x, 1)]
    def gone(s, q, h): s.eng.fail(q, 'memory/use-after-lifetime', q.mem[h.obj].name + ' (' + q.mem[h.obj].dead + ')'); return []

    def revive(s, q):
        for o in q.tags.get('revive', ()): q.w(o).dead = None
        q.tags['revive'] = ()
    def settled(s, q, bal=0): g = q.ghost; e = s.eng; e.prove(q, g['held'] is False, 'post/unlocked'); e.prove(q, eq(g['#bal'], bal), 'post/counted-exactly', f'counted {g["#bal"]} more than accepted')
    def woken(s, q, n=1): g = q.ghost; s.eng.prove(q, True if g['all'] else z3.UGE(bv(g['#notified'], 64), bv(n, 64)) if s.nthreads is None else z3.Or(z3.UGE(bv(g['#notified'], 64), bv(n, 64)), z3.UGE(bv(g['#notified'], 64), s.nthreads)), 'post/workers-are-woken', 'work is queued, but no waiting worker is told')


def part_resume(ctx):
    w = W(ctx, 'resume(handle)', 'resume'); e = w.eng; h = w.st.new('opaque', 'given coroutine', 64); w.accepted = lambda q, x: x.obj == h.obj; seen = set()
    for q, oc in e.call(w.st, 'vc_p_resume', [w.p, h]):
        g = q.ghost; e.prove(q, oc[0] == 'ret' and isinstance(oc[1], int), 'post/returns', str(oc)); e.prove(q, eq(oc[1], g['handed'], 1), 'post/true-iff-queued', f'{oc[1]}, queued {g["handed"]}'); w.settled(q)
        if g['handed']: seen.add('accepted'); e.prove(q, q.tags.get(('done', h.obj)) == 0, 'post/not-a-finished-one', 'a coroutine that is done is queued'); w.woken(q)
        else: seen.add('refused'); e.prove(q, g['shut'] or q.tags.get(('done', h.obj)) == 1, 'post/refused-for-a-reason')
    e.prove(State(), seen == {'accepted', 'refused'}, 'cover/all-outcomes', str(seen))
    w = W(ctx, 'resume(null)', 'resume'); e = w.eng
    for q, oc in e.call(w.st, 'vc_p_resume', [w.p, 0]): e.prove(q, oc[0] == 'ret' and eq(oc[1], 0, 1), 'post/null-is-refused'); w.settled(q); e.prove(q, eq(q.ghost['#pushes'], 0), 'post/null-is-not-queued')


def many(how):
    def part(ctx):
        w = W(ctx, 'resume(any number of handles)' + (' (span)' if how == 's' else ''), 'resume'); e, st = w.eng, w.st; arr = st.new('heap', 'handles'); n = BV('handles'); st.pc.append(z3.ULT(n, 1 << 40)); T = BV('threads'); st.pc.append(z3.ULT(T, 1 << 20)); w.nthreads = T
        th = st.new('opaque', 'threads'); c = st.w(w.p.obj).cells; b = w.off('p_threads'); c[b] = (8, Ptr(th.obj, 0)); c[b + 8] = (8, Ptr(th.obj, mul(T, 8))); c[b + 16] = (8, Ptr(th.obj, mul(T, 8)))
        inp = st.new('fresh', 'range', 24); c = st.w(inp.obj).cells; c[0] = (8, Ptr(arr.obj, 0))
        if how == 's': c[8] = (8, n)
        else: c[8] = c[16] = (8, Ptr(arr.obj, mul(n, 8)))
        st.ghost.update(pending=False); st.ghost['#visited'] = 0; seen = set()
        def element(e2, q, o, off, size, t, v, write):
            if write: raise Unsupported('the range is written')
            cur = q.tags.get('cur')
            if cur is not None and e.entails(q, eq(off, cur[0])): return [(q, cur[1])]
            g = q.ghost; e.prove(q, not g['pending'], 'accept/every-valid-handle', 'a handle that is valid is skipped'); e.prove(q, eq(off, g['#visited']), 'accept/each-handle-once-in-order', f'reads the handle at {off}, the next one is at {g["#visited"]}'); e.prove(q, z3.ULT(bv(off, 64), bv(mul(n, 8), 64)), 'memory/out-of-bounds', 'reads past the range')
            g['#visited'] = add(g['#visited'], 8); x = q.clone(); q.forks += 1; x.forks += 1; h = q.new('opaque', 'given coroutine', 64); q.tags['cur'] = (off, h); x.tags['cur'] = (off, 0); return [(q, h), (x, 0)]
        st.w(arr.obj).arrays['handler'] = element; st.w(arr.obj).guard = lambda e2, q, o, off, size, write, v: element(e2, q, o, off, size, 'ptr', v, write) if isinstance(off, int) else None
        d0 = e.hooks['done']
        def done(e2, q, h):
            r = d0(e2, q, h)
            if isinstance(r, list):
                for x, v in r: x.ghost['pending'] = v == 0
            return r
        e.hooks['done'] = done; w.accepted = lambda q, h: q.tags.get('cur') is not None and isinstance(q.tags['cur'][1], Ptr) and q.tags['cur'][1].obj == h.obj and q.tags.get(('done', h.obj)) == 0
        def push(q, h): e.prove(q, w.accepted(q, h), 'accept/exactly-the-given-work', str(h)); e.prove(q, q.ghost['pending'], 'accept/queued-once'); q.ghost['pending'] = False
        w.push = push; u0 = w.mx.on_unlock
        def on_unlock(q):
            u0(q); cur = q.tags.get('cur')
            if cur is not None and isinstance(cur[1], Ptr): q.w(cur[1].obj).dead = 'accepted: a worker may already have run and destroyed it'
        w.mx.on_unlock = on_unlock
        for q, oc in e.call(st, 'vc_p_resume_' + how, [w.p, inp]):
            g = q.ghost; e.prove(q, oc[0] == 'ret', 'post/returns', str(oc)); e.prove(q, eq(oc[1], g['#pushes']), 'post/reports-the-number-queued', f'{oc[1]}, queued {g["#pushes"]}'); w.settled(q); w.woken(q, g['#pushes']); e.prove(q, not g['pending'], 'accept/every-valid-handle')
            if g['shut'] and eq(oc[1], 0) is True: seen.add('refused')
            else: seen.add('taken'); e.prove(q, eq(g['#visited'], mul(n, 8)), 'post/every-handle-is-looked-at', f'{g["#visited"]} of 8*{n}')
        e.prove(State(), seen == {'taken', 'refused'}, 'cover/all-outcomes', str(seen))
    part.__name__ = 'part_resume_' + how
    return part


def executor(a, b):
    def part(ctx):
        w = W(ctx, f'worker{", start functor" if a else ""}{", stop functor" if b else ""}', 'executor'); e, st = w.eng, w.st; (st, oc), = e.call(st, 'vc_p_functors', [w.at('opts'), a, b]); idx = BV('index'); st.ghost['fun'] = (); C = e.contract_first
        def fun(n):
            def h(e, q, i, args, fn): g = q.ghost; e.prove(q, isinstance(args[0], (int, z3.ExprRef)) and eq(args[0], idx), 'worker/own-index'); e.prove(q, g['fun'] == (() if n == 'start' or not a else ('start',)), 'worker/functors-once', str(g['fun'])); g['fun'] += (n,); e.prove(q, g['held'] is not True and g['work'] == 'none', 'worker/functor-outside-work'); return None
            return h
        C('=vc_started', fun('start')); C('=vc_stopped', fun('stop')); k = 0
        for q, oc in e.call(st, 'vc_p_executor', [w.p, idx]):
            g = q.ghost; k += 1; e.prove(q, oc[0] == 'ret', 'post/returns', str(oc)); e.prove(q, g['drained'], 'post/exits-only-when-shut-down-and-drained', 'the worker ends without having found, after the shutdown, an empty queue: accepted work may be left'); e.prove(q, g['work'] == 'none', 'post/everything-taken-was-run', g['work']); w.settled(q); e.prove(q, g['fun'] == ('start',) * a + ('stop',) * b, 'post/functors-called', str(g['fun']))
        e.prove(State(), k > 0, 'cover/ends')
    part.__name__ = f'part_executor_{a}{b}'
    return part


def part_shutdown(ctx):
    for f in ('shutdown', 'dtor'):
        w = W(ctx, f, 'shutdown'); e, st = w.eng, w.st; T = BV('threads'); st.pc.append(z3.ULT(T, 1 << 20)); th = st.new('heap', 'threads'); c = st.w(w.p.obj).cells; b = w.off('p_threads'); c[b] = (8, Ptr(th.obj, 0)); c[b + 8] = c[b + 16] = (8, Ptr(th.obj, mul(T, 8))); seen = set(); C = e.contract_first; st.ghost['#seen'] = 0; st.ghost['todo'] = False
        def joinable(e, q, i, a, fn):
            g = q.ghost; e.prove(q, isinstance(a[0], Ptr) and a[0].obj == th.obj and not g['todo'] and eq(a[0].off, g['#seen']), 'shutdown/every-thread-in-turn', f'{a[0]}, the next thread is at {g["#seen"]}'); e.prove(q, z3.ULT(bv(a[0].off, 64), bv(mul(T, 8), 64)), 'memory/out-of-bounds'); g['#seen'] = add(g['#seen'], 8); x = q.clone(); q.forks += 1; x.forks += 1; q.ghost['todo'] = True; return [(q, 1), (x, 0)]
        C('=std::thread::joinable', joinable)
        def join(e, q, i, a, fn):
            g = q.ghost; e.prove(q, g['todo'] and isinstance(a[0], Ptr) and a[0].obj == th.obj and eq(add(a[0].off, 8), g['#seen']), 'shutdown/joins-a-joinable-thread'); e.prove(q, g['held'] is not True, 'shutdown/joins-without-the-lock', 'the worker needs the lock to end'); e.prove(q, g['mine'] and g['all'], 'shutdown/joins-after-telling-the-workers', 'a waiting worker never ends'); g['todo'] = False; return None
        C('=std::thread::join', join)
        if f == 'dtor':
            C(lambda fn: fn.base == 'std::vector::~vector', lambda e, q, i, a, fn: None); C(lambda fn: fn.base == 'std::function::~function', lambda e, q, i, a, fn: None); C('=coro::thread_pool::options::~options', lambda e, q, i, a, fn: None)
        for q, oc in e.call(st, 'vc_p_' + f, [w.p]):
            g = q.ghost; e.prove(q, oc[0] == 'ret', 'post/returns', str(oc)); e.prove(q, g['shut'], 'post/shut-down'); w.settled(q)
            if g['mine']: seen.add('first'); e.prove(q, g['all'], 'post/workers-are-told', 'the notification can be missed by a worker that is about to wait'); e.prove(q, And(eq(g['#seen'], mul(T, 8)), not g['todo']), 'post/every-worker-is-joined', f'{g["#seen"]} of 8*{T}')
            else: seen.add('again')
        e.prove(State(), seen == {'first', 'again'}, 'cover/all-outcomes', str(seen))


def part_queries(ctx):
    for f in ('size', 'empty'):
        w = W(ctx, f, 'query'); e = w.eng
        for q, oc in e.call(w.st, 'vc_p_' + f, [w.p]):
            z = q.ghost['sizes']; e.prove(q, oc[0] == 'ret' and len(z) == 1, 'post/reads-the-size'); v = z[0][0]; e.prove(q, eq(oc[1], v) if f == 'size' else boolterm(oc[1]) == boolterm(eq(v, 0)), 'post/' + f, str(oc)); e.prove(q, acq_ok(q, z[0][1]), 'post/size-observed-with-acquire', z[0][1])
    for f in ('queue_size', 'queue_empty'):
        w = W(ctx, f, 'query'); e = w.eng; w.st.ghost['#len'] = None; l0 = w.mx.on_lock
        def on_lock(q): l0(q); q.ghost['#len'] = q.ghost['qlen']
        w.mx.on_lock = on_lock
        for q, oc in e.call(w.st, 'vc_p_' + f, [w.p]): v = q.ghost['#len']; e.prove(q, oc[0] == 'ret' and v is not None, 'post/reads-the-queue'); e.prove(q, eq(oc[1], v) if f == 'queue_size' else boolterm(oc[1]) == boolterm(eq(v, 0)), 'post/' + f, str(oc)); w.settled(q)
    w = W(ctx, 'is_shutdown', 'query'); e = w.eng
    for q, oc in e.call(w.st, 'vc_p_is_shutdown', [w.p]): e.prove(q, oc[0] == 'ret' and eq(oc[1], int(q.ghost['shut']), 1), 'post/is-shutdown')


def bodies(w):
    """what the user's coroutines do"""
    C = w.eng.contract_first; w.st.ghost.update(ev=(), parked=None); wt = {}
    def thrown(q): x = q.clone(); q.forks += 1; x.forks += 1; p = x.new('heap', 'exception', 16); x.tags[('exc', p.obj)] = 'user'; x.ghost['ev'] += ('throw',); x.note('the task throws'); return (x, Throw(Exc(p, 'user')))
    def ev(n):
        def h(e, q, i, a, fn): q.note(n); r = [(q, None)]; t = thrown(q) if n == 'enter' else None; q.ghost['ev'] += ((n, a[0]) if n == 'run' else (n,)); return r + ([t] if t else [])
        return h
    C('=vc_enter', ev('enter')); C('=vc_run', ev('run'))
    def ready(e, q, i, a, fn): x = q.clone(); q.forks += 1; x.forks += 1; return [(q, 1), (x, 0)]
    C('=vc_ready', ready)
    def point(e, q, i, a, fn): q.ghost['parked'] = a[1]; q.note('the task suspends'); return None
    C('=vc_point', point)


def go(w, q, h):
    out = []
    for r, oc in resume_top(w.eng, q, h):
        if r.ghost['parked'] is not None: p = r.ghost['parked']; r.ghost['parked'] = None; out += [(x, o) for x, o in resume_top(w.eng, r, p)]
        else: out.append((r, oc))
    return out


def part_spawn_detached(ctx):
    w = W(ctx, 'spawn_detached', 'spawn'); e, st = w.eng, w.st; bodies(w); seen = set(); w.accepted = lambda q, h: h.obj in q.coros and q.ghost['ev'] == () and e.entails(q, boolterm(bv(q.ghost['#bal'], 64) >= 1))
    for q, oc in e.call(st, 'vc_p_spawn_detached', [w.p]):
        g = q.ghost; e.prove(q, oc[0] == 'ret' and eq(oc[1], g['handed'], 1), 'post/true-iff-queued', str(oc)); e.prove(q, g['ev'] == (), 'post/not-run-by-the-caller')
        if not g['handed']: seen.add('refused'); w.settled(q); e.prove(q, g['live'] == () and all(q.mem[o].dead is not None for o in q.coros), 'post/refused-task-is-freed', str([q.mem[o].name for o in q.coros if q.mem[o].dead is None])); e.prove(q, g['shut'], 'post/refused-for-a-reason'); continue
        w.settled(q, 1); w.woken(q); h = g['pushed']; w.revive(q); g['op'] = 'spawn'
        for y, oc in go(w, q, h): g = y.ghost; seen.add(g['ev'][-1] if isinstance(g['ev'][-1], str) else 'run'); w.settled(y); e.prove(y, g['live'] == () and all(y.mem[o].dead is not None for o in y.coros), 'post/task-is-freed'); e.prove(y, g['ev'] in (('enter', 'run', 1), ('throw',)), 'post/runs-once', str(g['ev']))
    e.prove(State(), len(seen) == 3, 'cover/all-outcomes', str(seen))


def schedules(f):
    """co_await pool.schedule() and the tasks built on it"""
    def part(ctx):
        w = W(ctx, {'on_pool': 'co_await schedule()', 'yields': 'co_await yield()', 'outer': 'co_await schedule(task)', 'outer_val': 'co_await schedule(task with result)'}[f], 'schedule'); e, st = w.eng, w.st; bodies(w); (st, oc), = e.call(st, 'vc_p_' + f, [w.p]); top = oc[1]; seen = set(); w.accepted = lambda q, h: h.obj in q.coros and not q.coros[h.obj].done and q.ghost['ev'] == ()
        for q, oc in resume_top(e, st, top):
            g = q.ghost; e.prove(q, g['ev'] == (), 'post/not-run-before-it-is-on-the-pool', str(g['ev']))
            if not g['handed']: seen.add('refused'); w.settled(q); e.prove(q, q.coros[top.obj].done and g['ev'] == () and g['shut'], 'post/refused-is-reported', 'the coroutine is neither queued nor told'); e.prove(q, len(g['live']) <= 0 or f in ('outer', 'outer_val'), 'post/nothing-leaked'); continue
            w.settled(q); w.woken(q); h = g['pushed']; w.revive(q); e.prove(q, not q.coros[top.obj].done, 'post/suspended'); g['handed'] = 0; w.accepted = w.accepted
            for y, oc in go(w, q, h):
                g = y.ghost; e.prove(y, g['handed'] == 0, 'post/queued-once'); e.prove(y, y.coros[top.obj].done, 'post/continues-to-its-end', str(g['ev'])); k = g['ev']; seen.add(k)
                e.prove(y, k in {'on_pool': [('run', 0)], 'yields': [('run', 0)], 'outer': [('enter', 'run', 1, 'run', 9), ('throw',)], 'outer_val': [('enter', 'run', 1, 'run', 9), ('throw',)]}[f], 'post/runs-exactly-once-and-returns-the-result', str(k))
        e.prove(State(), len(seen) == (2 if f in ('on_pool', 'yields') else 3), 'cover/all-outcomes', str(seen))
    part.__name__ = 'part_' + f
    return part


def part_spawn_joinable(ctx):
    w = W(ctx, 'spawn_joinable', 'spawn'); e, st = w.eng, w.st; bodies(w); C = e.contract_first; st.ghost.update(started=0, group=None, waits=None, gone=False); seen = set()
    def start(e, q, i, a, fn): g = q.ghost; h = e.load(q, a[1], 8, 'ptr')[0][1]; e.prove(q, isinstance(h, Ptr) and h.obj in q.coros and g['ev'] == (), 'spawn/starts-the-given-task'); g['started'] += 1; g['group'] = a[0].obj; x = q.clone(); q.forks += 1; x.forks += 1; return [(q, 1), (x, 0)]
    C('=coro::task_group::start', start)
    def gone(e, q, i, a, fn): e.prove(q, q.ghost['group'] == a[0].obj and not q.ghost['gone'], 'spawn/group-destroyed-once'); q.ghost['gone'] = True; return None
    C('=coro::task_group::~task_group', gone); C('=coro::event::event', lambda e, q, i, a, fn: None)
    def aready(e, q, i, a, fn): ev = e.load(q, Ptr(a[0].obj, add(a[0].off, w.off('aw_event'))), 8, 'ptr')[0][1]; g = q.ghost; e.prove(q, isinstance(ev, Ptr) and ev.obj == g['group'] and not g['gone'], 'spawn/joins-its-own-group', str(ev)); x = q.clone(); q.forks += 1; x.forks += 1; q.ghost['waits'] = 'ready'; return [(q, 1), (x, 0)]
    C('=coro::event::awaiter::await_ready', aready)
    def asusp(e, q, i, a, fn): q.ghost['waits'] = 'suspended'; q.ghost['parked'] = a[1]; return 1
    C('=coro::event::awaiter::await_suspend', asusp); out = st.new('fresh', 'join task', w.off('task'))
    for q, oc in e.call(st, 'vc_p_spawn_joinable', [w.p, out]):
        g = q.ghost; e.prove(q, oc[0] == 'ret' and g['started'] == 1 and not g['gone'], 'post/started-at-once', str(oc)); h = e.load(q, out, 8, 'ptr')[0][1]
        for y, oc in go(w, q, h): g = y.ghost; seen.add(g['waits']); e.prove(y, y.coros[h.obj].done and g['waits'] is not None, 'post/join-completes-after-the-group'); e.prove(y, g['started'] == 1, 'post/started-once')
    e.prove(State(), seen == {'ready', 'suspended'}, 'cover/all-outcomes', str(seen))


def part_make(ctx):
    w = W(ctx, 'make_unique', 'make'); e, st = w.eng, w.st; C = e.contract_first; o = st.new('fresh', 'options', 80); (st, oc), = e.call(st, 'vc_p_functors', [o, 0, 0]); n = BV('thread count', 32); st.w(o.obj).cells[0] = (4, n); out = st.new('fresh', 'result', 8); st.ghost.update(pool=None, ran=None); st.ghost['#threads'] = z3.BitVecVal(0, 32); k = 0
    C(lambda fn: fn.base == 'std::vector::reserve', lambda e, q, i, a, fn: None)
    def ctor(e, q, i, a, fn): q.ghost['pool'] = a[0].obj; return INLINE
    C('=coro::thread_pool::thread_pool', ctor)
    def thread(e, q, i, a, fn):
        g = q.ghost; e.prove(q, isinstance(a[0], Ptr) and a[0].obj == g['pool'] and a[0].off == w.off('p_threads'), 'make/threads-of-this-pool'); body = [f for f in w.mod.fn.values() if f.base.startswith('coro::thread_pool::make_unique::') and f.base.endswith('::operator()')]
        if len(body) != 1: raise Unsupported('the body of a pool thread')
        q.ghost['ran'] = None; outs = e.call(q, body[0].name, [a[1]]); r = []
        for x, oc in outs: e.prove(x, oc[0] == 'ret' and x.ghost['ran'] is not None and x.ghost['ran'][0] == g['pool'], 'make/each-thread-is-a-worker-of-this-pool', str(x.ghost['ran'])); e.prove(x, x.ghost['ran'] is not None and eq(x.ghost['ran'][1], z3.ZeroExt(32, x.ghost['#threads'])), 'make/worker-index', str(x.ghost['ran'])); x.ghost['#threads'] = x.ghost['#threads'] + 1; x.ghost['ran'] = None; r.append((x, a[0]))
        return r
    C(lambda fn: fn.base == 'std::vector::emplace_back' and 'std::thread' in fn.d, thread)
    def ran(e, q, i, a, fn): e.prove(q, q.ghost['ran'] is None, 'make/one-worker-per-thread'); q.ghost['ran'] = (a[0].obj, a[1]); return None
    C('=coro::thread_pool::executor', ran); st.cells.clear()
    for q, oc in e.call(st, 'vc_p_make', [out, o]): g = q.ghost; k += 1; e.prove(q, oc[0] == 'ret', 'post/returns', str(oc)); e.prove(q, g['#threads'] == n, 'post/the-requested-number-of-workers', f'{g["#threads"]} of {n}'); v = e.load(q, out, 8, 'ptr')[0][1]; e.prove(q, isinstance(v, Ptr) and v.obj == g['pool'], 'post/returns-the-pool'); e.prove(q, eq(e.load(q, Ptr(v.obj, w.off('p_size')), 8, 'i64')[0][1], 0) and eq(e.load(q, Ptr(v.obj, w.off('p_shut')), 1, 'i8')[0][1], 0, 8), 'post/starts-empty-and-open')
    e.prove(State(), k > 0, 'cover/ends')


PARTS = [part_resume, many('n'), many('s'), executor(0, 0), executor(1, 1), part_shutdown, part_queries, part_spawn_detached, part_spawn_joinable, part_make] + [schedules(f) for f in ('on_pool', 'yields', 'outer', 'outer_val')]
