"""C15: coro::scheduler -- accepted coroutines run exactly once, the event loop wakes up for them, shutdown completes."""
import z3
from vcgen.core import *
from vcgen.engine import *
from vcgen.proto import *
from vcgen.monitor import resume_top
from vcgen.tracked import Tracked
from specs.c13 import bodies, go
import specs.c14 as c14

NOTE = ('schedule(), yield(), schedule(task), resume(handle), resume(range), spawn_detached, spawn_joinable, process_scheduled_execute_inline, process_events_execute, process_events, the dedicated event loop, shutdown, the destructor, make_unique and the queries proved, inline and on a pool, '
        'against any number of threads doing anything else to the scheduler: the list of scheduled operations, its trigger, the number of tasks, the shutdown flag and the processing flag by rely-guarantee; lists and ranges of any length. thread_pool by its contract (C13), task_group by its (C17), the notifier by its (C16), the pipe by its contract: '
        'what is written can be read, and the notifier reports it. Assumed: std::thread, std::function, std::vector by contract. Not covered: shutdown called by a coroutine running on the scheduler itself; a manually driven scheduler that is destroyed before its user processed all its events.')
TUS = ['scheduler.cpp']
MAX = 1 << 60
FIN = 1 << 63


def z3util(f):
    out, todo, seen = [], [f], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.append(x)
        todo += x.children()
    return out


class Size(Cell):
    """m_size: the number of accepted tasks; its highest bit is set when the event loop ends, which it does only at zero"""
    size = 8; ty = 'i64'; name = 'size'
    def values(s, eng, st, e=None):
        g = st.ghost
        if g['fin'] is False and eng.entails(st, boolterm(bv(g['#acc'], 64) <= 0)): g['fin'] = None
        n = BV('tasks'); st.pc.append(z3.ULT(n, MAX)); st.pc.append(z3.UGE(n, bv(g['#bal'], 64))) if eng.entails(st, boolterm(bv(g['#bal'], 64) >= 0)) else None; out = []
        if g['fin'] is not True: q = st.clone() if g['fin'] is None else st; q.tags['open'] = True; out.append((q, n))
        if g['fin'] is not False: st.tags['open'] = False; st.ghost['fin'] = True; st.note('the event loop has ended'); out.append((st, norm(n + z3.BitVecVal(FIN, 64))))
        return out
    def observed(s, eng, st, v, ord): st.ghost['sizes'] = ((v, ord, st.ghost['pools']),); st.note(f'load size ({ord})')
    def transition(s, eng, st, old, new, ord, how):
        g = st.ghost; d = norm(bv(new, 64) - bv(old, 64)); was = st.tags['open']; eng.prove(st, how not in ('store', 'rmw-xchg'), 'size/lost-update', how + ' loses what others count')
        if eng.entails(st, boolterm(eq(d, FIN))):
            st.note('no task is left: the event loop ends'); eng.prove(st, was is True and eng.entails(st, boolterm(eq(old, 0))), 'loop/ends-only-without-tasks', 'accepted coroutines remain'); eng.prove(st, acq_ok(st, ord), 'loop/ends-after-the-last-task', f'{ord}: what the last task did may not be visible')
            eng.prove(st, g['op'] in ('loop', 'manual', 'shutdown') and g['shut'], 'loop/ends-only-after-shutdown'); eng.prove(st, not g['pool'] or g['poolzero'], 'loop/ends-only-without-tasks', 'the thread pool still has tasks, which can wait for events next'); g['fin'] = True; g['ended'] = True; return [st]
        st.note(f'{how} size by {d} ({ord})'); out = []
        for q, up in eng.split(st, norm(bv(d, 64) >= 0)):
            g = q.ghost
            if up: 
                if was: g['#acc'] = norm(bv(g['#acc'], 64) + bv(d, 64)); g['fin'] = False
            else:
                eng.prove(q, rel_ok(q, ord), 'size/completion-is-published', ord); eng.prove(q, bv(g['#bal'], 64) + bv(d, 64) >= 0, 'size/counted-down-once', 'a task that is not counted is counted down')
                if was: g['#acc'] = norm(bv(g['#acc'], 64) + bv(d, 64))
            g['#bal'] = norm(bv(g['#bal'], 64) + bv(d, 64)); out.append(q)
        return out


class Shut(Cell):
    size = 1; ty = 'i8'; name = 'shutdown flag'
    def values(s, eng, st, e=None):
        if st.ghost['shut']: return [(st, 1)]
        q = st.clone(); return [(q, 1), (st, 0)]
    def observed(s, eng, st, v, ord):
        st.note(f'shutdown flag {v}')
        if v: st.ghost['shut'] = True
    def transition(s, eng, st, old, new, ord, how):
        eng.prove(st, st.ghost['op'] == 'shutdown' and eng.entails(st, boolterm(eq(new, 1, 8))), 'shutdown/flag-only-set-by-shutdown', f'{how} {old} -> {new}'); eng.prove(st, how != 'store', 'shutdown/once', 'two calls can both believe to be the first')
        if eq(old, 0, 8) is True: st.ghost['mine'] = True
        st.ghost['shut'] = True; st.note('shutdown requested'); return [st]


class Trigger(Cell):
    """set: somebody wrote, or is about to write, to the pipe, and the event loop will look at the list after it reset this"""
    size = 1; ty = 'i8'; name = 'trigger'
    def values(s, eng, st, e=None):
        if st.ghost['op'] == 'scheduled': v = BV('triggered', 8); st.pc.append(z3.ULE(v, 1)); return [(st, v)]
        q = st.clone(); return [(q, 1), (st, 0)]
    def observed(s, eng, st, v, ord): st.note(f'trigger {v} ({ord})')
    def transition(s, eng, st, old, new, ord, how):
        g = st.ghost; st.note(f'{how} trigger {old} -> {new} ({ord})')
        if eng.entails(st, boolterm(eq(new, 0, 8))):
            eng.prove(st, g['op'] == 'scheduled', 'wakeup/reset-only-by-the-event-loop'); eng.prove(st, g['reads'] > 0, 'wakeup/pipe-is-read-before-the-trigger-is-reset', 'the wakeup of a later producer is read away, the trigger stays set and nobody wakes the event loop again'); eng.prove(st, how != 'store' and acq_ok(st, ord), 'wakeup/reset-sees-what-was-pushed', f'{how} {ord}: a producer that found the trigger set does not wake the event loop, its coroutine may not be seen'); g['reset'] = True; return [st]
        eng.prove(st, g['op'] != 'scheduled', 'wakeup/reset-only-by-the-event-loop')
        if g['pushed'] is None: eng.fail(st, 'wakeup/triggered-after-the-push', 'the event loop can handle the trigger before the coroutine is in the list'); return [st]
        eng.prove(st, how != 'store' and rel_ok(st, ord), 'wakeup/trigger-publishes-the-push', f'{how} {ord}'); g['trig'] = 'must write' if eq(old, 0, 8) is True else 'others wrote'; return [st]


class Processing(Cell):
    size = 1; ty = 'i8'; name = 'processing flag'
    def values(s, eng, st, e=None):
        if st.ghost['processing']: return [(st, 1)]
        q = st.clone(); return [(q, 1), (st, 0)]
    def observed(s, eng, st, v, ord): pass
    def transition(s, eng, st, old, new, ord, how):
        g = st.ghost; st.note(f'{how} processing {old} -> {new}')
        if eng.entails(st, boolterm(eq(new, 0, 8))): eng.prove(st, g['processing'], 'loop/one-at-a-time', 'ends the processing of another thread'); eng.prove(st, rel_ok(st, ord), 'loop/hand-over', ord); g['processing'] = False; return [st]
        if g['processing']: return [st]
        eng.prove(st, how != 'store' and eq(old, 0, 8) is True, 'loop/one-at-a-time', 'another thread may be processing events'); eng.prove(st, acq_ok(st, ord), 'loop/hand-over', f'{ord}: what the thread that processed events before left is not visible'); g['processing'] = True; return [st]


class Ops(Cell):
    """m_scheduled_ops"""
    name = 'scheduled operations'
    def __init__(s, w): s.w = w
    def values(s, eng, st, e=None):
        out = [(st.clone(), 0)]; q = st.clone(); c = s.w.nodes.chain(q, 'op', False); out.append((q, s.w.nodes.head(q, c)))
        if isinstance(e, Ptr) and isinstance(e.obj, NodeRef): out.append((st, e))
        return out
    def observed(s, eng, st, v, ord):
        g = st.ghost
        if g['op'] == 'scheduled' and v == 0: g['looked'] = g['reset']; st.note('nothing scheduled')
    def transition(s, eng, st, old, new, ord, how):
        g = st.ghost; w = s.w; P = lambda c, k, d='': eng.prove(st, c, 'ops/' + k, d); st.note(f'{how} scheduled operations {old} -> {new} ({ord})')
        if how == 'store': P(False, 'unsynchronised-write', 'a plain store can drop an operation pushed in between'); return [st]
        if isinstance(new, int) and new == 0:
            P(g['op'] == 'scheduled', 'taken-by-the-event-loop'); P(g['chain'] is None, 'taken-once'); P(acq_ok(st, ord), 'taken-with-acquire', ord); g['looked'] = g['reset']
            if isinstance(old, Ptr): c = st.chains[old.obj.chain]; st.chains[c.id] = c.upd(lo=0, hi=c.n, excl=True); g['chain'] = c.id
            return [st]
        if not P(isinstance(new, Ptr) and not isinstance(new.obj, NodeRef), 'illegal-transition', f'{old} -> {new}'): return []
        o = new.obj; f = lambda n, z: eng.load(st, Ptr(o, add(new.off, w.off(n))), z, 'ptr' if z == 8 else 'i8')[0][1]
        P(rel_ok(st, ord), 'pushed-with-release', ord); h = f('op_handle', 8); eng.prove(st, w.accepted is not None and isinstance(h, Ptr) and w.accepted(st, h), 'accept/exactly-the-given-coroutine', str(h)); eng.prove(st, g['pushed'] is None, 'accept/pushed-once')
        nx = f('op_next', 8); P(eng.ptr_eq(st, nx, old), 'linked', 'the operations pushed before are dropped')
        heap = st.mem[o].kind == 'heap' and o not in st.coros and not any(o in fr.allocas for fr in st.frames); P(eng.entails(st, boolterm(eq(f('op_alloc', 1), int(heap), 8))), 'freed-iff-allocated', f'allocated: {heap}')
        eng.prove(st, And(bv(g['#bal'], 64) >= g['count'], g['fin'] is False), 'accept/counted-while-the-event-loop-runs', 'the event loop may have ended: nobody resumes the coroutine'); g['pushed'] = h; g['pool?'] = False
        st.w(o).dead = 'pushed: the event loop may already have resumed the coroutine and destroyed the operation'
        if not heap: st.tags['revive'] = st.tags.get('revive', ()) + (o,)
        w.gone(st, h); return [st]


class SW(c14.W):
    def __init__(s, ctx, name, op, pool=False, bodies_=False):
        super().__init__(ctx, name); e, st, off = s.eng, s.st, s.off; C = e.contract_first; s.nodes = Nodes(e); s.accepted = None; s.pool = pool; s.tr = Tracked(e, copy_throws=False); s.tr.init(st); s.settle = lambda q: None
        s.nodes.kind(NodeKind('op', off('op_next'), off('op_handle'), body=s.body))
        st.ghost.update(op=op, fin=None, shut=False, mine=False, sizes=(), pools=(), pool=bool(pool), poolzero=False, ended=False, reads=0, reset=False, pushed=None, trig=None, wrote=False, chain=None, looked=False, processing=False, again=None, count=1, errno=None)
        st.ghost.update({'#bal': 0, '#acc': 0, 'pool?': None}); c = st.w(s.s.obj).cells; c[off('s_strategy')] = (4, off('onpool' if pool else 'inl')); c[off('s_threads')] = (4, off('spawned')); s.pl = st.new('opaque', 'pool', 4096); c[off('s_pool')] = (8, s.pl if pool else 0)
        for n, k in (('size', Size()), ('shut', Shut()), ('triggered', Trigger()), ('processing', Processing()), ('ops', Ops(s))): st.cells[(s.s.obj, off('s_' + n))] = k
        C('=coro::thread_pool::resume', s.pool_resume); C('=coro::thread_pool::size', s.pool_size); C('=coro::thread_pool::empty', lambda e, q, i, a, fn: [(x, int(b)) for x, v in s.pool_size(e, q, i, a, fn) for x, b in e.split(x, norm(eq(v, 0)))])
        C('=coro::thread_pool::shutdown', s.pool_shutdown); C('=coro::detail::pipe_t::write', s.write); C('=coro::detail::pipe_t::read', s.read); C('=coro::detail::pipe_t::read_fd', s.rfd); C('=coro::detail::pipe_t::close', s.close)
        er = st.new('fresh', 'errno', 4); st.w(er.obj).cells[0] = (4, 0); s.er = er; C('=__errno_location', lambda e, q, i, a, fn: er); C('=strerror', lambda e, q, i, a, fn: q.new('opaque', 'strerror'))
        e.hooks['resume'] = s.resume; e.hooks['done'] = s.done
        if bodies_: bodies(s)

    def body(s, e, st, chain, idx):
        o = st.new('fresh', 'scheduled operation', s.off('op')); al = BV('allocated', 8); st.pc.append(z3.ULE(al, 1)); st.w(o.obj).cells[s.off('op_alloc')] = (1, al); return o.obj

    # ---- the pool (C13): accepted work is resumed exactly once by one of its threads
    def ours(s, q, p): return s.eng.prove(q, s.pool and isinstance(p, Ptr) and p.obj == s.pl.obj, 'call/its-pool', str(p))
    def pool_resume(s, e, q, i, a, fn):
        if not s.ours(q, a[0]): return []
        h = a[1]; g = q.ghost; e.prove(q, g['pushed'] is None, 'accept/pushed-once'); e.prove(q, s.accepted is not None and isinstance(h, Ptr) and s.accepted(q, h), 'accept/exactly-the-given-coroutine', str(h)); x = q.clone(); q.forks += 1; x.forks += 1; x.ghost['refused'] = True; x.note('the pool is shut down'); g['pushed'] = h; g['pool?'] = True; q.note('the pool accepts it'); s.gone(q, h); return [(q, 1), (x, 0)]
    def pool_size(s, e, q, i, a, fn):
        if not s.ours(q, a[0]): return []
        v = BV('pool tasks'); q.pc.append(z3.ULT(v, MAX)); out = []
        for x, z in e.split(q, norm(eq(v, 0))): x.ghost['pools'] = (v,); x.ghost['poolzero'] = bool(z); out.append((x, v))
        return out
    def pool_shutdown(s, e, q, i, a, fn):
        if not s.ours(q, a[0]): return []
        g = q.ghost; e.prove(q, g['op'] == 'shutdown' and g['mine'], 'shutdown/pool-by-the-first-call'); e.prove(q, g['joined'], 'shutdown/pool-after-the-event-loop', 'tasks that wait for events can no longer be run on it'); g['poolshut'] = True; return None

    # ---- the pipes
    def which(s, p): return 'shutdown' if s.me(p, 'shutpipe') else 'schedule' if s.me(p, 'schedpipe') else None
    def write(s, e, q, i, a, fn):
        g = q.ghost; k = s.which(a[0]); e.prove(q, k is not None and isinstance(a[2], int) and a[2] > 0, 'call/its-pipe', str(a[0])); q.note(f'writes to the {k} pipe')
        if k == 'schedule': e.prove(q, g['trig'] == 'must write', 'wakeup/written-by-who-set-the-trigger', str(g['trig'])); g['wrote'] = True
        else: e.prove(q, g['op'] == 'shutdown' and g['mine'], 'shutdown/wakes-the-event-loop-once'); g['woken'] = True
        r = BV('written'); q.pc.append(z3.Or(r == a[2], r == -1)); return r
    def read(s, e, q, i, a, fn):
        g = q.ghost; e.prove(q, s.which(a[0]) == 'schedule' and g['op'] == 'scheduled', 'call/its-pipe'); e.prove(q, isinstance(a[2], int) and a[2] > 0, 'wakeup/reads-something'); e.chk_ptr(q, a[1], a[2], True); e.prove(q, not g['reset'], 'wakeup/pipe-is-read-before-the-trigger-is-reset', 'the wakeup of a later producer is read away')
        e.prove(q, g['again'] is not True, 'wakeup/reading-ends', 'the pipe is empty and read again, forever'); g['reads'] = 1; out = []
        for k in ('full', 'part', 'eagain', 'error'):
            x = q.clone(); x.forks += 1; n = {'full': a[2], 'part': BV('read'), 'eagain': norm(M64), 'error': norm(M64)}[k]
            if k == 'part': x.pc.append(z3.ULT(n, a[2]))
            x.ghost['again'] = k == 'eagain'; er = BV('errno', 32); x.pc.append((er != 11) if k == 'error' else (er == 11)); x.w(s.er.obj).cells[0] = (4, 11 if k == 'eagain' else er); x.note(f'read: {k}'); out.append((x, n))
        return out
    def rfd(s, e, q, i, a, fn): p = q.new('fresh', 'descriptor', 4); q.w(p.obj).cells[0] = (4, 1000 if s.which(a[0]) == 'schedule' else 1001); return p
    def close(s, e, q, i, a, fn): k = s.which(a[0]); g = q.ghost; e.prove(q, g['op'] == 'shutdown' and g['joined'] and k is not None, 'shutdown/pipes-closed-after-the-event-loop'); g['closed'] = tuple(sorted(set(g['closed'] + (k,)))); return None

    # ---- coroutines
    def resume(s, e, q, h):
        if h.obj in q.coros: return INLINE
        e.fail(q, 'accept/not-run-by-the-caller', str(h)); return [q]
    def done(s, e, q, h):
        if h.obj in q.coros:
            if q.mem[h.obj].dead is None: return INLINE
            e.fail(q, 'memory/use-after-lifetime', q.mem[h.obj].dead); return []
        if q.mem[h.obj].dead: e.fail(q, 'memory/use-after-lifetime', q.mem[h.obj].name + ' (' + q.mem[h.obj].dead + ')'); return []
        t = q.tags.get(('done', h.obj))
        if t is not None: return t
        x = q.clone(); q.forks += 1; x.forks += 1; q.tags[('done', h.obj)] = 0; x.tags[('done', h.obj)] = 1; x.note('the handle is done'); return [(q, 0), (x, 1)]
    def gone(s, q, h):
        if not isinstance(h, Ptr): return
        if h.obj not in q.coros: q.w(h.obj).dead = 'accepted: it may already have run'; return
        for o in [h.obj] + [o for fr in q.frames if fr.coro == h.obj for o in fr.allocas]:
            if q.mem[o].dead is None: q.w(o).dead = 'accepted: another thread may already have resumed and destroyed it'; q.tags['revive'] = q.tags.get('revive', ()) + (o,)
    def revive(s, q):
        for o in q.tags.get('revive', ()): q.w(o).dead = None
        q.tags['revive'] = ()

    def handed(s, q, bal=None):
        """post: the coroutine was accepted"""
        g, e = q.ghost, s.eng
        e.prove(q, g['pool?'] == bool(s.pool), 'post/on-the-event-loop-or-pool-as-configured', str(g['pool?']))
        if not s.pool: e.prove(q, g['trig'] == 'others wrote' or g['trig'] == 'must write' and g['wrote'], 'post/event-loop-is-woken', f'trigger: {g["trig"]}, written: {g["wrote"]}: the coroutine stays in the list')
        e.prove(q, eq(g['#bal'], bal if bal is not None else int(not s.pool)), 'post/counted-exactly', str(g['#bal']))
    def refused(s, q):
        g, e = q.ghost, s.eng; e.prove(q, g['pushed'] is None, 'post/refused-is-not-pushed'); e.prove(q, eq(g['#bal'], 0), 'post/refused-is-not-counted', f'{g["#bal"]}: the event loop never ends'); e.prove(q, g['shut'] or g['fin'] is True or q.ghost.get('refused'), 'post/refused-for-a-reason')


def resumes(pool):
    def part(ctx):
        w = SW(ctx, 'resume(handle)' + ' on a pool' * pool, 'resume', pool); e = w.eng; h = w.st.new('opaque', 'given coroutine', 64); w.accepted = lambda q, x: x.obj == h.obj and q.tags.get(('done', h.obj)) == 0; seen = set()
        for q, oc in e.call(w.st, 'vc_s_resume', [w.s, h]):
            g = q.ghost; ok = oc[0] == 'ret' and isinstance(oc[1], int); e.prove(q, ok and (oc[1] & 1) == (g['pushed'] is not None), 'post/true-iff-accepted', f'{oc}, accepted {g["pushed"]}'); live = [o.name for o in q.mem.values() if o.kind == 'heap' and o.dead is None]
            e.prove(q, not live, 'post/nothing-leaked', str(live))
            if g['pushed'] is not None: seen.add('accepted'); w.handed(q)
            elif q.tags.get(('done', h.obj)) == 1: seen.add('done'); e.prove(q, eq(g['#bal'], 0), 'post/refused-is-not-counted')
            else: seen.add('refused'); w.refused(q)
        e.prove(State(), seen == {'accepted', 'refused', 'done'}, 'cover/all-outcomes', str(seen))
        w = SW(ctx, 'resume(null)', 'resume', pool); e = w.eng
        for q, oc in e.call(w.st, 'vc_s_resume', [w.s, 0]): e.prove(q, oc[0] == 'ret' and eq(oc[1], 0, 1), 'post/null-is-refused'); e.prove(q, q.ghost['pushed'] is None and eq(q.ghost['#bal'], 0), 'post/null-is-not-accepted')
    part.__name__ = 'part_resume' + '_pool' * pool
    return part


def part_resume_many(ctx):
    w = SW(ctx, 'resume(any number of handles)', 'resume'); e, st = w.eng, w.st; arr = st.new('heap', 'handles'); n = BV('handles'); st.pc.append(z3.ULT(n, 1 << 40)); inp = st.new('fresh', 'range', 24); c = st.w(inp.obj).cells; c[0] = (8, Ptr(arr.obj, 0)); c[8] = c[16] = (8, Ptr(arr.obj, mul(n, 8))); st.ghost.update(pending=False); st.ghost.update({'#visited': 0, '#taken': 0}); k = 0
    def element(e2, q, o, off, size, t, v, write):
        if write: raise Unsupported('the handles are written')
        cur = q.tags.get('cur')
        if cur is not None and e.entails(q, eq(cur[0], off)): return [(q, cur[1])]
        e.prove(q, eq(off, q.ghost['#visited']), 'accept/every-handle-in-turn', f'{off}'); e.prove(q, z3.ULT(bv(off, 64), bv(mul(n, 8), 64)), 'memory/out-of-bounds'); e.prove(q, not q.ghost['pending'], 'accept/every-handle', 'not handed over'); h = q.new('opaque', 'given coroutine', 64); q.ghost['#visited'] = add(q.ghost['#visited'], 8); x = q.clone(); q.forks += 1; x.forks += 1; x.tags['cur'] = (off, 0); x.note('null'); q.tags['cur'] = (off, h); q.ghost['pending'] = True; return [(q, h), (x, 0)]
    o = st.w(arr.obj); o.arrays['layout'] = (8, [(0, 8, 'ptr')]); o.arrays['handler'] = lambda e2, s2, o2, off2, z, t, v, wr: element(e2, s2, o2, off2, z, t, v, wr); o.schema = lambda e2, s2, o2, off2, z, t: None; o.guard = lambda e2, s2, o2, off2, z, wr, v: element(e2, s2, o2, off2, z, 'ptr', v, wr) if isinstance(off2, int) else None
    def cands(e2, D, S, pairs):
        new = [nv for a, b, wd, nv, _ in pairs if wd == 64]; old = {}     # what this iteration left alone is kept as it was
        for f in D.pc[-40:]:
            for x in z3util(f):
                if z3.is_bv(x) and x.size() == 64: old[x.get_id()] = x
        al = new + list(old.values()); out = [x & 7 == 0 for x in new] + [z3.ULE(x, 1 << 43) for x in new]
        for v in new:
            for x in al:
                if x is v: continue
                out += [x * 8 == v]
                for y in al:
                    if y is not v and x.get_id() < y.get_id(): out += [(x + y) * 8 == v, z3.And(z3.ULE(x, 1 << 41), z3.ULE(y, 1 << 41))]
        return out
    def one(e, q, i, a, fn):
        if 'vector' in fn.d or 'span' in fn.d: return INLINE
        cur = q.tags.get('cur')
        if isinstance(a[1], int) and a[1] == 0: return 0
        if not e.prove(q, cur is not None and isinstance(cur[1], Ptr) and isinstance(a[1], Ptr) and a[1].obj == cur[1].obj and q.ghost['pending'], 'accept/each-handle-once', str(a[1])): return []
        q.ghost['pending'] = False; x = q.clone(); q.forks += 1; x.forks += 1; q.ghost['#taken'] = add(q.ghost['#taken'], 1); return [(q, 1), (x, 0)]
    e.contract_first('=coro::scheduler::resume', one); e.hooks['loop_cands'] = cands
    for q, oc in e.call(st, 'vc_s_resume_n', [w.s, inp]): k += 1; g = q.ghost; e.prove(q, oc[0] == 'ret' and eq(oc[1], g['#taken']), 'post/reports-the-number-accepted', f'{oc}, accepted {g["#taken"]}'); e.prove(q, eq(g['#visited'], mul(n, 8)) and not g['pending'], 'post/every-handle-is-handed-over', f'{g["#visited"]} of 8*{n}')
    e.prove(State(), k > 0, 'cover/ends')


def part_scheduled(ctx):
    w = SW(ctx, 'process_scheduled_execute_inline', 'scheduled'); e, st, off = w.eng, w.st, w.off; st.ghost['processing'] = True; seen = set(); C = e.contract_first
    def settle(q):
        """the operation that is being processed: handed on once, and freed iff it was allocated?"""
        c = q.tags.get('cur')
        if c is None: return
        p = c['p']; bo = w.nodes.body_of(q, p); al = q.mem[bo].cells[off('op_alloc')][1] if bo is not None else None
        if c['freed']: ok = True
        elif al is None: return
        else: ok = e.entails(q, boolterm(eq(al, 0, 8)))
        if ok: q.tags['cur'] = None; w.nodes.consume(q, p, 'collect')
    w.settle = settle
    def append(e, q, i, a, fn):
        if not w.me(a[0], 'handles'): return INLINE
        h = e.load(q, a[1], 8, 'ptr')[0][1]; settle(q); c = q.tags.get('cur')
        if not e.prove(q, isinstance(h, Ptr) and isinstance(h.obj, NodeRef) and h.obj.sub == '.handle', 'post/collects-scheduled-coroutines', str(h)): return []
        if q.tags.get('owed') is not None: ch, ix = q.tags['owed']; q.tags['owed'] = None; e.prove(q, h.obj.chain == ch and e.entails(q, boolterm(eq(h.obj.idx, ix))), 'ops/collected-once', 'freed without being collected'); return UNDEF
        e.prove(q, c is None, 'post/each-operation-is-settled', 'an allocated operation is not freed, or is collected twice'); p = Ptr(NodeRef(h.obj.chain, h.obj.idx), 0); w.nodes.may_access(q, p, 'collect'); w.nodes.body(e, q, Ptr(p.obj, off('op_alloc'))); q.tags['cur'] = dict(p=p, freed=False); q.note(f'collects {h}'); return UNDEF
    C(lambda fn: fn.base in ('std::vector::emplace_back', 'std::vector::push_back'), append)
    def dele(e, q, i, a, fn):
        p = a[0]
        if not (isinstance(p, Ptr) and isinstance(p.obj, NodeRef)): return INLINE
        c = q.tags.get('cur')
        if c is None:                                # its handle was read before: freed first, collected next
            e.prove(q, q.tags.get('owed') is None, 'ops/collected-once', 'freed without being collected'); w.nodes.may_access(q, p, 'free'); al = w.nodes.body(e, q, Ptr(p.obj, off('op_alloc'))); bo = w.nodes.body_of(q, p); e.prove(q, eq(q.mem[bo].cells[off('op_alloc')][1], 1, 8), 'ops/only-allocated-ones-are-freed', 'part of a suspended coroutine is freed'); w.nodes.consume(q, p, 'collect'); q.tags['owed'] = (p.obj.chain, p.obj.idx); q.note('frees it'); return None
        if not e.prove(q, c is not None and c['p'].obj.chain == p.obj.chain and e.entails(q, boolterm(eq(c['p'].obj.idx, p.obj.idx))) and not c['freed'], 'ops/freed-once-after-it-is-collected', str(p)): return []
        bo = w.nodes.body_of(q, c['p']); al = q.mem[bo].cells[off('op_alloc')][1]; e.prove(q, eq(al, 1, 8), 'ops/only-allocated-ones-are-freed', 'part of a suspended coroutine is freed'); q.tags['cur'] = dict(c, freed=True); q.note('frees it'); settle(q); return None
    C(lambda fn: fn.base == 'operator delete', dele); e.hooks['loop_arrive'] = lambda e2, q, f, h: settle(q) and None
    for q, oc in e.call(st, 'vc_s_scheduled', [w.s]):
        settle(q); g = q.ghost; e.prove(q, oc[0] == 'ret', 'post/returns', str(oc)); e.prove(q, g['looked'] is True, 'post/list-taken-after-the-trigger-is-reset', 'a coroutine pushed in between finds the trigger set and stays in the list'); e.prove(q, q.tags.get('cur') is None and q.tags.get('owed') is None, 'post/each-operation-is-settled', 'an allocated operation is not freed, or not collected'); seen.add(g['chain'] is not None)
        if g['chain']: c = q.chains[g['chain']]; e.prove(q, eq(c.lo, c.hi), 'post/every-scheduled-coroutine-is-collected', f'left [{c.lo},{c.hi})')
        e.prove(q, eq(g['#bal'], 0), 'post/still-counted', 'they are counted until they were resumed')
    e.prove(State(), seen == {True, False}, 'cover/all-outcomes', str(seen))


def schedules(f, pool):
    def part(ctx):
        w = SW(ctx, {'on': 'co_await schedule()', 'yields': 'co_await yield()', 'outer': 'co_await schedule(task)', 'outer_val': 'co_await schedule(task with result)'}[f] + ' on a pool' * pool, 'schedule', pool, True); e, st = w.eng, w.st; (st, oc), = e.call(st, 'vc_s_' + f, [w.s]); top = oc[1]; seen = set(); w.accepted = lambda q, h: h.obj in q.coros and not q.coros[h.obj].done and q.ghost['ev'] == ()
        for q, oc in resume_top(e, st, top):
            g = q.ghost; e.prove(q, g['ev'] == (), 'post/not-run-before-it-is-accepted', str(g['ev']))
            if g['pushed'] is None: seen.add('refused'); w.refused(q); e.prove(q, q.coros[top.obj].done and g['ev'] == (), 'post/refused-is-reported', 'the coroutine is neither accepted nor told: it is suspended forever'); continue
            w.handed(q); h = g['pushed']; w.revive(q); e.prove(q, not q.coros[top.obj].done, 'post/suspended')
            for y, oc in go(w, q, h):
                e.prove(y, y.coros[top.obj].done, 'post/continues-to-its-end', str(y.ghost['ev'])); k = y.ghost['ev']; seen.add(k); e.prove(y, k in {'on': [('run', 0)], 'yields': [('run', 0)]}.get(f, [('enter', 'run', 1, 'run', 9), ('throw',)]), 'post/runs-exactly-once-and-returns-the-result', str(k))
        e.prove(State(), len(seen) == (2 if f in ('on', 'yields') else 3), 'cover/all-outcomes', str(seen))
    part.__name__ = f'part_{f}' + '_pool' * pool
    return part


def spawn_detached(pool):
    def part(ctx):
        w = SW(ctx, 'spawn_detached' + ' on a pool' * pool, 'spawn', pool, True); e, st = w.eng, w.st; seen = set(); st.ghost['count'] = 2; w.accepted = lambda q, h: h.obj in q.coros and q.ghost['ev'] == () and e.entails(q, boolterm(bv(q.ghost['#bal'], 64) >= 1))
        for q, oc in e.call(st, 'vc_s_spawn_detached', [w.s]):
            g = q.ghost; e.prove(q, oc[0] == 'ret' and eq(oc[1], int(g['pushed'] is not None), 1), 'post/true-iff-accepted', str(oc)); e.prove(q, g['ev'] == (), 'post/not-run-by-the-caller')
            if g['pushed'] is None: seen.add('refused'); w.refused(q); e.prove(q, g['live'] == () and all(q.mem[o].dead is not None for o in q.coros), 'post/refused-task-is-freed', str([q.mem[o].name for o in q.coros if q.mem[o].dead is None])); continue
            w.handed(q, 1 + (not pool)); h = g['pushed']; w.revive(q)
            for y, oc in go(w, q, h): g = y.ghost; seen.add(g['ev'][-1] if isinstance(g['ev'][-1], str) else 'run'); e.prove(y, eq(g['#bal'], int(not pool)), 'post/counted-until-it-ended', str(g['#bal'])); e.prove(y, g['live'] == () and all(y.mem[o].dead is not None for o in y.coros), 'post/task-is-freed'); e.prove(y, g['ev'] in (('enter', 'run', 1), ('throw',)), 'post/runs-once', str(g['ev']))
        e.prove(State(), len(seen) == 3, 'cover/all-outcomes', str(seen))
    part.__name__ = 'part_spawn_detached' + '_pool' * pool
    return part


def part_spawn_joinable(ctx):
    w = SW(ctx, 'spawn_joinable', 'spawn', False, True); e, st = w.eng, w.st; C = e.contract_first; st.ghost.update(started=0, group=None, waits=None, gone=False); seen = set()
    def start(e, q, i, a, fn): g = q.ghost; h = e.load(q, a[1], 8, 'ptr')[0][1]; e.prove(q, isinstance(h, Ptr) and h.obj in q.coros and g['ev'] == (), 'spawn/starts-the-given-task'); g['started'] += 1; g['group'] = a[0].obj; x = q.clone(); q.forks += 1; x.forks += 1; return [(q, 1), (x, 0)]
    C('=coro::task_group::start', start)
    def gone(e, q, i, a, fn): e.prove(q, q.ghost['group'] == a[0].obj and not q.ghost['gone'], 'spawn/group-destroyed-once'); q.ghost['gone'] = True; return None
    C('=coro::task_group::~task_group', gone); C('=coro::event::event', lambda e, q, i, a, fn: None)
    def asusp(e, q, i, a, fn): q.ghost['waits'] = 'suspended'; q.ghost['parked'] = a[1]; return 1
    def aready(e, q, i, a, fn): g = q.ghost; e.prove(q, not g['gone'] and g['started'] == 1, 'spawn/joins-its-own-group'); x = q.clone(); q.forks += 1; x.forks += 1; q.ghost['waits'] = 'ready'; return [(q, 1), (x, 0)]
    C('=coro::event::awaiter::await_ready', aready); C('=coro::event::awaiter::await_suspend', asusp); out = st.new('fresh', 'join task', w.off('task'))
    for q, oc in e.call(st, 'vc_s_spawn_joinable', [w.s, out]):
        g = q.ghost; e.prove(q, oc[0] == 'ret' and g['started'] == 1 and not g['gone'], 'post/started-at-once', str(oc)); h = e.load(q, out, 8, 'ptr')[0][1]
        for y, oc in go(w, q, h): g = y.ghost; seen.add(g['waits']); e.prove(y, y.coros[h.obj].done and g['waits'] is not None, 'post/join-completes-after-the-group'); e.prove(y, g['started'] == 1, 'post/started-once')
    e.prove(State(), seen == {'ready', 'suspended'}, 'cover/all-outcomes', str(seen))


def loop(pool, fun):
    def part(ctx):
        w = SW(ctx, 'dedicated event loop' + ' with pool' * pool + ', functors' * fun, 'loop', pool); e, st = w.eng, w.st; C = e.contract_first; (st, oc), = e.call(st, 'vc_s_functors', [w.at('opts'), fun, fun]); c = st.w(w.s.obj).cells; c[w.off('s_strategy')] = (4, w.off('onpool' if pool else 'inl')); c[w.off('s_pool')] = (8, w.pl if pool else 0); st.ghost.update(fun=(), processing=True); k = 0
        def ev(n):
            def h(e, q, i, a, fn): g = q.ghost; e.prove(q, g['fun'] == (() if n == 'start' else ('start',)), 'loop/functors-once', str(g['fun'])); e.prove(q, n == 'start' or g['ended'], 'loop/stop-functor-at-the-end'); g['fun'] += (n,); return None
            return h
        C('=vc_started', ev('start')); C('=vc_stopped', ev('stop'))
        def ex(e, q, i, a, fn): g = q.ghost; e.prove(q, a[0].obj == w.s.obj and g['processing'] and not g['ended'], 'loop/one-at-a-time'); e.prove(q, eq(a[1], 0) is not True, 'loop/waits-for-events', 'it spins'); g['poolzero'] = False; return None
        C('=coro::scheduler::process_events_execute', ex)
        for q, oc in e.call(st, 'vc_s_loop', [w.s]): k += 1; g = q.ghost; e.prove(q, oc[0] == 'ret' and g['ended'], 'post/ends-only-when-shut-down-and-without-tasks', 'accepted coroutines may remain, or can still be accepted: nobody resumes them'); e.prove(q, not g['processing'], 'post/processing-ended'); e.prove(q, g['fun'] == ('start', 'stop') * fun, 'post/functors-called', str(g['fun']))
        e.prove(State(), k > 0, 'cover/ends')
    part.__name__ = f'part_loop_{int(pool)}{int(fun)}'
    return part


def part_manual(ctx):
    w = SW(ctx, 'process_events', 'manual'); e, st = w.eng, w.st; t = BV('timeout'); st.ghost['ran'] = 0; seen = set(); w.st.w(w.s.obj).cells[w.off('s_threads')] = (4, w.off('manual'))
    def ex(e, q, i, a, fn): g = q.ghost; e.prove(q, a[0].obj == w.s.obj and g['processing'], 'loop/one-at-a-time', 'another thread may be processing events: coroutines are resumed twice'); e.prove(q, eq(a[1] if not isinstance(a[1], Ptr) else e.load(q, a[1], 8, 'i64')[0][1], t), 'call/timeout'); g['ran'] += 1; return None
    e.contract_first('=coro::scheduler::process_events_execute', ex)
    for q, oc in e.call(st, 'vc_s_manual', [w.s, t]): g = q.ghost; seen.add(g['ran']); e.prove(q, oc[0] == 'ret' and not g['processing'] and g['ran'] <= 1, 'post/processing-ended', str(oc)); z = g['sizes']; e.prove(q, bool(z) and eq(oc[1], z[-1][0] & ~z3.BitVecVal(FIN, 64)), 'post/returns-the-number-of-tasks', str(oc))
    e.prove(State(), seen == {0, 1}, 'cover/all-outcomes', str(seen))


def shutdown(f, pool):
    def part(ctx):
        w = SW(ctx, f + ' with pool' * pool, 'shutdown', pool); e, st = w.eng, w.st; C = e.contract_first; seen = set(); st.ghost.update(joined=False, woken=False, poolshut=False, closed=(), joins=0)
        def joinable(e, q, i, a, fn):
            g = q.ghost; e.prove(q, w.me(a[0], 'thread'), 'call/its-thread')
            if g['joined']: return 0
            x = q.clone(); q.forks += 1; x.forks += 1; x.ghost['joined'] = True; x.note('there is no event loop thread, or it was joined'); q.tags['joinable'] = True; return [(q, 1), (x, 0)]
        C('=std::thread::joinable', joinable)
        def join(e, q, i, a, fn): g = q.ghost; e.prove(q, w.me(a[0], 'thread') and q.tags.get('joinable') and not g['joined'], 'shutdown/joins-a-joinable-thread'); e.prove(q, not g['mine'] or g['woken'], 'shutdown/joins-after-waking-the-event-loop', 'the event loop does not notice'); e.prove(q, g['shut'], 'shutdown/joins-after-telling-the-event-loop'); g['joined'] = True; q.note('joins the event loop'); return None
        C('=std::thread::join', join)
        if f == 'dtor':
            for b in ('std::vector::~vector', 'std::function::~function', 'coro::scheduler::options::~options', 'std::multimap::~multimap', 'std::thread::~thread', 'std::unique_ptr::~unique_ptr', 'coro::detail::pipe_t::~pipe_t', 'coro::detail::timer_handle::~timer_handle', 'coro::detail::io_notifier_epoll::~io_notifier_epoll', 'coro::thread_pool::options::~options'): C('=' + b, lambda e, q, i, a, fn: None)
        for q, oc in e.call(st, 'vc_s_' + f, [w.s]):
            g = q.ghost; e.prove(q, oc[0] == 'ret' and g['shut'], 'post/shut-down', str(oc)); seen.add('first' if g['mine'] else 'again')
            if g['mine']: e.prove(q, g['woken'], 'post/event-loop-is-woken'); e.prove(q, g['joined'], 'post/event-loop-has-ended', 'it returns while tasks are still running'); e.prove(q, g['poolshut'] or not pool, 'post/pool-is-shut-down')
            if f == 'dtor': e.prove(q, g['joined'], 'post/event-loop-has-ended', 'the scheduler is destroyed while its thread runs')
        e.prove(State(), seen == {'first', 'again'}, 'cover/all-outcomes', str(seen))
    part.__name__ = f'part_{f}' + '_pool' * pool
    return part


def part_queries(ctx):
    for pool in (0, 1):
        for f in ('size', 'empty'):
            w = SW(ctx, f + ' with pool' * pool, 'query', pool); e = w.eng
            for q, oc in e.call(w.st, 'vc_s_' + f, [w.s]):
                z = q.ghost['sizes']; e.prove(q, oc[0] == 'ret' and len(z) == 1, 'post/reads-the-size'); v = bv(z[0][0], 64) & ~z3.BitVecVal(FIN, 64); e.prove(q, acq_ok(q, z[0][1]), 'post/size-observed-with-acquire', z[0][1])
                if pool:
                    if not e.prove(q, len(z[0][2]) == 1, 'post/thread-pool-first', 'a task that starts to wait for an event in between is missed'): continue
                    v = v + z[0][2][0]
                e.prove(q, eq(oc[1], v) if f == 'size' else boolterm(oc[1]) == boolterm(eq(v, 0)), 'post/' + f, str(oc))
    w = SW(ctx, 'is_shutdown', 'query'); e = w.eng
    for q, oc in e.call(w.st, 'vc_s_is_shutdown', [w.s]): e.prove(q, oc[0] == 'ret' and eq(oc[1], int(q.ghost['shut']), 1), 'post/is-shutdown')


def make(pool, manual):
    def part(ctx):
        w = SW(ctx, 'make_unique' + ' with pool' * pool + ', manual' * manual, 'make'); e, st, off = w.eng, w.st, w.off; C = e.contract_first; o = st.new('fresh', 'options', off('opts')); (st, oc), = e.call(st, 'vc_s_functors', [o, 0, 0]); c = st.w(o.obj).cells; out = st.new('fresh', 'result', 8); st.cells.clear(); rel = lambda n: off('s_' + n) - off('s_opts'); c[rel('strategy')] = (4, off('onpool' if pool else 'inl')); c[rel('threads')] = (4, off('manual' if manual else 'spawned')); seen = set(); ids = {}
        for k in ('sched', 'shut', 'timer'): (st, oc), = e.call(st, f'vc_{k}_ptr', []); ids[k] = oc[1]
        st.ghost.update(self=None, ran=None, threads=0, watched=(), pools_made=0); pl = st.new('opaque', 'pool', 4096)
        for b in ('coro::detail::pipe_t::pipe_t', 'coro::detail::pipe_t::~pipe_t', 'coro::detail::timer_handle::timer_handle', 'coro::detail::timer_handle::~timer_handle', 'coro::detail::io_notifier_epoll::io_notifier_epoll', 'coro::detail::io_notifier_epoll::~io_notifier_epoll', 'std::multimap::multimap', 'std::multimap::~multimap', 'std::vector::reserve', 'std::thread::~thread'): C('=' + b, lambda e, q, i, a, fn: None)
        C('=coro::thread_pool::~thread_pool', lambda e, q, i, a, fn: None)
        def ctor(e, q, i, a, fn): q.ghost['self'] = a[0].obj; return INLINE
        C('=coro::scheduler::scheduler', ctor)
        mine = lambda q, p, n: isinstance(p, Ptr) and p.obj == q.ghost['self'] and p.off == off('s_' + n)
        def rfd(e, q, i, a, fn): p = q.new('fresh', 'descriptor', 4); q.w(p.obj).cells[0] = (4, 1000 if mine(q, a[0], 'schedpipe') else 1001 if mine(q, a[0], 'shutpipe') else 7); return p
        C('=coro::detail::pipe_t::read_fd', rfd)
        def watch(e, q, i, a, fn):
            g = q.ghost; e.prove(q, mine(q, a[0], 'io'), 'call/its-notifier'); k = {1000: 'sched', 1001: 'shut'}.get(norm(a[1]) if not isinstance(a[1], Ptr) else None); e.prove(q, k is not None and isinstance(a[3], Ptr) and a[3].obj == ids[k].obj and a[3].off == ids[k].off, 'make/wakeups-are-told-apart', f'{a[1]}: {a[3]}'); e.prove(q, e.entails(q, boolterm(Or(eq(a[2], off('op_read')), eq(a[2], off('op_rw'))))), 'make/woken-by-reading', str(a[2])); e.prove(q, eq(a[4], 1, 1), 'make/woken-again-and-again', 'only the first wakeup is noticed')
            x = q.clone(); q.forks += 1; x.forks += 1; x.note('cannot be registered'); g['watched'] += (k,); return [(q, 1), (x, 0)]
        C('=coro::detail::io_notifier_epoll::watch', watch)
        def mkpool(e, q, i, a, fn): q.ghost['pools_made'] += 1; e.prove(q, bool(pool), 'make/pool-only-if-configured'); r = e.store(q, a[0], 8, pl, 'ptr'); return [(x, None) for x, _ in r]
        C('=coro::thread_pool::make_unique', mkpool)
        def thread(e, q, i, a, fn):
            g = q.ghost
            if len(a) == 1: return None
            body = [f for f in w.mod.fn.values() if f.base.startswith('coro::scheduler::make_unique::') and f.base.endswith('::operator()')]
            if len(body) != 1: raise Unsupported('the body of the event loop thread')
            e.prove(q, not manual, 'make/no-thread-if-manual'); e.prove(q, sorted(g['watched']) == ['sched', 'shut'], 'make/thread-starts-after-the-wakeups-are-registered'); v = e.load(q, Ptr(g['self'], off('s_processing')), 1, 'i8')[0][1]; e.prove(q, eq(v, 1, 8), 'make/events-processed-by-one-thread', 'process_events() can run beside the event loop'); g['threads'] += 1; r = []
            for x, oc in e.call(q, body[0].name, [a[1]]): e.prove(x, oc[0] == 'ret' and x.ghost['ran'] == g['self'], 'make/thread-runs-the-event-loop-of-this-scheduler', str(oc)); r.append((x, None))
            return r
        C('=std::thread::thread', thread); C('=std::thread::operator=', lambda e, q, i, a, fn: a[0])
        def ran(e, q, i, a, fn): e.prove(q, q.ghost['ran'] is None, 'make/one-event-loop'); q.ghost['ran'] = a[0].obj; return None
        C('=coro::scheduler::process_events_dedicated_thread', ran)
        for q, oc in e.call(st, 'vc_s_make', [out, o]):
            g = q.ghost
            if oc[0] != 'ret': seen.add('throws'); e.prove(q, len(g['watched']) < 2, 'post/fails-only-for-a-reason'); continue
            seen.add('made'); e.prove(q, sorted(g['watched']) == ['sched', 'shut'], 'post/wakeups-registered', str(g['watched'])); v = e.load(q, out, 8, 'ptr')[0][1]; e.prove(q, isinstance(v, Ptr) and v.obj == g['self'], 'post/returns-the-scheduler'); e.prove(q, g['threads'] == (not manual), 'post/one-event-loop', str(g['threads'])); e.prove(q, g['pools_made'] == pool, 'post/pool-as-configured')
            f = lambda n, z, t: e.load(q, Ptr(v.obj, off('s_' + n)), z, t)[0][1]
            e.prove(q, And(eq(f('size', 8, 'i64'), 0), eq(f('shut', 1, 'i8'), 0, 8), eq(f('triggered', 1, 'i8'), 0, 8)), 'post/starts-empty-and-open'); e.prove(q, f('ops', 8, 'ptr') == 0, 'post/starts-empty-and-open'); p = f('pool', 8, 'ptr'); e.prove(q, isinstance(p, Ptr) and p.obj == pl.obj if pool else p == 0, 'post/pool-as-configured'); e.prove(q, eq(f('strategy', 4, 'i32'), off('onpool' if pool else 'inl'), 32), 'post/strategy-as-configured')
        e.prove(State(), seen == {'made', 'throws'}, 'cover/all-outcomes', str(seen))
    part.__name__ = f'part_make_{pool}{manual}'
    return part


PARTS = [resumes(0), resumes(1), part_resume_many, part_scheduled, part_manual, part_queries, part_spawn_joinable, spawn_detached(0), spawn_detached(1), loop(0, 0), loop(1, 0), loop(0, 1), shutdown('shutdown', 0), shutdown('shutdown', 1), shutdown('dtor', 1), make(0, 0), make(1, 0), make(0, 1), c14.process(0), c14.process(1)] + [schedules(f, p) for f in ('on', 'yields', 'outer', 'outer_val') for p in (0, 1)]
