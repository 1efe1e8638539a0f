"""C14: scheduler timers and polls -- one outcome, never early, no pending timer forgotten."""
import z3
from vcgen.core import *
from vcgen.engine import *
from vcgen.proto import *
from vcgen.monitor import resume_top
from vcgen.threads import StdMutex
from vcgen.scaled import Scaled

NOTE = ('process_event_execute, process_timeout_execute, process_events_execute, add_timer_token, remove_timer_token, poll, yield_for, yield_until, schedule_after, schedule_at, make_timeout_task and the choice of the timeout in schedule(task, timeout) proved for any set of pending deadlines, any batch of events and any state of each poll; '
        'the set of timed events is a monitor: while its lock is free the timer is armed for the smallest deadline or the event loop is about to arm it. The notifier by its contract (C16), when_any by C12. Assumed: std::multimap, std::vector, std::mutex and steady_clock by contract, the notifier arms the timer when asked, '
        'a poll whose descriptor is registered is processed by one event loop thread. Durations that do not fit in nanoseconds are excluded for yield_for / schedule_after (the conversion happens at the caller).')
TUS = ['scheduler.cpp']
TRUSTED = ['std::multimap: ordered by key, iterators stay valid until erased', 'steady_clock does not go backwards', 'the notifier can arm its timer']
MAXT = (1 << 63) - 1


class Handle(Cell):
    """poll_info::m_awaiting_coroutine: published once by the coroutine that waits"""
    size = 8; ty = 'ptr'; name = 'awaiting coroutine'
    def __init__(s, pi, h): s.pi, s.h = pi, h
    def values(s, eng, st, e=None):
        if ('published', s.pi) in st.tags: return [(st, s.h)]
        q = st.clone(); q.tags[('published', s.pi)] = 1; q.note('the coroutine is suspended'); return [(q, s.h), (st, 0)]
    def observed(s, eng, st, v, ord):
        if isinstance(v, Ptr): eng.prove(st, acq_ok(st, ord), 'poll/handle-observed-with-acquire', f'{ord}: what the waiting coroutine wrote before it suspended may not be visible')
    def transition(s, eng, st, old, new, ord, how): eng.fail(st, 'poll/handle-is-set-by-the-waiter', f'{how} {old} -> {new}'); return [st]


def same(a, b): return isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj
def key(q, o): return q.mem[o].cells[0][1]


class W:
    def __init__(s, ctx, name):
        for t in TRUSTED:
            if t not in ctx.trusted: ctx.trusted.append(t)
        s.mod = ctx.module('scheduler.cpp'); s.eng = e = ctx.engine(s.mod, 'scheduler: ' + name); s.off = off = lambda n: ctx.off(s.mod, n); s.st = st = State(); C = e.contract_first; s.sc = Scaled(e)
        s.s = st.new('fresh', 'scheduler', off('sched')); s.at = lambda n: Ptr(s.s.obj, off('s_' + n)); s.me = lambda p, n: isinstance(p, Ptr) and p.obj == s.s.obj and p.off == off('s_' + n)
        st.ghost.update(held=False, nows=(), map=None, watched=(), timer=(), clock=0); st.ghost.update({'#resumed': 0}); s.recorded = []
        def now(e, q, i, a, fn):
            t = BV('now'); g = q.ghost; q.pc += [t >= (g['nows'][-1] if g['nows'] else 1), t < 1 << 61]; g['nows'] = (g['nows'] + (t,))[-2:]; return t
        C(r'^std::(chrono::)?(_V2::)?steady_clock::now$', now); C(r'^std::(operator<<|ostream::operator<<|basic_ostream::operator<<|endl)$', lambda e, st, i, a, fn: a[0])
        s.mx = StdMutex(e, lambda p: s.me(p, 'mutex'), s.on_lock, s.on_unlock)
        for n in ('empty', 'begin', 'end', 'erase', 'emplace', 'size', 'insert', 'find', 'clear', 'lower_bound', 'upper_bound', 'rbegin'): C('=std::multimap::' + n, getattr(s, 'm_' + n, s.m_other))
        C('=std::_Rb_tree_iterator::operator*', s.deref); C('=std::_Rb_tree_iterator::operator->', s.deref)
        for n in ('watch_timer', 'unwatch_timer', 'watch', 'unwatch'): C('=coro::detail::io_notifier_epoll::' + n, getattr(s, 'n_' + n))

    # ---- the set of timed events.  Lazily: the smallest entry is unknown until somebody looks, then it is a node
    def on_lock(s, q):
        g = q.ghost; g.update(map=True, nonempty=None, min=None, low=None, armed='min at lock', added=None, gone=None, minlock=None)
    def on_unlock(s, q):
        g = q.ghost; e = s.eng
        if not s.owes(q):
            if isinstance(g['armed'], str) and g['armed'] == 'min at lock': e.prove(q, g['added'] is None and g['gone'] is None or same(g['min'], g['minlock']), 'timer/armed-for-the-smallest-deadline', 'the smallest deadline may have changed, the timer was not armed for it: it fires late or never')
            elif isinstance(g['armed'], str): e.prove(q, g['nonempty'] is False, 'timer/armed-for-the-smallest-deadline', 'the timer is disarmed although a timer is pending')
            else: e.prove(q, same(g['armed'], g['min']) or g['nonempty'] is False, 'timer/armed-for-the-smallest-deadline', 'armed for another deadline')
        s.unlocking(q); g['map'] = None
    def unlocking(s, q): pass
    def owes(s, q): return False       # the event loop arms the timer later

    def use(s, q, p, what):
        e = s.eng; e.prove(q, s.me(p, 'events'), 'container/unknown', repr(p)); return e.prove(q, q.ghost['held'] is True, 'timers/used-under-their-lock', f'{what} without the lock: a data race, and what another thread adds in between is overwritten')
    def m_other(s, e, q, i, a, fn): raise Unsupported('std::multimap operation ' + fn.base)

    def node(s, q, name='timer'):
        n = q.new('fresh', name, 16); k = BV('deadline'); o = q.w(n.obj); o.cells[0] = (8, k); p = s.poll(q, True); o.cells[8] = (8, p); q.tags[('node', n.obj)] = (k, p); return n.obj, k

    def looks(s, q):
        """-> [state]: whether the set is empty is decided"""
        g = q.ghost
        if g['nonempty'] is not None: return [q]
        x = q.clone(); q.forks += 1; x.forks += 1; q.ghost['nonempty'] = True; x.ghost['nonempty'] = False; return [q, x]

    def minimum(s, q):
        """-> [state]: the smallest entry is decided (the set is not empty)"""
        g = q.ghost
        if g['min'] is not None: return [q]
        out = []; ad = g['added']
        if ad is not None and g['gone'] != 'it':      # the entry that was added, or that is known to be there, may be the smallest
            x = q.clone(); q.forks += 1; x.forks += 1; x.ghost['min'] = Ptr(ad, 0); x.note('it is the smallest deadline'); out.append(x)
        o, k = s.node(q)
        if ad is not None: q.pc.append(k <= key(q, ad) if g['gone'] != 'it' else k >= key(q, ad))
        if g['low'] is not None: q.pc.append(k >= g['low'])
        q.ghost['min'] = Ptr(o, 0); q.note('another entry has the smallest deadline')
        if isinstance(g['armed'], str) and g['armed'] == 'min at lock' and g['minlock'] is None and not s.owes(q): g['minlock'] = Ptr(o, 0) if g['gone'] is None else None
        return out + [q]

    def m_empty(s, e, q, i, a, fn):
        if not s.use(q, a[0], 'empty'): return []
        return [(x, int(not x.ghost['nonempty'])) for x in s.looks(q)]
    def m_begin(s, e, q, i, a, fn):
        if not s.use(q, a[0], 'begin'): return []
        out = []
        for x in s.looks(q):
            if not x.ghost['nonempty']: out.append((x, s.at('events')))
            else: out += [(y, y.ghost['min']) for y in s.minimum(x)]
        return out
    def m_end(s, e, q, i, a, fn): return s.at('events') if s.use(q, a[0], 'end') else []
    def deref(s, e, q, i, a, fn):
        p = e.load(q, a[0], 8, 'ptr')[0][1]
        if not e.prove(q, isinstance(p, Ptr) and ('node', p.obj) in q.tags, 'container/end-is-not-an-entry', str(p)): return []
        e.chk_ptr(q, p, 16, False); return p
    def m_emplace(s, e, q, i, a, fn):
        if not s.use(q, a[0], 'emplace'): return []
        k = e.load(q, a[1], 8, 'i64')[0][1]; p = e.load(q, a[2], 8, 'ptr')[0][1]; g = q.ghost; e.prove(q, g['added'] is None, 'timers/added-once'); n = q.new('fresh', 'new timer', 16); o = q.w(n.obj); o.cells[0] = (8, k); o.cells[8] = (8, p); q.tags[('node', n.obj)] = (k, p)
        g.update(added=n.obj, nonempty=True, min=None, gone=None); q.note(f'added: deadline {k}'); return n
    def m_erase(s, e, q, i, a, fn):
        if not s.use(q, a[0], 'erase'): return []
        if '_Rb_tree' not in fn.d[fn.d.rindex('erase'):]: e.fail(q, 'timers/removes-only-this-one', 'erased by its deadline: every other timer with the same deadline is forgotten'); return []
        p = a[1] if len(a) > 1 else None
        if isinstance(p, Ptr) and ('node', p.obj) not in q.tags: p = e.load(q, p, 8, 'ptr')[0][1]
        if not e.prove(q, isinstance(p, Ptr) and ('node', p.obj) in q.tags, 'container/erases-an-entry', str(p)): return []
        e.chk_ptr(q, p, 16, False); g = q.ghost; k, pi = key(q, p.obj), q.mem[p.obj].cells[8][1]; s.erased(q, p.obj, k, pi); q.w(p.obj).dead = 'erased'
        was = g['min'] is not None and g['min'].obj == p.obj; g['gone'] = 'it' if p.obj == g['added'] else g['gone'] or 'other'; q.note(f'erased: deadline {k}')
        if was: g['low'] = k; g['min'] = None
        if was or g['min'] is None: g['nonempty'] = None
        if fn.rt == 'void' or 'r' not in i or not e.used(q, i['r']): return UNDEF
        out = []                                     # the entry after the erased one
        for x in ([q] if not was else s.looks(q)):
            if was and not x.ghost['nonempty']: out.append((x, s.at('events'))); continue
            if was: out += [(y, y.ghost['min']) for y in s.minimum(x)]; continue
            y = x.clone(); x.forks += 1; y.forks += 1; o, k2 = s.node(y); y.pc.append(k2 >= k); out += [(x, s.at('events')), (y, Ptr(o, 0))]
        return out
    def erased(s, q, node, k, pi): pass

    # ---- the notifier (C16)
    def io(s, q, p): s.eng.prove(q, s.me(p, 'io'), 'call/its-notifier', str(p))
    def two(s, q, st_): x = q.clone(); q.forks += 1; x.forks += 1; return [(q, 1), (x, 0)]
    def n_watch_timer(s, e, q, i, a, fn):
        s.io(q, a[0]); g = q.ghost; e.prove(q, s.me(a[1], 'timer'), 'call/its-timer'); d = a[2] if not isinstance(a[2], Ptr) else e.load(q, a[2], 8, 'i64')[0][1]
        if not e.prove(q, g['held'] is True, 'timer/armed-under-the-lock', 'an earlier deadline added in between is overwritten'): return []
        if not e.prove(q, g['min'] is not None and bool(g['nows']), 'timer/armed-for-the-smallest-deadline', 'armed without looking at the smallest deadline'): return []
        k = key(q, g['min'].obj); e.prove(q, z3.Or(*[bv(d, 64) <= k - n for n in g['nows']]), 'timer/not-armed-later-than-the-deadline', f'armed for {d}: it fires late'); g['armed'] = g['min']; q.note('armed for the smallest deadline'); return 1
    def n_unwatch_timer(s, e, q, i, a, fn):
        s.io(q, a[0]); e.prove(q, s.me(a[1], 'timer'), 'call/its-timer'); e.prove(q, q.ghost['held'] is True, 'timer/armed-under-the-lock', 'a deadline added in between is disarmed'); q.ghost['armed'] = 'off'; q.note('disarmed'); return 1
    def n_watch(s, e, q, i, a, fn): raise Unsupported('watch')
    def n_unwatch(s, e, q, i, a, fn):
        s.io(q, a[0])
        if not e.prove(q, isinstance(a[1], Ptr) and ('poll', a[1].obj) in q.tags, 'call/unregisters-a-poll', str(a[1])): return []
        e.prove(q, ('published', a[1].obj) in q.tags, 'poll/unregistered-before-it-is-complete', 'the coroutine may still be registering this poll: what it registers afterwards stays behind when the poll is gone'); e.chk_ptr(q, a[1], 8, False)
        q.tags[('unwatched', a[1].obj)] = 1; q.note('unwatch'); x = q.clone(); q.forks += 1; x.forks += 1; return [(q, 1), (x, 0)]

    # ---- polls
    def poll(s, q, timed=None, name='poll'):
        """a poll some coroutine waits for, as the event loop meets it"""
        e, off = s.eng, s.off; p = q.new('fresh', name, off('pi')); fd = BV('fd', 32); st = BV('status', 32); done = BV('processed', 8); r = e.call(q, 'vc_pi', [p, fd, BV('op'), 0, 0]); assert len(r) == 1 and r[0][0] is q
        o = q.w(p.obj); q.pc.append(z3.ULE(done, 1)); o.cells[off('pi_done')] = (1, done); o.cells[off('pi_status')] = (4, st); h = q.new('opaque', 'waiting coroutine', 64); o.cells.pop(off('pi_handle'), None); q.cells[(p.obj, off('pi_handle'))] = Handle(p.obj, h); q.tags[('poll', p.obj)] = (fd, done, st, h)
        return p

    def status(s, q, p): return s.eng.load(q, Ptr(p.obj, s.off('pi_status')), 4, 'i32')[0][1]
    def processed(s, q, p): return s.eng.load(q, Ptr(p.obj, s.off('pi_done')), 1, 'i8')[0][1]

    # ---- m_handles_to_resume
    def collects(s):
        def append(e, q, i, a, fn):
            if not s.me(a[0], 'handles'): return INLINE
            h = e.load(q, a[1], 8, 'ptr')[0][1]; s.collected(q, h); return UNDEF
        s.eng.contract_first(lambda fn: fn.base in ('std::vector::emplace_back', 'std::vector::push_back'), append)

    def one(s, q, f, a): r = s.eng.call(q, f, a); assert len(r) == 1 and r[0][1][0] == 'ret', (f, r); return r[0]


def part_add(ctx):
    w = W(ctx, 'add_timer_token'); e, st = w.eng, w.st; tp = BV('deadline'); p = st.new('opaque', 'poll'); out = st.new('fresh', 'iterator', 8); n = 0
    w.unlocking = lambda q: e.prove(q, q.ghost['added'] is not None or q.ghost['gone'] is None, 'timers/changed-only-by-adding')
    for q, oc in e.call(st, 'vc_add', [w.s, tp, p, out]):
        n += 1; g = q.ghost; e.prove(q, oc[0] == 'ret' and g['held'] is False, 'post/returns-unlocked', str(oc)); v = e.load(q, out, 8, 'ptr')[0][1]
        if not e.prove(q, g['added'] is not None and isinstance(v, Ptr) and v.obj == g['added'], 'post/returns-where-it-is', str(v)): continue
        k, pi = key(q, v.obj), q.mem[v.obj].cells[8][1]; e.prove(q, eq(k, tp), 'post/the-given-deadline', f'{k}'); e.prove(q, isinstance(pi, Ptr) and pi.obj == p.obj and eq(pi.off, 0), 'post/for-the-given-poll', str(pi)); e.prove(q, q.mem[v.obj].dead is None, 'post/still-there')
    e.prove(State(), n >= 2, 'cover/ends')


def part_remove(ctx):
    w = W(ctx, 'remove_timer_token'); e, st = w.eng, w.st; o, k = w.node(st, 'the timer'); n = 0
    lock = w.on_lock
    def on_lock(q): lock(q); q.ghost.update(added=o, nonempty=True) if q.mem[o].dead is None else None
    w.mx.on_lock = on_lock; er = []
    def erased(q, node, k, pi): e.prove(q, node == o, 'timers/removes-only-this-one', 'the timer of another coroutine is forgotten')
    w.erased = erased
    unl = w.on_unlock
    def on_unlock(q):
        g = q.ghost; g['added'] = None if q.mem[o].dead is None else g['added']; unl(q)
    w.mx.on_unlock = on_unlock
    for q, oc in e.call(st, 'vc_remove', [w.s, Ptr(o, 0)]): n += 1; e.prove(q, oc[0] == 'ret' and q.ghost['held'] is False, 'post/returns-unlocked', str(oc)); e.prove(q, q.mem[o].dead is not None, 'post/removed', 'the timer fires for a poll that is gone')
    e.prove(State(), n >= 2, 'cover/ends')


def part_event(ctx):
    w = W(ctx, 'process_event_execute'); e, st, off = w.eng, w.st, w.off; p = w.poll(st); fd, done, was, h = st.tags[('poll', p.obj)]; s_ = BV('event', 32); st.pc.append(z3.Or(*[s_ == off('st_' + x) for x in ('read', 'write', 'error', 'closed', 'cancelled')])); w.collects(); seen = set(); st.ghost.update(n=0, removed=0); timer = st.new('opaque', 'timer entry')
    def collected(q, x): e.prove(q, isinstance(x, Ptr) and x.obj == h.obj, 'post/resumes-the-waiter', str(x)); q.ghost['n'] += 1
    w.collected = collected
    def remove(e, q, i, a, fn): e.prove(q, isinstance(a[1], Ptr) and a[1].obj == timer.obj, 'call/removes-its-own-timer', str(a[1])); q.ghost['removed'] += 1; return None
    e.contract_first('=coro::scheduler::remove_timer_token', remove)
    for timed in (0, 1):
        st1 = st.clone(); st1, _ = w.one(st1, 'vc_pos_some' if timed else 'vc_pos_none', [Ptr(p.obj, off('pi_pos'))] + ([timer] if timed else []))
        for q, oc in e.call(st1, 'vc_event', [w.s, p, s_]):
            g = q.ghost; e.prove(q, oc[0] == 'ret', 'post/returns', str(oc)); old = e.decide(q, done == 1); now = w.status(q, p); e.prove(q, eq(w.processed(q, p), 1, 8), 'post/marked-processed', 'a timeout of the same batch resumes it again'); seen.add((timed, bool(old)))
            if old: e.prove(q, g['n'] == 0, 'post/resumed-once', 'the poll was already resolved'); e.prove(q, eq(now, was, 32), 'post/first-outcome-stays', 'the status of the first outcome is overwritten'); continue
            e.prove(q, g['n'] == 1, 'post/resumed-once', str(g['n'])); e.prove(q, eq(now, s_, 32), 'post/status-of-the-event', str(now)); e.prove(q, g['removed'] == timed, 'post/timer-is-removed', f'{g["removed"]}: the timer of a resolved poll stays and fires for a poll that is gone')
            e.prove(q, z3.Or(fd == -1, bool(('unwatched', p.obj) in q.tags)), 'post/registration-is-removed', 'the descriptor or the stop token stays registered for a poll that is gone')
    e.prove(State(), len(seen) == 4, 'cover/all-outcomes', str(seen))


def part_timeout(ctx):
    w = W(ctx, 'process_timeout_execute'); e, st, off = w.eng, w.st, w.off; st.ghost.update(popped=None, added=None, updated=False); st.ghost.update({'#n': 0, '#done': 0}); n = 0; arr = st.new('lazy', 'timed out polls', 1 << 50); vec = [None]
    w.owes = lambda q: not q.ghost['updated'] and isinstance(q.ghost['armed'], str) and q.ghost['armed'] == 'min at lock'
    # at the end the timer must have been armed after the last removal
    def on_lock(q): W.on_lock(w, q); q.ghost['popped'] = None
    w.mx.on_lock = on_lock
    def unlocking(q): e.prove(q, q.ghost['popped'] is None, 'post/no-expired-timer-is-lost', 'a timer is removed and its coroutine is not resumed'); q.ghost['updated'] = not (isinstance(q.ghost['armed'], str) and q.ghost['armed'] == 'min at lock')
    w.unlocking = unlocking
    def erased(q, node, k, pi):
        g = q.ghost; e.prove(q, g['popped'] is None or g['popped'] == ('kept', pi.obj), 'post/no-expired-timer-is-lost', 'a timer is removed and its coroutine is not resumed'); e.prove(q, z3.Or(*[k <= n for n in g['nows']]) if g['nows'] else False, 'post/never-early', f'deadline {k} is later than now'); g['popped'] = None if g['popped'] == ('kept', pi.obj) else ('out', pi.obj); g['updated'] = False
    w.erased = erased
    def append(e, q, i, a, fn):
        if w.me(a[0], 'handles'): collected(q, e.load(q, a[1], 8, 'ptr')[0][1]); return UNDEF
        g = q.ghost; p = e.load(q, a[1], 8, 'ptr')[0][1]; vec[0] = a[0]; m = g['min']
        if not e.prove(q, isinstance(p, Ptr) and ('poll', p.obj) in q.tags, 'post/resumes-only-timed-out-polls', str(p)): return []
        if g['popped'] == ('out', p.obj): g['popped'] = None
        elif m is not None and q.mem[m.obj].cells[8][1].obj == p.obj and g['popped'] is None: g['popped'] = ('kept', p.obj)
        else: e.fail(q, 'post/each-expired-timer-once', str(p)); return []
        g['#n'] = add(g['#n'], 8); q.pc.append(z3.ULT(bv(g['#n'], 64), 1 << 40)); c = q.w(a[0].obj).cells; end = Ptr(arr.obj, g['#n']); c[a[0].off] = (8, Ptr(arr.obj, 0)); c[a[0].off + 8] = (8, end); c[a[0].off + 16] = (8, end); q.note('collected'); return UNDEF
    e.contract_first(lambda fn: fn.base in ('std::vector::emplace_back', 'std::vector::push_back'), append)
    e.contract_first(lambda fn: fn.base == 'std::vector::~vector', lambda e, q, i, a, fn: None)
    def settle(q):
        """the poll that is being processed: is it resolved?"""
        c = q.tags.get('cur')
        if c is None: return
        p = c['p']; fd, done, was, h = q.tags[('poll', p.obj)]; pr, now = w.processed(q, p), w.status(q, p); un = ('unwatched', p.obj) in q.tags
        ok = e.entails(q, boolterm(And(Or(And(eq(done, 1, 8), c['n'] == 0, eq(now, was, 32)), And(eq(done, 0, 8), c['n'] == 1, eq(pr, 1, 8), eq(now, off('st_timeout'), 32), Or(eq(fd, 0xffffffff, 32), un))))))
        if ok: q.ghost['#done'] = add(q.ghost['#done'], 8); q.tags['cur'] = None
        return p, fd, done, was, h, pr, now, un, c
    def element(e, q, o, off_, z, t, wr, v):
        if wr: raise Unsupported('the list of timed out polls is written')
        k = off_; c = q.tags.get('cur')
        if c is not None and e.entails(q, eq(c['k'], k)): return [(q, c['p'])]
        last = settle(q)
        e.prove(q, q.tags.get('cur') is None, 'post/each-timed-out-poll-is-resolved-once', 'neither resumed with timeout, its registration removed, nor already resolved: %s' % (describe(last),))
        e.prove(q, eq(q.ghost['#done'], k), 'post/each-timed-out-poll-once', f'{q.ghost["#done"]} of {k} (bytes)'); e.prove(q, z3.ULT(bv(k, 64), bv(q.ghost['#n'], 64)), 'memory/past-the-collected-polls')
        p = w.poll(q); q.tags['cur'] = dict(k=k, p=p, n=0); return [(q, p)]
    def describe(l): return '' if l is None else f'processed {l[5]}, status {l[6]}, unwatched {l[7]}, resumed {l[8]["n"]} times'
    o = st.w(arr.obj); o.arrays['layout'] = (8, [(0, 8, 'ptr')]); o.arrays['handler'] = lambda e2, s2, o2, off2, z, t, v, wr: element(e2, s2, o2, off2, z, t, wr, v); o.schema = lambda e2, s2, o2, off2, z, t: None; o.guard = lambda e2, s2, o2, off2, z, wr, v: element(e2, s2, o2, off2, z, 'ptr', wr, v) if isinstance(off2, int) else None
    def collected(q, x):
        c = q.tags.get('cur')
        if e.prove(q, c is not None and isinstance(x, Ptr) and x.obj == q.tags[('poll', c['p'].obj)][3].obj, 'post/resumes-the-waiter', str(x)): c = dict(c, n=c['n'] + 1); q.tags['cur'] = c; e.prove(q, c['n'] == 1, 'post/resumed-once'); e.prove(q, eq(q.tags[('poll', c['p'].obj)][1], 0, 8), 'post/resumed-once', 'the poll was already resolved')
    e.hooks['loop_arrive'] = lambda e2, q, f, h: settle(q)
    e.hooks['loop_cands'] = lambda e2, D, S, pairs: [nv & 7 == 0 for a_, b_, wd, nv, _ in pairs if wd == 64]
    for q, oc in e.call(st, 'vc_timeouts', [w.s]):
        n += 1; g = q.ghost; last = settle(q); e.prove(q, oc[0] == 'ret' and g['held'] is False, 'post/returns-unlocked', str(oc)); e.prove(q, eq(g['#done'], g['#n']), 'post/each-timed-out-poll-is-resolved-once', f'{g["#done"]} of {g["#n"]} polls: {describe(last)}'); e.prove(q, g['updated'], 'timer/armed-for-the-smallest-deadline', 'timers were removed, or this one fired, and the timer is not armed for the next deadline')
    e.prove(State(), n >= 1, 'cover/ends')


class Count(Cell):
    """m_size: only what this thread adds and removes"""
    size = 8; ty = 'i64'; name = 'size'
    def values(s, eng, st, e=None): v = BV('size'); st.pc.append(z3.ULT(v, 1 << 60)); return [(st, v)]
    def observed(s, eng, st, v, ord): pass
    def transition(s, eng, st, old, new, ord, how):
        d = norm(bv(new, 64) - bv(old, 64)); g = st.ghost; eng.prove(st, how not in ('store', 'rmw-xchg'), 'size/lost-update', how); g['#bal'] = norm(bv(g['#bal'], 64) + bv(d, 64)); st.note(f'{how} size by {d}')
        if '#res' in g: eng.prove(st, -bv(g['#bal'], 64) * 8 <= bv(g['#res'], 64), 'size/counted-down-after-it-was-resumed', 'size() misses a coroutine that is not resumed yet'); eng.prove(st, rel_ok(st, ord), 'size/completion-is-published', ord)
        return [st]


class Publish(Cell):
    """the poll of the coroutine that is verified: from the store of its handle on the event loop owns it"""
    size = 8; ty = 'ptr'; name = 'awaiting coroutine'
    def __init__(s, on): s.on = on
    def values(s, eng, st, e=None): return [(st, 0)]
    def observed(s, eng, st, v, ord): pass
    def transition(s, eng, st, old, new, ord, how):
        eng.prove(st, rel_ok(st, ord), 'poll/handle-published-with-release', f'{ord}: the event loop may not see what was written before'); s.on(st, new); return [st]


class PW(W):
    """poll() and the yields"""
    def __init__(s, ctx, name):
        super().__init__(ctx, name); e, st, off = s.eng, s.st, s.off; C = e.contract_first; st.cells[(s.s.obj, off('s_size'))] = Count(); st.ghost.update(timers=(), pub=None, reg=None, sched=0, first=None); st.ghost['#bal'] = 0; s.timer = st.new('opaque', 'timer entry'); s.coro = None
        C('=coro::scheduler::add_timer_token', s.add); C('=coro::detail::io_notifier_epoll::watch', s.watch); C('=coro::scheduler::schedule_operation::await_suspend', s.sched)

    def own(s, q, p):
        e = s.eng
        if not e.prove(q, isinstance(p, Ptr) and q.mem[p.obj].dead is None, 'poll/alive', str(p)): return
        e.prove(q, q.ghost['pub'] is None, 'poll/set-up-before-it-is-published', 'the coroutine may already run again: its poll is gone'); q.ghost['pi'] = p; q.cells[(p.obj, add(p.off, s.off('pi_handle')))] = Publish(s.published)
        e.prove(q, eq(s.processed(q, p) if p.off == 0 else e.load(q, Ptr(p.obj, add(p.off, s.off('pi_done'))), 1, 'i8')[0][1], 0, 8), 'poll/starts-unprocessed'); e.prove(q, eq(q.ghost['#bal'], 1), 'size/counted-before-it-can-be-processed', 'the event loop may process it and count it down first')
    def add(s, e, q, i, a, fn):
        s.own(q, a[2]); e.prove(q, a[0].obj == s.s.obj, 'call/its-scheduler'); g = q.ghost; g['timers'] += ((a[1], g['nows'], a[2]),); q.note(f'timer {a[1]}'); return Ptr(s.timer.obj, 0)
    def watch(s, e, q, i, a, fn):
        if len(a) != 2: return INLINE
        s.io(q, a[0]); s.own(q, a[1]); p = a[1]; g = q.ghost; e.prove(q, g['reg'] is None, 'poll/registered-once'); g['reg'] = 'yes'; fd = e.load(q, Ptr(p.obj, add(p.off, s.off('pi_fd'))), 4, 'i32')[0][1]; op = e.load(q, Ptr(p.obj, add(p.off, s.off('pi_op'))), 8, 'i64')[0][1]
        s.registers(q, p, fd, op); x = q.clone(); q.forks += 1; x.forks += 1; x.ghost['reg'] = 'failed'; x.note('cannot be registered'); return [(q, 1), (x, 0)]
    def sched(s, e, q, i, a, fn): e.prove(q, q.ghost['sched'] == 0, 'yield/scheduled-once'); q.ghost['sched'] += 1; q.note('scheduled'); s.gone(q, a[1]); return None if fn.rt == 'void' else 1
    def published(s, q, h):
        g = q.ghost; e = s.eng; e.prove(q, isinstance(h, Ptr) and h.obj == s.coro, 'poll/publishes-its-own-coroutine', str(h)); e.prove(q, g['pub'] is None, 'poll/published-once'); g['pub'] = h.obj; e.prove(q, eq(g['#bal'], 1), 'size/counted-exactly', str(g['#bal'])); p = g['pi']
        pos = e.load(q, Ptr(p.obj, add(p.off, s.off('pi_pos'))), 8, 'ptr')[0][1] if g['reg'] is not None and g['timers'] else None; (q2, oc), = e.call(q, 'vc_pos_has', [Ptr(p.obj, add(p.off, s.off('pi_pos')))])
        if g['reg'] == 'yes': e.prove(q, boolterm(oc[1]) == bool(g['timers']) if is_term(oc[1]) else bool(oc[1]) == bool(g['timers']), 'poll/event-can-remove-the-timer', 'the timer stays pending after the event and fires for a poll that is gone'); e.prove(q, not g['timers'] or isinstance(pos, Ptr) and pos.obj == s.timer.obj, 'poll/event-can-remove-the-timer', str(pos))
        fd = e.load(q, Ptr(p.obj, add(p.off, s.off('pi_fd'))), 4, 'i32')[0][1]; e.prove(q, eq(fd, 0xffffffff, 32) if g['reg'] != 'yes' else eq(fd, s.fd, 32), 'poll/timeout-removes-only-its-own-registration', f'{fd}: the timeout removes the registration of another poll')
        e.prove(q, bool(g['timers']) or g['reg'] == 'yes', 'poll/something-will-resume-it', 'neither a timer nor a registration: it waits forever'); s.gone(q, h)
    def gone(s, q, h):
        if not (isinstance(h, Ptr) and h.obj in q.coros): return
        for o in [h.obj] + [o for fr in q.frames if fr.coro == h.obj for o in fr.allocas]:
            if q.mem[o].dead is None: q.w(o).dead = 'handed over: the event loop may already have resumed and destroyed it'; q.tags['revive'] = q.tags.get('revive', ()) + (o,)
    def revive(s, q):
        for o in q.tags.get('revive', ()): q.w(o).dead = None
        q.tags['revive'] = ()

    def deadline(s, q, ns, exact=None):
        """ns: the requested duration (128 bit), or the requested time point"""
        e = s.eng; t = q.ghost['timers']
        if not e.prove(q, len(t) == 1, 'post/one-timer', str(len(t))): return
        tp, nows, p = t[0]; w = lambda x: z3.SignExt(64, bv(x, 64))
        if exact is not None: e.prove(q, bv(tp, 64) >= exact, 'post/never-early', f'{tp}'); e.prove(q, w(tp) <= w(exact) + 1000000, 'post/on-time', f'{tp}'); return
        if not e.prove(q, bool(nows), 'post/deadline-is-relative-to-now'): return
        e.prove(q, z3.Or(bv(tp, 64) == MAXT, w(tp) >= w(q.ghost['first']) + ns), 'post/never-early', f'deadline {tp}'); e.prove(q, w(tp) <= w(nows[-1]) + ns + 1000000, 'post/on-time', f'deadline {tp}')


def first_now(w):
    """the clock when the coroutine starts"""
    def now(e, q, i, a, fn):
        t = BV('now'); g = q.ghost; q.pc += [t >= (g['nows'][-1] if g['nows'] else g['first']), t < 1 << 61]; g['nows'] = (g['nows'] + (t,))[-2:]; return t
    w.eng.contract_first(r'^std::(chrono::)?(_V2::)?steady_clock::now$', now); t = BV('started'); w.st.pc += [t >= 1, t < 1 << 61]; w.st.ghost['first'] = t


def part_poll(ctx):
    for cancel in (0, 1):
        w = PW(ctx, 'poll' + (' with stop token' if cancel else '')); e, st, off = w.eng, w.st, w.off; first_now(w); fd, cfd, ms, op = BV('fd', 32), BV('cancel fd', 32), BV('timeout'), BV('op'); w.fd = fd; st.pc += [fd >= 0, cfd >= 0, z3.Or(*[op == off('op_' + n) for n in ('read', 'write', 'rw')])]; seen = set()
        def registers(q, p, f, o):
            e.prove(q, eq(f, fd, 32), 'poll/the-given-descriptor', str(f)); e.prove(q, eq(o, op), 'poll/the-given-operation', str(o)); (x, oc), = e.call(q, 'vc_has_cancel', [p]); e.prove(q, boolterm(oc[1]) == bool(cancel) if is_term(oc[1]) else bool(oc[1]) == bool(cancel), 'poll/the-given-stop-token', str(oc))
            if cancel: (x, oc), = e.call(q, 'vc_cancel_of', [p]); e.prove(q, eq(oc[1], cfd, 32), 'poll/the-given-stop-token', str(oc))
        w.registers = registers; k = st.new('fresh', 'stop token', off('stop')); st, _ = w.one(st, 'vc_stop', [k, cancel, cfd]); st, oc = w.one(st, 'vc_poll', [w.s, fd, op, ms, k]); h = oc[1]; w.coro = h.obj
        for q, oc in resume_top(e, st, h):
            g = q.ghost; timed = e.decide(q, ms > 0); e.prove(q, g['reg'] is not None, 'post/registered', 'nobody waits for the event')
            if g['pub'] is None:
                e.prove(q, g['reg'] == 'failed' and not timed, 'post/suspended', 'the poll ends without an outcome'); e.prove(q, q.coros[h.obj].done, 'post/completes'); (q, oc), = e.call(q, 'vc_poll_result', [h]); e.prove(q, eq(oc[1], off('st_error'), 32), 'post/cannot-be-registered-is-an-error', str(oc)); e.prove(q, eq(g['#bal'], 0), 'size/counted-exactly'); seen.add('error'); e.prove(q, not g['timers'], 'post/timer-is-removed'); continue
            seen.add((g['reg'], bool(timed)))
            if timed: w.deadline(q, w.sc.prod(q, ms, 1000000))
            else: e.prove(q, g['timers'] == (), 'post/no-timer-without-timeout')
            w.revive(q); s_ = BV('outcome', 32); q.pc.append(z3.Or(*[s_ == off('st_' + n) for n in ('read', 'write', 'timeout', 'error', 'closed', 'cancelled')])); p = g['pi']; q.w(p.obj).cells[add(p.off, off('pi_status'))] = (4, s_)
            for y, oc in resume_top(e, q, h): e.prove(y, y.coros[h.obj].done, 'post/completes', str(oc)); (y, oc), = e.call(y, 'vc_poll_result', [h]); e.prove(y, eq(oc[1], s_, 32), 'post/returns-the-outcome', str(oc)); e.prove(y, eq(y.ghost['#bal'], 1), 'size/counted-down-by-the-event-loop')
        e.prove(State(), seen >= {('yes', True), ('yes', False), ('failed', True)}, 'cover/all-outcomes', str(seen))


def yields(fn, unit=1, at=False):
    def part(ctx):
        w = PW(ctx, fn); e, st, off = w.eng, w.st, w.off; first_now(w); t = BV('time'); seen = set(); w.fd = 0xffffffff
        if unit != 1: st.pc += [t <= (1 << 62) // unit, t >= -((1 << 62) // unit)]
        if at: st.pc.append(t > -(1 << 61))
        st, oc = w.one(st, 'vc_' + fn, [w.s, t]); h = oc[1]; w.coro = h.obj
        for q, oc in resume_top(e, st, h):
            g = q.ghost; e.prove(q, g['reg'] is None, 'post/nothing-registered')
            if g['sched']:
                seen.add('scheduled'); e.prove(q, z3.Or(*[t <= n for n in g['nows']]) if at and g['nows'] else t <= (g['first'] if at else 0), 'post/never-early', 'it only yields although its time has not come'); e.prove(q, g['timers'] == (), 'post/no-timer')
            else:
                seen.add('timer'); 
                if not e.prove(q, g['pub'] is not None, 'post/waits', str(oc)): continue
                if at: w.deadline(q, None, t)
                else: e.prove(q, t > 0, 'post/waits-only-for-a-positive-time'); w.deadline(q, w.sc.prod(q, t, unit))
            w.revive(q)
            for y, oc in resume_top(e, q, h): e.prove(y, y.coros[h.obj].done, 'post/completes-when-resumed', str(oc)); e.prove(y, eq(y.ghost['#bal'], 0 if g['sched'] else 1), 'size/counted-exactly')
        e.prove(State(), seen == {'scheduled', 'timer'}, 'cover/all-outcomes', str(seen))
    part.__name__ = 'part_' + fn
    return part


def timed(fn, unit):
    def part(ctx):
        from vcgen.tracked import Tracked
        w = PW(ctx, fn.replace('timed', 'schedule(task, timeout) in')); e, st, off = w.eng, w.st, w.off; w.tr = Tracked(e, copy_throws=False); w.tr.init(st); t = BV('timeout'); seen = set(); C = e.contract_first; w.coro = None
        if unit > 1: st.pc += [t <= (1 << 60) // unit, t >= -((1 << 60) // unit)]
        else: st.pc += [t <= MAXT - 1000000, t >= -(1 << 62)]
        def timeout(e, q, i, a, fn2):
            ms = a[-1]; small = min(unit, 1000000); m = w.sc.prod(q, ms, 1000000 // small); d = w.sc.prod(q, t, unit // small); e.prove(q, t > 0, 'timeout/only-if-positive'); e.prove(q, m >= d, 'timeout/never-early', f'{ms} ms'); e.prove(q, m < d + 1000000 // small, 'timeout/on-time', f'{ms} ms'); seen.add('timeout'); return []
        C('=coro::scheduler::make_timeout_task', timeout)
        def plain(e, q, i, a, fn2): e.prove(q, t <= 0, 'timeout/a-positive-timeout-is-one', 'the task is never timed out'); seen.add('plain'); return []
        C('=coro::scheduler::schedule_operation::await_suspend', plain)
        (st, oc), = e.call(st, 'vc_' + fn, [w.s, t])
        for q, oc in resume_top(e, st, oc[1]): e.prove(q, False, 'post/scheduled', str(oc))
        e.prove(State(), seen == {'plain', 'timeout'}, 'cover/all-outcomes', str(seen))
    part.__name__ = 'part_' + fn
    return part


def part_timeout_task(ctx):
    w = PW(ctx, 'make_timeout_task'); e, st, off = w.eng, w.st, w.off; first_now(w); ms = BV('timeout'); st.pc += [ms > 0, ms < (1 << 62) // 1000000]; w.fd = 0xffffffff; (st, oc), = e.call(st, 'vc_timeout_task', [w.s, ms]); top = oc[1]; w.coro = None; n = 0
    def published(q, h): w.coro = h.obj if isinstance(h, Ptr) else None; q.ghost['inner'] = h; PW.published(w, q, h)
    w.published = published; st.ghost['inner'] = None
    for q, oc in resume_top(e, st, top):
        h = q.ghost['inner']
        if not e.prove(q, isinstance(h, Ptr), 'post/waits', str(oc)): continue
        e.prove(q, not q.coros[top.obj].done, 'post/waits'); w.deadline(q, w.sc.prod(q, ms, 1000000)); w.revive(q)
        for y, oc in resume_top(e, q, h): n += 1; e.prove(y, y.coros[top.obj].done, 'post/completes'); (y, oc), = e.call(y, 'vc_timeout_result', [top]); e.prove(y, eq(oc[1], 1, 32), 'post/reports-the-timeout', str(oc))
    e.prove(State(), n > 0, 'cover/ends')


def process(pool):
    """one turn of the event loop: every event of the batch is dispatched once, then every collected coroutine is resumed once"""
    def part(ctx):
        w = W(ctx, 'process_events_execute' + (' on a pool' if pool else '')); e, st, off = w.eng, w.st, w.off; C = e.contract_first; st.cells[(w.s.obj, off('s_size'))] = Count(); st.ghost.update(polled=0, resuming=False, refused=False, cleared=0); st.ghost.update({'#bal': 0, '#handled': 0, '#res': 0, '#total': 0}); n = 0; tmo = BV('timeout'); c = st.w(w.s.obj).cells
        c[off('s_strategy')] = (4, off('onpool' if pool else 'inl')); pl = st.new('opaque', 'pool'); c[off('s_pool')] = (8, pl if pool else 0); ev = st.new('lazy', 'events', 1 << 50); ha = st.new('lazy', 'collected', 1 << 50); ids = {}
        for k in ('timer', 'sched', 'shut'): (st, oc), = e.call(st, f'vc_{k}_ptr', []); ids[k] = oc[1]
        def vec(q, f, o, end): c = q.w(w.s.obj).cells; a = off(f); c[a] = (8, Ptr(o.obj, 0)); c[a + 8] = (8, Ptr(o.obj, end)); c[a + 16] = (8, Ptr(o.obj, 1 << 45))
        vec(st, 's_handles', ha, 0); vec(st, 's_recent', ev, BV('stale'))
        def clear(e, q, i, a, fn):
            if w.me(a[0], 'recent'): vec(q, 's_recent', ev, 0); q.note('recent events cleared'); return None
            if w.me(a[0], 'handles'): e.prove(q, eq(q.ghost['#res'], q.ghost['#total']), 'post/every-collected-coroutine-is-resumed', 'dropped'); vec(q, 's_handles', ha, 0); q.ghost['cleared'] = 1; return None
            return INLINE
        C('=std::vector::clear', clear)
        def nxt(e, q, i, a, fn):
            w.io(q, a[0]); g = q.ghost; e.prove(q, w.me(a[1], 'recent'), 'call/its-list'); e.prove(q, g['polled'] == 0, 'loop/one-wait'); en = e.load(q, Ptr(w.s.obj, off('s_recent') + 8), 8, 'ptr')[0][1]; e.prove(q, eq(en.off, 0), 'loop/events-of-an-earlier-turn', 'they are dispatched again'); d = a[2] if not isinstance(a[2], Ptr) else e.load(q, a[2], 8, 'i64')[0][1]; e.prove(q, eq(d, tmo), 'call/timeout'); g['polled'] = 1
            m = BV('events'); q.pc += [z3.ULT(m, 1 << 40), m & 15 == 0]; g['#events'] = m; vec(q, 's_recent', ev, m); return None
        C('=coro::detail::io_notifier_epoll::next_events', nxt); st.ghost['#events'] = 0
        def settle(q):
            r = q.tags.get('cur')
            if r is not None and r['n'] == r['need']: q.ghost['#handled'] = add(q.ghost['#handled'], 16); q.tags['cur'] = None
            return r
        def event(e2, q, o, at, z, t, wr):
            if wr: raise Unsupported('the events are written')
            r = q.tags.get('cur')
            if r is not None and e.entails(q, eq(at, add(r['at'], 8))): return [(q, r['st'])] if z == 4 else []
            if r is not None and e.entails(q, eq(at, r['at'])): return [(q, r['p'])]
            if z != 8: raise Unsupported(f'event field {at}/{z}')
            settle(q); e.prove(q, q.tags.get('cur') is None, 'loop/each-event-is-dispatched', f'{r and r["kind"]} event: {r and r["n"]} times'); e.prove(q, eq(q.ghost['#handled'], at), 'loop/each-event-once', f'{q.ghost["#handled"]} of {at}'); e.prove(q, z3.ULT(bv(at, 64), bv(q.ghost['#events'], 64)), 'memory/past-the-events'); out = []
            for k in ('timer', 'sched', 'shut', 'poll'):
                x = q.clone(); x.forks += 1; p = ids[k] if k != 'poll' else x.new('opaque', 'poll'); s_ = BV('event status', 32); x.tags['cur'] = dict(at=at, kind=k, p=p, st=s_, n=0, need=int(k != 'shut')); x.note(f'{k} event'); out.append((x, p))
            return out
        o = st.w(ev.obj); o.arrays['layout'] = (16, [(0, 8, 'ptr'), (8, 4, 'i32')]); o.arrays['handler'] = lambda e2, s2, o2, off2, z, t, v, wr: event(e2, s2, o2, off2, z, t, wr); o.schema = lambda e2, s2, o2, off2, z, t: None; o.guard = lambda e2, s2, o2, off2, z, wr, v: event(e2, s2, o2, off2, z, 'ptr', wr) if isinstance(off2, int) else None
        def dispatch(kind):
            def h(e, q, i, a, fn):
                e.prove(q, a[0].obj == w.s.obj, 'call/this-scheduler'); r = q.tags.get('cur'); g = q.ghost; e.prove(q, g['resuming'] is False, 'loop/resumed-after-the-whole-batch', 'a coroutine is resumed before all events of the batch are handled: its poll may be gone when a later event is for it')
                if not e.prove(q, r is not None and r['kind'] == kind, 'loop/dispatched-to-its-handler', f'{r and r["kind"]} event handled as {kind}'): return []
                if kind == 'poll': e.prove(q, isinstance(a[1], Ptr) and a[1].obj == r['p'].obj, 'loop/dispatched-with-its-poll'); e.prove(q, eq(a[2], r['st'], 32), 'loop/dispatched-with-its-status', str(a[2]))
                q.tags['cur'] = dict(r, n=r['n'] + 1); m = BV('collected'); q.pc += [z3.UGE(m, bv(g['#total'], 64)), z3.ULT(m, 1 << 40), m & 7 == 0]; g['#total'] = m; vec(q, 's_handles', ha, m); return None
            return h
        C('=coro::scheduler::process_timeout_execute', dispatch('timer')); C('=coro::scheduler::process_scheduled_execute_inline', dispatch('sched')); C('=coro::scheduler::process_event_execute', dispatch('poll'))
        def handle(e2, q, o, at, z, t, wr):
            if wr: raise Unsupported('the collected coroutines are written')
            r = q.tags.get('h')
            if r is not None and e.entails(q, eq(at, r[0])): return [(q, Ptr(r[1], 0))]
            e.prove(q, eq(q.ghost['#res'], at), 'post/each-collected-coroutine-once', f'{q.ghost["#res"]} of {at} (bytes)'); e.prove(q, z3.ULT(bv(at, 64), bv(q.ghost['#total'], 64)), 'memory/past-the-collected-coroutines'); h = q.new('opaque', 'coroutine', 64); q.tags['h'] = (at, h.obj); return [(q, h)]
        o = st.w(ha.obj); o.arrays['layout'] = (8, [(0, 8, 'ptr')]); o.arrays['handler'] = lambda e2, s2, o2, off2, z, t, v, wr: handle(e2, s2, o2, off2, z, t, wr); o.schema = lambda e2, s2, o2, off2, z, t: None; o.guard = lambda e2, s2, o2, off2, z, wr, v: handle(e2, s2, o2, off2, z, 'ptr', wr) if isinstance(off2, int) else None
        def all_dispatched(q): settle(q); g = q.ghost; e.prove(q, eq(g['#handled'], g['#events']), 'loop/resumed-after-the-whole-batch', f'{g["#handled"]} of {g["#events"]} (bytes) dispatched'); g['resuming'] = True
        def resume(e2, q, h):
            g = q.ghost
            if not g['resuming']: all_dispatched(q)
            r = q.tags.get('h'); e.prove(q, not pool or g['refused'], 'post/resumed-on-the-pool', 'it is run by the event loop'); 
            if e.prove(q, r is not None and isinstance(h, Ptr) and h.obj == r[1], 'post/each-collected-coroutine-once', 'resumed again'): q.w(h.obj).dead = 'it ran: it may be gone'; g['#res'] = add(g['#res'], 8); q.tags['h'] = None
            return [q]
        e.hooks['resume'] = resume
        def pooled(e2, q, i, a, fn):
            all_dispatched(q); g = q.ghost; e.prove(q, pool and a[0].obj == pl.obj, 'post/resumed-on-the-pool')
            x = q.clone(); q.forks += 1; x.forks += 1; x.ghost['refused'] = True; x.note('the pool is shut down')
            if w.me(a[1], 'handles'): e.prove(q, eq(g['#res'], 0), 'post/each-collected-coroutine-once'); g['#res'] = g['#total']; n = BV('accepted'); q.pc += [n != 0, z3.ULE(n, bv(g['#total'], 64))]; return [(q, n), (x, 0)]
            r = q.tags.get('h'); e.prove(q, r is not None and isinstance(a[1], Ptr) and a[1].obj == r[1], 'post/each-collected-coroutine-once', str(a[1])); g['#res'] = add(g['#res'], 8); q.tags['h'] = None; return [(q, 1), (x, 0)]
        C('=coro::thread_pool::resume', pooled); e.hooks['loop_arrive'] = lambda e2, q, f, h: settle(q) and None
        def cands(e2, D, S, pairs): return [n1 == n2 * k for k in (8, 16) for a1, b1, w1, n1, _ in pairs for a2, b2, w2, n2, _ in pairs if w1 == w2 == 64 and n1 is not n2] + [-n1 * 8 == n2 for a1, b1, w1, n1, _ in pairs for a2, b2, w2, n2, _ in pairs if w1 == w2 == 64 and n1 is not n2] + [nv & k == 0 for a_, b_, wd, nv, _ in pairs if wd == 64 for k in (7, 15)]
        e.hooks['loop_cands'] = cands
        for q, oc in e.call(st, 'vc_process', [w.s, tmo]):
            n += 1; r = settle(q); g = q.ghost; e.prove(q, oc[0] == 'ret' and g['polled'] == 1, 'post/asks-for-events', str(oc)); e.prove(q, eq(g['#handled'], g['#events']), 'loop/each-event-is-dispatched', f'{g["#handled"]} of {g["#events"]} (bytes), {r}'); e.prove(q, eq(g['#res'], g['#total']), 'post/every-collected-coroutine-is-resumed', f'{g["#res"]} of {g["#total"]} (bytes)')
            e.prove(q, -bv(g['#bal'], 64) * 8 == bv(g['#total'], 64), 'size/counted-down-once-each', f'{g["#bal"]} for {g["#total"]} (bytes)'); en = e.load(q, Ptr(w.s.obj, off('s_handles') + 8), 8, 'ptr')[0][1]; e.prove(q, eq(en.off, 0), 'post/resumed-once', 'they are resumed again in the next turn')
        e.prove(State(), n >= 2, 'cover/ends')
    part.__name__ = 'part_process' + ('_pool' if pool else '')
    return part


PARTS = [part_add, part_remove, part_event, part_timeout, part_poll, yields('yield_for'), yields('after_ms', 1000000), yields('yield_until', at=True), yields('at', at=True), timed('timed_ns', 1), timed('timed_us', 1000), timed('timed_s', 1000000000), timed('stop_us', 1000), part_timeout_task, process(0), process(1)]
