"""C16: io_notifier -- readiness is reported for what was asked, truthfully."""
import z3
from vcgen.core import *
from vcgen.engine import *
from vcgen.proto import *

LEVEL = 'proof'
NOTE = ('watch, unwatch, watch_timer, unwatch_timer, timer_handle and next_events of the epoll notifier are proved for every descriptor, direction, duration, batch of events (any size up to the limit the call itself passes, any mixture of polls, cancellations and internal '
        'events, any combination of kernel flags) against the contracts of epoll_ctl / epoll_wait / timerfd_settime; the user data that the real watch() registered is what the kernel hands back to the real next_events(). Assumed: user addresses below 2^47, one poll per stop token '
        'at a time, std::vector::emplace_back appends. The kqueue notifier is not compiled on this platform and not covered.')
TU = 'notifier.cpp'
FLAGS = ('-O1',)      # with lifetime markers
TUS = [(TU, FLAGS)]
IN, OUT, ERR, HUP, RDHUP, ONESHOT, ET = 1, 4, 8, 0x10, 0x2000, 1 << 30, 1 << 31
ADD, DEL, MOD = 1, 2, 3
TRUSTED = ['epoll_ctl / epoll_wait / timerfd_settime / timerfd_create as documented: an event carries the 64-bit data of its registration, at most maxevents are stored, -1 means nothing was stored',
           'user-space addresses are below 2^47', 'std::vector::emplace_back / push_back append one element']


def fd_(n): return BV(n, 32)


class H:
    def __init__(s, ctx, name):
        ctx.concurrent = False
        for t in TRUSTED:
            if t not in ctx.trusted: ctx.trusted.append(t)
        s.mod = ctx.module(TU, FLAGS); s.eng = e = ctx.engine(s.mod, name); s.off = lambda n: ctx.off(s.mod, n)
        s.st = State(); s.ep = fd_('epoll fd'); s.n = s.st.new('fresh', 'notifier', s.off('notifier')); s.st.w(s.n.obj).cells[s.off('notifier_fd')] = (4, s.ep); s.st.ghost.update(ctl=(), settime=())
        C = e.contract_first
        C('=epoll_ctl', s.ctl); C('=timerfd_settime', s.settime)
        e.hooks['inttoptr'] = s.inttoptr; e.hooks['divmod'] = True

    def addressable(s, st, p):
        a = s.eng.addr(st, p); st.pc += [a != 0, z3.ULT(a, 1 << 47)]; st.tags['addressable'] = st.tags.get('addressable', ()) + (p.obj,)
        return a

    def inttoptr(s, e, st, v):
        for o in reversed(st.tags.get('addressable', ())):
            if e.entails(st, v == e.addr(st, Ptr(o, 0))): return Ptr(o, 0)
        return None

    def event(s, e, st, p):
        """the epoll_event the caller passes: (flags, data)"""
        f = e.load(st, p, 4, 'i32')[0][1]; d = e.load(st, Ptr(p.obj, p.off + 4), 8, 'i64')[0][1]
        return f, (e.addr(st, d) if isinstance(d, Ptr) else d)

    def ctl(s, e, st, i, a, fn):
        e.prove(st, eq(a[0], s.ep, 32), 'call/this-notifier', 'epoll_ctl on another epoll instance')
        if e.decide(st, bv(a[1], 32) == ADD): ev = s.event(e, st, a[3]); e.prove(st, ev[0] is not UNDEF and ev[1] is not UNDEF, 'call/event-initialised')
        else: ev = None
        q = st.clone(); st.forks += 1; q.forks += 1
        st.ghost['ctl'] += ((a[1], a[2], ev, True),); q.ghost['ctl'] += ((a[1], a[2], ev, False),)
        st.note(f'epoll_ctl({a[1]}, fd {a[2]}, {ev})'); q.note(f'epoll_ctl({a[1]}, fd {a[2]}, {ev}) fails')
        return [(st, 0), (q, 0xffffffff)]

    def settime(s, e, st, i, a, fn):
        ld = lambda o: e.load(st, Ptr(a[2].obj, a[2].off + o), 8, 'i64')[0][1]
        st.ghost['settime'] += ((a[0], a[1], (ld(0), ld(8)), (ld(16), ld(24))),); q = st.clone(); st.forks += 1; q.forks += 1
        return [(st, 0), (q, 0xffffffff)]

    def poll(s, st, name, cancel):
        p = st.new('fresh', name, s.off('pi')); o = st.w(p.obj); fd, op = fd_('fd'), BV('op'); st.pc.append(z3.Or(*[op == s.off('op_' + n) for n in ('read', 'write', 'read_write')]))
        o.cells[s.off('pi_fd')] = (4, fd); o.cells[s.off('pi_op')] = (8, op); cp = Ptr(p.obj, s.off('pi_cancel')); cfd = None
        if cancel: cfd = fd_('cancel fd')
        r = s.eng.call(st, 'vc_cancel_fd', [cp, cfd]) if cancel else s.eng.call(st, 'vc_cancel_none', [cp])
        assert len(r) == 1 and r[0][0] is st
        return p, fd, op, cfd


def ok(e, q, ctl, how):
    return e.prove(q, len(ctl) == how, 'post/number-of-registration-calls', f'{len(ctl)} instead of {how}')


def is_reg(h, e, q, c, fd, op, keep):
    """the registration: this descriptor, exactly these directions, one-shot unless it is kept"""
    e.prove(q, eq(c[0], ADD, 32), 'post/registers'); e.prove(q, eq(c[1], fd, 32), 'post/registers-this-descriptor')
    if c[2] is None: return
    f = bv(c[2][0], 32); o32 = z3.Extract(31, 0, bv(op, 64))
    for bit, n in ((IN, 'read'), (OUT, 'write')): e.prove(q, f & bit == o32 & bit, f'post/exactly-the-requested-directions', f'{n} interest differs from the request')
    e.prove(q, f & ~z3.BitVecVal(IN | OUT | ERR | HUP | RDHUP | ONESHOT | ET, 32) == 0, 'post/no-other-events')
    e.prove(q, (f & ONESHOT != 0) == (not keep), 'post/one-shot-unless-kept', 'a poll must be reported once, an internal event as long as it is registered')


def part_watch(ctx):
    for keep in (0, 1):
        for cancel in (0, 1):
            h = H(ctx, f'watch(fd, keep={keep}, cancel={cancel})'); e, st = h.eng, h.st
            p = st.new('fresh', 'data', 8); h.addressable(st, p); fd, op = fd_('fd'), BV('op'); st.pc.append(z3.Or(*[op == h.off('op_' + n) for n in ('read', 'write', 'read_write')]))
            for q, oc in e.call(st, 'vc_watch', [h.n, fd, op, p, keep, cancel]):
                e.prove(q, oc[0] == 'ret', 'post/returns'); c = q.ghost['ctl']
                if ok(e, q, c, 1): is_reg(h, e, q, c[0], fd, op, keep); e.prove(q, boolterm(oc[1]) == c[0][3], 'post/result-tells-whether-it-is-registered')
    for cancel in (0, 1):
        h = H(ctx, f'watch(poll_info{", with stop token" if cancel else ""})'); e, st = h.eng, h.st; p, fd, op, cfd = h.poll(st, 'poll', cancel); h.addressable(st, p)
        for q, oc in e.call(st, 'vc_watch_pi', [h.n, p]):
            e.prove(q, oc[0] == 'ret', 'post/returns'); c = q.ghost['ctl']
            if not e.prove(q, len(c) >= 1, 'post/registers'): continue
            is_reg(h, e, q, c[0], fd, op, False)
            if c[0][3]:
                if ok(e, q, c, 1 + cancel) and cancel: is_reg(h, e, q, c[1], cfd, IN, False)
                if all(x[3] for x in c): e.prove(q, boolterm(oc[1]), 'post/registered-is-reported')
            else: e.prove(q, Not(oc[1]), 'post/failure-is-reported', 'the descriptor could not be registered and the caller is told it was: the poll would wait forever')


def part_unwatch(ctx):
    h = H(ctx, 'unwatch(fd)'); e, st = h.eng, h.st; fd = fd_('fd')
    for q, oc in e.call(st, 'vc_unwatch', [h.n, fd, BV('op')]):
        e.prove(q, oc[0] == 'ret', 'post/returns'); c = q.ghost['ctl']
        if ok(e, q, c, 1): e.prove(q, And(eq(c[0][0], DEL, 32), eq(c[0][1], fd, 32)), 'post/removes-this-descriptor'); e.prove(q, boolterm(oc[1]) == c[0][3], 'post/result')
    for cancel in (0, 1):
        h = H(ctx, f'unwatch(poll_info{", with stop token" if cancel else ""})'); e, st = h.eng, h.st; p, fd, op, cfd = h.poll(st, 'poll', cancel)
        for q, oc in e.call(st, 'vc_unwatch_pi', [h.n, p]):
            e.prove(q, oc[0] == 'ret', 'post/returns'); c = q.ghost['ctl']
            for x in c: e.prove(q, And(eq(x[0], DEL, 32), Or(eq(x[1], fd, 32), eq(x[1], cfd, 32) if cancel else False)), 'post/removes-only-what-this-poll-registered')
            e.prove(q, Or(*[eq(x[1], fd, 32) for x in c]) if c else False, 'post/removes-the-descriptor')
            if cancel: e.prove(q, Or(*[eq(x[1], cfd, 32) for x in c]) if c else False, 'post/removes-the-stop-token', 'the stop token stays registered for a poll that is over: signalling it later reports a poll_info that no longer exists')


def part_timer(ctx):
    h = H(ctx, 'watch_timer'); e, st = h.eng, h.st; t = st.new('fresh', 'timer', h.off('timer')); tf = fd_('timerfd'); st.w(t.obj).cells[h.off('timer_fd')] = (4, tf); d = BV('duration')
    for q, oc in e.call(st, 'vc_watch_timer', [h.n, t, d]):
        e.prove(q, oc[0] == 'ret', 'post/returns'); s = q.ghost['settime']
        if not e.prove(q, len(s) == 1, 'post/arms-once'): continue
        fd, flags, iv, (sec, ns) = s[0]; sec, ns = bv(sec, 64), bv(ns, 64)
        e.prove(q, eq(fd, tf, 32), 'post/arms-this-timer'); e.prove(q, eq(flags, 0, 32), 'post/relative-time'); e.prove(q, And(eq(iv[0], 0), eq(iv[1], 0)), 'post/fires-once')
        e.prove(q, z3.And(ns >= 0, ns < 1000000000, sec >= 0), 'post/valid-time', 'the system refuses other values'); e.prove(q, Not(z3.And(sec == 0, ns == 0)), 'post/never-disarmed', 'a due timer must fire at once, zero would disarm it')
        e.prove(q, z3.Implies(d > 0, z3.And(sec <= (1 << 40), sec * 1000000000 + ns == d)), 'post/exactly-the-duration', 'the timer fires early or late')
        e.prove(q, z3.Implies(d <= 0, z3.And(sec == 0, ns == 1)), 'post/due-now-fires-now')
    h = H(ctx, 'unwatch_timer'); e, st = h.eng, h.st; t = st.new('fresh', 'timer', h.off('timer')); tf = fd_('timerfd'); st.w(t.obj).cells[h.off('timer_fd')] = (4, tf)
    for q, oc in e.call(st, 'vc_unwatch_timer', [h.n, t]):
        s = q.ghost['settime']
        if e.prove(q, len(s) == 1, 'post/disarms-once'): e.prove(q, And(eq(s[0][0], tf, 32), eq(s[0][3][0], 0), eq(s[0][3][1], 0)), 'post/disarms-this-timer')


KINDS = [(keep, cancel, trig) for keep, cancel, trig in ((0, 0, 0), (0, 0, 1), (0, 1, 1), (1, 0, None), (1, 1, 1))]


def part_next(ctx):
    h = H(ctx, 'next_events'); e, st = h.eng, h.st; off = h.off; S = lambda n: off('st_' + n) & 0xffffffff
    rv = st.new('opaque', 'ready events', off('ready')); ms = BV('timeout'); st.ghost.update(num=None, buf=None, count=0)
    C = e.contract_first

    def wait(e, q, i, a, fn):
        e.prove(q, eq(a[0], h.ep, 32), 'call/this-notifier'); e.prove(q, q.ghost['num'] is None, 'call/one-wait'); mx = a[2]
        if not e.prove(q, isinstance(a[1], Ptr) and isinstance(mx, int) and 0 < mx < 1 << 31, 'call/buffer'): return []
        sz = q.mem[a[1].obj].size
        e.prove(q, isinstance(a[1].off, int) and a[1].off + 12 * mx <= sz, 'memory/kernel-writes-outside-the-buffer', f'{mx} events of 12 bytes into {sz} bytes'); e.prove(q, eq(a[3], z3.Extract(31, 0, bv(ms, 64)), 32), 'call/timeout')
        n = BV('events', 32); q2 = q.clone(); q.pc += [n >= 0, n <= mx]; q.forks += 1; q2.forks += 1
        o = q.w(a[1].obj); base = a[1].off
        for c in [c for c in o.cells if base <= c < base + 12 * mx]: del o.cells[c]
        o.arrays['handler'] = lambda e2, s2, o2, off2, z, t, v, w: event_field(e2, s2, o2, off2, z, t, w, base)
        o.schema = lambda e2, s2, o2, off2, z, t: None
        o.guard = lambda e2, s2, o2, off2, z, w, v: event_field(e2, s2, o2, off2, z, 'i%d' % (8 * z), w, base) if isinstance(off2, int) else None
        q.ghost.update(num=n, buf=a[1].obj); q2.ghost.update(num=0)
        return [(q, n), (q2, 0xffffffff)]
    C('=epoll_wait', wait)

    def current(e, q, k):
        """what was registered for event k of the batch -> [(state, record)]; the same record for every look at event k"""
        r = q.tags.get('ev')
        if r is not None and e.entails(q, eq(r['k'], k)): return [(q, r)]
        out = []
        for keep, cancel, trig in KINDS:
            x = q.clone(); x.forks += 1
            if trig is None: p = x.new('fresh', 'internal object', 4); fd = fd_('fd'); cfd = None
            else: p, fd, op, cfd = h.poll(x, 'poll', trig)
            h.addressable(x, p); ct = x.ghost['ctl']; x.ghost['ctl'] = ()
            w = e.call(x, 'vc_watch', [h.n, cfd if cancel else fd, off('op_read'), p, keep, cancel])      # what the real watch() registers for it
            for y, oc in w:
                c = y.ghost['ctl']
                if not (len(c) == 1 and c[0][3]): continue
                y.ghost['ctl'] = ct; fl = BV('flags', 32); m = IN | OUT | ERR | HUP | RDHUP; y.pc += [fl != 0, fl & ~z3.BitVecVal(m, 32) == 0]
                rec = dict(k=k, p=p, keep=keep, cancel=cancel, fd=fd, cfd=cfd, data=c[0][2][1], flags=fl); y.tags['ev'] = rec; y.forks += 1
                y.note(f'event {k}: {"internal" if trig is None else "cancellation" if cancel else "poll"}')
                out.append((y, rec))
        return out

    def event_field(e, q, o, o_, size, t, write, base):
        if write: raise Unsupported('the event buffer is written after epoll_wait')
        rel = norm(sub(o_, base))
        if isinstance(rel, int): k, r = rel // 12, rel % 12
        else:
            k = BV('event'); r = None
            for c in (0, 4):
                # rel = 12*k + c
                kk = z3.UDiv(bv(sub(rel, c), 64), z3.BitVecVal(12, 64))
                if e.entails(q, z3.And(kk * 12 + c == rel, z3.ULT(kk, 1 << 20))): k, r = norm(kk), c; break
            if r is None: raise Unsupported(f'event buffer at {rel}')
        e.prove(q, z3.ULT(bv(k, 64), z3.ZeroExt(32, bv(q.ghost['num'], 32))), 'memory/event-not-stored-by-the-kernel', f'event {k} is read, the kernel stored {q.ghost["num"]}')
        out = []
        for y, rec in current(e, q, k):
            if r == 0 and size == 4: out.append((y, rec['flags']))
            elif r == 4 and size == 8: out.append((y, rec['data']))
            else: raise Unsupported(f'event field {r}/{size}')
        return out

    def append(e, q, i, a, fn):
        e.prove(q, isinstance(a[0], Ptr) and a[0].obj == rv.obj, 'call/the-caller-s-list'); rec = q.tags.get('ev')
        if len(a) == 2: p = e.load(q, a[1], 8, 'ptr')[0][1]; s_ = e.load(q, Ptr(a[1].obj, a[1].off + 8), 4, 'i32')[0][1]
        else: p = e.load(q, a[1], 8, 'ptr')[0][1]; s_ = e.load(q, a[2], 4, 'i32')[0][1]
        if not e.prove(q, rec is not None, 'post/reported-without-event'): return []
        n = q.ghost['count']; e.prove(q, eq(rec['k'], n), 'post/each-event-once-in-order', f'report number {n} is for event {rec["k"]} of the batch')
        if is_term(p): p = h.inttoptr(e, q, p) or p
        e.prove(q, isinstance(p, Ptr) and p.obj == rec['p'].obj and eq(p.off, 0), 'post/attributed-to-the-poll-that-registered-it', f'{p}')
        f = rec['flags']; want = z3.If(f & IN != 0, bv(S('read'), 32), z3.If(f & OUT != 0, bv(S('write'), 32), z3.If(f & ERR != 0, bv(S('error'), 32), bv(S('closed'), 32))))
        if rec['cancel']: want = bv(S('cancelled'), 32)
        e.prove(q, bv(s_, 32) == want, 'post/status-of-the-kernel-event', f'flags {f} reported as {s_}')
        q.ghost['count'] = add(n, 1); q.note(f'report {p} status {s_}'); return UNDEF
    C(r'^std::vector::(emplace_back|push_back)$', append)
    ctl0 = h.ctl

    def ctl(e, q, i, a, fn):
        rec = q.tags.get('ev')
        if e.decide(q, bv(a[1], 32) == ADD): return ctl0(e, q, i, a, fn)
        if e.prove(q, rec is not None, 'call/unregisters-something-before-any-event'):
            mine = [rec['fd']] + ([rec['cfd']] if rec['cfd'] is not None else [])
            e.prove(q, And(eq(a[1], DEL, 32), Or(*[eq(a[2], m, 32) for m in mine])), 'call/unregisters-only-this-poll', 'a registration of another poll is removed'); e.prove(q, not rec['keep'], 'call/kept-registration-removed')
        return BV('ctl', 32)
    C('=epoll_ctl', ctl)
    n = 0
    for q, oc in e.call(st, 'vc_next', [h.n, rv, ms]):
        n += 1; e.prove(q, oc[0] == 'ret', 'post/returns', f'{oc}'); num = q.ghost['num']
        e.prove(q, num is not None and eq(q.ghost['count'], z3.SignExt(32, bv(num, 32))), 'post/every-event-of-the-batch-reported', f'{num} events, {q.ghost["count"]} reported')
    e.prove(State(), n >= 2, 'cover/returns')


PARTS = [part_watch, part_unwatch, part_timer, part_next]
