"""C20: tcp client -- the bytes reported are exactly the bytes moved."""
import z3
from vcgen.core import *
from vcgen.engine import *
from vcgen.proto import *
from vcgen.run import ExtractionError
from vcgen.monitor import resume_top

NOTE = ('recv, send, read_some, read_exact, write_some, write_all and connect proved for every buffer size, timeout, readiness flag and every sequence (any length) of outcomes of the system calls: partial transfer, closed, any errno, and any poll status; the loops of read_exact and write_all by '
        'invariant. scheduler::poll is a contract (C14), make_io_status_* are the ones proved in C25 and are executed here. Assumed: recv/send move between 1 and len bytes, the clock does not go backwards.')
TUS = ['tcp.cpp']
TRUSTED = ['recv/send: return the number of bytes moved at the start of the given range (recv: 0 = closed), or -1 with errno and nothing moved; send without MSG_NOSIGNAL may raise SIGPIPE', 'steady_clock does not go backwards', 'getsockopt(SO_ERROR) succeeds and stores the pending error']
M32 = 0xffffffff


class H:
    def __init__(s, ctx, name, reading, whole, flags=()):
        s.reading, s.whole = reading, whole
        ctx.concurrent = False
        for t in TRUSTED:
            if t not in ctx.trusted: ctx.trusted.append(t)
        s.mod = ctx.module('tcp.cpp', flags); s.eng = e = ctx.engine(s.mod, 'tcp client: ' + name); s.off = off = lambda n: ctx.off(s.mod, n); s.st = st = State(); C = e.contract_first; e.hooks['divmod'] = True; e.divmod = s.divmod
        s.sched = st.new('opaque', 'scheduler'); s.c = st.new('lazy', 'client', off('client')); o = st.w(s.c.obj); s.rr, s.wr = BV('read ready', 8), BV('write ready', 8); st.pc += [z3.ULE(s.rr, 1), z3.ULE(s.wr, 1)]
        o.cells[off('c_scheduler')] = (8, s.sched); o.cells[off('c_read')] = (1, s.rr); o.cells[off('c_write')] = (1, s.wr); (st, oc), = e.call(st, 'vc_fd', [s.c]); s.fd = oc[1]; s.st = st
        s.n = BV('buffer size'); st.pc += [z3.ULT(s.n, 1 << 40)]; s.buf = st.new('bytes', 'buffer'); s.ms = BV('timeout'); st.pc += [s.ms <= 1 << 40, s.ms >= -(1 << 40)]
        st.ghost.update({'last': None, '#moved': z3.BitVecVal(0, 64), 'start': None, 'polled': 0})
        s.err = st.new('fresh', 'errno', 4); C('=__errno_location', lambda e, q, i, a, fn: s.err)
        C('=recv', s.recv); C('=send', s.send); C('=vc_poll', s.poll)
        def now(e, q, i, a, fn):
            t = BV('now'); g = q.ghost; q.pc += [t >= (0 if g['start'] is None else g['start']), t < 1 << 60]
            if g['start'] is None: g['start'] = t
            return t
        C('=vc_some', s.some)
        if whole: C('=coro::net::tcp::client::' + ('read' if reading else 'write') + '_some_impl', lambda e, q, i, a, fn: [(x, oc[1]) for x, oc in e.call(q, 'vc_stub_' + ('read' if reading else 'write'), a)])
        C(r'^std::(chrono::)?(_V2::)?steady_clock::now$', now)

    def divmod(s, st, x, c, w, signed):
        """all that is used of converting to milliseconds: the quotient lies between 0 and the dividend"""
        q, r = BV('quot', w), BV('rem', w); st.pc.append(z3.Implies(x >= 0, z3.And(q >= 0, q <= x))); return q, r

    def seterr(s, q, v): q.w(s.err.obj).cells[0] = (4, v)

    def fails(s, q, what):
        """the call fails and moves nothing"""
        v = BV('errno', 32); q.pc.append(v != 0); s.seterr(q, v); q.ghost['last'] = (what, 'error'); q.tags['errno'] = v; q.note(f'{what} fails'); return M64

    def range(s, e, q, a, what):
        e.prove(q, eq(a[0], s.fd, 32), 'call/this-socket'); n = bv(a[2], 64); p = a[1]
        ok = e.prove(q, isinstance(p, Ptr) and p.obj == s.buf.obj, 'memory/outside-the-given-span', f'{what} at {p}')
        if not ok: return None
        e.prove(q, z3.And(z3.ULE(bv(p.off, 64), s.n), z3.ULE(n, s.n - bv(p.off, 64))), 'memory/outside-the-given-span', f'{what} of {a[2]} bytes at +{p.off} of {s.n}'); e.prove(q, eq(p.off, q.ghost['#moved']), 'transfer/continues-where-the-last-one-ended', f'{what} at +{p.off}, {q.ghost["#moved"]} bytes were moved: a gap or a repetition')
        e.prove(q, n != 0, 'call/asks-for-something', 'nothing can be told from moving 0 of 0 bytes')
        return n

    def moved(s, q, k): q.ghost['#moved'] = add(q.ghost['#moved'], k)

    def recv(s, e, q, i, a, fn):
        n = s.range(e, q, a, 'recv')
        if n is None: return []
        e.prove(q, bv(a[3], 32) & ~z3.BitVecVal(s.off('harmless'), 32) == 0, 'call/plain-recv', 'flags change what recv does'); c, x = q.clone(), q.clone()
        for y in (q, c, x): y.forks += 1
        k = BV('received'); q.pc += [k != 0, z3.ULE(k, n)]; s.moved(q, k); q.ghost['last'] = ('recv', 'moved'); q.note('recv'); c.ghost['last'] = ('recv', 'closed'); c.note('recv: closed')
        return [(q, k), (c, 0), (x, s.fails(x, 'recv'))]

    def send(s, e, q, i, a, fn):
        n = s.range(e, q, a, 'send')
        if n is None: return []
        e.prove(q, bv(a[3], 32) & s.off('nosignal') != 0, 'call/closed-connection-is-reported-not-signalled', 'sending on a connection the peer closed kills the process with SIGPIPE instead of reporting closed')
        e.prove(q, bv(a[3], 32) & ~z3.BitVecVal(s.off('harmless'), 32) == 0, 'call/plain-send'); x = q.clone(); q.forks += 1; x.forks += 1
        k = BV('sent'); q.pc += [z3.ULE(k, n)]; s.moved(q, k); q.ghost['last'] = ('send', 'moved'); q.note('send'); return [(q, k), (x, s.fails(x, 'send'))]

    def poll(s, e, q, i, a, fn):
        e.prove(q, isinstance(a[0], Ptr) and a[0].obj == s.sched.obj, 'call/its-scheduler'); e.prove(q, eq(a[1], s.fd, 32), 'call/this-socket'); op = 'read' if s.reading else 'write'
        e.prove(q, eq(a[2], s.off('op_' + op)), 'call/waits-for-the-right-direction'); t = bv(a[3], 64); e.prove(q, t == s.ms, 'call/waits-no-longer-than-the-timeout', f'{a[3]} ms'); q.ghost['polled'] = 1; q.note(f'poll({op})')
        x = q.clone(); q.forks += 1; x.forks += 1; v = BV('poll status', 32); x.pc.append(z3.Or(*[v == s.off('st_' + m) for m in ('timeout', 'error', 'closed', 'cancelled')])); x.ghost['last'] = ('poll', 'not ready'); x.tags['poll'] = v; x.note('poll: not ready'); q.ghost['last'] = ('poll', 'ready')
        return [(q, s.off('st_' + op)), (x, v)]

    def some(s, e, q, i, a, fn):
        """the contract of read_some_impl and write_some_impl (discharged by part_read_some and part_write_some)"""
        off = s.off; k_ = lambda n: off('k_' + n); what = 'recv' if s.reading else 'send'; e.prove(q, isinstance(a[0], Ptr) and a[0].obj == s.c.obj, 'call/this-socket'); n = s.range(e, q, [s.fd, a[1], a[2], 0], what)
        if n is None: return []
        t = bv(a[3], 64); e.prove(q, z3.If(s.ms > 0, z3.And(t > 0, t <= s.ms), t <= 0), 'call/waits-no-longer-than-the-timeout', f'{a[3]} ms')
        def put(q, ty, code, p, n):
            for at, z, v in ((0, 4, ty), (4, 4, code), (8, 8, p), (16, 8, n)): q.w(a[4].obj).cells[at + a[4].off] = (z, v)
        x = q.clone(); q.forks += 1; x.forks += 1; k = BV('moved'); q.pc += [z3.ULE(k, n)] + ([k != 0] if s.reading else []); s.moved(q, k); q.ghost['last'] = (what, 'moved'); q.note(f'{what}s some'); p = a[1]
        put(q, k_('ok'), 0, *((p, k) if s.reading else (Ptr(p.obj, add(p.off, k)), sub(n, k))))
        ty, code = BV('status', 32), BV('native code', 32); x.pc.append(ty != k_('ok')); x.ghost['last'] = (what, 'not'); x.tags['status'] = (ty, code); x.note(f'{what}s nothing'); put(x, ty, code, *((0, 0) if s.reading else (p, n))); return [(q, None), (x, None)]

    def one(s, q, f, a): r = s.eng.call(q, f, a); assert len(r) == 1 and r[0][1][0] == 'ret', (f, r); return r[0]

    def out(s, q, o):
        l = lambda k, z: s.eng.load(q, Ptr(o.obj, k), z, 'ptr' if k == 8 else f'i{8*z}')[0][1]
        return l(0, 4), l(4, 4), l(8, 8), l(16, 8)


def status(h, e, q, fn, v, o, what):
    x = q.new('fresh', 'expected', 24); (q2, _), = e.call(q, fn, [v, x])
    for f in (0, 4): e.prove(q2, eq(e.load(q2, Ptr(x.obj, f), 4, 'i32')[0][1], o[f // 4], 32), what, f'status {o[0]} / native code {o[1]}')


def transfer(name, reading, whole, wide=()):
    def part(ctx):
        if wide:
            try: ctx.module('tcp.cpp', wide)
            except ExtractionError:
                # buffers of elements larger than a byte are refused at compile time: nothing can be reported about them
                e = ctx.engine(ctx.module('tcp.cpp'), f'tcp client: {name} of 8 byte elements'); e.prove(State(), True, 'wide/refused-by-the-compiler'); return
        for given in (True, False):
            h = H(ctx, name + (' of 8 byte elements' if wide else '') + ('' if given else ' (empty buffer)'), reading, whole, wide); e, st, off = h.eng, h.st, h.off; seen = set(); st.pc.append(h.n != 0 if given else h.n == 0); k = lambda n: off('k_' + n); c = 'x' if wide else 'r' if reading else 'w'
            sp = st.new('fresh', 'span', off('span')); el = BV('elements'); st.pc += [h.n == el * 8, z3.ULT(el, 1 << 37)] if wide else []; st, _ = h.one(st, 'vc_wspan' if wide else 'vc_span', [sp, h.buf, el if wide else h.n]); t = st.new('fresh', 'task', 8); st, _ = h.one(st, 'vc_wide' if wide else 'vc_' + name, [h.c, sp, h.ms, t]); e.prove(st, st.ghost['last'] is None, 'post/lazy'); st, oc = h.one(st, f'vc_{c}handle', [t])
            for q, oc in resume_top(e, st, oc[1]):
                e.prove(q, oc[0] != 'throw', 'post/no-exception', str(oc)); o_ = q.new('fresh', 'result', 24); g = q.ghost
                if not e.prove(q, all(e.entails(q, eq(q.coros[x].done, 1)) if is_term(q.coros[x].done) else q.coros[x].done for x in q.coros if q.mem[x].dead is None), 'post/completes'): continue
                q, _ = h.one(q, f'vc_{c}result', [t, o_]); g = q.ghost; o = h.out(q, o_); ty, code, p, n = o; ok = eq(ty, k('ok'), 32); last = g['last']; seen.add(last if given else 'empty')
                if any(x is UNDEF for x in o): e.fail(q, 'post/result-defined'); continue
                if not given: e.prove(q, ok, 'post/empty-is-ok'); e.prove(q, eq(n, 0), 'post/reports-nothing-for-nothing'); e.prove(q, last is None, 'post/nothing-moved-for-an-empty-buffer'); continue
                if whole and last is None: last = ('no', 'attempt')      # the time was up before the first one
                if not e.prove(q, last is not None and last != ('poll', 'ready'), 'post/outcome-of-an-attempt', f'{last}'): continue
                moved = g['#moved']; left = sub(h.n, moved)
                # what is reported: reads tell what was received, writes what was not sent
                at, num = (0, moved) if reading else (moved, left); inside = isinstance(p, Ptr) and p.obj == h.buf.obj
                e.prove(q, eq(bv(n, 64) * 8 if wide else n, num), 'post/reports-exactly-the-bytes-moved', f'{n} bytes reported, {num} {"received" if reading else "not sent"} ({last})')
                e.prove(q, Or(eq(num, 0), And(inside, eq(p.off, at)) if inside else False), 'post/reported-bytes-are-where-they-were-moved', f'{p} instead of buffer +{at}')
                if whole and last[1] == 'moved': e.prove(q, z3.Implies(boolterm(ok), z3.And(bv(moved, 64) == h.n, bv(left, 64) == 0)), 'post/ok-only-after-exactly-the-requested-bytes')
                if last[1] in ('moved', 'attempt'):
                    if whole: e.prove(q, Or(ok, And(eq(ty, k('timeout'), 32), h.ms > 0, left != 0)), 'post/status-of-the-last-transfer', str(ty))
                    else: e.prove(q, ok, 'post/ok-after-a-transfer', str(ty))
                else:
                    e.prove(q, Not(ok), 'post/failure-is-not-ok', f'{last} reported as ok')
                    if whole: e.prove(q, And(eq(ty, q.tags['status'][0], 32), eq(code, q.tags['status'][1], 32)), 'post/status-of-the-failed-attempt', str(ty))
                    elif last == ('recv', 'closed'): e.prove(q, eq(ty, k('closed'), 32), 'post/closed', str(ty))
                    elif last[1] == 'not ready': status(h, e, q, 'vc_pollst', q.tags['poll'], o, 'post/status-of-the-poll')
                    else:
                        v = q.tags['errno']; status(h, e, q, 'vc_native', v, o, 'post/status-of-the-errno')
                        if not g['polled']: e.prove(q, Not(eq(ty, k('would_block_or_try_again'), 32)), 'post/waits-for-readiness', 'would-block is reported although nobody waited')
            want = {('poll', 'not ready'), ('recv', 'moved'), ('recv', 'closed'), ('recv', 'error')} if reading else {('poll', 'not ready'), ('send', 'moved'), ('send', 'error')}
            if whole: want = {(('recv' if reading else 'send'), x) for x in ('moved', 'not')}
            if given: e.prove(State(), want <= seen, 'cover/outcomes', str(seen))
    part.__name__ = 'part_' + name + ('_wide' if wide else '')
    return part


def part_connect(ctx):
    for cached in (False, True):
        h = H(ctx, 'connect' + (' again' if cached else ''), 0, 0); e, st, off = h.eng, h.st, h.off; C = e.contract_first; o = st.w(h.c.obj); was = BV('status', 32); so = BV('SO_ERROR', 32); o.cells[off('c_status')] = (4, was); o.cells[off('c_status') + 4] = (1, int(cached)); N = lambda n: off('n_' + n); st.ghost.update(asked=0, con=None)
        (st, oc), = e.call(st, 'vc_endpoint', [h.c]); ep = oc[1]; (st, oc), = e.call(st, 'vc_endlen', [h.c]); el = oc[1]; st.pc.append(z3.Or(*[was == N(x) for x in ('connected', 'timeout', 'error')]))
        def connect(e, q, i, a, fn):
            e.prove(q, eq(a[0], h.fd, 32), 'call/this-socket'); e.prove(q, q.ghost['con'] is None, 'connect/once'); e.prove(q, isinstance(a[1], Ptr) and isinstance(ep, Ptr) and a[1].obj == ep.obj and norm(And(eq(a[1].off, ep.off), eq(a[2], el, 32))), 'call/the-endpoint-asked-for', str(a[1])); x = q.clone(); q.forks += 1; x.forks += 1; q.ghost['con'] = 'done'; h.fails(x, 'connect'); x.ghost['con'] = 'failed'; return [(q, 0), (x, 0xffffffff)]
        def sockopt(e, q, i, a, fn):
            e.prove(q, eq(a[0], h.fd, 32), 'call/this-socket'); e.prove(q, eq(a[2], off('so_error'), 32), 'call/asks-for-the-pending-error'); ok = e.prove(q, isinstance(a[3], Ptr), 'call/result'); q.w(a[3].obj).cells[a[3].off] = (4, so); q.ghost['asked'] = 1; q.note('getsockopt'); return 0
        C('=connect', connect); C('=getsockopt', sockopt)
        t = st.new('fresh', 'task', 8); st, _ = h.one(st, 'vc_connect', [h.c, h.ms, t]); e.prove(st, st.ghost['con'] is None, 'post/lazy'); st, oc = h.one(st, 'vc_chandle', [t]); seen = set()
        for q, oc in resume_top(e, st, oc[1]):
            e.prove(q, oc[0] != 'throw', 'post/no-exception', str(oc)); q, oc = h.one(q, 'vc_cresult', [t]); r, g = oc[1], q.ghost; now = e.load(q, Ptr(h.c.obj, off('c_status')), 4, 'i32')[0][1]; have = e.load(q, Ptr(h.c.obj, off('c_status') + 4), 1, 'i8')[0][1]
            e.prove(q, And(eq(now, r, 32), eq(have, 1, 8)), 'post/remembered')
            if cached: e.prove(q, eq(r, was, 32), 'post/the-first-status'); e.prove(q, g['con'] is None, 'connect/once'); continue
            seen.add((g['con'], g['polled'], g['last'])); ready = g['last'] == ('poll', 'ready')
            if not e.prove(q, g['con'] is not None, 'post/outcome-of-an-attempt'): continue
            if g['con'] == 'done': e.prove(q, eq(r, N('connected'), 32), 'post/connected'); continue
            e.prove(q, z3.Implies(boolterm(eq(r, N('connected'), 32)), boolterm(And(bool(g['polled'] and ready and g['asked']), eq(so, 0, 32)))), 'post/connected-only-if-it-is', f'{g["last"]}')
            if ready: e.prove(q, Or(Not(eq(so, 0, 32)), eq(r, N('connected'), 32)), 'post/connected')
            e.prove(q, boolterm(eq(r, N('timeout'), 32)) == boolterm(eq(q.tags['poll'], off('st_timeout'), 32) if g['polled'] and not ready else False), 'post/timeout-iff-the-poll-timed-out', str(r))
        if not cached: e.prove(State(), {('done', 0, None), ('failed', 1, ('poll', 'ready')), ('failed', 1, ('poll', 'not ready')), ('failed', 0, ('connect', 'error'))} <= seen, 'cover/outcomes', str(seen))


PARTS = [transfer('read_some', 1, 0), transfer('read_exact', 1, 1), transfer('write_some', 0, 0), transfer('write_all', 0, 1), transfer('read_some', 1, 0, ('-DWIDE',)), transfer('read_exact', 1, 1, ('-DWIDE', '-DWIDE_EXACT')), part_connect]
