"""C26: tls client -- plaintext moved exactly, handshake verified."""
import z3
from vcgen.core import *
from vcgen.engine import *
from vcgen.proto import *
from vcgen.run import ExtractionError
from vcgen.monitor import resume_top

NOTE = ('recv, send, handshake and connect proved for every buffer size, timeout (or none) and every sequence (any length, by loop invariant) of outcomes of the tls library (success, want-read, want-write, any error) and of the polls between them; connect against the contract of handshake that part_handshake discharges. '
        'scheduler::poll is a contract (C14). Assumed: the OpenSSL contracts listed under trusted; verification of the certificate itself is the library\'s.')
TUS = [('tls.cpp', ('-DLIBCORO_FEATURE_TLS', '-DLIBCORO_FEATURE_NETWORKING'))]
FL = ('-DLIBCORO_FEATURE_TLS', '-DLIBCORO_FEATURE_NETWORKING')
TRUSTED = ['OpenSSL: SSL_read_ex/SSL_write_ex either return 1 and move between 1 and the given number of bytes at the start of the range, or return <= 0 and move nothing; SSL_get_error classifies the last call provided the error queue of the thread was empty before it; SSL_pending is 0 after a read that wanted more from the socket; SSL_connect returns 1 exactly when the handshake is complete',
           'steady_clock does not go backwards', 'getsockopt(SO_ERROR) succeeds and stores the pending error', '::connect fails or succeeds as documented']
FINAL = ('timeout', 'error', 'closed', 'cancelled')


class H:
    def __init__(s, ctx, name, dir=None, flags=(), has=0):
        ctx.concurrent = False; s.dir = dir
        for t in TRUSTED:
            if t not in ctx.trusted: ctx.trusted.append(t)
        s.mod = ctx.module('tls.cpp', FL + tuple(flags)); s.eng = e = ctx.engine(s.mod, 'tls client: ' + name); s.off = off = lambda n: ctx.off(s.mod, n); s.st = st = State(); C = e.contract_first; e.hooks['divmod'] = True; e.divmod = s.divmod; e.hooks['mulc'] = s.mulc; e.hooks['loop_cands'] = lambda e, D, S, pairs: [z3.Or(p[3] == s.ms, z3.And(p[3] > 0, p[3] <= s.ms)) for p in pairs if is_term(p[3]) and p[3].size() == 64]
        s.sched = st.new('opaque', 'scheduler'); s.ssl = st.new('opaque', 'ssl'); s.c = st.new('lazy', 'client', off('client')); o = st.w(s.c.obj); o.cells[off('c_scheduler')] = (8, s.sched); (st, oc), = e.call(st, 'vc_fd', [s.c]); s.fd = oc[1]; s.st = st
        o = st.w(s.c.obj); s.has = has; s.accept = BV('server side', 32); st.pc.append(z3.ULE(s.accept, 1)); o.cells[off('c_info') + off('i_type')] = (4, s.accept)
        s.n = BV('buffer size'); st.pc.append(z3.ULT(s.n, 1 << 40)); s.buf = st.new('bytes', 'buffer'); s.ms = BV('timeout'); st.pc += [s.ms <= 1 << 40, s.ms >= -(1 << 40)]
        # want: what the library asked for; clean: the error queue was emptied since others ran; dry: the library is known to hold no received data; ready: the socket became ready since the last attempt
        st.ghost.update(last=None, **{'#clock': z3.BitVecVal(0, 64)}, want=dir, clean=0, dry=0, ready=0, tried=0, role=None, moved=None)
        s.err = st.new('fresh', 'errno', 4); C('=__errno_location', lambda e, q, i, a, fn: s.err); C('=vc_poll', s.poll)
        def now(e, q, i, a, fn):
            t = BV('now'); g = q.ghost; q.pc += [t >= g['#clock'], t >= 0, t < 1 << 60]; g['#clock'] = t
            return t
        C(r'^std::(chrono::)?(_V2::)?steady_clock::now$', now)
        def clear(e, q, i, a, fn): q.ghost['clean'] = 1; return None
        C('=ERR_clear_error', clear); C('=SSL_get_error', s.geterr)
        def pending(e, q, i, a, fn): e.prove(q, s.mine(a[0]), 'call/this-connection'); x = q.clone(); q.forks += 1; x.forks += 1; x.ghost['dry'] = 1; k = BV('pending', 32); q.pc.append(k > 0); q.note('data is buffered'); return [(q, k), (x, 0)]
        C(r'^SSL_(has_)?pending$', pending)

    def mine(s, p): return isinstance(p, Ptr) and p.obj == s.ssl.obj

    def divmod(s, st, x, c, w, signed):
        """all that is used of converting nanoseconds to milliseconds: 0 <= quotient <= dividend / 2^19"""
        q, r = BV('quot', w), BV('rem', w); k = (x >> 19) if w == 64 and c == 1000000 else x; st.pc += [z3.Implies(x >= 0, z3.And(q >= 0, q <= k)), z3.Implies(x < 0, z3.And(q <= 0, q >= k))]
        if w == 64 and s.eng.entails(st, z3.And(x >= 0, x < 1 << 60)): st.pc += [q >= 0, q <= 1 << 41]
        return q, r

    def mulc(s, st, x, c, w):
        """converting to a finer unit: a fresh value; when the product does not overflow its comparisons with zero are those of x"""
        if w != 64 or c not in (1000, 1000000) or not s.eng.entails(st, z3.And(x < 1 << 43, x > -(1 << 43))): return None
        r = BV('product', w); st.tags['scaled'] = {**st.tags.get('scaled', {}), r.get_id(): (r, x)}; return r

    def attempt(s, e, q, what):
        """a call of the library that may fail with want-read, want-write or an error -> [(state, kind)]"""
        e.prove(q, q.ghost['clean'], 'errors/emptied-before-the-call', 'an error that something else left on this thread is taken for an error of this connection'); q.ghost.update(tried=1, ready=0, clean=0); out = []; off = s.off
        for kind in ('moved', 'want_read', 'want_write', 'error'):
            x = q.clone(); x.forks += 1; x.ghost['last'] = (what, kind); x.note(f'{what}: {kind}')
            if kind == 'moved': x.ghost['err'] = None
            else:
                v = BV('ssl error', 32) if kind == 'error' else off('e_' + kind); x.tags['err'] = v
                if kind == 'error': x.pc += [v != off('e_none'), v != off('e_want_read'), v != off('e_want_write'), z3.ULT(v, 16)]
                else: x.ghost['want'] = kind[5:]; x.ghost['dry'] = 1
            x.ghost['err'] = kind; out.append((x, kind))
        return out

    def geterr(s, e, q, i, a, fn):
        e.prove(q, s.mine(a[0]), 'call/this-connection'); k = q.ghost.get('err'); e.prove(q, k not in (None, 'moved'), 'errors/asked-after-a-failure'); e.prove(q, z3.BitVecVal(0, 32) >= bv(a[1], 32), 'errors/of-that-call', f'{a[1]}'); return q.tags['err']

    def move(s, what):
        def h(e, q, i, a, fn):
            e.prove(q, s.mine(a[0]), 'call/this-connection'); n = bv(a[2], 64)
            if not e.prove(q, isinstance(a[1], Ptr) and a[1].obj == s.buf.obj, 'memory/the-given-buffer', f'{what} at {a[1]}'): return []
            e.prove(q, And(eq(a[1].off, 0), z3.ULE(n, s.n)), 'memory/the-given-buffer', f'{what} of {a[2]} bytes at +{a[1].off}'); e.prove(q, n != 0, 'call/asks-for-something')
            if what == 'send': e.prove(q, n == s.n, 'call/repeats-the-same-write', f'{n} bytes')
            out = []
            for x, kind in s.attempt(e, q, what):
                if kind == 'moved': k = BV('moved'); x.pc += [k != 0, z3.ULE(k, n)]; x.ghost['moved'] = k; x.ghost['dry'] = 0; e.store(x, a[3], 8, k, 'i64'); out.append((x, 1))
                else: r = BV('result', 32); x.pc.append(r <= 0); out.append((x, r))
            return out
        return h

    def poll(s, e, q, i, a, fn):
        g = q.ghost; e.prove(q, isinstance(a[0], Ptr) and a[0].obj == s.sched.obj, 'call/its-scheduler'); e.prove(q, eq(a[1], s.fd, 32), 'call/this-socket'); want = g['want']
        e.prove(q, eq(a[2], s.off('op_' + want)), 'poll/waits-for-what-the-library-wants', f'{want} is wanted'); e.prove(q, not g['ready'], 'poll/ready-means-try-again', 'waits again although the socket became ready')
        if s.dir == 'read': e.prove(q, Or(want == 'write', g['dry']), 'poll/not-while-data-is-buffered', 'waits for the socket although the library may hold received data'); 
        s.polled(e, q, a[3]); g['clean'] = 0; q.note(f'poll({want})'); x = q.clone(); q.forks += 1; x.forks += 1; v = BV('poll status', 32); x.pc.append(z3.Or(*[v == s.off('st_' + m) for m in FINAL])); x.ghost['last'] = ('poll', 'not ready'); x.tags['poll'] = v; x.note('poll: not ready'); g['last'] = ('poll', 'ready'); g['ready'] = 1
        return [(q, s.off('st_' + want)), (x, v)]

    def polled(s, e, q, t):
        t = bv(t, 64)
        if s.dir is None: e.prove(q, t == s.ms, 'poll/no-longer-than-the-timeout', f'{t} ms')
        else: e.prove(q, z3.Or(t == s.ms, z3.And(t > 0, t <= s.ms)) if s.has else t == 0, 'poll/no-longer-than-the-timeout', f'{t} ms')

    def one(s, q, f, a): r = s.eng.call(q, f, a); assert len(r) == 1 and r[0][1][0] == 'ret', (f, r); return r[0]


def transfer(name, wide=False):
    def part(ctx):
        flags = (('-DWIDE', '-DWIDE_SEND') if name == 'send' else ('-DWIDE',)) if wide else (); reading = name == 'recv'; dir = 'read' if reading else 'write'
        if wide:
            try: ctx.module('tls.cpp', FL + flags)
            except ExtractionError:
                e = ctx.engine(ctx.module('tls.cpp', FL), f'tls client: {name} of 8 byte elements'); e.prove(State(), True, 'wide/refused-by-the-compiler'); return
        for given, has in ((True, 1), (True, 0), (False, 0)):
            h = H(ctx, name + (' of 8 byte elements' if wide else '') + ('' if given else ' (empty buffer)') + (' with a timeout' if has else ''), dir, flags, has); e, st, off = h.eng, h.st, h.off; seen = set(); st.pc.append(h.n != 0 if given else h.n == 0); k = lambda n: off(('r_' if reading else 's_') + n); c = 'x' if wide else 'r' if reading else 'w'; C = e.contract_first
            st.w(h.c.obj).cells[off('c_info') + off('i_ptr')] = (8, h.ssl); C('=SSL_read_ex' if reading else '=SSL_write_ex', h.move(name)); el = BV('elements'); st.pc += [h.n == el * 8, z3.ULT(el, 1 << 37)] if wide else []
            sp = st.new('fresh', 'span', off('span')); st, _ = h.one(st, 'vc_wspan' if wide else 'vc_span', [sp, h.buf, el if wide else h.n]); t = st.new('fresh', 'task', 8); st, _ = h.one(st, 'vc_wide' if wide else 'vc_' + name, [h.c, sp, h.has, h.ms, t]); e.prove(st, st.ghost['last'] is None, 'post/lazy'); st, oc = h.one(st, f'vc_{c}handle', [t])
            for q, oc in resume_top(e, st, oc[1]):
                e.prove(q, oc[0] != 'throw', 'post/no-exception', str(oc)); o_ = q.new('fresh', 'result', 24); live = [q.coros[x].done for x in q.coros if q.mem[x].dead is None]
                if not e.prove(q, all(e.entails(q, eq(x, 1)) if is_term(x) else x for x in live), 'post/completes'): continue
                q, _ = h.one(q, f'vc_{c}result', [t, o_]); g = q.ghost; l = lambda at, z: e.load(q, Ptr(o_.obj, at), z, 'ptr' if at == 8 else f'i{8*z}')[0][1]; s_, p, n = l(0, 8), l(8, 8), l(16, 8); last = g['last']; seen.add(last); is_ = lambda m: eq(s_, sx(k(m))); ok = is_('ok')
                if any(x is UNDEF for x in (s_, p, n)): e.fail(q, 'post/result-defined'); continue
                at = lambda o: isinstance(p, Ptr) and p.obj == h.buf.obj and norm(eq(p.off, o))
                if not given: e.prove(q, is_('buffer_is_empty'), 'post/empty-is-reported'); e.prove(q, eq(n, 0), 'post/reports-nothing-for-nothing'); e.prove(q, last is None, 'post/nothing-moved-for-an-empty-buffer'); continue
                moved = g['moved'] if last == (name, 'moved') else 0; num = moved if reading else sub(h.n, moved)
                e.prove(q, eq(bv(n, 64) * 8 if wide else n, num), 'post/reports-exactly-the-bytes-moved', f'{n} bytes reported, {num} {"received" if reading else "not sent"} ({last})'); e.prove(q, Or(eq(num, 0), at(0 if reading else moved)), 'post/reported-bytes-are-where-they-were-moved', str(p))
                if last == (name, 'moved'): e.prove(q, ok, 'post/ok-after-a-transfer', str(s_)); continue
                e.prove(q, Not(ok), 'post/failure-is-not-ok', f'{last}')
                if last == ('poll', 'not ready'): e.prove(q, And(*[z3.Implies(q.tags['poll'] == off('st_' + m), boolterm(is_(m))) for m in FINAL]), 'post/status-of-the-poll', str(s_))
                elif last == (name, 'error'): e.prove(q, eq(s_, z3.SignExt(32, q.tags['err'])), 'post/status-of-the-library', str(s_))
                else: e.prove(q, And(is_('timeout'), bool(has)), 'post/timeout-only-if-the-time-is-up', f'{last}')
            if given: e.prove(State(), {('poll', 'not ready'), (name, 'moved'), (name, 'error')} <= seen, 'cover/outcomes', str(seen))
    part.__name__ = 'part_' + name + ('_wide' if wide else '')
    return part


def sx(v): return v & M64


def part_handshake(ctx):
    h = H(ctx, 'handshake'); e, st, off = h.eng, h.st, h.off; C = e.contract_first; N = lambda n: off('n_' + n); tls_ctx = st.new('lazy', 'context', off('ctx')); real = st.new('opaque', 'SSL_CTX'); st.w(tls_ctx.obj).cells[off('x_ctx')] = (8, real); o = st.w(h.c.obj); o.cells[off('c_ctx')] = (8, tls_ctx); o.cells[off('c_info') + off('i_ptr')] = (8, 0); st.ghost.update(new=0, fd=0, done=0)
    def new(e, q, i, a, fn): e.prove(q, isinstance(a[0], Ptr) and a[0].obj == real.obj, 'call/its-context'); x = q.clone(); q.forks += 1; x.forks += 1; q.ghost['new'] = 1; x.ghost['new'] = 'failed'; return [(q, h.ssl), (x, 0)]
    def setfd(e, q, i, a, fn): e.prove(q, h.mine(a[0]), 'call/this-connection'); e.prove(q, eq(a[1], h.fd, 32), 'call/this-socket'); x = q.clone(); q.forks += 1; x.forks += 1; q.ghost['fd'] = 1; x.ghost['fd'] = 'failed'; return [(q, 1), (x, 0)]
    def role(r):
        def f(e, q, i, a, fn): e.prove(q, h.mine(a[0]), 'call/this-connection'); q.ghost['role'] = r; return None
        return f
    def shake(e, q, i, a, fn):
        g = q.ghost; e.prove(q, h.mine(a[0]), 'call/this-connection'); e.prove(q, g['fd'] == 1, 'shake/on-the-socket'); f = fn.base.split('::')[-1]; r = g['role'] or {'SSL_connect': 'connect', 'SSL_accept': 'accept'}.get(f)
        e.prove(q, eq(h.accept, off('t_accept') if r == 'accept' else 0, 32) if r else False, 'shake/in-its-role', str(r)); out = []
        for x, kind in h.attempt(e, q, 'shake'):
            if kind == 'moved': x.ghost['done'] = 1; out.append((x, 1))
            else: r = BV('result', 32); x.pc.append(r <= 0); out.append((x, r))
        return out
    C('=SSL_new', new); C('=SSL_set_fd', setfd); C('=SSL_set_connect_state', role('connect')); C('=SSL_set_accept_state', role('accept')); C(r'^SSL_(connect|accept|do_handshake)$', shake)
    def free(e, q, i, a, fn): e.prove(q, not h.mine(a[0]), 'memory/connection-in-use-is-freed'); return None
    C('=SSL_free', free)
    t = st.new('fresh', 'task', 8); st, _ = h.one(st, 'vc_handshake', [h.c, h.ms, t]); st, oc = h.one(st, 'vc_chandle', [t]); seen = set()
    for q, oc in resume_top(e, st, oc[1]):
        e.prove(q, oc[0] != 'throw', 'post/no-exception', str(oc)); g = q.ghost
        if not e.prove(q, oc[0] == 'ret', 'post/completes'): continue
        q, oc = h.one(q, 'vc_cresult', [t]); r = oc[1]; g = q.ghost; last = g['last']; seen.add((g['new'], g['fd'], last)); is_ = lambda m: eq(r, N(m), 32)
        e.prove(q, boolterm(is_('connected')) == bool(g['done']), 'post/connected-iff-the-library-completed-it', f'{r} {last}')
        if g['done']: continue
        if g['new'] == 'failed': e.prove(q, is_('resource_allocation_failed'), 'post/says-why', str(r))
        elif g['fd'] == 'failed': e.prove(q, is_('set_fd_failure'), 'post/says-why', str(r))
        elif last == ('poll', 'not ready'): e.prove(q, And(*[z3.Implies(q.tags['poll'] == off('st_' + m), boolterm(is_(n))) for m, n in (('timeout', 'timeout'), ('error', 'poll_error'), ('closed', 'unexpected_close'), ('cancelled', 'unexpected_close'))]), 'post/status-of-the-poll', str(r))
        else: e.prove(q, last == ('shake', 'error'), 'post/outcome-of-an-attempt', str(last)); e.prove(q, is_('handshake_failed'), 'post/says-why', str(r))
    e.prove(State(), {('failed', 0, None), (1, 'failed', None), (1, 1, ('shake', 'error')), (1, 1, ('shake', 'moved')), (1, 1, ('poll', 'not ready'))} <= seen, 'cover/outcomes', str(seen))


def part_connect(ctx):
    for cached in (False, True):
        h = H(ctx, 'connect' + (' again' if cached else ''), 'write'); h.dir = None; e, st, off = h.eng, h.st, h.off; C = e.contract_first; N = lambda n: off('n_' + n); o = st.w(h.c.obj); was = BV('status', 32); so = BV('SO_ERROR', 32); o.cells[off('c_status')] = (4, was); o.cells[off('c_status') + 4] = (1, int(cached)); tc = st.new('lazy', 'context', off('ctx')); st.ghost.update(asked=0, con=None, shaken=None)
        if not cached: o.cells[off('c_ctx')] = (8, tc)
        (st, oc), = e.call(st, 'vc_endpoint', [h.c]); ep = oc[1]; (st, oc), = e.call(st, 'vc_endlen', [h.c]); el = oc[1]; st.pc.append(z3.ULT(was, 11))
        def connect(e, q, i, a, fn):
            e.prove(q, eq(a[0], h.fd, 32), 'call/this-socket'); e.prove(q, q.ghost['con'] is None, 'connect/once'); e.prove(q, isinstance(a[1], Ptr) and a[1].obj == ep.obj and norm(And(eq(a[1].off, ep.off), eq(a[2], el, 32))), 'call/the-endpoint-asked-for', str(a[1])); x = q.clone(); q.forks += 1; x.forks += 1
            q.ghost['con'] = 'done'; v = BV('errno', 32); x.pc.append(v != 0); x.w(h.err.obj).cells[0] = (4, v); x.ghost['con'] = 'failed'; x.note('connect fails'); return [(q, 0), (x, 0xffffffff)]
        def sockopt(e, q, i, a, fn): e.prove(q, eq(a[0], h.fd, 32), 'call/this-socket'); e.prove(q, eq(a[2], off('so_error'), 32), 'call/asks-for-the-pending-error'); q.w(a[3].obj).cells[a[3].off] = (4, so); q.ghost['asked'] = 1; q.note('getsockopt'); return 0
        def shake(e, q, i, a, fn):
            g = q.ghost; e.prove(q, isinstance(a[0], Ptr) and a[0].obj == h.c.obj, 'call/this-connection'); e.prove(q, Or(g['con'] == 'done', And(bool(g['last'] == ('poll', 'ready') and g['asked']), eq(so, 0, 32))), 'shake/only-when-connected'); e.prove(q, g['shaken'] is None, 'shake/once'); v = BV('handshake status', 32); q.pc.append(z3.ULT(v, 11)); g['shaken'] = v; q.note('handshake'); return v
        C('=connect', connect); C('=getsockopt', sockopt); C('=vc_shake', shake); C('=coro::net::tls::client::handshake', lambda e, q, i, a, fn: [(x, oc[1]) for x, oc in e.call(q, 'vc_stub_shake', a)])
        t = st.new('fresh', 'task', 8); st, _ = h.one(st, 'vc_connect', [h.c, h.ms, t]); e.prove(st, st.ghost['con'] is None, 'post/lazy'); st, oc = h.one(st, 'vc_chandle', [t]); seen = set()
        for q, oc in resume_top(e, st, oc[1]):
            e.prove(q, oc[0] != 'throw', 'post/no-exception', str(oc)); q, oc = h.one(q, 'vc_cresult', [t]); r, g = oc[1], q.ghost; now = e.load(q, Ptr(h.c.obj, off('c_status')), 4, 'i32')[0][1]; have = e.load(q, Ptr(h.c.obj, off('c_status') + 4), 1, 'i8')[0][1]
            e.prove(q, And(eq(now, r, 32), eq(have, 1, 8)), 'post/remembered')
            if cached: e.prove(q, eq(r, was, 32), 'post/the-first-status'); e.prove(q, And(g['con'] is None, g['shaken'] is None), 'connect/once'); continue
            seen.add((g['con'], g['last'], g['shaken'] is not None))
            if not e.prove(q, g['con'] is not None, 'post/outcome-of-an-attempt'): continue
            if g['shaken'] is not None: e.prove(q, eq(r, g['shaken'], 32), 'post/status-of-the-handshake', str(r)); continue
            e.prove(q, Not(eq(r, N('connected'), 32)), 'post/connected-only-after-the-handshake', str(r)); e.prove(q, g['con'] != 'done' and Not(And(g['last'] == ('poll', 'ready'), eq(so, 0, 32))), 'post/shakes-when-connected')
            e.prove(q, boolterm(eq(r, N('timeout'), 32)) == boolterm(eq(q.tags['poll'], off('st_timeout'), 32) if g['last'] == ('poll', 'not ready') else False), 'post/timeout-iff-the-poll-timed-out', str(r))
        if not cached: e.prove(State(), {('done', None, True), ('failed', ('poll', 'ready'), True), ('failed', ('poll', 'ready'), False), ('failed', ('poll', 'not ready'), False), ('failed', None, False)} <= seen, 'cover/outcomes', str(seen))


PARTS = [transfer('recv'), transfer('send'), transfer('recv', True), transfer('send', True), part_handshake, part_connect]
