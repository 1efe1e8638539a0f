"""C21: udp peer -- datagrams carry the right bytes and address."""
import z3
from vcgen.core import *
from vcgen.engine import *
from vcgen.proto import *
from vcgen.monitor import resume_top

NOTE = ('write_to and read_from (and sendto, recvfrom, poll inside) proved for every buffer size, element size 1 and 8, any address, timeout, readiness flag, bound or not, and every outcome of the system calls and of the poll. scheduler::poll is a contract (C14), make_io_status_* are the ones proved in C25 and are executed here. '
        'Assumed: a datagram is sent whole or not at all. An empty buffer moves nothing and is reported as ok (as documented by the code).')
TUS = ['udp.cpp']
TRUSTED = ['sendto sends the whole datagram to the given address or returns -1 with errno; recvfrom stores at most the given number of bytes at the start of the buffer, writes the address of the sender (at most the given length) and its length, or returns -1 with errno and stores nothing']
W = 16
key = lambda p: (p.obj, p.off) if isinstance(p, Ptr) else p


class H:
    def __init__(s, ctx, name, reading, scale):
        ctx.concurrent = False; s.reading = reading
        for t in TRUSTED:
            if t not in ctx.trusted: ctx.trusted.append(t)
        s.mod = ctx.module('udp.cpp'); s.eng = e = ctx.engine(s.mod, 'udp peer: ' + name); s.off = off = lambda n: ctx.off(s.mod, n); s.st = st = State(); C = e.contract_first
        s.sched = st.new('opaque', 'scheduler'); s.c = st.new('lazy', 'peer', off('peer')); o = st.w(s.c.obj); s.rr, s.wr, s.bound = BV('read ready', 8), BV('write ready', 8), BV('bound', 8); st.pc += [z3.ULE(x, 1) for x in (s.rr, s.wr, s.bound)]
        for f, v in (('read', s.rr), ('write', s.wr), ('bound', s.bound)): o.cells[off('p_' + f)] = (1, v)
        o.cells[off('p_scheduler')] = (8, s.sched); (st, oc), = e.call(st, 'vc_fd', [s.c]); s.fd = oc[1]; s.st = st
        s.el = BV('elements'); st.pc.append(z3.ULT(s.el, 1 << 36)); s.n = s.el * scale; s.buf = st.new('bytes', 'buffer'); s.ms = BV('timeout'); st.pc += [s.ms <= 1 << 40, s.ms >= -(1 << 40)]
        s.to = st.new('fresh', 'address', off('addr')); s.toc = [BV(f'address word {k}') for k in range(W)]; s.tol = BV('address length', 32); o = st.w(s.to.obj)
        for k in range(W): o.cells[off('a_storage') + 8 * k] = (8, s.toc[k])
        o.cells[off('a_len')] = (4, s.tol)
        st.ghost.update(last=None, polled=0, moved=None, who=None); s.err = st.new('fresh', 'errno', 4)
        C('=__errno_location', lambda e, q, i, a, fn: s.err); C('=sendto', s.sendto); C('=recvfrom', s.recvfrom); C('=vc_poll', s.poll)

    def fails(s, q, what):
        v = BV('errno', 32); q.pc.append(v != 0); q.w(s.err.obj).cells[0] = (4, v); q.ghost['last'] = (what, 'error'); q.tags['errno'] = v; q.note(f'{what} fails'); return M64

    def common(s, e, q, a, what):
        e.prove(q, eq(a[0], s.fd, 32), 'call/this-socket'); e.prove(q, q.ghost['moved'] is None, 'call/one-datagram', 'a second datagram is moved'); ok = e.prove(q, isinstance(a[1], Ptr) and a[1].obj == s.buf.obj and norm(eq(a[1].off, 0)), 'memory/the-given-buffer', f'{what} at {a[1]}')
        e.prove(q, bv(a[3], 32) & ~z3.BitVecVal(s.off('harmless'), 32) == 0, 'call/plain', 'flags'); return ok

    def word(s, q, p, k): return s.eng.load(q, Ptr(p.obj, add(p.off, 8 * k)), 8, 'i64')[0][1]

    def sendto(s, e, q, i, a, fn):
        if not s.common(e, q, a, 'sendto'): return []
        e.prove(q, eq(a[2], s.n), 'send/exactly-the-given-bytes', f'{a[2]} of {s.n} bytes'); e.prove(q, eq(a[5], s.tol, 32), 'send/to-the-given-address', 'length')
        if e.prove(q, isinstance(a[4], Ptr), 'send/to-the-given-address', str(a[4])):
            for k in range(W): e.prove(q, eq(s.word(q, a[4], k), s.toc[k]), 'send/to-the-given-address', f'word {k}')
        x = q.clone(); q.forks += 1; x.forks += 1; q.ghost['last'] = ('sendto', 'moved'); q.ghost['moved'] = s.n; q.note('sendto'); return [(q, s.n), (x, s.fails(x, 'sendto'))]

    def recvfrom(s, e, q, i, a, fn):
        if not s.common(e, q, a, 'recvfrom'): return []
        e.prove(q, z3.ULE(bv(a[2], 64), s.n), 'memory/the-given-buffer', f'{a[2]} bytes'); e.prove(q, eq(a[2], s.n), 'recv/up-to-the-whole-buffer', f'{a[2]} bytes'); off = s.off
        if not e.prove(q, isinstance(a[4], Ptr) and isinstance(a[5], Ptr), 'recv/asks-for-the-sender', f'{a[4]}'): return []
        room = e.load(q, a[5], 4, 'i32')[0][1]; e.prove(q, room is not UNDEF and norm(And(z3.ULE(bv(room, 32), off('storage')), z3.UGE(bv(room, 32), off('min_storage')))), 'recv/room-for-any-address', f'{room} bytes'); x = q.clone(); q.forks += 1; x.forks += 1
        for k in range(W):
            v = BV(f'sender word {k}'); (q, _), = e.store(q, Ptr(a[4].obj, add(a[4].off, 8 * k)), 8, v, 'i64'); q.tags[('who', k)] = v
        n = BV('sender length', 32); q.pc.append(z3.ULE(n, bv(room, 32))); q.tags['wholen'] = n; (q, _), = e.store(q, a[5], 4, n, 'i32'); k = BV('received'); q.pc.append(z3.ULE(k, s.n)); q.ghost['last'] = ('recvfrom', 'moved'); q.ghost['moved'] = k; q.note('recvfrom')
        return [(q, k), (x, s.fails(x, 'recvfrom'))]

    def poll(s, e, q, i, a, fn):
        e.prove(q, isinstance(a[0], Ptr) and a[0].obj == s.sched.obj, 'call/its-scheduler'); e.prove(q, eq(a[1], s.fd, 32), 'call/this-socket'); op = 'read' if s.reading else 'write'
        e.prove(q, eq(a[2], s.off('op_' + op)), 'call/waits-for-the-right-direction'); e.prove(q, eq(a[3], s.ms), 'call/waits-no-longer-than-the-timeout', f'{a[3]} ms'); q.ghost['polled'] = 1; q.note(f'poll({op})')
        x = q.clone(); q.forks += 1; x.forks += 1; v = BV('poll status', 32); x.pc.append(z3.Or(*[v == s.off('st_' + m) for m in ('timeout', 'error', 'closed', 'cancelled')])); x.ghost['last'] = ('poll', 'not ready'); x.tags['poll'] = v; x.note('poll: not ready'); q.ghost['last'] = ('poll', 'ready')
        return [(q, s.off('st_' + op)), (x, v)]

    def one(s, q, f, a): r = s.eng.call(q, f, a); assert len(r) == 1 and r[0][1][0] == 'ret', (f, r); return r[0]

    def status(s, q, fn, v, o, what):
        x = q.new('fresh', 'expected', 40); q, _ = s.one(q, fn, [v, x])
        for f in (0, 4): s.eng.prove(q, eq(s.eng.load(q, Ptr(x.obj, f), 4, 'i32')[0][1], o[f // 4], 32), what, f'status {o[0]} / native code {o[1]}')


def transfer(reading, scale):
    name = ('read_from' if reading else 'write_to') + (f' ({scale} byte elements)' if scale > 1 else '')
    def part(ctx):
        for given in (True, False):
            h = H(ctx, name + ('' if given else ' (empty buffer)'), reading, scale); e, st, off = h.eng, h.st, h.off; seen = set(); st.pc.append(h.n != 0 if given else h.n == 0); k = lambda n: off('k_' + n); c = 'r' if reading else 'w'; w = 'w' if scale > 1 else ''
            sp = st.new('fresh', 'span', off('span')); st, _ = h.one(st, f'vc_{w}span', [sp, h.buf, h.el]); t = st.new('fresh', 'task', 8); st, _ = h.one(st, f'vc_{w}' + ('read' if reading else 'write'), [h.c] + ([] if reading else [h.to]) + [sp, h.ms, t]); e.prove(st, st.ghost['last'] is None, 'post/lazy'); st, oc = h.one(st, f'vc_{c}handle', [t])
            for q, oc in resume_top(e, st, oc[1]):
                e.prove(q, oc[0] != 'throw', 'post/no-exception', str(oc)); o_ = q.new('fresh', 'result', 40); live = [q.coros[x].done for x in q.coros if q.mem[x].dead is None]
                if not e.prove(q, all(e.entails(q, eq(x, 1)) if is_term(x) else x for x in live), 'post/completes'): continue
                q, _ = h.one(q, f'vc_{c}result', [t, o_]); g = q.ghost; l = lambda at, z: e.load(q, Ptr(o_.obj, at), z, 'ptr' if z == 8 and at != 16 else f'i{8*z}')[0][1]; ty, code, p, n, ad = l(0, 4), l(4, 4), l(8, 8), l(16, 8), l(24, 8); ok = eq(ty, k('ok'), 32); last = g['last']; seen.add(last)
                if any(x is UNDEF for x in (ty, code, p, n)): e.fail(q, 'post/result-defined'); continue
                ub = eq(ty, k('udp_not_bound'), 32)
                if last is None:
                    # nothing was asked of the system: not bound, or nothing to move
                    e.prove(q, eq(n, 0), 'post/nothing-moved-nothing-reported')
                    if reading: e.prove(q, Or(And(eq(h.bound, 0, 8), ub), And(eq(h.bound, 1, 8), ok, not given)), 'post/unbound-is-reported', str(ty))
                    else: e.prove(q, And(ok, not given), 'post/outcome-of-an-attempt', str(ty))
                    continue
                if not given and reading: e.prove(q, eq(h.bound, 1, 8), 'post/unbound-is-reported')
                if not e.prove(q, last != ('poll', 'ready'), 'post/outcome-of-an-attempt', str(last)): continue
                if reading: e.prove(q, eq(h.bound, 1, 8), 'post/unbound-is-reported', 'an unbound peer reads')
                if last[1] == 'moved':
                    e.prove(q, ok, 'post/ok-after-a-transfer', str(ty))
                    if reading:
                        e.prove(q, eq(n, g['moved']), 'post/reports-exactly-the-bytes-received', f'{n} of {g["moved"]}'); e.prove(q, Or(eq(n, 0), isinstance(p, Ptr) and p.obj == h.buf.obj and norm(eq(p.off, 0))), 'post/inside-the-given-buffer', str(p))
                        for j in range(W): e.prove(q, eq(h.word(q, Ptr(ad.obj, add(ad.off, off('a_storage'))), j), q.tags[('who', j)]), 'post/the-true-sender', f'word {j}')
                        e.prove(q, eq(e.load(q, Ptr(ad.obj, add(ad.off, off('a_len'))), 4, 'i32')[0][1], q.tags['wholen'], 32), 'post/the-true-sender', 'length')
                    continue
                e.prove(q, Not(ok), 'post/failure-is-not-ok', str(last)); e.prove(q, Not(ub), 'post/bound', 'reported as not bound'); e.prove(q, eq(n, 0), 'post/nothing-moved-nothing-reported')
                if last[1] == 'not ready': h.status(q, 'vc_pollst', q.tags['poll'], (ty, code), 'post/status-of-the-poll')
                else:
                    h.status(q, 'vc_native', q.tags['errno'], (ty, code), 'post/status-of-the-errno')
                    if not g['polled']: e.prove(q, Not(eq(ty, k('would_block_or_try_again'), 32)), 'post/waits-for-readiness', 'would-block is reported although nobody waited')
            f = 'recvfrom' if reading else 'sendto'
            if given: e.prove(State(), {('poll', 'not ready'), (f, 'moved'), (f, 'error')} <= seen, 'cover/outcomes', str(seen))
    part.__name__ = 'part_' + ('read' if reading else 'write') + str(scale)
    return part


def part_peers(ctx):
    for op in ('new', 'new_bound', 'copy', 'move', 'assign', 'massign', 'assign to itself', 'massign to itself'):
        mod = ctx.module('udp.cpp'); e = ctx.engine(mod, 'udp peer: ' + op); off = lambda n: ctx.off(mod, n); st = State(); C = e.contract_first; st.ghost.update(socks=()); fn, me = op.split()[0], op.endswith('itself'); new = fn in ('new', 'new_bound', 'copy', 'move')
        def peer(name, fresh):
            p = st.new('fresh' if fresh else 'lazy', name, off('peer')); 
            if fresh: return p, None
            o = st.w(p.obj); sch = st.new('opaque', f'scheduler of {name}'); b = BV(f'{name} bound', 8); st.pc.append(z3.ULE(b, 1))
            for f in ('read', 'write'): r = BV(f'{name} {f} ready', 8); st.pc.append(z3.ULE(r, 1)); o.cells[off('p_' + f)] = (1, r)
            o.cells[off('p_bound')] = (1, b); o.cells[off('p_scheduler')] = (8, sch); return p, (sch, b)
        def sock(q, p): r = e.call(q, 'vc_sock', [p]); return r[0][1][1]
        def member(e, q, i, a, f):
            how = 'destroy' if '~' in f.d.split('(')[0] else 'move' if '&&' in f.d else 'copy' if 'socket const&' in f.d else 'new'
            q.ghost['socks'] += ((how, key(a[0]), key(a[1]) if how in ('copy', 'move') else None),); q.note(f'socket {how}'); return a[0] if 'operator=' in f.base else None
        C(r'^coro::net::socket::(socket|~socket|operator=)$', member)
        def made(e, q, i, a, f):
            x = q.clone(); q.forks += 1; x.forks += 1; op_ = next((y for y in a if isinstance(y, Ptr)), None); q.ghost['socks'] += ((f.base.split('::')[-1], a[0], tuple(a[1:])),); q.note(f.base.split('::')[-1]); p = x.new('heap', 'exception', 16); x.tags[('exc', p.obj)] = 'no socket'; x.note('no socket'); return [(q, None), (x, Throw(Exc(p, '_ZTISt13runtime_error')))]
        C(r'^coro::net::make_(accept_)?socket$', made)
        p, was = peer('peer', new); o, ow = (p, was) if me else peer('other', False) if fn not in ('new', 'new_bound') else (None, None)
        if o is None:
            sch = st.new('opaque', 'scheduler'); null = BV('no scheduler', 8); up = st.new('fresh', 'unique_ptr', 8); addr = st.new('fresh', 'address', off('addr')); dom = BV('domain', 32); st.pc.append(z3.Or(dom == off('ipv4'), dom == off('ipv6'))); runs = []
            for k in range(W): st.w(addr.obj).cells[off('a_storage') + 8 * k] = (8, BV(f'address word {k}'))
            st.w(addr.obj).cells[off('a_len')] = (4, BV('address length', 32))
            for n in (0, 1): x = st.clone(); x.w(up.obj).cells[0] = (8, 0 if n else sch); runs += [(q, oc, n) for q, oc in e.call(x, 'vc_' + fn, [p, up, addr if fn == 'new_bound' else dom])]
        else: runs = [(q, oc, 0) for q, oc in e.call(st, 'vc_' + fn, [p, o])]
        for q, oc, null in runs:
            g = q.ghost; L = lambda x, f, z: e.load(q, Ptr(x.obj, off('p_' + f)), z, 'ptr' if z == 8 else 'i8')[0][1]
            if oc[0] == 'throw': e.prove(q, o is None, 'post/no-exception', str(oc)); continue
            e.prove(q, not null, 'post/no-peer-without-a-scheduler')
            for f in ('read', 'write'): v = L(p, f, 1); e.prove(q, v is not UNDEF and norm(z3.ULE(bv(v, 8), 1)), 'post/readiness-defined', f)
            if o is None:
                k = g['socks'][0] if g['socks'] else None; e.prove(q, k is not None and k[0] == ('make_accept_socket' if fn == 'new_bound' else 'make_socket'), 'post/its-kind-of-socket', str(g['socks'])); e.prove(q, eq(L(p, 'bound', 1), int(fn == 'new_bound'), 8), 'post/bound-iff-an-endpoint-was-given', str(L(p, 'bound', 1))); e.prove(q, key(L(p, 'scheduler', 8)) == key(sch), 'post/its-scheduler'); continue
            sp, so = key(sock(q, p)), key(sock(q, o)); ops = [x for x in g['socks'] if x[1] == sp]
            if me: e.prove(q, all(x[0] in ('copy', 'move') and x[2] == so for x in ops), 'post/assigned-to-itself-unchanged'); e.prove(q, And(key(L(p, 'scheduler', 8)) == key(was[0]), eq(L(p, 'bound', 1), was[1], 8)), 'post/assigned-to-itself-unchanged'); continue
            e.prove(q, [x for x in ops if x[0] in ('copy', 'move')][-1:] == [('copy' if fn in ('copy', 'assign') else 'move', sp, so)], 'post/the-socket-of-the-other', str((g['socks'], sp, so))); e.prove(q, key(L(p, 'scheduler', 8)) == key(ow[0]), 'post/the-scheduler-of-the-other'); e.prove(q, eq(L(p, 'bound', 1), ow[1], 8), 'post/bound-like-the-other', str(L(p, 'bound', 1)))


PARTS = [transfer(r, s) for r in (0, 1) for s in (1, 8)] + [part_peers]
