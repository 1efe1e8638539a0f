"""C06: coro::ring_buffer -- bounded FIFO, every accepted element delivered exactly once, no waiter lost."""
import z3
from vcgen.core import *
from vcgen.engine import *
from vcgen.proto import *
from vcgen.monitor import *

NOTE = 'ring_buffer<elem,1> and ring_buffer<elem,3> proved for every content, waiter count and interleaving against the mutex contract of C01: slots between back and front hold the accepted elements in order; whoever makes space or adds an element while somebody waits owes the wake-up (ghost debt) and must discharge it. try_resume_producers/consumers are proved against their own contract and used through it. Assumes fewer than 2^62 operations per buffer and a non-throwing element type.'
TUS = ['ring_buffer.cpp']
RUN, DRAIN, STOP = 0, 1, 2
PRODUCED, NOTIFIED, STOPPED = 0, 1, 2


class Word(Cell):
    """m_front, m_back, m_used: exact while the lock is held (ghost), unknown otherwise; written with the lock held only"""
    def __init__(s, key, N): s.key, s.N, s.name, s.ty = key, N, key, 'i64'
    def values(s, eng, st, e=None):
        g = st.ghost
        if g['own'] is True:
            if g[s.key] is not None: return [(st, g[s.key])]
            return [(x, x.ghost[s.key]) for x in s.open(st)]
        v = BV(s.key)
        if s.key == 'used':
            st.pc.append(z3.ULE(v, s.N)); g['seen_used'] = v
            if g['run'] != RUN:
                out = []
                for q, z in eng.split(st, v == 0):
                    if z: q.ghost['drained'] = True
                    out.append((q, 0 if z else v))
                return out
        return [(st, v)]
    def transition(s, eng, st, old, new, ord, how):
        if not eng.prove(st, st.ghost['own'] is True, 'ring/changed-without-lock', s.key): return [st]
        st.ghost[s.key] = new; st.note(f'{s.key} {old} -> {new}'); return [st]


class Waiters(Cell):
    def __init__(s, key, kind, nodes, lay): s.key, s.kind, s.nodes, s.lay, s.name = key, kind, nodes, lay, key
    def values(s, eng, st, e=None):
        g = st.ghost
        if g['own'] is not True:
            q = st.clone(); c = s.nodes.chain(q, s.kind, False); return [(st, 0), (q, s.nodes.head(q, c))]
        if g[s.key] is None:
            q = st.clone(); st.ghost[s.key] = 0; c = s.nodes.chain(q, s.kind, False); q.ghost[s.key] = s.nodes.head(q, c); q.chains[c] = q.chains[c].upd(lo=0, hi=q.chains[c].n)
            return [(st, 0), (q, q.ghost[s.key])]
        return [(st, g[s.key])]
    def transition(s, eng, st, old, new, ord, how):
        g = st.ghost; P = lambda c, k, d='': eng.prove(st, c, 'ring/' + k, d)
        st.note(f'{how} {s.key} {old} -> {new}')
        if not P(g['own'] is True, 'waiters-changed-without-lock'): return [st]
        if isinstance(new, Ptr) and not isinstance(new.obj, NodeRef):
            P(g['registered'] is None, 'registered-twice'); P(g['op'] == s.kind, 'registered-on-the-wrong-list')
            g['registered'] = new; g['prev'] = old; g[s.key] = new; return [st]
        if isinstance(new, int) and new == 0 and isinstance(old, int): return [st]
        if isinstance(old, Ptr) and isinstance(old.obj, NodeRef):
            c = st.chains[old.obj.chain]
            if isinstance(new, int) and new == 0 and g['op'] in ('shutdown', 'drain', 'notify'):
                st.chains[c.id] = c.upd(lo=0, hi=c.n, excl=True); g['all_' + s.key] = c.id; g[s.key] = 0; return [st]
            out = []
            for q, nx in s.nodes.next_of(st, c.id, sub(c.n, 1)):
                eng.prove(q, eng.ptr_eq(q, new, nx), 'ring/waiter-lost', 'exactly one waiter may be unlinked at a time')
                cc = q.chains[c.id]; q.chains[c.id] = cc.upd(lo=sub(cc.n, 1), hi=cc.n)
                eng.prove(q, q.ghost['claimed'] is None, 'ring/claimed-waiter-not-resumed', 'another waiter is unlinked before the one unlinked first was resumed')
                q.ghost['claimed'] = s.kind; q.ghost[s.key] = new; out.append(q)
            return out
        eng.fail(st, 'ring/illegal-list-change', f'{old} -> {new}'); return [st]


class Running(Cell):
    size = 4; ty = 'i32'; name = 'running state'
    def values(s, eng, st, e=None):
        g = st.ghost
        if g['own'] is True and g['runx']: return [(st, g['run'])]
        out = []
        for v in range(g['run'], 3): q = st.clone(); q.ghost.update(run=v, runx=g['own'] is True); q.ghost['seen_run'] = v if g['own'] is True else g['seen_run']; out.append((q, v))
        return out
    def transition(s, eng, st, old, new, ord, how):
        g = st.ghost; P = lambda c, k, d='': eng.prove(st, c, 'ring/' + k, d)
        st.note(f'{how} running state {old} -> {new}')
        if old == new: return [st]
        P(g['op'] in ('shutdown', 'drain'), 'state-changed-by-shutdown-only'); P(not is_term(new) and new > old, 'state-moves-forward-only', f'{old} -> {new}')
        P(g['own'] is True, 'state-changed-without-lock', 'an operation that has tested the state could register after the waiters were collected')
        if g['op'] == 'drain' and new == STOP: P(g['drained'] is True, 'stopped-before-drained', 'accepted elements are dropped although the buffer promises to drain them')
        g['run'] = new; g['set'] = g['set'] + (new,); g['owe_p'] = True
        if new == STOP: g['owe_c'] = True
        return [st]


def setup(ctx, mod, N, name, op):
    eng = ctx.engine(mod, f'ring_buffer<{N}>::{name}'); off = lambda x: ctx.off(mod, x.replace('@', str(N))); nodes = Nodes(eng); OS = off('optional')
    st = State(); R = st.new('shared', 'ring buffer', off('rb@'))
    def mkbody(k, e, q, full):
        o = q.new('fresh', f'{k} waiter', off(k)); p = Ptr(o.obj, off(k + '_e'))
        if full: v = BV('waiting'); r = e.call(q, 'vc_opt_make', [p, v])
        else: v = None; r = e.call(q, 'vc_opt_empty', [p])
        assert len(r) == 1 and r[0][0] is q
        q.w(o.obj).cells[off(k + '_result')] = (4, PRODUCED if full else 1); q.ghost['wid'] = v
        return o.obj
    nodes.kind(NodeKind('prod', off('po@_next'), off('po@_handle'), body=lambda e, q, ch, idx: mkbody('po@', e, q, True)))
    nodes.kind(NodeKind('cons', off('co@_next'), off('co@_handle'), body=lambda e, q, ch, idx: mkbody('co@', e, q, False)))
    st.ghost.update(op=op, own=False, run=RUN, runx=False, opened=False, b0=None, f0=None, empty0=None, front=None, back=None, used=None, bm=None, used0=None, seq=(), pw=None, cw=None, pw_reg=False, registered=None, prev=None, coro=None, all_pw=None, all_cw=None, claimed=None, set=(), drained=False, bodies=(),
        wid=None, debt_c=False, debt_p=False, owe_p=False, owe_c=False, added=(), removed=(), seen_run=None, seen_used=None, full0=None, xfer=None)
    for k in ('front', 'back', 'used'): st.cells[(R.obj, off(f'rb@_{k}'))] = Word(k, N)
    st.cells[(R.obj, off('rb@_pw'))] = Waiters('pw', 'prod', nodes, None); st.cells[(R.obj, off('rb@_cw'))] = Waiters('cw', 'cons', nodes, None); st.cells[(R.obj, off('rb@_state'))] = Running()
    EO = off('rb@_elements')
    def guard(e, q, o, poff, size, write, v):
        if is_term(poff) or EO <= poff < EO + N * OS:
            if q.ghost['own'] is True and not q.ghost['opened']: raise Unsupported('element accessed before the counters')
            e.prove(q, q.ghost['own'] is True, 'ring/elements-accessed-without-lock', 'data race on the stored elements')
        return None
    st.w(R.obj).guard = guard
    slot = lambda j: EO + j * OS
    def opt(e, q, p):
        f = q.new('fresh', 'flag', 1); r = e.call(q, 'vc_opt', [p, f]); out = []
        for q2, oc in r: v = q2.mem[f.obj].cells[0][1]; out.append((q2, bool(v), oc[1]))
        return out
    def on_lock(q): q.ghost.update(runx=False, pw=None, cw=None, opened=False)
    def open_(q):
        # the protected state, looked at for the first time in this critical section: every content allowed by the invariant
        out = []; q.forks += 1
        for bm in range(N):
            for used in range(N + 1):
                x = q.clone(); g = x.ghost; b = BV('back'); f = add(b, used)
                x.pc += [z3.ULT(b, 1 << 62)]
                if N > 1: k = BV('round'); x.pc += [z3.ULT(k, 1 << 60), b == k * N + bm]
                o = x.w(R.obj); seq = []
                for j in range(N):
                    for a in [a for a in o.cells if slot(j) <= a < slot(j) + OS]: del o.cells[a]
                    o.cells[slot(j) + 8] = (1, BV('stale', 8))
                    o.cells[slot(j)] = (8, BV('stale'))
                    x.pc.append(z3.Or(o.cells[slot(j) + 8][1] == 0, o.cells[slot(j) + 8][1] == 1))
                for k in range(used):
                    v = BV('elem'); seq.append(v); o.cells[slot((bm + k) % N)] = (8, v); o.cells[slot((bm + k) % N) + 8] = (1, 1)
                g.update(opened=True, front=f, back=b, used=used, used0=used, bm=bm, seq=tuple(seq), full0=used == N, empty0=used == 0, b0=b, f0=f)
                out.append(x)
        return out
    for k in ('front', 'back', 'used'): st.cells[(R.obj, off(f'rb@_{k}'))].open = open_
    def urem(q, a, n):      # back is bm modulo N by the case split above (and below 2^62): the residue needs no solver
        g = q.ghost
        if g['bm'] is None or n != N: return None
        d = norm(sub(a, g['b0'])); return (g['bm'] + d) % N if isinstance(d, int) and d < 1 << 32 else None
    eng.hooks['urem'] = urem
    def on_unlock(q):
        g = q.ghost; P = lambda c, k, d='': eng.prove(q, c, 'ring/' + k, d)
        if g['opened']:
            r = norm(sub(g['back'], g['b0'])); a = norm(sub(g['front'], g['f0'])); u = g['used']
            if not P(isinstance(r, int) and isinstance(a, int) and not is_term(u) and 0 <= r <= N and 0 <= a <= N, 'counters', f'back moved by {r}, front by {a}, used {u}'): return
            if not P(r <= g['used0'] and u == g['used0'] - r + a and 0 <= u <= N, 'used-is-front-minus-back', f'used {g["used0"]} -> {u} with {a} added and {r} removed'): return
            o = q.mem[R.obj]; ids = []
            for k in range(g['used0'] - r + a):
                j = (g['bm'] + r + k) % N; fl = o.cells.get(slot(j) + 8); v = o.cells.get(slot(j))
                ok = P(fl is not None and eng.entails(q, eq(fl[1], 1, 8)) , 'stored-element-present', f'slot {j} should hold an element and is empty')
                if not ok: return
                idx = r + k
                if idx < g['used0']: P(eq(v[1], g['seq'][idx]), 'stored-element-unchanged', f'slot {j} no longer holds the element accepted earlier')
                else: ids.append(v[1])
            g['added'] = g['added'] + tuple(ids); g['removed'] = g['removed'] + tuple(g['seq'][:r])
        else: u = None
        # who owes a wake-up
        reg = g['registered'] if g['registered'] is not None and not q.mem[g['registered'].obj].dead else None
        for dk, lk, now, before in (('debt_c', 'cw', None, None), ('debt_p', 'pw', None, None)) if u is None else (('debt_c', 'cw', u > 0, g['used0'] > 0), ('debt_p', 'pw', u < N, g['used0'] < N)):
            if (isinstance(g[lk], int) and g[lk] == 0) or now is False: g[dk] = False
            elif u is None:
                if reg is not None and g[lk] is reg: g[dk] = True
            elif not before or (reg is not None and g[lk] is reg): g[dk] = True
        if isinstance(g['pw'], int): g['owe_p'] = False
        if isinstance(g['cw'], int): g['owe_c'] = False
        if g['run'] >= DRAIN and u == 0: g['drained'] = True
        if g['run'] == STOP and STOP not in g['set']: g['drained'] = True
        if reg is not None:
            k = 'po@' if g['op'] == 'prod' else 'co@'
            P(g['runx'] and (g['run'] == RUN if g['op'] == 'prod' else g['run'] != STOP), 'waits-after-shutdown', 'a waiter registers on a buffer that is shutting down: nobody will wake it')
            oo = q.mem[reg.obj]; nx = oo.cells.get(add(reg.off, off(k + '_next'))); hd = oo.cells.get(add(reg.off, off(k + '_handle')))
            P(nx is not None and eng.ptr_eq(q, nx[1], g['prev']), 'waiter-link', 'the new waiter must link to the waiters before it'); P(hd is not None and isinstance(hd[1], Ptr) and hd[1].obj == g['coro'], 'waiter-handle')
            rs = opt(eng, q, Ptr(reg.obj, add(reg.off, off(k + '_e')))); P(len(rs) == 1, 'waiter-element')
            P(rs[0][1] is (g['op'] == 'prod') and (g['op'] != 'prod' or eq(rs[0][2], g['X'])), 'waiter-carries-its-element', 'a waiting producer must carry its element, a waiting consumer none')
            q.w(reg.obj).dead = 'registered and lock released: another thread may already have resumed and destroyed it'
        # knowledge of the protected state ends here
        ob = q.w(R.obj)
        for a2 in [a2 for a2 in ob.cells if EO <= a2 < EO + N * OS]: del ob.cells[a2]
        if op == 'resume': g.update(full0=None, empty0=None, drained=False, seen_used=None, seen_run=None)
        g.update(opened=False, runx=False, front=None, back=None, used=None, used0=None, bm=None, seq=(), pw=None, cw=None, b0=None, f0=None)
    Monitor(eng, lambda m: m.obj == R.obj and m.off == off('rb@_mutex'), off('lockop_mutex'), on_lock, on_unlock)
    def resume(e, q, h):
        g = q.ghost
        if not isinstance(h.obj, NodeRef): return INLINE
        kind = q.chains[h.obj.chain].kind; k = 'po@' if kind == 'prod' else 'co@'; bo = nodes.body_of(q, h)
        if bo is None: bo = nodes.kinds[kind].body(e, q, h.obj.chain, h.obj.idx)      # untouched so far
        res = q.mem[bo].cells[off(k + '_result')][1]; rs = opt(e, q, Ptr(bo, off(k + '_e'))); assert len(rs) == 1
        has, v = rs[0][1:]; nodes.consume(q, h); q.note(f'resume {kind} with result {res}')
        e.prove(q, g['own'] is False, 'ring/resumed-under-lock', 'a waiter is resumed while the lock is held: it will wait for the lock its waker holds') if op != 'x' else None
        if kind == 'prod':
            if g['added']:
                e.prove(q, len(g['added']) == 1 and eq(g['added'][0], g['wid']), 'ring/producer-element', 'what was stored is not the element of the producer that is resumed')
                e.prove(q, res == PRODUCED, 'ring/producer-told-the-truth', f'its element was stored but the producer is told {res}'); g['added'] = (); g['debt_c'] = False
            elif op == 'notify': e.prove(q, res == NOTIFIED, 'ring/producer-told-the-truth', f'notify_producers resumes a producer with result {res}')
            else: e.prove(q, res == STOPPED and g['run'] != RUN, 'ring/producer-told-the-truth', f'a producer whose element was not stored is resumed with result {res} (0 means produced)')
        else:
            if g['removed']:
                e.prove(q, len(g['removed']) == 1 and has and eq(v, g['removed'][0]), 'ring/consumer-gets-the-oldest-element', 'the element taken out of the buffer is not the one the consumer receives'); g['removed'] = (); g['debt_p'] = False
            else:
                e.prove(q, not has, 'ring/element-out-of-nothing')
                if op == 'notify': e.prove(q, res == 0, 'ring/consumer-told-the-truth')
                else: e.prove(q, res == 1 and g['run'] == STOP, 'ring/consumer-told-the-truth', 'a consumer is told stopped although the buffer is not stopped')
        g['claimed'] = None; g['wid'] = None
        return [q]
    eng.hooks['resume'] = resume
    C = eng.contract_first
    C('=vc_executor::yield', lambda e, q, i, a, fn: UNDEF); C('=vc_executor::op::await_ready', lambda e, q, i, a, fn: 1)
    C('=vc_executor::op::await_resume', lambda e, q, i, a, fn: None); C('=vc_executor::op::await_suspend', lambda e, q, i, a, fn: None)
    def fx(key):
        def h(e, q, i, a, fn):
            e.prove(q, q.ghost['own'] is False, 'pre/lock-not-held', 'try_resume takes the lock its caller holds'); e.prove(q, isinstance(a[0], Ptr) and a[0].obj == R.obj, 'pre/this-buffer')
            q.ghost[key] = False; q.note(fn.base); return None
        return h
    C('=vc_fx_consumers', fx('debt_c')); C('=vc_fx_producers', fx('debt_p'))
    def stub(entry):
        def h(e, q, i, a, fn):
            r = e.call(q, entry, [a[1], a[0]]); return [(x, None) for x, _ in r]
        return h
    if op != 'resume':
        C('=coro::ring_buffer::try_resume_consumers', stub('vc_stub_consumers')); C('=coro::ring_buffer::try_resume_producers', stub('vc_stub_producers'))
    return eng, st, R, off, nodes


def run_task(eng, st, entry, args):
    t = st.new('fresh', 'task', 8); out = []
    for q, oc in eng.call(st, entry, [*args, t]):
        eng.prove(q, oc[0] == 'ret', 'post/task-created'); h = q.mem[t.obj].cells[0][1]; q.ghost['coro'] = h.obj
        for q2, oc2 in resume_top(eng, q, h):
            eng.prove(q2, oc2[0] in ('ret', 'suspend', 'coro_end'), 'post/no-exception', str(oc2)); out.append((q2, t, h, q2.coros[h.obj].done))
    return out


def settled(eng, q, what='finishes'):
    g = q.ghost
    eng.prove(q, g['own'] is False, 'post/lock-released', f'{what} while holding the lock')
    eng.prove(q, g['debt_c'] is False, 'post/waiting-consumer-woken', f'{what} although an element is available and a consumer may be waiting for it')
    eng.prove(q, g['debt_p'] is False, 'post/waiting-producer-woken', f'{what} although space is available and a producer may be waiting for it')
    eng.prove(q, g['claimed'] is None, 'post/unlinked-waiter-resumed', 'a waiter was taken off its list but not resumed')


def part_produce(ctx, N):
    mod = ctx.module('ring_buffer.cpp'); eng, st, R, off, nodes = setup(ctx, mod, N, 'produce', 'prod'); seen = set(); X = BV('x')
    a = st.new('fresh', 'argument', 8); st.w(a.obj).cells[0] = (8, X); st.ghost['X'] = X
    def finished(q, t, how):
        settled(eng, q); g = q.ghost
        for q2, oc in eng.call(q, 'vc_presult', [t]):
            r = oc[1]; seen.add((how, r)); eng.prove(q2, oc[0] == 'ret', 'post/has-result'); g = q2.ghost
            eng.prove(q2, g['removed'] == (), 'post/frame')
            if how == 'direct':
                eng.prove(q2, r in (PRODUCED, STOPPED), 'post/result')
                if r == PRODUCED:
                    eng.prove(q2, len(g['added']) == 1, 'post/accepted-exactly-once', f'{len(g["added"])} elements stored')
                    if g['added']: eng.prove(q2, eq(g['added'][0], X), 'post/stores-this-element')
                    eng.prove(q2, g['first_run'] == RUN, 'post/accepted-only-while-running')
                else: eng.prove(q2, g['added'] == () and g['first_run'] != RUN, 'post/refused-only-when-shutting-down')
            else: eng.prove(q2, r == how and g['added'] == (), 'post/reports-what-the-waker-said', f'resumed with {how}, reports {r}')
    for q, t, h, done in run_task(eng, st, f'vc_produce{N}', [R, a]):
        g = q.ghost; g['first_run'] = g['seen_run']
        if done: eng.prove(q, g['registered'] is None, 'post/not-left-registered'); finished(q, t, 'direct'); continue
        settled(eng, q, 'suspends'); eng.prove(q, g['registered'] is not None, 'post/suspends-only-registered', 'produce is suspended but nobody knows it is waiting'); seen.add('suspended')
        eng.prove(q, g['added'] == (), 'post/waits-without-storing'); eng.prove(q, g['full0'] is True, 'post/waits-only-when-full')
        if g['registered'] is None: continue
        for how in (PRODUCED, NOTIFIED, STOPPED):
            x = q.clone(); r = g['registered']; x.w(r.obj).dead = None; x.w(r.obj).cells[add(r.off, off('po@_result'))] = (4, how)
            if how == PRODUCED: x.ghost['debt_c'] = True
            if how == STOPPED: x.ghost['run'] = STOP
            for x2, oc in resume_top(eng, x, h): eng.prove(x2, x2.coros[h.obj].done, 'post/finishes-when-resumed'); finished(x2, t, how)
    eng.prove(State(), {'suspended', ('direct', 0), ('direct', 2), (0, 0), (1, 1), (2, 2)} <= seen, 'cover/all-outcomes', str(seen))


def part_consume(ctx, N):
    mod = ctx.module('ring_buffer.cpp'); eng, st, R, off, nodes = setup(ctx, mod, N, 'consume', 'cons'); seen = set()
    def finished(q, t, how, X=None):
        settled(eng, q); I = q.new('fresh', 'id', 8)
        for q2, oc in eng.call(q, 'vc_cresult', [t, I]):
            g = q2.ghost; r = oc[1]; seen.add((how, r)); eng.prove(q2, oc[0] == 'ret', 'post/has-result'); v = q2.mem[I.obj].cells.get(0); eng.prove(q2, g['added'] == (), 'post/frame')
            if how == 'direct':
                if r == 0:
                    eng.prove(q2, len(g['removed']) == 1, 'post/takes-exactly-one-element')
                    if g['removed']: eng.prove(q2, eq(v[1], g['removed'][0]), 'post/delivers-the-oldest-element')
                else: eng.prove(q2, r == 2 and g['removed'] == () and g['run'] == STOP, 'post/stopped-only-after-shutdown')
            elif how == 'element': eng.prove(q2, r == 0 and eq(v[1], X) if v else False, 'post/delivers-what-it-was-handed')
            else: eng.prove(q2, r == 1 + how and g['removed'] == (), 'post/reports-what-the-waker-said')
    for q, t, h, done in run_task(eng, st, f'vc_consume{N}', [R]):
        g = q.ghost
        if done: eng.prove(q, g['registered'] is None, 'post/not-left-registered'); finished(q, t, 'direct'); continue
        settled(eng, q, 'suspends'); eng.prove(q, g['registered'] is not None, 'post/suspends-only-registered'); seen.add('suspended')
        eng.prove(q, g['removed'] == (), 'post/waits-without-element'); eng.prove(q, g['empty0'] is True, 'post/waits-only-when-empty')
        if g['registered'] is None: continue
        for how in ('element', 0, 1):
            x = q.clone(); r = g['registered']; x.w(r.obj).dead = None; X = BV('handed')
            if how == 'element': x = eng.call(x, 'vc_opt_make', [Ptr(r.obj, add(r.off, off('co@_e'))), X])[0][0]; x.ghost['debt_p'] = True
            else: x.w(r.obj).cells[add(r.off, off('co@_result'))] = (4, how); x.ghost['run'] = STOP if how == 1 else x.ghost['run']
            for x2, oc in resume_top(eng, x, h): eng.prove(x2, x2.coros[h.obj].done, 'post/finishes-when-resumed'); finished(x2, t, how, X)
    eng.prove(State(), {'suspended', ('direct', 0), ('direct', 2), ('element', 0), (0, 1), (1, 2)} <= seen, 'cover/all-outcomes', str(seen))


def part_resume(ctx, N, which):
    mod = ctx.module('ring_buffer.cpp')
    eng, st, R, off, nodes = setup(ctx, mod, N, f'try_resume_{which}s', 'resume')
    st.ghost['debt_c' if which == 'consumer' else 'debt_p'] = True
    n = 0
    for q, t, h, done in run_task(eng, st, f'vc_resume_{which[0]}{N}', [R]):
        n += 1; eng.prove(q, done, 'post/finishes'); settled(eng, q); g = q.ghost
        eng.prove(q, g['added'] == () and g['removed'] == () and g['registered'] is None, 'post/every-transfer-resumed-its-waiter', 'an element was moved but the waiter it belongs to was not resumed')
        for q2, oc in eng.call(q, 'vc_vresult', [t]): eng.prove(q2, oc[0] == 'ret', 'post/no-exception')
    eng.prove(State(), n > 0, 'cover/finishes')


def part_end(ctx, N, which):
    mod = ctx.module('ring_buffer.cpp')
    for entry, op, name in (('vc_shutdown', 'shutdown', 'shutdown'), ('vc_drain', 'drain', 'shutdown_drain'), ('vc_notify_p', 'notify', 'notify_producers'), ('vc_notify_c', 'notify', 'notify_consumers')):
        if name != which: continue
        eng, st, R, off, nodes = setup(ctx, mod, N, name, op); seen = set(); args = [R]
        if op == 'drain': x = st.new('opaque', 'executor'); u = st.new('fresh', 'unique_ptr', 8); st.w(u.obj).cells[0] = (8, x); args.append(u)
        for q, t, h, done in run_task(eng, st, f'{entry}{N}', args):
            g = q.ghost; eng.prove(q, done, 'post/finishes'); settled(eng, q); eng.prove(q, g['added'] == () and g['removed'] == (), 'post/frame')
            if op == 'shutdown' or g['set']: eng.prove(q, g['run'] == STOP if op != 'notify' else False, 'post/stopped', f'{name} returns although the buffer is not stopped: waiters stay suspended')
            elif op == 'drain': eng.prove(q, g['run'] != RUN, 'post/shutting-down')
            eng.prove(q, g['owe_p'] is False and g['owe_c'] is False, 'post/waiters-collected', 'the buffer was stopped but its waiters were not collected')
            woke = False
            for k in ('all_pw', 'all_cw'):
                if g[k]: c = q.chains[g[k]]; eng.prove(q, eq(c.lo, c.hi), 'post/every-waiter-resumed', k); woke = True
            seen.add('woke' if woke else 'stopped' if g['set'] else 'again')
            for q2, oc in eng.call(q, 'vc_vresult', [t]): eng.prove(q2, oc[0] == 'ret', 'post/no-exception')
        eng.prove(State(), {'woke', 'again'} <= seen, 'cover/all-outcomes', str(seen))
    if which != 'query': return
    for nm in ('is_shutdown', 'size', 'empty', 'full', 'max'):
        eng, st, R, off, nodes = setup(ctx, mod, N, nm, 'query')
        for q, oc in eng.call(st, f'vc_{nm}{N}', [R]):
            g = q.ghost; v = oc[1]
            exp = {'is_shutdown': lambda: boolterm(v) == z3.BoolVal(g['run'] != RUN), 'size': lambda: eq(v, g['seen_used']), 'empty': lambda: boolterm(v) == (g['seen_used'] == 0), 'full': lambda: boolterm(v) == (g['seen_used'] == N), 'max': lambda: eq(v, N)}[nm]()
            eng.prove(q, oc[0] == 'ret' and exp, 'post/value')
    eng, st, R, off, nodes = setup(ctx, mod, N, 'ring_buffer', 'ctor'); st.cells.clear(); st.w(R.obj).guard = None
    for q, oc in eng.call(st, f'vc_ctor{N}', [R]):
        for k in ('front', 'back', 'used', 'pw', 'cw', 'state'):
            c = q.mem[R.obj].cells.get(off(f'rb@_{k}')); eng.prove(q, c is not None and isinstance(c[1], int) and c[1] == 0, 'post/starts-empty-and-running', k)


def mk(f, *a):
    def part(ctx): f(ctx, *a)
    part.__name__ = f.__name__ + '_' + '_'.join(map(str, a)); return part


ENDS = ('shutdown_drain', 'shutdown', 'notify_producers', 'notify_consumers', 'query')
PARTS = [mk(part_end, N, w) for w in ENDS[:2] for N in (3, 1)] + [mk(part_resume, N, w) for N in (3, 1) for w in ('consumer', 'producer')] + [mk(f, N) for N in (3, 1) for f in (part_produce, part_consume)] + [mk(part_end, N, w) for w in ENDS[2:] for N in (3, 1)]
