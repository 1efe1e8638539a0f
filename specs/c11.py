"""C11: coro::when_all -- continues once after every child finished."""
import z3
from vcgen.core import *
from vcgen.engine import *
from vcgen.proto import *
from vcgen.monitor import resume_top
from vcgen.tracked import Tracked

NOTE = 'latch proved for any count and interleaving (participants = children + the awaiter, each decrements once); starting and wrapping proved for any number of children (loops over the vector by invariant), child wrapper for void, integer, value and reference results; fixed argument lists of 0..3 children additionally run whole, children finishing in every order.'
TUS = ['when_all.cpp']


class Count(Cell):
    size = 8; ty = 'i64'; name = 'participants not yet done'
    def values(s, eng, st, e=None):
        v = st.ghost['cnt']
        if v is None: v = BV('count'); st.pc += [z3.UGE(v, 1), z3.ULT(v, 1 << 62)]       # this participant has not been counted down yet
        return [(st, v)]
    def observed(s, eng, st, v, ord): st.note(f'load count {ord}')
    def transition(s, eng, st, old, new, ord, how):
        g = st.ghost; st.note(f'{how} count {old} -> {new}')
        eng.prove(st, g['done'] is None, 'latch/counted-once', 'one participant counts down twice'); eng.prove(st, eq(add(new, 1), old), 'latch/counts-exactly-one', f'{old} -> {new}')
        if g['op'] == 'try_await': eng.prove(st, g['handle'] is not None, 'latch/awaiter-stored-before-counting', 'the last child may resume a coroutine that is not stored yet')
        out = []
        for q, last in eng.split(st, norm(eq(new, 0))):
            q.ghost['done'] = 'last' if last else 'others'
            if last: eng.prove(q, acq_ok(q, ord), 'latch/last-sees-the-others', f'{ord}: what the other children wrote is not visible')
            else: eng.prove(q, rel_ok(q, ord), 'latch/publishes', f'{ord}: what this participant wrote is not visible to the one that continues'); q.w(q.ghost['latch']).dead = 'counted down: the last participant may have resumed the awaiter and destroyed the latch'
            out.append(q)
        return out


class Handle(Cell):
    plain = True; name = 'awaiting coroutine'
    def values(s, eng, st, e=None):
        g = st.ghost
        if g['op'] == 'notify': eng.prove(st, g['done'] == 'last', 'latch/awaiter-read-by-the-last-only', 'the awaiting coroutine is read although it may not be stored yet'); return [(st, g['awaiter'])]
        return [(st, g['handle'] if g['handle'] is not None else 0)]
    def transition(s, eng, st, old, new, ord, how):
        g = st.ghost; eng.prove(st, g['op'] == 'try_await' and g['done'] is None, 'latch/awaiter-stored-before-counting'); eng.prove(st, isinstance(new, Ptr) and new.obj == g['awaiter'].obj, 'latch/stores-the-awaiting-coroutine'); g['handle'] = new; return [st]


def part_latch(ctx):
    mod = ctx.module('when_all.cpp'); off = lambda x: ctx.off(mod, x)
    for op in ('try_await', 'notify'):
        eng = ctx.engine(mod, f'when_all_latch::{op}'); st = State(); l = st.new('shared', 'latch', off('latch')); aw = st.new('opaque', 'awaiter'); seen = set()
        st.cells[(l.obj, off('l_count'))] = Count(); st.cells[(l.obj, off('l_handle'))] = Handle(); st.ghost.update(op=op, cnt=None, done=None, handle=None, awaiter=aw, latch=l.obj, resumed=0)
        def resume(e, q, h):
            e.prove(q, h.obj == aw.obj, 'latch/resumes-the-awaiter'); e.prove(q, q.ghost['done'] == 'last' and q.ghost['resumed'] == 0, 'latch/resumed-exactly-once-by-the-last'); q.ghost['resumed'] = 1; q.w(l.obj).dead = 'the awaiter was resumed'; return [q]
        eng.hooks['resume'] = resume
        for q, oc in eng.call(st, 'vc_l_' + op, [l, aw] if op == 'try_await' else [l]):
            g = q.ghost; eng.prove(q, oc[0] == 'ret', 'post/no-exception'); eng.prove(q, g['done'] is not None, 'post/counted'); seen.add(g['done'])
            if op == 'notify': eng.prove(q, g['resumed'] == (1 if g['done'] == 'last' else 0), 'post/last-child-resumes-the-awaiter')
            else: eng.prove(q, eq(oc[1], int(g['done'] != 'last'), 1), 'post/suspends-iff-children-are-running', str(oc)); eng.prove(q, g['resumed'] == 0, 'post/does-not-resume-itself')
        eng.prove(State(), seen == {'last', 'others'}, 'cover/both')
    eng = ctx.engine(mod, 'when_all_latch'); st = State(); l = st.new('fresh', 'latch', off('latch')); n = BV('children')
    (q, oc), = eng.call(st, 'vc_l_ctor', [l, n]); ld = lambda q, p, o, z: eng.load(q, Ptr(p.obj, off(o)), 8, z)[0][1]
    eng.prove(q, eq(ld(q, l, 'l_count', 'i64'), add(n, 1)), 'post/children-plus-awaiter', str(ld(q, l, 'l_count', 'i64'))); eng.prove(q, ld(q, l, 'l_handle', 'ptr') == 0, 'post/no-awaiter')
    (r, oc), = eng.call(q, 'vc_l_ready', [l]); eng.prove(r, eq(oc[1], 0, 1), 'post/not-ready-before-anything-ran', 'awaiting continues without starting the children')
    m = q.new('fresh', 'moved', off('latch')); c = q.clone(); (q, oc), = eng.call(q, 'vc_l_move', [m, l]); eng.prove(q, eq(ld(q, m, 'l_count', 'i64'), add(n, 1)) if oc[0] == 'ret' else False, 'post/move-keeps-the-count')
    (c, oc), = eng.call(c, 'vc_l_ctor', [m, BV('other')]); (c, oc), = eng.call(c, 'vc_l_assign', [m, l]); eng.prove(c, eq(ld(c, m, 'l_count', 'i64'), add(n, 1)) if oc[0] == 'ret' else False, 'post/assignment-keeps-the-count')


class World:
    """children that may be ready, suspend and be continued, return or throw"""
    def __init__(s, ctx, name, st):
        s.mod = ctx.module('when_all.cpp'); s.eng = e = ctx.engine(s.mod, name); s.off = lambda x: ctx.off(s.mod, x); s.st = st; s.tr = Tracked(e); C = e.contract_first
        st.ghost['live'] = (); st.ghost.update(ids=(), exc=(), parked=(), slots=(), ev=(), notified=0, latch=None)
        s.cells = {}
        for n in range(3): s.cells[n] = st.new('fresh', f'referenced {n}', 8); s.tr.birth(st, s.cells[n], BV('referenced'))
        s.base = st.ghost['live']
        def throws(q, n, what): x = q.clone(); q.forks += 1; x.forks += 1; p = x.new('heap', 'exception', 16); x.tags[('exc', p.obj)] = 'user'; x.ghost['exc'] += ((n, p.obj),); x.note(f'child {n}: {what} throws'); return (x, Throw(Exc(p, 'user')))
        def ready(e, q, i, a, fn): t = throws(q, a[0], 'await_ready'); x = q.clone(); q.forks += 1; x.forks += 1; return [(q, 1), (x, 0), t]
        C('=vc_ready', ready)
        def point(e, q, i, a, fn): q.ghost['parked'] += ((a[0], a[1]),); q.note(f'child {a[0]} suspends'); return None
        C('=vc_point', point)
        def vid(e, q, i, a, fn): t = throws(q, a[0], 'await_resume'); v = BV('value'); q.ghost['ids'] += ((a[0], v),); return [(q, v), t]
        C('=vc_id', vid); C('=vc_cell', lambda e, q, i, a, fn: s.cells[a[0]])
        def slot(e, q, i, a, fn): q.ghost['slots'] += ((a[0], a[1], a[2]),); return None
        C('=vc_slot', slot)
        def slot_throws(e, q, i, a, fn):
            ex = q.exc_caught[-1] if q.exc_caught else None; q.ghost['slots'] += ((a[0], 'throws', ex.ptr.obj if ex and isinstance(ex.ptr, Ptr) else None),); return None
        C('=vc_slot_throws', slot_throws); C('=vc_start', lambda e, q, i, a, fn: None)
        def end(e, q, i, a, fn): q.ghost['ev'] += ('end',); return None
        C('=vc_end', end)

    def check_slot(s, q, n, rec, ref=False, void=False):
        e = s.eng; exc = [o for k, o in q.ghost['exc'] if k == n]; ids = [v for k, v in q.ghost['ids'] if k == n]
        if exc: e.prove(q, rec[1] == 'throws' and rec[2] == exc[0], 'post/slot-rethrows-its-child-s-exception', f'slot {n}: {rec}')
        else:
            if not e.prove(q, rec[1] != 'throws' if isinstance(rec[1], str) else True, 'post/slot-holds-its-child-s-value', f'slot {n} throws'): return
            want = e.load(q, s.cells[n], 8, 'i64')[0][1] if ref else ids[0] if ids else None
            if not void: e.prove(q, eq(rec[1], want) if want is not None else False, 'post/slot-holds-its-child-s-value', f'slot {n}: {rec[1]} instead of {want}')
            if ref: e.prove(q, e.ptr_eq(q, rec[2], s.cells[n]), 'post/slot-refers-to-its-child-s-object')


def part_child(ctx):
    for kind in ('void', 'int', 'val', 'ref'):
        w = World(ctx, f'child wrapper ({kind})', State()); e, st = w.eng, w.st; L = st.new('opaque', 'latch', w.off('latch')); t = st.new('fresh', 'wrapper', 8); seen = set(); u = st.new('fresh', 'moved wrapper', 8)
        def notify(e, q, i, a, fn):
            e.prove(q, isinstance(a[0], Ptr) and a[0].obj == L.obj, 'child/reports-to-its-latch'); e.prove(q, q.ghost['notified'] == 0, 'child/reports-once'); q.ghost['notified'] = 1; q.note('child reports completion')
            e.prove(q, bool(q.ghost['ids'] or q.ghost['exc']), 'child/reports-after-it-finished', 'the awaiter may continue before the child has a result')
            for o in [o for fr in q.frames if fr.coro is not None for o in fr.allocas] + list(q.coros):
                if q.mem[o].dead is None: q.tags['revive'] = q.tags.get('revive', ()) + (o,); q.w(o).dead = 'the awaiter may have continued and destroyed the child'
            q.ghost['latch'] = L.obj; q.w(L.obj).dead = 'the awaiter may have continued'
            return None
        e.contract_first('=coro::detail::when_all_latch::notify_awaitable_completed', notify)
        for q, oc in e.call(st, 'vc_c_make_' + kind, [t, 0]):
            e.prove(q, oc[0] == 'ret' and q.ghost['ids'] == () and q.ghost['parked'] == () and q.ghost['exc'] == (), 'post/child-starts-lazily'); h = q.mem[t.obj].cells[0][1]
            for q1, oc in e.call(q, 'vc_c_start_' + kind, [t, L]):
                e.prove(q1, oc[0] == 'ret', 'post/start-does-not-throw', str(oc)); ends = [q1]
                if q1.ghost['parked']: e.prove(q1, q1.ghost['notified'] == 0, 'child/reports-after-it-finished'); ends = [r for r, oc in resume_top(e, q1, q1.ghost['parked'][0][1])]
                for r in ends:
                    e.prove(r, r.ghost['notified'] == 1, 'post/reported', 'the child finished and its latch is never told')
                    for o in r.tags.get('revive', ()): r.w(o).dead = None
                    r.tags['revive'] = ()
                    (r, oc), = e.call(r, 'vc_c_move_' + kind, [t, u]); e.prove(r, r.mem[u.obj].cells[0][1].obj == h.obj and r.mem[t.obj].cells[0][1] == 0, 'post/move-transfers'); (r, oc), = e.call(r, 'vc_c_dtor_' + kind, [t])
                    for f in ('l', 'c', 'r'):
                        if (f, kind) in (('c', 'void'), ('r', 'ref')): continue
                        for y, oc in e.call(r.clone(), f'vc_c_{f}_{kind}', [u]):
                            e.prove(y, oc[0] == 'ret' and len(y.ghost['slots']) == 1, 'post/result'); seen.add('throws' if y.ghost['exc'] else 'value')
                            if y.ghost['slots']: w.check_slot(y, 0, y.ghost['slots'][0], kind == 'ref', kind == 'void')
                    (r, oc), = e.call(r, 'vc_c_dtor_' + kind, [u]); e.prove(r, r.mem[h.obj].dead is not None, 'post/child-destroyed'); e.prove(r, r.ghost['live'] == w.base, 'post/every-value-destroyed', str(r.ghost['live']))
        e.prove(State(), seen == {'throws', 'value'}, 'cover/all-outcomes')


def part_start(ctx):
    for entry in ('v_try', 'v_suspend_l', 'v_suspend_r', 'vv_try'):
        w = World(ctx, f'starting any number of children ({entry})', State()); e, st, off = w.eng, w.st, w.off; A = st.new('shared', 'awaitable', off('va')); arr = st.new('heap', 'children'); n = BV('children'); st.pc += [z3.ULT(n, 1 << 40)]; aw = st.new('opaque', 'awaiter')
        c = st.w(A.obj).cells; b = off('va_tasks'); end = Ptr(arr.obj, mul(n, 8)); c[b] = (8, Ptr(arr.obj, 0)); c[b + 8] = (8, end); c[b + 16] = (8, end); st.ghost.update(res=None); st.ghost['#bytes'] = 0; seen = set()
        def start(e, q, i, a, fn):
            e.prove(q, isinstance(a[0], Ptr) and a[0].obj == arr.obj and eq(a[0].off, q.ghost['#bytes']), 'start/each-child-once-in-order', f'{a[0]} after {q.ghost["#bytes"]}'); e.prove(q, ULT(q.ghost['#bytes'], mul(n, 8)), 'start/only-children'); e.prove(q, isinstance(a[1], Ptr) and a[1].obj == A.obj and a[1].off == off('va_latch'), 'start/with-this-latch'); e.prove(q, q.ghost['res'] is None, 'start/before-the-awaiter-is-counted')
            q.ghost['#bytes'] = add(q.ghost['#bytes'], 8); return None
        e.contract_first('=coro::detail::when_all_task::start', start)
        def tryw(e, q, i, a, fn):
            e.prove(q, isinstance(a[0], Ptr) and a[0].obj == A.obj and a[0].off == off('va_latch') and isinstance(a[1], Ptr) and a[1].obj == aw.obj, 'start/awaiter-of-this-latch'); e.prove(q, eq(q.ghost['#bytes'], mul(n, 8)), 'start/every-child-started-before-waiting', f'{q.ghost["#bytes"]} of {n}*8'); e.prove(q, q.ghost['res'] is None, 'start/awaiter-counted-once')
            x = q.clone(); q.forks += 1; x.forks += 1; q.ghost['res'] = 1; x.ghost['res'] = 0; q.w(A.obj).dead = 'suspended: the last child may have resumed the awaiter'; return [(q, 1), (x, 0)]
        e.contract_first('=coro::detail::when_all_latch::try_await', tryw)
        for q, oc in e.call(st, 'vc_' + entry, [A, aw]):
            e.prove(q, oc[0] == 'ret' and q.ghost['res'] is not None, 'post/waits'); e.prove(q, eq(oc[1], q.ghost['res'], 1), 'post/suspends-iff-children-are-running'); seen.add(q.ghost['res'])
        e.prove(State(), seen == {0, 1}, 'cover/both', str(seen))
    w = World(ctx, 'awaiter results', State()); e, st, off = w.eng, w.st, w.off; A = st.new('fresh', 'awaitable', off('va')); st.w(A.obj).cells[off('va_latch') + off('l_handle')] = (8, 0)
    (q, oc), = e.call(st.clone(), 'vc_v_ready', [A]); e.prove(q, eq(oc[1], 0, 1), 'post/children-are-started')
    for f in ('l', 'r'): (q, oc), = e.call(st.clone(), 'vc_v_resume_' + f, [A]); e.prove(q, e.ptr_eq(q, oc[1], Ptr(A.obj, off('va_tasks'))), 'post/results-of-these-children')


def part_move(ctx):
    w = World(ctx, 'moving the awaitable of any number of children', State()); e, st, off = w.eng, w.st, w.off; A = st.new('fresh', 'awaitable', off('va')); B = st.new('fresh', 'moved awaitable', off('va')); arr = st.new('heap', 'children'); n = BV('children'); c = st.w(A.obj).cells; b = off('va_tasks'); end = Ptr(arr.obj, mul(n, 8))
    c[b] = (8, Ptr(arr.obj, 0)); c[b + 8] = (8, end); c[b + 16] = (8, end); c[off('va_latch') + off('l_count')] = (8, add(n, 1)); c[off('va_latch') + off('l_handle')] = (8, 0); st.pc += [z3.ULT(n, 1 << 40)]
    for q, oc in e.call(st, 'vc_v_move', [B, A]):
        d = q.mem[B.obj].cells; ld = lambda o, t='ptr': e.load(q, Ptr(B.obj, o), 8, t)[0][1]
        e.prove(q, oc[0] == 'ret' and isinstance(ld(b), Ptr) and ld(b).obj == arr.obj and eq(ld(b).off, 0) and e.ptr_eq(q, ld(b + 8), end), 'post/move-keeps-the-children'); v = ld(off('va_latch') + off('l_count'), 'i64'); e.prove(q, eq(v, add(n, 1)), 'post/move-keeps-the-count', str(v)); e.prove(q, e.load(q, Ptr(A.obj, b), 8, 'ptr')[0][1] == 0, 'post/moved-from-is-empty')


def part_factory(ctx):
    w = World(ctx, 'when_all(vector of any size)', State()); e, st, off = w.eng, w.st, w.off; asz = off('aw'); arr = st.new('heap', 'awaitables'); n = BV('children'); st.pc += [z3.ULT(n, 1 << 40)]
    inp = st.new('fresh', 'input', 24); c = st.w(inp.obj).cells; end = Ptr(arr.obj, mul(n, asz)); c[0] = (8, Ptr(arr.obj, 0)); c[8] = (8, end); c[16] = (8, end); st.ghost.update(pend=None, out=None); st.ghost['#made'] = st.ghost['#put'] = 0; A = st.new('fresh', 'awaitable', off('va'))
    def elem(e2, q, o, off2, z, t, v, write):
        if write or z != 8: raise Unsupported('awaitable array')
        e2.prove(q, ULT(off2, mul(n, asz)), 'memory/out-of-bounds', f'read at {off2} of {n} awaitables'); return [(q, z3.Function('awaitable', z3.BitVecSort(64), z3.BitVecSort(64))(bv(off2, 64)))]
    st.w(arr.obj).arrays['handler'] = elem; st.w(arr.obj).guard = lambda e2, q, o, off2, z, wr, v: elem(e2, q, o, off2, z, None, v, wr) if isinstance(off2, int) else None
    F = z3.Function('awaitable', z3.BitVecSort(64), z3.BitVecSort(64))
    def mk(e, q, i, a, fn):
        g = q.ghost; ret, v = (a[0], a[1]) if len(a) == 2 else (None, a[0]); e.prove(q, g['pend'] is None, 'factory/one-wrapper-per-child'); g['pend'] = True
        if isinstance(v, Ptr): v = e.load(q, v, 8, 'i64')[0][1]
        e.prove(q, eq(v, F(bv(g['#made'], 64))), 'factory/wraps-each-awaitable-in-order', f'{v} instead of awaitable at {g["#made"]}'); g['#made'] = add(g['#made'], asz); h = q.new('opaque', 'wrapper'); g['pend'] = h
        if ret is not None: e.store(q, ret, 8, h, 'ptr'); return None
        return h
    e.contract_first('=coro::detail::make_when_all_task', mk); isv = lambda fn, m: fn.base == 'std::vector::' + m and 'when_all_task' in fn.d
    def emp(e, q, i, a, fn):
        g = q.ghost; e.prove(q, isinstance(a[0], Ptr) and (g['out'] is None or g['out'] == a[0].obj), 'factory/one-list'); g['out'] = a[0].obj; v = e.load(q, a[1], 8, 'ptr')[0][1]
        e.prove(q, isinstance(v, Ptr) and isinstance(g['pend'], Ptr) and v.obj == g['pend'].obj, 'factory/keeps-the-wrapper-of-each-child'); e.store(q, a[1], 8, 0, 'ptr'); g['pend'] = None; g['#put'] = add(g['#put'], 8); return UNDEF
    for m in ('emplace_back', 'push_back'): e.contract_first(lambda fn, m=m: isv(fn, m), emp)
    e.contract_first(lambda fn: isv(fn, 'reserve'), lambda e, q, i, a, fn: None)
    e.contract_first(lambda fn: isv(fn, 'vector') , lambda e, q, i, a, fn: move(e, q, a) if len(a) > 1 else None)
    e.contract_first(lambda fn: isv(fn, '~vector'), lambda e, q, i, a, fn: None)
    def size(e, q, i, a, fn): e.prove(q, isinstance(a[0], Ptr) and (q.ghost['out'] in (None, a[0].obj)), 'factory/size-of-the-list'); return norm(z3.LShR(bv(q.ghost['#put'], 64), 3))
    e.contract_first(lambda fn: isv(fn, 'size'), size)
    def move(e, q, a):
        g = q.ghost; e.prove(q, g['out'] in (None, a[1].obj), 'factory/list-moved'); g['out'] = a[0].obj; return None
    k = 0
    for q, oc in e.call(st, 'vc_v_make', [A, inp]):
        k += 1; g = q.ghost; e.prove(q, oc[0] == 'ret', 'post/no-exception', str(oc)); e.prove(q, And(eq(g['#made'], mul(n, asz)), eq(g['#put'], mul(n, 8)), g['pend'] is None), 'post/one-wrapper-per-awaitable', f'{g["#made"]}, {g["#put"]}'); e.prove(q, g['out'] is None or g['out'] == A.obj, 'post/list-in-the-awaitable', f'{g["out"]} {A.obj} {oc}')
        e.prove(q, eq(e.load(q, Ptr(A.obj, off('va_latch') + off('l_count')), 8, 'i64')[0][1], add(n, 1)), 'post/counts-children-plus-awaiter', str(e.load(q, Ptr(A.obj, off('va_latch') + off('l_count')), 8, 'i64')[0][1]))
    e.prove(State(), k > 0, 'cover/returns')


def whole(name, kinds):
    def part(ctx):
        N = len(kinds); w = World(ctx, f'{name}: {N} children, every order', State()); e, st = w.eng, w.st; t = st.new('fresh', 'task', 8); n = 0
        for q, oc in e.call(st, 'vc_' + name, [t]):
            h = q.mem[t.obj].cells[0][1]; work = [r for r, oc in resume_top(e, q, h)]
            while work:
                r = work.pop(); g = r.ghost; over = len([1 for k in range(N) if any(a == k for a, _ in g['ids']) or any(a == k for a, _ in g['exc'])])
                if over < N:
                    e.prove(r, g['ev'] == () and not r.coros[h.obj].done, 'post/waits-for-every-child', f'{over} of {N} children finished'); left = g['parked']
                    if not e.prove(r, len(left) == N - over, 'post/every-child-started', f'{len(left)} of {N - over} unfinished children are running'): continue
                    for j in range(len(left)):
                        x = r.clone(); r.forks += 1; x.forks += 1; x.ghost['parked'] = left[:j] + left[j + 1:]; work += [y for y, oc in resume_top(e, x, left[j][1])]
                    continue
                n += 1; e.prove(r, g['ev'] == ('end',) and r.coros[h.obj].done, 'post/continues-after-the-last-child', f'{g["ev"]}')
                if not e.prove(r, [s[0] for s in g['slots']] == list(range(N)), 'post/slots'): continue
                for s in g['slots']: w.check_slot(r, s[0], s, kinds[s[0]] == 'ref', kinds[s[0]] == 'void')
                for r2, oc in e.call(r, 'vc_task_result', [t]): e.prove(r2, oc[0] == 'ret', 'post/no-exception')
                (r, oc), = e.call(r, 'vc_dtor_task', [t]); e.prove(r, r.ghost['live'] == w.base, 'post/every-value-destroyed', str(r.ghost['live']))
                for o in r.coros: e.prove(r, r.mem[o].dead is not None, 'post/children-destroyed')
        e.prove(State(), n > 0, 'cover/finishes')
    part.__name__ = 'part_' + name
    return part


PARTS = [part_latch, part_child, part_start, part_move, part_factory, whole('w0', ()), whole('w1', ('val',)), whole('w2', ('val', 'int')), whole('w2l', ('val', 'ref')), whole('w2m', ('val', 'void')), whole('w3', ('int', 'void', 'val'))]
