"""C09: coro::task -- result, exception and frame lifetime."""
import z3
from vcgen.core import *
from vcgen.engine import *
from vcgen.proto import *
from vcgen.monitor import resume_top, destroy_top
from vcgen.tracked import Tracked

NOTE = 'task<void>, task<integer>, task<const integer>, task<T>, task<const T>, task<T&>, task<const T&> for a tracked T whose copies may throw; the body runs, suspends any place and returns or throws, awaited as an lvalue and as an rvalue, resumed by hand or by an awaiter.'
TUS = ['task.cpp']
VALS = ('int', 'cint', 'temp', 'local', 'moved', 'copied', 'conv', 'const', 'pinned', 'pinnedt', 'ref', 'cref'); ALL = ('void',) + VALS
REF = ('ref', 'cref')


class H:
    def __init__(s, ctx, name):
        s.mod = ctx.module('task.cpp'); s.eng = e = ctx.engine(s.mod, f'task: {name}'); s.st = st = State(); s.tr = Tracked(e); s.tr.init(st); C = e.contract_first
        st.ghost.update(ev=(), id=None, exc=None, points=(), got=None); s.cell = st.new('fresh', 'referenced value', 8); s.tr.birth(st, s.cell, BV('referenced')); st.ghost['live'] = ((s.cell.obj, 0),)
        def ev(n, throws=False):
            def h(e, q, i, a, fn):
                q.ghost['ev'] += (n,); q.note(n)
                if not throws: return None
                x = q.clone(); q.forks += 1; x.forks += 1; p = x.new('heap', 'exception', 16); x.tags[('exc', p.obj)] = 'user'; x.ghost['exc'] = p.obj; x.note(n + ' throws')
                return [(q, None), (x, Throw(Exc(p, 'user')))]
            return h
        C('=vc_enter', ev('enter', True)); C('=vc_outer_start', ev('outer')); C('=vc_outer_end', ev('end')); C('=vc_outer_caught', s.caught)
        def ready(e, q, i, a, fn): x = q.clone(); q.forks += 1; x.forks += 1; return [(q, 1), (x, 0)]
        C('=vc_point_ready', ready)
        def point(e, q, i, a, fn): q.ghost['points'] += (a[0],); q.note('the body suspends'); return None
        C('=vc_point', point)
        def vid(e, q, i, a, fn): v = BV('value'); q.ghost['id'] = v; q.ghost['ev'] += ('value',); x = q.clone(); q.forks += 1; x.forks += 1; p = x.new('heap', 'exception', 16); x.tags[('exc', p.obj)] = 'user'; x.ghost['exc'] = p.obj; return [(q, v), (x, Throw(Exc(p, 'user')))]
        C('=vc_id', vid); C('=vc_got', s.got); C('=vc_cell', lambda e, q, i, a, fn: s.cell)

    def got(s, e, q, i, a, fn): q.ghost['ev'] += ('got',); q.ghost['got'] = (a[0], a[1]); return None

    def caught(s, e, q, i, a, fn):
        q.ghost['ev'] += ('caught',); ex = q.exc_caught[-1] if q.exc_caught else None
        e.prove(q, ex is not None and q.ghost['exc'] is not None and ex.ptr.obj == q.ghost['exc'], 'task/rethrows-exactly-the-escaped-exception', f'{ex}'); return None

    def make(s, kind, st=None):
        st = st or s.st; t = st.new('fresh', 'task', 8); out = []; n = len(st.ghost['ev'])
        for q, oc in s.eng.call(st, 'vc_make_' + kind, [t]):
            s.eng.prove(q, oc[0] == 'ret', 'post/task-created'); s.eng.prove(q, len(q.ghost['ev']) == n, 'post/task-starts-lazily', 'the body ran before the task was awaited or resumed'); out.append((q, t, s.h(q, t)))
        return out

    def h(s, q, t):
        v = q.mem[t.obj].cells.get(0, (0, 0))[1]
        return v if isinstance(v, Ptr) else None

    def want(s, q, kind): return s.eng.load(q, s.cell, 8, 'i64')[0][1] if kind in REF else q.ghost['id']

    def freed(s, q, h, what='post/frame-destroyed'): s.eng.prove(q, q.mem[h.obj].dead is not None, what, 'the coroutine frame was never freed')

    def clean(s, q, more=()):
        lv = tuple(x for x in q.ghost['live'] if x != (s.cell.obj, 0) and x not in more)
        s.eng.prove(q, lv == (), 'post/every-value-destroyed', f'still alive: {[q.mem[o].name for o, _ in lv]}'); s.eng.prove(q, (s.cell.obj, 0) in q.ghost['live'], 'post/referenced-value-untouched')

    def c1(s, q, fn, args): r = s.eng.call(q, fn, args); assert len(r) == 1, (fn, len(r)); return r[0]


def drive(kind, how):
    def part(ctx):
        H_ = H(ctx, f'awaiting task<{kind}> as {how}value'); e = H_.eng; seen = set()
        for q, t, ih in H_.make(kind):
            o = q.new('fresh', 'outer', 8); k = len(q.ghost['ev']); q.ghost['ev'] = ()
            for q1, oc in e.call(q, f'vc_out{how}_{kind}', [t, o]):
                e.prove(q1, oc[0] == 'ret' and q1.ghost['ev'] == (), 'post/task-starts-lazily'); oh = H_.h(q1, o)
                if how == 'r': e.prove(q1, H_.h(q1, t) is None, 'post/moved-from-task-is-empty')
                for q2, oc2 in resume_top(e, q1, oh):
                    e.prove(q2, oc2[0] in ('ret', 'suspend', 'coro_end'), 'post/no-exception-escapes', str(oc2)); ends = [q2]
                    if q2.ghost['points']:
                        e.prove(q2, not q2.coros[oh.obj].done and q2.ghost['ev'] == ('outer', 'enter'), 'task/awaiter-waits-for-the-body', f'{q2.ghost["ev"]}'); p = q2.ghost['points']
                        e.prove(q2, len(p) == 1 and isinstance(p[0], Ptr) and p[0].obj == ih.obj, 'task/body-suspends-itself')
                        # abandoned while the body is suspended
                        x = q2.clone(); x.forks += 1; q2.forks += 1
                        x, oc = H_.c1(x, 'vc_dtor_void', [o]); H_.freed(x, oh)
                        if how == 'l': x, oc = H_.c1(x, 'vc_dtor_' + kind, [t])
                        H_.freed(x, ih); H_.clean(x)
                        ends = [r for r, oc in resume_top(e, q2, ih)]
                    for r in ends:
                        ev = r.ghost['ev']; ok = ev in (('outer', 'enter', 'value', 'got', 'end'), ('outer', 'enter', 'caught'), ('outer', 'enter', 'value', 'caught')); seen.add(ev[-1])
                        e.prove(r, ok, 'task/body-once-then-awaiter-once', f'history {ev}')
                        e.prove(r, r.coros[oh.obj].done, 'task/awaiter-resumed', 'the awaiting coroutine never continues')
                        if ev and ev[-1] == 'end':
                            if kind != 'void':
                                v, p = r.ghost['got']; e.prove(r, eq(v, H_.want(r, kind)), 'task/exactly-the-returned-value', f'{v} instead of {H_.want(r, kind)}')
                                if kind in REF: e.prove(r, e.ptr_eq(r, p, H_.cell), 'task/exactly-the-returned-object')
                            e.prove(r, r.ghost['exc'] is None, 'task/exception-lost')
                        elif ok: e.prove(r, r.ghost['exc'] is not None, 'task/exception-invented')
                        if how == 'l':
                            r, oc = H_.c1(r, 'vc_ready_' + kind, [t]); e.prove(r, boolterm(oc[1]), 'post/finished-task-is-ready')
                        r, oc = H_.c1(r, 'vc_dtor_void', [o]); H_.freed(r, oh)
                        if how == 'l':
                            e.prove(r, r.mem[ih.obj].dead is None, 'task/destroyed-by-its-owner-only'); r, oc = H_.c1(r, 'vc_dtor_' + kind, [t])
                        H_.freed(r, ih); H_.clean(r)
        e.prove(State(), seen == {'end', 'caught'}, 'cover/all-outcomes', str(seen))
    part.__name__ = f'part_await_{kind}_{how}'
    return part


def by_hand(kind):
    def part(ctx):
        H_ = H(ctx, f'task<{kind}> resumed by hand'); e = H_.eng; seen = set()
        for q, t, h in H_.make(kind):
            q, oc = H_.c1(q, 'vc_ready_' + kind, [t]); e.prove(q, Not(oc[1]), 'post/unstarted-task-is-not-ready')
            q, oc = H_.c1(q, 'vc_awready_' + kind, [t]); e.prove(q, Not(oc[1]), 'post/await-of-unfinished-task-does-not-continue')
            q, oc = H_.c1(q, 'vc_handle_' + kind, [t]); e.prove(q, e.ptr_eq(q, oc[1], h), 'post/handle')
            def unfinished(x):
                for fn in (('vc_resl_', 'vc_resc_', 'vc_resr_') if kind != 'void' else ()):
                    y, oc = H_.c1(x.clone(), fn + kind, [t]); e.prove(y, oc[0] == 'throw' and oc[1].ti == '_ZTISt13runtime_error', 'post/result-of-unfinished-task-throws', f'{fn}: {oc}')
            unfinished(q)
            x = q.clone(); x, oc = H_.c1(x, 'vc_destroy_' + kind, [t]); e.prove(x, boolterm(oc[1]), 'post/destroy-reports'); H_.freed(x, h); e.prove(x, H_.h(x, t) is None, 'post/destroyed-task-is-empty'); e.prove(x, x.ghost['ev'] == (), 'task/destroyed-body-never-runs')
            x, oc = H_.c1(x, 'vc_destroy_' + kind, [t]); e.prove(x, Not(oc[1]), 'post/second-destroy-does-nothing'); x, oc = H_.c1(x, 'vc_ready_' + kind, [t]); e.prove(x, boolterm(oc[1]), 'post/empty-task-is-ready'); x, oc = H_.c1(x, 'vc_awready_' + kind, [t]); e.prove(x, boolterm(oc[1]), 'post/await-of-empty-task')
            x, oc = H_.c1(x, 'vc_dtor_' + kind, [t]); H_.clean(x)
            for q1, oc in e.call(q, 'vc_resume_' + kind, [t]):
                e.prove(q1, oc[0] == 'ret', 'post/exception-stays-in-the-task'); e.prove(q1, q1.ghost['ev'][:1] == ('enter',), 'post/resume-runs-the-body'); ends = [(q1, oc)]
                if q1.ghost['points']:
                    e.prove(q1, boolterm(oc[1]), 'post/resume-tells-more-to-do'); q1, o2 = H_.c1(q1, 'vc_ready_' + kind, [t]); e.prove(q1, Not(o2[1]), 'post/suspended-task-is-not-ready'); unfinished(q1)
                    ends = e.call(q1, 'vc_resume_' + kind, [t])
                for r, oc in ends:
                    e.prove(r, oc[0] == 'ret' and eq(oc[1], 0, 1), 'post/resume-tells-finished', str(oc)); r, oc = H_.c1(r, 'vc_ready_' + kind, [t]); e.prove(r, boolterm(oc[1]), 'post/finished-task-is-ready'); ev = r.ghost['ev']
                    e.prove(r, ev.count('enter') == 1 and ev.count('value') <= 1, 'task/body-runs-once', str(ev)); r, oc = H_.c1(r, 'vc_resume_' + kind, [t]); e.prove(r, r.ghost['ev'] == ev and eq(oc[1], 0, 1), 'post/resuming-a-finished-task-does-nothing')
                    r, oc = H_.c1(r, 'vc_awready_' + kind, [t]); e.prove(r, boolterm(oc[1]), 'post/await-of-finished-task-continues')
                    exc = r.ghost['exc']; id0 = r.ghost['id']
                    for fn in (('vc_resl_', 'vc_resc_', 'vc_resr_') if kind != 'void' else ('vc_resl_', 'vc_resr_')):
                        for y, oc in [z for w, _ in (e.call(r.clone(), fn + kind, [t]) if fn != 'vc_resr_' else [(r.clone(), None)]) for z in e.call(w, fn + kind, [t])]:     # asking twice gives the same answer
                            if exc is not None: e.prove(y, oc[0] == 'throw' and isinstance(oc[1].ptr, Ptr) and oc[1].ptr.obj == exc, 'post/result-rethrows-exactly-the-exception', str(oc)); seen.add('throws'); continue
                            if oc[0] == 'throw': e.prove(y, kind in ('const', 'cref', 'pinned', 'pinnedt') and oc[1].ti == 'copy', 'post/result-returns', str(oc)); continue
                            seen.add('value')
                            if kind == 'void': continue
                            v = oc[1] if fn == 'vc_resr_' else None
                            if v is None:
                                p = oc[1]; e.prove(y, isinstance(p, Ptr) and y.mem[p.obj].dead is None, 'post/result-refers-to-a-live-object', str(p))
                                if kind in REF: e.prove(y, e.ptr_eq(y, p, H_.cell), 'post/exactly-the-returned-object'); continue
                                v = e.load(y, p, 8, 'i64')[0][1]
                            e.prove(y, eq(v, H_.want(r, kind)), 'post/exactly-the-returned-value', f'{fn}: {v}')
                    r, oc = H_.c1(r, 'vc_dtor_' + kind, [t]); H_.freed(r, h); H_.clean(r)
        e.prove(State(), seen == {'value', 'throws'}, 'cover/all-outcomes', str(seen))
    part.__name__ = f'part_hand_{kind}'
    return part


def part_moves(ctx):
    for kind in ('void', 'int', 'local', 'ref'):
        H_ = H(ctx, f'moving task<{kind}>'); e = H_.eng; D = 'vc_dtor_' + kind
        (q0, t, h), = H_.make(kind); (q0, u, g), = H_.make(kind, q0)
        q, oc = H_.c1(q0.clone(), 'vc_mctor_' + kind, [t, q0.new('fresh', 'x', 8)]) if False else (q0.clone(), None)
        d = q.new('fresh', 'moved to', 8); q, oc = H_.c1(q, 'vc_mctor_' + kind, [t, d])
        e.prove(q, H_.h(q, t) is None, 'post/moved-from-task-is-empty'); hd = H_.h(q, d); e.prove(q, hd is not None and hd.obj == h.obj, 'post/move-transfers-the-coroutine'); e.prove(q, q.mem[h.obj].dead is None and q.ghost['ev'] == (), 'post/move-touches-nothing')
        q, oc = H_.c1(q, D, [t]); e.prove(q, q.mem[h.obj].dead is None, 'post/moved-from-task-destroys-nothing'); q, oc = H_.c1(q, D, [d]); H_.freed(q, h)
        q = q0.clone(); q, oc = H_.c1(q, 'vc_assign_' + kind, [t, u]); e.prove(q, H_.h(q, u) is None, 'post/moved-from-task-is-empty'); ht = H_.h(q, t); e.prove(q, ht is not None and ht.obj == g.obj, 'post/assignment-transfers'); H_.freed(q, h, 'post/replaced-coroutine-destroyed'); e.prove(q, q.mem[g.obj].dead is None, 'post/assignment-keeps-the-new-coroutine')
        q, oc = H_.c1(q, D, [t]); q, oc = H_.c1(q, D, [u]); H_.freed(q, g); H_.clean(q)
        q = q0.clone(); q, oc = H_.c1(q, 'vc_assign_' + kind, [t, t]); ht = H_.h(q, t); e.prove(q, ht is not None and ht.obj == h.obj and q.mem[h.obj].dead is None, 'post/self-assignment-changes-nothing'); q, oc = H_.c1(q, D, [t]); H_.freed(q, h)
        q = q0.clone(); z = q.new('fresh', 'empty task', 8); q, oc = H_.c1(q, 'vc_dctor_' + kind, [z]); e.prove(q, H_.h(q, z) is None, 'post/default-task-is-empty')
        y = q.clone(); y, oc = H_.c1(y, 'vc_assign_' + kind, [z, t]); e.prove(y, H_.h(y, t) is None and H_.h(y, z) is not None and H_.h(y, z).obj == h.obj, 'post/assignment-to-an-empty-task'); y, oc = H_.c1(y, D, [z]); H_.freed(y, h)
        y = q.clone(); y, oc = H_.c1(y, 'vc_assign_' + kind, [t, z]); e.prove(y, H_.h(y, t) is None, 'post/assignment-of-an-empty-task'); H_.freed(y, h); y, oc = H_.c1(y, D, [t]); y, oc = H_.c1(y, D, [z])


PARTS = [by_hand(k) for k in ALL] + [drive(k, h) for k in ALL for h in 'lr'] + [part_moves]
