"""C24: fire-and-forget tasks -- body once, then bookkeeping once, then the frame is freed."""
import z3
from vcgen.core import *
from vcgen.engine import *
from vcgen.proto import *
from vcgen.monitor import resume_top
from vcgen.tracked import Tracked

NOTE = 'make_task_self_deleting and its promise run whole over a task that owns a parameter and locals, suspends any time, returns or throws anywhere; the owner counted down is treated as gone from that moment on; with and without an owner, refused (destroyed unstarted), moved and assigned.'
TUS = ['task_group.cpp']


class W:
    def __init__(s, ctx, name):
        s.mod = ctx.module('task_group.cpp'); s.eng = e = ctx.engine(s.mod, 'self deleting task: ' + name); s.off = lambda x: ctx.off(s.mod, x); s.st = st = State(); s.tr = Tracked(e, copy_throws=False); s.tr.init(st); C = e.contract_first
        st.ghost.update(ev=(), parked=(), down=0); s.owner = st.new('shared', 'owner', 8); s.wrapper = None
        def thrown(q): x = q.clone(); q.forks += 1; x.forks += 1; p = x.new('heap', 'exception', 16); x.tags[('exc', p.obj)] = 'user'; x.ghost['ev'] += ('throw',); x.note('the body throws'); return (x, Throw(Exc(p, 'user')))
        def ev(n):
            def h(e, q, i, a, fn): q.note(n); t = thrown(q); q.ghost['ev'] += (n,); t[0].ghost['ev'] = t[0].ghost['ev'][:-1] + (n, 'throw'); return [(q, None), t]
            return h
        C('=vc_enter', ev('enter')); C('=vc_run', ev('run'))
        def ready(e, q, i, a, fn): t = thrown(q); x = q.clone(); q.forks += 1; x.forks += 1; return [(q, 1), (x, 0), t]
        C('=vc_ready', ready)
        def point(e, q, i, a, fn): q.ghost['parked'] += (a[1],); q.note('the body suspends'); return None
        C('=vc_point', point)
        def down(e, q, i, a, fn):
            g = q.ghost; e.prove(q, isinstance(a[0], Ptr) and a[0].obj == s.owner.obj, 'task/counts-down-its-owner'); e.chk_ptr(q, a[0], 8, False); g['down'] += 1; q.note('counted down'); e.prove(q, g['down'] == 1, 'task/counted-down-once'); e.prove(q, g['ev'] in s.over, 'task/counted-down-after-the-body', f'history {g["ev"]}')
            e.prove(q, g['live'] == (), 'task/everything-it-owns-is-destroyed-first', f'still alive: {[q.mem[o].name for o, _ in g["live"]]}')
            for o in q.coros: e.prove(q, o == s.wrapper or q.mem[o].dead is not None, 'task/user-coroutine-is-destroyed-first', q.mem[o].name)
            q.w(s.owner.obj).dead = 'counted down: the owner may be gone'; return None
        C('=vc_count_down', down)

    over = {('enter', 'run'), ('enter', 'throw'), ('enter', 'run', 'throw')}
    def one(s, q, f, a): r = s.eng.call(q, f, a); assert len(r) == 1 and r[0][1][0] == 'ret', (f, r); return r[0]


def lives(fs):
    def part(ctx):
        w = W(ctx, 'with an owner' if fs else 'without an owner'); e = w.eng; t = w.st.new('fresh', 'task', w.off('sd')); q, _ = w.one(w.st, 'vc_sd_make', [t, fs, w.owner]); q, oc = w.one(q, 'vc_sd_handle', [t]); h = oc[1]; w.wrapper = h.obj; seen = set()
        e.prove(q, q.ghost['ev'] == () and len(q.coros) == 2, 'post/starts-lazily'); q, oc = w.one(q, 'vc_sd_chandle', [t]); e.prove(q, e.ptr_eq(q, oc[1], h), 'post/handle')
        dead = lambda q: e.prove(q, all(q.mem[o].dead is not None for o in q.coros), 'post/every-frame-freed', str([q.mem[o].name for o in q.coros if q.mem[o].dead is None]))
        x = q.clone(); x, _ = w.one(x, 'vc_sd_destroy', [t]); e.prove(x, x.ghost['down'] == 0 and x.ghost['ev'] == (), 'post/refused-task-never-runs'); dead(x); e.prove(x, x.ghost['live'] == (), 'post/everything-destroyed')
        for q1, oc in e.call(q, 'vc_sd_resume', [t]):
            e.prove(q1, oc[0] == 'ret', 'post/no-exception-escapes', str(oc)); e.prove(q1, q1.ghost['ev'][:1] == ('enter',), 'post/resume-runs-the-body'); ends = [q1]
            if q1.ghost['parked']:
                e.prove(q1, q1.ghost['down'] == 0, 'post/not-counted-down-while-it-runs'); e.prove(q1, all(q1.mem[o].dead is None for o in q1.coros), 'post/suspended-task-lives'); ends = []
                for r, oc in resume_top(e, q1, q1.ghost['parked'][0]): e.prove(r, oc[0] != 'throw', 'post/no-exception-escapes', str(oc)); ends.append(r)
            for r in ends: g = r.ghost; seen.add(g['ev'][-1]); e.prove(r, g['ev'] in w.over, 'post/body-runs-once', str(g['ev'])); e.prove(r, g['down'] == fs, 'post/counted-down-once', 'the bookkeeping is skipped' if not g['down'] else ''); dead(r); e.prove(r, g['live'] == (), 'post/everything-destroyed')
        e.prove(State(), seen == {'run', 'throw'}, 'cover/all-outcomes', str(seen))
    part.__name__ = 'part_lives_' + str(fs)
    return part


def part_plain(ctx):
    w = W(ctx, 'immediate'); w.over = {('enter',), ('enter', 'throw')}; e = w.eng; t = w.st.new('fresh', 'task', w.off('sd')); q, _ = w.one(w.st, 'vc_sd_make_plain', [t, w.owner]); q, oc = w.one(q, 'vc_sd_handle', [t]); w.wrapper = oc[1].obj; h = oc[1]; n = 0
    for r, oc in resume_top(e, q, h): n += 1; g = r.ghost; e.prove(r, g['ev'] in w.over and g['down'] == 1 and all(r.mem[o].dead is not None for o in r.coros), 'post/body-then-bookkeeping-then-freed', str((g['ev'], g['down'])))
    e.prove(State(), n == 2, 'cover/both')


def part_moves(ctx):
    w = W(ctx, 'handles'); e = w.eng; n = w.off('sd'); t = w.st.new('fresh', 'task', n); u = w.st.new('fresh', 'other', n); q, _ = w.one(w.st, 'vc_sd_make', [t, 1, w.owner]); q, a = w.one(q, 'vc_sd_handle', [t]); q, _ = w.one(q, 'vc_sd_make', [u, 1, w.owner]); q, b = w.one(q, 'vc_sd_handle', [u])
    e.prove(q, isinstance(a[1], Ptr) and isinstance(b[1], Ptr) and a[1].obj != b[1].obj, 'post/own-frame')
    x = q.clone(); x, _ = w.one(x, 'vc_sd_assign', [t, u]); x, c = w.one(x, 'vc_sd_handle', [t]); e.prove(x, e.ptr_eq(x, c[1], b[1]), 'post/assignment-transfers'); e.prove(x, x.ghost['ev'] == () and all(x.mem[o].dead is None for o in x.coros), 'post/assignment-runs-and-frees-nothing')
    x = q.clone(); x, _ = w.one(x, 'vc_sd_assign', [t, t]); x, c = w.one(x, 'vc_sd_handle', [t]); e.prove(x, e.ptr_eq(x, c[1], a[1]), 'post/self-assignment')


PARTS = [lives(1), lives(0), part_plain, part_moves]
