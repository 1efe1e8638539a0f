"""C18: coro::generator -- exactly the produced sequence, lazily, frame destroyed once."""
import z3
from vcgen.core import *
from vcgen.engine import *
from vcgen.proto import *
from vcgen.tracked import Tracked

NOTE = 'bodies that yield any number of values (loop by invariant), each a local, a temporary, a moved-from local, a const local, a reference or an integer, and that return or throw anywhere; consumers that iterate to the end or abandon at any point; the increment / dereference / end operations one by one.'
TUS = ['generator.cpp']
KINDS = ('int', 'intt', 'local', 'temp', 'moved', 'const', 'ref', 'cref', 'rref', 'two')


class W:
    def __init__(s, ctx, name):
        s.mod = ctx.module('generator.cpp'); s.eng = e = ctx.engine(s.mod, 'generator: ' + name); s.st = st = State(); s.tr = Tracked(e, copy_throws=False); s.tr.init(st); C = e.contract_first
        st.ghost.update(started=False, left=False, exc=None, cur=None, obj=None, due=False, seen=None, result=None, stopped=False); s.cell = st.new('fresh', 'referenced', 8); s.tr.birth(st, s.cell, BV('referenced'))
        def fork(q, throws): x = q.clone(); q.forks += 1; x.forks += 1; return x
        def thrown(q): x = fork(q, 1); p = x.new('heap', 'exception', 16); x.tags[('exc', p.obj)] = 'user'; x.ghost['exc'] = p.obj; x.ghost['due'] = False; x.note('the body throws'); return (x, Throw(Exc(p, 'user')))
        def enter(e, q, i, a, fn): e.prove(q, q.ghost['started'] is False, 'generator/body-starts-once'); q.ghost['started'] = True; t = thrown(q); return [(q, None), t]
        C('=vc_enter', enter)
        def more(e, q, i, a, fn): x = fork(q, 0); return [(q, 1), (x, 0), thrown(q)]
        C('=vc_more', more)
        def vid(e, q, i, a, fn): v = BV('value'); e.prove(q, q.ghost['due'] is False, 'generator/runs-only-as-far-as-asked', 'the body runs on although the consumer has not asked for the next value'); q.ghost['cur'] = v; q.ghost['obj'] = None; q.ghost['due'] = True; return [(q, v)]
        C('=vc_id', vid)
        def obj(e, q, i, a, fn): q.ghost['obj'] = a[0]; return None
        C('=vc_obj', obj); C('=vc_cell', lambda e, q, i, a, fn: s.cell); 
        def leave(e, q, i, a, fn): q.ghost['left'] = True; return None
        C('=vc_leave', leave); C('=vc_resumed', lambda e, q, i, a, fn: None)
        def got(e, q, i, a, fn):
            g = q.ghost; e.prove(q, g['cur'] is not None and g['exc'] is None and g['left'] is False, 'generator/only-produced-values', 'a value is seen although the body has produced none')
            if s.once: e.prove(q, g['due'] is True, 'generator/each-value-once', 'a value is seen again')
            want = e.load(q, s.cell, 8, 'i64')[0][1] if s.kind in ('ref', 'cref') else g['cur']
            e.prove(q, eq(a[0], want) if want is not None else False, 'generator/exactly-the-yielded-value', f'{a[0]} instead of {want}')
            if g['obj'] is not None: e.prove(q, e.ptr_eq(q, a[1], g['obj']), 'generator/the-very-object-yielded', f'{a[1]} instead of {g["obj"]}')
            g['due'] = False; return None
        C('=vc_got', got)
        def stop(e, q, i, a, fn): x = fork(q, 0); x.ghost['stopped'] = True; return [(q, 0), (x, 1)]
        C('=vc_stop', stop)
        def end(e, q, i, a, fn): g = q.ghost; e.prove(q, g['left'] is True, 'generator/ends-when-the-body-returns', 'the iteration ends although the body has not returned'); e.prove(q, g['due'] is False, 'generator/no-value-lost'); g['result'] = 'end'; return None
        C('=vc_end', end)
        def caught(e, q, i, a, fn):
            g = q.ghost; ex = q.exc_caught[-1] if q.exc_caught else None; e.prove(q, ex is not None and isinstance(ex.ptr, Ptr) and g['exc'] == ex.ptr.obj, 'generator/rethrows-exactly-the-escaped-exception'); g['result'] = 'caught'; return None
        C('=vc_caught', caught)

    def make(s, kind, st=None):
        s.kind = kind; s.once = True; st = st or s.st; g = st.new('fresh', 'generator', 8); e = s.eng; (q, oc), = e.call(st, 'vc_make_' + kind, [g]); e.prove(q, oc[0] == 'ret' and q.ghost['started'] is False, 'post/lazy', 'the body runs before it is asked'); h = q.mem[g.obj].cells[0][1]; return q, g, h

    def freed(s, q, h): e = s.eng; e.prove(q, q.mem[h.obj].dead is not None, 'post/frame-destroyed', 'the coroutine frame is never destroyed'); lv = tuple(x for x in q.ghost['live'] if x != (s.cell.obj, 0)); e.prove(q, lv == () and (s.cell.obj, 0) in q.ghost['live'], 'post/every-value-destroyed', f'{[q.mem[o].name for o, _ in lv]}')


def iterate(kind):
    def part(ctx):
        w = W(ctx, f'iterating over {kind}'); e = w.eng; q, g, h = w.make(kind); seen = set(); x = q.clone(); (x, oc), = e.call(x, 'vc_dtor_' + kind, [g]); w.freed(x, h)
        for r, oc in e.call(q, 'vc_for_' + kind, [g]):
            e.prove(r, oc[0] == 'ret', 'post/no-exception-escapes', str(oc)); c = r.coros[h.obj]; seen.add(r.ghost['result'] or ('stopped' if r.ghost['stopped'] else '?'))
            if r.ghost['result'] is None: e.prove(r, r.ghost['stopped'], 'post/ends'); e.prove(r, not c.done, 'post/abandoned-body-is-suspended')
            else: e.prove(r, c.done, 'post/body-finished'); e.prove(r, (r.ghost['result'] == 'caught') == (r.ghost['exc'] is not None), 'post/exception-reaches-the-consumer', 'an exception that escaped the body is lost')
            e.prove(r, r.mem[h.obj].dead is None, 'post/frame-lives-as-long-as-the-generator'); (r, oc), = e.call(r, 'vc_dtor_' + kind, [g]); w.freed(r, h)
        e.prove(State(), seen == {'end', 'caught', 'stopped'}, 'cover/all-outcomes', str(seen))
    part.__name__ = 'part_iterate_' + kind
    return part


def steps(kind):
    def part(ctx):
        w = W(ctx, f'iterator operations ({kind})'); e = w.eng; q, g, h = w.make(kind); w.once = False; it = q.new('fresh', 'iterator', 8); seen = set(); work = [(r, oc, 0) for r, oc in e.call(q, 'vc_begin_' + kind, [it, g])]
        while work:
            r, oc, n = work.pop(); G = r.ghost; e.prove(r, G['started'] is True, 'post/runs-when-asked')
            if oc[0] == 'throw': seen.add('throw'); e.prove(r, isinstance(oc[1].ptr, Ptr) and oc[1].ptr.obj == G['exc'], 'post/rethrows-exactly-the-escaped-exception'); (r, oc), = e.call(r, 'vc_dtor_' + kind, [g]); w.freed(r, h); continue
            e.prove(r, G['exc'] is None, 'post/exception-reaches-the-consumer', 'an exception that escaped the body is lost'); over = G['left']
            for k in range(2):
                (r, o1), = e.call(r, 'vc_more_' + kind, [it, g]); (r, o2), = e.call(r, 'vc_done_' + kind, [it, g]); e.prove(r, And(eq(o1[1], int(not over), 1), eq(o2[1], int(over), 1)), 'post/end-iff-the-body-returned', f'{o1} {o2}')
            if over: seen.add('end'); (r, oc), = e.call(r, 'vc_dtor_' + kind, [g]); w.freed(r, h); continue
            cur = G['cur']
            for f in ('star', 'star') + (('arrow',) if kind != 'rref' else ()): (r, oc), = e.call(r, f'vc_{f}_{kind}', [it]); e.prove(r, oc[0] == 'ret', 'post/dereference')
            e.prove(r, r.ghost['cur'] is cur, 'post/dereference-does-not-run-the-body'); seen.add('value')
            if n >= 3: (r, oc), = e.call(r, 'vc_dtor_' + kind, [g]); w.freed(r, h); continue
            work += [(y, oc, n + 1) for y, oc in e.call(r, ('vc_inc_' if n != 1 else 'vc_post_') + kind, [it])]
        e.prove(State(), seen == {'throw', 'end', 'value'}, 'cover/all-outcomes', str(seen))
    part.__name__ = 'part_steps_' + kind
    return part


def part_moves(ctx):
    for kind in ('local', 'int', 'ref'):
        w = W(ctx, f'moving ({kind})'); e = w.eng; D = 'vc_dtor_' + kind; q0, g, h = w.make(kind); q0, u, k = w.make(kind, q0); H = lambda q, p: q.mem[p.obj].cells[0][1]; is_ = lambda q, p, h: isinstance(H(q, p), Ptr) and H(q, p).obj == h.obj; one = lambda q, f, a: e.call(q, f, a)[0][0]
        dead = lambda q, h: q.mem[h.obj].dead is not None
        q = q0.clone(); d = q.new('fresh', 'moved to', 8); q = one(q, 'vc_mctor_' + kind, [g, d]); e.prove(q, H(q, g) == 0 and is_(q, d, h) and not dead(q, h), 'post/move-transfers'); q = one(q, D, [g]); e.prove(q, not dead(q, h), 'post/moved-from-destroys-nothing'); q = one(q, D, [d]); e.prove(q, dead(q, h), 'post/frame-destroyed')
        q = q0.clone(); q = one(q, 'vc_assign_' + kind, [g, u]); e.prove(q, H(q, u) == 0 and is_(q, g, k) and dead(q, h) and not dead(q, k), 'post/assignment-transfers-and-destroys-the-replaced-body', f'{H(q, u)} {H(q, g)}'); q = one(q, D, [u]); q = one(q, D, [g]); w.freed(q, k)
        q = q0.clone(); q = one(q, 'vc_assign_' + kind, [g, g]); e.prove(q, is_(q, g, h) and not dead(q, h), 'post/self-assignment-changes-nothing')
        q = q0.clone(); z = q.new('fresh', 'empty', 8); q = one(q, 'vc_dctor_' + kind, [z]); y = one(q.clone(), 'vc_assign_' + kind, [z, g]); e.prove(y, is_(y, z, h) and H(y, g) == 0, 'post/assignment-to-empty'); y = one(y, D, [z]); e.prove(y, dead(y, h), 'post/frame-destroyed'); y = one(q.clone(), 'vc_assign_' + kind, [g, z]); e.prove(y, H(y, g) == 0 and dead(y, h), 'post/assignment-of-empty')
        it = q.new('fresh', 'it', 8); q = one(q, 'vc_begin_' + kind, [it, z]); (q, oc), = e.call(q, 'vc_more_' + kind, [it, z]); e.prove(q, eq(oc[1], 0, 1), 'post/empty-generator-has-no-values'); q = one(q, D, [z])


PARTS = [iterate(k) for k in KINDS] + [steps(k) for k in KINDS] + [part_moves]
