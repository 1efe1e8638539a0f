"""C12: coro::when_any -- the first result wins, exactly once."""
import z3
from vcgen.core import *
from vcgen.engine import *
from vcgen.proto import *
from vcgen.monitor import resume_top
from vcgen.tracked import Tracked

NOTE = 'each child proved against any number of other children finishing at any time (winner cell: unset or set by another child); building the controller proved for any number of children; lists of 1..3 children additionally run whole, finishing in every order, before and after the awaiter is gone.'
TUS = ['when_any.cpp']
KINDS = ('val', 'ref', 'int', 'void', 'tup0', 'tup1', 'tup2')


class Winner(Cell):
    size = 1; ty = 'i8'; name = 'winner flag'
    def values(s, eng, st, e=None):
        g = st.ghost
        if g['win'] is not None: return [(st, 1)]
        x = st.clone(); st.forks += 1; x.forks += 1; s.gone(x); x.ghost['win'] = 'other'
        return [(st, 0), (x, 1)]
    def gone(s, st):
        for o in st.ghost['outer']: st.w(o).dead = 'another child won: the awaiter may have continued and gone'
    def observed(s, eng, st, v, ord): st.note(f'load winner = {v}')
    def transition(s, eng, st, old, new, ord, how):
        g = st.ghost; st.note(f'{how} winner {old} -> {new}'); out = []
        for q, was in eng.split(st, norm(eq(old, 0, 8))):
            eng.prove(q, not is_term(new) and new & 1 == 1, 'winner/only-set', f'{old} -> {new}')
            if was: q.ghost['win'] = 'me'; eng.prove(q, q.ghost['finished'], 'winner/only-with-a-result', 'a child becomes the winner before it has a result')
            elif q.ghost['win'] is None: q.ghost['win'] = 'other'
            out.append(q)
        return out


class World:
    def __init__(s, ctx, name, st):
        s.mod = ctx.module('when_any.cpp'); s.eng = e = ctx.engine(s.mod, name); s.off = lambda x: ctx.off(s.mod, x); s.st = st; s.tr = Tracked(e); C = e.contract_first
        st.ghost.update(live=(), ids=(), exc=(), parked=(), order=(), won=(), ev=(), stop=0, win=None, finished=False, outer=(), set=0); s.cells = {}
        for n in range(3): s.cells[n] = st.new('fresh', f'referenced {n}', 8); s.tr.birth(st, s.cells[n], BV('referenced'))
        s.base = st.ghost['live']
        def throws(q, n, what): x = q.clone(); q.forks += 1; x.forks += 1; p = x.new('heap', 'exception', 16); x.tags[('exc', p.obj)] = 'user'; x.ghost['exc'] += ((n, p.obj),); x.note(f'child {n}: {what} throws'); return (x, Throw(Exc(p, 'user')))
        def copy_throws(q, p, a):
            k = next((k for k in s.cells if isinstance(a[1], Ptr) and a[1].obj == s.cells[k].obj), 'copy'); q.ghost['exc'] += ((k, p.obj),); q.ghost['ids'] = tuple(x for x in q.ghost['ids'] if x[0] != k)
        s.tr.on_throw = copy_throws
        def ready(e, q, i, a, fn): x = q.clone(); q.forks += 1; x.forks += 1; return [(q, 1), (x, 0)]
        C('=vc_ready', ready)
        def point(e, q, i, a, fn): q.ghost['parked'] += ((a[0], a[1]),); q.note(f'child {a[0]} suspends'); return None
        C('=vc_point', point)
        def vid(e, q, i, a, fn): t = throws(q, a[0], 'await_resume'); v = BV('value'); q.ghost['ids'] += ((a[0], v),); q.ghost['finished'] = True; q.note(f'child {a[0]} has a result'); return [(q, v), t]
        C('=vc_id', vid); C('=vc_cell', lambda e, q, i, a, fn: s.cells[a[0]])
        def won(e, q, i, a, fn): q.ghost['won'] += ((a[0], a[1]),); q.note(f'result {a[0]}: {a[1]}'); return None
        C('=vc_won', won); C('=vc_start', lambda e, q, i, a, fn: None)
        def end(e, q, i, a, fn): q.ghost['ev'] += ('end',); return None
        C('=vc_end', end)
        def caught(e, q, i, a, fn): q.ghost['ev'] += ('caught',); return None
        C('=vc_caught', caught)
        C(r'^std::stop_source::(stop_source|~stop_source|operator=)$', lambda e, q, i, a, fn: None)
        def stop(e, q, i, a, fn): e.prove(q, len(q.ghost['ids']) > 0, 'stop/only-after-a-winner'); q.ghost['stop'] += 1; q.note('stop requested'); return 1
        C('=std::stop_source::request_stop', stop)


def child(kind):
    def part(ctx):
        w = World(ctx, f'child ({kind}) among any others', State()); e, st, off = w.eng, w.st, w.off; t = st.new('fresh', 'task', 8); F = st.new('shared', 'winner', 1); E = st.new('opaque', 'notify event', off('event')); R = st.new('fresh', 'result slot', off('opt_' + (kind if kind in ('val', 'int') or kind.startswith('tup') else 'val'))); seen = set()
        (st, oc), = e.call(st, 'vc_new_' + kind, [R]); st.cells[(F.obj, 0)] = Winner(); st.ghost['outer'] = (E.obj, R.obj)
        def evset(e, q, i, a, fn):
            g = q.ghost; e.prove(q, isinstance(a[0], Ptr) and a[0].obj == E.obj, 'child/notifies-the-awaiter'); e.chk_ptr(q, a[0], 8, False); e.prove(q, g['win'] == 'me', 'child/only-the-winner-notifies'); e.prove(q, g['set'] == 0, 'child/notifies-once'); g['set'] = 1; q.note('awaiter notified')
            n0 = len(g['won'])
            for y, oc in e.call(q.clone(), 'vc_get_' + kind, [R]):
                got = y.ghost['won'][n0:]
                if kind == 'void': e.prove(y, got == (), 'child/result-stored-before-notifying'); continue
                idx = int(kind[3]) if kind.startswith('tup') else 0; want = y.ghost['ids'][0][1] if kind != 'ref' else e.load(y, w.cells[0], 8, 'i64')[0][1] if g.get('refval') is None else g['refval']
                ok = e.prove(y, len(got) == 1 and got[0][0] == idx, 'child/result-stored-before-notifying', f'{got}')
                if ok and kind != 'tup1': e.prove(y, eq(got[0][1], want), 'child/stores-its-own-result', f'{got[0][1]} instead of {want}')
            for o in g['outer']: q.w(o).dead = 'the awaiter was notified and may be gone'
            return None
        e.contract_first('=coro::event::set', evset)
        for q, oc in e.call(st, 'vc_k_' + kind, [t, F, E, R]):
            h = q.mem[t.obj].cells[0][1]; e.prove(q, oc[0] == 'ret' and q.ghost['ids'] == () and q.ghost['exc'] == (), 'post/child-starts-lazily')
            for q1, oc in resume_top(e, q, h):
                for r in [q1] if not q1.ghost['parked'] else [x for x, oc in resume_top(e, q1, q1.ghost['parked'][0][1])]:
                    g = r.ghost; e.prove(r, r.coros[h.obj].done, 'post/child-ends'); seen.add(('throws' if g['exc'] else g['win']))
                    if g['exc']: e.prove(r, g['win'] is None and g['set'] == 0, 'post/exception-does-not-win'); r = r.clone()
                    else: e.prove(r, g['win'] in ('me', 'other'), 'post/tries-to-win'); e.prove(r, g['set'] == (1 if g['win'] == 'me' else 0), 'post/winner-notifies', f'{g["win"]}, notified {g["set"]}')
                    for y, oc in e.call(r.clone(), 'vc_task_result', [t]): e.prove(y, (oc[0] == 'throw' and oc[1].ptr.obj == g['exc'][0][1]) if g['exc'] else oc[0] == 'ret', 'post/outcome-of-the-child', str(oc))
                    (r, oc), = e.call(r, 'vc_dtor_task', [t]); e.prove(r, r.mem[h.obj].dead is not None, 'post/child-destroyed')
                    for o in g['outer']: r.w(o).dead = None
                    (r, oc), = e.call(r, 'vc_del_' + kind, [R]); e.prove(r, r.ghost['live'] == w.base, 'post/every-value-destroyed', str(r.ghost['live']))
        e.prove(State(), seen == {'throws', 'me', 'other'}, 'cover/all-outcomes', str(seen))
    part.__name__ = 'part_child_' + kind
    return part


def whole(name, kinds, lst=False, stop=False):
    def part(ctx):
        N = len(kinds); w = World(ctx, f'{name}: {N} children, every order', State()); e, st = w.eng, w.st; t = st.new('fresh', 'task', 8); S = st.new('fresh', 'stop source', 8); n = {'early': 0, 'last': 0, 'never': 0}
        for q, oc in e.call(st, 'vc_' + name, [t, S]):
            e.prove(q, oc[0] == 'ret' and q.ghost['ids'] == () and q.ghost['exc'] == (), 'post/starts-lazily'); h = q.mem[t.obj].cells[0][1]; e.prove(q, isinstance(h, Ptr), 'post/task'); work = [(r, None) for r, oc in resume_top(e, q, h)]
            while work:
                r, freed = work.pop(); g = r.ghost; fin = [k for k, _ in g['ids']] + [k for k, _ in g['exc']]; over = len(fin); win = g['ids'][0] if g['ids'] else None
                e.prove(r, len(set(fin)) == len(fin), 'post/each-child-runs-once', str(fin))
                if win is None:
                    if over < N: e.prove(r, g['ev'] == () and not r.coros[h.obj].done, 'post/waits-for-a-result', 'completes although no child has a result'); e.prove(r, g['stop'] == 0, 'post/stop-only-after-a-winner')
                    else: n['never'] += 1; e.prove(r, 'end' in g['ev'], 'post/completes-when-every-child-threw', 'every child ends with an exception: the awaiter is never resumed')
                elif not freed:
                    if not e.prove(r, g['ev'] == ('end',) and r.coros[h.obj].done, 'post/completes-with-the-first-result', f'{g["ev"]}: {over} of {N} finished'): continue
                    n['early' if over < N else 'last'] += 1; k, v = win; want = e.load(r, w.cells[k], 8, 'i64')[0][1] if kinds[k] == 'ref' else v
                    if e.prove(r, len(g['won']) == 1 and (lst or g['won'][0][0] == k), 'post/result-of-the-winner', f'{g["won"]} instead of child {k}') and kinds[k] != 'void': e.prove(r, eq(g['won'][0][1], want), 'post/result-of-the-winner', f'{g["won"][0][1]} instead of {want}')
                    e.prove(r, g['stop'] == (1 if stop else 0), 'post/stop-requested-once-a-winner-exists', str(g['stop']))
                    # the awaiter goes away while the other children are still running
                    r, oc = r, None; (r, oc), = e.call(r, 'vc_dtor_task', [t]); e.prove(r, r.mem[h.obj].dead is not None, 'post/awaiter-destroyed'); freed = True; g = r.ghost
                if over < N:
                    left = g['parked']
                    if not e.prove(r, len(left) == N - over, 'post/every-child-started', f'{len(left)} of {N - over} unfinished children are running'): continue
                    for j in range(len(left)):
                        x = r.clone(); r.forks += 1; x.forks += 1; x.ghost['parked'] = left[:j] + left[j + 1:]; work += [(y, freed) for y, oc in resume_top(e, x, left[j][1])]
                    continue
                if win is None: continue
                e.prove(r, len(g['ev']) == 1 and g['stop'] == (1 if stop else 0), 'post/completes-once', str(g['ev'])); e.prove(r, r.ghost['live'] == w.base, 'post/every-value-destroyed', f'{[r.mem[o].name for o, _ in r.ghost["live"]]}')
                for o in r.coros: e.prove(r, r.mem[o].dead is not None, 'post/every-frame-freed', r.mem[o].name)
        e.prove(State(), n['last'] > 0 and n['never'] > 0 and (n['early'] > 0 or N == 1), 'cover/all-outcomes', str(n))
    part.__name__ = 'part_' + name
    return part


def controller(kind):
    def part(ctx):
        w = World(ctx, f'controller for any number of children ({kind})', State()); e, st, off = w.eng, w.st, w.off; arr = st.new('heap', 'awaitables'); n = BV('children'); st.pc += [z3.ULT(n, 1 << 40)]; st.ghost.update(pend=None, out=None, flag=None, joined=False); st.ghost['#made'] = st.ghost['#put'] = 0
        E = st.new('opaque', 'notify', off('event')); R = st.new('opaque', 'result', off('opt_val')); inp = st.new('fresh', 'input', 24); c = st.w(inp.obj).cells; end = Ptr(arr.obj, mul(n, 8)); c[0] = (8, Ptr(arr.obj, 0)); c[8] = (8, end); c[16] = (8, end); F = z3.Function('awaitable', z3.BitVecSort(64), z3.BitVecSort(64)); seen = []
        def elem(e2, q, o, off2, z, t, v, write):
            if write or z != 8: raise Unsupported('awaitable array')
            e2.prove(q, ULT(off2, mul(n, 8)), 'memory/out-of-bounds', f'read at {off2} of {n} awaitables'); return [(q, F(bv(off2, 64)))]
        st.w(arr.obj).arrays['handler'] = elem; st.w(arr.obj).guard = lambda e2, q, o, off2, z, wr, v: elem(e2, q, o, off2, z, None, v, wr) if isinstance(off2, int) else None
        def mk(e, q, i, a, fn):
            g = q.ghost; ret, rest = a[0], a[1:]
            if len(rest) < (4 if kind == 'val' else 3): rest, ret = a, None
            v = rest[0]
            if isinstance(v, Ptr): v = e.load(q, v, 8, 'i64')[0][1]
            e.prove(q, eq(v, F(bv(g['#made'], 64))), 'controller/wraps-each-child-in-order', f'{v}'); fl = rest[1]; e.prove(q, isinstance(fl, Ptr) and (g['flag'] is None or (g['flag'].obj == fl.obj and g['flag'].off == fl.off)), 'controller/one-winner-flag'); e.prove(q, e.load(q, fl, 1, 'i8')[0][1] == 0, 'controller/no-winner-at-first'); g['flag'] = fl
            e.prove(q, isinstance(rest[2], Ptr) and rest[2].obj == E.obj and (kind == 'void' or (isinstance(rest[3], Ptr) and rest[3].obj == R.obj)), 'controller/passes-the-awaiter-s-slots'); e.prove(q, g['pend'] is None, 'controller/one-wrapper-per-child'); g['#made'] = add(g['#made'], 8); h = q.new('opaque', 'wrapper'); g['pend'] = h
            if ret is not None: e.store(q, ret, 8, h, 'ptr'); return None
            return h
        e.contract_first(r'^coro::detail::make_when_any_task(_return_void)?$', mk); isv = lambda fn, m: fn.base == 'std::vector::' + m and 'coro::task<void>' in fn.d
        def emp(e, q, i, a, fn):
            g = q.ghost; e.prove(q, isinstance(a[0], Ptr) and (g['out'] is None or g['out'] == a[0].obj), 'controller/one-list'); g['out'] = a[0].obj; v = e.load(q, a[1], 8, 'ptr')[0][1]
            e.prove(q, isinstance(v, Ptr) and isinstance(g['pend'], Ptr) and v.obj == g['pend'].obj, 'controller/keeps-the-wrapper-of-each-child'); e.store(q, a[1], 8, 0, 'ptr'); g['pend'] = None; g['#put'] = add(g['#put'], 8); return UNDEF
        for m in ('emplace_back', 'push_back'): e.contract_first(lambda fn, m=m: isv(fn, m), emp)
        for m in ('reserve', '~vector'): e.contract_first(lambda fn, m=m: isv(fn, m), lambda e, q, i, a, fn: None)
        def vctor(e, q, i, a, fn):
            if len(a) > 1: q.ghost['out'] = a[0].obj if q.ghost['out'] in (None, a[1].obj) else 'lost'
            return None
        e.contract_first(lambda fn: isv(fn, 'vector'), vctor)
        def joined(e, q, i, a, fn):
            g = q.ghost; v = a[-1]; e.prove(q, isinstance(v, Ptr) and g['out'] in (None, v.obj), 'controller/waits-for-its-children'); e.prove(q, And(eq(g['#made'], mul(n, 8)), eq(g['#put'], mul(n, 8)), g['pend'] is None), 'controller/every-child-started', f'{g["#made"]}, {g["#put"]} of {n}*8')
            e.prove(q, g['flag'] is None or q.mem[g['flag'].obj].dead is None, 'controller/winner-flag-outlives-the-children'); seen.append(1); return []
        e.contract_first('=coro::when_all', joined)
        for q, oc in e.call(st, 'vc_ctl_' + kind, [inp, E, R][:3 if kind == 'val' else 2]): e.prove(q, False, 'controller/waits-for-its-children', 'the controller ends although children may be running')
        e.prove(State(), len(seen) > 0, 'cover/waits')
    part.__name__ = 'part_controller_' + kind
    return part


PARTS = [controller('val'), controller('void')] + [child(k) for k in KINDS] + [whole('a1', ('val',)), whole('a2', ('val', 'void')), whole('a2s', ('int', 'ref'), stop=True), whole('a3', ('val', 'void', 'int')), whole('l1', ('val',), True), whole('l2', ('val',) * 2, True), whole('l2s', ('int',) * 2, True, True), whole('l2r', ('ref',) * 2, True, True), whole('l2v', ('void',) * 2, True), whole('l2vs', ('void',) * 2, True, True), whole('l3', ('int',) * 3, True)]
