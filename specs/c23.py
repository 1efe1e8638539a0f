"""C23: default executors -- one instance, created once, with the options in force."""
import z3
from vcgen.core import *
from vcgen.engine import *
from vcgen.proto import *

NOTE = ('executor(), io_executor(), perfect() and both option setters proved for any number of concurrent callers: every value the shared flag and pointer may hold at any time is considered, creation may throw. make_unique is a contract (a new executor or an exception); '
        'setting options while somebody creates the executor is outside the documented use; that a waiting caller is eventually scheduled is assumed.')
TUS = ['default_executor.cpp']


class Init(Cell):
    size = 1; ty = 'i8'; name = 'somebody creates or created it'
    def values(s, eng, st, e=None):
        g = st.ghost
        if g['creator'] or g['seen']: return [(st, 1)]
        q = st.clone(); return [(st, 1), (q, 0)]
    def observed(s, eng, st, v, ord): st.ghost['looked'] = 1; st.note(f'flag is {v}')
    def transition(s, eng, st, old, new, ord, how):
        g = st.ghost; g['looked'] = 1; new = norm(new); old = norm(old); st.note(f'{how} flag {old} -> {new}')
        if new not in (0, 1): eng.fail(st, 'flag/value', str(new)); return []
        if how == 'store' and new == 1 and not g['creator']: eng.fail(st, 'flag/claimed-atomically', 'two callers that find it free both create an executor'); return [st]
        if new == 1 and old == 0: g['creator'] = 1
        elif new == 0:
            eng.prove(st, g['creator'] == 1 and not g['published'], 'flag/released-only-by-a-creator-that-failed', 'another caller creates a second executor'); g['creator'] = 0
        return [st]


class Pub(Cell):
    name = 'published executor'
    def values(s, eng, st, e=None):
        g = st.ghost
        if g['creator']: return [(st, g['published'] or 0)]
        if g['seen']: return [(st, g['instance'])]
        q = st.clone(); q.ghost['seen'] = 1; return [(st, 0), (q, g['instance'])]
    def observed(s, eng, st, v, ord):
        if isinstance(v, Ptr): eng.prove(st, acq_ok(st, ord), 'publication/acquire', f'{ord}: the executor is used before its construction is visible'); st.note('finds the executor published')
    def transition(s, eng, st, old, new, ord, how):
        g = st.ghost; h = g['holder']; st.note(f'publish {new}')
        eng.prove(st, g['creator'] == 1 and not g['published'], 'publication/by-the-creator-only-once'); eng.prove(st, isinstance(new, Ptr) and isinstance(h, Ptr) and new.obj == h.obj, 'publication/what-is-held', f'{new} is published, {h} is held'); eng.prove(st, rel_ok(st, ord), 'publication/release', f'{ord}: others may use the executor before its construction is visible')
        g['published'] = new; return [st]


class Holder(Cell):
    plain = True; name = 'the owned executor'
    def values(s, eng, st, e=None):
        g = st.ghost
        eng.prove(st, g['creator'] == 1 or g['seen'] == 1, 'owner/touched-by-the-creator-only', 'the unique_ptr is accessed while another thread may be writing it')
        return [(st, g['holder'] if g['creator'] else g['instance'])]
    def transition(s, eng, st, old, new, ord, how):
        g = st.ghost; eng.prove(st, g['creator'] == 1 and not g['published'], 'owner/written-by-the-creator-before-publication', 'the executor others already use is replaced'); eng.prove(st, not isinstance(old, Ptr), 'owner/replaced', 'an executor that was handed out is destroyed'); g['holder'] = new; return [st]


class H:
    def __init__(s, ctx, io, name):
        s.mod = ctx.module('default_executor.cpp'); s.eng = e = ctx.engine(s.mod, name); s.io = io; s.st = st = State(); off = lambda x: ctx.off(s.mod, x); C = e.contract_first; pre = 'vc_io_' if io else 'vc_'
        tpo = [('thread_count', off('tpo_count'), 4)], [('on_thread_start', off('tpo_start')), ('on_thread_stop', off('tpo_stop'))]; b = off('sco_pool')
        s.fields = tpo if not io else ([('thread_strategy', off('sco_strategy'), 4), ('execution_strategy', off('sco_exec'), 4), ('pool.thread_count', b + off('tpo_count'), 4)], [('on_io_thread_start', off('sco_start')), ('on_io_thread_stop', off('sco_stop')), ('pool.on_thread_start', b + off('tpo_start')), ('pool.on_thread_stop', b + off('tpo_stop'))]); s.size = off('sco' if io else 'tpo')
        addr = lambda n: e.call(st, pre + n, [])[0][1][1]
        s.holder = addr('holder'); s.opts = addr('options'); st.cells[(addr('init').obj, 0)] = Init(); st.cells[(addr('ptr').obj, 0)] = Pub(); st.cells[(s.holder.obj, 0)] = Holder(); st.tags['fn'] = {}
        s.fill(s.opts, 'in force'); st.ghost.update(creator=0, published=0, seen=0, holder=0, made=0, failed=0, looked=1, depth=0, instance=st.new('opaque', 'the executor the others see'))
        def fcopy(e, q, i, a, fn):
            f = dict(q.tags['fn']); k = lambda p: (p.obj, p.off)
            if not isinstance(a[1], Ptr): return None
            f[k(a[0])] = f.get(k(a[1]), 'empty')
            if '&&' in fn.d.split('(', 1)[1].replace('(', ''): f[k(a[1])] = 'moved from'
            q.tags['fn'] = f; return a[0]
        C('=std::function::function', fcopy); C('=std::function::operator=', fcopy); C(r'^std::(function::~function|_Function_base::~_Function_base)$', lambda e, q, i, a, fn: None)
        def make(e, q, i, a, fn):
            e.prove(q, q.ghost['creator'] == 1, 'create/by-the-one-that-claimed-it', 'several executors are created'); e.prove(q, q.ghost['made'] == 0, 'create/once'); s.same(q, a[1], s.opts, 'create/with-the-options-in-force'); x = q.clone(); q.forks += 1; x.forks += 1; ep = x.new('heap', 'exception', 16); x.tags[('exc', ep.obj)] = '_ZTISt12system_error'; x.ghost['failed'] = 1; x.note('creation throws')
            q.ghost['made'] = 1; p = q.new('opaque', 'new executor'); e.store(q, a[0], 8, p, 'ptr'); q.note('created'); return [(q, None), (x, Throw(Exc(ep, '_ZTISt12system_error')))]
        C(r'^coro::(scheduler|thread_pool)::make_unique$', make)
        def sleep(e, q, i, a, fn): e.prove(q, q.ghost['looked'] == 1, 'wait/notices-a-failed-creation', 'the caller waits without ever looking whether somebody is still creating the executor: if creating it threw, it waits forever'); e.prove(q, not q.ghost['creator'], 'wait/creator-does-not-wait'); q.ghost['looked'] = 0; return 0
        C(r'^(nanosleep|clock_nanosleep|usleep|std::this_thread::sleep_for|std::this_thread::yield)$', sleep)
        def again(e, q, i, a, fn):
            if q.ghost['depth'] == 0: q.ghost['depth'] = 1; return INLINE
            e.prove(q, not q.ghost['creator'], 'retry/not-while-creating'); x = q.clone(); q.forks += 1; x.forks += 1; q.ghost['seen'] = 1; ep = x.new('heap', 'exception', 16); x.tags[('exc', ep.obj)] = '_ZTISt12system_error'; x.ghost['failed'] = 1; return [(q, s.holder), (x, Throw(Exc(ep, '_ZTISt12system_error')))]
        C(r'^coro::default_executor::(io_)?executor$', again)

    def fill(s, p, name):
        o = s.st.w(p.obj); o.cells.clear(); o.kind = 'fresh'; f = dict(s.st.tags['fn'])
        for n, off, z in s.fields[0]: o.cells[p.off + off] = (z, BV(f'{n} {name}', 8 * z))
        for n, off in s.fields[1]: f[(p.obj, p.off + off)] = f'{n} {name}'
        s.st.tags['fn'] = f

    def same(s, q, a, b, what):
        for n, off, z in s.fields[0]: v = [s.eng.load(q, Ptr(p.obj, add(p.off, off)), z, f'i{8*z}')[0][1] for p in (a, b)]; s.eng.prove(q, False if any(x is UNDEF for x in v) else eq(v[0], v[1], 8 * z), what, n)
        for n, off in s.fields[1]: v = [q.tags['fn'].get((p.obj, p.off + off)) for p in (a, b)]; s.eng.prove(q, v[0] == v[1], what, f'{n}: {v[0]} instead of {v[1]}')


def get(fn, io):
    def part(ctx):
        h = H(ctx, io, fn[3:]); e = h.eng; seen = set()
        for q, oc in e.call(h.st, fn, []):
            g = q.ghost
            if oc[0] == 'throw': e.prove(q, g['failed'] == 1, 'post/throws-only-if-creation-failed', str(oc)); e.prove(q, not g['creator'], 'post/others-may-create-it', 'creating the executor failed and nobody ever tries again: every later caller waits forever'); seen.add('throw'); continue
            e.prove(q, isinstance(oc[1], Ptr) and e.ptr_eq(q, oc[1], h.holder), 'post/the-one-instance', str(oc)); seen.add('creator' if g['creator'] else 'other')
            if g['creator']: e.prove(q, isinstance(g['published'], Ptr) and isinstance(g['holder'], Ptr) and q.mem[g['holder'].obj].dead is None, 'post/published-when-handed-out')
            else: e.prove(q, g['seen'] == 1, 'post/handed-out-only-when-complete', 'the executor is handed out before it exists')
        e.prove(State(), seen == {'throw', 'creator', 'other'}, 'cover/all', str(seen))
    part.__name__ = 'part_' + fn
    return part


def part_options(ctx):
    for io in (0, 1):
        h = H(ctx, io, 'set_io_executor_options' if io else 'set_executor_options'); e, st = h.eng, h.st; p = st.new('fresh', 'options', h.size); h.fill(p, 'given'); before = {n: st.tags['fn'][(p.obj, off)] for n, off in h.fields[1]}; (q, oc), = e.call(st, 'vc_io_set' if io else 'vc_set', [p])
        e.prove(q, oc[0] == 'ret', 'post/returns'); h.same(q, h.opts, p, 'post/options-in-force-are-the-given-ones')


PARTS = [get('vc_executor', 0), get('vc_io_executor', 1), get('vc_perfect', 1), part_options]
