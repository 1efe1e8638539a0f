"""C03: coro::latch -- the event fires exactly when the count crosses zero."""
import z3
from vcgen.core import *
from vcgen.engine import *
from vcgen.proto import *

NOTE = 'latch proved against the contract of event (C02) for every 64-bit count and decrement whose running total does not overflow, and every interleaving of decrements.'
TUS = ['event.cpp']


class Count(Cell):
    """remaining decrements; every change must be an atomic subtraction of the caller's n"""
    def __init__(s, n): s.n = n
    ty = 'i64'
    def values(s, eng, st, e=None):
        v = BV('count')
        # the running total of decrements stays within the machine word (assumption)
        if s.n is not None: st.pc += [z3.Not(z3.And(s.n > 0, v < z3.BitVecVal(-(1 << 62), 64))), v > z3.BitVecVal(-(1 << 62), 64), v < z3.BitVecVal(1 << 62, 64)]
        st.ghost['read'] = v
        return [(st, v)]
    def observed(s, eng, st, v, ord): st.ghost['read_ord'] = ord
    def transition(s, eng, st, old, new, ord, how):
        g = st.ghost
        eng.prove(st, how != 'store', 'latch/lost-decrement', 'a plain store loses concurrent decrements')
        if not is_term(s.n) and s.n is None: eng.fail(st, 'latch/count-changed'); return [st]
        out = []
        for q, same in eng.split(st, norm(eq(old, new))):
            if same and eng.entails(q, s.n != 0): out.append(q); continue      # an unchanged write is not a decrement
            q.note(f'{how} count {old} -> {new} ({ord})')
            eng.prove(q, q.ghost['new'] is None, 'latch/decremented-twice')
            eng.prove(q, eq(new, sub(old, s.n)), 'latch/decrement-is-n')
            eng.prove(q, acq_ok(q, ord) and rel_ok(q, ord), 'latch/decrement-order', 'what the thread counting down wrote must be visible to the released waiter (needs acq_rel, has ' + ord + ')')
            q.ghost['new'] = new; q.ghost['old'] = old
            out.append(q)
        return out


def setup(ctx, mod, name, n=None):
    eng = ctx.engine(mod, name); off = lambda x: ctx.off(mod, x); st = State()
    L = st.new('shared', 'latch', off('latch'))
    st.ghost.update(new=None, old=None, fired=0, read=None, read_ord=None)
    st.cells[(L.obj, off('latch_count'))] = Count(n)
    def fire(e, q, i, a, fn):
        g = q.ghost
        e.prove(q, isinstance(a[0], Ptr) and a[0].obj == L.obj and a[0].off == off('latch_event'), 'latch/sets-its-own-event')
        e.prove(q, g['new'] is not None, 'latch/fires-without-count-down')
        if g['new'] is not None: e.prove(q, g['new'] <= 0, 'latch/fires-early', 'waiters are released although decrements are still missing')
        if 'pool' in g: e.prove(q, len(a) == 3 and isinstance(a[1], Ptr) and a[1].obj == g['pool'], 'latch/released-on-the-given-executor')
        g['fired'] += 1
        q.w(L.obj).dead = 'released: a waiter may already have destroyed the latch'
        q.note('event set'); return None
    eng.contract_first('=coro::event::set', fire)
    return eng, st, L, off


def part_all(ctx):
    mod = ctx.module('event.cpp')
    ctx.assumptions.append('the sum of all decrements of a latch stays within +-2^62 (no 64-bit overflow of the count), and decrements are not negative')
    # constructor: set at once iff count <= 0
    eng, st, L, off = setup(ctx, mod, 'latch::latch'); st.cells.clear()
    n = BV('n'); seen = set()
    for q, oc in eng.call(st, 'vc_latch_ctor', [L, n]):
        c = q.mem[L.obj].cells.get(off('latch_count'))
        eng.prove(q, oc[0] == 'ret' and c is not None and eq(c[1], n), 'post/count-is-initial')
        for q2, oc2 in eng.call(q, 'vc_latch_ready', [L]):
            for q3, b in eng.split(q2, boolterm(oc2[1])):
                seen.add(b); eng.prove(q3, (n <= 0) if b else (n > 0), 'post/ready-at-once-iff-count-not-positive')
    eng.prove(State(), seen == {True, False}, 'cover/both')

    for ex in (False, True):
        n = BV('n')
        eng, st, L, off = setup(ctx, mod, 'latch::count_down' + ('(executor)' if ex else ''), n)
        st.pc += [n >= 0, n < z3.BitVecVal(1 << 61, 64)]; args = [L, n]
        if ex:
            up = st.new('fresh', 'unique_ptr<executor>', 8); st.w(up.obj).cells[0] = (8, st.new('opaque', 'executor', 4096)); st.ghost['pool'] = up.obj; args = [L, up, n]
        seen = set()
        for q, oc in eng.call(st, 'vc_latch_down_ex' if ex else 'vc_latch_down', args):
            g = q.ghost; eng.prove(q, oc[0] == 'ret', 'post/returns')
            if g['new'] is None: eng.prove(q, eq(n, 0), 'post/counted-down', 'the decrement was not applied'); continue
            for q2, crossed in eng.split(q, norm(z3.And(g['old'] > 0, g['new'] <= 0))):
                seen.add(crossed)
                if crossed: eng.prove(q2, g['fired'] >= 1, 'post/zero-crossing-releases', 'the count reached zero but the waiters are not released')
                eng.prove(q2, g['fired'] <= 1, 'post/releases-once')
        eng.prove(State(), seen == {True, False}, 'cover/crossing-and-not')

    eng, st, L, off = setup(ctx, mod, 'latch::remaining')
    for q, oc in eng.call(st, 'vc_latch_remaining', [L]):
        r = q.ghost['read']
        eng.prove(q, oc[0] == 'ret' and r is not None, 'post/returns')
        eng.prove(q, eq(oc[1], z3.If(r > 0, r, z3.BitVecVal(0, 64))), 'post/remaining-is-the-missing-decrements', 'remaining() must be the number of decrements still missing (zero once released)')

    for what in ('vc_latch_ready', 'vc_latch_await'):
        eng, st, L, off = setup(ctx, mod, {'vc_latch_ready': 'latch::is_ready', 'vc_latch_await': 'latch::operator co_await'}[what])
        if what == 'vc_latch_ready':
            r = Bool('set'); asked = []
            def isset(e, q, i, a, fn): asked.append(a[0]); return r
            eng.contract_first('=coro::event::is_set', isset)
            for q, oc in eng.call(st, what, [L]): eng.prove(q, oc[0] == 'ret' and len(asked) == 1 and asked[0].obj == L.obj and asked[0].off == off('latch_event') and boolterm(oc[1]) == r, 'post/ready-iff-event-set')
        else:
            p = st.new('fresh', 'awaiter', off('awaiter'))
            for q, oc in eng.call(st, what, [L, p]):
                v = q.mem[p.obj].cells.get(off('aw_event'))
                eng.prove(q, oc[0] == 'ret' and v is not None and isinstance(v[1], Ptr) and v[1].obj == L.obj and v[1].off == off('latch_event'), 'post/awaits-the-latch-event')


PARTS = [part_all]
