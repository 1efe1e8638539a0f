"""Loop invariants.

A loop head collects disjuncts: each is a symbolic state (a shape of memory / ghost state, pattern variables for the
numbers in it, facts about them).  A state that arrives at the head is either an instance of a disjunct already
verified (the instantiation is a proof obligation for the solver), or the disjunct is generalised (anti-unification +
Houdini over template facts) and the body verified again from the more general state, or it starts a new disjunct.
When no arrival is left uncovered the disjunction is an inductive invariant, so every iteration is covered."""
import z3
from .core import *


class Mismatch(Exception):
    pass


class LoopRec:
    __slots__ = ('tok', 'forks', 'count')
    def __init__(s, tok, forks, count=0): s.tok, s.forks, s.count = tok, forks, count
    def copy(s): return LoopRec(s.tok, s.forks, s.count)


class Disj:
    def __init__(s, st, npc, V, vsets=None): s.st, s.npc, s.V, s.vsets, s.gen = st, npc, V, vsets or {}, 0


class LoopInfo:
    def __init__(s, entry): s.entry = entry; s.npc = len(entry.pc); s.disj = []; s.entry_syms = syms_of(entry.pc); s.entry_ids = set(entry.mem); s.rigid = None; s.entry_chains = set(entry.chains)


_symcache = {}


def syms(t):
    k = t.get_id()
    r = _symcache.get(k)
    if r is not None: return r[1]
    out = set(); stack = [t]; seen = set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(x.decl().name())
        elif z3.is_quantifier(x): stack.append(x.body())
        else: stack.extend(x.children())
    _symcache[k] = (t, out)
    return out


def syms_of(l):
    r = set()
    for t in l: r |= syms(t)
    return r


class Walker:
    """simultaneous traversal of two states; builds the anti-unifier"""
    def __init__(w, eng, D, S, info, header):
        w.eng, w.D, w.S, w.info, w.header = eng, D, S, info, header
        w.pairs = []; w.same = []; w.memo = {}; w.omap = {}; w.cmap = {}; w.queue = []; w.cqueue = []
        w.N = S.clone(); w.rev = {}
        w.allD = []

    def num(w, a, b, width, loc):
        if is_term(a): w.allD.append(a)
        if isinstance(a, int) and isinstance(b, int):
            if a == b: return b
            if width <= 8: raise Mismatch(f'{loc}: {a} / {b}')
        elif is_term(a) and is_term(b) and a.eq(b): w.same.append(a); return b
        if is_term(a) and not (z3.is_bv(a) or z3.is_bool(a)):
            if not is_term(b) or a.sort() != b.sort(): raise Mismatch(loc)
            key = (a.get_id(), b.get_id(), 'arr')
            if key not in w.memo:
                nv = z3.Const(fresh_name('inv'), a.sort()); w.memo[key] = nv; w.pairs.append((a, b, 0, nv, loc))
            return w.memo[key]
        isb = (is_term(a) and z3.is_bool(a)) or (is_term(b) and z3.is_bool(b))
        if isb: ta, tb, width = boolterm(a), boolterm(b), 1
        else:
            wd = a.size() if is_term(a) else b.size() if is_term(b) else width
            ta, tb, width = bv(a, wd), bv(b, wd), wd
        key = (ta.get_id(), tb.get_id(), width, isb)
        if key not in w.memo:
            nv = z3.Bool(fresh_name('inv')) if isb else z3.BitVec(fresh_name('inv'), width)
            w.memo[key] = nv; w.pairs.append((ta, tb, 0 if isb else width, nv, loc))
        return w.memo[key]

    def val(w, a, b, width, loc):
        if a is b:
            if is_term(a): w.allD.append(a); w.same.append(a)
            if isinstance(a, Ptr): return w.ptr(a, b, loc)
            if not isinstance(a, tuple): return b
        if a is UNDEF: return b if b is UNDEF else UNDEF
        if b is UNDEF: w.rev['undef'] = True; return UNDEF
        if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None or isinstance(a, (str, frozenset, float)):
            if type(a) == type(b) and a == b: return b
            if isinstance(a, bool) and is_term(b) and z3.is_bool(b) or isinstance(b, bool) and is_term(a) and z3.is_bool(a): return w.num(int(a), int(b) if isinstance(b, bool) else b, 1, loc)
            raise Mismatch(f'{loc}: {a} / {b}')
        na, nb = isinstance(a, int) or is_term(a), isinstance(b, int) or is_term(b)
        if na and nb: return w.num(a, b, width or 64, loc)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b): raise Mismatch(f'{loc}: length')
            return tuple(w.val(x, y, 0 if isinstance(x, int) and width == 0 else (width or 64), f'{loc}.{k}') for k, (x, y) in enumerate(zip(a, b)))
        if isinstance(a, Ptr) and isinstance(b, Ptr): return w.ptr(a, b, loc)
        if type(a) == type(b) and a == b: return b
        if hasattr(a, 'merge') and type(a) == type(b): return a.merge(w, b, loc)
        raise Mismatch(f'{loc}: {a!r} / {b!r}')

    def ptr(w, a, b, loc):
        na, nb = isinstance(a.obj, NodeRef), isinstance(b.obj, NodeRef)
        if na != nb: raise Mismatch(f'{loc}: {a} / {b}')
        off = w.num(a.off, b.off, 64, loc + '.off')
        if na:
            if a.obj.sub != b.obj.sub: raise Mismatch(loc)
            c = w.chain(a.obj.chain, b.obj.chain, loc)
            return Ptr(NodeRef(c, w.num(a.obj.idx, b.obj.idx, 64, loc + '.idx'), b.obj.sub), off)
        w.obj(a.obj, b.obj, loc)
        return Ptr(b.obj, off)

    def chain(w, a, b, loc):
        if a in w.cmap:
            if w.cmap[a] != b: raise Mismatch(f'{loc}: chain')
            return b
        if b in w.cmap.values(): raise Mismatch(f'{loc}: chain')
        ca, cb = w.D.chains[a], w.S.chains[b]
        if ca.kind != cb.kind or ca.excl != cb.excl: raise Mismatch(f'{loc}: chain kind')
        w.cmap[a] = b
        if a != b: w.rev['chain'] = w.rev.get('chain', False) or (a in w.info.entry_chains)
        w.cqueue.append((a, b))
        return b

    def obj(w, a, b, loc):
        if a in w.omap:
            if w.omap[a] != b: raise Mismatch(f'{loc}: object aliasing')
            return
        if a != b:
            if a in w.info.entry_ids or b in w.info.entry_ids: raise Mismatch(f'{loc}: object #{a} / #{b}')
            if b in w.omap.values(): raise Mismatch(f'{loc}: object aliasing')
        w.omap[a] = b; w.queue.append((a, b))

    def objs(w):
        while w.queue or w.cqueue:
            if w.cqueue:
                a, b = w.cqueue.pop()
                ca, cb = w.D.chains[a], w.S.chains[b]
                if len(ca.over) != len(cb.over): raise Mismatch('chain overrides')
                k = {f: w.num(getattr(ca, f), getattr(cb, f), 64, f'chain.{f}') for f in ('n', 'lo', 'hi', 'rev')}
                k['over'] = tuple((w.num(x[0], y[0], 64, 'chain.over'), x[1] if x[1] == y[1] else w.bad(), w.val(x[2], y[2], 64, 'chain.over')) for x, y in zip(ca.over, cb.over))
                k['info'] = w.val(ca.info, cb.info, 64, 'chain.info')
                w.N.chains[b] = cb.upd(**k)
                continue
            a, b = w.queue.pop()
            oa, ob = w.D.mem.get(a), w.S.mem.get(b)
            if oa is None or ob is None:
                if oa is None and ob is None: continue
                if oa is None and a == b: continue   # created later in S (global), D has not touched it
                raise Mismatch('object')
            if oa is ob: 
                for _, v in oa.cells.values():
                    if isinstance(v, Ptr): w.val(v, v, 64, oa.name)
                    elif is_term(v): w.allD.append(v); w.same.append(v)
                continue
            if oa.kind != ob.kind or oa.dead != ob.dead or oa.schema is not ob.schema and oa.schema != ob.schema: raise Mismatch(f'{oa.name}: kind/lifetime')
            n = w.N.w(b)
            if oa.size is not ob.size:
                n.size = w.val(oa.size, ob.size, 64, oa.name + '.size')
            for k in set(oa.arrays) | set(ob.arrays):
                x, y = oa.arrays.get(k), ob.arrays.get(k)
                if callable(x) and x == y: continue
                n.arrays[k] = w.val(x, y, 64, f'{oa.name}.{k}')
            lazy = oa.kind in ('lazy', 'shared', 'global')
            for off in sorted(set(oa.cells) | set(ob.cells)):
                x, y = oa.cells.get(off), ob.cells.get(off)
                if x is None:
                    if lazy and not (is_term(y[1]) and z3.is_const(y[1])):
                        if oa.kind == 'global': continue
                        raise Mismatch(f'{oa.name}+{off}: written')
                    if y is not None: n.cells.pop(off, None)
                    continue
                if y is None: n.cells.pop(off, None); w.rev['cell'] = True; continue
                if x[0] != y[0]: raise Mismatch(f'{oa.name}+{off}: size')
                n.cells[off] = (y[0], w.val(x[1], y[1], x[0] * 8, f'{oa.name}+{off}'))

    def bad(w): raise Mismatch('x')

    def frame(w, a, b, nf, live):
        if a.fn is not b.fn or a.blk != b.blk or a.ip != b.ip or len(a.allocas) != len(b.allocas): raise Mismatch('frames')
        for r in b.regs:
            if live is not None and r not in live: nf.regs.pop(r, None); continue
            if r not in a.regs: 
                if live is None: continue
                raise Mismatch('reg')
            t = b.fn.rty.get(r); wd = int(t[1:]) if isinstance(t, str) and t[0] == 'i' else 64
            x, y = a.regs[r], b.regs[r]
            if x is y and not isinstance(x, (Ptr, tuple)):
                if is_term(x): w.allD.append(x); w.same.append(x)
                continue
            nf.regs[r] = w.val(x, y, wd, f'{b.fn.base}%{r}')
        if a.coro != b.coro: w.obj(a.coro, b.coro, 'coro')

    def run(w):
        D, S, N = w.D, w.S, w.N
        if len(D.frames) != len(S.frames): raise Mismatch('stack')
        for k, (a, b) in enumerate(zip(D.frames, S.frames)):
            w.frame(a, b, N.frames[k], b.fn.live[w.header] if k == len(S.frames) - 1 else None)
        gone = lambda T, k: T.coros[k].destroyed is True and k in T.mem and T.mem[k].dead   # came and went within an iteration
        if {k for k in D.coros if not gone(D, k)} != {k for k in S.coros if not gone(S, k)}: raise Mismatch('coroutines')
        for k in S.coros:
            if gone(S, k): continue
            a, b = D.coros[k], S.coros[k]
            if a is b: continue
            if a.done != b.done or a.destroyed != b.destroyed or (a.frame is None) != (b.frame is None): raise Mismatch('coroutine state')
            if a.frame is not None:
                nf = b.frame.clone(); w.frame(a.frame, b.frame, nf, None); N.coros[k] = b.upd(frame=nf)
        if set(D.ghost) != set(S.ghost): raise Mismatch('ghost keys %s' % (set(D.ghost) ^ set(S.ghost)))
        for k in S.ghost:
            x, y = D.ghost[k], S.ghost[k]
            if isinstance(x, int) and isinstance(y, int) and not isinstance(x, bool) and not k.startswith('#'):
                if x != y: raise Mismatch(f'ghost {k}: {x} / {y}')
                continue
            N.ghost[k] = w.val(x, y, 64, 'ghost ' + k)
        if len(D.exc_caught) != len(S.exc_caught): raise Mismatch('exceptions')
        for x, y in zip(D.exc_caught, S.exc_caught): w.val(x.ptr, y.ptr, 64, 'exc')
        w.objs()
        # everything the two states still have in common, also what only ghost state names by its id
        for k in S.chains:
            if k in D.chains and k not in w.cmap: w.cmap[k] = k; w.cqueue.append((k, k))
        w.objs()
        for k, ob in S.mem.items():
            if k in w.omap: continue
            oa = D.mem.get(k)
            if oa is None or oa is ob or (oa.dead and ob.dead): continue
            if ob.kind == 'stack' and k not in w.info.entry_ids and not ob.dead and not oa.dead: pass
            w.omap[k] = k; w.queue.append((k, k))
        w.objs()
        return N


def rigid_terms(info):
    if info.rigid is None:
        r = {}
        e = info.entry
        def put(v, wd=64):
            if isinstance(v, Ptr): v = v.off
            if isinstance(v, z3.BitVecRef) and v.size() in (32, 64) and len(r) < 14: r[v.get_id()] = v
        for c in e.chains.values(): put(c.n)
        for k, v in e.ghost.items(): put(v)
        for f in e.frames[-2:]:
            for v in f.regs.values(): put(v)
        for o in list(e.mem.values())[-40:]:
            for _, v in o.cells.values(): put(v)
        info.rigid = list(r.values())
    return info.rigid


def project(st, npc, keep, entry_syms):
    """drop facts about symbols that no longer occur in the state"""
    st.pc = st.pc[:npc] + [f for f in st.pc[npc:] if syms(f) <= (keep | entry_syms)]


def state_syms(eng, st, info, header):
    w = Walker(eng, st, st, info, header); w.run()
    return syms_of(w.allD)


FORK_UNROLL = 0      # iterations executed as they are before a loop is generalised (a second attempt at a part uses a few)


def arrive(eng, st, f, h):
    rec = f.loops.get(h)
    if rec is None:
        tok = next(_tok)
        f.loops[h] = LoopRec(tok, st.forks)
        info = LoopInfo(st.clone()); eng.disj[tok] = info
        d = Disj(st.clone(), len(st.pc), set()); info.disj.append(d)
        info.entry_syms |= state_syms(eng, info.entry, info, h)
        return None
    hk = eng.hooks.get('loop_arrive')
    if hk: hk(eng, st, f, h)
    rec.count += 1
    if st.forks == rec.forks and rec.count <= eng.unroll:
        return None          # every branch of the iteration was decided: the next iteration is just executed
    rec.forks = st.forks
    if rec.count <= FORK_UNROLL: return None
    info = eng.disj[rec.tok]
    S = st
    best = None
    why = []
    for d in info.disj:
        w = Walker(eng, d.st, S, info, h)
        try: N = w.run()
        except Mismatch as e:
            why.append(str(e)); continue
        if covered(eng, d, S, w, info):
            S.frames = []; S.tags['outcome'] = ('cut',)
            return None
        if best is None: best = (d, w, N)
    if best is None:
        if len(info.disj) >= 48: raise Unsupported('loop invariant: too many shapes: ' + '; '.join(why[-3:]))
        keep = state_syms(eng, S, info, h)
        project(S, info.npc, keep, info.entry_syms)
        d = Disj(S.clone(), info.npc, keep - info.entry_syms); info.disj.append(d)
        eng.loops_generalised += 1
        return None
    d, w, N = best
    d2 = generalise(eng, d, S, w, N, info, h)
    d2.gen = d.gen + 1
    if d2.gen > 12: raise Unsupported('loop invariant: generalisation does not converge')
    info.disj[info.disj.index(d)] = d2
    eng.loops_generalised += 1
    r = d2.st.clone()
    r.frames[-1].loops[h].forks = r.forks
    return [r]


def covered(eng, d, S, w, info):
    if w.rev.get('undef') or w.rev.get('cell') : return False
    if w.rev.get('chain') and not d.V: return False
    sub = {}
    for a, b, wd, nv, loc in w.pairs:
        if z3.is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED and a.decl().name() in d.V:
            if a.decl().name() in sub:
                if not eng.entails(S, sub[a.decl().name()][1] == b): return False
            else: sub[a.decl().name()] = (a, b)
    # pattern variables that matched syntactically map to themselves
    S_subst = [(x, y) for x, y in sub.values()]
    for a, b, wd, nv, loc in w.pairs:
        t = z3.substitute(a, *S_subst) if S_subst else a
        if not eng.entails(S, t == b): return False
    if sub:
        seen = set()
        for a in w.same:
            if a.get_id() in seen or not (syms(a) & set(sub)): continue
            seen.add(a.get_id())
            if not eng.entails(S, z3.substitute(a, *S_subst) == a): return False
    for fct in d.st.pc[d.npc:]:
        t = z3.substitute(fct, *S_subst) if S_subst else fct
        if not eng.entails(S, t): return False
    return True


def generalise(eng, d, S, w, N, info, h):
    pairs = w.pairs
    D = d.st
    toD = [(nv, a) for a, b, wd, nv, loc in pairs]; toS = [(nv, b) for a, b, wd, nv, loc in pairs]
    cands = []
    # facts of the old disjunct, restated over the new variables
    ren = [(a, nv) for a, b, wd, nv, loc in pairs if z3.is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED and a.decl().name() in d.V]
    for fct in D.pc[d.npc:]:
        cands.append(z3.substitute(fct, *ren) if ren else fct)
    rig = rigid_terms(info)
    vsets = {}
    for a, b, wd, nv, loc in pairs:
        if wd == 0:
            h2 = eng.hooks.get('array_cands')
            if h2 and not z3.is_bool(nv): cands += h2(eng, S, nv, a, b)
            continue
        an = a.decl().name() if z3.is_const(a) and not z3.is_bv_value(a) else None
        va = {a.as_long()} if z3.is_bv_value(a) else d.vsets.get(an)
        if va and z3.is_bv_value(b) and len(va | {b.as_long()}) <= 4:
            vs = va | {b.as_long()}; vsets[nv.decl().name()] = vs
            cands.append(z3.Or(*[nv == x for x in sorted(vs)]))
        elif va and an in d.vsets:
            vsets[nv.decl().name()] = va; cands.append(z3.Or(*[nv == x for x in sorted(va)]))
        cands += [nv != 0, nv == 0]
        if wd >= 16: cands += [nv == 1]
        if wd == 64: cands += [z3.ULE(nv, (1 << 48)), z3.ULT(nv, (1 << 62))]
        if wd >= 16:
            cands += [nv >= 0, nv > 0]
            k = z3.simplify(b - a)          # strides that are multiples of a power of two keep the low bits
            if z3.is_bv_value(k) and k.as_long():
                n0 = (k.as_long() & -k.as_long()).bit_length() - 1
                if n0: cands.append(z3.Extract(n0 - 1, 0, nv) == z3.simplify(z3.Extract(n0 - 1, 0, a)))
            for r in rig + ([a] if not (syms(a) - info.entry_syms) else []):
                if r.size() != wd: continue
                cands += [z3.ULE(nv, r), z3.ULE(r, nv), z3.ULT(nv, r), z3.ULT(r, nv), nv == r, nv <= r, r <= nv]
                c = z3.simplify(a - r)
                if z3.is_bv_value(c) and z3.simplify(b - r).eq(c): cands.append(nv == r + c)
    for i in range(len(pairs)):
        for j in range(i + 1, len(pairs)):
            a1, b1, w1, n1, _ = pairs[i]; a2, b2, w2, n2, _ = pairs[j]
            if w1 != w2 or w1 < 16: continue
            c1, c2 = z3.simplify(a1 - a2), z3.simplify(b1 - b2)
            if c1.eq(c2): cands.append(n1 == n2 + c1)
            else: cands += [n1 == n2, n1 == n2 + 1, n2 == n1 + 1, z3.ULE(n1, n2), z3.ULE(n2, n1), z3.ULT(n1, n2), z3.ULT(n2, n1)]
            s1, s2 = z3.simplify(a1 + a2), z3.simplify(b1 + b2)
            if s1.eq(s2) and not (syms(s1) - info.entry_syms): cands.append(n1 + n2 == s1)
            for r in rig:
                if r.size() == w1:
                    c1, c2 = z3.simplify(a1 + a2 - r), z3.simplify(b1 + b2 - r)
                    if c1.eq(c2) and z3.is_bv_value(c1): cands.append(n1 + n2 == r + c1)
                    c1, c2 = z3.simplify(a1 + r - a2), z3.simplify(b1 + r - b2)
                    if c1.eq(c2) and z3.is_bv_value(c1): cands.append(n1 + r == n2 + c1)
                    c1, c2 = z3.simplify(a2 + r - a1), z3.simplify(b2 + r - b1)
                    if c1.eq(c2) and z3.is_bv_value(c1): cands.append(n2 + r == n1 + c1)
    h3 = eng.hooks.get('loop_cands')
    if h3: cands += h3(eng, D, S, pairs)
    newsyms = {nv.decl().name() for _, _, _, nv, _ in pairs}
    keep = state_syms(eng, N, info, h)
    facts = []; seen = set()
    for c in cands:
        c = z3.simplify(c)
        if z3.is_true(c) or c.get_id() in seen: continue
        seen.add(c.get_id())
        if not (syms(c) <= (keep | info.entry_syms)): continue
        cD = z3.substitute(c, *toD) if toD else c; cS = z3.substitute(c, *toS) if toS else c
        if eng.entails(D, cD) and eng.entails(S, cS): facts.append(c)
    N.pc = info.entry.pc[:info.npc] + facts
    N.forks = S.forks
    return Disj(N, info.npc, (keep - info.entry_syms) | newsyms, vsets)


import itertools
_tok = itertools.count()
