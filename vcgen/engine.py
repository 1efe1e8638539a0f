"""Symbolic execution of LLVM IR (as printed by ir2json) against contracts."""
import json, re, sys, time, itertools
import z3
from .core import *
from . import core


def base_name(d):
    """demangled -> qualified name without template arguments, parameters and return type"""
    d = d.replace('(anonymous namespace)', '{anon}').replace('[abi:cxx11]', '').replace('std::__cxx11::', 'std::').replace('std::__n4861::', 'std::')
    d = d.replace("decltype(auto) ", "").replace("'lambda", "{lambda")
    out, depth, i = [], 0, 0
    n = len(d)
    while i < n:
        c = d[i]
        if depth == 0 and d.startswith('operator', i) and (i == 0 or not (d[i-1].isalnum() or d[i-1] == '_')) and not (i + 8 < n and (d[i+8].isalnum() or d[i+8] == '_')):
            j = i + 8
            for o in ('()', '<=>', '<<=', '>>=', '->*', '->', '<<', '>>', '<=', '>=', '[]', '<', '>', '==', '!=', '+=', '-=', '++', '--', '&&', '||', '=', '+', '-', '*', '&', '|', '!', '~', '^', '%', '/', ','):
                if d.startswith(o, j):
                    out.append('operator' + o); i = j + len(o); break
            else:
                # conversion / new / delete
                m = re.match(r' (new|delete)(\[\])?', d[j:])
                if m: out.append('operator ' + m.group(0).strip()); i = j + len(m.group(0))
                elif d.startswith(' co_await', j): out.append('operator_co_await'); i = j + 9
                else:
                    k = d.find('(', j); out.append('operator_conv'); i = k if k >= 0 else n
            continue
        if c == '<': depth += 1
        elif c == '>': depth -= 1
        elif depth == 0:
            if c == '(':
                # lambda {lambda(...)#1} or parameter list
                if out and ''.join(out).endswith('{lambda'):
                    k = d.find(')', i); i = k + 1; continue
                rest = d[i:]
                # decltype(...) return types
                if ''.join(out).endswith('decltype') or ''.join(out).endswith('decltype '):
                    dd = 0
                    while i < n:
                        if d[i] == '(': dd += 1
                        if d[i] == ')':
                            dd -= 1
                            if dd == 0: break
                        i += 1
                    i += 1; continue
                # nested function (local class): f(args)::x
                dd = 0; k = i
                while k < n:
                    if d[k] == '(': dd += 1
                    if d[k] == ')':
                        dd -= 1
                        if dd == 0: break
                    k += 1
                m = re.match(r'( const| &&| &)*::', d[k+1:])
                if m: i = k + 1 + m.end() - 2; continue
                break
            out.append(c)
        i += 1
    s = ''.join(out).strip()
    s = s.replace('operator ', 'operator~')
    if ' ' in s: s = s.split(' ')[-1]
    return s.replace('operator~', 'operator ')


class Func:
    def __init__(s, name, j):
        s.name, s.d = name, j['d']; s.base = base_name(j['d']); s.args = j['args']; s.rt = j['rt']
        s.coro = j.get('coro', 0); s.nothrow = j.get('nothrow', 0)
        s.file, s.line = j.get('file', ''), j.get('line', 0)
        s.blocks = j.get('blocks'); s._an = None
    def analyse(s):
        if s._an is not None: return
        s._an = True
        B = s.blocks; n = len(B)
        s.code = [b['i'] for b in B]
        s.nphi = [sum(1 for i in c if i['o'] == 'phi') for c in s.code]
        s.rty = {}
        for k, a in enumerate(s.args): s.rty[k] = a['t']
        succ = []
        for c in s.code:
            for i in c:
                if 'r' in i: s.rty[i['r']] = i['t']
            t = c[-1]
            if t['o'] == 'br': succ.append(list(t['d']))
            elif t['o'] == 'switch': succ.append([t['def']] + [x[1] for x in t['cs']])
            elif t['o'] == 'invoke': succ.append([t['nd'], t['ud']])
            else: succ.append([])
        s.succ = succ
        pred = [[] for _ in range(n)]
        for a in range(n):
            for b in succ[a]: pred[b].append(a)
        # dominators
        reach = []
        seen = set()
        def dfs(r):
            st = [(r, iter(succ[r]))]; seen.add(r)
            while st:
                x, it = st[-1]
                for y in it:
                    if y not in seen:
                        seen.add(y); st.append((y, iter(succ[y]))); break
                else:
                    reach.append(x); st.pop()
        dfs(0); rpo = reach[::-1]
        dom = {b: None for b in rpo}; dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [dom[p] for p in pred[b] if p in dom and dom[p] is not None]
                nd = set.intersection(*ps) | {b} if ps else {b}
                if nd != dom[b]: dom[b] = nd; ch = True
        s.loops = {}
        for a in rpo:
            for h in succ[a]:
                if h in dom[a]:
                    body = s.loops.setdefault(h, {h})
                    wl = [a]
                    while wl:
                        x = wl.pop()
                        if x in body: continue
                        body.add(x); wl.extend(p for p in pred[x] if p in dom)
        # liveness (live-in after phis of each block)
        def uses(o, acc):
            if isinstance(o, list):
                if len(o) == 2 and o[0] == 'v': acc.add(o[1])
                else:
                    for x in o: uses(x, acc)
        gen, kill, phiuse, s.phidef = [], [], {}, []
        for bi, c in enumerate(s.code):
            g, k = set(), set(); pd = set()
            for i in c:
                if i['o'] == 'phi':
                    pd.add(i['r'])
                    for (pb, v) in i['in']:
                        u = set(); uses(v, u); phiuse.setdefault((pb, bi), set()).update(u)
                    k.add(i['r'])
                    continue
                u = set()
                for kk in ('p', 'v', 'a', 'idx', 'c', 'fn', 'e', 'n', 'cs'):
                    if kk in i: uses(i[kk], u)
                g |= (u - k)
                if 'r' in i: k.add(i['r'])
            gen.append(g); kill.append(k); s.phidef.append(pd)
        live = [set(g) for g in gen]
        ch = True
        while ch:
            ch = False
            for b in reversed(rpo):
                o = set()
                for t in succ[b]:
                    o |= (live[t] - s.phidef[t]) | phiuse.get((b, t), set())
                ni = gen[b] | (o - kill[b])
                # keep phi defs that are used inside as live-in
                if ni - live[b]: live[b] |= ni; ch = True
        for b in rpo: live[b] |= s.phidef[b]
        s.live = live


class Exc:
    __slots__ = ('ptr', 'ti')
    def __init__(s, ptr, ti): s.ptr, s.ti = ptr, ti
    def __repr__(s): return f'exception {s.ti}'


class Throw:
    """returned by a contract handler instead of a value"""
    def __init__(s, exc): s.exc = exc


INLINE = object()


class Module:
    def __init__(s, path):
        j = json.load(open(path))
        s.structs, s.globals = j['structs'], j['globals']
        s.fn = {k: Func(k, v) for k, v in j['functions'].items()}
        s.by_base = {}
        for f in s.fn.values(): s.by_base.setdefault(f.base, []).append(f)
    def find(s, base, pred=None, defined=True):
        r = [f for f in s.by_base.get(base, []) if (f.blocks is not None or not defined) and (pred is None or pred(f.d))]
        return r
    def one(s, base, pred=None):
        r = s.find(base, pred)
        # C1/C2, D1/D2 variants: prefer complete-object
        if len(r) > 1:
            c = [f for f in r if re.search(r'(C1|D1)E', f.name)]
            if len(c) == 1: return c[0]
        if len(r) != 1: raise Unsupported(f'function {base}: {len(r)} definitions in the extracted code: ' + '; '.join(f.d for f in r)[:300])
        return r[0]


EXC_BASES = {
    '_ZTISt13runtime_error': ['_ZTISt9exception'], '_ZTISt11logic_error': ['_ZTISt9exception'], '_ZTISt9bad_alloc': ['_ZTISt9exception'],
    '_ZTISt12out_of_range': ['_ZTISt11logic_error', '_ZTISt9exception'], '_ZTISt16invalid_argument': ['_ZTISt11logic_error', '_ZTISt9exception'],
    '_ZTISt18bad_variant_access': ['_ZTISt9exception'], '_ZTISt12system_error': ['_ZTISt13runtime_error', '_ZTISt9exception'],
}


class Engine:
    def __init__(s, module, name='', max_paths=20000, unroll=64, deadline=None):
        s.m = module; s.solver = Solver(); s.obl = []; s.contracts = []; s._cc = {}
        s.fnname = name; s.max_paths = max_paths; s.unroll = unroll
        s.deadline = deadline
        s.used_contracts = set(); s.inlined = set(); s.loops_generalised = 0
        s.paths = 0; s.steps = 0
        s.hooks = {}
        s.disj = {}
        s.obl_seen = {}
        s.dump_smt = None
        s.prot_types = {}

    # ------------------------------------------------------------------ obligations
    def where(s, st):
        for f in reversed(st.frames):
            c = f.fn.code[f.blk]
            if f.ip < len(c):
                i = c[f.ip]
                if 'l' in i and ('/repo' in f.fn.file or 'coro' in f.fn.base): return f"{f.fn.base}:{i['l']}"
        return st.frames[-1].fn.base if st.frames else ''

    def prove(s, st, cond, kind, detail=''):
        """record the obligation `cond holds on this path`; afterwards assume it"""
        t0 = time.time(); how = 'evaluation'; smt = None
        if isinstance(cond, z3.ExprRef): cond = norm(cond)
        if isinstance(cond, (bool, int)):
            ok = bool(cond)
            if not ok:
                r = s.solver.check(st.pc)
                how = 'z3'
                if r == 'unsat': ok = True
                elif r == 'unknown': how = 'unknown'
        else:
            how = 'z3'
            r = s.solver.check(st.pc + [z3.Not(cond)])
            ok = r == 'unsat'
            if s.dump_smt is not None: smt = list(st.pc) + [z3.Not(cond)]
            if r == 'unknown': how = 'unknown'
        o = Obligation(s.fnname, kind, s.where(st), ok, detail, how, time.time() - t0, smt)
        if not ok:
            o.detail = (detail + ' | path: ' + ' ; '.join(st.notes()[-25:]))
            if is_term(cond):
                m = s.solver.model(st.pc + [z3.Not(cond)])
                if m is not None: o.detail += ' | counterexample: ' + ', '.join(f'{d.name()}={m[d]}' for d in list(m.decls())[:12])
        s.obl.append(o)
        if is_term(cond): st.pc.append(cond)
        return ok

    def fail(s, st, kind, detail=''): return s.prove(st, False, kind, detail)

    def feasible(s, st, cond=None):
        facts = st.pc + ([cond] if cond is not None else [])
        return s.solver.check(facts) != 'unsat'

    def decide(s, st, cond):
        """True / False / None"""
        if isinstance(cond, (bool, int)): return bool(cond)
        if isinstance(cond, z3.BitVecRef): cond = cond != 0
        cond = z3.simplify(cond)
        if z3.is_true(cond): return True
        if z3.is_false(cond): return False
        a = s.solver.check(st.pc + [cond]) != 'unsat'
        b = s.solver.check(st.pc + [z3.Not(cond)]) != 'unsat'
        if a and b: return None
        if a: return True
        return False if b else True

    def split(s, st, cond):
        """-> [(state, True), (state, False)] feasible sides"""
        d = s.decide(st, cond)
        if d is not None: return [(st, d)]
        c = boolterm(cond)
        t = st.clone(); t.pc.append(c); t.forks += 1
        st.pc.append(z3.Not(c)); st.forks += 1
        return [(t, True), (st, False)]

    def entails(s, st, cond):
        if isinstance(cond, (bool, int)): return bool(cond)
        return s.solver.check(st.pc + [z3.Not(boolterm(cond))]) == 'unsat'

    def assume(s, st, cond):
        if isinstance(cond, (bool, int)):
            if not cond: st.pc.append(z3.BoolVal(False))
            return st
        st.pc.append(boolterm(cond)); return st

    # ------------------------------------------------------------------ values
    def tsize(s, t):
        if isinstance(t, str):
            if t == 'ptr': return 8
            if t[0] == 'i': return (int(t[1:]) + 7) // 8
            if t == 'f64': return 8
            if t == 'f32': return 4
            if t == 'f80': return 16
            raise Unsupported('size of ' + t)
        return t['z']

    def zero(s, t):
        if isinstance(t, str): return 0 if t[0] in 'ip' else 0.0
        if 's' in t: return tuple(s.zero(e) for _, e in t['s'])
        n = t.get('a', t.get('v')); return tuple(s.zero(t['e']) for _ in range(n))

    def undef(s, t):
        if isinstance(t, str): return UNDEF
        if 's' in t: return tuple(s.undef(e) for _, e in t['s'])
        n = t.get('a', t.get('v')); return tuple(s.undef(t['e']) for _ in range(n))

    def val(s, st, fr, o):
        k = o[0]
        if k == 'v': return fr.regs[o[1]]
        if k == 'i': return o[2]
        if k == 'n': return 0
        if k == 'g': return s.glob(st, o[1], o[2])
        if k == 'u': return s.undef(o[1])
        if k == 'z': return s.zero(o[1])
        if k == 'f': return float(o[1]) if o[1] not in ('NaN', '+Inf', '-Inf') else o[1]
        if k == 'd': return tuple(s.val(st, fr, x) for x in o[2])
        if k == 'ce':
            a = [s.val(st, fr, x) for x in o[3]]
            if o[1] in ('ptrtoint', 'inttoptr', 'bitcast'): return a[0]
            if o[1] == 'getelementptr':
                raise Unsupported('constant gep')
            if o[1] in ('sub', 'add'):
                return s.binop(st, o[1], a[0], a[1], int(o[2][1:]))
            raise Unsupported('constant expr ' + o[1])
        if k in ('none', 'md'): return None
        raise Unsupported(f'operand {o}')

    def glob(s, st, name, off):
        if name in s.m.fn:
            return FnPtr(name)
        i = st.globals.get(name)
        if i is None or i not in st.mem:
            g = s.m.globals.get(name, {})
            h = s.hooks.get('global')
            p = st.new('global', name, g.get('z') or None)
            st.globals[name] = i = p.obj
            o = st.w(i)
            if 'init' in g: s.init_global(st, o, 0, g['init'], g['t'])
            elif h: h(s, st, name, o)
            if not o.cells and 'init' not in g: o.kind = 'lazy'
        return Ptr(i, off)

    def init_global(s, st, o, off, c, t):
        k = c[0]
        if k == 'z':
            o.cells[off] = (s.tsize(t), 0) if s.tsize(t) else (0, 0)
        elif k == 'd':
            if 's' in t:
                for (fo, ft), x in zip(t['s'], c[2]): s.init_global(st, o, off + fo, x, ft)
            else:
                es = s.tsize(t['e'])
                for n, x in enumerate(c[2]): s.init_global(st, o, off + n * es, x, t['e'])
        elif k == 'u': pass
        else: o.cells[off] = (s.tsize(t), s.val(st, None, c))

    # ------------------------------------------------------------------ memory access
    def chk_ptr(s, st, p, size, write, st_kind='access'):
        if isinstance(p, int):
            if p == 0: s.fail(st, 'memory/null-dereference'); return False
            s.fail(st, 'memory/invalid-pointer', hex(p)); return False
        if p is UNDEF: s.fail(st, 'memory/uninitialised-pointer'); return False
        if isinstance(p, FnPtr): s.fail(st, 'memory/invalid-pointer'); return False
        if is_term(p): raise Unsupported(f'dereference of an integer term {p}')
        return True

    def load(s, st, p, size, t):
        """-> list of (state, value)"""
        if not isinstance(t, str) and ('s' in t or 'a' in t or 'v' in t):
            parts = [(fo, ft) for fo, ft in t['s']] if 's' in t else [(k * s.tsize(t['e']), t['e']) for k in range(t.get('a', t.get('v')))]
            res = [(st, ())]
            for fo, ft in parts:
                nr = []
                for (q, acc) in res:
                    for (q2, v) in s.load(q, s.padd(p, fo), s.tsize(ft), ft): nr.append((q2, acc + (v,)))
                res = nr
            return res
        if not s.chk_ptr(st, p, size, False): return []
        if isinstance(p.obj, NodeRef): return s.hooks['node_load'](s, st, p, size, t)
        o = st.mem.get(p.obj)
        if o is None: raise Unsupported(f'load from unknown object {p}')
        if o.dead: s.fail(st, 'memory/use-after-lifetime', f'{o.name} ({o.dead})'); return []
        if o.guard:
            r = o.guard(s, st, o, p.off, size, False, None)
            if r is not None: return r
            o = st.mem[p.obj]
        if not isinstance(p.off, int):
            r = s.sym_off(st, o, p, size, t, None)
            if r is not None: return r
        off = p.off
        if o.size is not None and isinstance(o.size, int) and (off < 0 or off + size > o.size):
            if off >= (1 << 63) or off + size > o.size:
                s.fail(st, 'memory/out-of-bounds', f'read of {size} at {off} in {o.name} (size {o.size})'); return []
        v = s.cell_get(st, o, off, size, t)
        if isinstance(v, list): return v
        return [(st, v)]

    def sym_off(s, st, o, p, size, t, val, write=False):
        h = o.arrays.get('handler') if o.arrays else None
        if h is not None:
            r = h(s, st, o, p.off, size, t, val, write)
            if r is not None: return r
        # try to make it concrete
        off = norm(p.off)
        if isinstance(off, int): p.off = off; return None
        # enumerate a few feasible values
        vals = []
        S = z3.Solver(); S.set('timeout', 10000)
        for f in st.pc: S.add(f)
        while len(vals) <= 8 and S.check() == z3.sat:
            x = S.model().eval(off, model_completion=True).as_long(); vals.append(x); S.add(off != x)
        if len(vals) > 8: raise Unsupported(f'symbolic offset into {o.name}: {off}')
        out = []
        for x in vals:
            q = st.clone(); q.pc.append(off == x); q.forks += 1
            if write:
                out += s.store(q, Ptr(p.obj, x), size, val, t)
            else: out += s.load(q, Ptr(p.obj, x), size, t)
        return out

    def cell_get(s, st, o, off, size, t):
        c = o.cells.get(off)
        if c is not None and c[0] == size: return c[1]
        # inside a larger cell / assembled from smaller cells
        cover = [(a, z, v) for a, (z, v) in o.cells.items() if a < off + size and off < a + z]
        if not cover:
            return s.lazy(st, o, off, size, t)
        if len(cover) == 1:
            a, z, v = cover[0]
            if a <= off and off + size <= a + z:
                if v is UNDEF: return UNDEF
                if isinstance(v, int): return (v >> (8 * (off - a))) & ((1 << (8 * size)) - 1)
                if isinstance(v, z3.BitVecRef):
                    if v.size() < z * 8: v = z3.ZeroExt(z * 8 - v.size(), v)
                    return norm(z3.Extract(8 * (off - a + size) - 1, 8 * (off - a), v))
                if z3.is_bool(v) and off == a: return z3.If(v, z3.BitVecVal(1, size * 8), z3.BitVecVal(0, size * 8))
        if all(isinstance(v, int) or v is UNDEF or isinstance(v, z3.BitVecRef) or z3.is_bool(v) for _, _, v in cover):
            if any(v is UNDEF for _, _, v in cover):
                return UNDEF if all(v is UNDEF for _, _, v in cover) else s.mixed_undef(st, o, off, size)
            bytes_ = []
            for k in range(size):
                b = s.cell_get(st, o, off + k, 1, 'i8') if size > 1 else None
                if b is UNDEF or b is None or isinstance(b, list): return s.mixed_undef(st, o, off, size)
                bytes_.append(b)
            if all(isinstance(b, int) for b in bytes_):
                return sum(b << (8 * k) for k, b in enumerate(bytes_))
            return norm(z3.Concat(*[bv(b, 8) for b in reversed(bytes_)]))
        raise Unsupported(f'mixed read of {size} bytes at {off} of {o.name}: {cover}')

    def mixed_undef(s, st, o, off, size): return UNDEF

    def lazy(s, st, o, off, size, t):
        if o.schema is not None:
            r = o.schema(s, st, o, off, size, t)
            if r is not None:
                if isinstance(r, list):      # alternatives [(facts, value)]
                    out = []
                    for k, (facts, v) in enumerate(r):
                        q = st.clone() if k < len(r) - 1 else st
                        q.pc.extend(facts); q.w(o.id).cells[off] = (size, v)
                        if len(r) > 1: q.forks += 1
                        out.append((q, v))
                    return [(q, v) for q, v in out if len(r) == 1 or s.feasible(q)]
                st.w(o.id).cells[off] = (size, r); return r
        if o.kind in ('lazy', 'shared'):
            if t == 'ptr':
                q = st.clone(); q.forks += 1
                np = q.new('lazy', f'{o.name}.p{off}'); q.w(o.id).cells[off] = (size, np)
                st.w(o.id).cells[off] = (size, 0); st.forks += 1
                return [(q, np), (st, 0)]
            v = BV(f'{o.name}.{off}', size * 8)
            st.w(o.id).cells[off] = (size, v); return v
        return UNDEF

    def store(s, st, p, size, v, t):
        """-> list of (state, None)"""
        if isinstance(v, tuple):
            parts = [(fo, ft) for fo, ft in t['s']] if 's' in t else [(k * s.tsize(t['e']), t['e']) for k in range(t.get('a', t.get('v')))]
            res = [st]
            for (fo, ft), x in zip(parts, v):
                res = [q2 for q in res for (q2, _) in s.store(q, s.padd(p, fo), s.tsize(ft), x, ft)]
            return [(q, None) for q in res]
        if not s.chk_ptr(st, p, size, True): return []
        if isinstance(p.obj, NodeRef): return s.hooks['node_store'](s, st, p, size, v)
        o = st.mem.get(p.obj)
        if o is None: raise Unsupported(f'store to unknown object {p}')
        if o.dead: s.fail(st, 'memory/use-after-lifetime', f'{o.name} ({o.dead})'); return []
        if o.guard:
            r = o.guard(s, st, o, p.off, size, True, v)
            if r is not None: return [(q, None) for q, _ in r]
        if not isinstance(p.off, int):
            r = s.sym_off(st, o, p, size, t, v, True)
            if r is not None: return r
        off = p.off
        if o.size is not None and isinstance(o.size, int) and off + size > o.size:
            s.fail(st, 'memory/out-of-bounds', f'write of {size} at {off} in {o.name} (size {o.size})'); return []
        o = st.w(p.obj)
        if o.kind == 'global' and s.m.globals.get(o.name, {}).get('const'): s.fail(st, 'memory/write-to-constant', o.name)
        s.cell_set(o, off, size, v)
        return [(st, None)]

    def cell_set(s, o, off, size, v):
        c = o.cells.get(off)
        if c is not None and c[0] == size: o.cells[off] = (size, v); return
        for a in [a for a, (z, _) in o.cells.items() if a < off + size and off < a + z]:
            z, x = o.cells.pop(a)
            if a < off: s.put_part(o, a, z, x, a, off - a)
            if a + z > off + size: s.put_part(o, a, z, x, off + size, a + z - off - size)
        o.cells[off] = (size, v)

    def put_part(s, o, a, z, v, off, size):
        if v is UNDEF: return
        if isinstance(v, int): o.cells[off] = (size, (v >> (8 * (off - a))) & ((1 << (8 * size)) - 1))
        elif isinstance(v, z3.BitVecRef):
            if v.size() < z * 8: v = z3.ZeroExt(z * 8 - v.size(), v)
            o.cells[off] = (size, norm(z3.Extract(8 * (off - a + size) - 1, 8 * (off - a), v)))
        else: raise Unsupported('partial overwrite of a pointer')

    def memcpy(s, st, d, src, n):
        if not isinstance(n, int):
            n = norm(n)
            if not isinstance(n, int): raise Unsupported('memcpy of symbolic size')
        if n == 0: return [st]
        if not s.chk_ptr(st, d, n, True) or not s.chk_ptr(st, src, n, False): return []
        nb = s.hooks.get('node_body')
        if isinstance(d.obj, NodeRef) and nb: d = nb(s, st, d, 'write') or d
        if isinstance(src.obj, NodeRef) and nb: src = nb(s, st, src) or src
        if isinstance(d.obj, NodeRef) or isinstance(src.obj, NodeRef):
            if n != 8: raise Unsupported('memcpy on node')
            return [y for q, v in s.load(st, src, 8, 'ptr') for y, _ in s.store(q, d, 8, v, 'ptr')]
        lay = (st.mem[src.obj].arrays or {}).get('layout')
        if lay and n == lay[0] and isinstance(d.off, int):       # one element of a lazily materialised array
            res = [st]
            for fo, z, ty in lay[1]:
                nr = []
                for q in res:
                    for q2, v in s.load(q, s.padd(src, fo), z, ty): nr += [x for x, _ in s.store(q2, s.padd(d, fo), z, v, ty)]
                res = nr
            return res
        so, do = st.mem[src.obj], st.mem[d.obj]
        for o in (so, do):
            if o.dead: s.fail(st, 'memory/use-after-lifetime', f'{o.name} ({o.dead})'); return []
        for o, off in ((so, src.off), (do, d.off)):
            if isinstance(o.size, int) and isinstance(off, int) and off + n > o.size: s.fail(st, 'memory/out-of-bounds', f'copy of {n} at {off} in {o.name} (size {o.size})'); return []
        if not isinstance(src.off, int) or not isinstance(d.off, int): raise Unsupported('memcpy at symbolic offset')
        if so.kind in ('lazy', 'shared') or so.schema or so.guard or do.guard:
            # materialise through ordinary accesses, 8 bytes at a time
            res = [st]; k = 0
            while k < n:
                z = 8 if n - k >= 8 else (4 if n - k >= 4 else (2 if n - k >= 2 else 1))
                c = so.cells.get(src.off + k)
                if c is not None and c[0] <= n - k: z = c[0]
                nr = []
                for q in res:
                    for q2, v in s.load(q, Ptr(src.obj, src.off + k), z, f'i{z*8}'):
                        for q3, _ in s.store(q2, Ptr(d.obj, d.off + k), z, v, f'i{z*8}'): nr.append(q3)
                res = nr; k += z
            return res
        cells = []
        for a, (z, v) in so.cells.items():
            if a + z <= src.off or a >= src.off + n: continue
            if a >= src.off and a + z <= src.off + n: cells.append((a - src.off, z, v))
            else:
                tmp = Obj(0, 'tmp', ''); lo = max(a, src.off); hi = min(a + z, src.off + n)
                s.put_part(tmp, a, z, v, lo, hi - lo)
                for a2, (z2, v2) in tmp.cells.items(): cells.append((a2 - src.off, z2, v2))
        do = st.w(d.obj)
        s.cell_set(do, d.off, n, UNDEF); del do.cells[d.off]
        for off, z, v in cells: do.cells[d.off + off] = (z, v)
        return [st]

    def padd(s, p, off):
        if isinstance(off, int) and off == 0: return p
        if isinstance(p, Ptr):
            return Ptr(p.obj, add(p.off, off if not isinstance(off, int) else off & M64))
        if isinstance(p, int):
            if isinstance(off, int): return (p + off) & M64
            return norm(bv(p, 64) + off)
        if p is UNDEF: return UNDEF
        if is_term(p): return norm(p + bv(off, 64))
        raise Unsupported(f'pointer arithmetic on {p}')

    def addr(s, st, p):
        """address of a pointer as a BV64 term"""
        if isinstance(p, (int, z3.ExprRef)): return bv(p, 64)
        if isinstance(p, FnPtr): return z3.BitVec('fnaddr.' + p.name, 64)
        key = p.obj if not isinstance(p.obj, NodeRef) else repr(p.obj)
        a = z3.BitVec(f'addr.{key}', 64)
        return norm(a + bv(p.off, 64))

    def ptr_eq(s, st, a, b):
        if isinstance(a, int) and isinstance(b, int): return a == b
        if a is UNDEF or b is UNDEF:
            s.fail(st, 'memory/uninitialised-value', 'comparison'); return Bool('undef')
        if isinstance(a, FnPtr) or isinstance(b, FnPtr): return isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.name == b.name
        if isinstance(a, int) and isinstance(b, Ptr): return False if a in (0, M64) else s.addr(st, b) == a
        if isinstance(b, int) and isinstance(a, Ptr): return False if b in (0, M64) else s.addr(st, a) == b
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            na, nb = isinstance(a.obj, NodeRef), isinstance(b.obj, NodeRef)
            if na and nb:
                if a.obj.sub != b.obj.sub: return False
                if a.obj.chain == b.obj.chain: return norm(And(eq(a.obj.idx, b.obj.idx), eq(a.off, b.off)))
                return Bool('node.alias')
            if na != nb:
                o = st.mem.get(b.obj if na else a.obj)
                if o is not None and o.kind in ('stack', 'heap', 'frame', 'global', 'fresh') and not (o.tag and 'published' in str(o.tag)): return False
                if o is not None and o.kind in ('shared',): return False
                return Bool('node.alias')
            if a.obj == b.obj: return eq(a.off, b.off) if isinstance(a.off, int) and isinstance(b.off, int) else norm(eq(a.off, b.off))
            return False
        return s.addr(st, a) == s.addr(st, b)

    # ------------------------------------------------------------------ arithmetic
    def cmp(s, st, pr, a, b, t):
        if isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)) or t == 'ptr':
            if pr in ('eq', 'ne'):
                r = s.ptr_eq(st, a, b)
                if pr == 'eq': return int(r) if isinstance(r, bool) else r
                return int(not r) if isinstance(r, bool) else z3.Not(r)
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj: a, b = a.off, b.off
            else: a, b = s.addr(st, a), s.addr(st, b)
            w = 64
        else:
            if isinstance(t, str) and t[0] == 'f': return s.fcmp(pr, a, b)
            if is_term(a) and not is_term(b) and eq(b, 0) is True and a.get_id() in st.tags.get('scaled', ()): a = st.tags['scaled'][a.get_id()][1]     # c * x, shown not to overflow, has the sign of x
            if not isinstance(t, str): raise Unsupported('vector compare')
            w = int(t[1:])
        if a is UNDEF or b is UNDEF:
            s.fail(st, 'memory/uninitialised-value', 'comparison of an indeterminate value'); return Bool('undef')
        if isinstance(a, int) and isinstance(b, int):
            m = 1 << w
            sa, sb = (a - m if a >> (w - 1) else a), (b - m if b >> (w - 1) else b)
            return int({'eq': a == b, 'ne': a != b, 'ult': a < b, 'ule': a <= b, 'ugt': a > b, 'uge': a >= b,
                        'slt': sa < sb, 'sle': sa <= sb, 'sgt': sa > sb, 'sge': sa >= sb}[pr])
        if w == 1:
            a, b = boolterm(a), boolterm(b)
            r = {'eq': lambda: a == b, 'ne': lambda: z3.Xor(a, b), 'ult': lambda: z3.And(z3.Not(a), b), 'ugt': lambda: z3.And(a, z3.Not(b))}[pr]()
            return norm(r)
        a, b = bv(a, w), bv(b, w)
        r = {'eq': lambda: a == b, 'ne': lambda: a != b, 'ult': lambda: z3.ULT(a, b), 'ule': lambda: z3.ULE(a, b), 'ugt': lambda: z3.UGT(a, b),
             'uge': lambda: z3.UGE(a, b), 'slt': lambda: a < b, 'sle': lambda: a <= b, 'sgt': lambda: a > b, 'sge': lambda: a >= b}[pr]()
        return norm(r)

    def fcmp(s, pr, a, b):
        if isinstance(a, float) and isinstance(b, float):
            return int({'oeq': a == b, 'une': a != b, 'olt': a < b, 'ole': a <= b, 'ogt': a > b, 'oge': a >= b}[pr])
        return Bool('fcmp')

    def binop(s, st, o, a, b, w):
        if a is UNDEF or b is UNDEF: return UNDEF
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if o == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr) and (a.obj == b.obj or (isinstance(a.obj, NodeRef) and isinstance(b.obj, NodeRef) and a.obj.chain == b.obj.chain)):
                return sub(a.off, b.off)
            if o == 'add' and isinstance(a, Ptr) and isinstance(b, (int, z3.BitVecRef)): return s.padd(a, b)
            if o == 'add' and isinstance(b, Ptr) and isinstance(a, (int, z3.BitVecRef)): return s.padd(b, a)
            if o == 'sub' and isinstance(a, Ptr) and isinstance(b, int): return s.padd(a, -b)
            a = s.addr(st, a) if isinstance(a, Ptr) else a
            b = s.addr(st, b) if isinstance(b, Ptr) else b
        m = (1 << w) - 1
        if isinstance(a, int) and isinstance(b, int):
            sa, sb = (a - m - 1 if a >> (w - 1) else a), (b - m - 1 if b >> (w - 1) else b)
            if o in ('udiv', 'urem', 'sdiv', 'srem') and b == 0:
                s.fail(st, 'arithmetic/division-by-zero'); return BV('div0', w)
            if o == 'add': r = a + b
            elif o == 'sub': r = a - b
            elif o == 'mul': r = a * b
            elif o == 'and': r = a & b
            elif o == 'or': r = a | b
            elif o == 'xor': r = a ^ b
            elif o == 'shl': r = a << b if b < w else 0
            elif o == 'lshr': r = a >> b if b < w else 0
            elif o == 'ashr': r = sa >> min(b, w - 1)
            elif o == 'udiv': r = a // b
            elif o == 'urem': r = a % b
            elif o == 'sdiv': r = abs(sa) // abs(sb) * (1 if (sa < 0) == (sb < 0) else -1)
            elif o == 'srem': r = abs(sa) % abs(sb) * (1 if sa >= 0 else -1)
            else: raise Unsupported('binop ' + o)
            return r & m
        if w == 1:
            x, y = boolterm(a), boolterm(b)
            if o == 'and': return norm(z3.And(x, y))
            if o == 'or': return norm(z3.Or(x, y))
            if o in ('xor', 'add', 'sub'): return norm(z3.Xor(x, y))
            raise Unsupported('i1 ' + o)
        x, y = bv(a, w), bv(b, w)
        if o == 'urem' and isinstance(b, int) and b and s.hooks.get('urem'):
            r = s.hooks['urem'](st, a, b)
            if r is not None: return r
        if o in ('sdiv', 'srem', 'udiv', 'urem') and isinstance(b, int) and is_term(a) and s.hooks.get('divmod') and 1 < b < 1 << (w - 1):
            q, r = s.divmod(st, x, b, w, o[0] == 's'); return q if o[1:] == 'div' else r
        if o == 'mul' and isinstance(b, int) and is_term(a) and s.hooks.get('mulc'):
            r = s.hooks['mulc'](st, x, b, w)
            if r is not None: return r
        if o in ('udiv', 'urem', 'sdiv', 'srem'):
            s.prove(st, y != 0, 'arithmetic/division-by-zero')
        f = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y,
             'shl': lambda: x << y, 'lshr': lambda: z3.LShR(x, y), 'ashr': lambda: x >> y, 'udiv': lambda: z3.UDiv(x, y), 'urem': lambda: z3.URem(x, y),
             'sdiv': lambda: x / y, 'srem': lambda: z3.SRem(x, y)}.get(o)
        if f is None: raise Unsupported('binop ' + o)
        return norm(f())

    def used(s, st, r):
        """is the result of the call that is being executed used at all?"""
        fn = st.frames[-1].fn
        if not hasattr(fn, 'usedregs'):
            u = set()
            def walk(x):
                if isinstance(x, dict): x = list(x.values())
                if len(x) == 2 and x[0] == 'v': u.add(x[1]); return
                for v in x:
                    if isinstance(v, (list, tuple, dict)): walk(v)
            for b in fn.code.values() if isinstance(fn.code, dict) else fn.code: walk(b)
            fn.usedregs = u
        return r in fn.usedregs

    def divfact(s, x, q, r, c, w, signed):
        lim = ((1 << (w - 1)) if signed else (1 << w)) // c
        if signed: return z3.And(x == q * c + r, q >= -lim, q <= lim, z3.If(x >= 0, z3.And(q >= 0, r >= 0, r < c), z3.And(q <= 0, r <= 0, r > -c)))
        return z3.And(x == q * c + r, z3.ULE(q, lim), z3.ULT(r, c), z3.ULE(q * c, x))

    def divmod(s, st, x, c, w, signed):
        """quotient and remainder by a constant as fresh variables with their defining facts (the solver never divides)"""
        for t, c2, sg, q, r in st.tags.get('divs', ()):
            if c2 == c and sg == signed and t.eq(x):
                f = s.divfact(x, q, r, c, w, signed)
                if not any(f.eq(g) for g in st.pc if is_term(g)): st.pc.append(f)
                return q, r
        q, r = BV('quot', w), BV('rem', w); f = s.divfact(x, q, r, c, w, signed)
        st.pc.append(f); st.tags['divs'] = st.tags.get('divs', ()) + ((x, c, signed, q, r),)
        return q, r

    # ------------------------------------------------------------------ control
    def jump(s, st, target):
        f = st.frames[-1]; src = f.blk; fn = f.fn
        code = fn.code[target]; np = fn.nphi[target]
        if np:
            vals = []
            for i in code[:np]:
                for pb, v in i['in']:
                    if pb == src: vals.append((i['r'], s.val(st, f, v))); break
                else: raise Unsupported('phi')
            for r, v in vals: f.regs[r] = v
        f.prev, f.blk, f.ip = src, target, np
        if fn.loops:
            for h in list(f.loops):
                if target not in fn.loops[h]: del f.loops[h]
            if target in fn.loops:
                return s.loop_arrive(st, f, target)
        return None

    def loop_arrive(s, st, f, h):
        from .loops import arrive
        return arrive(s, st, f, h)

    def push_call(s, st, fn, args, ret_to=None):
        fn.analyse()
        if len(st.frames) > 120: raise Unsupported('call depth')
        f = Frame(fn); f.ret_to = ret_to
        for k, a in enumerate(args[:len(fn.args)]): f.regs[k] = a
        if fn.coro: f.ramp = True
        st.frames.append(f)
        s.inlined.add(fn.base)
        if 0 in fn.loops: raise Unsupported('loop at entry')
        return f

    def finish_call(s, st, v):
        """the callee of the current instruction returned v"""
        if not st.frames:
            st.tags['outcome'] = ('ret', v); return None
        f = st.frames[-1]; i = f.fn.code[f.blk][f.ip]
        if 'r' in i: f.regs[i['r']] = v
        if i['o'] == 'invoke': return s.jump(st, i['nd'])
        f.ip += 1
        return None

    def kill_allocas(s, st, f):
        for a in f.allocas:
            st.w(a).dead = 'out of scope'

    def do_ret(s, st, v):
        f = st.frames.pop()
        if f.coro is None or f.coro not in st.coros: s.kill_allocas(st, f)
        if f.onret:
            r = f.onret(s, st, ('ret', v))
            if r is not None:
                out = []
                for q, x in r:
                    rr = s.throw(q, x.exc) if isinstance(x, Throw) else s.finish_call(q, x)
                    out += rr if rr is not None else [q]
                return out
        return s.finish_call(st, v)

    def throw(s, st, exc):
        while st.frames:
            f = st.frames[-1]; i = f.fn.code[f.blk][f.ip]
            if i['o'] == 'invoke':
                f.exc = exc
                return s.jump(st, i['ud'])
            if f.fn.nothrow and not f.fn.coro:
                return s.terminate(st, f'exception {exc.ti} leaves the noexcept function {f.fn.base}')
            st.frames.pop()
            if f.coro is None: s.kill_allocas(st, f)
            if f.onret:
                f.onret(s, st, ('throw', exc))
        st.tags['outcome'] = ('throw', exc)
        return None

    def terminate(s, st, why):
        st.frames = []; st.tags['outcome'] = ('terminate', why); return None

    def run(s, st):
        """explore every path of st until its frame stack is empty -> [(state, outcome)]"""
        work, out = [st], []
        while work:
            st = work.pop()
            s.paths += 1
            if s.paths > s.max_paths: raise Budget(f'{s.paths} paths')
            if s.deadline and time.time() > s.deadline: raise Budget('time')
            while True:
                if not st.frames:
                    oc = st.tags.pop('outcome', ('ret', None))
                    if oc[0] != 'cut': out.append((st, oc))
                    break
                r = s.step(st)
                if r is not None:
                    if len(r) == 1: st = r[0]; continue
                    if not r: break
                    work.extend(r[1:]); st = r[0]
        return out

    def call(s, st, fn, args):
        """run fn(args) to completion in an isolated stack -> [(state, outcome)]"""
        if isinstance(fn, str): fn = s.m.fn[fn]
        saved = st.frames; st.frames = []
        r = s.invoke_fn(st, fn, args)
        res = []
        for q in (r if r is not None else [st]): res += s.run(q)
        for q, _ in res: q.frames = [f.clone() for f in saved]
        return res

    def invoke_fn(s, st, fn, args, inst=None):
        """dispatch to a contract or push the body; used for calls from harnesses and handlers"""
        h = s.contract_for(fn)
        if h is not None:
            r = h(s, st, inst or {'o': 'call', 'at': [], 'r': -1, 't': fn.rt}, args, fn)
            if r is not INLINE: return s.after_contract(st, r)
        if fn.blocks is None: raise Unsupported(f'no contract for external function {fn.d}')
        s.push_call(st, fn, args)
        return None

    def after_contract(s, st, r):
        if r is None: return s.finish_call(st, None)
        if isinstance(r, list):
            if len(r) == 1 and r[0][0] is st and not isinstance(r[0][1], Throw): return s.finish_call(st, r[0][1])
            out = []
            for q, v in r:
                if v is PUSHED: out.append(q); continue
                rr = s.throw(q, v.exc) if isinstance(v, Throw) else s.finish_call(q, v)
                out += rr if rr is not None else [q]
            return out
        if isinstance(r, Throw): return s.throw(st, r.exc)
        if r is PUSHED: return None
        return s.finish_call(st, r)

    def contract_for(s, fn):
        if fn.name in s._cc: return s._cc[fn.name]
        h = None
        for m, hh in s.contracts:
            if callable(m): ok = m(fn)
            elif m.startswith('='): ok = fn.base == m[1:]
            else: ok = re.search(m, fn.base) is not None
            if ok: h = hh; break
        s._cc[fn.name] = h
        return h

    def contract(s, m, h): s.contracts.append((m, h)); s._cc.clear()
    def contract_first(s, m, h): s.contracts.insert(0, (m, h)); s._cc.clear()

    # ------------------------------------------------------------------ one instruction
    def step(s, st):
        s.steps += 1
        f = st.frames[-1]; i = f.fn.code[f.blk][f.ip]; o = i['o']
        V = s.val
        if o == 'load':
            p = V(st, f, i['p'])
            if 'ord' in i or s.is_cell(st, p): r = s.atomic_load(st, p, i['z'], i['t'], i.get('ord'))
            else: r = s.load(st, p, i['z'], i['t'])
            return s.assign(st, i, r)
        if o == 'store':
            p = V(st, f, i['p']); v = V(st, f, i['v'])
            if 'ord' in i or s.is_cell(st, p): r = s.atomic_store(st, p, i['z'], v, i.get('ord'), i['vt'])
            else: r = s.store(st, p, i['z'], v, i['vt'])
            for q, _ in r: q.frames[-1].ip += 1
            if len(r) == 1 and r[0][0] is st: return None
            return [q for q, _ in r]
        if o == 'br':
            if len(i['d']) == 1: return s.jump(st, i['d'][0])
            c = V(st, f, i['c'])
            if isinstance(c, int): return s.jump(st, i['d'][0 if c else 1])
            if c is UNDEF:
                s.fail(st, 'memory/uninitialised-value', 'branch on an indeterminate value'); c = Bool('undef')
            out = []
            for q, b in s.split(st, boolterm(c)):
                r = s.jump(q, i['d'][0 if b else 1])
                out += r if r is not None else [q]
            return out
        if o == 'getelementptr':
            if i.get('bad'): raise Unsupported('gep')
            p = V(st, f, i['p']); off = i['off']
            for sc, x, xt in i['idx']:
                x = V(st, f, x)
                if x is UNDEF: off = UNDEF; break
                w = int(xt[1:])
                if isinstance(x, int):
                    if x >> (w - 1): x -= 1 << w
                    off = add(off & M64 if isinstance(off, int) else off, (x * sc) & M64) if not isinstance(off, int) else off + x * sc
                else:
                    if w < 64: x = z3.SignExt(64 - w, x)
                    off = norm(bv(off & M64 if isinstance(off, int) else off, 64) + x * (sc & M64))
            f.regs[i['r']] = UNDEF if off is UNDEF or p is UNDEF else s.padd(p, off & M64 if isinstance(off, int) else off); f.ip += 1
            return None
        if o in ('call', 'invoke'): return s.do_call(st, f, i)
        if o == 'icmp' or o == 'fcmp':
            f.regs[i['r']] = s.cmp(st, i['pr'], V(st, f, i['a'][0]), V(st, f, i['a'][1]), i['ot']); f.ip += 1; return None
        if o == 'ret':
            return s.do_ret(st, V(st, f, i['a'][0]) if i['a'] else None)
        if o == 'alloca':
            n = V(st, f, i['n'])
            if not isinstance(n, int): raise Unsupported('variable alloca')
            p = st.new('stack', f"{f.fn.base.split('::')[-1]}.{i.get('nm', '')}", i['z'] * n)
            st.mem[p.obj].tag = i['at'].get('n') if isinstance(i['at'], dict) else None
            f.allocas.append(p.obj); f.regs[i['r']] = p; f.ip += 1; return None
        if o in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'):
            a, b = V(st, f, i['a'][0]), V(st, f, i['a'][1])
            w = int(i['t'][1:])
            if o == 'and' and a is UNDEF and isinstance(b, int) and '.insert.' in i.get('nm', ''): a = BV('undef', w)     # sroa assembling an aggregate: the other bits are arbitrary
            r = s.binop(st, o, a, b, w)
            if i.get('nsw') and o in ('add', 'sub', 'mul') and s.hooks.get('check_overflow') and not (isinstance(a, int) and isinstance(b, int)) and not isinstance(a, Ptr) and not isinstance(b, Ptr) and a is not UNDEF and b is not UNDEF:
                x, y = bv(a, w), bv(b, w)
                c = {'add': lambda: z3.And(z3.BVAddNoOverflow(x, y, True), z3.BVAddNoUnderflow(x, y)), 'sub': lambda: z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True)),
                     'mul': lambda: z3.And(z3.BVMulNoOverflow(x, y, True), z3.BVMulNoUnderflow(x, y))}[o]()
                s.prove(st, c, 'arithmetic/signed-overflow')
            f.regs[i['r']] = r; f.ip += 1; return None
        if o in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'freeze', 'addrspacecast'):
            a = V(st, f, i['a'][0]); f.ip += 1
            if o in ('ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast') :
                r = a
                if o == 'inttoptr' and is_term(a) and 'inttoptr' in s.hooks:
                    r = s.hooks['inttoptr'](s, st, a)
                    if r is None: r = a
            elif o == 'freeze': r = BV('freeze', int(i['t'][1:])) if a is UNDEF else a
            elif a is UNDEF: r = UNDEF
            else:
                wf = int(i['ot'][0][1:]); wt = int(i['t'][1:])
                if isinstance(a, (Ptr,)):
                    if o == 'zext' and wf >= 64: r = a
                    else: a = s.addr(st, a); r = None
                elif isinstance(a, int):
                    if o == 'sext' and a >> (wf - 1): a = a - (1 << wf)
                    r = a & ((1 << wt) - 1)
                else: r = None
                if r is None:
                    if wf == 1:
                        b = boolterm(a)
                        r = z3.If(b, z3.BitVecVal(-1 if o == 'sext' else 1, wt), z3.BitVecVal(0, wt)) if wt > 1 else b
                    elif o == 'zext': r = norm(z3.ZeroExt(wt - wf, bv(a, wf)))
                    elif o == 'sext': r = norm(z3.SignExt(wt - wf, bv(a, wf)))
                    elif wt == 1: r = norm(z3.Extract(0, 0, bv(a, wf)) == 1)
                    else: r = norm(z3.Extract(wt - 1, 0, bv(a, wf)))
            f.regs[i['r']] = r; return None
        if o == 'select':
            c, a, b = [V(st, f, x) for x in i['a']]
            if isinstance(c, int): f.regs[i['r']] = a if c else b; f.ip += 1; return None
            if c is UNDEF: s.fail(st, 'memory/uninitialised-value', 'select'); c = Bool('undef')
            if isinstance(i['t'], str) and i['t'][0] == 'i' and not isinstance(a, Ptr) and not isinstance(b, Ptr) and a is not UNDEF and b is not UNDEF:
                w = int(i['t'][1:])
                f.regs[i['r']] = norm(z3.If(boolterm(c), boolterm(a), boolterm(b)) if w == 1 else z3.If(boolterm(c), bv(a, w), bv(b, w))); f.ip += 1; return None
            out = []
            for q, bb in s.split(st, boolterm(c)):
                g = q.frames[-1]; g.regs[i['r']] = a if bb else b; g.ip += 1; out.append(q)
            return out
        if o == 'switch':
            c = V(st, f, i['c'])
            if c is UNDEF: s.fail(st, 'memory/uninitialised-value', 'switch'); return []
            if isinstance(c, int):
                for cv, d in i['cs']:
                    if cv[2] == c: return s.jump(st, d)
                return s.jump(st, i['def'])
            if z3.is_bool(c): c = bv(c, i['cs'][0][0][1])
            out = []; cur = st
            for cv, d in i['cs']:
                sides = s.split(cur, c == cv[2]); cur = None
                for q, b in sides:
                    if b:
                        r = s.jump(q, d); out += r if r is not None else [q]
                    else: cur = q
                if cur is None: break
            if cur is not None:
                r = s.jump(cur, i['def']); out += r if r is not None else [cur]
            return out
        if o == 'extractvalue':
            v = V(st, f, i['a'][0])
            for k in i['ix']: v = v[k] if isinstance(v, tuple) else UNDEF
            f.regs[i['r']] = v; f.ip += 1; return None
        if o == 'insertvalue':
            a, b = V(st, f, i['a'][0]), V(st, f, i['a'][1])
            def ins(a, ix):
                a = list(a); a[ix[0]] = b if len(ix) == 1 else ins(a[ix[0]], ix[1:]); return tuple(a)
            f.regs[i['r']] = ins(a, i['ix']); f.ip += 1; return None
        if o == 'cmpxchg':
            p, e, v = V(st, f, i['p']), V(st, f, i['e']), V(st, f, i['v'])
            r = s.cas(st, p, i['z'], e, v, i['so'], i['fo'], i['weak'], i['vt'])
            return s.assign(st, i, r)
        if o == 'atomicrmw':
            r = s.rmw(st, V(st, f, i['p']), i['z'], i['op'], V(st, f, i['v']), i['ord'], i['t'])
            return s.assign(st, i, r)
        if o == 'fence':
            st.ghost['fence'] = i['ord']; f.ip += 1; return None
        if o == 'unreachable':
            s.fail(st, 'control/unreachable-reached', f.fn.base); return []
        if o == 'landingpad':
            exc = f.exc
            sel = None
            for catch, ti in i['cl']:
                if not catch: continue
                tn = 0 if ti[0] == 'n' else ti[1]
                if tn == 0: sel = s.selector('*'); break
                m = s.exc_match(exc.ti, tn)
                if m is None: raise Unsupported(f'catch {tn} of {exc.ti}')
                if m: sel = s.selector(tn); break
            if sel is None:
                if not i['cleanup']:
                    # no clause matches: continue unwinding from here
                    s_i = f.ip
                    st.frames[-1].exc = exc
                    return s.unwind_past(st, exc)
                sel = 0
            f.regs[i['r']] = (exc.ptr, sel); f.ip += 1; return None
        if o == 'resume':
            return s.unwind_past(st, f.exc)
        if o in ('fadd', 'fsub', 'fmul', 'fdiv', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fneg', 'fpext', 'fptrunc'):
            h = s.hooks.get('float')
            if h: f.regs[i['r']] = h(s, st, i, [V(st, f, x) for x in i['a']]); f.ip += 1; return None
            raise Unsupported('floating point')
        raise Unsupported('instruction ' + o)

    def unwind_past(s, st, exc):
        f = st.frames.pop()
        if f.fn.nothrow and not f.fn.coro: return s.terminate(st, f'exception {exc.ti} leaves the noexcept function {f.fn.base}')
        if f.coro is None: s.kill_allocas(st, f)
        if f.onret: f.onret(s, st, ('throw', exc))
        return s.throw(st, exc)

    def exc_match(s, ti, catch):
        if ti == catch: return True
        if ti.startswith('?'): return False     # an exception type unknown to the library
        return catch in EXC_BASES.get(ti, [])

    _sel = {}
    def selector(s, tn): return s._sel.setdefault(tn, len(s._sel) + 1)

    def assign(s, st, i, r):
        """results [(state, value)] of a value producing instruction"""
        for q, v in r:
            g = q.frames[-1]; g.regs[i['r']] = v; g.ip += 1
        if len(r) == 1 and r[0][0] is st: return None
        return [q for q, _ in r]

    # ------------------------------------------------------------------ atomics
    def is_cell(s, st, p): return st.cells and isinstance(p, Ptr) and not isinstance(p.obj, NodeRef) and isinstance(p.off, int) and (p.obj, p.off) in st.cells

    def cell(s, st, p):
        if isinstance(p, Ptr) and not isinstance(p.obj, NodeRef):
            o = st.mem.get(p.obj)
            if o is not None and o.dead: s.fail(st, 'memory/use-after-lifetime', f'{o.name} ({o.dead})')
            return st.cells.get((p.obj, p.off)) if isinstance(p.off, int) else None
        return None

    def atomic_load(s, st, p, size, t, ord):
        c = s.cell(st, p)
        if c is None: return s.load(st, p, size, t)
        if ord is None and not c.plain: s.fail(st, 'race/non-atomic-read-of-shared-state', c.name)
        return c.load(s, st, ord or 'na')

    def atomic_store(s, st, p, size, v, ord, t):
        c = s.cell(st, p)
        if c is None: return s.store(st, p, size, v, t)
        if ord is None and not c.plain: s.fail(st, 'race/non-atomic-write-of-shared-state', c.name)
        return [(q, None) for q in c.store(s, st, v, ord or 'na')]

    def cas(s, st, p, size, e, v, so, fo, weak, t):
        c = s.cell(st, p)
        if c is not None: return c.cas(s, st, e, v, so, fo, weak)
        out = []
        for q, cur in s.load(st, p, size, t):
            same = s.cmp(q, 'eq', cur, e, t)
            for q2, b in s.split(q, boolterm(same) if is_term(same) else same):
                if b:
                    if weak and s.hooks.get('spurious'):
                        q3 = q2.clone(); out.append((q3, (cur, 0)))
                    for q4, _ in s.store(q2, p, size, v, t): out.append((q4, (cur, 1)))
                else: out.append((q2, (cur, 0)))
        return out

    def rmw(s, st, p, size, op, v, ord, t):
        c = s.cell(st, p)
        if c is not None: return c.rmw(s, st, op, v, ord)
        out = []
        for q, cur in s.load(st, p, size, t):
            nv = s.rmw_val(q, op, cur, v, size * 8)
            for q2, _ in s.store(q, p, size, nv, t): out.append((q2, cur))
        return out

    def rmw_val(s, st, op, cur, v, w):
        if op == 'xchg': return v
        if op in ('add', 'sub', 'and', 'or', 'xor'): return s.binop(st, op, cur, v, w)
        raise Unsupported('atomicrmw ' + op)

    # ------------------------------------------------------------------ calls
    def do_call(s, st, f, i):
        if i.get('asm'): raise Unsupported('inline asm')
        cal = s.val(st, f, i['fn']) if i['fn'][0] != 'g' else None
        if cal is None:
            name = i['fn'][1]
        else:
            if not isinstance(cal, FnPtr):
                h = s.hooks.get('indirect')
                if h:
                    args = [s.val(st, f, a) for a in i['a']]
                    r = h(s, st, i, cal, args)
                    if r is not INLINE: return s.after_contract(st, r)
                s.fail(st, 'control/invalid-call-target', repr(cal)); return []
            name = cal.name
        fn = s.m.fn[name]
        if name.startswith('llvm.'): return s.intrinsic(st, f, i, name)
        args = [s.val(st, f, a) for a in i['a']]
        if 'byval' in i:
            for k, z in enumerate(i['byval']):
                if z:
                    p = st.new('stack', 'byval', z)
                    rr = s.memcpy(st, p, args[k], z)
                    if not rr: return []
                    if len(rr) != 1 or rr[0] is not st: raise Unsupported('byval fork')
                    args[k] = p; f.allocas.append(p.obj)
        h = s.contract_for(fn)
        if h is not None:
            r = h(s, st, i, args, fn)
            if r is not INLINE:
                s.used_contracts.add(fn.base)
                return s.after_contract(st, r)
        if fn.blocks is None:
            raise Unsupported(f'no contract for external function {fn.d}')
        s.push_call(st, fn, args)
        return None

    def intrinsic(s, st, f, i, name):
        A = lambda k: s.val(st, f, i['a'][k])
        n = name[5:]
        def done(v=None):
            if 'r' in i: f.regs[i['r']] = v
            if i['o'] == 'invoke': return s.jump(st, i['nd'])
            f.ip += 1; return None
        if n.startswith('lifetime.'):
            p = A(1)
            if isinstance(p, Ptr) and isinstance(p.obj, int) and p.off == 0 and p.obj in st.mem and st.mem[p.obj].kind == 'stack':
                o = st.w(p.obj); o.cells = {}; o.dead = 'its scope ended' if n.startswith('lifetime.end') else None
            return done(None)
        if n.startswith(('dbg.', 'assume', 'invariant.', 'experimental.noalias', 'prefetch', 'va_end', 'va_start')): return done(None)
        if n.startswith(('memcpy', 'memmove')):
            r = s.memcpy(st, A(0), A(1), A(2))
            for q in r: q.frames[-1].ip += 1
            return r
        if n.startswith('memset'):
            d, v, k = A(0), A(1), A(2)
            if not isinstance(k, int) or not isinstance(v, int): raise Unsupported('memset')
            if k == 0: return done()
            if not s.chk_ptr(st, d, k, True): return []
            val = int.from_bytes(bytes([v & 255]) * k, 'little')
            r = s.store(st, d, k, val, f'i{k*8}')
            for q, _ in r: q.frames[-1].ip += 1
            return [q for q, _ in r]
        if n.startswith('eh.typeid.for'):
            o = i['a'][0]; return done(s.selector('*' if o[0] == 'n' else o[1]))
        if n.startswith('expect'): return done(A(0))
        if n.startswith('is.constant'): return done(0)
        if n.startswith('objectsize'): return done(M64)
        if n.startswith('launder') or n.startswith('strip.inv') or n.startswith('threadlocal.address') or n.startswith('ssa.copy'): return done(A(0))
        if n == 'trap' or n == 'debugtrap':
            s.fail(st, 'control/trap'); return []
        if n.startswith(('umax', 'umin', 'smax', 'smin')):
            w = int(i['t'][1:]); a, b = A(0), A(1)
            c = s.cmp(st, {'umax': 'ugt', 'umin': 'ult', 'smax': 'sgt', 'smin': 'slt'}[n[:4]], a, b, i['t'])
            return done((a if c else b) if isinstance(c, int) else norm(z3.If(c, bv(a, w), bv(b, w))))
        if n.startswith('abs'):
            w = int(i['t'][1:]); a = A(0); c = s.cmp(st, 'slt', a, 0, i['t'])
            na = s.binop(st, 'sub', 0, a, w)
            return done((na if c else a) if isinstance(c, int) else norm(z3.If(c, bv(na, w), bv(a, w))))
        if '.with.overflow' in n:
            op = n[1:4]; sg = n[0] == 's'; w = int(i['at'][0][1:]); a, b = A(0), A(1)
            r = s.binop(st, op, a, b, w)
            x, y = bv(a, w), bv(b, w)
            if op == 'add': no = z3.BVAddNoOverflow(x, y, sg) if not sg else z3.And(z3.BVAddNoOverflow(x, y, True), z3.BVAddNoUnderflow(x, y))
            elif op == 'sub': no = z3.BVSubNoUnderflow(x, y, sg) if not sg else z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True))
            else: no = z3.BVMulNoOverflow(x, y, sg) if not sg else z3.And(z3.BVMulNoOverflow(x, y, True), z3.BVMulNoUnderflow(x, y))
            return done((r, norm(z3.Not(no))))
        if n.startswith('bswap'):
            w = int(i['t'][1:]); a = A(0)
            if isinstance(a, int): return done(int.from_bytes(a.to_bytes(w // 8, 'little'), 'big'))
            return done(norm(z3.Concat(*[z3.Extract(8 * k + 7, 8 * k, a) for k in range(w // 8)])))
        if n.startswith(('ctlz', 'cttz', 'ctpop')):
            a = A(0)
            w = int(i['t'][1:])
            if isinstance(a, int):
                if n.startswith('ctpop'): return done(bin(a).count('1'))
                if n.startswith('ctlz'): return done(w - a.bit_length())
                return done(w if a == 0 else (a & -a).bit_length() - 1)
            raise Unsupported(n)
        if n.startswith('coro.'): return s.coro_intrinsic(st, f, i, n[5:], A, done)
        raise Unsupported('intrinsic ' + name)

    # ------------------------------------------------------------------ coroutines
    def coro_intrinsic(s, st, f, i, n, A, done):
        if n == 'id':
            return done(('coroid', A(1)))
        if n == 'alloc': return done(1)
        if n.startswith('size'): return done(256)
        if n == 'begin':
            tok, mem = A(0), A(1)
            if not isinstance(mem, Ptr): mem = st.new('heap', 'frame', None)
            o = st.w(mem.obj); o.name = f'frame({f.fn.base})'; o.size = None
            st.coros[mem.obj] = Coro(mem.obj, f.fn, None, tok[1] if isinstance(tok[1], Ptr) else None)
            f.coro = mem.obj
            h = s.hooks.get('coro_begin')
            if h: h(s, st, mem.obj, f)
            return done(mem)
        if n == 'free':
            return done(A(1))
        if n == 'save':
            # the coroutine counts as suspended from here on: publish its resume point (the matching suspend)
            r = i['r']
            for b, c in enumerate(f.fn.code):
                for k, j in enumerate(c):
                    if j['o'] in ('call', 'invoke') and j['fn'][0] == 'g' and j['fn'][1] == 'llvm.coro.suspend' and j['a'][0] == ['v', r]:
                        f.saved_at = (b, k)
            if f.saved_at is None: raise Unsupported('coro.save without suspend')
            f.regs[r] = 'token'
            snap = f.clone(); snap.blk, snap.ip = f.saved_at; snap.ramp = False
            c = st.coros[f.coro]
            isfin = f.fn.code[f.saved_at[0]][f.saved_at[1]]['a'][1][2]
            st.coros[f.coro] = c.upd(frame=snap, done=bool(isfin))
            h = s.hooks.get('coro_save')
            f.ip += 1
            if h:
                rr = h(s, st, f.coro, bool(isfin))
                if rr is not None: return rr
            return None
        if n == 'suspend':
            tok = i['a'][0]; fin = A(1)
            c = st.coros[f.coro]
            if tok[0] == 'none' or f.saved_at is None:
                snap = f.clone(); snap.ramp = False
                st.coros[f.coro] = c.upd(frame=snap, done=bool(fin))
            return s.suspend_now(st, f, i)
        if n == 'end':
            # reached on the destroy path / after final cleanup of a resumed part, or on the ramp's return path
            if f.ramp: return done(0)
            return s.coro_leave(st)
        if n == 'resume':
            h = A(0)
            # symmetric transfer: between save and suspend of the same frame
            if f.coro is not None and f.saved_at is not None and not f.ramp and s.next_is_suspend(f):
                st.frames.pop()
                return s.resume(st, h, tail=True)
            return s.resume(st, h)
        if n == 'destroy': return s.destroy(st, A(0))
        if n == 'done':
            h = A(0); r = s.coro_done(st, h)
            if isinstance(r, list): return s.assign_call(st, i, r)
            return done(r)
        if n == 'promise':
            p, frm = A(0), A(2)
            hk = s.hooks.get('coro_promise')
            if hk:
                r = hk(s, st, p, frm)
                if r is not None: return done(r)
            if not isinstance(p, Ptr): s.fail(st, 'memory/null-coroutine-handle'); return []
            if frm:      # promise -> handle
                for c in st.coros.values():
                    if c.promise is not None and c.promise.obj == p.obj and c.promise.off == p.off: return done(Ptr(c.obj, 0))
                raise Unsupported('promise of unknown coroutine')
            c = st.coros.get(p.obj)
            if c is None: raise Unsupported('promise of an opaque coroutine handle')
            return done(c.promise)
        if n == 'noop':
            g = st.globals.get('$noop')
            if g is None: p = st.new('global', '$noop', 16); st.globals['$noop'] = g = p.obj
            return done(Ptr(g, 0))
        if n.startswith('subfn') or n == 'frame': raise Unsupported('coro.' + n)
        raise Unsupported('coro.' + n)

    def assign_call(s, st, i, r):
        out = []
        for q, v in r:
            rr = s.finish_call(q, v); out += rr if rr is not None else [q]
        return out

    def next_is_suspend(s, f):
        """is the next instruction after this resume (following unconditional branches) the awaited suspend?"""
        b, k = f.blk, f.ip
        c = f.fn.code[b]; i = c[k]
        if i['o'] == 'invoke': b, k = i['nd'], 0
        else: k += 1
        for _ in range(10):
            c = f.fn.code[b]
            j = c[k]
            if (b, k) == f.saved_at: return True
            if j['o'] == 'br' and len(j['d']) == 1: b, k = j['d'][0], f.fn.nphi[j['d'][0]]; continue
            if j['o'] == 'call' and j['fn'][0] == 'g' and j['fn'][1].startswith('llvm.lifetime'): k += 1; continue
            return False
        return False

    def suspend_now(s, st, f, i):
        """the frame on top suspends"""
        co = f.coro
        if f.ramp:
            # the ramp continues with -1 towards its return; the suspended activation lives in st.coros
            f.ramp = True
            f.regs[i['r']] = 255
            f.saved_at = None
            f.ip += 1
            return None
        st.frames.pop()
        return s.after_suspend(st, co)

    def after_suspend(s, st, co):
        if st.frames:
            return s.finish_call(st, None)     # back in whoever resumed it
        st.tags['outcome'] = ('suspend', co)
        return None

    def coro_leave(s, st):
        f = st.frames.pop()
        if st.frames: return s.finish_call(st, None)
        st.tags['outcome'] = ('coro_end', f.coro)
        return None

    def resume(s, st, h, tail=False):
        fin = (lambda q: s.finish_call(q, None))
        hk = s.hooks.get('resume')
        if not isinstance(h, Ptr):
            s.fail(st, 'coroutine/resume-of-null-handle', repr(h)); return []
        o = st.mem.get(h.obj) if not isinstance(h.obj, NodeRef) else None
        if o is not None and (o.name == '$noop' or 'noop_coroutine_promise' in o.name and '_S_fr' in o.name): return s.finish_call(st, None) if st.frames else s._empty(st)
        if hk:
            r = hk(s, st, h)
            if r is not INLINE:
                out = []
                for q in r:
                    if q.frames: 
                        rr = s.finish_call(q, None); out += rr if rr is not None else [q]
                    else: s._empty(q); out.append(q)
                return out
        if isinstance(h.obj, NodeRef) or h.obj not in st.coros: raise Unsupported(f'resume of opaque handle {h} ({st.mem[h.obj] if not isinstance(h.obj, NodeRef) else h.obj})')
        c = st.coros[h.obj]
        if c.destroyed: s.fail(st, 'coroutine/resume-after-destroy', o.name if o else ''); return []
        if c.done: s.fail(st, 'coroutine/resume-of-finished-coroutine', o.name if o else ''); return []
        if c.frame is None: s.fail(st, 'coroutine/resume-of-running-coroutine', o.name if o else ''); return []
        fr = c.frame.clone(); st.coros[h.obj] = c.upd(frame=None)
        fr.regs[fr.fn.code[fr.blk][fr.ip]['r']] = 0
        fr.saved_at = None
        fr.ip += 1; fr.ramp = False
        st.frames.append(fr)
        return None

    def _empty(s, st): st.tags['outcome'] = ('ret', None); return None

    def destroy(s, st, h):
        hk = s.hooks.get('destroy')
        if not isinstance(h, Ptr):
            s.fail(st, 'coroutine/destroy-of-null-handle'); return []
        if hk:
            r = hk(s, st, h)
            if r is not INLINE:
                out = []
                for q in r:
                    rr = s.finish_call(q, None); out += rr if rr is not None else [q]
                return out
        if isinstance(h.obj, NodeRef) or h.obj not in st.coros: raise Unsupported(f'destroy of opaque handle {h}')
        c = st.coros[h.obj]
        if c.destroyed: s.fail(st, 'coroutine/double-destroy'); return []
        if c.frame is None: s.fail(st, 'coroutine/destroy-of-running-coroutine'); return []
        fr = c.frame.clone(); st.coros[h.obj] = c.upd(frame=None, destroyed=True)
        fr.regs[fr.fn.code[fr.blk][fr.ip]['r']] = 1
        fr.ip += 1; fr.ramp = False; fr.saved_at = None
        st.frames.append(fr)
        return None

    def coro_done(s, st, h):
        hk = s.hooks.get('done')
        if not isinstance(h, Ptr):
            s.fail(st, 'coroutine/done-on-null-handle'); return []
        if hk:
            r = hk(s, st, h)
            if r is not INLINE: return r
        if isinstance(h.obj, NodeRef) or h.obj not in st.coros: raise Unsupported('done of opaque handle')
        c = st.coros[h.obj]
        if c.destroyed: s.fail(st, 'coroutine/done-after-destroy'); return []
        return int(c.done)


PUSHED = object()
