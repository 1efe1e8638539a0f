"""Values, memory, states and solver services of the VC generator.

The generator executes the LLVM IR that clang emits for /repo's own sources symbolically, one function under
contract at a time, and turns every contract clause / memory access / protocol step into a named obligation."""
import os, time, itertools
import z3

M64 = (1 << 64) - 1


class Unsupported(Exception):
    """The engine cannot express something: an error of the check, never a violation."""


class Budget(Exception):
    pass


class _Undef:
    def __repr__(s): return 'undef'
UNDEF = _Undef()


class NodeRef:
    """Element idx (a BV64 term or int) of an unbounded family `chain` (chain id)."""
    __slots__ = ('chain', 'idx', 'sub')
    def __init__(s, chain, idx, sub=''): s.chain, s.idx, s.sub = chain, idx, sub
    def __repr__(s): return f'{s.chain}[{s.idx}]{s.sub}'


class Ptr:
    """A non-null pointer: object id (int) or NodeRef, plus a byte offset (int or BV64)."""
    __slots__ = ('obj', 'off')
    def __init__(s, obj, off=0): s.obj, s.off = obj, off
    def __repr__(s): return f'&{s.obj}+{s.off}' if not (isinstance(s.off, int) and s.off == 0) else f'&{s.obj}'


class FnPtr:
    __slots__ = ('name',)
    def __init__(s, name): s.name = name
    def __repr__(s): return f'fn:{s.name}'
    def __eq__(s, o): return isinstance(o, FnPtr) and o.name == s.name
    def __hash__(s): return hash(('fn', s.name))


_fresh = itertools.count()


def fresh_name(p): return f'{p}!{next(_fresh)}'
def BV(name, w=64): return z3.BitVec(fresh_name(name), w)
def Bool(name): return z3.Bool(fresh_name(name))


def is_term(v): return isinstance(v, z3.ExprRef)


def bv(v, w):
    """int / Bool / BV -> BitVec of width w"""
    if isinstance(v, bool): v = int(v)
    if isinstance(v, int): return z3.BitVecVal(v, w)
    if z3.is_bool(v): return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    if isinstance(v, z3.BitVecRef):
        if v.size() != w: raise Unsupported(f'width {v.size()} used as {w}')
        return v
    raise Unsupported(f'not a number: {v!r}')


def norm(v):
    """simplify a term; numerals become ints"""
    if not is_term(v): return v
    v = z3.simplify(v)
    if z3.is_bv_value(v): return v.as_long()
    if z3.is_true(v): return 1
    if z3.is_false(v): return 0
    return v


def boolterm(v):
    if isinstance(v, bool): return z3.BoolVal(v)
    if isinstance(v, int): return z3.BoolVal(bool(v))
    if z3.is_bool(v): return v
    if isinstance(v, z3.BitVecRef): return v != 0
    raise Unsupported(f'not a boolean: {v!r}')


def And(*a): return z3.And(*[boolterm(x) for x in a])
def Or(*a): return z3.Or(*[boolterm(x) for x in a])
def Not(a): return z3.Not(boolterm(a))
def ULE(a, b, w=64): return z3.ULE(bv(a, w), bv(b, w))
def ULT(a, b, w=64): return z3.ULT(bv(a, w), bv(b, w))
def add(a, b, w=64):
    if isinstance(a, int) and isinstance(b, int): return (a + b) & ((1 << w) - 1)
    return norm(bv(a, w) + bv(b, w))
def sub(a, b, w=64):
    if isinstance(a, int) and isinstance(b, int): return (a - b) & ((1 << w) - 1)
    return norm(bv(a, w) - bv(b, w))
def mul(a, b, w=64):
    if isinstance(a, int) and isinstance(b, int): return (a * b) & ((1 << w) - 1)
    return norm(bv(a, w) * bv(b, w))
def eq(a, b, w=64):
    if isinstance(a, int) and isinstance(b, int): return a == b
    return bv(a, w) == bv(b, w)


class Obj:
    __slots__ = ('id', 'kind', 'name', 'size', 'cells', 'dead', 'schema', 'guard', 'tag', 'epoch', 'arrays')
    def __init__(s, id, kind, name, size=None, schema=None, guard=None, tag=None):
        s.id, s.kind, s.name, s.size = id, kind, name, size
        s.cells = {}          # off -> (size, value)
        s.dead = None         # None | 'freed' | 'out of scope' | ...
        s.schema, s.guard, s.tag = schema, guard, tag
        s.epoch = None
        s.arrays = {}         # region name -> z3 array / list
    def clone(s):
        o = Obj(s.id, s.kind, s.name, s.size, s.schema, s.guard, s.tag)
        o.cells = dict(s.cells); o.dead = s.dead; o.arrays = dict(s.arrays)
        return o
    def __repr__(s): return f'<{s.kind} {s.name}#{s.id}>'


class Frame:
    __slots__ = ('fn', 'regs', 'blk', 'prev', 'ip', 'allocas', 'ret_to', 'loops', 'coro', 'ramp', 'exc', 'onret', 'saved_at')
    def __init__(s, fn):
        s.fn = fn; s.regs = {}; s.blk = 0; s.prev = None; s.ip = 0; s.allocas = []
        s.ret_to = None; s.loops = {}; s.coro = None; s.ramp = False; s.exc = None; s.onret = None
        s.saved_at = None
    def clone(s):
        f = Frame(s.fn); f.regs = dict(s.regs); f.blk = s.blk; f.prev = s.prev; f.ip = s.ip
        f.allocas = list(s.allocas); f.ret_to = s.ret_to; f.loops = {k: v.copy() for k, v in s.loops.items()}; f.coro = s.coro; f.ramp = s.ramp
        f.exc = s.exc; f.onret = s.onret; f.saved_at = s.saved_at
        return f


class Coro:
    """An activation of a coroutine under verification (immutable; replaced on change)."""
    __slots__ = ('obj', 'fn', 'frame', 'promise', 'done', 'destroyed', 'allocas')
    def __init__(s, obj, fn, frame=None, promise=None, done=False, destroyed=False):
        s.obj, s.fn, s.frame, s.promise, s.done, s.destroyed = obj, fn, frame, promise, done, destroyed
    def upd(s, **k):
        c = Coro(s.obj, s.fn, s.frame, s.promise, s.done, s.destroyed)
        for a, b in k.items(): setattr(c, a, b)
        return c


_ids = itertools.count(1)


class State:
    def __init__(s):
        s.id = next(_ids)
        s.pc = []
        s.mem = {}
        s.frames = []
        s.ghost = {}
        s.cells = {}          # (objid, off) -> protocol
        s.chains = {}         # chain id -> Chain
        s.coros = {}          # frame objid -> Coro
        s.trace = ()          # linked list of human readable events
        s.exc_caught = []     # stack of caught exceptions
        s.forks = 0
        s.birth = {}          # symbol name -> facts (list of terms)
        s.tags = {}           # free-form, copied shallowly
        s.globals = {}        # global name -> objid

    def clone(s):
        t = State.__new__(State)
        t.id = next(_ids)
        t.pc = list(s.pc); t.mem = dict(s.mem); t.frames = [f.clone() for f in s.frames]
        t.ghost = dict(s.ghost); t.cells = dict(s.cells); t.chains = dict(s.chains); t.coros = dict(s.coros)
        t.trace = s.trace; t.exc_caught = list(s.exc_caught); t.forks = s.forks; t.birth = s.birth
        t.tags = dict(s.tags); t.globals = dict(s.globals)
        s.id = next(_ids)     # both sides lose write ownership of shared Objs
        return t

    # ---- memory
    def new(s, kind, name, size=None, **k):
        i = next(_ids)
        o = Obj(i, kind, name, size, **k); o.epoch = s.id
        s.mem[i] = o
        return Ptr(i, 0)

    def w(s, i):
        o = s.mem[i]
        if o.epoch != s.id:
            o = o.clone(); o.epoch = s.id; s.mem[i] = o
        return o

    def note(s, msg): s.trace = (s.trace, msg)

    def notes(s):
        r, t = [], s.trace
        while t: r.append(t[1]); t = t[0]
        return r[::-1]


class Chain:
    """Ghost view of a detached / snapshotted intrusive singly linked list of n nodes; index n-1 is the head
    (most recently pushed), index 0 the tail.  [lo,hi) is the part this thread may still touch (owns);
    links of indices >= rev have been reversed in place."""
    __slots__ = ('id', 'kind', 'n', 'lo', 'hi', 'rev', 'excl', 'over', 'info')
    def __init__(s, id, kind, n, lo=None, hi=None, rev=None, excl=False, over=(), info=None):
        s.id, s.kind, s.n = id, kind, n
        s.lo = 0 if lo is None else lo
        s.hi = n if hi is None else hi
        s.rev = n if rev is None else rev
        s.excl = excl          # may links be read (nobody else can unlink)?
        s.over = over          # explicit overrides ((idx, off, value), ...)
        s.info = info
    def upd(s, **k):
        c = Chain(s.id, s.kind, s.n, s.lo, s.hi, s.rev, s.excl, s.over, s.info)
        for a, b in k.items(): setattr(c, a, b)
        return c


class Solver:
    def __init__(s, timeout_ms=20000):
        s.timeout = timeout_ms; s.n = 0; s.t = 0.0; s.cache = {}; s.keep = []; s.unknown = 0

    def check(s, facts, timeout=None):
        """sat / unsat / unknown of a conjunction"""
        facts = [f for f in facts if not z3.is_true(f)]
        for f in facts:
            if z3.is_false(f): return 'unsat'
        if not facts: return 'sat'
        key = frozenset(f.get_id() for f in facts)
        r = s.cache.get(key)
        if r is not None: return r
        s.n += 1; t0 = time.time()
        S = z3.Solver(); S.set('timeout', timeout or s.timeout)
        for f in facts: S.add(f)
        r = str(S.check()); s.t += time.time() - t0
        if r == 'unknown': s.unknown += 1
        s.keep.append(facts); s.cache[key] = r
        return r

    def model(s, facts):
        S = z3.Solver(); S.set('timeout', s.timeout)
        for f in facts: S.add(f)
        if str(S.check()) == 'sat': return S.model()
        return None


class Obligation:
    __slots__ = ('fn', 'kind', 'where', 'ok', 'detail', 'how', 't', 'smt')
    def __init__(s, fn, kind, where, ok, detail='', how='', t=0.0, smt=None):
        s.fn, s.kind, s.where, s.ok, s.detail, s.how, s.t, s.smt = fn, kind, where, ok, detail, how, t, smt
