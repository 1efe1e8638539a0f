"""File descriptors as ghost resources: every descriptor opened is a token; closing or using one needs a live token."""
import z3
from .core import *
from .engine import *

M1 = 0xffffffff
TRUSTED = ['socket, pipe, dup, timerfd_create, epoll_create1: return a new descriptor different from every open one, or -1', 'close(fd): closes exactly that descriptor']


def install(eng, ctx=None):
    if ctx is not None:
        for t in TRUSTED:
            if t not in ctx.trusted: ctx.trusted.append(t)
    C = eng.contract_first
    def opener(name):
        def h(e, st, i, a, fn):
            if name == 'dup':
                k = use(e, st, a[0], 'dup')
                if k is None: return M1
            q = st.clone(); q.forks += 1; st.forks += 1; q.note(f'{name} fails')
            return [(st, new(st, name)), (q, M1)]
        return h
    for n in ('socket', 'dup', 'timerfd_create', 'epoll_create1'): C('=' + n, opener(n))
    def pipe(e, st, i, a, fn):
        q = st.clone(); q.forks += 1; st.forks += 1; q.note('pipe fails')
        e.store(st, a[0], 4, new(st, 'pipe read end'), 'i32'); e.store(st, Ptr(a[0].obj, add(a[0].off, 4)), 4, new(st, 'pipe write end'), 'i32')
        return [(st, 0), (q, M1)]
    C(r'^pipe2?$', pipe)
    def close(e, st, i, a, fn):
        k = find(e, st, a[0])
        if e.prove(st, k is not None, 'fd/closed-exactly-once', f'close({a[0]}): not a descriptor that is open and owned here'): kill(st, k)
        st.note(f'close({a[0]})')
        q = st.clone(); q.forks += 1; st.forks += 1
        return [(st, 0), (q, M1)]      # close() releases the descriptor even when it reports an error
    C('=close', close)
    def user(name):
        def h(e, st, i, a, fn):
            k = use(e, st, a[0], name)
            if k is None: return M1
            r = BV(name, 32); hk = eng.hooks.get('fd_use')
            if hk: hk(e, st, name, k, a)
            return r
        return h
    for n in ('fcntl', 'setsockopt', 'bind', 'listen', 'shutdown', 'timerfd_settime', 'epoll_ctl'): C('=' + n, user(n))
    def rw(name):
        def h(e, st, i, a, fn):
            k = use(e, st, a[0], name)
            return M64 if k is None else BV(name, 64)
        return h
    for n in ('read', 'write'): C('=' + n, rw(n))
    def errno(e, st, i, a, fn):
        g = st.globals.get('$errno')
        if g is None: p = st.new('lazy', 'errno', 4); st.globals['$errno'] = g = p.obj
        return Ptr(g, 0)
    C('=__errno_location', errno)
    def strerror(e, st, i, a, fn):
        p = st.new('fresh', 'strerror', 6)
        for k, x in enumerate(b'error\0'): st.w(p.obj).cells[k] = (1, x)
        return p
    C('=strerror', strerror)
    C(r'^std::(operator<<|ostream::operator<<|basic_ostream::operator<<|endl)$', lambda e, st, i, a, fn: a[0])


def new(st, name):
    v = BV('fd', 32); fds = st.ghost.get('fds', ())
    st.pc += [v >= 0] + [v != t for t, live, n in fds if live]
    st.ghost['fds'] = fds + ((v, True, name),); st.note(f'{name} opens {v}'); return v


def find(e, st, v):
    for k, (t, live, n) in enumerate(st.ghost.get('fds', ())):
        if live and is_term(v) and (t.eq(v) or e.entails(st, t == v)): return k
    return None


def kill(st, k):
    fds = list(st.ghost['fds']); fds[k] = (fds[k][0], False, fds[k][2]); st.ghost['fds'] = tuple(fds)


def use(e, st, v, what):
    """the token of descriptor v, or None for -1; anything else is a use of a descriptor this object does not own"""
    v = norm(v)
    if isinstance(v, int) and v & M1 == M1: return None
    k = find(e, st, v)
    e.prove(st, k is not None, 'fd/use-of-unowned-descriptor', f'{what}({v})')
    return k


def owned(e, st, fields, what='post'):
    """fields: [(name, value)] of every object alive.  Each is -1 or its own live token; no token is without owner."""
    seen = {}
    for n, v in fields:
        if v is UNDEF: e.fail(st, f'{what}/owner-is-defined', n); continue
        v = norm(v)
        if isinstance(v, int) and v & M1 == M1: continue
        k = find(e, st, v)
        if not e.prove(st, k is not None, f'{what}/owns-an-open-descriptor-or-nothing', f'{n} holds {v}, which is not open (closed already, or another object closed it)'): continue
        e.prove(st, k not in seen, f'{what}/one-owner-per-descriptor', f'{n} and {seen.get(k)} own the same descriptor'); seen[k] = n
    for k, (t, live, n) in enumerate(st.ghost.get('fds', ())):
        if live: e.prove(st, k in seen, f'{what}/no-descriptor-leaked', f'the descriptor opened by {n} has no owner and is never closed')
