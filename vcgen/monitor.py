"""State protected by a coro::mutex (contract of C01): the protected cells are unknown up to the monitor invariant
when the lock is acquired, stable while it is held, and the invariant is an obligation when it is released.
Waiting for the lock is modelled as acquiring it at once: a coroutine suspended in mutex::lock executes nothing, its
locals are its own, and everything shared is unknown again when it owns the lock."""
from .core import *
from .engine import *
from .proto import *


class Monitor:
    def __init__(s, eng, is_mutex, op_mutex_off, on_lock, on_unlock, allow_try=True):
        s.eng, s.is_mutex, s.op_off, s.on_lock, s.on_unlock = eng, is_mutex, op_mutex_off, on_lock, on_unlock
        C = eng.contract_first
        C('=coro::detail::lock_operation_base::await_ready', s.await_ready)
        C('=coro::detail::lock_operation_base::await_suspend', s.await_suspend)
        C('=coro::mutex::try_lock', s.try_lock)
        C('=coro::mutex::unlock', s.unlock)

    def acquire(s, st):
        s.eng.prove(st, st.ghost['own'] is False, 'lock/self-deadlock', 'the lock is acquired by a coroutine that already holds it')
        st.ghost['own'] = True; st.note('lock')
        r = s.on_lock(st); r = r if r is not None else [st]
        if len(r) > 1:
            for q in r: q.forks += 1
        return r

    def await_ready(s, e, st, i, a, fn):
        out = []
        for q, m in e.load(st, Ptr(a[0].obj, add(a[0].off, s.op_off)), 8, 'ptr'):
            e.prove(q, isinstance(m, Ptr) and s.is_mutex(m), 'lock/unknown-mutex', repr(m))
            out += [(x, 1) for x in s.acquire(q)]
        return out

    def await_suspend(s, e, st, i, a, fn):
        # only reached if await_ready was skipped
        out = []
        for q, m in e.load(st, Ptr(a[0].obj, add(a[0].off, s.op_off)), 8, 'ptr'): out += [(x, 0) for x in s.acquire(q)]
        return out

    def try_lock(s, e, st, i, a, fn):
        e.prove(st, isinstance(a[0], Ptr) and s.is_mutex(a[0]), 'lock/unknown-mutex', repr(a[0]))
        q = st.clone(); q.forks += 1; st.forks += 1
        if st.ghost['own'] is True: return [(st, 0)]
        return [(q, 0)] + [(x, 1) for x in s.acquire(st)]

    def unlock(s, e, st, i, a, fn):
        e.prove(st, isinstance(a[0], Ptr) and s.is_mutex(a[0]), 'lock/unknown-mutex', repr(a[0]))
        if not e.prove(st, st.ghost['own'] is True, 'lock/released-while-not-held', 'the lock is released by a coroutine that does not hold it'): return []
        s.on_unlock(st); st.ghost['own'] = False; st.note('unlock')
        return None


def resume_top(eng, st, h):
    """resume a coroutine from the harness -> [(state, outcome)]"""
    saved = st.frames; st.frames = []
    r = eng.resume(st, h); out = []
    for q in (r if r is not None else [st]): out += eng.run(q)
    for q, _ in out: q.frames = [f.clone() for f in saved]
    return out


def destroy_top(eng, st, h):
    saved = st.frames; st.frames = []
    r = eng.destroy(st, h); out = []
    for q in (r if r is not None else [st]): out += eng.run(q)
    for q, _ in out: q.frames = [f.clone() for f in saved]
    return out
