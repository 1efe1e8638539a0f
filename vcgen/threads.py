"""Assumed contracts of std::mutex and std::condition_variable: mutual exclusion, monitor invariant at lock/unlock, and
no wakeup is lost if the condition was found false in the critical section that the wait releases."""
from .core import *
from .engine import *


class StdMutex:
    """ghost: 'held' (bool).  on_lock(st) -> states, on_unlock(st), on_wait(st) proves what must hold when waiting, on_notify(st, all)"""
    def __init__(s, eng, is_mutex, on_lock, on_unlock, is_cv=None, on_wait=None, on_notify=None, recursive=False):
        s.eng, s.is_mutex, s.on_lock, s.on_unlock, s.is_cv, s.on_wait, s.on_notify = eng, is_mutex, on_lock, on_unlock, is_cv or (lambda p: True), on_wait, on_notify
        C = eng.contract_first
        C('=std::mutex::lock', s.lock); C('=std::mutex::unlock', s.unlock); C('=std::mutex::try_lock', s.try_lock)
        C('=std::recursive_mutex::lock', s.lock); C('=std::recursive_mutex::unlock', s.unlock)
        C('=std::condition_variable::wait', s.wait); C('=std::condition_variable::notify_one', lambda e, st, i, a, fn: s.notify(st, a, False)); C('=std::condition_variable::notify_all', lambda e, st, i, a, fn: s.notify(st, a, True))
        C('=std::condition_variable::condition_variable', lambda e, st, i, a, fn: None); C('=std::condition_variable::~condition_variable', lambda e, st, i, a, fn: None)
        A = 'std::_V2::condition_variable_any::'
        C('=' + A + 'wait', s.wait_any); C('=' + A + 'notify_one', lambda e, st, i, a, fn: s.notify(st, a, False)); C('=' + A + 'notify_all', lambda e, st, i, a, fn: s.notify(st, a, True))
        C('=' + A + 'condition_variable_any', lambda e, st, i, a, fn: None); C('=' + A + '~condition_variable_any', lambda e, st, i, a, fn: None)

    def alive(s, st, p, what): s.eng.chk_ptr(st, p, 8, False)

    def mine(s, st, p):
        s.eng.prove(st, isinstance(p, Ptr) and s.is_mutex(p), 'lock/unknown-mutex', repr(p)); s.alive(st, p, 'lock')

    def acquire(s, st):
        s.eng.prove(st, st.ghost.get('held') is not True, 'lock/self-deadlock', 'the mutex is locked by the thread that already holds it')
        st.ghost['held'] = True; st.note('lock'); r = s.on_lock(st); r = r if r is not None else [st]
        if len(r) > 1:
            for q in r: q.forks += 1
        return r

    def release(s, st):
        s.on_unlock(st); st.ghost['held'] = False; st.note('unlock')

    def lock(s, e, st, i, a, fn): s.mine(st, a[0]); return [(q, None) for q in s.acquire(st)]

    def try_lock(s, e, st, i, a, fn):
        s.mine(st, a[0]); q = st.clone(); q.forks += 1; st.forks += 1
        return [(q, 0)] + [(x, 1) for x in s.acquire(st)]

    def unlock(s, e, st, i, a, fn):
        s.mine(st, a[0])
        if not e.prove(st, st.ghost.get('held') is True, 'lock/released-while-not-held'): return []
        s.release(st); return None

    def wait(s, e, st, i, a, fn):
        if fn.blocks is not None: return INLINE          # the overload with a predicate is code
        return s.do_wait(e, st, a)

    def wait_any(s, e, st, i, a, fn): return INLINE if len(a) > 2 else s.do_wait(e, st, a)

    def do_wait(s, e, st, a):
        e.prove(st, isinstance(a[0], Ptr) and s.is_cv(a[0]), 'wait/unknown-condition-variable', repr(a[0])); s.alive(st, a[0], 'wait')
        m = e.load(st, a[1], 8, 'ptr')[0][1]; s.mine(st, m)
        if not e.prove(st, st.ghost.get('held') is True, 'wait/without-lock'): return []
        if s.on_wait: s.on_wait(st)
        st.note('wait'); s.release(st)
        return [(q, None) for q in s.acquire(st)]

    def notify(s, st, a, all_):
        s.eng.prove(st, isinstance(a[0], Ptr) and s.is_cv(a[0]), 'notify/unknown-condition-variable', repr(a[0])); s.alive(st, a[0], 'notify')
        st.note('notify_all' if all_ else 'notify_one')
        if s.on_notify: s.on_notify(st, all_)
        return None
