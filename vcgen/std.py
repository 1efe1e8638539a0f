"""Assumed contracts on the language runtime, libstdc++ and pthread functions (the trusted base)."""
import z3
from .core import *
from .engine import *

TRUSTED = []


def install(eng):
    C = eng.contract
    def nop(e, st, i, a, fn): return None
    def ret(v): return lambda e, st, i, a, fn: v

    # --- allocation
    def op_new(e, st, i, a, fn):
        hk = e.hooks.get('new')
        if hk:
            r = hk(e, st, a)
            if r is not None: return r
        return st.new('heap', f'new({a[0]})', a[0])
    def op_del(e, st, i, a, fn):
        p = a[0]
        if isinstance(p, int) and p == 0: return None
        if not isinstance(p, Ptr) or isinstance(p.obj, NodeRef): e.fail(st, 'memory/invalid-free', repr(p)); return None
        o = st.mem[p.obj]
        if o.dead: e.fail(st, 'memory/double-free', o.name); return None
        if p.off != 0: e.fail(st, 'memory/invalid-free', repr(p)); return None
        hk = e.hooks.get('delete')
        if hk:
            r = hk(e, st, o)
            if r is not None: return r
        if p.obj in st.coros:
            for fr in st.frames:
                if fr.coro == p.obj: e.kill_allocas(st, fr)
            c = st.coros[p.obj]
            st.coros[p.obj] = c.upd(destroyed=True)
        st.w(p.obj).dead = 'freed'
        return None
    C(r'^operator new(\[\])?$', op_new); C(r'^operator delete(\[\])?$', op_del)

    # --- exceptions
    def cxa_alloc(e, st, i, a, fn): return st.new('heap', 'exception', a[0])
    def cxa_throw(e, st, i, a, fn):
        g = i['a'][1]
        st.tags[('exc', a[0].obj)] = g[1]
        st.note('throw ' + g[1])
        return Throw(Exc(a[0], g[1]))
    def begin_catch(e, st, i, a, fn):
        p = a[0]; ti = st.tags.get(('exc', p.obj), '?') if isinstance(p, Ptr) else '?'
        st.exc_caught.append(Exc(p, ti)); return p
    def end_catch(e, st, i, a, fn):
        if st.exc_caught: st.exc_caught.pop()
        return None
    def rethrow(e, st, i, a, fn): return Throw(st.exc_caught[-1])
    C('=__cxa_allocate_exception', cxa_alloc); C('=__cxa_free_exception', nop); C('=__cxa_throw', cxa_throw)
    C('=__cxa_begin_catch', begin_catch); C('=__cxa_end_catch', end_catch); C('=__cxa_rethrow', rethrow)
    C('=__cxa_guard_acquire', ret(1)); C('=__cxa_guard_release', nop); C('=__cxa_guard_abort', nop); C('=__cxa_atexit', ret(0))
    def term(e, st, i, a, fn): e.terminate(st, fn.base); return PUSHED
    C(r'^(std::terminate|__clang_call_terminate|abort|std::abort|__cxa_pure_virtual)$', term)
    C(r'^std::(runtime_error|logic_error|invalid_argument|out_of_range|exception|bad_alloc)::', lambda e, st, i, a, fn: INLINE if fn.blocks is not None and fn.base.startswith('std::exception::') else None)
    def throwing(ti):
        def h(e, st, i, a, fn):
            p = st.new('heap', 'exception', 16); st.tags[('exc', p.obj)] = ti; st.note('throw ' + ti); return Throw(Exc(p, ti))
        return h
    C('=std::__throw_bad_variant_access', throwing('_ZTISt18bad_variant_access')); C('=std::__throw_out_of_range_fmt', throwing('_ZTISt12out_of_range'))
    C('=std::__throw_out_of_range', throwing('_ZTISt12out_of_range')); C('=std::__throw_length_error', throwing('_ZTISt12length_error'))
    C('=std::__throw_system_error', throwing('_ZTISt12system_error')); C('=std::__throw_bad_optional_access', throwing('_ZTISt19bad_optional_access')); C('=std::__throw_bad_function_call', throwing('_ZTISt17bad_function_call'))
    C('=std::__throw_bad_alloc', throwing('_ZTISt9bad_alloc')); C('=std::__throw_bad_array_new_length', throwing('_ZTISt9bad_alloc')); C('=std::__throw_logic_error', throwing('_ZTISt11logic_error'))
    def cur_exc(e, st, i, a, fn):
        # exception_ptr returned through sret
        v = st.exc_caught[-1].ptr if st.exc_caught else 0
        r = e.store(st, a[0], 8, v, 'ptr'); return [(q, None) for q, _ in r]
    C('=std::current_exception', cur_exc)
    def rethrow_ptr(e, st, i, a, fn):
        out = []
        for q, v in e.load(st, a[0], 8, 'ptr'):
            if isinstance(v, int): e.fail(q, 'exception/rethrow-of-null'); continue
            out.append((q, Throw(Exc(v, q.tags.get(('exc', v.obj), '?')))))
        return out
    C('=std::rethrow_exception', rethrow_ptr)
    C(r'^std::__exception_ptr::exception_ptr::_M_(addref|release)$', nop)
    def glibassert(e, st, i, a, fn): e.fail(st, 'std/assertion', fn.base); return []
    C('=std::__glibcxx_assert_fail', glibassert); C('=__assert_fail', glibassert)
    C('=std::this_thread::yield', nop)
    C(r'^sched_yield$', ret(0))
