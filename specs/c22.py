"""C22: descriptor ownership, every fd closed exactly once."""
import z3
from vcgen.core import *
from vcgen.engine import *
from vcgen.proto import *
from vcgen import strings, fds

LEVEL = 'proof'
NOTE = ('Every special member, close(), make_socket and make_accept_socket of socket, pipe_t, poll_stop_source, timer_handle and io_notifier_epoll keep the invariant `each object owns its own open descriptors or -1`, for every outcome of every '
        'system call. By induction over operations this covers all histories. Assumed: system calls as stated; a user passes a descriptor it owns to socket(int) and does not close native_handle() itself.')
TU = 'fd.cpp'
TUS = [TU]


class H:
    def __init__(s, ctx, name):
        ctx.concurrent = False
        s.mod = ctx.module(TU); s.eng = ctx.engine(s.mod, name); strings.install(s.eng); fds.install(s.eng, ctx); s.off = lambda n: ctx.off(s.mod, n)
        s.eng.contract(r'^std::runtime_error::', lambda e, st, i, a, fn: None)
        s.kinds = dict(socket=[s.off('socket_fd')], pipe=[s.off('pipe_fds'), s.off('pipe_fds') + 4], stop=[s.off('stop_pipe') + s.off('pipe_fds'), s.off('stop_pipe') + s.off('pipe_fds') + 4], timer=[s.off('timer_fd')], notifier=[s.off('notifier_fd')])

    def obj(s, sts, kind, name):
        """every state an object of the kind can be in: each descriptor field is owned or -1"""
        out = []
        for st, objs in sts:
            for m in range(1 << len(s.kinds[kind])):
                q = st.clone(); p = q.new('fresh', name, s.off(kind))
                for j, o in enumerate(s.kinds[kind]): q.w(p.obj).cells[o] = (4, fds.new(q, f'{name}.{j}') if m >> j & 1 else fds.M1)
                out.append((q, objs + [(kind, p)]))
        return out

    def check(s, q, objs, what='post'):
        f = []
        for kind, p in objs:
            for j, o in enumerate(s.kinds[kind]):
                r = s.eng.load(q, Ptr(p.obj, p.off + o), 4, 'i32'); f.append((f'{kind}.{j}' if len(s.kinds[kind]) > 1 else kind, r[0][1] if r else UNDEF))
        fds.owned(s.eng, q, f, what); return [v for _, v in f]


def kind_ops(ctx, kind):
    copy = kind != 'stop'
    for op in (('copy',) if copy else ()) + ('move',):
        h = H(ctx, f'{kind}({op})')
        for st, objs in h.obj([(State(), [])], kind, 'source'):
            p = st.new('fresh', 'new object', h.off(kind)); n0 = [st.mem[objs[0][1].obj].cells[o][1] for o in h.kinds[kind]]
            for q, oc in h.eng.call(st, f'vc_{kind}_{op}', [objs[0][1], p]):
                if oc[0] == 'throw': h.check(q, objs, 'throws'); continue
                h.eng.prove(q, oc[0] == 'ret', 'post/returns', f'{oc}'); v = h.check(q, objs + [(kind, p)])
                n = len(n0)
                if op == 'move':
                    for a, b in zip(n0, v[n:]): h.eng.prove(q, eq(a, b, 32), 'post/ownership-moves', f'{a} became {b}')
                    for b in v[:n]: h.eng.prove(q, eq(b, fds.M1, 32), 'post/moved-from-owns-nothing', f'{b}')
                else:
                    for a, b in zip(n0, v[:n]): h.eng.prove(q, eq(a, b, 32), 'post/source-unchanged')
    for op in (('cassign',) if copy else ()) + ('massign',):
        h = H(ctx, f'{kind}::operator=({"copy" if op == "cassign" else "move"})')
        for st, objs in h.obj(h.obj([(State(), [])], kind, 'target'), kind, 'source'):
            n0 = [st.mem[objs[1][1].obj].cells[o][1] for o in h.kinds[kind]]
            for q, oc in h.eng.call(st, f'vc_{kind}_{op}', [objs[0][1], objs[1][1]]):
                h.eng.prove(q, oc[0] == 'ret', 'post/returns', f'{oc}'); v = h.check(q, objs); n = len(n0)
                if op == 'massign':
                    for a, b in zip(n0, v[:n]): h.eng.prove(q, eq(a, b, 32), 'post/ownership-moves')
                    for b in v[n:]: h.eng.prove(q, eq(b, fds.M1, 32), 'post/moved-from-owns-nothing', f'{b}')
                else:
                    for a, b in zip(n0, v[n:]): h.eng.prove(q, eq(a, b, 32), 'post/source-unchanged')
        h = H(ctx, f'{kind}::operator=({"copy" if op == "cassign" else "move"} of itself)')
        for st, objs in h.obj([(State(), [])], kind, 'object'):
            n0 = [st.mem[objs[0][1].obj].cells[o][1] for o in h.kinds[kind]]
            for q, oc in h.eng.call(st, f'vc_{kind}_{op}', [objs[0][1], objs[0][1]]):
                h.eng.prove(q, oc[0] == 'ret', 'post/returns', f'{oc}'); v = h.check(q, objs)
                for a, b in zip(n0, v): h.eng.prove(q, eq(a, b, 32), 'post/self-assignment-keeps-the-descriptor', f'{a} became {b}')
    for op in ('dtor',) + (('close',) if kind != 'stop' else ()):
        h = H(ctx, f'{kind}::{op}')
        for st, objs in h.obj([(State(), [])], kind, 'object'):
            for q, oc in h.eng.call(st, f'vc_{kind}_{op}', [objs[0][1]]):
                h.eng.prove(q, oc[0] == 'ret', 'post/returns')
                if op == 'dtor': fds.owned(h.eng, q, [], 'destroyed')
                else:
                    for v in h.check(q, objs): h.eng.prove(q, eq(v, fds.M1, 32), 'post/closed')


def part_socket(ctx):
    kind_ops(ctx, 'socket')
    h = H(ctx, 'socket()'); st = State(); p = st.new('fresh', 'socket', h.off('socket'))
    for q, oc in h.eng.call(st, 'vc_socket_default', [p]): h.eng.prove(q, h.check(q, [('socket', p)]) == [fds.M1], 'post/owns-nothing')
    h = H(ctx, 'socket(int)'); st = State(); p = st.new('fresh', 'socket', h.off('socket')); f = fds.new(st, 'caller')
    for q, oc in h.eng.call(st, 'vc_socket_fd', [f, p]): h.check(q, [('socket', p)])
    for fn, args in (('vc_socket_blocking', lambda: [BV('how', 32)]), ('vc_socket_shutdown', lambda: [BV('how', 64)]), ('vc_socket_handle', list), ('vc_socket_ok', list), ('vc_socket_bool', list)):
        h = H(ctx, 'socket::' + fn[10:])
        for st, objs in h.obj([(State(), [])], 'socket', 'socket'):
            v0 = st.mem[objs[0][1].obj].cells[h.off('socket_fd')][1]
            for q, oc in h.eng.call(st, fn, [objs[0][1]] + args()):
                h.eng.prove(q, oc[0] == 'ret', 'post/returns'); v = h.check(q, objs); h.eng.prove(q, eq(v[0], v0, 32), 'post/descriptor-unchanged')
                if fn == 'vc_socket_handle': h.eng.prove(q, eq(oc[1], v0, 32), 'post/handle')
                elif fn in ('vc_socket_ok', 'vc_socket_bool'): h.eng.prove(q, boolterm(oc[1]) == boolterm(v0 is not fds.M1 and not isinstance(v0, int)), 'post/valid-iff-it-owns-one')
                elif isinstance(v0, int): h.eng.prove(q, norm(oc[1]) == 0, 'post/failure-without-descriptor')


def part_make(ctx):
    h = H(ctx, 'make_socket'); st = State(); p = st.new('fresh', 'result', h.off('socket')); seen = set()
    for q, oc in h.eng.call(st, 'vc_make', [BV('type', 32), BV('blocking', 32), BV('domain', 32), p]):
        seen.add(oc[0]); h.eng.prove(q, oc[0] in ('ret', 'throw'), 'post/returns-or-throws', f'{oc}')
        if oc[0] == 'ret': v = h.check(q, [('socket', p)]); h.eng.prove(q, not (isinstance(v[0], int) and v[0] == fds.M1), 'post/success-owns-a-descriptor')
        else: fds.owned(h.eng, q, [], 'throws')
    h.eng.prove(State(), seen == {'ret', 'throw'}, 'cover/both', str(seen))
    h = H(ctx, 'make_accept_socket'); st = State(); p = st.new('fresh', 'result', h.off('socket')); sa = st.new('fresh', 'endpoint', h.off('sa')); seen = set()
    for o in range(0, 128, 2): st.w(sa.obj).cells[h.off('sa_storage') + o] = (2, BV('storage', 16))
    st.w(sa.obj).cells[h.off('sa_len')] = (4, BV('len', 32))
    for q, oc in h.eng.call(st, 'vc_make_accept', [BV('type', 32), BV('blocking', 32), sa, BV('backlog', 32), p]):
        seen.add(oc[0]); h.eng.prove(q, oc[0] in ('ret', 'throw'), 'post/returns-or-throws', f'{oc}')
        if oc[0] == 'ret': v = h.check(q, [('socket', p)]); h.eng.prove(q, not (isinstance(v[0], int) and v[0] == fds.M1), 'post/success-owns-a-descriptor')
        else: fds.owned(h.eng, q, [], 'throws')
    h.eng.prove(State(), seen == {'ret', 'throw'}, 'cover/both', str(seen))


def part_pipe(ctx):
    kind_ops(ctx, 'pipe')
    h = H(ctx, 'pipe_t()'); st = State(); p = st.new('fresh', 'pipe', h.off('pipe')); seen = set()
    for q, oc in h.eng.call(st, 'vc_pipe_ctor', [p]):
        seen.add(oc[0])
        if oc[0] == 'ret':
            for v in h.check(q, [('pipe', p)]): h.eng.prove(q, is_term(v), 'post/owns-both-ends')
        else: h.eng.prove(q, oc[0] == 'throw', 'post/throws', f'{oc}'); fds.owned(h.eng, q, [], 'throws')
    h.eng.prove(State(), seen == {'ret', 'throw'}, 'cover/both', str(seen))
    for fn, k, args in (('vc_pipe_rfd', 0, list), ('vc_pipe_wfd', 1, list), ('vc_pipe_write', 1, lambda: [0, BV('n')]), ('vc_pipe_read', 0, lambda: [0, BV('n')])):
        h = H(ctx, 'pipe_t::' + fn[8:])
        for st, objs in h.obj([(State(), [])], 'pipe', 'pipe'):
            v0 = [st.mem[objs[0][1].obj].cells[o][1] for o in h.kinds['pipe']]; used = []
            for n in ('read', 'write'):
                def rw(e, q, i, a, fn, n=n): used.append((n, a[0])); return BV(n, 64)
                h.eng.contract_first('=' + n, rw)
            for q, oc in h.eng.call(st, fn, [objs[0][1]] + args()):
                h.eng.prove(q, oc[0] == 'ret', 'post/returns'); v = h.check(q, objs)
                for a, b in zip(v0, v): h.eng.prove(q, eq(a, b, 32), 'post/descriptors-unchanged')
                if fn.endswith('fd'): h.eng.prove(q, eq(oc[1], v0[k], 32), 'post/that-end')
                else: h.eng.prove(q, len(used) == 1 and used[0][0] == fn[8:] and eq(used[0][1], v0[k], 32), 'post/uses-that-end', str(used))


def part_stop(ctx):
    kind_ops(ctx, 'stop')
    h = H(ctx, 'poll_stop_source()'); st = State(); p = st.new('fresh', 'stop', h.off('stop'))
    for q, oc in h.eng.call(st, 'vc_stop_ctor', [p]):
        if oc[0] == 'ret': h.check(q, [('stop', p)])
        else: h.eng.prove(q, oc[0] == 'throw', 'post/throws'); fds.owned(h.eng, q, [], 'throws')
    for fn in ('vc_stop_token', 'vc_stop_signal'):
        h = H(ctx, 'poll_stop_source::' + fn[8:])
        for st, objs in h.obj([(State(), [])], 'stop', 'stop'):
            v0 = [st.mem[objs[0][1].obj].cells[o][1] for o in h.kinds['stop']]
            for q, oc in h.eng.call(st, fn, [objs[0][1]]):
                h.eng.prove(q, oc[0] == 'ret', 'post/returns'); v = h.check(q, objs)
                for a, b in zip(v0, v): h.eng.prove(q, eq(a, b, 32), 'post/descriptors-unchanged')
                if fn == 'vc_stop_token': h.eng.prove(q, eq(oc[1], v0[0], 32), 'post/token-names-the-read-end')


def part_kernel(ctx):
    for kind, args in (('timer', 2), ('notifier', 0)):
        h = H(ctx, f'{kind}()'); st = State(); p = st.new('fresh', kind, h.off(kind)); a = [p]
        if kind == 'timer': a += [st.new('opaque', 'timer object', 64), h.obj([(st, [])], 'notifier', 'notifier')[-1][1][0][1]]
        if kind == 'timer':
            for st, objs in h.obj([(st, [])], 'notifier', 'notifier'):
                for q, oc in h.eng.call(st, f'vc_{kind}_ctor', [p, a[1], objs[0][1]]): h.eng.prove(q, oc[0] == 'ret', 'post/returns', f'{oc}'); h.check(q, objs + [(kind, p)])
        else:
            for q, oc in h.eng.call(st, f'vc_{kind}_ctor', a): h.eng.prove(q, oc[0] == 'ret', 'post/returns', f'{oc}'); h.check(q, [(kind, p)])
        h = H(ctx, f'~{kind}')
        for st, objs in h.obj([(State(), [])], kind, kind):
            for q, oc in h.eng.call(st, f'vc_{kind}_dtor', [objs[0][1]]): h.eng.prove(q, oc[0] == 'ret', 'post/returns'); fds.owned(h.eng, q, [], 'destroyed')


PARTS = [part_socket, part_make, part_pipe, part_stop, part_kernel]
