"""C25: status mapping is total and faithful."""
import z3
from vcgen.core import *
from vcgen.engine import *
from vcgen.proto import *
from vcgen import strings

LEVEL = 'proof'
NOTE = ('make_io_status_from_native for every int, make_io_status_from_poll_status, every to_string, the io_status queries and message() are executed from their compiled source, including the libstdc++ string code '
        'and the static initialisation of the texts; assumed: std::system_category().message and std::to_string(int). The oracle is the documented table of codes and enumerator names written in the spec.')
TU = 'status.cpp'
TUS = [TU]
KIND_TEXT = dict(ok='Success', closed='Connection closed by peer', connection_reset='Connection reset by peer', connection_refused='Connection refused by target host', timeout='Operation timed out',
                 would_block_or_try_again='Operation would block or try again', polling_error='Polling error', cancelled='Operation cancelled', udp_not_bound='Udp socket is not bound',
                 native='Native error code', message_too_big='Message is too big', unknown='unknown')
TEXTS = {   # function -> (value prefix, names, value outside the enumeration: 'unknown' text or throws, width)
    'vc_poll_op_text': ('poll_op_', ['read', 'write', 'read_write'], 64),
    'vc_poll_status_text': ('poll_status_', ['read', 'write', 'timeout', 'error', 'closed', 'cancelled'], 32),
    'vc_connect_status_text': ('connect_status_', ['connected', 'invalid_ip_address', 'timeout', 'error'], 32),
    'vc_domain_text': ('domain_', ['ipv4', 'ipv6'], 32),
    'vc_tls_recv_text': ('tls_recv_', ['ok', 'buffer_is_empty', 'timeout', 'cancelled', 'closed', 'error', 'want_read', 'want_write', 'want_connect', 'want_accept', 'want_x509_lookup', 'error_syscall'], 64),
    'vc_tls_send_text': ('tls_send_', ['ok', 'buffer_is_empty', 'timeout', 'cancelled', 'closed', 'error', 'want_read', 'want_write', 'want_connect', 'want_accept', 'want_x509_lookup', 'error_syscall'], 64),
    'vc_tls_conn_text': ('tls_conn_', ['connected', 'not_connected', 'context_required', 'resource_allocation_failed', 'set_fd_failure', 'handshake_failed', 'timeout', 'poll_error', 'unexpected_close', 'invalid_ip_address', 'error'], 32),
}


def setup(ctx, mod, name, init=False):
    ctx.concurrent = False
    eng = ctx.engine(mod, name); strings.install(eng); st = State()
    if init: st = strings.run_static_init(eng, st)
    return eng, st, lambda n: ctx.off(mod, n)


def status_obj(eng, st, off, typ=None, code=None):
    p = st.new('fresh', 'io_status', off('size_io_status'))
    if typ is not None: o = st.w(p.obj); o.cells[off('io_type')] = (4, typ); o.cells[off('io_native')] = (4, code)
    return p


def part_map(ctx):
    mod = ctx.module(TU)
    eng, st, off = setup(ctx, mod, 'make_io_status_from_native')
    K = lambda n: off('kind_' + n) & 0xffffffff
    c = BV('native_code', 32); p = status_obj(eng, st, off)
    tab = [('ok', 0), ('closed', off('EOF') & 0xffffffff), ('connection_refused', off('ECONNREFUSED')), ('connection_reset', off('ECONNRESET')), ('would_block_or_try_again', off('EAGAIN')), ('would_block_or_try_again', off('EWOULDBLOCK')), ('message_too_big', off('EMSGSIZE'))]
    n = 0
    for q, oc in eng.call(st, 'vc_native', [c, p]):
        n += 1
        eng.prove(q, oc[0] == 'ret', 'post/total', 'every native code has a status')
        if oc[0] != 'ret': continue
        t = bv(eng.load(q, Ptr(p.obj, off('io_type')), 4, 'i32')[0][1], 32); nc = bv(eng.load(q, Ptr(p.obj, off('io_native')), 4, 'i32')[0][1], 32)
        for name, v in tab: eng.prove(q, z3.Implies(c == v, t == K(name)), f'post/native-code-means-{name}', f'native code {v}')
        eng.prove(q, z3.Implies(z3.And(*[c != v for _, v in tab]), t == K('native')), 'post/other-codes-stay-native', 'a code without a documented kind must stay a native error')
        eng.prove(q, (t == K('ok')) == (c == 0), 'post/success-only-for-success')
        eng.prove(q, nc == c, 'post/native-code-preserved')
    eng.prove(State(), n >= 1, 'cover/mapped')

    eng, st, off = setup(ctx, mod, 'make_io_status_from_poll_status')
    s = BV('poll_status', 32); p = status_obj(eng, st, off)
    PS = lambda n: off('poll_status_' + n) & 0xffffffff
    tab = [('read', 'ok'), ('write', 'ok'), ('timeout', 'timeout'), ('error', 'polling_error'), ('closed', 'closed'), ('cancelled', 'cancelled')]
    for q, oc in eng.call(st, 'vc_poll', [s, p]):
        eng.prove(q, oc[0] == 'ret', 'post/total')
        if oc[0] != 'ret': continue
        t = bv(eng.load(q, Ptr(p.obj, off('io_type')), 4, 'i32')[0][1], 32)
        for a, b in tab: eng.prove(q, z3.Implies(s == PS(a), t == K(b)), f'post/poll-{a}-means-{b}')
        eng.prove(q, (t == K('ok')) == z3.Or(s == PS('read'), s == PS('write')), 'post/success-only-for-success')

    for f, names in (('is_ok', ['ok']), ('bool', ['ok']), ('is_timeout', ['timeout']), ('is_closed', ['closed']), ('would_block', ['would_block_or_try_again']), ('try_again', ['would_block_or_try_again']), ('is_native', ['native'])):
        eng, st, off = setup(ctx, mod, f'io_status::{f}'); t = BV('type', 32); p = status_obj(eng, st, off, t, BV('code', 32))
        for q, oc in eng.call(st, 'vc_' + f, [p]):
            eng.prove(q, oc[0] == 'ret' and True, 'post/returns')
            eng.prove(q, boolterm(oc[1]) == z3.Or(*[t == K(n) for n in names]), 'post/query-tells-the-kind')
    for f, names in (('readable', ['read', 'read_write']), ('writeable', ['write', 'read_write'])):
        eng, st, off = setup(ctx, mod, f'poll_op_{f}'); o = BV('op')
        st.pc.append(z3.Or(*[o == off('poll_op_' + n) for n in ('read', 'write', 'read_write')]))
        for q, oc in eng.call(st, 'vc_' + f, [o]):
            eng.prove(q, oc[0] == 'ret' and True, 'post/returns')
            eng.prove(q, boolterm(oc[1]) == z3.Or(*[o == off('poll_op_' + n) for n in names]), 'post/op-direction')


def part_text(ctx):
    mod = ctx.module(TU)
    for f, (pre, names, w) in TEXTS.items():
        eng, st0, off = setup(ctx, mod, f[3:], init=True); got = {}
        for n in names:
            st = st0.clone()
            for q, oc in eng.call(st, f, [off(pre + n) & ((1 << w) - 1)]):
                if not eng.prove(q, oc[0] == 'ret' and isinstance(oc[1], Ptr), 'post/text-defined', f'{pre}{n}'): continue
                L, t = strings.std_string(eng, q, oc[1])
                eng.prove(q, t == n.encode(), 'post/text-names-the-value', f'{pre}{n} has the text {t!r}')
                got[n] = t
        eng.prove(State(), len(set(got.values())) == len(names), 'post/texts-distinct', str(got))
        # values outside the enumeration: no undefined behaviour
        x = BV('value', w); st = st0.clone(); st.pc += [x != (off(pre + n) & ((1 << w) - 1)) for n in names]
        for q, oc in eng.call(st, f, [x]):
            if oc[0] == 'ret':
                L, t = strings.std_string(eng, q, oc[1])
                eng.prove(q, isinstance(t, bytes) and t.decode() not in names, 'post/unknown-value-has-no-known-text', f'{t!r}')
            else: eng.prove(q, oc[0] == 'throw', 'post/unknown-value-throws')

    eng, st0, off = setup(ctx, mod, 'to_string(io_status::kind)', init=True)
    for n, want in KIND_TEXT.items():
        st = st0.clone(); p = st.new('fresh', 'string_view', 16)
        for q, oc in eng.call(st, 'vc_kind_text', [off('kind_' + n), p]):
            eng.prove(q, oc[0] == 'ret', 'post/text-defined', n)
            L = eng.load(q, p, 8, 'i64')[0][1]; d = eng.load(q, Ptr(p.obj, 8), 8, 'ptr')[0][1]
            t = strings.bytes_at(eng, q, d, L) if isinstance(L, int) and isinstance(d, Ptr) else None
            eng.prove(q, t == want.encode(), 'post/text-names-the-value', f'{n} has the text {t!r}')


def part_message(ctx):
    mod = ctx.module(TU)
    ctx.trusted.append('std::system_category().message(code): returns the text of that code or throws')
    eng, st, off = setup(ctx, mod, 'io_status::message', init=True)
    t, c = BV('type', 32), BV('code', 32); st.pc.append(z3.ULE(t, max(off('kind_' + n) for n in KIND_TEXT)))
    s = status_obj(eng, st, off, t, c); out = st.new('fresh', 'message', 32); msg = b'\x01text of the code'
    vt = st.new('fresh', 'vtable', 4096); st.mem[vt.obj].schema = lambda e, q, o, k, z, ty: FnPtr('vc_category_message')
    cat = st.new('fresh', 'category', 64); st.w(cat.obj).cells[0] = (8, vt)
    eng.contract_first(lambda f: f.base.endswith('::system_category'), lambda e, q, i, a, fn: cat)
    def cmsg(e, q, i, a, fn):
        e.prove(q, isinstance(a[1], Ptr) and a[1].obj == cat.obj, 'call/category'); e.prove(q, eq(a[2], c, 32), 'post/text-of-the-native-code', 'the message of another code is asked for')
        q2 = q.clone(); q.ghost['asked'] = True; q2.ghost['asked'] = 'threw'
        b = q.new('heap', 'text', len(msg) + 1); o = q.w(b.obj)
        for k, x in enumerate(msg + b'\0'): o.cells[k] = (1, x)
        so = q.w(a[0].obj); so.cells[a[0].off] = (8, b); so.cells[a[0].off + 8] = (8, len(msg)); so.cells[a[0].off + 16] = (8, len(msg))
        x = q2.new('heap', 'exception', 16); q2.tags[('exc', x.obj)] = '?foreign'
        return [(q, None), (q2, Throw(Exc(x, '?foreign')))]
    eng.contract_first('=vc_category_message', cmsg)
    def tostr(e, q, i, a, fn):
        e.prove(q, eq(a[1], c, 32), 'post/text-of-the-native-code'); q.ghost['num'] = True
        b = q.new('heap', 'number text', 4); o = q.w(b.obj)
        for k, x in enumerate(b'#\0'): o.cells[k] = (1, x)
        so = q.w(a[0].obj); so.cells[a[0].off] = (8, b); so.cells[a[0].off + 8] = (8, 1); so.cells[a[0].off + 16] = (8, 1); return None
    eng.contract_first('=std::to_string', tostr)
    ctx.trusted.append('std::to_string(int): the decimal text of the number')
    K = lambda n: off('kind_' + n); seen = set()
    for q, oc in eng.call(st, 'vc_message', [s, out]):
        if not eng.prove(q, oc[0] == 'ret', 'post/total', f'{oc}'): continue
        L, x = strings.std_string(eng, q, out)
        g = q.ghost.get('asked')
        if g is True: eng.prove(q, x == msg, 'post/message-is-the-text-of-the-code'); eng.prove(q, z3.And(t == K('native'), c != 0), 'post/native-text-only-for-native')
        elif g == 'threw': eng.prove(q, isinstance(x, bytes) and b'#' in x and q.ghost.get('num'), 'post/fallback-names-the-code', f'{x!r}')
        else:
            names = [n for n in KIND_TEXT if KIND_TEXT[n].encode() == x]
            eng.prove(q, z3.Or(*([t == K(n) for n in names if n != 'native'] + ([z3.And(t == K('native'), c == 0)] if x == b'Success' else []))) if names else False, 'post/message-names-the-kind', f'{x!r}')
        seen.add(g)
    eng.prove(State(), seen == {True, 'threw', None}, 'cover/all-forms', str(seen))


PARTS = [part_map, part_text, part_message]
