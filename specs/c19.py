"""C19: ip_address and socket_address represent addresses faithfully."""
import z3
from vcgen.core import *
from vcgen.engine import *
from vcgen.proto import *
from vcgen import strings

LEVEL = 'proof'
NOTE = ('every function of ip_address and socket_address is executed from its compiled source, for every byte value, port, length, text length and both domains; assumed contracts: inet_pton, inet_ntop (they read and write as '
        'documented and are inverse to each other), memchr, memcmp, strnlen, htons/ntohs, std::to_string(int). Values of domain_t outside the two enumerators are not considered.')
TU = 'address.cpp'
TUS = [TU]
V4, V6 = 2, 10


def setup(ctx, mod, name, init=False):
    ctx.concurrent = False
    eng = ctx.engine(mod, name); strings.install_mem(eng); st = State(); off = lambda n: ctx.off(mod, n)
    for t in ('inet_pton(af, text, dst): reads text up to its NUL, writes 4 / 16 bytes of dst and returns 1 when the text is an address of the family, 0 or -1 otherwise', 'inet_ntop(af, src, dst, size): reads 4 / 16 bytes, writes the canonical text and its NUL when size suffices, null otherwise'):
        if t not in ctx.trusted: ctx.trusted.append(t)
    return eng, st, off


def ip_obj(eng, st, off, dom, data=None, name='ip'):
    """an ip_address satisfying the class invariant: an IPv4 address uses only its first four bytes"""
    p = st.new('fresh', name, off('ip')); o = st.w(p.obj); d = data or [BV(f'{name}.b{k}', 8) for k in range(4 if dom == V4 else 16)]
    o.cells[off('ip_domain')] = (4, dom)
    for k in range(16): o.cells[off('ip_data') + k] = (1, d[k] if k < len(d) else 0)
    return p, d


def ip_is(eng, st, off, p, dom, data, what='post/address'):
    """the object holds exactly this address (and keeps the class invariant)"""
    v = eng.load(st, Ptr(p.obj, p.off + off('ip_domain')), 4, 'i32')[0][1]
    if v is UNDEF: eng.fail(st, what + '-domain', 'uninitialised'); return
    eng.prove(st, eq(v, dom, 32), what + '-domain', f'domain {v}')
    b = strings.bytes_at(eng, st, Ptr(p.obj, p.off + off('ip_data')), 16)
    for k in range(16):
        want = data[k] if k < len(data) else 0
        eng.prove(st, b[k] is not UNDEF and eq(b[k], want, 8), what + '-bytes', f'byte {k} is {b[k]}, expected {want}')


def part_ip(ctx):
    mod = ctx.module(TU)
    eng, st, off = setup(ctx, mod, 'ip_address()')
    p = st.new('fresh', 'ip', off('ip'))
    for q, oc in eng.call(st, 'vc_ip_default', [p]): eng.prove(q, oc[0] == 'ret', 'post/returns'); ip_is(eng, q, off, p, V4, [0] * 4)

    for dom in (V4, V6):
        m = 4 if dom == V4 else 16
        eng, st0, off = setup(ctx, mod, f'ip_address(span, {"ipv4" if dom == V4 else "ipv6"})')
        for n in list(range(m + 1)) + [None]:       # every length: each one up to the address length, and all longer ones at once
            st = st0.clone()
            if n is None: ln = BV('length'); st.pc += [z3.UGT(ln, m), z3.ULT(ln, 1 << 62)]
            else: ln = n
            src = st.new('fresh', 'bytes', n if n is not None else None); d = [BV(f'byte{k}', 8) for k in range(n or 0)]
            for k, x in enumerate(d): st.w(src.obj).cells[k] = (1, x)
            p = st.new('fresh', 'ip', off('ip'))
            for q, oc in eng.call(st, 'vc_ip_ctor', [p, src, ln, dom]):
                if n is None: eng.prove(q, oc[0] == 'throw', 'post/too-long-is-refused', f'{oc}'); continue
                if eng.prove(q, oc[0] == 'ret', 'post/accepted', f'{n} bytes: {oc}'): ip_is(eng, q, off, p, dom, d)

    for dom in (V4, V6):
        m = 4 if dom == V4 else 16
        for f in ('vc_ip_copy', 'vc_ip_move', 'vc_ip_assign'):
            eng, st, off = setup(ctx, mod, f[3:]); a, d = ip_obj(eng, st, off, dom)
            p = ip_obj(eng, st, off, V6 if dom == V4 else V4, name='old')[0] if f == 'vc_ip_assign' else st.new('fresh', 'ip', off('ip'))
            for q, oc in eng.call(st, f, [p, a]): eng.prove(q, oc[0] == 'ret', 'post/returns'); ip_is(eng, q, off, p, dom, d); (f != 'vc_ip_move') and ip_is(eng, q, off, a, dom, d, 'post/source')
        eng, st, off = setup(ctx, mod, 'ip_address::domain, data'); a, d = ip_obj(eng, st, off, dom); n = st.new('fresh', 'n', 8)
        for q, oc in eng.call(st.clone(), 'vc_ip_domain', [a]): eng.prove(q, oc[0] == 'ret' and eq(oc[1], dom, 32), 'post/domain')
        for q, oc in eng.call(st, 'vc_ip_data', [a, n]):
            eng.prove(q, oc[0] == 'ret' and isinstance(oc[1], Ptr) and oc[1].obj == a.obj and oc[1].off == off('ip_data') and q.mem[n.obj].cells[0][1] == m, 'post/data-spans-the-address', f'{oc} {q.mem[n.obj].cells}')
    for da in (V4, V6):
        for db in (V4, V6):
            eng, st, off = setup(ctx, mod, 'ip_address::operator<=>'); a, x = ip_obj(eng, st, off, da, name='a'); b, y = ip_obj(eng, st, off, db, name='b')
            x, y = [bv(v, 8) for v in x + [0] * (16 - len(x))], [bv(v, 8) for v in y + [0] * (16 - len(y))]
            same = z3.And(*[u == v for u, v in zip(x, y)]) if da == db else z3.BoolVal(False)
            lt = z3.BoolVal(False)
            for u, v in reversed(list(zip(x, y))): lt = z3.If(u == v, lt, z3.ULT(u, v))
            if da != db: lt = z3.BoolVal(da < db)
            for q, oc in eng.call(st.clone(), 'vc_ip_eq', [a, b]): eng.prove(q, oc[0] == 'ret', 'post/returns'); eng.prove(q, boolterm(oc[1]) == same, 'post/equal-iff-same-address')
            for q, oc in eng.call(st, 'vc_ip_lt', [a, b]): eng.prove(q, oc[0] == 'ret', 'post/returns'); eng.prove(q, boolterm(oc[1]) == lt, 'post/order-is-domain-then-bytes')


def text_model(eng, st, off):
    """the string_view under test and what inet_pton may be given"""
    n = BV('length'); st.pc.append(z3.ULT(n, 1 << 40)); hasnul = Bool('has_nul')
    st.pc.append(z3.Implies(n == 0, z3.Not(hasnul)))
    view = st.new('fresh', 'text', None); st.ghost['parsed'] = None
    def construct(e, q, i, a, fn):
        b, en = a[1], a[2]
        if not (isinstance(b, Ptr) and b.obj == view.obj): return INLINE
        e.prove(q, eq(b.off, 0) if isinstance(b.off, int) else eq(b.off, 0), 'text/from-its-beginning'); e.prove(q, eq(sub(en.off, b.off), n), 'text/whole', f'the copy has {sub(en.off, b.off)} of {n} characters')
        buf = q.new('heap', 'copy of the text', None); q.tags[('copy', buf.obj)] = 'view'
        o = q.w(a[0].obj); o.cells[a[0].off] = (8, buf); o.cells[a[0].off + 8] = (8, n); o.cells[a[0].off + 16] = (8, n); return None
    eng.contract_first(lambda f: f.base == 'std::basic_string::_M_construct' and 'char const*, char const*' in f.d, construct)
    def memchr(e, q, i, a, fn):
        p = a[0]
        if not (isinstance(p, Ptr) and (p.obj == view.obj or q.tags.get(('copy', p.obj))) and e.entails(q, eq(p.off, 0)) and a[1] == 0): raise Unsupported('memchr')
        e.prove(q, ULE(a[2], n), 'memory/out-of-bounds', 'search past the end of the text')
        if not e.entails(q, eq(a[2], n)): raise Unsupported('search of a part of the text')
        out = []
        for q2, b in e.split(q, hasnul):
            if b: k = BV('nulpos'); q2.pc.append(z3.ULT(k, n)); out.append((q2, Ptr(p.obj, k)))
            else: out.append((q2, 0))
        return out
    eng.contract_first('=memchr', memchr)
    def pton(e, q, i, a, fn):
        af, p, dst = a
        if isinstance(p, Ptr) and p.obj == view.obj: e.fail(q, 'text/terminated', 'a string_view is passed as a C string although it need not be terminated at its end'); return []
        if not (isinstance(p, Ptr) and q.tags.get(('copy', p.obj)) and e.entails(q, eq(p.off, 0))): raise Unsupported(f'inet_pton on {p}')
        e.prove(q, not q.mem[p.obj].dead, 'memory/use-after-lifetime', 'text')
        e.prove(q, q.ghost['parsed'] is None, 'post/parsed-once')
        af = norm(af)
        e.prove(q, eq(af, q.tags['dom'], 32), 'call/family', f'{af}')
        good = q; bad = q.clone(); d = [BV(f'parsed{k}', 8) for k in range(4 if af == V4 else 16)]
        bad.ghost['parsed'] = 'refused'; bad2 = bad.clone()
        for k, x in enumerate(d): e.store(good, Ptr(dst.obj, dst.off + k), 1, x, 'i8')
        good.ghost['parsed'] = tuple(d); good.note('inet_pton accepts')
        return [(good, 1), (bad, 0), (bad2, 0xffffffff)]
    eng.contract_first('=inet_pton', pton)
    return view, n, hasnul


def part_from_string(ctx):
    mod = ctx.module(TU)
    for what in ('vc_ip_from', 'vc_sa_from'):
        for dom in (V4, V6):
            eng, st, off = setup(ctx, mod, ('ip_address::from_string' if what == 'vc_ip_from' else 'socket_address(string_view)') + f'[{"ipv4" if dom == V4 else "ipv6"}]'); st.tags['dom'] = dom
            view, n, hasnul = text_model(eng, st, off); port = BV('port', 16); p = st.new('fresh', 'result', off('ip') if what == 'vc_ip_from' else off('sa')); seen = set()
            for q, oc in eng.call(st, what, [p, view, n] + ([port] if what == 'vc_sa_from' else []) + [dom]):
                g = q.ghost['parsed']; seen.add((oc[0], isinstance(g, tuple)))
                if oc[0] == 'ret':
                    if not eng.prove(q, isinstance(g, tuple), 'post/only-an-address-is-accepted', f'{g}'): continue
                    eng.prove(q, z3.Not(hasnul), 'post/whole-text-is-the-address', 'a text with an embedded NUL is accepted although only its beginning was parsed')
                    if what == 'vc_ip_from': ip_is(eng, q, off, p, dom, list(g))
                    else: sa_is(eng, q, off, p, dom, list(g), port)
                else:
                    eng.prove(q, oc[0] == 'throw', 'post/refused-by-exception', f'{oc}')
                    eng.prove(q, True if g == 'refused' else hasnul, 'post/an-address-is-not-refused')
            eng.prove(State(), ('ret', True) in seen and ('throw', False) in seen, 'cover/accepted-and-refused', str(seen))


def ntop(eng, ctx, lens):
    def h(e, q, i, a, fn):
        af, src, dst, size = a; af = norm(af)
        if not isinstance(af, int): raise Unsupported('inet_ntop family')
        if af not in (V4, V6): return 0
        m = 4 if af == V4 else 16; b = strings.bytes_at(e, q, src, m)
        e.prove(q, not any(x is UNDEF for x in b), 'memory/uninitialised-value', 'address bytes')
        q.ghost['ntop'] = (af, tuple(b)); out = []
        if not isinstance(size, int): size = norm(size)
        if not isinstance(size, int): raise Unsupported('inet_ntop size')
        for L in lens(af):
            r = q.clone(); r.forks += 1
            if L + 1 > (size & 0xffffffff): r.ghost['nofit'] = True; out.append((r, 0)); continue
            t = [BV(f'txt{k}', 8) for k in range(L)]; r.pc += [x != 0 for x in t]
            ok = True
            for k, x in enumerate(t + [0]): ok = ok and e.store(r, Ptr(dst.obj, add(dst.off, k)), 1, x, 'i8')
            if not ok: continue
            r.ghost['text'] = tuple(t); out.append((r, dst))
        return out
    eng.contract_first('=inet_ntop', h)


def lens(af): return range(7, 16) if af == V4 else range(2, 46)


def part_to_string4(ctx): to_string(ctx, V4)
def part_to_string6(ctx): to_string(ctx, V6)


def to_string(ctx, dom):
    mod = ctx.module(TU)
    eng, st, off = setup(ctx, mod, f'ip_address::to_string[{"ipv4" if dom == V4 else "ipv6"}]'); ntop(eng, ctx, lens)
    a, d = ip_obj(eng, st, off, dom); p = st.new('fresh', 'string', 32); n = 0
    for q, oc in eng.call(st, 'vc_ip_text', [a, p]):
        if not eng.prove(q, oc[0] == 'ret', 'post/always-has-a-text', f'{oc}' + (' (the buffer given to inet_ntop is too small)' if q.ghost.get('nofit') else '')): continue
        n += 1; af, b = q.ghost['ntop']; t = q.ghost['text']
        eng.prove(q, af == dom and len(b) == len(d) and And(*[eq(x, y, 8) for x, y in zip(b, d)]), 'post/text-of-this-address', 'the bytes or family given to inet_ntop are not those of the address')
        L, x = strings.std_string(eng, q, p)
        eng.prove(q, L == len(t), 'post/text-length', f'{L} instead of {len(t)}')
        if L == len(t): eng.prove(q, And(*[eq(u, v, 8) for u, v in zip(x, t)]), 'post/text')
    eng.prove(State(), n == len(lens(dom)), 'cover/every-length', str(n))


def sa_is(eng, st, off, p, dom, data, port, what='post/'):
    L = eng.load(st, Ptr(p.obj, off('sa_len')), 4, 'i32')[0][1]; base = off('sa_storage')
    eng.prove(st, L is not UNDEF and eq(L, off('sin' if dom == V4 else 'sin6'), 32), what + 'length-of-the-family', f'{L}')
    fam = eng.load(st, Ptr(p.obj, base), 2, 'i16')[0][1]; eng.prove(st, fam is not UNDEF and eq(fam, dom, 16), what + 'family', f'{fam}')
    pb = strings.bytes_at(eng, st, Ptr(p.obj, base + 2), 2); port = bv(port, 16)
    eng.prove(st, z3.And(bv(pb[0], 8) == z3.Extract(15, 8, port), bv(pb[1], 8) == z3.Extract(7, 0, port)), what + 'port-in-network-order', f'{pb}')
    b = strings.bytes_at(eng, st, Ptr(p.obj, base + off('sin_addr' if dom == V4 else 'sin6_addr')), len(data))
    eng.prove(st, not any(x is UNDEF for x in b) and And(*[eq(u, v, 8) for u, v in zip(b, data)]), what + 'address-bytes-in-network-order', f'{b}')
    if dom == V6:
        for o, n in ((4, 4), (24, 4)): eng.prove(st, eq(eng.load(st, Ptr(p.obj, base + o), n, 'i32')[0][1], 0, 32), what + 'flow-and-scope-are-zero')


def sa_obj(eng, st, off, dom, name='sa'):
    p = st.new('fresh', name, off('sa')); o = st.w(p.obj); m = 4 if dom == V4 else 16
    d = [BV(f'{name}.a{k}', 8) for k in range(m)]; port = BV(f'{name}.port', 16)
    for k in range(off('storage')): o.cells[off('sa_storage') + k] = (1, BV(f'{name}.pad{k}', 8))     # bytes the family does not use may hold anything (filled in by accept / recvfrom)
    del o.cells[off('sa_storage')], o.cells[off('sa_storage') + 1]; o.cells[off('sa_storage')] = (2, dom)
    o.cells[off('sa_storage') + 2] = (1, z3.Extract(15, 8, port)); o.cells[off('sa_storage') + 3] = (1, z3.Extract(7, 0, port))
    a = off('sa_storage') + off('sin_addr' if dom == V4 else 'sin6_addr')
    for k in range(m): o.cells[a + k] = (1, d[k])
    o.cells[off('sa_len')] = (4, off('sin' if dom == V4 else 'sin6'))
    return p, d, port


def part_sa(ctx):
    mod = ctx.module(TU)
    for dom in (V4, V6):
        tag = '[ipv4]' if dom == V4 else '[ipv6]'
        eng, st, off = setup(ctx, mod, 'socket_address(ip_address, port)' + tag); a, d = ip_obj(eng, st, off, dom); p = st.new('fresh', 'sa', off('sa')); port = BV('port', 16)
        for q, oc in eng.call(st, 'vc_sa_ctor', [p, a, port]): eng.prove(q, oc[0] == 'ret', 'post/returns'); sa_is(eng, q, off, p, dom, d, port)
        eng, st, off = setup(ctx, mod, 'socket_address::ip, port, domain, data' + tag); p, d, port = sa_obj(eng, st, off, dom); r = st.new('fresh', 'ip', off('ip')); n = st.new('fresh', 'n', 8)
        for q, oc in eng.call(st.clone(), 'vc_sa_ip', [p, r]): eng.prove(q, oc[0] == 'ret', 'post/returns'); ip_is(eng, q, off, r, dom, d)
        for q, oc in eng.call(st.clone(), 'vc_sa_domain', [p]): eng.prove(q, oc[0] == 'ret' and eq(oc[1], dom, 32), 'post/domain')
        for q, oc in eng.call(st.clone(), 'vc_sa_port', [p]): eng.prove(q, oc[0] == 'ret', 'post/returns'); eng.prove(q, bv(oc[1], 16) == port, 'post/port-in-host-order')
        for q, oc in eng.call(st.clone(), 'vc_sa_data', [p, n]):
            eng.prove(q, oc[0] == 'ret' and isinstance(oc[1], Ptr) and oc[1].obj == p.obj and oc[1].off == off('sa_storage'), 'post/data-is-the-storage'); eng.prove(q, eq(eng.load(q, n, 4, 'i32')[0][1], off('sin' if dom == V4 else 'sin6'), 32), 'post/data-length')
        for q, oc in eng.call(st, 'vc_sa_mutable', [p, n]):
            v = eng.load(q, n, 8, 'ptr')[0][1]
            eng.prove(q, oc[0] == 'ret' and isinstance(oc[1], Ptr) and oc[1].obj == p.obj and oc[1].off == off('sa_storage') and isinstance(v, Ptr) and v.obj == p.obj and v.off == off('sa_len'), 'post/mutable-data-is-the-storage-and-its-length')
        for db in (V4, V6):
            eng, st, off = setup(ctx, mod, 'socket_address::operator==' + tag); a, x, pa = sa_obj(eng, st, off, dom, 'a'); b, y, pb = sa_obj(eng, st, off, db, 'b')
            same = z3.And(pa == pb, *[u == v for u, v in zip(x, y)]) if dom == db else z3.BoolVal(False)
            for q, oc in eng.call(st, 'vc_sa_eq', [a, b]): eng.prove(q, oc[0] == 'ret', 'post/returns'); eng.prove(q, boolterm(oc[1]) == same, 'post/equal-iff-same-endpoint')
        eng, st, off = setup(ctx, mod, 'socket_address::to_string' + tag); p, d, port = sa_obj(eng, st, off, dom); out = st.new('fresh', 'string', 32)
        ntop(eng, ctx, (lambda af: (7, 15)) if dom == V4 else (lambda af: (2, 45)))
        def dec(e, q, i, a, fn):
            e.prove(q, eq(a[1], z3.ZeroExt(16, port), 32), 'post/text-of-the-port', f'{a[1]}'); res = []
            for L in (1, 5):
                r = q.clone(); t = [BV(f'dig{k}', 8) for k in range(L)]; r.ghost['dec'] = tuple(t)
                b = r.new('heap', 'number text', 8); o = r.w(b.obj)
                for k, x in enumerate(t + [0]): o.cells[k] = (1, x)
                so = r.w(a[0].obj); so.cells[a[0].off] = (8, b); so.cells[a[0].off + 8] = (8, L); so.cells[a[0].off + 16] = (8, 7); res.append((r, None))
            return res
        eng.contract_first('=std::to_string', dec)
        for q, oc in eng.call(st, 'vc_sa_text', [p, out]):
            if not eng.prove(q, oc[0] == 'ret', 'post/always-has-a-text', f'{oc}'): continue
            L, x = strings.std_string(eng, q, out); af, b = q.ghost['ntop']; w = list(q.ghost['text']) + [ord(':')] + list(q.ghost['dec'])
            eng.prove(q, af == dom and And(*[eq(u, v, 8) for u, v in zip(b, d)]), 'post/text-of-this-address')
            eng.prove(q, L == len(w) and And(*[eq(u, v, 8) for u, v in zip(x, w)]), 'post/address-colon-port', f'length {L}')
    eng, st, off = setup(ctx, mod, 'socket_address::make_uninitialised'); p = st.new('fresh', 'sa', off('sa'))
    for q, oc in eng.call(st, 'vc_sa_uninit', [p]):
        eng.prove(q, oc[0] == 'ret', 'post/returns'); eng.prove(q, eq(eng.load(q, Ptr(p.obj, off('sa_len')), 4, 'i32')[0][1], off('storage'), 32), 'post/room-for-every-family')
    eng, st, off = setup(ctx, mod, 'socket_address of another family'); fam = BV('family', 16); st.pc += [fam != V4, fam != V6]
    p, d, port = sa_obj(eng, st, off, V4); st.w(p.obj).cells[off('sa_storage')] = (2, fam); r = st.new('fresh', 'ip', off('ip'))
    for f, args in (('vc_sa_ip', [p, r]), ('vc_sa_domain', [p]), ('vc_sa_port', [p])):
        for q, oc in eng.call(st.clone(), f, args): eng.prove(q, oc[0] == 'throw', 'post/unsupported-family-is-refused', f'{f} {oc}')


PARTS = [part_ip, part_from_string, part_to_string4, part_to_string6, part_sa]
