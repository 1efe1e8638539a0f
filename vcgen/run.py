"""Extraction of /repo's current sources, and the per-property check driver."""
import os, sys, re, subprocess, json, time, hashlib, tempfile, shutil, select, pickle, resource, traceback
from .core import *
from .engine import Engine, Module
from . import std

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VC_REPO', '/repo')
OUT = os.path.join(VERIF, 'out')
CLANG = 'clang++-18' if shutil.which('clang++-18') else 'clang++'
OPT = 'opt-18' if shutil.which('opt-18') else 'opt'
FLAGS = ['-std=c++20', '-fno-access-control', f'-I{VERIF}/tu/include', f'-I{REPO}/include', f'-I{REPO}', '-O0', '-gline-tables-only', '-fno-discard-value-names',
         '-Xclang', '-disable-O0-optnone', '-Xclang', '-disable-llvm-passes', '-DLIBCORO_FEATURE_NETWORKING', '-DLIBCORO_FEATURE_TLS', '-Wno-everything']


class ExtractionError(Exception):
    pass


def tool():
    b = os.path.join(OUT, 'ir2json'); src = os.path.join(VERIF, 'tools', 'ir2json.cpp')
    if not os.path.exists(b) or os.path.getmtime(b) < os.path.getmtime(src):
        os.makedirs(OUT, exist_ok=True)
        t = f'{b}.{os.getpid()}'
        subprocess.run([CLANG, '-std=c++17', '-O1', '-fno-rtti', '-I/usr/lib/llvm-18/include', '-D_GNU_SOURCE', '-D__STDC_CONSTANT_MACROS', '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS',
                        src, '-o', t, '-L/usr/lib/llvm-18/lib', '-lLLVM-18'], check=True)
        os.replace(t, b)
    return b


def extract(tu, flags=()):
    """compile the harness TU (which includes /repo's sources) to LLVM IR and load it"""
    d = tempfile.mkdtemp(prefix='vc-', dir=None)
    try:
        ll, ll2, js = f'{d}/a.ll', f'{d}/b.ll', f'{d}/c.json'
        src = os.path.join(VERIF, 'tu', tu)
        r = subprocess.run([CLANG, *FLAGS, *flags, '-S', '-emit-llvm', src, '-o', ll], capture_output=True, text=True)
        if r.returncode: raise ExtractionError(f'{tu}: the extraction unit does not compile against the current source:\n{r.stderr[:3000]}')
        r = subprocess.run([OPT, '-S', '-passes=sroa<preserve-cfg>,mem2reg', ll, '-o', ll2], capture_output=True, text=True)
        if r.returncode: raise ExtractionError(r.stderr[:2000])
        subprocess.run([tool(), ll2, js], check=True)
        return Module(js)
    finally:
        shutil.rmtree(d, ignore_errors=True)


class Ctx:
    """one property check: collects the obligations of every function under contract"""
    def __init__(s, prop, tier='quick', seed=1):
        s.prop, s.tier, s.seed = prop, tier, seed
        s.t0 = time.time(); s.engines = []; s.mods = {}; s.assumptions = []; s.trusted = []; s.notes = []; s.bounded = []
        s.budget = 420 if tier == 'quick' else 2400
        s.concurrent = True; s.only_parts = None
        s.obls = []; s.stats = []; s.inlined = set(); s.used = set(); s.errors = []; s.cross = dict(queries=0, unsat=0, unknown=0, disagree=[], s=0.0)

    def module(s, tu, flags=()):
        k = (tu, tuple(flags))
        if k not in s.mods: s.mods[k] = extract(tu, flags)
        return s.mods[k]

    def engine(s, mod, name, **k):
        k.setdefault('deadline', s.t0 + s.budget)
        e = Engine(mod, name, **k); std.install(e); e.ctx = s; e.t_start = time.time()
        if s.tier == 'thorough': e.dump_smt = []
        s.engines.append(e)
        return e

    def off(s, mod, name):
        g = mod.globals.get('VC_off_' + name)
        if g is None: raise ExtractionError(f'no offset {name}')
        i = g['init']
        return 0 if i[0] == 'z' else i[2]

    # ---- running the parts of a spec, in parallel
    def go(s, spec):
        parts = getattr(spec, 'PARTS', None)
        if parts is None: parts = [spec.run]
        if s.only_parts: parts = [p for p in parts if re.search(s.only_parts, p.__name__)]
        for tu in getattr(spec, 'TUS', []): s.module(tu) if isinstance(tu, str) else s.module(*tu)
        jobs = list(parts); running = {}
        while jobs or running:
            while jobs and len(running) < 7:
                p = jobs.pop(0); rfd, wfd = os.pipe(); pid = os.fork()
                if pid == 0:
                    os.close(rfd)
                    try: s.child(p, wfd)
                    finally: os._exit(0)
                os.close(wfd); running[rfd] = (pid, p, [])
            for fd in select.select(list(running), [], [])[0]:
                b = os.read(fd, 1 << 20); pid, p, buf = running[fd]
                if b: buf.append(b); continue
                os.close(fd); os.waitpid(pid, 0); del running[fd]
                try: r = pickle.loads(b''.join(buf))
                except Exception: s.errors.append(f'{p.__name__}: the proof process died'); continue
                s.merge(r)

    def child(s, part, wfd):
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
        s.engines, err = [], None
        from . import loops
        try:
            try: part(s)
            except Unsupported:
                # loops with a small constant number of iterations: execute them as they are before generalising
                if any(not o.ok for e in s.engines for o in e.obl): raise
                s.engines = []; loops.FORK_UNROLL = 6; part(s)
        except ExtractionError as e: err = f'ExtractionError: {e}'
        except (Unsupported, Budget) as e: err = f'{type(e).__name__} in {s.engines[-1].fnname if s.engines else part.__name__}: {e}' + (traceback.format_exc() if os.environ.get('VC_TB') else '')
        except BaseException as e: err = f'{type(e).__name__}: {e}\n{traceback.format_exc()}'
        obl = [o for e in s.engines for o in e.obl]
        for o in obl:
            if not o.ok and o.how == 'unknown': err = (err + '; ' if err else '') + f'solver unknown: {o.kind} in {o.fn}'
        cross = None
        if s.tier == 'thorough': cross = cross_check(obl)
        for o in obl: o.smt = None
        now = time.time()
        stats = []
        for k, e in enumerate(s.engines):
            t1 = s.engines[k + 1].t_start if k + 1 < len(s.engines) else now
            stats.append(dict(fn=e.fnname, obl=len(e.obl), bad=sum(not o.ok for o in e.obl), paths=e.paths, steps=e.steps, loops=e.loops_generalised, z3n=e.solver.n, z3t=e.solver.t, unk=e.solver.unknown, wall=t1 - e.t_start))
        r = dict(obl=[(o.fn, o.kind, o.where, o.ok, o.detail if not o.ok else '', o.how) for o in obl], stats=stats, inlined=set().union(*[e.inlined for e in s.engines]) if s.engines else set(),
                 used=set().union(*[e.used_contracts for e in s.engines]) if s.engines else set(), err=err, assumptions=s.assumptions, trusted=s.trusted, notes=s.notes, bounded=s.bounded, cross=cross, concurrent=s.concurrent)
        with os.fdopen(wfd, 'wb') as f: pickle.dump(r, f)

    def merge(s, r):
        for t in r['obl']:
            o = Obligation(*t[:5], how=t[5])
            if o.how == 'unknown': continue
            s.obls.append(o)
        s.stats += r['stats']; s.inlined |= r['inlined']; s.used |= r['used']; s.concurrent = s.concurrent and r['concurrent']
        if r['err']: s.errors.append(r['err'])
        for k in ('assumptions', 'trusted', 'notes', 'bounded'):
            for x in r[k]:
                if x not in getattr(s, k): getattr(s, k).append(x)
        if r['cross']:
            for k in ('queries', 'unsat', 'unknown', 's'): s.cross[k] += r['cross'][k]
            s.cross['disagree'] += r['cross']['disagree']


def cross_check(obl):
    """second back end: every solver-decided obligation of this part again with cvc5"""
    import z3
    out = dict(queries=0, unsat=0, unknown=0, disagree=[], s=0.0); seen = set(); jobs = []
    for o in obl:
        if o.smt is None or not o.ok: continue
        k = frozenset(f.get_id() for f in o.smt)
        if k in seen: continue
        seen.add(k); S = z3.Solver()
        for f in o.smt: S.add(f)
        jobs.append((o, S.to_smt2()))
    t0 = time.time(); d = tempfile.mkdtemp(prefix='vc-x-')
    try:
        for o, txt in jobs:
            f = f'{d}/q.smt2'; open(f, 'w').write('(set-logic ALL)\n' + txt)
            try: r = subprocess.run(['cvc5', '--tlimit=20000', f], capture_output=True, text=True, timeout=60).stdout.split('\n')[0].strip()
            except subprocess.TimeoutExpired: r = 'unknown'
            out['queries'] += 1
            if r == 'unsat': out['unsat'] += 1
            elif r == 'sat': out['disagree'].append(f'{o.kind} in {o.fn}')
            else: out['unknown'] += 1
            if time.time() - t0 > 600: break
    finally: shutil.rmtree(d, ignore_errors=True)
    out['s'] = round(time.time() - t0, 1)
    return out
