#!/usr/bin/env python3-vt
"""check.py <property>: proves every obligation of the property from /repo's current source.

exit 0  every obligation was discharged (known findings are printed)
exit 1  VIOLATION property=<id> replay=<path> [no-failing-input-found]
        an engine limit or extraction failure (never a failed obligation) falls back to the bounded
        replay driver: when that driver runs and finds nothing the exit is 0, the run says BOUNDED and
        its evidence has level "bounded" for this run; it is never counted as proved
exit 2  the check could not decide and there is no bounded stand-in that ran
"""
import sys, os, importlib, time, json, re, traceback, subprocess, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from vcgen.run import Ctx, ExtractionError, REPO
from vcgen import replay as rp
from vcgen.core import Unsupported, Budget


def strip_lines(s): return re.sub(r':\d+', '', s)


def load_known(pid):
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p)) if k.get('property') == pid and k.get('status') == 'known']


def matches(k, o):
    """a known finding names the function, the obligation and the site that fails"""
    return re.search(k['fn'], o.fn) and re.search(k['kind'], o.kind) and re.search(k.get('where', ''), o.where) and re.search(k.get('detail', ''), o.detail, re.S)


def main():
    pid = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    verbose = '-v' in sys.argv
    try: seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError: seed = 1
    t0 = time.time()
    ctx = Ctx(pid, tier, seed)
    for a in sys.argv:
        if a.startswith('--part='): ctx.only_parts = a[7:]
    spec = importlib.import_module('specs.' + pid.lower())
    error = None
    try: ctx.go(spec)
    except (Unsupported, Budget, ExtractionError, subprocess.CalledProcessError) as e:
        error = f'{type(e).__name__}: {e}'
        if verbose: traceback.print_exc()
    except Exception as e:
        error = f'{type(e).__name__}: {e}\n{traceback.format_exc()}'
    if ctx.errors and not error: error = '; '.join(ctx.errors)
    stats, obl = ctx.stats, ctx.obls
    known = load_known(pid)
    bad, kn = {}, {}
    for o in obl:
        if o.ok: continue
        for k in known:
            if matches(k, o): kn.setdefault(k['id'], (k, [])); kn[k['id']][1].append(o); break
        else: bad.setdefault((o.fn, o.kind, strip_lines(o.where)), o)
    if not error and not obl: error = 'no obligation was generated'
    cross = None
    if tier == 'thorough' and not bad and not error:
        cross = ctx.cross
        if cross['disagree']: error = 'cvc5 disagrees with z3: ' + '; '.join(cross['disagree'][:3])
    for s in stats if verbose else []:
        print('  {fn:62s} obl {obl:5d} bad {bad:3d} paths {paths:5d} steps {steps:6d} loops {loops} z3 {z3n} {z3t:.2f}s  {wall:.1f}s'.format(**s))
    proof_wall = time.time() - t0
    failing = None; rlog = ''; ran = False
    if bad or error:
        for o in bad.values(): print(f'FAILED OBLIGATION {o.fn}: {o.kind} at {o.where}: {o.detail[:600 if not verbose else 4000]}')
        if error: print('NOT DECIDED:', error[:3000])
        if not os.environ.get('VC_NOREPLAY'):
            failing, rlog = rp.replay(ctx, spec, pid, list(bad.values()), t0)
            ran = bool(re.search(r'^flags .*: exit 0$', rlog, re.M))
    discharged = sum(o.ok for o in obl)
    how = {}
    for o in obl: how[o.how or 'evaluation'] = how.get(o.how or 'evaluation', 0) + 1
    cov = {
        'obligations': len(obl), 'discharged': discharged,
        'checker_cmd': f'python3-vt check.py {pid}',
        'trusted_base': ['clang 18 (C++ to LLVM IR, coroutine lowering not yet applied)', 'opt-18 sroa/mem2reg', 'vcgen (this VC generator)', 'z3 ' + rp.z3_version()] + ctx.trusted,
        'discharged_by': how,
        'functions_under_contract': [dict(function=s['fn'], obligations=s['obl'], paths=s['paths'], generalised_loops=s['loops'], solver_queries=s['z3n'], solver_s=round(s['z3t'], 3)) for s in stats],
        'source_functions_executed': sorted(ctx.inlined), 'assumed_contracts_used': sorted(ctx.used),
        'solver_s': round(sum(s['z3t'] for s in stats), 3), 'solver_queries': sum(s['z3n'] for s in stats), 'solver_unknown': sum(s['unk'] for s in stats),
        'bounded': ctx.bounded, 'not_covered': ctx.notes,
    }
    if cross: cov['cvc5_cross_check'] = cross
    if error: cov['not_decided'] = error[:2000]
    ev = dict(property=pid, tier=tier, seed=seed, level=getattr(spec, 'LEVEL', 'proof'), coverage=cov, assumptions=ctx.assumptions + [
        'pointer and integer widths of x86-64; the code is analysed at -O0 semantics of clang 18',
        'memory-model reasoning is per-location happens-before through the acquire/release orders checked at each atomic operation, over sequentially consistent interleavings of the atomic operations'] if ctx.concurrent else ctx.assumptions + ['pointer and integer widths of x86-64; the code is analysed at -O0 semantics of clang 18'],
        wall_s=round(time.time() - t0, 2), violations=len(bad) or (1 if failing else 0))
    if error and ran and not bad and not failing:
        ev['level'] = 'other'
        cov['explanation'] = 'BOUNDED RUN: the proof could not be completed on this source, so this run rests on the bounded stand-in driver replay/%s.cpp (stress and scenario search for a failing input, which found none); it is not a proof' % pid.lower()
    if kn: ev['coverage']['known_findings'] = {k: len(v[1]) for k, v in kn.items()}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    for k, v in kn.values(): print(f'KNOWN-FINDING: property={pid} {k["what"]} [{v[0].kind} in {v[0].fn}]')
    print(f'{pid}: {len(obl)} obligations, {discharged} discharged, {len(stats)} proofs, proof {proof_wall:.1f}s, total {time.time()-t0:.1f}s')
    if not bad and not failing and not error: return 0
    if not bad and not failing:
        if ran: print(f'BOUNDED property={pid}: the proof could not be completed on this source ({error.splitlines()[0][:160]}); the bounded stand-in driver found no violation'); return 0
        return 2
    path = os.path.join(HERE, 'out', f'violation-{pid}.txt'); os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as f:
        f.write(f'property {pid}\n')
        for o in bad.values(): f.write(f'\nfailed obligation: {o.kind}\n  function: {o.fn}\n  at: {o.where}\n  {o.detail}\n')
        if error: f.write('\nnot decided: ' + error + '\n')
        f.write('\n--- replay against the real code ---\n' + (rlog or 'no replay driver for this obligation\n'))
    print(f'VIOLATION property={pid} replay={path}' + ('' if failing else ' no-failing-input-found'))
    return 1


sys.exit(main())
