#!/usr/bin/env python3
"""development aid: tries planted bugs in a scratch clone (/tmp/w/seed/repo): seedcheck.py [--notest] ID..."""
import subprocess, sys, json, os, time
S = '/tmp/w/seed'; R = S + '/repo'; V = '/verif'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, errors='replace', **k)
ids = [a for a in sys.argv[1:] if not a.startswith('--')]; notest = '--notest' in sys.argv; nocheck = '--nocheck' in sys.argv
stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
sh(f'cd {R} && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD')
b = sh(f'bash {S}/build.sh')
assert b.returncode == 0, b.stdout[-2000:]
def demo(i):
    try: return sh(f'cd {R} && bash {V}/seeded/{i}/demo.sh', timeout=300)
    except subprocess.TimeoutExpired: return None
clean = {i: demo(i) for i in ids}
for i in ids:
    d = f'{V}/seeded/{i}'; prop = json.load(open(d + '/meta.json'))['property']; out = []
    c = clean[i]; out.append('demo clean ' + ('ok' if c and c.returncode == 0 else f'BAD {c and (c.returncode, c.stdout[-300:], c.stderr[-300:])}'))
    a = sh(f'git -C {R} apply {d}/patch.diff')
    if a.returncode: print(i, 'PATCH DOES NOT APPLY', a.stderr); continue
    b = sh(f'bash {S}/build.sh')
    if b.returncode: out.append('DOES NOT BUILD ' + b.stdout[-500:])
    else:
        c = demo(i); out.append('demo patched ' + ('fails ok' if c is None or c.returncode != 0 else 'PASSES (BAD)') + f' [{(c.stdout.strip().splitlines() or [""])[-1][:100] if c else "timeout"}]')
        if not notest:
            bad = stable
            for _ in range(2):
                sh(f'bash {S}/test.sh {S}/o.json'); p = set(json.load(open(f'{S}/o.json'))['passed']); bad = [x for x in bad if x not in p]
                if not bad: break
            out.append('tests ok' if not bad else f'TESTS FAIL {bad[:3]}')
    if not nocheck:
        t = time.time(); r = sh(f'cd {V} && VC_REPO={R} VERIF_SEED=1 VERIF_TIER=quick python3-vt check.py {prop}')
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]; f = [l[:160] for l in r.stdout.splitlines() if l.startswith(('FAILED', 'NOT DEC'))]
        out.append(f'check exit {r.returncode} {v} {f[:2]} {time.time()-t:.0f}s')
    sh(f'cd {R} && git checkout -q -- .')
    print(i, prop, ' | '.join(out), flush=True)
