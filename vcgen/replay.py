"""Replay of a failed obligation against the real code: replay/<pid>.cpp is a driver, compiled with /repo's current
sources, that searches for a concrete failing input / schedule of the property.  It only runs when the proof fails
or cannot be completed; it never decides that the property holds."""
import os, subprocess, tempfile, shutil, time, re
from .run import VERIF, REPO, OUT


def z3_version():
    import z3
    return z3.get_version_string()


def build(src, out, flags, srcs, log):
    cmd = ['clang++-18' if shutil.which('clang++-18') else 'clang++', '-std=c++20', '-g', '-pthread', f'-I{VERIF}/tu/include', f'-I{REPO}/include', f'-I{REPO}', f'-I{VERIF}/replay', '-DLIBCORO_FEATURE_NETWORKING', '-w', *flags, src, *[f'{REPO}/{x}' for x in srcs], '-o', out]
    r = subprocess.run(cmd, capture_output=True, text=True)
    log.append('$ ' + ' '.join(cmd))
    if r.returncode: log.append(r.stderr[:3000])
    return r.returncode == 0


def replay(ctx, spec, pid, bad, t0):
    """-> (failing input found?, log)"""
    src = os.path.join(VERIF, 'replay', pid.lower() + '.cpp'); log = []
    if not os.path.exists(src): return False, ''
    head = open(src).read(4000)
    runs = []                       # // RUN: <flags> | <repo sources> | <timeout>
    for m in re.finditer(r'^// RUN:(.*)$', head, re.M):
        a = [x.strip() for x in m[1].split('|')]
        runs.append((a[0].split(), a[1].split(), int(a[2]), a[3].split() if len(a) > 3 else []))
    d = tempfile.mkdtemp(prefix='vc-r-')
    try:
        builds = []
        for k, (flags, srcs, tmo, args) in enumerate(runs):
            if build(src, f'{d}/r{k}', flags, srcs, log): builds.append((k, flags, tmo, args))
        for k, flags, tmo, args in builds:
            left = 840 - (time.time() - t0)
            if left < 15: break
            env = dict(os.environ, TSAN_OPTIONS='halt_on_error=1 exitcode=66', ASAN_OPTIONS='detect_leaks=1 exitcode=66', UBSAN_OPTIONS='halt_on_error=1', VERIF_SEED=str(ctx.seed))
            cmd = [f'{d}/r{k}', *args]
            p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', cwd=d, env=env, start_new_session=True)
            try: o, _ = p.communicate(timeout=min(tmo, left)); rc = p.returncode
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, 9); o, _ = p.communicate(); rc = 'timeout'
            log.append(f'flags {" ".join(flags)}: exit {rc}\n{o[-4000:]}')
            if rc == 'timeout' and 'WATCHDOG' not in o: continue
            if rc != 0: return True, '\n'.join(log)
        return False, '\n'.join(log)
    finally: shutil.rmtree(d, ignore_errors=True)
