#!/usr/bin/env python3
"""seed.py confirm ID…   confirm planted changes in /tmp/seedwt (builds, stable tests pass, demo 0/nonzero)
   seed.py check ID…     apply each to /repo, run its property's quick check, undo
Used by hand while developing; no check reads it."""
import json, os, subprocess, sys, time
V = '/verif'; WT = '/tmp/seedwt'
BASE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
def sh(cmd, cwd=None, t=900):
    return subprocess.run(['bash', '-c', cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
ENV = "sed 's#^cd /repo#cd /tmp/seedwt#' /opt/vp/env.sh > /tmp/seedenv.sh; . /tmp/seedenv.sh; "
def tests():
    r = sh(ENV + 'cargo test --workspace --no-fail-fast --offline --features "$FEATURES" -- --test-threads 8 > /tmp/seed.log 2>&1; python3 /opt/vp/results.py /tmp/seed.json cargo:/tmp/seed.log', WT)
    try:
        return BASE - set(json.load(open('/tmp/seed.json'))['passed'])
    except Exception as e:
        return {r.stdout[-800:]}
def confirm(i):
    d = f'{V}/seeded/{i}'
    assert os.path.exists(d + '/meta.json'), i
    sh('git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', WT)
    t0 = time.time()
    a = sh(f'unset VERIF_SEED; rm -rf /tmp/seeddemo && cp -r {d} /tmp/seeddemo && rm -f /tmp/seeddemo/*.diff /tmp/seeddemo/meta.json && bash /tmp/seeddemo/demo.sh', WT, 400)
    ta = time.time() - t0
    p = sh(f'git apply {d}/patch.diff', WT)
    if p.returncode: return f'{i}: patch does not apply {p.stdout}'
    bad = tests()
    b = sh('bash /tmp/seeddemo/demo.sh', WT, 400)
    sh('git checkout -q -- .', WT)
    ok = a.returncode == 0 and b.returncode != 0 and not bad
    return f'{i}: {"OK" if ok else "BAD"} demo clean {a.returncode} ({ta:.0f}s) patched {b.returncode} failing {sorted(bad)[:3]}' + ('' if ok else '\n--clean\n' + a.stdout[-1500:] + '\n--patched\n' + b.stdout[-1500:]) + ('' if not ok else '\n     ' + ([''] + [l for l in b.stdout.splitlines() if l.startswith(('  left','assert')) or 'panicked' in l])[-1][:200])
def check(i):
    d = f'{V}/seeded/{i}'
    c = json.load(open(d + '/meta.json'))['property']
    p = sh(f'git apply {d}/patch.diff', '/repo')
    if p.returncode: return f'{i}: patch does not apply'
    try:
        t0 = time.time()
        r = sh(f'VERIF_SEED=1 VERIF_TIER=quick ./bin/check run {c} 2>/dev/null', V)
    finally:
        sh('git checkout -q -- .', '/repo')
    v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
    hit = r.returncode == 1 and any(f'property={c} ' in l for l in v)
    return f'{i}: {c} {"CAUGHT" if hit else "MISSED"} rc {r.returncode} {time.time()-t0:.0f}s {" ".join(os.path.basename(x.split("replay=")[1]) for x in v)} {r.stdout.strip().splitlines()[-1][:120] if r.stdout.strip() else ""}'
if __name__ == '__main__':
    ids = sys.argv[2:] or sorted(os.listdir(V + '/seeded'))
    for i in ids:
        print((confirm if sys.argv[1] == 'confirm' else check)(i), flush=True)
