#!/usr/bin/env python3
"""plant.py <spec.py> [id...]: writes seeded/<id>/ from B(id, property, needs, breaks, file, old, new, main, n=1, lib=True)
   (edits may be a list of (file, old, new, n)); confirms it in a scratch copy of /repo."""
import sys, os, subprocess, json, shutil, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
bugs = []
def B(id, prop, needs, breaks, edits, main, lib=True, demo=None, bin=False): bugs.append((id, prop, needs, breaks, edits, main, lib, demo, bin))
exec(open(sys.argv[1]).read())
only = sys.argv[2:]
w = '/tmp/plant/repo'
def sh(c, cwd=w, t=600): return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t)
if not os.path.exists(w):
    os.makedirs('/tmp/plant', exist_ok=True); subprocess.run('cp -a /repo ' + w, shell=True)
sh('git fetch -q /repo main && git reset -q --hard FETCH_HEAD')
env = "CARGO_NET_OFFLINE=true RUSTC_WRAPPER= RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu "
for id, prop, needs, breaks, edits, main, lib, demo, bin in bugs:
    if only and id not in only: continue
    sh('git checkout -q -- .')
    ok = True
    for f, old, new, n in edits:
        p = w + '/' + f; s = open(p).read(); parts = s.split(old)
        if n >= len(parts): print(id, 'OLD NOT FOUND in', f, len(parts) - 1); ok = False; break
        pos = len(old.join(parts[:n])); l0 = s[:pos].count('\n') + 1; l1 = l0 + old.count('\n')
        bl = sh(f'git blame -s -L {l0},{l1} {f}').stdout
        if '872ac13' not in bl: print(id, 'NOTE: no original line in the hunk', f)
        open(p, 'w').write(old.join(parts[:n]) + new + old.join(parts[n:]))
    if not ok: continue
    diff = sh('git diff').stdout
    r = sh(env + "cargo test --workspace --no-fail-fast --offline 2>&1 | grep '^test result\\|^error\\|^test .*FAILED'").stdout
    if 'FAILED' in r or 'error' in r or 'test result' not in r: print(id, 'TESTS FAIL', r[:300]); continue
    d = f'{ROOT}/seeded/{id}'; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(d + '/patch.diff', 'w').write(diff)
    if demo: open(d + '/demo.sh', 'w').write(demo)
    elif bin:
        shutil.copy(ROOT + '/tools/demo_bin.sh', d + '/demo.sh')
        open(d + '/demo.py', 'w').write(open(ROOT + '/tools/demo_bin.py').read() + main)
    else:
        shutil.copy(ROOT + '/tools/demo_template.sh', d + '/demo.sh')
        open(d + '/demo.rs', 'w').write((open(ROOT + '/tools/demo_lib.rs').read() if lib else '') + '\n' + main)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + '/meta.json', 'w'), indent=1)
    r1 = sh(f'bash {d}/demo.sh'); sh('git checkout -q -- .'); r0 = sh(f'bash {d}/demo.sh')
    good = r0.returncode == 0 and r1.returncode not in (0, 2, 124)
    print(id, 'OK' if good else 'DEMO BAD', 'clean', r0.returncode, 'patched', r1.returncode, (r1.stdout + ('' if good else r0.stdout + r0.stderr))[-200:].strip())
    if not good: shutil.rmtree(d)
sh('git checkout -q -- .')
