#!/usr/bin/env python3
"""Write and verify a planted bug: seed.py ID PROPERTY FILE < spec.

Development tool; no check uses it.  The spec on standard input is JSON:
  edits: [[file, old, new], ...], needs, breaks, demo (body of main.rs), tz (optional)
"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# Builds main.rs against the library in the current directory and runs it.
exec python3 "$(dirname "$0")/run.py" "$PWD"
'''
RUN = '''import os, shutil, subprocess, sys, tempfile
here, repo = os.path.dirname(os.path.abspath(__file__)), sys.argv[1]
with tempfile.TemporaryDirectory() as d:
    os.mkdir(d + '/src')
    shutil.copy(here + '/main.rs', d + '/src/main.rs')
    if os.path.exists(repo + '/Cargo.lock'):
        shutil.copy(repo + '/Cargo.lock', d + '/Cargo.lock')
    with open(d + '/Cargo.toml', 'w') as f:
        f.write('[package]\\nname = "demo"\\nversion = "0.1.0"\\nedition = "2024"\\n[dependencies]\\nikal = { path = "%s" }\\nchrono = "*"\\n[workspace]\\n' % repo)
    env = dict(os.environ, TZ='@TZ@', CARGO_TARGET_DIR=d + '/target')
    r = subprocess.run(['cargo', 'build', '--offline', '-q'], cwd=d, env=env)
    if r.returncode:
        sys.exit(2)
    try:
        r = subprocess.run([d + '/target/debug/demo'], cwd=d, env=env, timeout=60)
    except subprocess.TimeoutExpired:
        sys.exit(1)
    sys.exit(0 if r.returncode == 0 else 1)
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def main():
    bid, prop = sys.argv[1:3]
    s = json.load(sys.stdin)
    d = '%s/seeded/%s' % (V, bid)
    os.makedirs(d, exist_ok=True)
    assert not sh('git -C /repo status --porcelain').stdout
    try:
        for f, a, b in s['edits']:
            p = '/repo/' + f
            t = open(p).read()
            assert t.count(a) == 1, (f, a, t.count(a))
            open(p, 'w').write(t.replace(a, b))
        diff = sh('git -C /repo diff').stdout
        base = sh('git -C /repo diff -U0').stdout
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/main.rs', 'w').write(s['demo'])
        open(d + '/demo.sh', 'w').write(DEMO)
        os.chmod(d + '/demo.sh', 0o755)
        open(d + '/run.py', 'w').write(RUN.replace('@TZ@', s.get('tz', 'UTC0')))
        json.dump({'property': prop, 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        print('tests:', sh('/tmp/t.sh').stdout.strip())
        r = sh('bash %s/demo.sh' % d, cwd='/repo')
        print('patched demo:', r.returncode, r.stderr[-300:])
    finally:
        sh('git -C /repo checkout -- .')
    r = sh('bash %s/demo.sh' % d, cwd='/repo')
    print('unpatched demo:', r.returncode, r.stderr[-300:])
    # every removed line must stem from the original repository
    import re
    f = None
    for l in base.splitlines():
        if l.startswith('--- a/'):
            f = l[6:]
        m = re.match(r'@@ -(\d+)(?:,(\d+))?', l)
        if m:
            a, n = int(m[1]), int(m[2] or 1)
            if n:
                b = sh('git -C /repo blame -s -L %d,+%d b47adf5..HEAD -- %s' % (a, n, f)).stdout
                new = [x for x in b.splitlines() if not x.startswith('^')]
                print('lines', f, a, n, 'NOT ORIGINAL: %s' % new if new else 'original')
            else:
                print('insertion', f, a)
    sh('/tmp/t.sh')


main()
