#!/usr/bin/env python3
"""check.py ID: decide one property by symbolic execution of the code in /repo.

Builds the executor (sx/), the LLVM IR of the property's harnesses together
with the library as it is now (harness/ -> ../repo), runs every harness of the
property symbolically (spec.py), replays counterexamples natively, and writes
evidence/ID.json.

exit 0: every assertion holds on every path within the bounds
exit 1: VIOLATION property=ID replay=FILE (reproduced natively)
exit 2: no answer (build failure, unsupported code, time, not reproduced)
"""
import hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import spec

TOOLCHAIN = 'stable-x86_64-unknown-linux-gnu'
T0 = time.time()


def env(**kw):
    e = {k: v for k, v in os.environ.items() if not k.startswith(('CARGO_ENCODED', 'RUSTFLAGS', 'CARGO_BUILD', 'CARGO_PROFILE'))}
    e['RUSTUP_TOOLCHAIN'] = TOOLCHAIN
    e['CARGO_NET_OFFLINE'] = 'true'
    e.update(kw)
    return e


def die(msg):
    print('ERROR ' + msg)
    sys.exit(2)


class Build(Exception):
    pass


def cargo(args, cwd, what):
    r = subprocess.run(['cargo'] + args, cwd=cwd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    if r.returncode and what != 'the executor':
        raise Build(r.stdout)
    if r.returncode:
        die('%s does not build:\n%s' % (what, r.stdout[-4000:]))


def build_sx():
    cargo(['build', '--release', '--offline', '--target-dir', V + '/target/sx'], V + '/sx', 'the executor')
    return V + '/target/sx/release/sx'


def build_ir(feature):
    td = V + '/target/ir-' + feature
    cargo(['rustc', '--release', '--offline', '--lib', '--crate-type', 'cdylib', '--features', feature, '--target-dir', td,
           '--', '--emit=llvm-ir', '-C', 'no-vectorize-loops', '-C', 'no-vectorize-slp'], V + '/harness', 'the harness')
    return td + '/release/deps/harness.ll'


def build_native(feature, profile):
    td = V + '/target/native-' + feature
    cargo(['build', '--offline', '--profile', profile, '--features', feature + ',replay', '--bin', 'replay', '--target-dir', td],
          V + '/harness', 'the replay program')
    return td + '/' + ('debug' if profile == 'dev' else profile) + '/replay'


def replay_text(entry, e, inputs):
    return '# %s\n# %s\n' % (entry, json.dumps(e)) + ''.join('%s %s\n' % (n, v) for n, v, w in inputs)


def rejected(pid, tier, seed, p, text):
    """The uses of the macros in the harness do not compile: where every error
    is in such a use, the macros break their property."""
    errors = [x for x in re.split(r'\n(?=error|warning)', '\n' + text) if x.lstrip().startswith('error')]
    where = [re.search(r'--> (\S+?):', x) for x in errors if 'could not compile' not in x]
    files = {w.group(1) if w else '?' for w in where}
    if not p.get('compiles') or files != {'src/%s.rs' % p['feature']}:
        die('the harness does not build:\n' + text[-4000:])
    f = '%s/evidence/replay/%s-compile.txt' % (V, pid)
    os.makedirs(os.path.dirname(f), exist_ok=True)
    open(f, 'w').write(''.join(errors))
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', violations=1, wall_s=round(time.time() - T0, 1), assumptions=p['assumptions'],
              coverage=dict(states=1, transitions=1, traces_validated_against_impl=1, samples=[dict(compile=errors[0][:1000])],
                            explanation='uses of the macros that must be accepted do not compile: nothing was executed'))
    json.dump(ev, open('%s/evidence/%s.json' % (V, pid), 'w'), indent=1)
    print('VIOLATION property=%s replay=%s' % (pid, f))
    print('  a use of a macro does not compile: ' + errors[0].strip()[:1000])
    sys.exit(1)


def native(rp, entry, e, path, timeout=60):
    try:
        r = subprocess.run([rp, entry, path], env=env(**e), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 'timeout', ''


def reproduces(kind, ident, rc, out):
    if kind == 'assert':
        return rc == 1 and ('SX-ASSERT ' + ident) in out
    if kind == 'kf':
        return ('SX-KF ' + ident) in out
    if kind == 'hang':
        return rc == 'timeout'
    # a panic, an abort, memory corruption: any abnormal end
    return rc not in (0, 77)


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    p = spec.P[pid]
    feature = p['feature']
    runs = [dict(r) for r in p['runs'] if tier == 'thorough' or r['tier'] == 'quick']
    if tier == 'thorough':
        for r in runs:
            r['env'] = dict(r['env'], **r['deep'])
    if '--only' in sys.argv:
        runs = [r for r in runs if sys.argv[sys.argv.index('--only') + 1] in r['name']]
    work = '%s/target/run-%s' % (V, pid.lower())
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    with ThreadPoolExecutor(3) as ex:
        a, b, c = ex.submit(build_sx), ex.submit(build_ir, feature), ex.submit(build_native, feature, 'dev')
        try:
            sx, ll, rp = a.result(), b.result(), c.result()
        except Build as x:
            rejected(pid, tier, seed, p, str(x))
    built = time.time() - T0
    hard = float(os.environ.get('VERIF_LIMIT', '780' if tier == 'quick' else '6000'))

    def run(r):
        out = '%s/%s.json' % (work, r['name'])
        left = hard - (time.time() - T0)
        if os.path.exists(work + '/stop') and time.time() - os.path.getmtime(work + '/stop') > 40:
            return r, None, 'not run: another run found a violation'
        if left < 5:
            return r, None, 'no time left'
        cmd = [sx, '--ir', ll, '--entry', r['entry'], '--out', out, '--time', str(int(left)), '--max-steps', str(r['max_steps']), '--stop', work + '/stop']
        if r['jobs'] > 1:
            cmd += ['--jobs', str(r['jobs'])]
        if r['fork_select']:
            cmd += ['--fork-select']
        if tier == 'thorough' and r['crosscheck']:
            cmd += ['--crosscheck']
        for k, v in r['env'].items():
            cmd += ['--env', '%s=%s' % (k, v)]
        t = time.time()
        q = subprocess.run(cmd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        fs = []
        try:
            fs.append(json.load(open(out)))
            for f in sorted(os.listdir(work)):
                if f.startswith(r['name'] + '.json.'):
                    fs.append(json.load(open(work + '/' + f)))
        except Exception as e:
            return r, None, 'no result (%s): %s' % (e, q.stdout[-1500:])
        if q.returncode:
            return r, None, 'executor failed: ' + q.stdout[-1500:]
        d = dict(fs[0])
        for f in fs[1:]:
            for k, v in f.items():
                if k in ('max_path_instructions', 'max_query_seconds'):
                    d[k] = max(d[k], v)
                elif k == 'complete':
                    d[k] = d[k] and v
                elif isinstance(v, (int, float)) and not isinstance(v, bool):
                    d[k] += v
                elif k in ('asserts', 'covers'):
                    for n, x in v.items():
                        d[k][n] = d[k].get(n, 0) + x
                elif k == 'functions':
                    for n, x in v.items():
                        d[k][n] = d[k].get(n, []) + x
                elif isinstance(v, list):
                    d[k] = d[k] + v
        d['wall'] = time.time() - t
        return r, d, None

    # the longest first
    order = sorted(runs, key=lambda r: -r['cost'])
    with ThreadPoolExecutor(int(os.environ.get('VERIF_JOBS', '8'))) as ex:
        res = list(ex.map(run, order))

    known = [json.loads(l) for l in open(V + '/known_findings.jsonl') if l.strip()] if os.path.exists(V + '/known_findings.jsonl') else []
    known = {k['id']: k for k in known if k.get('property') == pid and k.get('status') == 'known'}
    problems, viols, kfs, validated, samples = [], [], {}, 0, []
    tot = {}
    asserts, covers, funcs = {}, {}, {}
    per = {}
    users = {}

    def user():
        if 'rp' not in users:
            users['rp'] = build_native(feature, 'user')
        return users['rp']

    rdir = V + '/evidence/replay'
    os.makedirs(rdir, exist_ok=True)
    for r, d, err in res:
        if err:
            problems.append('%s: %s' % (r['name'], err))
            continue
        for k in ('paths', 'ended', 'assumed_away', 'instructions', 'queries', 'queries_sat', 'queries_unsat', 'queries_unknown', 'queries_cached',
                  'domain_decisions', 'interval_decisions', 'domain_decisions_confirmed_by_solver', 'solver_seconds'):
            tot[k] = tot.get(k, 0) + d[k]
        tot['max_query_seconds'] = max(tot.get('max_query_seconds', 0), d['max_query_seconds'])
        tot['solver'] = d['solver']
        for k, v in d['asserts'].items():
            asserts[k] = asserts.get(k, 0) + v
        for k, v in d['covers'].items():
            covers[k] = covers.get(k, 0) + v
        for f, ls in d['functions'].items():
            funcs.setdefault(f, set()).update((a.split('/repo/')[-1], b) for a, b in ls)
        per[r['name']] = dict(entry=r['entry'], bound=r['bound'], env=r['env'], paths=d['paths'], assumed_away=d['assumed_away'], queries=d['queries'],
                              solver_seconds=round(d['solver_seconds'], 2), seconds=round(d['wall'], 1), longest_path_instructions=d['max_path_instructions'])
        real = [v for v in d['violations'] if not (v['kind'] == 'kf' and v['id'] in known)]
        for e in d['errors'][:3]:
            problems.append('%s: %s' % (r['name'], e))
        if not d['complete'] and not real:
            problems.append('%s: not completed' % r['name'])
        if not real:
            for c in r['covers']:
                if c not in d['covers']:
                    problems.append('%s: never reached "%s"' % (r['name'], c))
            if not d['asserts'] and r['asserts']:
                problems.append('%s: no assertion was reached' % r['name'])
        for v in d['violations']:
            txt = replay_text(r['entry'], r['env'], v['inputs'])
            f = '%s/%s-%s.txt' % (rdir, pid, hashlib.sha1(txt.encode()).hexdigest()[:12])
            open(f, 'w').write(txt)
            rc, o = native(rp, r['entry'], r['env'], f)
            ok = reproduces(v['kind'], v['id'], rc, o)
            where = 'dev'
            if not ok:
                rc2, o2 = native(user(), r['entry'], r['env'], f)
                ok = reproduces(v['kind'], v['id'], rc2, o2)
                where = 'release'
            if not ok:
                problems.append('%s: counterexample of %s "%s" at %s does not reproduce natively (exit %s: %s) %s'
                                % (r['name'], v['kind'], v['id'], v['at'][:300], rc, o.strip()[-300:], f))
                continue
            if v['kind'] == 'kf' and v['id'] in known:
                kfs.setdefault(v['id'], f)
            else:
                viols.append((v, f, r, o, where))
        # complete paths run natively must end the same way
        for s in d['samples'][:6]:
            if d['violations']:
                break
            f = '%s/%s.sample' % (work, r['name'])
            open(f, 'w').write(replay_text(r['entry'], r['env'], s['inputs']))
            rc, o = native(rp, r['entry'], r['env'], f)
            cov = [l[9:] for l in o.split('\n') if l.startswith('SX-COVER ')]
            if rc != 0 or 'SX-DONE' not in o or cov != s['covers']:
                problems.append('%s: executor and native run disagree on a sample path: %s %s vs %s' % (r['name'], rc, o[-300:], s['covers']))
            else:
                validated += 1
            if len(samples) < 12:
                by, order_ = {}, []
                for n, x, w in s['inputs']:
                    if n.endswith(']') and '[' in n:
                        b = n[:n.rindex('[')]
                        by.setdefault(b, []).append(int(x) & 255)
                    else:
                        by[n] = int(x)
                by = {k: (bytes(v).decode('utf8', 'replace') if isinstance(v, list) else v) for k, v in by.items()}
                samples.append(dict(run=r['name'], inputs=by, reaches=s['covers']))
    ex_used = [x for x in p.get('executor_assumptions', spec.EXECUTOR)]
    wall = time.time() - T0
    coverage = dict(
        states=int(tot.get('paths', 0)), transitions=int(tot.get('instructions', 0)),
        traces_validated_against_impl=validated, samples=samples or [dict(none='no complete path')],
        explanation='states: execution paths of the compiled code explored symbolically (each stands for every input satisfying its path condition); '
                    'transitions: LLVM instructions executed symbolically; traces: complete paths whose model was run natively and reached the same points',
        exhaustive=not problems and not viols,
        paths_ended=int(tot.get('ended', 0)), paths_assumed_away=int(tot.get('assumed_away', 0)),
        queries=int(tot.get('queries', 0)), queries_sat=int(tot.get('queries_sat', 0)), queries_unsat=int(tot.get('queries_unsat', 0)),
        queries_unknown=int(tot.get('queries_unknown', 0)), queries_cached=int(tot.get('queries_cached', 0)),
        single_byte_decisions=int(tot.get('domain_decisions', 0)),
        interval_decisions=int(tot.get('interval_decisions', 0)),
        decisions_confirmed_by_solver=int(tot.get('domain_decisions_confirmed_by_solver', 0)),
        solver='z3 ' + str(tot.get('solver', '')), solver_seconds=round(tot.get('solver_seconds', 0), 2),
        max_query_seconds=round(tot.get('max_query_seconds', 0), 2),
        assertions_checked=asserts, points_reached=covers, harnesses=per,
        functions_encoded={f: len(ls) for f, ls in sorted(funcs.items())},
        source_lines_executed=sum(len(x) for x in funcs.values()),
        bounds=p['bounds'], outside=p['outside'], known_findings=sorted(kfs), build_seconds=round(built, 1), problems=problems[:20])
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', coverage=coverage,
              assumptions=p['assumptions'] + ex_used, wall_s=round(wall, 1), violations=len(viols))
    os.makedirs(V + '/evidence', exist_ok=True)
    json.dump(ev, open('%s/evidence/%s.json' % (V, pid), 'w'), indent=1)
    for i, f in sorted(kfs.items()):
        print('KNOWN-FINDING: property=%s %s (%s)' % (pid, known[i]['what'], f))
    print('%s %s: %d harness runs, %d paths, %d queries, solver %.1fs, wall %.1fs (build %.1fs), %d traces validated'
          % (pid, tier, len(per), tot.get('paths', 0), tot.get('queries', 0), tot.get('solver_seconds', 0), wall, built, validated))
    if '-v' in sys.argv:
        for n, x in sorted(per.items(), key=lambda x: -x[1]['seconds']):
            print('  %-40s %6d paths %6d queries %6.1fs solver %6.1fs' % (n, x['paths'], x['queries'], x['seconds'], x['solver_seconds']))
        print('  covers', covers)
    for v, f, r, o, where in viols:
        print('VIOLATION property=%s replay=%s' % (pid, f))
        print('  %s "%s" in %s (%s build), at %s\n  %s' % (v['kind'], v['id'], r['name'], where, v['at'][:400], o.strip()[-600:]))
    for x in problems[:20]:
        print('PROBLEM ' + x[:1500])
    if viols:
        sys.exit(1)
    if problems:
        sys.exit(2)


main()
