#!/usr/bin/env python3
"""Run the checks against variants of /repo/src in scratch copies.

sweep.py benign [names…]   behaviour-preserving edits of benign/edits.py: every check must stay quiet
sweep.py seeded [ids…]     planted bugs of seeded/*/patch.diff: which checks catch which
--props P01,P02            restrict the checks; --confirm also builds and runs the test suite (benign)"""
import argparse, os, shutil, subprocess, sys, tempfile, json
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
ap = argparse.ArgumentParser()
ap.add_argument('kind', choices=['benign', 'seeded', 'mut'])
ap.add_argument('names', nargs='*')
ap.add_argument('--props')
ap.add_argument('--confirm', action='store_true')
ap.add_argument('-v', action='store_true')
a = ap.parse_args()
from engine import catalog
props = a.props.split(',') if a.props else list(catalog.CATALOG)
jobs = []
if a.kind == 'benign':
    sys.path.insert(0, os.path.join(ROOT, 'benign'))
    import edits
    for n, es in edits.EDITS.items():
        if not a.names or any(n.startswith(x) for x in a.names):
            jobs.append((n, es))
elif a.kind == 'mut':
    sys.path.insert(0, os.path.join(ROOT, 'benign'))
    import mutants
    for n, (p, es) in mutants.MUT.items():
        if (not a.names or any(n.startswith(x) for x in a.names)) and (not a.props or p in props):
            jobs.append((n, es))
else:
    for n in sorted(os.listdir(os.path.join(ROOT, 'seeded'))):
        if not a.names or any(n.startswith(x) for x in a.names):
            jobs.append((n, os.path.join(ROOT, 'seeded', n, 'patch.diff')))


def prep(job):
    n, es = job
    d = tempfile.mkdtemp(prefix='vf-sweep-')
    if a.confirm:
        subprocess.run(['cp', '-a', '/repo/.', d], check=True)
    else:
        shutil.copytree('/repo/src', d + '/src')
    if isinstance(es, str):
        r = subprocess.run(['patch', '-p1', '-s', '-d', d, '-i', es], capture_output=True, text=True)
        if r.returncode:
            return d, 'patch failed: ' + r.stdout
    else:
        for f, old, new in es:
            p = os.path.join(d, 'src', f)
            s = open(p).read()
            if s.count(old) != 1:
                return d, '%s: text occurs %d times: %r' % (f, s.count(old), old[:80])
            open(p, 'w').write(s.replace(old, new))
    return d, None


def one(job):
    n, es = job
    d, err = prep(job)
    out = {}
    try:
        if err:
            return n, {'*': err}
        env = dict(os.environ, VF_REPO=d, VF_EVIDENCE=d + '/ev')
        if a.confirm:
            r = subprocess.run('make -j8 >/dev/null 2>&1 && make -j4 check 2>&1 | grep -E "^(# |FAIL|ERROR)"', shell=True, cwd=d, capture_output=True, text=True)
            out['tests'] = r.stdout.replace('\n', ' ')
        for p in ([mutants.MUT[n][0]] if a.kind == 'mut' else props):
            r = subprocess.run([sys.executable, os.path.join(ROOT, 'check.py'), p], env=env, capture_output=True, text=True, errors='replace', preexec_fn=lambda: __import__('resource').setrlimit(__import__('resource').RLIMIT_CPU, (900, 900)))
            if r.returncode != 0 or (a.v and 'undecided:' in r.stdout):
                out[p] = 'rc=%d %s' % (r.returncode, (r.stdout + r.stderr)[:1500] if a.v or r.returncode > 1 else '\n'.join(x[:260] for x in r.stdout.splitlines() if x.startswith('  ['))[:700])
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return n, out


with ThreadPoolExecutor(8) as ex:
    for n, out in ex.map(one, jobs):
        if a.kind == 'benign':
            print('%-40s %s' % (n, 'quiet' if not out else ''))
        elif a.kind == 'mut':
            print('%-40s %s %s' % (n, mutants.MUT[n][0], 'caught' if any(t.startswith('rc=1') for t in out.values()) else 'MISSED %s' % out))
        else:
            meta = json.load(open(os.path.join(ROOT, 'seeded', n, 'meta.json')))
            hit = meta['property'] in out and out[meta['property']].startswith('rc=1')
            print('%-40s %s %s by %s' % (n, meta['property'], 'CAUGHT' if hit else 'missed', ' '.join(out)))
        for p, t in out.items():
            if a.kind == 'benign' or a.v:
                print('    %s %s' % (p, t.replace('\n', '\n      ')))
        sys.stdout.flush()
