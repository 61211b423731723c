#!/usr/bin/env python3
"""Author and confirm planted bugs (the folders under seeded/ are the source of truth).
seeds.py new SPEC.py   SPEC defines define(S): S(id, property, [(file, old, new)…], demo, needs, breaks); confirmed ones are kept
seeds.py [ids…]        confirm existing ones again, in /repo itself (build, tests, demo with and without the change)"""
import json, os, subprocess, sys, importlib.util, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

PRE = '''#!/bin/bash
# exit 0: the behaviour holds; nonzero: it does not.  Run with cwd /repo after the build.
SELINT=$PWD/src/selint
D=$(mktemp -d) || exit 2
trap 'rm -rf -- "$D"' EXIT
cd "$D" || exit 2
mkdir -p p/m
cat > p/m/metadata.xml < /dev/null
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def confirm(sid):
    d = os.path.join(ROOT, 'seeded', sid)
    miss = []
    try:
        if sh('git -C /repo apply %s/patch.diff' % d).returncode:
            print(sid, 'DOES NOT APPLY')
            return False
        r = sh('bash /opt/vp/build.sh', cwd='/repo')
        if r.returncode:
            print(sid, 'DOES NOT BUILD', r.stderr[-500:])
            return False
        w = [l for l in r.stderr.splitlines() if 'warning:' in l and 'y.tab' not in l]
        if w:
            print(sid, 'warnings', w[:3])
        dm = sh('bash %s/demo.sh' % d, cwd='/repo')
        sh('bash /opt/vp/test.sh /tmp/seed.json', cwd='/repo')
        base = json.load(open('/opt/vp/BASELINE.json'))
        pas = set(json.load(open('/tmp/seed.json'))['passed'])
        miss = [t for t in base['stable'] if t not in pas]
    finally:
        sh('git -C /repo checkout -- .')
        sh('bash /opt/vp/build.sh', cwd='/repo')
    dm0 = sh('bash %s/demo.sh' % d, cwd='/repo')
    ok = dm0.returncode == 0 and dm.returncode != 0 and not miss
    print(sid, 'OK' if ok else 'NOT OK', 'demo clean=%d changed=%d' % (dm0.returncode, dm.returncode), 'failing tests: %s' % miss[:4] if miss else '')
    if not ok:
        print('  clean:', dm0.stdout[-400:], dm0.stderr[-300:])
        print('  changed:', dm.stdout[-400:], dm.stderr[-300:])
    sys.stdout.flush()
    return ok


def main():
    assert sh('git -C /repo status --porcelain').stdout.strip() == ''
    if sys.argv[1:2] != ['new']:
        for sid in sys.argv[1:] or sorted(os.listdir(ROOT + '/seeded')):
            confirm(sid)
        return
    sp = importlib.util.spec_from_file_location('spec', sys.argv[2])
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    specs = []
    m.define(lambda *a: specs.append(a))
    for sid, prop, edits, demo, needs, breaks in specs:
        d = os.path.join(ROOT, 'seeded', sid)
        if os.path.exists(d):
            continue
        bad = None
        try:
            for f, old, new in edits:
                p = '/repo/src/' + f
                s = open(p).read()
                if s.count(old) != 1:
                    bad = '%s: text occurs %d times: %r' % (f, s.count(old), old[:80])
                    break
                open(p, 'w').write(s.replace(old, new))
            diff = sh('git -C /repo diff').stdout
        finally:
            sh('git -C /repo checkout -- .')
        if bad:
            print(sid, 'BAD', bad)
            continue
        os.makedirs(d)
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.sh', 'w').write(PRE + demo.strip('\n') + '\n')
        os.chmod(d + '/demo.sh', 0o755)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
        if not confirm(sid):
            shutil.rmtree(d)


if __name__ == '__main__':
    main()
