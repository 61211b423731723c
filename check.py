#!/usr/bin/env python3
"""Decide one property of /repo's current source by static analysis.

usage: check.py <property-id> [--tier quick|thorough]
exit 0: holds on everything analysed; exit 1: violated (VIOLATION line); other: the analysis itself could not run.
"""
import argparse, json, os, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(100000)
import threading
threading.stack_size(512 * 1024 * 1024)


BUDGET = 660


def known_findings():
    out = []
    p = os.path.join(HERE, 'known-findings.txt')
    for line in open(p):
        line = line.strip()
        if line.startswith('KNOWN '):
            # KNOWN property=<id> key=<finding key> :: <what fails>
            head, what = line[6:].split(' :: ', 1)
            prop, key = head.split(' key=', 1)
            out.append((prop.split('=', 1)[1], key, what))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--setup', action='store_true', help='only run the front end (fills the scratch cache)')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    m0 = time.monotonic()
    from engine import absint, build, catalog
    from engine.core import Result
    if a.setup:
        p = build.load_program()
        print('front end: %d functions' % len(p.funcs))
        return 0
    pid = a.property
    entry = catalog.CATALOG[pid]
    try:
        prog = build.load_program()
        total = Result()
        per_rule = []
        for name, fn in entry['rules']:
            t1 = time.time()
            absint.DEADLINE[0] = m0 + BUDGET
            try:
                r = fn(prog, a.tier)
            except absint.TimeBudget as e:
                r = Result()
                r.u('budget', 'rule %s: the path exploration of %s did not end within the time budget' % (name, e))
            short = r.check_floor()
            if short and all(r.counts.get(n, 0) == 0 for n in r.floor) and not r.viol:
                raise build.AnalysisBroken('rule %s analysed fewer instances than there must be: %s' % (name, ', '.join(short)))
            for x in short:
                r.u('floor', 'rule %s analysed fewer instances than on the tree it was written for: %s' % (name, x))
            per_rule.append(dict(rule=name, texts=r.rules, counts=r.counts, violations=len(r.viol), undecided=len(r.und), wall_s=round(time.time() - t1, 2)))
            total.rules.update(r.rules)
            for x in r.viol:
                total.v(x['rule'], x['loc'], x['msg'], x['key'])
            total.und += r.und
            for k, v in r.counts.items():
                total.n(k, v)
            total.functions |= r.functions
            total.samples += r.samples[:6]
    except build.AnalysisBroken as e:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, e))
        return 3
    kf = [(k, w) for p, k, w in known_findings() if p == pid]
    known, new = [], []
    for x in total.viol:
        hit = [w for k, w in kf if k == '%s|%s' % (x['rule'], x['key'])]
        (known if hit else new).append((x, hit))
    for x, hit in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, hit[0]))
    ev = dict(property=pid, tier=a.tier, seed=seed, level=entry['level'],
              coverage=dict(explanation=entry['explanation'], source_tree=prog.tree_hash, functions_analysed=len(total.functions),
                            functions=sorted(total.functions), measured=total.counts, rules=per_rule,
                            samples=total.samples[:20],
                            undecided=['%s: %s' % u for u in total.und[:60]], undecided_count=len(total.und)),
              assumptions=entry.get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=len(new))
    if entry['level'] == 'proof':
        ev['coverage'].update(obligations=0)
    edir = os.environ.get('VF_EVIDENCE') or os.path.join(HERE, 'evidence')
    os.makedirs(edir, exist_ok=True)
    with open(os.path.join(edir, pid + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1, default=str)
    print('%s: %s; %d functions analysed, %d undecided' % (pid, ', '.join('%s=%s' % kv for kv in sorted(total.counts.items())), len(total.functions), len(total.und)))
    for u in total.und[:20]:
        print('  undecided: %s: %s' % (u[0], u[1][:300]))
    if new:
        rp = os.path.join(edir, pid + '.violations.txt')
        with open(rp, 'w') as fh:
            for x, _ in new:
                fh.write('[%s] %s: %s\n    rule: %s\n    key: %s|%s\n' % (x['rule'], x['loc'], x['msg'], total.rules.get(x['rule'], ''), x['rule'], x['key']))
        for x, _ in new[:40]:
            print('  [%s] %s: %s' % (x['rule'], x['loc'], x['msg'][:600]))
        if len(new) > 40:
            print('  ... and %d more' % (len(new) - 40))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    return 0


if __name__ == '__main__':
    res = []

    def body():
        try:
            res.append(main())
        except Exception:
            traceback.print_exc()
            res.append(4)
    t = threading.Thread(target=body)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(res[0] if res else 4)
