#!/usr/bin/env python3
"""write properties.jsonl and MANIFEST.json from engine/catalog.py"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from engine import catalog

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fh:
    for pid in sorted(set(catalog.CATALOG) | set(catalog.NOT_APPLICABLE)):
        c = catalog.CATALOG.get(pid) or catalog.NOT_APPLICABLE[pid]
        fh.write(json.dumps(dict(id=pid, title=c['title'], statement=c['statement'], quantifier=dict(over=c['over'], text=c['quant']),
                                 why_tests_cant=c['why'], anchors=dict(files=c['files'], mechanism=[dict(name=n, where=w) for n, w in c['mech']]))) + '\n')
m = dict(version=1, setup_cmd='python3 check.py --setup', checks=[], not_applicable=[dict(property=p, reason=c['reason']) for p, c in sorted(catalog.NOT_APPLICABLE.items())])
for pid in sorted(catalog.CATALOG):
    c = catalog.CATALOG[pid]
    m['checks'].append(dict(property=pid, quick_cmd='python3 check.py %s --tier quick' % pid, thorough_cmd='python3 check.py %s --tier thorough' % pid,
                            technique=c['technique'], level=c['level'], level_note=c['note']))
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fh:
    json.dump(m, fh, indent=1)
    fh.write('\n')
