#!/usr/bin/env python3
"""writes known_findings.json: the defects of /repo that were repaired (they suppress nothing) and
those that were not (entries with status known)"""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], stdout=subprocess.PIPE, text=True).stdout.splitlines()
by = [('scan_prefix repeated', 'C03'), ('an empty value was considered', 'C09'), ('leak of the child list', 'C24'), ('a node that lost its last child', 'C09'),
      ('has_prefix and filter_prefix', 'C03'), ('retain_prefix_with dropped', 'C08'), ('in-place operations on attached', 'C13 C14'),
      ('combining attached trees', 'C14'), ('a crash between closing', 'C21'), ('sync of the paged', 'C22'), ('a page size of 0', 'C20'), ('reading an id that was never', 'C17'),
      ]
extra = json.load(open(V + '/tools/findings.json')) if os.path.exists(V + '/tools/findings.json') else {}
r = list(extra.get('known', []))
for l in reversed(log):
    h, _, s = l.partition(' ')
    if s.startswith('fix:'):
        p = [p for k, p in [tuple(x) for x in extra.get("fixed", [])] + by if k in s]
        assert p, s
        for q in p[0].split():
            r.append(dict(id='fixed-%s-%s' % (h, q), property=q, status='fixed', line='fixed: property=%s %s %s' % (q, h, s[5:])))
json.dump(r, open(V + '/known_findings.json', 'w'), indent=1)
