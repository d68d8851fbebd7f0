#!/usr/bin/env python3
"""maintenance (never run by a check): list the failures of the last run that carry a finding id as known findings"""
import glob
import json
import sys
prop, what = sys.argv[1], sys.argv[2]
k = json.load(open('known_findings.json'))
have = {(x['property'], x['id']) for x in k['findings']}
for f in sorted(glob.glob('evidence/replay_%s_*.json' % prop)):
    d = json.load(open(f))
    if d.get('finding_id') and (prop, d['finding_id']) not in have:
        k['findings'].append(dict(property=prop, id=d['finding_id'], detail=d['detail'],
                                  what='%s (%s)' % (what, d['finding_id']), program=d['program']))
json.dump(k, open('known_findings.json', 'w'), indent=1)
