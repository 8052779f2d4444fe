#!/usr/bin/env python3
"""addkf.py ID PROP TAG CLASS "what" replay.json... : record the shortest replay as a known finding
   addkf.py fixed "fixed: property=.. commit what" """
import json, sys
p = '/verif/known-findings.json'
d = json.load(open(p))
if sys.argv[1] == 'fixed':
    d['fixed'].append(sys.argv[2])
else:
    id, prop, tag, cls, what = sys.argv[1:6]
    best = None
    for f in sys.argv[6:]:
        r = json.load(open(f))
        if r['class'] != cls or not r['plan'].get('acts'): continue
        n = len(json.dumps(r['plan']['acts']))
        if best is None or n < best[0]: best = (n, r)
    pl = best[1]['plan']
    if tag: pl['allow'] = [tag]
    d['findings'] = [f for f in d['findings'] if f['id'] != id]
    d['findings'].append({"id": id, "property": prop, "what": what, "class": cls, "plan": pl})
json.dump(d, open(p, 'w'), indent=1)
