#!/usr/bin/env python3
"""Adds the list of repaired defects to known_findings.json (development helper; checks never write that file)."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(H, 'known_findings.json')
d = json.load(open(p))
prop, commit, what = sys.argv[1:4]
e = 'fixed: property=%s %s %s' % (prop, commit, what)
if e not in d['fixed']: d['fixed'].append(e)
json.dump(d, open(p, 'w'), indent=1)
