#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the implemented checks and the list of reasons below."""
import os, sys, json, importlib
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'gdxsa'))
sys.dont_write_bytecode = True
NA = {
 'C21': 'Released-exactly-once needs ownership of elements held in unbounded containers of raw pointers (symbol records, comment strings, filters, record lists); the shape and ownership analyses for that are not in reach here. The part about tables of the object itself (no use after release, nothing left after a failed open, nothing left to flush or close after closing) is claimed under C02, C03 and C14.',
 'C24': 'Counts, dimensions and numbers read from the file flow through heap tables (symbol records, buckets, domain arrays) to their uses in later calls, so a sound static argument needs invariants of those tables; the library today trusts them in several places, listed in DESIGN.md, and validating every table on opening would be a large change of behaviour, not a small repair. Block lengths of compressed parts (C25), bad byte-order marks (C18) and the index mark (C04) are claimed.',
 'C27': 'Bit-for-bit survival of arbitrary values and volumes is an input-output equation over run-time data (including zlib); no static argument in reach decides it. Its static parts (layout, encoding, byte order, special values, buffers) are claimed as C06, C07, C10, C18, C25.',
 'C28': 'That every key is kept and delivered in ascending order is a functional-correctness theorem about the sorting and bucket code over unbounded data; the static part (sortedness gate before writing) is C15.',
 'C29': 'Termination for every file depends on run-time contents (alias chains, counts); a ranking argument for the reading loops is out of reach of the syntactic and dataflow analyses here.',
}
TECH = {}
props = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    f = os.path.join(H, 'gdxsa', 'checks', p.lower() + '.py')
    if os.path.exists(f):
        m = importlib.import_module('checks.' + p.lower())
        checks.append(dict(property=p, quick_cmd='python3 check.py %s' % p, thorough_cmd='VERIF_TIER=thorough python3 check.py %s' % p,
                           evidence_file='evidence/%s.json' % p, technique='static analysis: ' + getattr(m, 'TECHNIQUE', m.EXPLANATION).replace('static analysis: ', ''), level='other', level_note=m.RULE))
    else: na.append(dict(property=p, reason=NA[p]))
json.dump(dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na), open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
