#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run after editing it; the outputs are committed)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, text, why, files, mech, over=('inputs',), tech='abstract interpretation of MIR (gated value numbering)', note='', observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=list(over), text=text, why=why, files=files, mech=mech, tech=tech, note=note, observe=list(observe)))


def na(id, title, statement, text, why, files, mech, reason, over=('inputs',)):
    prop(id, title, statement, text, why, files, mech, over=over)
    P[-1]['na'] = True
    NA.append({'property': id, 'reason': reason})


NOTE = 'Decided from the MIR of /repo rebuilt on every run; nothing of the program is executed. Real-arithmetic semantics (rounding of intermediates not modelled; tolerances absorb rounded literals); trusts rustc\'s MIR, the interpreter and its models of libm/alloc/intrinsics, and random fingerprints in a 127-bit field. '
exec(open(os.path.join(V, 'tools', 'table.py')).read())
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']], 'observe_at': p['observe'] or ['return values of the public functions named above'], 'hook_needed': None}}) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 engine/check.py --setup',
     'checks': [{'property': p['id'], 'quick_cmd': 'python3 engine/check.py ' + p['id'], 'thorough_cmd': 'VERIF_TIER=thorough python3 engine/check.py ' + p['id'],
                 'technique': p['tech'], 'level': 'other', 'level_note': NOTE + p['note']} for p in P if not p.get('na')],
     'not_applicable': NA, 'notes': 'No hooks in /repo: the analysis reads the crate as it is built. See DESIGN.md; fixed defects and known findings are in known-findings.txt.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
