#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from props.py"""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(H)
sys.path.insert(0, H)
from props import *

TECH = 'value-graph agreement of the type-checked program with a reviewed reference program (dataflow over THIR, nothing executed)'
NOTE = ('static: THIR of the current tree (rustc_private driver); every function the property rests on must have the value graph of the reviewed, repaired reference; '
        'differences confined to constructs the analysis does not interpret are listed as undecided, not reported')



def files(sl):
    out = []
    for e in sl:
        a = 'crates/' + e.split('::')[0]
        if '.*' not in a and a not in out:
            out.append(a)
    return out


with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=OVER.get(p['id'], ['inputs']), text=p['qtext']),
                                why_tests_cant=p['why'], anchors=dict(files=files(p['slice']), mechanism=[dict(name=n, where='crates/' + w) for n, w in p['mech']],
                                                                      observe_at=[p['observe']], hook_needed=None))) + '\n')
    for id, t, s, over, q, w, fl, r in NOT_APPLICABLE:
        f.write(json.dumps(dict(id=id, title=t, statement=s, quantifier=dict(over=over, text=q), why_tests_cant=w,
                                anchors=dict(files=fl, mechanism=[dict(name='none that is visible statically', where=fl[0])]))) + '\n')
json.dump(dict(version=1, setup_cmd='./setup.sh',
               checks=[dict(property=p['id'], quick_cmd='./check.sh %s quick' % p['id'], thorough_cmd='./check.sh %s thorough' % p['id'],
                            technique=TECH, level='other', level_note=NOTE) for p in PROPS],
               not_applicable=[dict(property=n[0], reason=n[7]) for n in NOT_APPLICABLE],
               notes='See DESIGN.md. Reference program: reference/program.tar.xz (made by tools/freeze.sh from the reviewed, repaired tree).'),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
