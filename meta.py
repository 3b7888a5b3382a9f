#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: run `python3 meta.py` after editing."""
import json, os, subprocess
V = os.path.dirname(os.path.abspath(__file__))
SEG, PAR, TR = 'src/training/segmentation/mod.rs', 'src/parameters.rs', 'src/data_store/transition/mod.rs'
P = []   # (id, title, statement, over, text, why, files, mechanism[(name, where)], level, note)
def prop(id, title, statement, over, text, why, files, mech, note, level='proof'):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, level=level))
NA = []  # (id, title, statement, over, text, why, files, mech, reason)
def na(id, title, statement, over, text, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, reason=reason))
exec(open(V + '/props_meta.py').read())
HOOK = 'cfg(s2gpp_verif) include points (guarded); the proof itself reads the source text and needs none'
with open(V + '/properties.jsonl', 'w') as f:
    for p in P + NA:
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']], 'hook_needed': HOOK if p in P else None}}, ensure_ascii=False) + '\n')
TECH = {'proof': 'contract-based deductive verification (Verus) of functions mechanically extracted from /repo on every run; native replay supplies failing inputs',
        'exploration': 'bounded check of the compiled functions against an independent oracle (labelled bounded; stands in where the functions are out of the verifier\'s reach)'}
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup',
     'hooks': {'guard': 'cfg(s2gpp_verif)', 'enable': 'RUSTFLAGS="--cfg s2gpp_verif" and S2GPP_VERIF_HOOKS=<dir with the staged hook files> (check.py does both)',
               'source_commits': subprocess.run(['git', '-C', '/repo', 'log', '--format=%H', '--grep', '^verif hooks'], capture_output=True, text=True).stdout.split()},
     'checks': [{'property': p['id'], 'quick_cmd': f"python3 check.py {p['id']}", 'thorough_cmd': f"VERIF_TIER=thorough python3 check.py {p['id']}",
                 'technique': TECH[p['level']], 'level': p['level'], 'level_note': p['note']} for p in P],
     'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in NA],
     'notes': 'See DESIGN.md. Verus proves contracts over functions extracted from /repo/src on each run; assumed contracts are listed in each evidence file (trusted_base). Every check also runs the compiled crate against an independent oracle.'}
if not m['hooks']['source_commits']: m['hooks']['source_commits'] = json.load(open(V + '/MANIFEST.json'))['hooks']['source_commits']
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    for l in open(V + '/properties.jsonl'): jsonschema.validate(json.loads(l), json.load(open('/root/.vp/PROPERTIES.schema.json')))
    print('valid', len(P), 'claimed', len(NA), 'n/a')
except ImportError: print('written (jsonschema missing)')
