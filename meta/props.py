"""single source of properties.jsonl and MANIFEST.json: run `python3 meta/props.py` after editing"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'contract-based deductive verification of the LLVM IR of the real sources (irvc: VCs to z3/cvc5)'
P = []
NA = []


def prop(id, title, statement, over, qtext, why, files, mech, note=None, state=(), observe=(), na=None, level='proof', technique=TECH):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why,
              'anchors': {'files': files, 'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
                          'mechanism': [dict(zip(('name', 'where'), m)) for m in mech], 'observe_at': list(observe), 'hook_needed': None},
              '_note': note, '_na': na, '_level': level, '_tech': technique})


exec(open(os.path.join(V, 'meta', 'list.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in sorted(P, key=lambda p: p['id']):
        f.write(json.dumps({k: v for k, v in p.items() if k[0] != '_'}, ensure_ascii=False) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup',
     'checks': [], 'not_applicable': [],
     'notes': 'Every check recompiles the real sources of /repo to LLVM IR and re-proves every obligation; see DESIGN.md.'}
for p in sorted(P, key=lambda p: p['id']):
    if p['_na']:
        m['not_applicable'].append({'property': p['id'], 'reason': p['_na']})
    else:
        m['checks'].append({'property': p['id'], 'quick_cmd': 'python3 check.py ' + p['id'],
                            'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + p['id'],
                            'evidence_file': 'evidence/%s.json' % p['id'],
                            'technique': p['_tech'], 'level': p['_level'], 'level_note': p['_note']})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties,', len(m['checks']), 'claimed')
