import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, 'lib')]
import registry
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
m = dict(version=1, setup_cmd='bash setup.sh',
         checks=[], not_applicable=[],
         notes='Every check expands /repo, extracts its functions, attaches contracts and runs Verus; a bounded search against the real crate accompanies it. See DESIGN.md.')
for p in ids:
    R = registry.PROPS.get(p)
    if R:
        m['checks'].append(dict(property=p, quick_cmd='./check %s' % p, thorough_cmd='VERIF_TIER=thorough ./check %s' % p, evidence_file='evidence/%s.json' % p,
                                technique=R.get('technique', 'contract-based deductive verification (Verus/Z3) of functions extracted from /repo on every run'), level=R['level'],
                                level_note=R.get('note', 'Deductive proof for all inputs of the functions under contract; trusted base and bounded parts are listed in the evidence file and in DESIGN.md.')))
    else:
        m['not_applicable'].append(dict(property=p, reason=registry.NA.get(p, 'no check built yet')))
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
