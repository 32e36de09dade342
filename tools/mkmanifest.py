"""writes MANIFEST.json from the specs present and the table below"""
import json, os, re, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(HERE + '/properties.jsonl')]
NOTES = json.load(open(HERE + '/tools/notes.json'))
checks, na = [], []
for p in props:
    i = p['id']
    n = NOTES.get(i, {})
    if os.path.exists('%s/specs/%s.cpp' % (HERE, i)) and not n.get('na'):
        t = open('%s/specs/%s.cpp' % (HERE, i)).read()
        sys.path.insert(0, HERE)
        from vc import astload, harness
        prog = astload.load([i + '.cpp'])
        nv, nb = (len(harness.harnesses(prog, x)) for x in ('vch_', 'vcb_'))
        note = n.get('note', '')
        checks.append({'property': i, 'quick_cmd': './check.py %s --tier quick' % i, 'thorough_cmd': './check.py %s --tier thorough' % i,
                       'technique': 'contract-based deductive verification: VCs generated from the clang AST of the real code, discharged by a normaliser and Z3',
                       'level': 'proof' if nv else 'exploration',
                       'level_note': ('%d contract harness(es) proved for all inputs, sizes and iterations%s. ' % (nv, ', %d further harness(es) bounded only (random native runs)' % nb if nb else '')) + note +
                       ' Assumes: real arithmetic instead of floating point, axiomatised Eigen/std operations, home-made VC generator, termination of loops without a closed-form trip count.'})
    else:
        na.append({'property': i, 'reason': n.get('na', 'contracts for this property are not finished yet')})
json.dump({'version': 1, 'setup_cmd': 'python3-vt -m compileall -q vc check.py', 'checks': checks, 'not_applicable': na,
           'notes': 'no hooks: the verifier reads the sources as they are'}, open(HERE + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
