"""Write MANIFEST.json from properties.jsonl and the contracts present."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = []
na = json.load(open(H + '/tools/na.json')) if os.path.exists(H + '/tools/na.json') else {}
notes = json.load(open(H + '/tools/notes.json')) if os.path.exists(H + '/tools/notes.json') else {}
for l in open(H + '/properties.jsonl'):
    p = json.loads(l)
    if p['id'] in na: continue
    part = p['id'] == 'C10'     # the smaller part is proved: how frames are read
    proof = not part and os.path.exists(H + '/contracts/%s.py' % p['id'].lower())
    checks.append(dict(property=p['id'], quick_cmd='python3 check.py ' + p['id'], thorough_cmd='VERIF_TIER=thorough python3 check.py ' + p['id'],
        technique='contract-based deductive verification of the reading of the frames (own VC generator, SMT back ends); contracts on the real functions evaluated at run time for the linking (bounded stand-in)' if part else 'contract-based deductive verification of the real source (own VC generator, SMT back ends), contracts also evaluated on the running code' if proof else
            'contracts on the real functions evaluated at run time (bounded stand-in for deductive verification)',
        level='proof' if proof else 'exploration',
        level_note=notes.get(p['id'], 'Proved parts: every obligation generated from the current source is discharged. Trusted: the generator, its models of numpy and the other libraries, real arithmetic for floats. The rest is bounded.' if proof else
            'Proved: which frames are read, in which order, with which rows and fields (FramesIterator, as it is used). How particles are linked, and the single file layout: bounded, for generated inputs only; not a proof.' if part else 'Bounded: the contract is evaluated on the real code for generated inputs only; not a proof.')))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in na.items()]), open(H + '/MANIFEST.json', 'w'), indent=1)
