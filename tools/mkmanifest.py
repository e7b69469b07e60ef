#!/usr/bin/env python3
"""Writes MANIFEST.json from props.json and not_applicable.json."""
import json, os
base = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
props = json.load(open(base + '/props.json'))
na = json.load(open(base + '/not_applicable.json'))
ids = [json.loads(l)['id'] for l in open(base + '/properties.jsonl')]
checks = []
for i in ids:
    if i not in props:
        continue
    p = props[i]
    note = ("Every obligation generated from the current source of the functions under contract (postconditions, loop invariants, "
            "termination, absence of panics, frames) is discharged by an SMT solver for all inputs. Trusted: gocv and its library models, go/ssa, the solvers; "
            "machine int as mathematical integer. ")
    note += p.get('level_note', '')
    if p.get('bounded'):
        note += ' Bounded only (not proved): ' + '; '.join(p['bounded']) + '.'
    checks.append({
        'property': i,
        'quick_cmd': './check.sh ' + i,
        'thorough_cmd': 'VERIF_TIER=thorough ./check.sh ' + i,
        'evidence_file': 'evidence/%s.json' % i,
        'technique': 'contract-based deductive verification of the real Go code (verification conditions from go/ssa, discharged by z3 and cvc5)',
        'level': p.get('level', 'proof'),
        'level_note': note.strip(),
    })
m = {
    'version': 1,
    'setup_cmd': './setup.sh',
    'checks': checks,
    'not_applicable': [{'property': i, 'reason': na[i]} for i in ids if i not in props],
    'notes': 'Contracts are in contracts/, overlaid on the packages when they are loaded; nothing is added to /repo. Each check also runs a bounded driver (drivers/), '
             'which supplies failing inputs and is never counted as proof.',
}
json.dump(m, open(base + '/MANIFEST.json', 'w'), indent=1)
open(base + '/MANIFEST.json', 'a').write('\n')
