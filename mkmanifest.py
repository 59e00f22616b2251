#!/usr/bin/env python3-vt
"""Regenerates MANIFEST.json from the contract modules."""
import importlib, json, os, sys, re
V = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [V + '/vc', V + '/contracts']
NA = {
    'C24': 'the statement is about a floating-point search whose steps only make sense with rounding and with an arbitrary '
           'callback (function pointer) as objective; the verifier treats floats as reals and has no contract for the callback',
    'C25': 'the behaviour lives in the external helper processes (gzip, bzip2, shell pipes) behind popen; no contract within '
           'reach can say anything about them',
}
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    f = V + '/contracts/%s.py' % i.lower()
    if not os.path.exists(f):
        na.append(dict(property=i, reason=NA.get(i, 'no check has been built for this property yet')))
        continue
    m = importlib.import_module(i.lower())
    proved = [s.name or s.fn for s in m.SPECS if not s.trusted]
    note = 'All obligations of the contracts of %d functions are discharged for all inputs (%s). ' % (
        len(proved), '; '.join(re.sub(r'\(.*', '', x) for x in proved)) if proved else ''
    if getattr(m, 'BOUNDED_FUNCTIONS', None):
        note += 'Bounded stand-in (not proved): %s. ' % '; '.join(m.BOUNDED_FUNCTIONS)
    note += getattr(m, 'NOTE', '')
    note += ' Trusted: clang front end, the VC generator in vc/, z3/cvc5, assumed std:: contracts; reals for floats, no signed overflow, separated pointers.'
    c = dict(property=i, quick_cmd='python3-vt check.py %s' % i,
             thorough_cmd='VERIF_TIER=thorough python3-vt check.py %s --thorough' % i,
             technique='contract-based deductive verification: contracts and loop invariants on the LLVM IR of the real code, '
                       'obligations discharged by z3/cvc5; executable-contract harness on the real code for replay',
             level=getattr(m, 'LEVEL', 'proof'), level_note=note.strip())
    th = []
    for s in m.SPECS:
        for n, _ in (s.ensures or []):
            th.append('%s: postcondition "%s"' % (re.sub(r'\(.*', '', s.name or s.fn), n))
    if getattr(m, 'LEVEL', 'proof') == 'proof':
        c['theorems'] = th
    checks.append(c)
man = dict(version=1, setup_cmd='python3-vt -c "import z3" && test -x /usr/lib/llvm-18/bin/clang++ && mkdir -p evidence',
           checks=checks, not_applicable=na,
           notes='No hooks in /repo. One check.py run = compile /repo/src to LLVM IR, verify the contracts, run the replay harness.')
json.dump(man, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
