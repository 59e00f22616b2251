#!/usr/bin/env python3
"""Names of the parameters and local variables of the functions under contract on the tree the contracts were written
for (vc/locals.json).  With them a contract finds a parameter or variable that was merely renamed, by its position."""
import sys, json, glob, tempfile, importlib, re
V = '/verif'
sys.path[:0] = [V, V + '/vc', V + '/contracts']
import check, ir, sym
out = {}
tmp = tempfile.mkdtemp()
units = {}
for f in sorted(glob.glob(V + '/contracts/c[0-9]*.py')):
    m = importlib.import_module(f.split('/')[-1][:-3])
    for s in m.SPECS:
        if s.unit:
            units.setdefault(s.unit, set()).add(s.fn)
for u, fns in sorted(units.items()):
    o = '%s/%s.ll' % (tmp, re.sub(r'\W', '_', u))
    rc, err = check.compile_ir(u, o)
    assert rc == 0, err
    M = ir.parse_module(o)
    E = sym.Engine(M, {})
    for fn in M.funcs.values():
        if fn.demangled in fns and fn.order:
            out[fn.demangled] = dict(params=[p[1].lstrip('%').strip('"') for p in fn.params], locals=list(fn.dbgvar.values()))
            car = [[fn.dbgvar[al] for al in x] for x in E.carried(fn)]
            if any(car):
                out[fn.demangled]['carried'] = car
json.dump(out, open(V + '/vc/locals.json', 'w'), indent=0, sort_keys=True)
print(len(out), 'functions')
