#!/usr/bin/env python3-vt
"""Records the names of locals, fields and loop counters the annotations refer to, so that a renamed one is still found."""
import os, sys, re, json
os.environ['CCV_NO_BASELINE'] = '1'
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, HERE)
import importlib
from specs import registry
out = {}
done = set()
for p, E in registry.PROPS.items():
    for mod, arg in E['specs']:
        V, L = importlib.import_module('specs.' + mod).build(arg)
        byq = {}
        for q, fs in V.U.byq.items():
            b = [f for f in fs if f.body is not None]
            if len(b) > 1 and 'napsat' in q and '<' not in q:
                for f in b: out['fn:' + q + '|' + f.ftype] = [[n, t] for n, t, _ in V.decl_order(f)]
            if len(b) == 1: out['fn:' + q] = [[n, t] for n, t, _ in V.decl_order(b[0])]
        for q, r in V.U.recq.items():
            if r.fields: out['rec:' + q] = [[f['name'], f['type'].get('qualType')] for f in r.fields]
        for cs in V.contracts.values():
            if isinstance(cs, list): continue
            try: fn = V.fn_of(cs)
            except Exception: continue
            V.enum_loops(fn)
            l = [[n['kind'], (V.counter_of(n) or [None])[0]] for n in V.loopnodes]
            if l: out['loops:' + cs.qname] = l
with open(os.path.join(HERE, 'specs', 'baseline.json'), 'w') as f: json.dump(out, f, indent=0, sort_keys=True)
print(len(out))
