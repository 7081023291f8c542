#!/usr/bin/env python3
"""Writes loops.json and signatures.json: per unit, the kinds of the loops of the functions under contract, and the signatures of those that are not
in a trait (run on the tree the contracts were written for)."""
import sys, os, json, importlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, 'lib'), os.path.join(V, 'contracts')]
import asm, runner, registry
out, sigs = {}, {}
os.makedirs(runner.B, exist_ok=True)
vx = runner.build_vx()
for name in sorted({u for r in registry.PROPS.values() for u in r['units']}):
    unit = importlib.import_module(name).unit()
    unit.loop_kinds = None
    a = asm.assemble(unit, runner.all_items(vx, unit))
    out[name] = {k: i['loops'] for k, i in sorted(a.fn_info.items()) if i['contract'] and not i['trusted'] and i['loops']}
    sigs[name] = {k: asm.signature(a.fns[k]) for k, i in sorted(a.fn_info.items()) if i['contract'] and ' for ' not in k}
json.dump(sigs, open(os.path.join(V, 'lib', 'signatures.json'), 'w'), indent=0, sort_keys=True)
json.dump(out, open(os.path.join(V, 'lib', 'loops.json'), 'w'), indent=0, sort_keys=True)
