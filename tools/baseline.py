#!/usr/bin/env python3
"""records the functions of the current tree, their signatures and calls, and which deliberately have no contract (spec/baseline.json)"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import vc
g = vc.assemble(vc.BUILD + '/gen/ob.rs')
cg = vc.calls(g)
json.dump({'uncontracted': sorted(g.uncontracted), 'sigs': {vc.fkey(i): vc.sig_of(i) for i in g.items if i['kind'] == 'fn'},
           'locals': {vc.fkey(i): {'vars': vc.locals_of(i['body']), 'push': vc.loop_pushes(i['body'])} for i in g.items if i['kind'] == 'fn' and i['loops']},
           'calls': {k: sorted(v) for k, v in sorted(cg.items())}}, open(HERE + '/spec/baseline.json', 'w'), indent=1)
print(len(g.uncontracted), 'without contract;', 'notes:', g.notes)
