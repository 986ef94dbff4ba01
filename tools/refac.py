#!/usr/bin/env python3
"""refac.py FILE.json [NAME...]: applies behaviour-preserving edits, one at a time, to a copy of the contract source and prints, per
property, what the verifier's answer would mean: refused (an alarm), not decided (bounded search decides), or proof.
FILE.json: [{"name":..., "edits":[[file, old, new], ...]}]"""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REL = 'contracts/sumtree-orderbook/src'
CODE = r"""
import sys, os, json
sys.argv = ["check.py", "C01"]
sys.path.insert(0, %r)
import vc, check
p = check.run_proof()
ids = [json.loads(l)["id"] for l in open(check.HERE + "/properties.jsonl")]
o = {"lost": p["lost"], "H": {}, "S": [], "T": [], "skip": list(p["gen"].skip) if p.get("gen") else [], "notes": p.get("notes")}
for i in ids:
    h, s, t, l = check.judge(p, i)[:4]
    if h: o["H"][i] = sorted({str(f["fn"] or f["lemma"]) + ": " + f["text"][:90] for f in h})
    elif s or l: o["S"].append(i)
    elif t: o["T"].append(i)
print("RES " + json.dumps(o))
""" % HERE
rs = json.load(open(sys.argv[1]))
want = sys.argv[2:]
for r in rs:
    if want and r['name'] not in want: continue
    root = '/tmp/rfc_%d' % os.getpid()
    subprocess.run(['rm', '-rf', root]); os.makedirs(os.path.dirname(f'{root}/{REL}'))
    shutil.copytree('/repo/' + REL, f'{root}/{REL}')
    bad = False
    for f, a, b in r['edits']:
        p = f'{root}/{REL}/{f}'; s = open(p).read()
        if s.count(a) < 1: print(r['name'], 'NO MATCH', f, a[:60]); bad = True; break
        open(p, 'w').write(s.replace(a, b, 1))
    if bad: continue
    x = subprocess.run([sys.executable, '-c', CODE], env={**os.environ, 'VX_REPO': root}, capture_output=True, text=True)
    l = [y for y in x.stdout.split('\n') if y.startswith('RES ')]
    if not l: print(r['name'], 'CRASH', x.stderr[-500:]); continue
    o = json.loads(l[0][4:])
    print(r['name'], '| refused', o['H'], '| undecided', *o['S'], '| taint', *o['T'], '| skip', o['skip'], '| notes', o['notes'], '| lost', o['lost'], flush=True)
    subprocess.run(['rm', '-rf', root])
