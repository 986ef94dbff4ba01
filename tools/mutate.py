#!/usr/bin/env python3
"""Mutation sweep (development aid). mutate.py gen OUT.json [seed n] | mutate.py test IN.json OUT.json WORKERS | mutate.py prove IN.json OUT.json
Mutants live in copies of /repo under /tmp/mut; nothing is written to /repo."""
import json, os, random, re, subprocess, sys, threading, queue, shutil
SRC = 'contracts/sumtree-orderbook/src'
FILES = ['tick.rs', 'orderbook.rs', 'order.rs', 'state.rs', 'auth.rs', 'tick_math.rs', 'sumtree/node.rs', 'sumtree/tree.rs', 'sudo.rs', 'query.rs', 'contract.rs', 'types/tick.rs', 'types/orderbook.rs', 'types/order.rs', 'types/coin.rs', 'constants.rs']
SUB = [(r' < ', [' <= ', ' > ']), (r' <= ', [' < ', ' >= ']), (r' > ', [' >= ', ' < ']), (r' >= ', [' > ', ' <= ']), (r' == ', [' != ']), (r' != ', [' == ']),
       (r'checked_add', ['checked_sub']), (r'checked_sub', ['checked_add', 'saturating_sub']), (r'checked_mul', ['checked_div']), (r'checked_div', ['checked_mul']),
       (r'to_uint_floor', ['to_uint_ceil']), (r'to_uint_ceil', ['to_uint_floor']), (r'RoundUp', ['RoundDown']), (r'RoundDown', ['RoundUp']),
       (r'OrderDirection::Bid', ['OrderDirection::Ask']), (r'OrderDirection::Ask', ['OrderDirection::Bid']), (r'\bleft\b', ['right']), (r'\bright\b', ['left']),
       (r'\.min\(', ['.max(']), (r'\.max\(', ['.min(']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r'&&', ['||']), (r'\|\|', ['&&']),
       (r' \+ ', [' - ']), (r' - ', [' + ']), (r' \* ', [' / ']), (r'\b1\b', ['2', '0']), (r'\b0\b', ['1']), (r'\.opposite\(\)', ['']), (r'if !', ['if ']), (r'\bif (?!let|!)', ['if !']),
       (r'Ascending', ['Descending']), (r'Descending', ['Ascending']), (r'inclusive', ['exclusive']), (r'quote_denom', ['base_denom']), (r'base_denom', ['quote_denom']),
       (r'bid_values', ['ask_values']), (r'ask_values', ['bid_values']), (r'next_bid_tick', ['next_ask_tick']), (r'next_ask_tick', ['next_bid_tick']), (r'is_some', ['is_none']), (r'is_none', ['is_some']),
       (r'placed_quantity', ['quantity']), (r'effective_total_amount_swapped', ['cumulative_total_value', 'last_tick_sync_etas']), (r'cumulative_realized_cancels', ['total_amount_of_liquidity', 'cumulative_total_value']), (r'total_amount_of_liquidity', ['cumulative_total_value']),
       (r'ADMIN_OFFER', ['MODERATOR_OFFER']), (r'MODERATOR\b', ['ADMIN']), (r'unwrap_or\(', ['unwrap_or_default(']), (r'Some\((\w+)\)', ['None']), (r'sender', ['owner']), (r'get_max', ['get_min']), (r'get_min', ['get_max']), (r'is_in_range', ['is_err'])]


def gen(out, seed, n):
    ms = []
    for f in FILES:
        ls = open(f'/repo/{SRC}/{f}').read().split('\n')
        test = False
        for i, l in enumerate(ls):
            s = l.strip()
            if s.startswith('#[cfg(test)]'):
                test = True
            if test:
                if l.startswith('}') or l.startswith('    }'):
                    test = False
                continue
            if not s or s.startswith('//') or s.startswith('use ') or s.startswith('#'):
                continue
            code = l.split('//')[0]
            for pat, reps in SUB:
                for m in re.finditer(pat, code):
                    if '"' in code[:m.start()] and code[:m.start()].count('"') % 2:
                        continue
                    for r in reps:
                        ms.append({'file': f, 'line': i, 'old': l, 'new': l[:m.start()] + r + l[m.end():]})
            if s.endswith(';') and not s.startswith(('let ', 'pub ', 'return', '}', ')')) and re.match(r'^[\w.*]+', s):
                ms.append({'file': f, 'line': i, 'old': l, 'new': ''})
    random.Random(seed).shuffle(ms)
    seen, o = set(), []
    for m in ms:
        k = (m['file'], m['line'], m['new'])
        if k not in seen:
            seen.add(k)
            o.append(m)
    print(len(o), 'candidates')
    o = o[:n]
    for i, m in enumerate(o):
        m['id'] = i
    json.dump(o, open(out, 'w'), indent=0)


def apply(root, m):
    p = f'{root}/{SRC}/{m["file"]}'
    ls = open(p).read().split('\n')
    assert ls[m['line']] == m['old'], m
    ls[m['line']] = m['new']
    open(p, 'w').write('\n'.join(ls))


def undo(root, m):
    shutil.copyfile(f'/repo/{SRC}/{m["file"]}', f'{root}/{SRC}/{m["file"]}')


def test(inp, out, w):
    ms = json.load(open(inp))
    done = {}
    if os.path.exists(out):
        for m in json.load(open(out)):
            done[m['id']] = m
    q = queue.Queue()
    for m in ms:
        if m['id'] not in done:
            q.put(m)
    base = set(json.load(open('/opt/vp/BASELINE.json')).get('stable', [])) if False else None
    lock = threading.Lock()

    def work(k):
        root = f'/tmp/mut/w{k}'
        if not os.path.exists(root):
            os.makedirs('/tmp/mut', exist_ok=True)
            subprocess.run(['cp', '-a', '/repo', root])
        subprocess.run('git checkout -q -- .', shell=True, cwd=root)
        while True:
            try:
                m = q.get_nowait()
            except queue.Empty:
                return
            apply(root, m)
            # cargo test of the one crate
            env = {**os.environ, 'DOCS_RS': '1', 'CARGO_BUILD_JOBS': '2'}
            r = subprocess.run('. /opt/vp/env.sh; timeout 300 cargo test -p sumtree-orderbook --lib $FEATURES --offline --locked -- --test-threads 2 2>&1 | tail -60', shell=True, executable='/bin/bash', cwd=root, env=env, capture_output=True, text=True)
            t = r.stdout
            if 'could not compile' in t:
                m['r'] = 'nocompile'
            elif re.search(r'test result: ok', t):
                m['r'] = 'survived'
            elif 'test result' in t:
                m['r'] = 'killed'
            else:
                m['r'] = 'timeout'
            undo(root, m)
            with lock:
                done[m['id']] = m
                json.dump(sorted(done.values(), key=lambda x: x['id']), open(out, 'w'), indent=0)
    ts = [threading.Thread(target=work, args=(k,)) for k in range(w)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    c = {}
    for m in done.values():
        c[m['r']] = c.get(m['r'], 0) + 1
    print(c)


PROVE = r'''
import sys, os, json
sys.path.insert(0, "/verif")
import vc
vc.REPO = sys.argv[1]; vc.SRC = sys.argv[1] + "/contracts/sumtree-orderbook/src"
g, v = vc.prove(sys.argv[2], ["--time-expanded"], timeout=600)
o = {"skip": list(g.skip), "notes": g.notes, "fail": []}
if vc.front_end_refused(v): o["refused"] = True
for d in v["diags"]:
    if d.get("level") == "error" and d.get("spans"):
        ts = []
        for s in d["spans"]:
            if s["file_name"].endswith("ob.rs"):
                inf = g.info[s["line_start"] - 1]
                ts.append([inf.get("fn") or inf.get("lemma") or inf.get("part"), inf.get("part"), inf.get("tags")])
        o["fail"].append([d["message"][:100], ts])
print("RES " + json.dumps(o))
'''


def prove(inp, out):
    ms = [m for m in json.load(open(inp)) if m['r'] == 'survived']
    done = {m['id']: m for m in json.load(open(out))} if os.path.exists(out) else {}
    root = '/tmp/mut/p'
    if not os.path.exists(root):
        os.makedirs(root + '/contracts/sumtree-orderbook', exist_ok=True)
        subprocess.run(['cp', '-a', f'/repo/{SRC}', f'{root}/{SRC}'])
    for m in ms:
        if m['id'] in done:
            continue
        apply(root, m)
        r = subprocess.run([sys.executable, '-c', PROVE, root, '/tmp/mut/gen/ob.rs'], capture_output=True, text=True)
        l = [x for x in r.stdout.split('\n') if x.startswith('RES ')]
        m['p'] = json.loads(l[0][4:]) if l else {'crash': r.stderr[-300:]}
        undo(root, m)
        done[m['id']] = m
        json.dump(list(done.values()), open(out, 'w'), indent=0)
        p = m['p']
        st = 'REFUSED' if p.get('fail') else ('soft' if p.get('skip') or p.get('refused') or p.get('crash') or p.get('notes') else 'ACCEPTED')
        print(m['id'], st, m['file'], m['line'] + 1, '|', m['new'].strip() or 'DEL ' + m['old'].strip(), flush=True)


if sys.argv[1] == 'gen':
    gen(sys.argv[2], int(sys.argv[3]), int(sys.argv[4]))
elif sys.argv[1] == 'test':
    test(sys.argv[2], sys.argv[3], int(sys.argv[4]))
else:
    prove(sys.argv[2], sys.argv[3])
