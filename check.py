#!/usr/bin/env python3
"""check.py <property> : decides one property on /repo's current working tree.

1. vx extracts the contract source, vc.py puts the contracts of spec/ on it, Verus discharges the obligations.
2. An obligation that carries the property's tag and is refused is a violation; the search of harness/ then looks
   for a failing input on the real code (replay file).
3. What the verifier could not express or decide (lost anchor, unsupported construct, resource limit) is handed to
   the same search as a bounded stand-in."""
import json, os, re, subprocess, sys, time, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import vc

T0 = time.time()
PROP = sys.argv[1]
TIER = os.environ.get('VERIF_TIER', 'quick')
if '--thorough' in sys.argv:
    TIER = 'thorough'
SEED = int(os.environ.get('VERIF_SEED', '1'))
BUILD = HERE + '/.build'
REPLAY = HERE + '/replay'
os.makedirs(BUILD, exist_ok=True)
os.makedirs(REPLAY, exist_ok=True)
os.makedirs(HERE + '/evidence', exist_ok=True)

TRUST = [
    'spec/shim.rs: assumed contracts of cosmwasm-std, cw-storage-plus, cw-utils, cw2, osmosis-std (numbers by exact value, overflow/zero-divisor refused, storage containers as maps, key-ordered iteration, must_pay/nonpayable, address validation and supply as uninterpreted functions)',
    'storage (de)serialisation never fails on values the contract wrote; an Err or panic at the top level reverts every write (CosmWasm)',
    'extract/ (vx): the rewrite rules listed in DESIGN.md preserve meaning; dropped: attributes, events, log text, derives, cfg(test) code',
    'derived Clone/PartialEq/Default of the contract types are structural',
    'Verus 0.2026.09.13, its vstd library and Z3',
]


baseline = vc.baseline


def run_proof():
    """-> dict with failures (list of dict(tags, fn, text, message)), soft (list), stats"""
    out = {'fail': [], 'soft': [], 'lost': None, 'fns': {}, 'secs': 0.0, 'smt_ms': 0, 'verified': 0, 'errors': 0}
    work = f'{BUILD}/gen_{PROP}_{os.getpid()}'
    path = work + '/ob.rs'
    try:
        g, v = vc.prove(path, ['--time-expanded'], timeout=600)
    except vc.Lost as e:
        out['lost'] = str(e)
        return out
    except subprocess.TimeoutExpired:
        out['lost'] = 'verifier time limit'
        return out
    except Exception as e:
        out['lost'] = 'assembler: ' + repr(e)
        return out
    finally:
        subprocess.run(['rm', '-rf', work])
    out['gen'] = g
    out['notes'] = g.notes
    out['secs'] = v['secs']
    j = v['json']
    if vc.front_end_refused(v):
        msg = [d['message'] for d in v['diags'] if d.get('level') == 'error'][:3]
        out['lost'] = 'the extracted text is refused by the verifier front end: ' + '; '.join(msg)
        return out
    out['verified'] = j['verification-results']['verified']
    out['errors'] = j['verification-results']['errors']
    for m in j['times-ms']['smt']['smt-run-module-times']:
        for f in m.get('function-breakdown', []):
            name = f['function'].replace('ob::', '', 1)
            out['fns'][name] = {'ms': f['time'], 'ok': f['success'], 'rlimit': f['rlimit']}
    out['smt_ms'] = j['times-ms']['smt']['smt-run']
    for d in v['diags']:
        if d.get('level') != 'error' or not d.get('spans'):
            continue
        soft = 'Resource limit' in d['message'] or 'rlimit' in d['message'] or 'timed out' in d['message']
        spans = [s for s in d['spans'] if s['file_name'].endswith('ob.rs')]
        fn, lem, tags, text, live = None, None, None, '', False
        for s in spans:
            inf = g.info[s['line_start'] - 1]
            t0 = s['text'][0]['text'] if s['text'] else ''
            if 'precondition' in (s.get('label') or '') and ('live() ==>' in t0 or '!live()' in t0) and not inf.get('part') == 'body':
                live = True
                # a helper without a contract that contains something that may abort: nothing is known about it
                soft = soft or (inf.get('part') == 'requires' and inf.get('fn') not in g.con)
            if inf.get('part') == 'shim':
                text = text or (s['text'][0]['text'].strip() if s['text'] else '')
                continue
            prim = s.get('is_primary')
            # a failed clause of a called function: blame the caller
            if inf.get('part') == 'requires':
                text = s['text'][0]['text'].strip() if s['text'] else ''
                continue
            if inf.get('part') == 'ensures' and tags is None:
                tags = inf.get('tags') or None
                text = ' '.join(x['text'].strip() for x in s['text'])[:400] if s['text'] else ''
                fn = inf.get('fn') or fn
            elif inf.get('fn') and fn is None:
                fn = inf['fn']
                text = text or (s['text'][0]['text'].strip() if s['text'] else '')
            if inf.get('lemma'):
                lem = enclosing(g, s['line_start'])
                text = text or (s['text'][0]['text'].strip() if s['text'] else '')
        if live and fn:
            # the function may panic where its contract says it returns
            tags = sorted(g.con[fn].live_tags if fn in g.con and g.con[fn].live_tags else fn_tags(g, fn) & LIVE)
        rec = {'fn': fn, 'lemma': lem, 'tags': tags, 'text': text, 'message': d['message'], 'soft': soft, 'rendered': d.get('rendered', '')}
        out['fail'].append(rec)
    return out


LIVE = {'C03', 'C05', 'C06', 'C07', 'C08', 'C10', 'C16', 'C18', 'C20', 'C21', 'C23', 'C25', 'C26'}


def enclosing(g, line):
    for n in range(line - 1, 0, -1):
        m = re.match(r'^\s*(?:pub )?(?:broadcast )?(?:proof|spec|open spec) fn (\w+)', g.lines[n])
        if m:
            return m.group(1)
    return None


def fn_tags(g, key):
    c = g.con.get(key)
    if not c:
        return set()
    t = set()
    for tags, _ in c.ensures:
        t |= set(tags.split())
    return t | (c.flags - {'total', 'panics', 'isolated'}) | c.live_tags


calls = vc.calls


def lemma_use(g):
    """lemma name -> set of properties whose contracts mention it (transitively through the spec text)"""
    text = '\n'.join(l for l, i in zip(g.lines, g.info) if i.get('lemma'))
    bodies = {}
    cur = None
    for l, i in zip(g.lines, g.info):
        if i.get('lemma'):
            m = re.match(r'^\s*(?:pub )?(?:broadcast )?(?:open |closed )?(?:proof|spec) fn (\w+)', l)
            if m:
                cur = m.group(1)
                bodies[cur] = []
            if cur:
                bodies[cur].append(l)
    use = {}
    for k, c in g.con.items():
        t = fn_tags(g, k)
        txt = c.requires + c.entry + ' '.join(x for _, x in c.ensures) + ' '.join(c.loops.values()) + ' '.join(a[2] for a in c.anchors)
        for w in set(re.findall(r'\b\w+\b', txt)):
            if w in bodies:
                use.setdefault(w, set()).update(t)
    for w in bodies:
        m = re.match(r'^prop_((?:C\d\d_)+)', w)
        if m:
            use.setdefault(w, set()).update(m.group(1).strip('_').split('_'))
    ch = True
    while ch:
        ch = False
        for w, ls in bodies.items():
            if w in use:
                for x in set(re.findall(r'\b\w+\b', '\n'.join(ls))):
                    if x in bodies and x != w:
                        s = use.setdefault(x, set())
                        if not use[w] <= s:
                            s |= use[w]
                            ch = True
    return use


def build_harness():
    if not os.path.exists(HERE + '/harness/Cargo.toml'):
        return None
    r = subprocess.run(['cargo', 'build', '--offline', '-q', '--release', '--manifest-path', HERE + '/harness/Cargo.toml'],
                       env={**os.environ, 'CARGO_TARGET_DIR': BUILD + '/harness'}, capture_output=True, text=True)
    if r.returncode:
        print('note: the replay harness does not build: ' + r.stderr[-600:].replace('\n', ' | '))
        return None
    return BUILD + '/harness/release/obh'


def literals():
    """the numbers written in the contract's source (search dictionary), and those not in the committed list"""
    c = {}
    for d, ds, fs in os.walk(vc.SRC):
        ds[:] = [x for x in ds if x != 'tests']
        for f in sorted(fs):
            if f.endswith('.rs'):
                t = re.sub(r'//[^\n]*', '', open(os.path.join(d, f), errors='replace').read()).split('#[cfg(test)]\nmod tests')[0]
                for x in re.findall(r'(?<![\w.])\d[\d_]*(?:\.\d+)?', t):
                    x = x.replace('_', '')
                    if '.' in x:
                        a, b = x.split('.')
                        x = str(int(a + b[:18].ljust(18, '0')))
                    if len(x) <= 38:
                        c[x] = c.get(x, 0) + 1
    try:
        base = json.load(open(HERE + '/spec/literals.json'))
    except Exception:
        base = {}
    return c, sorted(int(x) for x in c if c[x] > base.get(x, 0))


def search(prop, secs, tag):
    """bounded concrete search on the real code; -> (violation or None, stats)"""
    exe = build_harness()
    if not exe:
        return None, {'built': False}
    rp = f'{REPLAY}/{prop}-{tag}.json'
    if os.path.exists(rp):
        os.remove(rp)
    c, new = literals()
    os.environ['OBH_DICT'] = ','.join(map(str, sorted(int(x) for x in c)))
    os.environ['OBH_NEW'] = ','.join(map(str, new))
    try:
        r = subprocess.run([exe, 'search', prop, str(SEED), str(secs), rp], capture_output=True, text=True, timeout=secs + 120)
    except subprocess.TimeoutExpired:
        return None, {'built': True, 'crashed': 'the search did not end in time'}
    st = {'built': True}
    for l in r.stdout.split('\n'):
        if l.startswith('STATS '):
            st.update(json.loads(l[6:]))
    if r.returncode == 3 and os.path.exists(rp):
        return rp, st
    if r.returncode not in (0, 3):
        st['crashed'] = r.stderr[-400:]
    return None, st


def judge(p, prop):
    """what the verifier's answer means for one property: refused, not decided, or refused in a callee without the tag"""
    hard, soft, taint = [], [], []
    nob = ndis = 0
    fnlist, trusted_fns, clauses = [], [], 0
    lost = p['lost']
    if not lost:
        g = p['gen']
        cg = calls(g)
        base = set(baseline().get('uncontracted', []))
        mine = {k for k in g.fnmap if prop in fn_tags(g, k)}
        close, todo = set(mine), list(mine)
        while todo:
            for c in cg.get(todo.pop(), ()):
                if c not in close and c in g.fnmap:
                    close.add(c)
                    todo.append(c)
        lu = lemma_use(g)
        shaky = {}
        for n in g.notes:
            m = re.match(r'^([\w:]+): ', n)
            if m:
                shaky.setdefault(m.group(1), []).append(n)
        newfns = {u for u in g.uncontracted if u not in base}
        # a function that is gone: its text is now somewhere in its former callers
        gone = [n for n in g.notes if n.startswith('contract without function')]
        for n in gone:
            for k, cs in baseline().get('calls', {}).items():
                if n.split(': ')[1] in cs:
                    shaky.setdefault(k, []).append(n)
        for k in cg:
            for c in cg[k] & newfns:
                shaky.setdefault(k, []).append(f'{k}: calls {c}, which has no contract')
        for f in p['fail']:
            if f['lemma'] and not f['fn']:
                tags = lu.get(f['lemma'], set())
                sh = False
            else:
                tags = set(f['tags'] or ()) or fn_tags(g, f['fn'] or '')
                sh = f['fn'] in shaky
            if prop in tags:
                (soft if (f['soft'] or sh) else hard).append(f)
            elif f['fn'] in close:
                taint.append(f)
        for k, msg in g.skip.items():
            f = {'fn': k, 'text': msg, 'message': 'body not expressible', 'rendered': ''}
            if prop in fn_tags(g, k):
                soft.append(f)
            elif k in close:
                taint.append(f)
        for n in gone:
            k = n.split(': ')[1]
            if prop in fn_tags(g, k):
                soft.append({'fn': k, 'text': n, 'message': n, 'rendered': ''})
        if not mine and not any(prop in v for v in lu.values()):
            lost = 'no function carries an obligation of this property'
        failed_fns = {f['fn'] for f in hard + soft + taint}
        fnlist = sorted(k for k in close if k in g.con)
        trusted_fns = sorted(k for k in close if k not in g.con)
        for k in fnlist:
            clauses += sum(1 for t, _ in g.con[k].ensures if prop in t.split())
        lems = sorted(w for w, t in lu.items() if prop in t and w.startswith(('lem_', 'prop_')))
        nob = len(fnlist) + len(lems)
        badl = {f['lemma'] for f in p['fail'] if f['lemma']}
        ndis = len([k for k in fnlist if k not in failed_fns]) + len([w for w in lems if w not in badl])
    return hard, soft, taint, lost, nob, ndis, fnlist, trusted_fns, clauses


def main():
    p = run_proof()
    try:
        hard, soft, taint, lost, nob, ndis, fnlist, trusted_fns, clauses = judge(p, PROP)
    except Exception as e:
        hard, soft, taint, lost, nob, ndis, fnlist, trusted_fns, clauses = [], [], [], 'the answer of the verifier could not be read: ' + repr(e), 0, 0, [], [], 0
    quick = TIER == 'quick'
    budget = 20 if quick else 240
    viol = None
    st = {}
    status = 'proof'
    if hard:
        status = 'refused'
        budget = 90 if quick else 300
    elif lost or soft or taint:
        status = 'bounded'
        budget = 60 if quick else 300
    elif quick:
        budget = 10
    rp, st = search(PROP, budget, 'run')
    if rp:
        viol = (rp, '')
    elif hard:
        rp = f'{REPLAY}/{PROP}-obligation.json'
        json.dump({'property': PROP, 'failed_obligations': [{k: f.get(k) for k in ('fn', 'lemma', 'tags', 'text', 'message', 'rendered')} for f in hard], 'search': st}, open(rp, 'w'), indent=1)
        viol = (rp, ' no-failing-input-found')
    for f in hard + soft + taint:
        print('obligation refused:', f['fn'] or f.get('lemma'), '|', f['message'], '|', f['text'][:200])
    if lost:
        print('bounded stand-in only:', lost)
    level = 'proof'
    cov = {
        'obligations': nob, 'discharged': ndis,
        'checker_cmd': f'python3 /verif/check.py {PROP}  (vx + vc.py, then: verus ob.rs --num-threads 8)',
        'trusted_base': TRUST + ([f'functions in the call closure without a contract (only their signature is used, nothing is assumed about their result): {", ".join(trusted_fns)}'] if trusted_fns else []),
        'status': status, 'functions_under_contract': fnlist, 'tagged_clauses': clauses,
        'verifier_total_verified': p['verified'], 'verifier_total_errors': p['errors'], 'verifier_s': round(p['secs'], 2), 'smt_ms': p['smt_ms'],
        'back_end': 'Verus/Z3', 'refused': [f"{f['fn'] or f.get('lemma')}: {f['text'][:160]}" for f in hard + soft + taint],
        'bounded_cross_check': st,
    }
    if lost:
        cov['bounded_only_reason'] = lost
    if 'evaluations' in st:
        cov['evaluations'] = st['evaluations']
    ev = {'property': PROP, 'tier': 'quick' if quick else 'thorough', 'seed': SEED, 'level': level, 'coverage': cov,
          'assumptions': TRUST, 'wall_s': round(time.time() - T0, 2), 'violations': 1 if viol else 0}
    json.dump(ev, open(f'{HERE}/evidence/{PROP}.json', 'w'), indent=1)
    for l in open(HERE + '/known_findings.txt'):
        if l.startswith('known: property=' + PROP + ' '):
            print('KNOWN-FINDING: ' + l[len('known: '):].strip())
    if viol:
        print(f'VIOLATION property={PROP} replay={viol[0]}{viol[1]}')
        sys.exit(1)
    print(f'{PROP}: {status}; {ndis}/{nob} functions and lemmas discharged, {clauses} tagged clauses; {round(time.time() - T0, 1)} s')
    sys.exit(0)


if __name__ == '__main__':
    main()
