#!/usr/bin/env python3
"""Assembles one Verus crate from the text that vx extracts from /repo, the contracts in spec/contracts
and the assumed library contracts in spec/shim.rs, runs Verus on it and maps failures to obligations."""
import json, os, re, subprocess, sys, hashlib, time, glob

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VX_REPO', '/repo')
SRC = REPO + '/contracts/sumtree-orderbook/src'
BUILD = HERE + '/.build'
NATIVE = {'tick_math'}


class Lost(Exception):
    """the assembler cannot express the current tree"""


# ---------------------------------------------------------------- contracts
class Contract:
    def __init__(self, key, params, ret, file, line):
        self.key, self.params, self.ret, self.file, self.line = key, params, ret, file, line
        self.requires, self.ensures, self.loops, self.entry, self.rel = '', [], {}, '', None
        self.anchors, self.flags, self.decreases = [], set(), ''
        self.wrap = None
        self.live, self.live_tags, self.measure = None, set(), ''
        self.attrs = []


def strip_comment(s):
    return re.sub(r'//[^\n]*', '', s)


def parse_contracts():
    out = {}
    for f in sorted(glob.glob(HERE + '/spec/contracts/*.vs')):
        cur, sec = None, None

        def flush():
            nonlocal sec, buf
            if cur is None or sec is None:
                return
            txt = '\n'.join(buf)
            k, arg = sec
            if k == 'requires':
                cur.requires += txt
            elif k == 'ensures':
                cur.ensures.append((arg, txt))
            elif k == 'live':
                cur.live, cur.live_tags = strip_comment(txt).strip().rstrip(','), set(arg.split())
            elif k == 'loop':
                cur.loops[int(arg)] = txt
            elif k == 'entry':
                cur.entry += txt
            elif k == 'rel':
                cur.rel = strip_comment(txt).strip()
            elif k == 'measure':
                cur.measure = strip_comment(txt).strip()
            elif k == 'decreases':
                cur.decreases = txt.strip()
            elif k in ('before', 'after'):
                cur.anchors.append((k, arg, txt))
            elif k == 'wrap':
                cur.wrap = txt
            sec, buf = None, []
        buf = []
        for n, line in enumerate(open(f), 1):
            line = line.rstrip('\n')
            m = re.match(r'^fn\s+([\w:]+)\(([^)]*)\)\s*(?:->\s*(\w+))?\s*$', line)
            if m:
                flush()
                cur = Contract(m.group(1), [x.strip() for x in m.group(2).split(',') if x.strip() and x.strip() != 'self'], m.group(3) or 'r', f, n)
                if cur.key in out:
                    raise Lost('duplicate contract ' + cur.key)
                out[cur.key] = cur
                sec = None
                continue
            m = re.match(r'^\s*@(\w+)\s*(.*)$', line)
            if m:
                flush()
                k, arg = m.group(1), m.group(2).strip()
                if k == 'flag':
                    cur.flags |= set(arg.split())
                    sec = None
                elif k == 'attr':
                    cur.attrs.append(arg)
                    sec = None
                else:
                    sec = (k, arg)
                    buf = []
                continue
            if sec:
                buf.append(line)
        flush()
    return out


# ---------------------------------------------------------------- emission
class Gen:
    def __init__(self, data, skip=(), drop=()):
        self.drop = dict(drop)   # functions whose signature it refuses: left out altogether
        self.skip = dict(skip)   # functions whose body the verifier front end refuses: key -> message
        self.d = data
        self.items = data['items']
        self.listed = data['listed']
        self.con = adopt(parse_contracts(), data['items'])
        self.inlined = data.get('inlined', {})
        self.lines = []
        self.info = []        # per line: dict(tag info)
        self.cur = {}
        self.used = set()
        self.notes = []
        self.uncontracted = []
        self.types = {}
        for i in self.items:
            if i['kind'] in ('struct', 'enum'):
                self.types[i['name']] = i
        self.fnmap = {}
        self.plain = set()
        self.livememo = {}

    def w(self, s='', **info):
        for l in s.split('\n'):
            self.lines.append(l)
            self.info.append({**self.cur, **info})

    def fixty(self, t):
        return t.replace("'static ", '').replace("'a ", '')

    # ---- storage view
    def canon(self, ns):
        return 'f_' + re.sub(r'\W', '_', ns)

    def keyty(self, t):
        t = t.strip().lstrip('&').strip()
        if t in ('String', 'str'):
            return 'Seq<char>'
        m = re.match(r'^\((.*)\)$', t)
        if m:
            return '(' + ', '.join(self.keyty(x) for x in m.group(1).split(',')) + ')'
        return t

    def keyval(self, t, e):
        t = t.strip().lstrip('&').strip()
        if t in ('String', 'str'):
            return e + '@'
        m = re.match(r'^\((.*)\)$', t)
        if m:
            return '(' + ', '.join(self.keyval(x, f'{e}.{i}') for i, x in enumerate(m.group(1).split(','))) + ')'
        return e if True else e

    def emit_sv(self):
        fields = {}
        for i in self.items:
            if i['kind'] == 'storage':
                f = self.canon(i['ns'])
                ty = f"Option<{i['types'][0]}>" if i['container'] == 'Item' else f"Map<{self.keyty(i['types'][0])}, {i['types'][1]}>"
                if f in fields and fields[f] != ty:
                    raise Lost(f"two storages with different types share the namespace {i['ns']}")
                fields[f] = ty
            if i['kind'] == 'indexed':
                m = re.search(r"IndexedMap<(?:'static,)?&?(?:'static)?(.*?\)|\w+),(\w+),", i['ret'].replace(' ', ''))
                if not m:
                    raise Lost('indexed map type ' + i['ret'])
                i['kty'], i['vty'] = m.group(1).replace(',', ', '), m.group(2)
                f = self.canon(i['ns'][0])
                if f in fields:
                    raise Lost(f"two storages share the namespace {i['ns'][0]}")
                fields[f] = f"Map<{i['kty']}, {i['vty']}>"
                # every index is maintained, reads back from the primary map, and has a place of its own
                own = [x['strs'][1] for x in i['indexes']]
                if sorted(self.listed) != sorted(x['field'] for x in i['indexes']) or any(len(x['strs']) != 2 or x['strs'][0] != i['ns'][0] for x in i['indexes']):
                    raise Lost('the indexes of ' + i['name'])
                if len(set(own)) < len(own) or set(own) & {y if isinstance(y, str) else y[0] for z in self.items if z['kind'] in ('storage', 'indexed') for y in [z['ns']]}:
                    raise Lost('an index shares its namespace')
        self.svfields = fields
        self.w('pub mod sv {\nuse vstd::prelude::*; use crate::shim::*; use crate::all::*;\nverus! {')
        self.w('#[verifier::ext_equal]\npub struct SV {')
        for f, t in fields.items():
            self.w(f'  pub {f}: {t},')
        self.w('}\npub struct Storage { pub sv: Ghost<SV> }\n} }')

    def emit_storage(self, i):
        T = f"{i['name']}_T"
        f = self.canon(i['ns'])
        self.w(f"pub struct {T} {{}}\npub const {i['name']}: {T} = {T} {{}};\nimpl {T} {{")
        if i['container'] == 'Item':
            v = i['types'][0]
            self.w(f"""  #[verifier::external_body]
  pub fn load(&self, s: &Storage) -> (r: StdResult<{v}>) ensures r is Ok <==> s.sv@.{f} is Some, r is Ok ==> r->Ok_0 == s.sv@.{f}->0 {{ unimplemented!() }}
  #[verifier::external_body]
  pub fn may_load(&self, s: &Storage) -> (r: StdResult<Option<{v}>>) ensures r is Ok, r->Ok_0 == s.sv@.{f} {{ unimplemented!() }}
  #[verifier::external_body]
  pub fn exists(&self, s: &Storage) -> (r: bool) ensures r == (s.sv@.{f} is Some) {{ unimplemented!() }}
  #[verifier::external_body]
  pub fn save(&self, s: &mut Storage, v: &{v}) -> (r: StdResult<()>) ensures r is Ok, final(s).sv@ == (SV {{ {f}: Some(*v), ..old(s).sv@ }}) {{ unimplemented!() }}
  #[verifier::external_body]
  pub fn remove(&self, s: &mut Storage) ensures final(s).sv@ == (SV {{ {f}: None, ..old(s).sv@ }}) {{ unimplemented!() }}
}}""")
        else:
            kt, v = i['types']
            k = self.keyval(kt, 'k')
            if kt.strip().startswith('&') and not kt.strip().startswith('&(') and 'String' not in kt:
                k = '(*k)'
            elif kt.strip().startswith('&(') and 'String' not in kt:
                k = '(*k)'
            sk = self.keyty(kt)
            self.w(f"""  #[verifier::external_body]
  pub fn load(&self, s: &Storage, k: {kt}) -> (r: StdResult<{v}>) ensures r is Ok <==> s.sv@.{f}.dom().contains({k}), r is Ok ==> r->Ok_0 == s.sv@.{f}[{k}] {{ unimplemented!() }}
  #[verifier::external_body]
  pub fn may_load(&self, s: &Storage, k: {kt}) -> (r: StdResult<Option<{v}>>) ensures r is Ok, s.sv@.{f}.dom().contains({k}) ==> r->Ok_0 == Some(s.sv@.{f}[{k}]), !s.sv@.{f}.dom().contains({k}) ==> r->Ok_0 is None {{ unimplemented!() }}
  #[verifier::external_body]
  pub fn has(&self, s: &Storage, k: {kt}) -> (r: bool) ensures r == s.sv@.{f}.dom().contains({k}) {{ unimplemented!() }}
  #[verifier::external_body]
  pub fn save(&self, s: &mut Storage, k: {kt}, v: &{v}) -> (r: StdResult<()>) ensures r is Ok, final(s).sv@ == (SV {{ {f}: old(s).sv@.{f}.insert({k}, *v), ..old(s).sv@ }}) {{ unimplemented!() }}
  #[verifier::external_body]
  pub fn remove(&self, s: &mut Storage, k: {kt}) ensures final(s).sv@ == (SV {{ {f}: old(s).sv@.{f}.remove({k}), ..old(s).sv@ }}) {{ unimplemented!() }}""")
            self.w(f"""  #[verifier::external_body]
  pub fn is_empty(&self, s: &Storage) -> (r: bool) ensures r == (s.sv@.{f}.dom() == Set::<{sk}>::empty()) {{ unimplemented!() }}
  #[verifier::external_body]
  pub fn clear(&self, s: &mut Storage) ensures final(s).sv@ == (SV {{ {f}: Map::empty(), ..old(s).sv@ }}) {{ unimplemented!() }}""")
            if sk in ('i64', 'u64', '(i64, u64)'):
                self.w(f"""  #[verifier::external_body]
  pub fn keys(&self, s: &Storage, min: Option<Bound<{sk}>>, max: Option<Bound<{sk}>>, ord: Order) -> (r: Vec<StdResult<{sk}>>)
    ensures ({{ let l = listing(s.sv@.{f}.dom(), min, max, ord); lists(l, s.sv@.{f}.dom(), min, max, ord) && r@.len() == l.len()
      && (forall|i: int| 0 <= i < l.len() ==> #[trigger] r@[i] == Ok::<{sk}, StdError>(l[i])) }}) {{ unimplemented!() }}
  #[verifier::external_body]
  pub fn range(&self, s: &Storage, min: Option<Bound<{sk}>>, max: Option<Bound<{sk}>>, ord: Order) -> (r: Vec<StdResult<({sk}, {v})>>)
    ensures ({{ let l = listing(s.sv@.{f}.dom(), min, max, ord); lists(l, s.sv@.{f}.dom(), min, max, ord) && r@.len() == l.len()
      && (forall|i: int| 0 <= i < l.len() ==> #[trigger] r@[i] == Ok::<({sk}, {v}), StdError>((l[i], s.sv@.{f}[l[i]]))) }}) {{ unimplemented!() }}""")
            self.w('}')

    def emit_indexed(self, i):
        f = self.canon(i['ns'][0])
        k, v = i['kty'], i['vty']
        N = i['name']
        if k != '(i64, u64)':
            raise Lost('orders key ' + k)
        idx = i['indexes']
        self.w(f'pub struct {N}_T {{ pub idx: {N}_I }}\npub struct {N}_I {{ ' + ', '.join(f"pub {x['field']}: {N}_X_{x['field']}" for x in idx) + ' }')
        for x in idx:
            if x['ctor'].split('::')[0] != 'MultiIndex':
                raise Lost('index kind ' + x['ctor'])
            p = x['closure']['params']
            body = re.sub(r'\.clone\(\)', '', x['closure']['body'])
            # index key type by shape
            tup = re.match(r'^\((.*)\)$', body.strip())
            parts = [y.strip() for y in tup.group(1).split(',')] if tup else [body.strip()]
            vfields = {y['name']: y['ty'] for y in self.types[v]['fields']}

            def pt(e):
                m = re.match(rf'^{p[1]}\.(\w+)$', e)
                if not m or m.group(1) not in vfields:
                    raise Lost('index expression ' + e)
                return vfields[m.group(1)]
            tys = [pt(e) for e in parts]
            key_ty = tys[0] if len(tys) == 1 and not tup else '(' + ', '.join(tys) + ')'
            cond = []
            for n, (e, t) in enumerate(zip(parts, tys)):
                q = 'q' if not tup else f'q.{n}'
                ee = re.sub(rf'^{p[1]}\.', 'd.', e)
                cond.append(f'{ee}@ == {q}@' if t in ('Addr', 'String') else f'{ee} == {q}')
            self.w(f"""pub struct {N}_X_{x['field']} {{}}
pub open spec fn {N}_by_{x['field']}(s: SV, q: {key_ty}) -> Set<{k}> {{ s.{f}.dom().filter(|kk: {k}| {{ let d = s.{f}[kk]; {' && '.join(cond)} }}) }}
impl {N}_X_{x['field']} {{
  #[verifier::external_body]
  pub fn prefix(&self, q: {key_ty}) -> (r: {N}_P) ensures forall|s: SV| #[trigger] (r.pr@)(s) == {N}_by_{x['field']}(s, q) {{ unimplemented!() }}
}}""")
        self.w(f"""pub struct {N}_P {{ pub pr: Ghost<spec_fn(SV) -> Set<{k}>> }}
impl {N}_P {{
  #[verifier::external_body]
  pub fn range(&self, s: &Storage, min: Option<Bound<{k}>>, max: Option<Bound<{k}>>, ord: Order) -> (r: Vec<StdResult<({k}, {v})>>)
    ensures ({{ let dom = (self.pr@)(s.sv@); let l = listing(dom, min, max, ord); lists(l, dom, min, max, ord) && r@.len() == l.len()
      && (forall|i: int| 0 <= i < l.len() ==> #[trigger] r@[i] == Ok::<({k}, {v}), StdError>((l[i], s.sv@.{f}[l[i]]))) }}) {{ unimplemented!() }}
  #[verifier::external_body]
  pub fn keys(&self, s: &Storage, min: Option<Bound<{k}>>, max: Option<Bound<{k}>>, ord: Order) -> (r: Vec<StdResult<{k}>>)
    ensures ({{ let dom = (self.pr@)(s.sv@); let l = listing(dom, min, max, ord); lists(l, dom, min, max, ord) && r@.len() == l.len()
      && (forall|i: int| 0 <= i < l.len() ==> #[trigger] r@[i] == Ok::<{k}, StdError>(l[i])) }}) {{ unimplemented!() }}
}}
pub struct {N}_Q {{ pub q: Ghost<i64> }}
pub open spec fn {N}_sub(s: SV, t: i64) -> Set<u64> {{ s.{f}.dom().filter(|k: (i64, u64)| k.0 == t).map(|k: (i64, u64)| k.1) }}
impl {N}_Q {{
  #[verifier::external_body]
  pub fn range(&self, s: &Storage, min: Option<Bound<u64>>, max: Option<Bound<u64>>, ord: Order) -> (r: Vec<StdResult<(u64, {v})>>)
    ensures ({{ let dom = {N}_sub(s.sv@, self.q@); let l = listing(dom, min, max, ord); lists(l, dom, min, max, ord) && r@.len() == l.len()
      && (forall|i: int| 0 <= i < l.len() ==> #[trigger] r@[i] == Ok::<(u64, {v}), StdError>((l[i], s.sv@.{f}[(self.q@, l[i])]))) }}) {{ unimplemented!() }}
  #[verifier::external_body]
  pub fn keys(&self, s: &Storage, min: Option<Bound<u64>>, max: Option<Bound<u64>>, ord: Order) -> (r: Vec<StdResult<u64>>)
    ensures ({{ let dom = {N}_sub(s.sv@, self.q@); let l = listing(dom, min, max, ord); lists(l, dom, min, max, ord) && r@.len() == l.len()
      && (forall|i: int| 0 <= i < l.len() ==> #[trigger] r@[i] == Ok::<u64, StdError>(l[i])) }}) {{ unimplemented!() }}
}}
impl {N}_T {{
  #[verifier::external_body]
  pub fn load(&self, s: &Storage, k: &{k}) -> (r: StdResult<{v}>) ensures r is Ok <==> s.sv@.{f}.dom().contains(*k), r is Ok ==> r->Ok_0 == s.sv@.{f}[*k] {{ unimplemented!() }}
  #[verifier::external_body]
  pub fn may_load(&self, s: &Storage, k: &{k}) -> (r: StdResult<Option<{v}>>) ensures r is Ok, s.sv@.{f}.dom().contains(*k) ==> r->Ok_0 == Some(s.sv@.{f}[*k]), !s.sv@.{f}.dom().contains(*k) ==> r->Ok_0 is None {{ unimplemented!() }}
  #[verifier::external_body]
  pub fn has(&self, s: &Storage, k: &{k}) -> (r: bool) ensures r == s.sv@.{f}.dom().contains(*k) {{ unimplemented!() }}
  #[verifier::external_body]
  pub fn save(&self, s: &mut Storage, k: &{k}, v: &{v}) -> (r: StdResult<()>) ensures r is Ok, final(s).sv@ == (SV {{ {f}: old(s).sv@.{f}.insert(*k, *v), ..old(s).sv@ }}) {{ unimplemented!() }}
  #[verifier::external_body]
  pub fn remove(&self, s: &mut Storage, k: &{k}) -> (r: StdResult<()>) ensures r is Ok, final(s).sv@ == (SV {{ {f}: old(s).sv@.{f}.remove(*k), ..old(s).sv@ }}) {{ unimplemented!() }}
  #[verifier::external_body]
  pub fn prefix(&self, t: i64) -> (r: {N}_Q) ensures r.q@ == t {{ unimplemented!() }}
  #[verifier::external_body]
  pub fn range(&self, s: &Storage, min: Option<Bound<{k}>>, max: Option<Bound<{k}>>, ord: Order) -> (r: Vec<StdResult<({k}, {v})>>)
    ensures ({{ let l = listing(s.sv@.{f}.dom(), min, max, ord); lists(l, s.sv@.{f}.dom(), min, max, ord) && r@.len() == l.len()
      && (forall|i: int| 0 <= i < l.len() ==> #[trigger] r@[i] == Ok::<({k}, {v}), StdError>((l[i], s.sv@.{f}[l[i]]))) }}) {{ unimplemented!() }}
}}
#[verifier::external_body]
pub fn {N}() -> (r: {N}_T) {{ unimplemented!() }}""")

    # ---- types
    def has_vec(self, ty, seen=()):
        if 'Vec<' in ty or 'Response' in ty:
            return True
        for n in re.findall(r'\w+', ty):
            if n in self.types and n not in seen:
                t = self.types[n]
                fs = t['fields'] if t['kind'] == 'struct' else [f for v in t['variants'] for f in v['fields']]
                if any(self.has_vec(f['ty'], seen + (n,)) for f in fs):
                    return True
        return False

    def emit_struct(self, i):
        if any('MultiIndex' in f['ty'] for f in i['fields']):
            return
        self.w(f"pub struct {i['name']} {{ " + ', '.join(f"pub {f['name']}: {self.fixty(f['ty'])}" for f in i['fields']) + ' }')
        n = i['name']
        self.traits(i, n)
        if i['default']:
            self.w(f"""impl VxDefault for {n} {{ open spec fn dflt() -> {n} {{ {n} {{ """ + ', '.join(f"{f['name']}: {f['ty']}::dflt()" for f in i['fields']) + f""" }} }}
  fn vx_default() -> (r: {n}) {{ {n} {{ """ + ', '.join(f"{f['name']}: {f['ty']}::vx_default()" for f in i['fields']) + f""" }} }} }}
impl {n} {{ pub fn default() -> (r: {n}) ensures r == {n}::dflt() {{ {n}::vx_default() }} }}""")

    def traits(self, i, n):
        if i['clone']:
            if i['copy'] and i['kind'] == 'struct':
                self.w(f'impl Copy for {n} {{}}')
            self.w(f'impl Clone for {n} {{ #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }} }}')
        if i['eq'] and not i.get('error') and not self.has_vec(n):
            self.w(f"""impl PartialEqSpecImpl for {n} {{ open spec fn obeys_eq_spec() -> bool {{ true }} open spec fn eq_spec(&self, other: &{n}) -> bool {{ *self == *other }} }}
impl PartialEq for {n} {{ #[verifier::external_body] fn eq(&self, other: &{n}) -> (r: bool) {{ unimplemented!() }} }}""")

    def emit_enum(self, i):
        n = i['name']
        vs = []
        for v in i['variants']:
            if v['kind'] == 'unit':
                vs.append(v['name'])
            elif v['kind'] == 'named':
                vs.append(v['name'] + ' { ' + ', '.join(f"{f['name']}: {f['ty']}" for f in v['fields']) + ' }')
            else:
                vs.append(v['name'] + '(' + ', '.join(f['ty'] for f in v['fields']) + ')')
        if i['unit'] and i['copy'] or i['unit']:
            self.w(f"#[derive(Clone, Copy, PartialEq, Eq, Structural)]\npub enum {n} {{ {', '.join(vs)} }}")
            return
        self.w(f"pub enum {n} {{ {', '.join(vs)} }}")
        if i.get('error'):
            for v in i['variants']:
                if v['kind'] == 'tuple' and v['fields'] and v['fields'][0].get('from'):
                    t = v['fields'][0]['ty']
                    self.w(f"impl From<{t}> for {n} {{ #[verifier::external_body] fn from(e: {t}) -> (r: {n}) {{ {n}::{v['name']}(e) }} }}")
            self.post.append(f"impl core::fmt::Debug for {n} {{ fn fmt(&self, _f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {{ Ok(()) }} }}")
        else:
            self.traits(i, n)

    def emit_const(self, i):
        ty, e = self.fixty(i['ty']), i['expr']
        if re.match(r'^-?[\d_]+$', e.strip()) or ty in ('bool',):
            self.w(f"pub const {i['name']}: {ty} = {e};")
            return
        m = re.match(r'^str_ref\((".*")\)$', e)
        if m:
            self.w(f"pub exec const {i['name']}: &'static String ensures {i['name']}@ == {m.group(1)}@ {{ {e} }}")
            return
        m = re.match(r'^(\w+)::(percent|permille|zero|one)\((\d*)\)$', e)
        if m:
            val = {'percent': f'{m.group(3)}nat * 10_000_000_000_000_000nat', 'permille': f'{m.group(3)}nat * 1_000_000_000_000_000nat', 'zero': '0nat',
                   'one': 'E18()' if 'Dec' in m.group(1) else '1nat'}[m.group(2)]
            self.w(f"pub exec const {i['name']}: {ty} ensures {i['name']}@ == {val} {{ {e} }}")
            return
        # integer constant expressions
        if ty in ('i64', 'u64', 'i32', 'u32', 'usize', 'u128'):
            e2 = re.sub(r'vx_(add|sub|mul)\(', lambda m: m.group(0), e)
            self.w(f"pub const {i['name']}: {ty} = {e2};")
            return
        raise Lost(f"constant {i['name']}: {e}")

    # ---- functions
    def params(self, i):
        ps, gen = [], []
        for p in i['params']:
            t = self.fixty(p['ty'])
            m = re.match(r'^impl (.*)$', t)
            if m:
                g = f'G{len(gen)}'
                gen.append(f'{g}: {m.group(1)}')
                t = g
            ps.append((('mut ' if p['mut'] else '') + p['name'], p['name'], t))
        return ps, gen

    def sto(self, i):
        """(pre, post, extra ensures) in terms of the storage view"""
        for p in i['params']:
            t, n = p['ty'], p['name']
            if t == '&mut Storage':
                return f'old({n}).sv@', f'final({n}).sv@', ''
            if t == '&Storage':
                return f'{n}.sv@', f'{n}.sv@', ''
            if t == 'DepsMut':
                return f'old({n}.storage).sv@', f'final({n}.storage).sv@', ''
            if t == '&mut DepsMut':
                return f'old({n}).storage.sv@', f'final({n}).storage.sv@', f'*final(final({n}).storage) == *final(old({n}).storage)'
            if t == 'Deps':
                return f'{n}.storage.sv@', f'{n}.storage.sv@', ''
        return None, None, ''

    def subst(self, txt, c, names, pre, post, ret):
        if pre:
            txt = txt.replace('$pre', pre).replace('$post', post)
        if c.params != names:
            mp = {a: b for a, b in zip(c.params, names) if a != b}
            if mp:
                txt = re.sub(r'(?<![\w.$])(' + '|'.join(map(re.escape, mp)) + r')\b(?!\s*:(?!:))', lambda m: mp[m.group(1)], txt)
        return txt

    def body_text(self, i, c, sub):
        b = i['body']
        b = re.sub(r'vx_panic\(\);\s*\}\s*$', 'vx_panic() }', b)
        b = re.sub(r'\b(Decimal256|Uint128|Uint256)::(MAX|MIN)\b', r'\1::vx_\2()', b)
        fl = c.flags if c else set()
        if 'total' in fl:
            b = re.sub(r'\bDecimal256::from_ratio\b', 'Decimal256::from_ratio_t', b)
        if 'total' not in fl:
            b = b.replace('.unwrap()', '.vx_unwrap()')
        if c and c.measure:
            # recursive calls go to a twin of the function that has the same contract and must decrease the measure
            if i['self']:
                b = re.sub(r'\.' + i['name'] + r'\(\s*(?=' + re.escape(c.params[0]) + r'\b)', f".{i['name']}__rec(Ghost(vx_measure), ", b)
                b = re.sub(r'\b(?:Self|TreeNode)::' + i['name'] + r'\(\s*([^,()]+),', rf"\1.{i['name']}__rec(Ghost(vx_measure), ", b)
            else:
                b = re.sub(r'(?<![\w.])(?:\w+::)*' + i['name'] + r'\(', f"{i['name']}__rec(Ghost(vx_measure), ", b)
            b = re.sub(r'^\s*\{', lambda m: '{ let ghost vx_measure: nat = ' + sub(c.measure) + ';', b, count=1)
        ren = self.local_names(i, c, b) if c and c.loops else {}
        sub0, sub = sub, (lambda t: ren_text(sub0(t), ren))
        for k, kind in enumerate(i['loops']):
            inv = sub(c.loops[k]) if c and k in c.loops else None
            if inv and f'vx_out{k}' in inv and f'let mut vx_out{k}' not in b and k in loop_pushes(b):
                inv = re.sub(rf'\bvx_out{k}\b', loop_pushes(b)[k], inv)
            if inv and f'vx_at{k}' in inv:
                # the state on entering the loop
                st = 'deps.storage' if 'storage' not in c.params else 'storage'
                b = re.sub(r'let mut vx_i%d\b' % k, f'let ghost vx_at{k} = {st}.sv@; let mut vx_i{k}', b, count=1)
            if inv is None:
                inv = ''
                if c is not None and 'vx_inv!(%d);' % k in b:
                    self.notes.append(f"{i['key']}: loop {k} has no invariant in the contract")
            b, n = re.subn(r'\{\s*vx_inv!\(%d\);' % k, lambda m: '\n' + inv + '\n{', b, count=1)
            if n == 0 and c and k in c.loops:
                self.notes.append(f"{i['key']}: loop {k} marker lost")
        if c:
            for extra in set(c.loops) - set(range(len(i['loops']))):
                self.notes.append(f"{i['key']}: contract has an invariant for loop {extra}, which is gone")
            bl = b.split('\n')
            for kind, pat, txt in c.anchors:
                mm = re.match(r'^(.*?)(?:\s*#(\d+))?$', pat)
                want = int(mm.group(2) or 1)
                hits = [n for n, l in enumerate(bl) if re.search(mm.group(1), l)]
                if len(hits) < want:
                    self.notes.append(f"{i['key']}: anchor lost: {pat}")
                    continue
                n = hits[want - 1]
                if kind == 'after':
                    ind = len(bl[n]) - len(bl[n].lstrip())
                    e = n
                    while not (bl[e].rstrip().endswith((';', '}')) and len(bl[e]) - len(bl[e].lstrip()) <= ind and self.balanced(bl[n:e + 1])):
                        e += 1
                        if e >= len(bl):
                            break
                    bl[e:e + 1] = [bl[e]] + sub(txt).split('\n') if e < len(bl) else []
                else:
                    bl[n:n] = sub(txt).split('\n')
            b = '\n'.join(bl)
            if c.entry:
                j = b.index('{')
                b = b[:j + 1] + '\n' + sub(c.entry) + b[j + 1:]
        return b

    def local_names(self, i, c, b):
        """the present names of the local variables that the loop contracts mention: a variable that is gone is found again as the
        only new one with the same initial value, or as the list that the same loop fills"""
        base = baseline().get('locals', {}).get(c.key)
        if not base:
            return {}
        text = ' '.join(list(c.loops.values()) + [x[2] for x in c.anchors])
        now, was, fills, out = locals_of(b), dict(base['vars']), loop_pushes(b), {}
        names = {n for n, _ in now} | {p['name'] for p in i['params']}
        for n in was:
            if not re.search(r'(?<![\w.$])' + n + r'\b', text):
                continue
            ks = [k for k, v in base['push'].items() if v == n]
            if len(ks) == 1 and f'let mut vx_out{ks[0]}' in b:
                out[n] = 'vx_out' + ks[0]
            elif n not in names:
                c1 = {m for m, r in now if m not in was and r == was[n]}
                if len(ks) == 1 and int(ks[0]) in fills:
                    c1 = {fills[int(ks[0])]}
                if len(c1) == 1:
                    out[n] = c1.pop()
        return out

    @staticmethod
    def balanced(ls):
        t = '\n'.join(ls)
        return all(t.count(a) == t.count(z) for a, z in ('()', '[]', '{}'))

    def fkey(self, i):
        return fkey(i)

    def align(self, c, names):
        """the present parameters in the order in which the contract names them; None if one it speaks of is gone"""
        if not c:
            return names
        b = baseline().get('sigs', {}).get(c.key)
        if not b or len(b[1]) != len(c.params) or b[1] == names or (len(names) == len(c.params) and set(names) != set(b[1])):
            return names if len(names) == len(c.params) else None
        text = ' '.join([c.requires, c.entry, c.live or '', c.measure or '', c.rel or '', c.decreases or ''] + [t for _, t in c.ensures] + [x[2] for x in c.anchors] + list(c.loops.values()))
        out = []
        for p, n in zip(c.params, b[1]):
            if n in names:
                out.append(n)
            elif re.search(r'(?<![\w.$])' + p + r'\b', text):
                return None
            else:
                out.append(p)
        return out

    def emit_fn(self, i):
        key = i['key'] = self.fkey(i)
        if i.get('unsupported'):
            self.notes.append(f"{key}: unsupported: {i['unsupported']}")
        c = self.con.get(key)
        if key in self.drop:
            self.notes.append(f'{key}: signature not expressible: {self.drop[key]}')
            return
        if c:
            self.used.add(key)
        else:
            self.uncontracted.append(key)
        ps, gen = self.params(i)
        names = [n for _, n, _ in ps]
        names = self.align(c, names)
        if c and names is None:
            self.notes.append(f'{key}: parameter list changed')
            c = None
        pre, post, extra = self.sto(i)
        sub = (lambda t: self.subst(t, c, names, pre, post, c.ret)) if c else (lambda t: t)
        if i['self'] == 'mut self':
            i['self'] = 'self'
            i['body'] = '{ let mut vx_self = self; ' + re.sub(r'\bself\b', 'vx_self', i['body']) + ' }'
        args = ([i['self']] if i['self'] else []) + [f'{d}: {t}' for d, _, t in ps]
        ret = i['ret'].strip()
        g = f"<{', '.join(gen)}>" if gen else ''
        rn = c.ret if c else 'r'
        start = len(self.lines) + 1
        self.cur = {'fn': key, 'file': i['file'], 'srcline': i['line']}

        def head(name, twin=False):
            for a in ([] if twin else c.attrs + (['#[verifier::loop_isolation(false)]', '#[verifier::allow_complex_invariants]'] if c.loops and 'isolated' not in c.flags else []) if c else []):
                self.w(a)
            if key in self.skip or twin:
                self.w('#[verifier::external_body]')
            elif not (c and c.decreases):
                self.w('#[verifier::exec_allows_no_decreases_clause]')
            al = args if not twin else args[:1 if i['self'] else 0] + ['Ghost(vx_m): Ghost<nat>'] + args[1 if i['self'] else 0:]
            self.w(f"pub fn {name}{g}({', '.join(al)})" + (f' -> ({rn}: {ret})' if ret else ''))
            if c and c.requires.strip():
                self.w('  requires')
                self.w(sub(c.requires).rstrip().rstrip(',') + ',', part='requires')
            lv = 'false' if key in self.con and not c else self.live_of(key, i)
            if lv != 'true':
                if not (c and c.requires.strip()):
                    self.w('  requires')
                self.w(f'    live() ==> ({sub(lv)}),', part='requires', live=True)
            if twin:
                self.w(f'    live() ==> ({sub(c.measure)}) < vx_m,', part='requires', live=True)

        def ens(lst):
            if lst or extra:
                self.w('  ensures')
            for tags, t in lst:
                t = sub(t).rstrip()
                if not strip_comment(t).rstrip().endswith(','):
                    t += ','
                self.w(t, part='ensures', tags=tags.split())
            if extra:
                self.w('    ' + extra + ',', part='frame')
        head(i['name'])
        ens(c.ensures if c else [])
        if key in self.skip:
            self.notes.append(f'{key}: body not expressible: {self.skip[key]}')
            self.w('{ unimplemented!() }', part='body')
        else:
            if c and c.decreases:
                self.w('  decreases ' + sub(c.decreases))
            self.w(self.body_text(i, c, sub), part='body')
        if c and c.measure and key not in self.skip:
            head(i['name'] + '__rec', twin=True)
            ens(c.ensures)
            self.w('{ unimplemented!() }')
        self.plain.add(key)
        self.fnmap[key] = (start, len(self.lines))
        self.cur = {}

    ABORTS = re.compile(r'\b(?:vx_panic|vx_unwrap|unwrap|vx_add|vx_sub|vx_mul|vx_div|vx_rem|from_ratio|vx_abs)\(')

    def live_of(self, key, i):
        """the condition under which a function is proved to return at all (as opposed to panicking)"""
        c = self.con.get(key)
        if c:
            if c.live is not None:
                return c.live
            return 'true'
        if key not in self.livememo:
            self.livememo[key] = 'false'
            ok = not self.ABORTS.search(i['body']) and key not in self.skip
            if ok:
                for w in set(re.findall(r'\b(\w+)\s*(?:::<[^>]*>)?\(', i['body'])):
                    for j in self.items:
                        if j['kind'] == 'fn' and j['name'] == w and self.live_of(self.fkey(j), j) != 'true':
                            ok = False
            self.livememo[key] = 'true' if ok else 'false'
        return self.livememo[key]

    def emit_from(self, i):
        key = i['key'] = f"{i['module']}::from__{i['from']}__{i['impl']}"
        c = self.con.get(key)
        if c:
            self.used.add(key)
        else:
            self.uncontracted.append(key)
        p = i['params'][0]
        self.cur = {'fn': key, 'file': i['file'], 'srcline': i['line']}
        rel = c.rel if c and c.rel else 'true'
        start = len(self.lines) + 1
        self.w(f"impl Into_<{i['impl']}> for {i['from']} {{\n  open spec fn into_rel(self, r: {i['impl']}) -> bool {{ {rel} }}")
        b = self.body_text(i, c, lambda t: t).replace('.vx_unwrap()', '.vx_unwrap_any()')
        if i['impl'] not in ('String',):
            b = re.sub(r'\bSelf\b', i['impl'], b)
        self.w('  #[verifier::exec_allows_no_decreases_clause]')
        self.w(f"  fn into_(self) -> (r: {i['impl']}) {{ let {'mut ' if p['mut'] else ''}{p['name']} = self; {b} }}\n}}", part='ensures', tags=sorted(c.flags - {'panics', 'total', 'isolated'}) if c else [])
        self.fnmap[key] = (start, len(self.lines))
        self.cur = {}

    def emit_display(self, i):
        key = i['key'] = f"{i['module']}::display__{i['impl']}"
        c = self.con.get(key)
        self.used.add(key)
        self.cur = {'fn': key, 'file': i['file'], 'srcline': i['line']}
        rel = c.rel if c else 'arbitrary()'
        start = len(self.lines) + 1
        self.w(f"impl ToStr_ for {i['impl']} {{\n  open spec fn str_spec(&self) -> Seq<char> {{ {rel} }}\n  fn vx_str(&self) -> (r: String) {i['body']}\n}}", part='ensures', tags=sorted(c.flags) if c else [])
        self.fnmap[key] = (start, len(self.lines))
        self.cur = {}

    def run(self):
        d = self.d
        mods = [m for m in d['modules']]
        defined = {m: set(v) for m, v in d['defined'].items()}
        self.w('#![allow(unused_imports, unused_variables, unused_mut, dead_code, non_camel_case_types, non_snake_case, unreachable_code, unused_parens, non_upper_case_globals, unused_assignments, unused_braces, ambiguous_glob_reexports, hidden_glob_reexports)]')
        self.w('use vstd::prelude::*;\nverus! { global size_of usize == 8; }')
        self.w('pub mod shim {\n' + open(HERE + '/spec/shim.rs').read() + '\n}', part='shim')
        self.emit_sv()
        tmods = [m for m in mods if any(i['module'] == m and i['kind'] in ('struct', 'enum', 'type', 'const', 'storage', 'indexed') for i in self.items)]
        self.w('pub mod all { ' + ' '.join(f'pub use crate::{m}::*;' for m in tmods) + ' }')
        specs = sorted(glob.glob(HERE + '/spec/*.rs'))
        sp = [s for s in specs if not s.endswith('/shim.rs')]
        self.w('pub mod spec { ' + ' '.join(f'pub use crate::sp_{os.path.basename(s)[:-3]}::*;' for s in sp) + ' }')
        for s in sp:
            n = os.path.basename(s)[:-3]
            self.cur = {'lemma': n}
            self.w(f'pub mod sp_{n} {{\nuse vstd::prelude::*; use crate::shim::*; use crate::all::*; use crate::sv::*; use crate::spec::*; use crate::shim::Decimal;\nverus! {{')
            self.w(open(s).read())
            self.w('} }')
            self.cur = {}
        uses = {}
        for u in d['uses']:
            uses.setdefault(u['module'], []).append(u)
        tree = {}
        for m in mods:
            if m:
                p = m.split('::')
                tree.setdefault('::'.join(p[:-1]), []).append(m)

        def emit_mod(m):
            name = m.split('::')[-1]
            self.w(f'pub mod {name} {{')
            self.w('use vstd::prelude::*; use vstd::std_specs::cmp::*; use crate::shim::*; use crate::sv::*; use crate::spec::*; use crate::shim::Decimal;')
            own = defined.get(m, set())
            for u in uses.get(m, []):
                if u['external']:
                    continue
                path, leaf = u['path'].rsplit('::', 1) if '::' in u['path'] else ('', u['path'])
                al = u['alias']
                pubs = 'pub '
                if leaf == '*':
                    self.w(f'{pubs}use crate::{u["path"]};')
                    continue
                if path == 'auth' and False:
                    continue
                ok = leaf in defined.get(path, set()) or any(x['module'] == path and (x['alias'] == leaf) for x in d['uses']) or any(x['module'] == path and x['path'].endswith('*') and leaf in defined.get(x['path'][:-3], set()) for x in d['uses']) or u['path'] in mods
                if not ok:
                    self.notes.append(f'use {u["path"]} not resolved')
                    continue
                if leaf in self.types or u['path'] in mods or True:
                    self.w(f"{pubs}use crate::{u['path']}" + (f' as {al};' if al != leaf else ';'))
            for ch in tree.get(m, []):
                emit_mod(ch)
            self.post = []
            self.w('verus! {')
            mine = [i for i in self.items if i['module'] == m]
            for i in mine:
                k = i['kind']
                if k == 'const':
                    self.emit_const(i)
                elif k == 'storage':
                    self.emit_storage(i)
                elif k == 'indexed':
                    self.emit_indexed(i)
                elif k == 'struct':
                    self.emit_struct(i)
                elif k == 'enum':
                    self.emit_enum(i)
                elif k == 'type':
                    self.w(i['text'])
            impls = {}
            for i in mine:
                if i['kind'] == 'fn' and not i.get('impl'):
                    self.emit_fn(i)
                elif i['kind'] == 'fn':
                    impls.setdefault(i['impl'], []).append(i)
                elif i['kind'] == 'from':
                    self.emit_from(i)
                elif i['kind'] == 'display':
                    self.emit_display(i)
            for t, fs in impls.items():
                self.w(f'impl {t} {{')
                for i in fs:
                    self.emit_fn(i)
                self.w('}')
                for i in fs:
                    if i['name'] == 'default' and not i['params'] and not i['self']:
                        self.w(f"impl VxDefault for {t} {{ open spec fn dflt() -> {t} {{ dflt_{t}() }} fn vx_default() -> (r: {t}) {{ {t}::default() }} }}")
            self.w('}')
            for p in self.post:
                self.w(p)
            self.w('}')
        for u in uses.get('', []):
            if not u['external']:
                self.w(f"pub use crate::{u['path']};")
        for m in tree.get('', []):
            emit_mod(m)
        self.w('fn main() {}')
        for k, v in self.inlined.items():
            self.notes.append(f"{k}: expanded: {', '.join(v)}")
        for k in self.con:
            if k not in self.used:
                self.notes.append(f'contract without function: {k}')
        return '\n'.join(self.lines) + '\n'


def calls(g):
    names = {}
    for k in g.fnmap:
        names.setdefault(k.split('::')[-1], []).append(k)
    out = {}
    for i in g.items:
        if i.get('key') and i.get('body'):
            ws = set(re.findall(r'\b(\w+)\s*(?:::<[^>]*>)?\(', i['body']))
            cs = set()
            for w in ws:
                ks = names.get(w, [])
                if len(ks) > 1:
                    q = set(re.findall(r'(\w+)::' + w + r'\b', i['body']))
                    same = [k for k in ks if (k.split('::')[-2:-1] or [''])[0] in q]
                    ks = same or ks
                cs |= set(ks)
            out[i['key']] = cs - {i['key']}
    return out


def build_vx():
    exe = BUILD + '/vx/debug/vx'
    r = subprocess.run(['cargo', 'build', '--offline', '-q', '--manifest-path', HERE + '/extract/Cargo.toml'],
                       env={**os.environ, 'CARGO_TARGET_DIR': BUILD + '/vx'}, capture_output=True, text=True)
    if r.returncode:
        raise Lost('vx does not build: ' + r.stderr[-800:])
    return exe


def fkey(i):
    return '::'.join(x for x in (i['module'], i.get('impl'), i['name']) if x)


def baseline():
    try:
        return json.load(open(HERE + '/spec/baseline.json'))
    except Exception:
        return {}


def sig_of(i):
    return ['self' if i['self'] == 'mut self' else i['self'], [p['name'] for p in i['params']], [p['ty'] for p in i['params']], i['ret']]


def ren_text(t, mp):
    return re.sub(r'(?<![\w.$])(' + '|'.join(map(re.escape, mp)) + r')\b(?!\s*:(?!:))', lambda m: mp[m.group(1)], t) if mp else t


def locals_of(b):
    """the local variables of an extracted body, with their initial values where these fit on one line"""
    return [(n, re.sub(r'\b(vec!\[\]|Vec::new\(\)|Vec::with_capacity\([^()]*\))', '[]', r) + ': ' + (t or '').strip()) for n, t, r in re.findall(r'\blet (?:mut )?([a-z]\w*)(?:: ([^=;]+?))? = (.*?);$', b, re.M)]


def loop_pushes(b):
    """the list that each loop fills, where there is exactly one"""
    out = {}
    for k in set(map(int, re.findall(r'vx_inv!\((\d+)\);', b))):
        seg = re.split(r'vx_inv!\(\d+\);', b[b.index(f'vx_inv!({k});') + 10:])[0]
        ns = set(re.findall(r'(?<![\w.])(\w+)\s*\.\s*push\(', seg))
        if len(ns) == 1:
            out[k] = ns.pop()
    return out


def adopt(con, items):
    """contracts of functions that were renamed or moved: the only new function with that signature (or that name)"""
    base = baseline().get('sigs', {})
    have = {fkey(i): i for i in items if i['kind'] == 'fn'}
    gone = [k for k in con if k in base and k not in have]
    new = [k for k in have if k not in con and k not in baseline().get('uncontracted', [])]
    out = {}
    for k in gone:
        s, h = base[k], lambda n: sig_of(have[n])
        moved = [n for n in new if n.split('::')[-1] == k.split('::')[-1] and h(n)[0] == s[0] and h(n)[2:] == s[2:]]
        renamed = [n for n in new if n.split('::')[:-1] == k.split('::')[:-1] and h(n)[0] == s[0] and h(n)[2:] == s[2:]]
        c = moved or renamed
        rivals = [g for g in gone if g != k and base[g][0] == s[0] and base[g][2:] == s[2:] and g.split('::')[:-1] == k.split('::')[:-1]]
        if len(c) == 1 and (moved or not rivals):
            out[k] = c[0]
    for k, n in out.items():
        if list(out.values()).count(n) == 1:
            con[n] = con.pop(k)
    return con


def load(inline=True):
    """the extracted items; helpers without a contract are expanded into their callers"""
    d = extract()
    if inline:
        con = adopt(parse_contracts(), d['items'])
        unc = [fkey(i) for i in d['items'] if i['kind'] == 'fn' and fkey(i) not in con and fkey(i) not in baseline().get('uncontracted', [])]
        if unc:
            try:
                return extract(unc)
            except Lost:
                pass
    return d


def extract(inline=()):
    exe = build_vx()
    r = subprocess.run([exe, SRC, ','.join(sorted(NATIVE)), ','.join(inline)], capture_output=True, text=True)
    if r.returncode:
        raise Lost('extraction failed: ' + r.stderr[-800:])
    return json.loads(r.stdout)


def assemble(path, skip=(), inline=True, drop=()):
    g = Gen(load(inline), skip, drop)
    txt = g.run()
    os.makedirs(os.path.dirname(path), exist_ok=True)
    open(path, 'w').write(txt)
    return g


def verus(path, args=(), timeout=600):
    t = time.time()
    cmd = ['verus', path, '--error-format=json', '--output-json', '--time', '--num-threads', '8', '--rlimit', '30', *args]
    r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=os.path.dirname(path))
    out = {'diags': [], 'secs': time.time() - t, 'rc': r.returncode, 'stderr_tail': r.stderr[-2000:]}
    for l in r.stderr.split('\n'):
        if l.startswith('{'):
            try:
                out['diags'].append(json.loads(l))
            except Exception:
                pass
    try:
        out['json'] = json.loads(r.stdout)
    except Exception:
        out['json'] = None
    return out


def front_end_refused(v):
    j = v['json']
    return not j or 'verification-results' not in j or j['verification-results'].get('encountered-vir-error') or not j.get('times-ms', {}).get('smt', {}).get('smt-run-module-times')


def prove(path, args=(), timeout=600):
    """Assembles and verifies. A function whose body the front end refuses is set aside (its contract stays, its body is
    not verified and it is reported as such) so that the rest can still be decided."""
    skip, inline, drop = {}, True, {}
    for _ in range(12):
        g = assemble(path, skip, inline, drop)
        v = verus(path, args, timeout)
        if not front_end_refused(v):
            break
        new, out = {}, {}
        for d in v['diags']:
            if d.get('level') != 'error':
                continue
            infs = [g.info[s['line_start'] - 1] for s in sorted(d.get('spans') or [], key=lambda s: not s.get('is_primary')) if s['file_name'].endswith('ob.rs')]
            bodies = [i['fn'] for i in infs if i.get('fn') and i.get('part') == 'body']
            for f in bodies:
                if f not in skip:
                    new.setdefault(f, d['message'][:200])
            if not bodies:
                for i in infs:
                    if i.get('fn') and i.get('part') is None and i['fn'] in g.plain and i['fn'] not in drop:
                        out.setdefault(i['fn'], d['message'][:200])
        if inline and g.inlined and (set(new) & set(g.inlined) or not (new or out)):
            if os.environ.get("VX_DEBUG"): print("not expanded:", new, file=sys.stderr)
            inline = False   # an expansion is not accepted: leave the helpers as they are
            continue
        if not (new or out):
            break
        skip.update(new)
        drop.update(out)
    return g, v


def main():
    path = BUILD + '/gen/ob.rs'
    if '--gen' not in sys.argv:
        g, v = prove(path, [a for a in sys.argv[1:] if a != '-v'])
    else:
        g = assemble(path)
    for n in g.notes:
        print('NOTE', n)
    print('uncontracted:', len(g.uncontracted), ' '.join(g.uncontracted) if '-v' in sys.argv else '')
    args = [a for a in sys.argv[1:] if a != '-v']
    if '--gen' in args:
        return
    n = 0
    for d in v['diags']:
        if d.get('level') in ('error', 'warning') and d.get('spans') and not d['message'].startswith('unused'):
            if d['level'] == 'warning' and '-w' not in sys.argv:
                continue
            n += 1
            if n > 25:
                continue
            print('==', d['level'], d['message'][:600])
            for s in d['spans']:
                if s['file_name'].endswith('ob.rs'):
                    inf = g.info[s['line_start'] - 1]
                    print('   ', s['line_start'], s.get('label') or '', '|', s['text'][0]['text'].strip()[:150] if s['text'] else '', '|', inf.get('fn') or inf.get('lemma') or inf.get('part'), inf.get('part', ''), inf.get('tags', ''))
        elif d.get('level') == 'error':
            print('==', d['message'][:300])
    j = v['json']
    if j:
        print(j.get('verification-results'), round(v['secs'], 1), 's')
    else:
        print('no json', v['stderr_tail'][-1500:] if n == 0 else '', round(v['secs'], 1))


if __name__ == '__main__':
    main()
