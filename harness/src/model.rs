// Reference semantics, written from the property statements, on a decoded snapshot of the real storage.
use cosmwasm_std::{Addr, Coin, CosmosMsg, BankMsg, Decimal256, Order, Record, ReplyOn, Response, Storage, Uint128, Uint256, Uint512};
use cw_storage_plus::{Item, Map};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use sumtree_orderbook::state;
use sumtree_orderbook::types::{LimitOrder, OrderDirection, Orderbook, TickState, TickValues};

pub type Dir = OrderDirection;
pub const BASE: &str = "base";
pub const QUOTE: &str = "quote";
pub const MIN_TICK: i64 = -108_000_000;
pub const MAX_TICK: i64 = 182_402_823;

#[derive(Clone, Default)]
pub struct Mem(pub BTreeMap<Vec<u8>, Vec<u8>>);
impl Storage for Mem {
    fn get(&self, k: &[u8]) -> Option<Vec<u8>> { self.0.get(k).cloned() }
    fn set(&mut self, k: &[u8], v: &[u8]) { self.0.insert(k.to_vec(), v.to_vec()); }
    fn remove(&mut self, k: &[u8]) { self.0.remove(k); }
    fn range<'a>(&'a self, s: Option<&[u8]>, e: Option<&[u8]>, o: Order) -> Box<dyn Iterator<Item = Record> + 'a> {
        use std::ops::Bound::*;
        let lo = match s { Some(x) => Included(x.to_vec()), None => Unbounded };
        let hi = match e { Some(x) => Excluded(x.to_vec()), None => Unbounded };
        if let (Included(a), Excluded(b)) = (&lo, &hi) { if a >= b { return Box::new(std::iter::empty()); } }
        let it = self.0.range((lo, hi)).map(|(k, v)| (k.clone(), v.clone()));
        match o { Order::Ascending => Box::new(it), Order::Descending => Box::new(it.rev()) }
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum NodeType {
    Leaf { value: Decimal256, etas: Decimal256 },
    Internal { accumulator: Decimal256, range: (Decimal256, Decimal256), weight: u64 },
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct TreeNode { pub key: u64, pub tick_id: i64, pub direction: Dir, pub left: Option<u64>, pub right: Option<u64>, pub parent: Option<u64>, pub node_type: NodeType }

const ORDERS: Map<(i64, u64), LimitOrder> = Map::new("orders");
const NODES: Map<(i64, u64), TreeNode> = Map::new("nodes");
const NODE_CTR: Map<i64, u64> = Map::new("node_id");
const TREE: Map<(i64, String), u64> = Map::new("tree");
const ADMIN: Item<Addr> = Item::new("admin");
const ADMIN_OFFER: Item<Addr> = Item::new("admin_offer");
const MODERATOR: Item<Addr> = Item::new("moderator");
const MODERATOR_OFFER: Item<Addr> = Item::new("moderator_offer");

#[derive(Clone, Debug, PartialEq)]
pub struct Roles { pub admin: Option<Addr>, pub admin_offer: Option<Addr>, pub moderator: Option<Addr>, pub moderator_offer: Option<Addr>, pub active: Option<bool>, pub fee: Option<Decimal256>, pub recipient: Option<Addr> }

#[derive(Clone, Debug, PartialEq)]
pub struct Snap {
    pub book: Option<Orderbook>,
    pub order_id: Option<u64>,
    pub orders: BTreeMap<(i64, u64), LimitOrder>,
    pub ticks: BTreeMap<i64, TickState>,
    pub dliq: BTreeMap<String, Decimal256>,
    pub roles: Roles,
    pub nodes: BTreeMap<(i64, u64), TreeNode>,
    pub tree: BTreeMap<(i64, String), u64>,
    pub ctr: BTreeMap<i64, u64>,
}

pub fn snap(s: &dyn Storage) -> Result<Snap, String> {
    let e = |x: cosmwasm_std::StdError| x.to_string();
    Ok(Snap {
        book: state::ORDERBOOK.may_load(s).map_err(e)?,
        order_id: state::ORDER_ID.may_load(s).map_err(e)?,
        orders: ORDERS.range(s, None, None, Order::Ascending).collect::<Result<_, _>>().map_err(e)?,
        ticks: state::TICK_STATE.range(s, None, None, Order::Ascending).collect::<Result<_, _>>().map_err(e)?,
        dliq: state::DIRECTION_TOTAL_LIQUIDITY.range(s, None, None, Order::Ascending).collect::<Result<_, _>>().map_err(e)?,
        roles: Roles {
            admin: ADMIN.may_load(s).map_err(e)?, admin_offer: ADMIN_OFFER.may_load(s).map_err(e)?,
            moderator: MODERATOR.may_load(s).map_err(e)?, moderator_offer: MODERATOR_OFFER.may_load(s).map_err(e)?,
            active: state::IS_ACTIVE.may_load(s).map_err(e)?, fee: state::MAKER_FEE.may_load(s).map_err(e)?, recipient: state::MAKER_FEE_RECIPIENT.may_load(s).map_err(e)?,
        },
        nodes: NODES.range(s, None, None, Order::Ascending).collect::<Result<_, _>>().map_err(e)?,
        tree: TREE.range(s, None, None, Order::Ascending).collect::<Result<_, _>>().map_err(e)?,
        ctr: NODE_CTR.range(s, None, None, Order::Ascending).collect::<Result<_, _>>().map_err(e)?,
    })
}

pub fn opp(d: Dir) -> Dir { match d { Dir::Bid => Dir::Ask, Dir::Ask => Dir::Bid } }
pub fn dkey(d: Dir) -> String { match d { Dir::Bid => "bid".into(), Dir::Ask => "ask".into() } }
pub fn dep_denom(d: Dir) -> &'static str { match d { Dir::Bid => QUOTE, Dir::Ask => BASE } }
pub fn pay_denom(d: Dir) -> &'static str { dep_denom(opp(d)) }
pub fn dec(n: u128) -> Decimal256 { Decimal256::new(Uint256::from(n) * Uint256::from(1_000_000_000_000_000_000u128)) }
pub fn tv(t: &TickState, d: Dir) -> TickValues { t.get_values_ref(d) }
pub trait GetRef { fn get_values_ref(&self, d: Dir) -> TickValues; }
impl GetRef for TickState {
    fn get_values_ref(&self, d: Dir) -> TickValues { match d { Dir::Bid => self.bid_values.clone(), Dir::Ask => self.ask_values.clone() } }
}
pub fn set_tv(t: &mut TickState, d: Dir, v: TickValues) { match d { Dir::Bid => t.bid_values = v, Dir::Ask => t.ask_values = v } }
pub fn zero_tv() -> TickValues { let z = Decimal256::zero(); TickValues { total_amount_of_liquidity: z, cumulative_total_value: z, effective_total_amount_swapped: z, cumulative_realized_cancels: z, last_tick_sync_etas: z } }
pub fn zero_tick() -> TickState { TickState { ask_values: zero_tv(), bid_values: zero_tv() } }

// ---- price ladder ----
fn p10(n: u32) -> Uint512 { let mut r = Uint512::from(1u128); for _ in 0..n { r = r * Uint512::from(10u128); } r }
/// price * 10^18, exact
pub fn ladder(t: i64) -> Option<Uint512> {
    if t < MIN_TICK || t > MAX_TICK { return None; }
    if t >= 0 {
        let (k, r) = ((t / 9_000_000) as u32, (t % 9_000_000) as u128);
        Some(p10(18 + k) + Uint512::from(r) * p10(12 + k))
    } else {
        let (k, r) = (((-t) / 9_000_000) as u32, ((-t) % 9_000_000) as u128);
        let lo = p10(18 - k);
        if r == 0 { Some(lo) } else { Some(lo - Uint512::from(r) * p10(11 - k)) }
    }
}
fn e18() -> Uint512 { p10(18) }
/// 18-decimal value (atomics) of amount at price, and its floor / ceiling
pub fn value_atomics(d: Dir, amt: u128, price: Uint512) -> Uint512 {
    if amt == 0 { return Uint512::zero(); }
    match d { Dir::Ask => Uint512::from(amt) * price, Dir::Bid => Uint512::from(amt) * e18() * e18() / price }
}
pub fn vdown(d: Dir, amt: u128, price: Uint512) -> Uint512 { value_atomics(d, amt, price) / e18() }
pub fn vup(d: Dir, amt: u128, price: Uint512) -> Uint512 { let v = value_atomics(d, amt, price); let q = v / e18(); if v % e18() == Uint512::zero() { q } else { q + Uint512::from(1u128) } }
pub fn to_u128(x: Uint512) -> Option<u128> { Uint128::try_from(x).ok().map(|v| v.u128()) }
pub fn floor128(d: Decimal256) -> Option<u128> { Uint128::try_from(d.to_uint_floor()).ok().map(|v| v.u128()) }

// ---- cancellation index ----
pub struct TreeInfo { pub leaves: Vec<(Decimal256, Decimal256)>, pub bad16: Vec<String>, pub bad17: Vec<String> }
pub fn tree_info(s: &Snap, t: i64, d: Dir) -> TreeInfo {
    let mut i = TreeInfo { leaves: vec![], bad16: vec![], bad17: vec![] };
    let Some(&root) = s.tree.get(&(t, dkey(d))) else { return i; };
    if !s.nodes.contains_key(&(t, root)) { return i; }
    let mut seen = BTreeSet::new();
    if s.nodes[&(t, root)].parent.is_some() { i.bad16.push(format!("root {root} has a parent")); }
    walk(s, t, d, root, &mut i, &mut seen);
    for w in i.leaves.windows(2) { if !(w[0].0 <= w[1].0) { i.bad16.push(format!("entries out of order: {} before {}", w[0].0, w[1].0)); } }
    i
}
// -> (min start, max end, sum, true height)
fn walk(s: &Snap, t: i64, d: Dir, k: u64, i: &mut TreeInfo, seen: &mut BTreeSet<u64>) -> Option<(Decimal256, Decimal256, Decimal256, u64)> {
    if !seen.insert(k) { i.bad16.push(format!("node {k} reached twice")); return None; }
    let Some(n) = s.nodes.get(&(t, k)) else { i.bad16.push(format!("missing node {k}")); return None; };
    if n.key != k || n.tick_id != t { i.bad16.push(format!("node {k} stored under a wrong key")); }
    if n.direction != d { i.bad16.push(format!("node {k} belongs to the other direction")); }
    match &n.node_type {
        NodeType::Leaf { value, etas } => {
            if n.left.is_some() || n.right.is_some() { i.bad16.push(format!("leaf {k} has children")); }
            i.leaves.push((*etas, *value));
            Some((*etas, *etas + *value, *value, 1))
        }
        NodeType::Internal { accumulator, range, weight } => {
            let mut cs = vec![];
            let mut hs = vec![];
            for c in [n.left, n.right] {
                match c {
                    Some(c) => {
                        if let Some(cn) = s.nodes.get(&(t, c)) { if cn.parent != Some(k) { i.bad16.push(format!("node {c}: parent link {:?}, expected {k}", cn.parent)); } }
                        match walk(s, t, d, c, i, seen) { Some(x) => { hs.push(x.3); cs.push(x) } None => hs.push(0) }
                    }
                    None => hs.push(0),
                }
            }
            if n.left.is_none() && n.right.is_some() { i.bad16.push(format!("node {k} has a right child only")); }
            if cs.is_empty() { return None; }
            let mn = cs.iter().map(|c| c.0).min().unwrap();
            let mx = cs.iter().map(|c| c.1).max().unwrap();
            let sm = cs.iter().fold(Decimal256::zero(), |a, c| a + c.2);
            let h = 1 + hs.iter().max().unwrap();
            if *accumulator != sm { i.bad16.push(format!("node {k}: sum {accumulator}, entries below add up to {sm}")); }
            if *range != (mn, mx) { i.bad16.push(format!("node {k}: range {}..{}, entries below span {mn}..{mx}", range.0, range.1)); }
            if *weight != h { i.bad17.push(format!("node {k}: recorded height {weight}, true height {h}")); }
            if hs[0].abs_diff(hs[1]) > 1 { i.bad17.push(format!("node {k}: subtree heights {} and {}", hs[0], hs[1])); }
            Some((mn, mx, sm, h))
        }
    }
}
/// quantity that synchronisation folds in, given the recorded entries, the quantity folded so far and the progress
pub fn fold_rule(leaves: &[(Decimal256, Decimal256)], realized: Decimal256, progress: Decimal256) -> Decimal256 {
    let mut p = progress;
    let mut before = Decimal256::zero();
    let mut add = Decimal256::zero();
    for (start, q) in leaves {
        if before + *q <= realized { before += *q; continue; }
        if *start <= p { p += *q; add += *q; before += *q; } else { break; }
    }
    add
}
/// tick values after synchronising to the tick's own progress
pub fn synced_tv(s: &Snap, t: i64, d: Dir) -> TickValues {
    let v = s.ticks.get(&t).map(|x| tv(x, d)).unwrap_or_else(zero_tv);
    if v.last_tick_sync_etas == v.effective_total_amount_swapped { return v; }
    let mut l = tree_info(s, t, d).leaves;
    l.sort();
    let a = fold_rule(&l, v.cumulative_realized_cancels, v.effective_total_amount_swapped);
    TickValues { last_tick_sync_etas: v.effective_total_amount_swapped, cumulative_realized_cancels: v.cumulative_realized_cancels + a, effective_total_amount_swapped: v.effective_total_amount_swapped + a, ..v }
}

// ---- transfers ----
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Pay { pub from: String, pub to: String, pub denom: String, pub amt: String }
fn varint(b: &[u8], i: &mut usize) -> u64 { let mut r = 0; let mut s = 0; loop { let x = b[*i]; *i += 1; r |= ((x & 0x7f) as u64) << s; if x & 0x80 == 0 { return r; } s += 7; } }
fn fields(b: &[u8]) -> Vec<(u64, Vec<u8>)> { let mut i = 0; let mut o = vec![]; while i < b.len() { let k = varint(b, &mut i); let n = varint(b, &mut i) as usize; o.push((k >> 3, b[i..i + n].to_vec())); i += n; } o }
fn st(b: &[u8]) -> String { String::from_utf8_lossy(b).to_string() }
pub fn pays(r: &Response, contract: &str) -> (Vec<Pay>, Vec<String>) {
    let mut out = vec![];
    let mut bad = vec![];
    for m in &r.messages {
        if m.reply_on != ReplyOn::Error && m.reply_on != ReplyOn::Always { bad.push(format!("transfer {:?} is not reported back on failure", m.msg)); }
        match &m.msg {
            CosmosMsg::Bank(BankMsg::Send { to_address, amount }) => for c in amount { out.push(Pay { from: contract.into(), to: to_address.clone(), denom: c.denom.clone(), amt: c.amount.to_string() }); },
            CosmosMsg::Stargate { type_url, value } if type_url == "/cosmos.bank.v1beta1.MsgSend" => {
                let f = fields(value.as_slice());
                let from = f.iter().find(|x| x.0 == 1).map(|x| st(&x.1)).unwrap_or_default();
                let to = f.iter().find(|x| x.0 == 2).map(|x| st(&x.1)).unwrap_or_default();
                for (_, c) in f.iter().filter(|x| x.0 == 3) {
                    let g = fields(c);
                    out.push(Pay { from: from.clone(), to: to.clone(), denom: g.iter().find(|x| x.0 == 1).map(|x| st(&x.1)).unwrap_or_default(), amt: g.iter().find(|x| x.0 == 2).map(|x| st(&x.1)).unwrap_or_default() });
                }
            }
            m => out.push(Pay { from: "?".into(), to: "?".into(), denom: format!("{m:?}"), amt: "?".into() }),
        }
    }
    (out.into_iter().filter(|p| p.amt != "0").collect(), bad)
}
pub fn one_coin(f: &[Coin], denom: &str, q: u128) -> bool { f.len() == 1 && f[0].denom == denom && f[0].amount.u128() == q && q > 0 }
