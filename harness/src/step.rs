// One operation on the real contract, and every property's verdict about it.
use crate::model::*;
use cosmwasm_std::testing::{mock_env, MockApi};
use cosmwasm_std::{
    coin, from_json, to_json_binary, Addr, BankQuery, Coin, ContractResult as CR, Decimal, Decimal256, Deps, DepsMut, Empty, Env, MessageInfo, Querier,
    QuerierResult, QuerierWrapper, QueryRequest, Reply, Response, SubMsgResponse, SubMsgResult, SupplyResponse, SystemError, SystemResult, Timestamp, Uint128, Uint256, Uint512,
};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::FromStr;
use sumtree_orderbook::contract;
use sumtree_orderbook::msg::*;
use sumtree_orderbook::types::{LimitOrder, TickState};
use sumtree_orderbook::{sudo, tick, tick_math};

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Op {
    Exec { sender: String, funds: Vec<Coin>, msg: ExecuteMsg, time: u64 },
    Sudo { msg: SudoMsg },
    Sync { tick: i64 },
    Query { msg: QueryMsg },
    Inst { base: String, quote: String },
    Reply { id: u64, err: bool },
    Craft { tick: i64, bid: bool, etas: Uint128, qty: Uint128 },
    Price { tick: i64 },
    Value { bid: bool, tick: i64, amt: Uint128, up: bool },
}
pub struct Viol { pub props: Vec<&'static str>, pub what: String }

pub struct Q;
impl Querier for Q {
    fn raw_query(&self, b: &[u8]) -> QuerierResult {
        let r: QueryRequest<Empty> = match from_json(b) { Ok(v) => v, Err(e) => return SystemResult::Err(SystemError::InvalidRequest { error: e.to_string(), request: b.into() }) };
        match r {
            QueryRequest::Bank(BankQuery::Supply { denom }) => {
                if denom.starts_with("err") { return SystemResult::Err(SystemError::Unknown {}); }
                let a = if denom.starts_with("zero") { 0 } else if denom.starts_with("one") { 1 } else { 1_000_000_000_000 };
                let mut s = SupplyResponse::default();
                s.amount = coin(a, denom);
                SystemResult::Ok(CR::Ok(to_json_binary(&s).unwrap()))
            }
            _ => SystemResult::Err(SystemError::Unknown {}),
        }
    }
}
pub struct World {
    pub st: Mem, pub api: MockApi, pub env: Env,
    pub max_id: Option<u64>,
    pub held_in: BTreeMap<String, Uint256>, pub held_out: BTreeMap<String, Uint256>,
    pub crafted: bool,
}
pub const GOV: &str = "osmo10d07y265gmmuvt4z0w9aw880jnsr700jjeq4qp";
pub const BREAKER: &str = "osmo1peuxfjj66n2qt2v5jmqlvzz8neakjgduez7vttvemw58uug6546sr60ngl";
pub const FEE_DEFAULT: &str = "osmo1r9jc2234fljy93z80cevqjt3nmjycec8aj4cc6";

pub fn quiet<T>(f: impl FnOnce() -> Result<T, String>) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) { Ok(r) => r, Err(_) => Err("panic".into()) }
}
fn valid_addr(a: &str) -> bool { a.len() >= 3 && a.len() <= 90 && a.to_lowercase() == a }

macro_rules! v { ($o:expr, [$($p:expr),*], $($a:tt)*) => { $o.push(Viol { props: vec![$($p),*], what: format!($($a)*) }) } }

impl World {
    pub fn new() -> (World, Vec<Viol>) {
        let mut w = World { st: Mem::default(), api: MockApi::default(), env: mock_env(), max_id: None, held_in: BTreeMap::new(), held_out: BTreeMap::new(), crafted: false };
        let mut o = vec![];
        let r = w.raw_inst(BASE, QUOTE);
        if let Err(e) = r { v!(o, ["C24"], "instantiation of two supplied denominations failed: {e}"); return (w, o); }
        check_fresh(&w, BASE, QUOTE, &mut o);
        (w, o)
    }
    pub fn raw_inst(&mut self, base: &str, quote: &str) -> Result<Response, String> {
        let q = Q;
        let d = DepsMut { storage: &mut self.st, api: &self.api, querier: QuerierWrapper::new(&q) };
        let env = self.env.clone();
        quiet(|| contract::instantiate(d, env, MessageInfo { sender: Addr::unchecked("creator"), funds: vec![] }, InstantiateMsg { base_denom: base.into(), quote_denom: quote.into() }).map_err(|e| e.to_string()))
    }
    pub fn exec(&mut self, sender: &str, funds: &[Coin], msg: ExecuteMsg, time: u64) -> Result<Response, String> {
        let save = self.st.clone();
        let q = Q;
        let mut env = self.env.clone();
        env.block.time = Timestamp::from_nanos(time);
        let info = MessageInfo { sender: Addr::unchecked(sender), funds: funds.to_vec() };
        let d = DepsMut { storage: &mut self.st, api: &self.api, querier: QuerierWrapper::new(&q) };
        let r = quiet(|| contract::execute(d, env, info, msg).map_err(|e| e.to_string()));
        if r.is_err() { self.st = save; }
        r
    }
    pub fn sudo(&mut self, msg: SudoMsg) -> Result<Response, String> {
        let save = self.st.clone();
        let q = Q;
        let env = self.env.clone();
        let d = DepsMut { storage: &mut self.st, api: &self.api, querier: QuerierWrapper::new(&q) };
        let r = quiet(|| sudo::sudo(d, env, msg).map_err(|e| e.to_string()));
        if r.is_err() { self.st = save; }
        r
    }
    pub fn query(&self, msg: QueryMsg) -> Result<cosmwasm_std::Binary, String> {
        let q = Q;
        let d = Deps { storage: &self.st, api: &self.api, querier: QuerierWrapper::new(&q) };
        let env = self.env.clone();
        quiet(|| contract::query(d, env, msg).map_err(|e| e.to_string()))
    }
    pub fn sync(&mut self, t: i64) -> Result<(), String> {
        let s = snap(&self.st)?;
        let x = s.ticks.get(&t).cloned().ok_or("no tick")?;
        let save = self.st.clone();
        let st = &mut self.st;
        let r = quiet(|| tick::sync_tick(st, t, x.bid_values.effective_total_amount_swapped, x.ask_values.effective_total_amount_swapped).map_err(|e| e.to_string()));
        if r.is_err() { self.st = save; }
        r
    }
    fn pay_in(&mut self, f: &[Coin]) { for c in f { let e = self.held_in.entry(c.denom.clone()).or_insert(Uint256::zero()); *e += Uint256::from(c.amount.u128()); } }
    fn pay_out(&mut self, ps: &[Pay]) { for p in ps { if let Ok(a) = Uint256::from_str(&p.amt) { let e = self.held_out.entry(p.denom.clone()).or_insert(Uint256::zero()); *e += a; } } }
    fn me(&self) -> String { self.env.contract.address.to_string() }
}

fn check_fresh(w: &World, base: &str, quote: &str, o: &mut Vec<Viol>) {
    let s = match snap(&w.st) { Ok(s) => s, Err(e) => { v!(o, ["C24"], "state not readable after instantiation: {e}"); return; } };
    match &s.book {
        Some(b) => {
            if b.base_denom != base || b.quote_denom != quote { v!(o, ["C24"], "denominations stored as {}/{}", b.base_denom, b.quote_denom); }
            if b.next_bid_tick != MIN_TICK || b.next_ask_tick != MAX_TICK { v!(o, ["C24", "C13"], "initial best ticks {} {}", b.next_bid_tick, b.next_ask_tick); }
        }
        None => v!(o, ["C24"], "no order book stored"),
    }
    let r = &s.roles;
    if r.admin != Some(Addr::unchecked(GOV)) { v!(o, ["C24", "C18"], "initial admin {:?}", r.admin); }
    if r.moderator != Some(Addr::unchecked(BREAKER)) { v!(o, ["C24", "C18"], "initial moderator {:?}", r.moderator); }
    if r.fee.unwrap_or_default() != Decimal256::zero() { v!(o, ["C24"], "initial fee {:?}", r.fee); }
    if r.recipient != Some(Addr::unchecked(FEE_DEFAULT)) { v!(o, ["C24", "C20"], "initial fee recipient {:?}", r.recipient); }
    if r.active == Some(false) { v!(o, ["C24", "C19"], "starts switched off"); }
    if r.admin_offer.is_some() || r.moderator_offer.is_some() { v!(o, ["C24", "C18"], "open offers after instantiation"); }
    if !s.orders.is_empty() || !s.ticks.is_empty() || s.dliq.values().any(|x| !x.is_zero()) || !s.nodes.is_empty() { v!(o, ["C24"], "the book is not empty after instantiation"); }
}

/// ---------- properties of a single state ----------
pub fn check_state(s: &Snap, w: &World, o: &mut Vec<Viol>) {
    let Some(b) = &s.book else { v!(o, ["C24"], "order book lost"); return; };
    // C11 C12 C13 C14 C16 C17
    for d in [Dir::Bid, Dir::Ask] {
        let mut sum = Decimal256::zero();
        for (t, x) in &s.ticks { sum += tv(x, d).total_amount_of_liquidity;
            if !tv(x, d).total_amount_of_liquidity.is_zero() {
                match d { Dir::Bid => if *t > b.next_bid_tick { v!(o, ["C13"], "bids on tick {t} above the best bid tick {}", b.next_bid_tick) }, Dir::Ask => if *t < b.next_ask_tick { v!(o, ["C13"], "asks on tick {t} below the best ask tick {}", b.next_ask_tick) } }
            }
        }
        let rec = s.dliq.get(&dkey(d)).cloned().unwrap_or_default();
        if rec != sum { v!(o, ["C11"], "recorded {} liquidity {rec}, ticks add up to {sum}", dkey(d)); }
    }
    if b.next_bid_tick < MIN_TICK || b.next_bid_tick > MAX_TICK || b.next_ask_tick < MIN_TICK || b.next_ask_tick > MAX_TICK { v!(o, ["C13"], "best tick outside the range: {} {}", b.next_bid_tick, b.next_ask_tick); }
    let mut ticks: Vec<i64> = s.ticks.keys().cloned().collect();
    for (t, _) in s.orders.keys() { if !ticks.contains(t) { ticks.push(*t); } }
    let mut owed: BTreeMap<&str, Uint512> = BTreeMap::new();
    for t in ticks {
        for d in [Dir::Bid, Dir::Ask] {
            let v = s.ticks.get(&t).map(|x| tv(x, d)).unwrap_or_else(zero_tv);
            let ti = tree_info(s, t, d);
            for e in ti.bad16.iter().take(1) { v!(o, ["C16"], "cancellation index of tick {t} {}: {e}", dkey(d)); }
            for e in ti.bad17.iter().take(1) { v!(o, ["C17"], "cancellation index of tick {t} {}: {e}", dkey(d)); }
            let tree_sum = ti.leaves.iter().fold(Decimal256::zero(), |a, l| a + l.1);
            let lhs = v.cumulative_total_value + v.cumulative_realized_cancels;
            let rhs = v.total_amount_of_liquidity + v.effective_total_amount_swapped + tree_sum;
            if lhs != rhs { v!(o, ["C12"], "tick {t} {}: placed {} + folded {} differs from resting {} + progress {} + cancelled {}", dkey(d), v.cumulative_total_value, v.cumulative_realized_cancels, v.total_amount_of_liquidity, v.effective_total_amount_swapped, tree_sum); }
            if v.effective_total_amount_swapped > v.cumulative_total_value { v!(o, ["C12"], "tick {t} {}: progress {} beyond placed total {}", dkey(d), v.effective_total_amount_swapped, v.cumulative_total_value); }
            let mut iv: Vec<(Decimal256, Decimal256, String)> = ti.leaves.iter().map(|l| (l.0, l.0 + l.1, "cancellation".to_string())).collect();
            let sv = synced_tv(s, t, d);
            let dd = owed.entry(dep_denom(d)).or_insert(Uint512::zero());
            *dd += Uint512::from(v.total_amount_of_liquidity.to_uint_ceil());
            for ((ot, id), x) in s.orders.range((t, 0)..=(t, u64::MAX)) {
                if x.order_direction != d { continue; }
                if x.tick_id != *ot || x.order_id != *id { v!(o, ["C04"], "order {id} on tick {ot} is stored as order {} on tick {}", x.order_id, x.tick_id); }
                iv.push((x.etas, x.etas + dec(x.quantity.u128()), format!("order {id}")));
                if x.claim_bounty.map_or(false, |b| b > Decimal256::percent(1)) { v!(o, ["C20", "C03"], "order {id} rests with bounty {:?}", x.claim_bounty); }
                if sv.effective_total_amount_swapped > x.etas {
                    let filled = (sv.effective_total_amount_swapped - x.etas).min(dec(x.quantity.u128()));
                    if let (Some(f), Some(p)) = (floor128(filled), ladder(t)) { *owed.entry(pay_denom(d)).or_insert(Uint512::zero()) += vdown(d, f, p); }
                }
            }
            iv.sort_by(|a, b| (a.0, a.1).cmp(&(b.0, b.1)));
            for p in iv.windows(2) { if p[0].1 > p[1].0 { v!(o, ["C14"], "tick {t} {}: {} [{}, {}) overlaps {} [{}, {})", dkey(d), p[0].2, p[0].0, p[0].1, p[1].2, p[1].0, p[1].1); break; } }
            if let Some(l) = iv.iter().max_by_key(|x| x.1) { if l.1 > v.cumulative_total_value { v!(o, ["C14"], "tick {t} {}: {} ends at {}, only {} was ever placed", dkey(d), l.2, l.1, v.cumulative_total_value); } }
        }
    }
    if !w.crafted {
        for d in [BASE, QUOTE] {
            let have_in = Uint512::from(w.held_in.get(d).cloned().unwrap_or_default());
            let need = owed.get(d).cloned().unwrap_or_default() + Uint512::from(w.held_out.get(d).cloned().unwrap_or_default());
            if have_in < need { v!(o, ["C22"], "{d}: paid in {have_in}, paid out and still owed {need}"); }
        }
    }
    if let Some(f) = s.roles.fee { if f > Decimal256::percent(5) { v!(o, ["C20"], "stored maker fee {f}"); } }
    match &s.roles.recipient { Some(a) if valid_addr(a.as_str()) => {} x => v!(o, ["C20"], "fee recipient {x:?}") }
}

/// ---------- frames ----------
fn tick_diff(pre: &Snap, post: &Snap, skip: Option<i64>) -> Option<i64> {
    let mut ks: Vec<i64> = pre.ticks.keys().chain(post.ticks.keys()).cloned().collect();
    ks.sort(); ks.dedup();
    ks.into_iter().find(|k| Some(*k) != skip && pre.ticks.get(k) != post.ticks.get(k))
}
fn tree_frame(pre: &Snap, post: &Snap, t: i64, d: Option<Dir>, o: &mut Vec<Viol>) {
    // entries of every other index unchanged
    let mut ks: Vec<(i64, String)> = pre.tree.keys().chain(post.tree.keys()).cloned().collect();
    ks.sort(); ks.dedup();
    for k in ks {
        let kd = if k.1 == "bid" { Dir::Bid } else { Dir::Ask };
        if k.0 == t && d.map_or(false, |d| d == kd) { continue; }
        let (mut a, mut b) = (tree_info(pre, k.0, kd).leaves, tree_info(post, k.0, kd).leaves);
        a.sort(); b.sort();
        if a != b { v!(o, ["C16"], "the cancellations recorded on tick {} {} changed from {} to {} entries", k.0, k.1, a.len(), b.len()); }
    }
}
fn order_frame(pre: &Snap, post: &Snap, named: &[(i64, u64)], props: &[&'static str], o: &mut Vec<Viol>) {
    for (k, x) in &pre.orders {
        match post.orders.get(k) {
            None => if !named.contains(k) { o.push(Viol { props: [props, &["C04"]].concat(), what: format!("order {k:?} disappeared") }) },
            Some(y) => {
                if !named.contains(k) { if x != y { o.push(Viol { props: [props, &["C04"]].concat(), what: format!("order {k:?} changed: {x:?} to {y:?}") }) } }
                else if (x.tick_id, x.order_id, x.order_direction, &x.owner, x.claim_bounty, x.placed_at, x.placed_quantity) != (y.tick_id, y.order_id, y.order_direction, &y.owner, y.claim_bounty, y.placed_at, y.placed_quantity) { v!(o, ["C04"], "immutable fields of order {k:?} changed: {x:?} to {y:?}"); }
            }
        }
    }
}
fn monotone(pre: &Snap, post: &Snap, o: &mut Vec<Viol>) {
    for (t, x) in &pre.ticks {
        for d in [Dir::Bid, Dir::Ask] {
            let a = tv(x, d);
            let b = post.ticks.get(t).map(|y| tv(y, d)).unwrap_or_else(zero_tv);
            if b.cumulative_total_value < a.cumulative_total_value || b.effective_total_amount_swapped < a.effective_total_amount_swapped { v!(o, ["C12"], "tick {t} {}: placed total {} to {}, progress {} to {}", dkey(d), a.cumulative_total_value, b.cumulative_total_value, a.effective_total_amount_swapped, b.effective_total_amount_swapped); }
        }
    }
}
fn settings_frame(pre: &Snap, post: &Snap, props: &[&'static str], o: &mut Vec<Viol>) {
    if pre.roles != post.roles { o.push(Viol { props: [props, &["C18"]].concat(), what: format!("roles or settings changed: {:?} to {:?}", pre.roles, post.roles) }); }
    if let (Some(a), Some(b)) = (&pre.book, &post.book) { if a.base_denom != b.base_denom || a.quote_denom != b.quote_denom { o.push(Viol { props: [props, &["C23"]].concat(), what: "denominations changed".into() }); } }
}
fn dl(s: &Snap, d: Dir) -> Decimal256 { s.dliq.get(&dkey(d)).cloned().unwrap_or_default() }
fn same_pays(mut a: Vec<Pay>, mut b: Vec<Pay>) -> bool { a.sort(); b.sort(); a == b }

/// expected effect of one claim at snapshot `s`
pub struct ClaimExp { pub filled: u128, pub after: LimitOrder, pub pays: Vec<Pay>, pub dir: Dir, pub gross: Uint512 }
pub fn claim_exp(s: &Snap, me: &str, sender: &str, k: (i64, u64)) -> Result<ClaimExp, String> {
    let x = s.orders.get(&k).ok_or("no order")?;
    if !s.ticks.contains_key(&k.0) { return Err("no tick".into()); }
    let v = synced_tv(s, k.0, x.order_direction);
    if v.effective_total_amount_swapped <= x.etas { return Err("nothing filled".into()); }
    let fd = (v.effective_total_amount_swapped - x.etas).min(dec(x.quantity.u128()));
    let filled = floor128(fd).ok_or("too big")?;
    let price = ladder(k.0).ok_or("tick")?;
    let gross = vdown(x.order_direction, filled, price);
    let one = Uint512::from(1_000_000_000_000_000_000u128);
    let b = x.claim_bounty.map(|c| gross * Uint512::from(c.atomics()) / one).unwrap_or_default();
    let f = gross * Uint512::from(s.roles.fee.unwrap_or_default().atomics()) / one;
    if b + f > gross { return Err("fees exceed the payout".into()); }
    let net = gross - b - f;
    let mut after = x.clone();
    after.quantity = Uint128::new(x.quantity.u128() - filled);
    after.etas = x.etas + fd;
    let den = pay_denom(x.order_direction).to_string();
    let rec = s.roles.recipient.clone().map(|a| a.to_string()).unwrap_or_default();
    let p = [(x.owner.to_string(), net), (sender.to_string(), b), (rec, f)];
    let pays = p.into_iter().filter(|x| !x.1.is_zero()).map(|(to, a)| Pay { from: me.into(), to, denom: den.clone(), amt: a.to_string() }).collect();
    Ok(ClaimExp { filled, after, pays, dir: x.order_direction, gross })
}

/// expected effect of a swap
pub struct SwapExp { pub fills: Vec<(i64, u128, u128)>, pub out: u128, pub rem: u128 }
pub fn swap_exp(s: &Snap, dir: Dir, amount: u128, bound: i64) -> Result<SwapExp, &'static str> {
    let b = s.book.as_ref().ok_or("book")?;
    if amount == 0 { return Err("C10 zero input"); }
    if bound < MIN_TICK || bound > MAX_TICK { return Err("C09 bound outside the range"); }
    let ticks: Vec<i64> = match dir {
        Dir::Ask => { if bound > b.next_bid_tick { return Err("C09 bound beyond the best price"); } s.ticks.range(bound..=b.next_bid_tick).rev().map(|x| *x.0).collect() }
        Dir::Bid => { if bound < b.next_ask_tick { return Err("C09 bound beyond the best price"); } s.ticks.range(b.next_ask_tick..=bound).map(|x| *x.0).collect() }
    };
    let od = opp(dir);
    let mut e = SwapExp { fills: vec![], out: 0, rem: amount };
    let mut last = Uint512::from(1_000_000_000_000_000_000u128);
    for t in ticks {
        let v = tv(&s.ticks[&t], od);
        if v.total_amount_of_liquidity.is_zero() { continue; }
        let p = ladder(t).ok_or("tick")?;
        last = p;
        let out = vdown(dir, e.rem, p);
        if out.is_zero() { e.rem = 0; break; }
        let liq = Uint512::from(v.total_amount_of_liquidity.to_uint_floor());
        let fill = to_u128(out.min(liq)).ok_or("overflow")?;
        let charge = to_u128(vup(od, fill, p)).ok_or("overflow")?;
        if charge == 0 { return Err("C08 a fill that costs nothing"); }
        if charge > e.rem { return Err("model: charge above the remaining input"); }
        e.rem -= charge;
        e.out = e.out.checked_add(fill).ok_or("overflow")?;
        e.fills.push((t, fill, charge));
    }
    let full = match dir { Dir::Ask => bound <= MIN_TICK, Dir::Bid => bound >= MAX_TICK };
    if full && !vdown(dir, e.rem, last).is_zero() { return Err("C09 not enough liquidity"); }
    Ok(e)
}
fn pair(inp: &str, out: &str) -> Option<Dir> { if inp == BASE && out == QUOTE { Some(Dir::Ask) } else if inp == QUOTE && out == BASE { Some(Dir::Bid) } else { None } }
fn sp(p: &str) -> &'static str { const ALL: [&str; 27] = ["C00", "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26"]; ALL[p[1..3].parse::<usize>().unwrap_or(0)] }

pub fn step(w: &mut World, op: &Op) -> Vec<Viol> {
    let mut o = vec![];
    match op {
        Op::Price { tick } => { step_price(*tick, &mut o); return o; }
        Op::Value { bid, tick, amt, up } => { step_value(if *bid { Dir::Bid } else { Dir::Ask }, *tick, amt.u128(), *up, &mut o); return o; }
        Op::Inst { base, quote } => {
            let (mut n, _) = World::new();
            n.st = Mem::default();
            let good = base != quote && !["zero", "err"].iter().any(|p| base.starts_with(p) || quote.starts_with(p));
            let r = n.raw_inst(base, quote);
            match r {
                Ok(_) if !good => v!(o, ["C24"], "instantiated with denominations {base:?} / {quote:?}"),
                Ok(_) => check_fresh(&n, base, quote, &mut o),
                Err(e) if good => v!(o, ["C24"], "instantiation with {base}/{quote} failed: {e}"),
                Err(_) => {}
            }
            return o;
        }
        Op::Reply { id, err } => {
            let q = Q;
            let mut st = w.st.clone();
            let d = DepsMut { storage: &mut st, api: &w.api, querier: QuerierWrapper::new(&q) };
            let res = if *err { SubMsgResult::Err("bank: no".into()) } else { SubMsgResult::Ok(SubMsgResponse { events: vec![], data: None }) };
            let env = w.env.clone();
            let r = quiet(|| contract::reply(d, env, Reply { id: *id, result: res }).map_err(|e| e.to_string()));
            if *err && r.is_ok() { v!(o, ["C24"], "a failed transfer (reply id {id}) is accepted"); }
            return o;
        }
        _ => {}
    }
    let pre = match snap(&w.st) { Ok(s) => s, Err(e) => { v!(o, ["C04", "C25"], "state not readable: {e}"); return o; } };
    let me = w.me();
    match op {
        Op::Query { msg } => { step_query(w, &pre, msg, &mut o); if snap(&w.st).ok().as_ref() != Some(&pre) { v!(o, ["C25"], "a query changed the state"); } return o; }
        Op::Sync { tick } => {
            let r = w.sync(*tick);
            let Ok(post) = snap(&w.st) else { v!(o, ["C15"], "state not readable"); return o; };
            if !pre.ticks.contains_key(tick) { return o; }
            match r {
                Err(e) => v!(o, ["C15"], "synchronising tick {tick} failed: {e}"),
                Ok(()) => {
                    check_sync(&pre, &post, *tick, &mut o);
                    if let Some(k) = tick_diff(&pre, &post, Some(*tick)) { v!(o, ["C15"], "synchronising tick {tick} changed tick {k}"); }
                    order_frame(&pre, &post, &[], &["C15"], &mut o);
                    settings_frame(&pre, &post, &["C15"], &mut o);
                    if pre.dliq != post.dliq { v!(o, ["C11", "C15"], "synchronisation moved the recorded liquidity"); }
                    // again, now without new fills: nothing is advanced
                    let mut w2 = World { st: w.st.clone(), api: MockApi::default(), env: w.env.clone(), max_id: None, held_in: BTreeMap::new(), held_out: BTreeMap::new(), crafted: true };
                    if w2.sync(*tick).is_ok() { if let Ok(p2) = snap(&w2.st) { for d in [Dir::Bid, Dir::Ask] {
                        let (a, b) = (tv(&post.ticks[tick], d), tv(&p2.ticks[tick], d));
                        if a.effective_total_amount_swapped != b.effective_total_amount_swapped || a.cumulative_realized_cancels != b.cumulative_realized_cancels { v!(o, ["C15"], "a second synchronisation of tick {tick} advanced {} again", dkey(d)); }
                    } } }
                }
            }
            finish(w, &pre, &post, &mut o);
        }
        Op::Craft { tick, bid, etas, qty } => {
            if pre.roles.active == Some(false) { return o; }
            let d = if *bid { Dir::Bid } else { Dir::Ask };
            let id = pre.order_id.unwrap_or(0);
            let x = LimitOrder::new(*tick, id, d, Addr::unchecked("alice"), *qty, dec(etas.u128()), None);
            use sumtree_orderbook::state as stt;
            let mut t = pre.ticks.get(tick).cloned().unwrap_or_else(zero_tick);
            let mut vv = tv(&t, d);
            vv.total_amount_of_liquidity += dec(qty.u128());
            vv.cumulative_total_value += dec(qty.u128());
            set_tv(&mut t, d, vv);
            let _ = stt::orders().save(&mut w.st, &(*tick, id), &x);
            let _ = stt::TICK_STATE.save(&mut w.st, *tick, &t);
            let _ = stt::DIRECTION_TOTAL_LIQUIDITY.save(&mut w.st, &dkey(d), &(dl(&pre, d) + dec(qty.u128())));
            let _ = stt::ORDER_ID.save(&mut w.st, &(id + 1));
            w.crafted = true;
            let before = snap(&w.st).unwrap();
            let old = tree_info(&before, *tick, d).leaves;
            let (a, b) = (dec(etas.u128()), dec(etas.u128()) + dec(qty.u128()));
            let overlaps = old.iter().any(|l| l.0 < b && a < l.0 + l.1);
            let inside = old.iter().any(|l| l.0 <= a && b <= l.0 + l.1);
            let r = w.exec("alice", &[], ExecuteMsg::CancelLimit { tick_id: *tick, order_id: id }, 1);
            let Ok(post) = snap(&w.st) else { return o; };
            match r {
                Err(e) if !overlaps && a >= synced_tv(&before, *tick, d).effective_total_amount_swapped => v!(o, ["C16"], "a cancellation [{a}, {b}) that overlaps no entry was refused: {e}"),
                Ok(_) if !overlaps || inside => {
                    let i = tree_info(&post, *tick, d);
                    for e in i.bad16.iter().take(1) { v!(o, ["C16"], "after recording [{a}, {b}): {e}"); }
                    for e in i.bad17.iter().take(1) { v!(o, ["C17"], "after recording [{a}, {b}): {e}"); }
                    let mut want = old.clone(); want.push((a, dec(qty.u128()))); want.sort();
                    let mut got = i.leaves; got.sort();
                    if want != got { v!(o, ["C16"], "recording [{a}, {b}) gave {} entries, expected {}", got.len(), want.len()); }
                }
                _ => {}
            }
            return o;
        }
        Op::Exec { sender, funds, msg, time } => {
            let mut tw = None;
            if let ExecuteMsg::BatchClaim { .. } = msg { tw = Some(w.st.clone()); }
            let r = w.exec(sender, funds, msg.clone(), *time);
            let Ok(post) = snap(&w.st) else { v!(o, ["C04", "C25"], "state not readable after {msg:?}"); return o; };
            let off = pre.roles.active == Some(false);
            if off && r.is_ok() && !matches!(msg, ExecuteMsg::Auth(_)) { v!(o, ["C19"], "{msg:?} succeeded while switched off"); }
            if r.is_ok() { w.pay_in(funds); }
            let mut ps = vec![];
            if let Ok(resp) = &r {
                let (p, bad) = pays(resp, &me);
                for b in bad { v!(o, ["C24"], "{b}"); }
                w.pay_out(&p);
                ps = p;
            }
            match msg {
                ExecuteMsg::PlaceLimit { tick_id, order_direction, quantity, claim_bounty } => {
                    let d = *order_direction; let t = *tick_id; let q = quantity.u128();
                    let okr = t >= MIN_TICK && t <= MAX_TICK && q > 0 && claim_bounty.map_or(true, |b| b <= Decimal256::percent(1)) && one_coin(funds, dep_denom(d), q);
                    match &r {
                        Err(e) => if okr && !off { v!(o, ["C03"], "a valid order was refused: {e}") },
                        Ok(_) => {
                            if !okr {
                                let mut p = vec!["C03"];
                                if one_coin(funds, pay_denom(d), q) { p.push("C23"); }
                                if claim_bounty.map_or(false, |b| b > Decimal256::percent(1)) { p.push("C20"); }
                                o.push(Viol { props: p, what: format!("accepted an invalid order: tick {t} {d:?} quantity {q} bounty {claim_bounty:?} funds {funds:?}") });
                            }
                            let new: Vec<_> = post.orders.iter().filter(|(k, x)| pre.orders.get(k) != Some(x)).collect();
                            if new.len() != 1 || pre.orders.contains_key(new[0].0) { v!(o, ["C03", "C04"], "placing an order stored {} records, replaced {}", new.len(), new.iter().filter(|x| pre.orders.contains_key(x.0)).count()); }
                            else {
                                let (k, x) = new[0];
                                if w.max_id.map_or(false, |m| k.1 <= m) { v!(o, ["C04"], "new order id {} after id {:?}", k.1, w.max_id); }
                                w.max_id = Some(k.1.max(w.max_id.unwrap_or(0)));
                                let pv = pre.ticks.get(&t).map(|y| tv(y, d)).unwrap_or_else(zero_tv);
                                let mut e = LimitOrder::new(t, k.1, d, Addr::unchecked(sender.clone()), *quantity, pv.cumulative_total_value, *claim_bounty);
                                e.placed_at = Timestamp::from_nanos(*time);
                                e.placed_quantity = *quantity;
                                if *k != (t, x.order_id) || *x != e { v!(o, ["C03", "C04"], "stored {x:?} under {k:?}, expected {e:?}"); }
                            }
                            order_frame(&pre, &post, &[], &["C03"], &mut o);
                            let mut et = pre.ticks.get(&t).cloned().unwrap_or_else(zero_tick);
                            let mut ev = tv(&et, d);
                            ev.total_amount_of_liquidity += dec(q); ev.cumulative_total_value += dec(q);
                            set_tv(&mut et, d, ev);
                            if post.ticks.get(&t) != Some(&et) { v!(o, ["C03", "C12"], "tick {t} after placing {q} {d:?}: {:?}, expected {et:?}", post.ticks.get(&t)); }
                            if let Some(k) = tick_diff(&pre, &post, Some(t)) { v!(o, ["C03"], "placing on tick {t} changed tick {k}"); }
                            if dl(&post, d) != dl(&pre, d) + dec(q) || dl(&post, opp(d)) != dl(&pre, opp(d)) { v!(o, ["C03", "C11"], "recorded liquidity after placing {q} {d:?}: {} / {}", dl(&post, d), dl(&post, opp(d))); }
                            settings_frame(&pre, &post, &["C03"], &mut o);
                            tree_frame(&pre, &post, t, None, &mut o);
                            if !ps.is_empty() { v!(o, ["C03"], "placing an order sent {ps:?}"); }
                        }
                    }
                }
                ExecuteMsg::CancelLimit { tick_id, order_id } => {
                    let (t, k) = (*tick_id, (*tick_id, *order_id));
                    let x = pre.orders.get(&k);
                    let okr = match x { None => false, Some(x) => funds.is_empty() && x.owner == sender.as_str() && synced_tv(&pre, t, x.order_direction).effective_total_amount_swapped <= x.etas };
                    match &r {
                        Err(e) => if okr && !off { v!(o, ["C05", "C16"], "cancelling the unfilled order {k:?} by its owner failed: {e}") },
                        Ok(_) => {
                            if !okr { v!(o, ["C05"], "cancellation of {x:?} by {sender} with funds {funds:?} succeeded; progress {:?}", x.map(|x| synced_tv(&pre, t, x.order_direction).effective_total_amount_swapped)); }
                            if let Some(x) = x {
                                let d = x.order_direction;
                                let want = vec![Pay { from: me.clone(), to: x.owner.to_string(), denom: dep_denom(d).into(), amt: x.quantity.to_string() }];
                                if !same_pays(ps.clone(), want) { let mut p = vec!["C05"]; if ps.iter().any(|p| p.denom != dep_denom(d)) { p.push("C23"); } o.push(Viol { props: p, what: format!("cancelling {x:?} paid {ps:?}") }); }
                                if post.orders.contains_key(&k) { v!(o, ["C05"], "order {k:?} still there after its cancellation"); }
                                order_frame(&pre, &post, &[k], &["C05"], &mut o);
                                for n in post.orders.keys() { if !pre.orders.contains_key(n) { v!(o, ["C05", "C04"], "cancellation created order {n:?}"); } }
                                let q = dec(x.quantity.u128());
                                for dd in [Dir::Bid, Dir::Ask] {
                                    let mut e = synced_tv(&pre, t, dd);
                                    if dd == d { e.total_amount_of_liquidity = e.total_amount_of_liquidity.checked_sub(q).unwrap_or_default(); }
                                    let g = post.ticks.get(&t).map(|y| tv(y, dd)).unwrap_or_else(zero_tv);
                                    if g.total_amount_of_liquidity != e.total_amount_of_liquidity { v!(o, ["C05", "C12"], "resting {} of tick {t} after the cancellation: {}, expected {}", dkey(dd), g.total_amount_of_liquidity, e.total_amount_of_liquidity); }
                                    if g.cumulative_total_value != e.cumulative_total_value { v!(o, ["C05", "C12"], "placed total of tick {t} {} changed to {}", dkey(dd), g.cumulative_total_value); }
                                    if g.effective_total_amount_swapped != e.effective_total_amount_swapped || g.cumulative_realized_cancels != e.cumulative_realized_cancels { v!(o, ["C15"], "tick {t} {}: progress {} folded {}, expected {} and {}", dkey(dd), g.effective_total_amount_swapped, g.cumulative_realized_cancels, e.effective_total_amount_swapped, e.cumulative_realized_cancels); }
                                }
                                if let Some(n) = tick_diff(&pre, &post, Some(t)) { v!(o, ["C05"], "cancelling on tick {t} changed tick {n}"); }
                                if dl(&post, d) + q != dl(&pre, d) || dl(&post, opp(d)) != dl(&pre, opp(d)) { v!(o, ["C05", "C11"], "recorded liquidity after cancelling {q} {d:?}: {} / {}, before {} / {}", dl(&post, d), dl(&post, opp(d)), dl(&pre, d), dl(&pre, opp(d))); }
                                settings_frame(&pre, &post, &["C05"], &mut o);
                                tree_frame(&pre, &post, t, Some(d), &mut o);
                                let mut a = tree_info(&pre, t, d).leaves; a.push((x.etas, q)); a.sort();
                                let mut b = tree_info(&post, t, d).leaves; b.sort();
                                if a != b { v!(o, ["C16"], "after cancelling [{}, +{q}) the index of tick {t} holds {b:?}, expected {a:?}", x.etas); }
                            }
                        }
                    }
                }
                ExecuteMsg::ClaimLimit { tick_id, order_id } => {
                    let k = (*tick_id, *order_id);
                    let e = claim_exp(&pre, &me, sender, k);
                    match (&r, e) {
                        (Err(e), Ok(x)) => if funds.is_empty() && !off {
                            let feeish = !pre.roles.fee.unwrap_or_default().is_zero() || x.after.claim_bounty.is_some();
                            o.push(Viol { props: if feeish { vec!["C06", "C20"] } else { vec!["C06"] }, what: format!("claiming {} filled units of {k:?} failed: {e}", x.filled) });
                        },
                        (Ok(_), Err(e)) => v!(o, ["C06"], "claim of {k:?} succeeded although: {e}; paid {ps:?}"),
                        (Err(_), Err(_)) => {}
                        (Ok(_), Ok(x)) => {
                            if !same_pays(ps.clone(), x.pays.clone()) { let mut p = vec!["C06"]; if ps.iter().any(|y| y.denom != pay_denom(x.dir)) { p.push("C23"); } o.push(Viol { props: p, what: format!("claim of {k:?} (filled {} worth {}) paid {ps:?}, expected {:?}", x.filled, x.gross, x.pays) }); }
                            let want = if x.after.quantity.is_zero() { None } else { Some(&x.after) };
                            if post.orders.get(&k) != want { v!(o, ["C06"], "order {k:?} after its claim: {:?}, expected {want:?}", post.orders.get(&k)); }
                            claim_frame(&pre, &post, &[k], "C06", &mut o);
                        }
                    }
                }
                ExecuteMsg::BatchClaim { orders } => {
                    let okr = funds.is_empty() && orders.len() <= 100;
                    match &r {
                        Err(e) => if okr && !off { v!(o, ["C07"], "batch of {} entries failed: {e}", orders.len()) },
                        Ok(_) => {
                            if !okr { v!(o, ["C07"], "batch of {} entries with funds {funds:?} accepted", orders.len()); }
                            // the same entries as single claims on a copy
                            let mut w2 = World { st: tw.unwrap(), api: MockApi::default(), env: w.env.clone(), max_id: None, held_in: BTreeMap::new(), held_out: BTreeMap::new(), crafted: true };
                            let mut want = vec![];
                            let mut groups = vec![];
                            let mut failed = vec![];
                            for (t, i) in orders {
                                match w2.exec(sender, &[], ExecuteMsg::ClaimLimit { tick_id: *t, order_id: *i }, *time) { Ok(resp) => { let x = pays(&resp, &me).0; groups.push(x.len()); want.extend(x) } Err(_) => failed.push(*t) }
                            }
                            // entry by entry; within one entry the order of the transfers is free
                            let mut at = 0;
                            let same = ps.len() == want.len() && groups.iter().all(|n| { let r = at..at + n; at += n; same_pays(ps[r.clone()].to_vec(), want[r].to_vec()) });
                            if !same { v!(o, ["C07"], "batch {orders:?} paid {ps:?}, the single claims pay {want:?}"); }
                            if let Ok(s2) = snap(&w2.st) {
                                if s2.orders != post.orders { let k = s2.orders.keys().chain(post.orders.keys()).find(|k| s2.orders.get(k) != post.orders.get(k)); v!(o, ["C07"], "order {k:?} differs after the batch {orders:?} and after the single claims: {:?} / {:?}", k.and_then(|k| post.orders.get(k)), k.and_then(|k| s2.orders.get(k))); }
                                if s2.dliq != post.dliq || s2.roles != post.roles || s2.book != post.book { v!(o, ["C07"], "settings or recorded liquidity differ between batch and single claims"); }
                                for t in s2.ticks.keys().chain(post.ticks.keys()) { for d in [Dir::Bid, Dir::Ask] {
                                    let (a, b) = (s2.ticks.get(t).map(|x| tv(x, d)).unwrap_or_else(zero_tv), post.ticks.get(t).map(|x| tv(x, d)).unwrap_or_else(zero_tv));
                                    if a.total_amount_of_liquidity != b.total_amount_of_liquidity || a.cumulative_total_value != b.cumulative_total_value { v!(o, ["C07"], "resting or placed totals of tick {t} differ between batch and single claims"); }
                                    if !failed.contains(t) && (a.effective_total_amount_swapped != b.effective_total_amount_swapped || a.cumulative_realized_cancels != b.cumulative_realized_cancels) { v!(o, ["C07"], "progress of tick {t} differs between batch and single claims"); }
                                } }
                            }
                            claim_frame(&pre, &post, orders, "C07", &mut o);
                        }
                    }
                }
                ExecuteMsg::Auth(m) => {
                    let mut e = pre.roles.clone();
                    let is = |a: &Option<Addr>| a.as_ref().map_or(false, |x| x.as_str() == sender.as_str());
                    let (adm, offr, md, mo) = (is(&pre.roles.admin), is(&pre.roles.admin_offer), is(&pre.roles.moderator), is(&pre.roles.moderator_offer));
                    let sd = Some(Addr::unchecked(sender.clone()));
                    let mut props = vec!["C18"];
                    let ok = match m {
                        AuthExecuteMsg::TransferAdmin { new_admin } => { e.admin_offer = Some(new_admin.clone()); adm && valid_addr(new_admin.as_str()) }
                        AuthExecuteMsg::CancelAdminTransfer {} => { e.admin_offer = None; adm }
                        AuthExecuteMsg::RejectAdminTransfer {} => { e.admin_offer = None; offr }
                        AuthExecuteMsg::ClaimAdmin {} => { e.admin = sd; e.admin_offer = None; offr }
                        AuthExecuteMsg::RenounceAdminship {} => { e.admin = None; e.admin_offer = None; adm }
                        AuthExecuteMsg::OfferModerator { new_moderator } => { e.moderator_offer = Some(new_moderator.clone()); adm && valid_addr(new_moderator.as_str()) }
                        AuthExecuteMsg::RejectModeratorOffer {} => { e.moderator_offer = None; mo }
                        AuthExecuteMsg::ClaimModerator {} => { e.moderator = sd; e.moderator_offer = None; mo }
                        AuthExecuteMsg::SetActive { active } => { props.push("C19"); e.active = Some(*active); adm || md }
                        AuthExecuteMsg::SetMakerFee { fee } => { props.push("C20"); e.fee = Some(*fee); adm && *fee <= Decimal256::percent(5) }
                        AuthExecuteMsg::SetMakerFeeRecipient { recipient } => { props.push("C20"); e.recipient = Some(recipient.clone()); adm && valid_addr(recipient.as_str()) }
                    };
                    match &r {
                        Ok(_) => {
                            if !ok { o.push(Viol { props: props.clone(), what: format!("{m:?} by {sender} succeeded; roles {:?}", pre.roles) }); }
                            else if post.roles != e { if post.roles.active != e.active { props.push("C19"); } o.push(Viol { props: props.clone(), what: format!("{m:?} by {sender} gave {:?}, expected {e:?}", post.roles) }); }
                            if (Snap { roles: pre.roles.clone(), ..post.clone() }) != pre { v!(o, ["C19", "C18"], "{m:?} changed more than roles"); }
                            if !ps.is_empty() { v!(o, ["C18"], "{m:?} sent {ps:?}"); }
                        }
                        Err(er) => if ok { if off { props.push("C19"); } o.push(Viol { props, what: format!("{m:?} by the authorised {sender} failed: {er}") }); },
                    }
                }
            }
            finish(w, &pre, &post, &mut o);
        }
        Op::Sudo { msg } => {
            let off = pre.roles.active == Some(false);
            let quote = if let SudoMsg::SwapExactAmountIn { token_in, token_out_denom, swap_fee, .. } = msg {
                let a = w.query(QueryMsg::CalcOutAmtGivenIn { token_in: token_in.clone(), token_out_denom: token_out_denom.clone(), swap_fee: *swap_fee });
                let b = w.query(QueryMsg::CalcOutAmountGivenIn { token_in: token_in.clone(), token_out_denom: token_out_denom.clone(), swap_fee: *swap_fee });
                if a.as_ref().ok() != b.as_ref().ok() { v!(o, ["C21"], "the two quote queries disagree"); }
                if a.is_ok() && !swap_fee.is_zero() { v!(o, ["C21"], "quote for swap fee {swap_fee}"); }
                Some(a)
            } else { None };
            let r = w.sudo(msg.clone());
            let Ok(post) = snap(&w.st) else { v!(o, ["C08"], "state not readable after {msg:?}"); return o; };
            if off && r.is_ok() { v!(o, ["C19"], "{msg:?} succeeded while switched off"); }
            let mut ps = vec![];
            if let Ok(resp) = &r { let (p, bad) = pays(resp, &me); for b in bad { v!(o, ["C24"], "{b}"); } ps = p; }
            match msg {
                SudoMsg::SwapExactAmountIn { sender, token_in, token_out_denom, token_out_min_amount, swap_fee } => step_swap(w, &pre, &post, &r, &ps, sender, token_in, token_out_denom, token_out_min_amount.u128(), *swap_fee, None, quote, off, &mut o),
                SudoMsg::SwapToTick { sender, token_in, token_out_denom, token_out_min_amount, swap_fee, target_tick } => step_swap(w, &pre, &post, &r, &ps, sender, token_in, token_out_denom, token_out_min_amount.u128(), *swap_fee, Some(*target_tick), None, off, &mut o),
                SudoMsg::SwapExactAmountOut { .. } => { if r.is_ok() && (post != pre || !ps.is_empty()) { v!(o, ["C10"], "exact-output swap had an effect"); } }
                _ => {
                    let mut e = pre.roles.clone();
                    let ok = match msg {
                        SudoMsg::TransferAdmin { new_admin } => { e.admin = Some(new_admin.clone()); e.admin_offer = None; valid_addr(new_admin.as_str()) }
                        SudoMsg::RemoveAdmin {} => { e.admin = None; e.admin_offer = None; true }
                        SudoMsg::SetActive { active } => { e.active = Some(*active); true }
                        _ => false,
                    };
                    match &r {
                        Ok(_) => {
                            if !ok { v!(o, ["C18"], "{msg:?} succeeded"); }
                            else if post.roles != e { v!(o, [if post.roles.active != e.active { "C19" } else { "C18" }], "{msg:?} gave {:?}, expected {e:?}", post.roles); }
                            if (Snap { roles: pre.roles.clone(), ..post.clone() }) != pre { v!(o, ["C18"], "{msg:?} changed more than roles"); }
                            if !ps.is_empty() { v!(o, ["C18"], "{msg:?} sent {ps:?}"); }
                        }
                        Err(er) => if ok && !off { v!(o, ["C18", "C19"], "{msg:?} failed: {er}") },
                    }
                }
            }
            finish(w, &pre, &post, &mut o);
        }
        _ => {}
    }
    o
}
fn check_sync(pre: &Snap, post: &Snap, t: i64, o: &mut Vec<Viol>) {
    for d in [Dir::Bid, Dir::Ask] {
        let (a, e, g) = (pre.ticks.get(&t).map(|x| tv(x, d)).unwrap_or_else(zero_tv), synced_tv(pre, t, d), post.ticks.get(&t).map(|x| tv(x, d)).unwrap_or_else(zero_tv));
        if g.effective_total_amount_swapped != e.effective_total_amount_swapped || g.cumulative_realized_cancels != e.cumulative_realized_cancels { v!(o, ["C15"], "synchronising tick {t} {} moved the progress from {} to {} (folded {} to {}), expected {} ({})", dkey(d), a.effective_total_amount_swapped, g.effective_total_amount_swapped, a.cumulative_realized_cancels, g.cumulative_realized_cancels, e.effective_total_amount_swapped, e.cumulative_realized_cancels); }
        if g.total_amount_of_liquidity != a.total_amount_of_liquidity || g.cumulative_total_value != a.cumulative_total_value { v!(o, ["C15"], "synchronising tick {t} {} changed resting or placed totals", dkey(d)); }
    }
}
fn claim_frame(pre: &Snap, post: &Snap, named: &[(i64, u64)], prop: &'static str, o: &mut Vec<Viol>) {
    order_frame(pre, post, named, &[prop], o);
    for n in post.orders.keys() { if !pre.orders.contains_key(n) { v!(o, [prop, "C04"], "a claim created order {n:?}"); } }
    for (t, x) in post.ticks.iter() {
        if !named.iter().any(|k| k.0 == *t) { if pre.ticks.get(t) != Some(x) { v!(o, [prop], "claims on other ticks changed tick {t}"); } continue; }
        check_sync_or_same(pre, post, *t, o);
    }
    for t in pre.ticks.keys() { if !post.ticks.contains_key(t) { v!(o, [prop], "tick {t} disappeared"); } }
    for d in [Dir::Bid, Dir::Ask] { if dl(pre, d) != dl(post, d) { v!(o, [prop, "C11"], "a claim moved the recorded {} liquidity", dkey(d)); } }
    settings_frame(pre, post, &[prop], o);
    tree_frame(pre, post, 0, None, o);
}
fn check_sync_or_same(pre: &Snap, post: &Snap, t: i64, o: &mut Vec<Viol>) {
    // a batch entry that fails before synchronising leaves the tick alone
    if pre.ticks.get(&t) == post.ticks.get(&t) { return; }
    check_sync(pre, post, t, o);
}
fn finish(w: &World, pre: &Snap, post: &Snap, o: &mut Vec<Viol>) {
    monotone(pre, post, o);
    check_state(post, w, o);
}
#[allow(clippy::too_many_arguments)]
fn step_swap(w: &mut World, pre: &Snap, post: &Snap, r: &Result<Response, String>, ps: &[Pay], sender: &str, tin: &Coin, tout: &str, min_out: u128, fee: Decimal, target: Option<i64>, quote: Option<Result<cosmwasm_std::Binary, String>>, off: bool, o: &mut Vec<Viol>) {
    let me = w.me();
    if r.is_ok() { w.pay_in(&[tin.clone()]); w.pay_out(ps); }
    let dir = pair(&tin.denom, tout);
    let exp = match dir {
        None => Err("C10 wrong denominations"),
        Some(d) => if !fee.is_zero() { Err("C10 swap fee") } else if !valid_addr(sender) { Err("C10 sender") } else {
            match swap_exp(pre, d, tin.amount.u128(), target.unwrap_or(match d { Dir::Bid => MAX_TICK, Dir::Ask => MIN_TICK })) {
                Ok(e) => if e.out < min_out { Err("C10 minimum output") } else { Ok(e) },
                Err(e) => Err(e),
            }
        },
    };
    // C21
    if let (Some(q), Some(d)) = (quote, dir) {
        let free = swap_exp(pre, d, tin.amount.u128(), match d { Dir::Bid => MAX_TICK, Dir::Ask => MIN_TICK });
        let q = q.ok().and_then(|b| from_json::<CalcOutAmtGivenInResponse>(b).ok()).map(|x| x.token_out);
        match (&q, r) {
            (Some(c), Ok(_)) => { let got: Option<String> = ps.iter().find(|p| p.denom == tout).map(|p| p.amt.clone()).or(Some("0".into())); if Some(c.amount.clone()) != got || c.denom != tout { v!(o, ["C21"], "quoted {c:?}, the swap of {tin} paid {got:?}"); } }
            (None, Ok(_)) => v!(o, ["C21"], "no quote for a swap of {tin} that succeeds"),
            (Some(c), Err(e)) => if !off && valid_addr(sender) && c.amount.parse::<u128>().map_or(true, |a| a >= min_out) { v!(o, ["C21"], "quoted {c:?} for a swap of {tin} that fails: {e}"); },
            (None, Err(_)) => if free.is_ok() && fee.is_zero() { v!(o, ["C21"], "no quote for {tin} although the book can fill it"); },
        }
        if let (Some(c), Err(e)) = (&q, &free) { v!(o, ["C21"], "quoted {c:?} for {tin} although: {e}"); }
    }
    match (r, exp) {
        (Err(_), Err(_)) => {}
        (Err(e), Ok(x)) => if !off { v!(o, ["C08", "C09", "C10"], "swap of {tin} to {target:?} failed ({e}), expected output {}", x.out) },
        (Ok(_), Err(e)) => if !off { if dir.is_none() { v!(o, ["C23"], "swap of {tin} for {tout} succeeded"); } o.push(Viol { props: vec![if e.starts_with('C') { sp(e) } else { "C08" }], what: format!("swap of {tin} for {tout} (fee {fee}, sender {sender:?}, minimum {min_out}, target {target:?}) succeeded although: {e}; paid {ps:?}") }) },
        (Ok(resp), Ok(x)) => {
            let d = dir.unwrap();
            let od = opp(d);
            let mut any = false;
            // which ticks supplied what
            let mut got: Vec<(i64, Decimal256)> = vec![];
            for (t, a) in &pre.ticks {
                let (va, vb) = (tv(a, od), post.ticks.get(t).map(|y| tv(y, od)).unwrap_or_else(zero_tv));
                if va != vb {
                    let f = va.total_amount_of_liquidity.checked_sub(vb.total_amount_of_liquidity).unwrap_or_default();
                    got.push((*t, f));
                    let mut e = va.clone();
                    e.total_amount_of_liquidity = va.total_amount_of_liquidity.checked_sub(f).unwrap_or_default();
                    e.effective_total_amount_swapped += f;
                    if e != vb { any = true; v!(o, ["C08"], "tick {t} {} supplied {f} but its values went from {va:?} to {vb:?}", dkey(od)); }
                }
                if tv(a, d) != post.ticks.get(t).map(|y| tv(y, d)).unwrap_or_else(zero_tv) { v!(o, ["C08"], "a swap changed the {} side of tick {t}", dkey(d)); }
            }
            for t in post.ticks.keys() { if !pre.ticks.contains_key(t) { v!(o, ["C08"], "a swap created tick {t}"); } }
            let mut wants: Vec<(i64, Decimal256)> = x.fills.iter().map(|f| (f.0, dec(f.1))).collect();
            wants.sort();
            if got != wants && !any {
                let order_bad = got.iter().map(|g| g.0).collect::<Vec<_>>() != wants.iter().map(|g| g.0).collect::<Vec<_>>();
                o.push(Viol { props: if order_bad { vec!["C09", "C08"] } else { vec!["C08"] }, what: format!("swap of {tin} to {target:?} took {got:?}, expected {wants:?}") });
            }
            let sum = got.iter().fold(Decimal256::zero(), |a, g| a + g.1);
            let outp: Vec<&Pay> = ps.iter().filter(|p| p.denom == tout).collect();
            let out_amt = outp.iter().fold(Uint256::zero(), |a, p| a + Uint256::from_str(&p.amt).unwrap_or_default());
            if Decimal256::new(out_amt * Uint256::from(1_000_000_000_000_000_000u128)) != sum { v!(o, ["C08", "C10"], "swap paid {out_amt} {tout}, ticks supplied {sum}"); }
            let mut want = vec![Pay { from: me.clone(), to: sender.into(), denom: tout.into(), amt: x.out.to_string() }];
            if x.rem > 0 { want.push(Pay { from: me.clone(), to: sender.into(), denom: tin.denom.clone(), amt: x.rem.to_string() }); }
            let want: Vec<Pay> = want.into_iter().filter(|p| p.amt != "0").collect();
            if !same_pays(ps.to_vec(), want.clone()) {
                let refund = |v: &[Pay]| v.iter().filter(|p| p.denom == tin.denom).map(|p| p.amt.clone()).collect::<Vec<_>>();
                o.push(Viol { props: if refund(ps) != refund(&want) { vec!["C10", "C08"] } else { vec!["C10"] }, what: format!("swap of {tin} paid {ps:?}, expected {want:?}") });
            }
            let data = resp.data.clone().and_then(|b| from_json::<SwapExactAmountInResponseData>(b).ok()).map(|d| d.token_out_amount);
            if data != Some(out_amt) { v!(o, ["C10"], "response reports {data:?}, paid {out_amt}"); }
            if dl(post, od) + sum != dl(pre, od) || dl(post, d) != dl(pre, d) { v!(o, ["C11"], "recorded liquidity after a swap of {sum} {}: {} to {}", dkey(od), dl(pre, od), dl(post, od)); }
            order_frame(pre, post, &[], &["C08"], o);
            for n in post.orders.keys() { if !pre.orders.contains_key(n) { v!(o, ["C08", "C04"], "a swap created order {n:?}"); } }
            settings_frame(pre, post, &["C08"], o);
            tree_frame(pre, post, 0, None, o);
        }
    }
}

fn step_price(t: i64, o: &mut Vec<Viol>) {
    let r = quiet(|| tick_math::tick_to_price(t).map_err(|e| e.to_string()));
    match (r, ladder(t)) {
        (Ok(p), Some(e)) => { if Uint512::from(p.atomics()) != e { v!(o, ["C01"], "price of tick {t}: {p}, the ladder says {e} / 10^18"); }
            if t > MIN_TICK { if let Ok(Ok(q)) = catch_unwind(|| tick_math::tick_to_price(t - 1)) { if q >= p { v!(o, ["C01"], "price does not increase from tick {} to {t}", t - 1); } } } }
        (Ok(p), None) => v!(o, ["C01"], "tick {t} outside the range has price {p}"),
        (Err(e), Some(_)) => v!(o, ["C01"], "tick {t} has no price: {e}"),
        (Err(_), None) => {}
    }
}
fn step_value(d: Dir, t: i64, amt: u128, up: bool, o: &mut Vec<Viol>) {
    let Ok(p) = quiet(|| tick_math::tick_to_price(t).map_err(|e| e.to_string())) else { return; };
    let pr = Uint512::from(p.atomics());
    if pr.is_zero() { return; }
    let rd = || if up { tick_math::RoundingDirection::Up } else { tick_math::RoundingDirection::Down };
    let want = if up { vup(d, amt, pr) } else { vdown(d, amt, pr) };
    let want = Uint256::try_from(want).unwrap_or(Uint256::MAX);
    match quiet(|| tick_math::amount_to_value(d, Uint128::new(amt), p, rd()).map_err(|e| e.to_string())) {
        Ok(g) => if g != want { v!(o, ["C02"], "{amt} {d:?} at tick {t} (up: {up}) is {g}, expected {want}") },
        Err(e) => v!(o, ["C02"], "{amt} {d:?} at tick {t} cannot be converted: {e}"),
    }
}
fn step_query(w: &World, s: &Snap, m: &QueryMsg, o: &mut Vec<Viol>) {
    let r = w.query(m.clone());
    let b = s.book.clone();
    match m {
        QueryMsg::SpotPrice { quote_asset_denom: q, base_asset_denom: ba } => {
            let one = Uint512::from(1_000_000_000_000_000_000u128);
            let want = b.and_then(|b| match (ba.as_str(), q.as_str()) { (BASE, QUOTE) => ladder(b.next_bid_tick), (QUOTE, BASE) => ladder(b.next_ask_tick).map(|p| one * one / p), _ => None });
            let got = r.as_ref().ok().and_then(|x| from_json::<SpotPriceResponse>(x).ok()).map(|x| Uint512::from(Uint256::from(x.spot_price.atomics())));
            // prices of 2^128/10^18 and above do not fit the reply type
            let want = want.filter(|x| Uint128::try_from(*x).is_ok());
            if got != want { v!(o, ["C23"], "spot price of {ba} in {q}: {got:?}, expected {want:?}"); }
        }
        QueryMsg::CalcOutAmtGivenIn { token_in, token_out_denom, swap_fee } | QueryMsg::CalcOutAmountGivenIn { token_in, token_out_denom, swap_fee } => {
            let e = pair(&token_in.denom, token_out_denom).and_then(|d| swap_exp(s, d, token_in.amount.u128(), match d { Dir::Bid => MAX_TICK, Dir::Ask => MIN_TICK }).ok());
            let e = if swap_fee.is_zero() { e } else { None };
            let got = r.ok().and_then(|x| from_json::<CalcOutAmtGivenInResponse>(x).ok()).map(|x| x.token_out);
            if got.is_some() && pair(&token_in.denom, token_out_denom).is_none() { v!(o, ["C23"], "quote for the pair {} to {token_out_denom}: {got:?}", token_in.denom); }
            if got.as_ref().map(|c| c.amount.clone()) != e.as_ref().map(|x| x.out.to_string()) || got.as_ref().map_or(false, |c| c.denom != *token_out_denom) { v!(o, ["C21"], "quote for {token_in} to {token_out_denom} (fee {swap_fee}): {got:?}, the swap would pay {:?}", e.map(|x| x.out)); }
        }
        QueryMsg::GetTotalPoolLiquidity {} => {
            let f = |d| floor128(s.ticks.values().fold(Decimal256::zero(), |a, x| a + tv(x, d).total_amount_of_liquidity)).map(|a| coin(a, dep_denom(d)));
            if let (Some(a), Some(bb)) = (f(Dir::Ask), f(Dir::Bid)) {
                let mut want = vec![a, bb]; want.sort_by(|x, y| x.denom.cmp(&y.denom));
                let mut got = r.as_ref().ok().and_then(|x| from_json::<GetTotalPoolLiquidityResponse>(x).ok()).map(|x| x.total_pool_liquidity).unwrap_or_default(); got.sort_by(|x, y| x.denom.cmp(&y.denom));
                if got != want { v!(o, ["C11"], "pool liquidity {got:?}, resting {want:?}"); }
            }
        }
        QueryMsg::AllTicks { start_from, end_at, limit } => {
            let want: Vec<(i64, TickState)> = s.ticks.iter().filter(|(t, _)| start_from.map_or(true, |a| **t >= a) && end_at.map_or(true, |a| **t <= a)).take(limit.unwrap_or(usize::MAX)).map(|(t, x)| (*t, x.clone())).collect();
            let got: Option<Vec<(i64, TickState)>> = r.as_ref().ok().and_then(|x| from_json::<TicksResponse>(x).ok()).map(|x| x.ticks.into_iter().map(|y| (y.tick_id, y.tick_state)).collect());
            if got.as_ref() != Some(&want) { v!(o, ["C25"], "all ticks {start_from:?}..{end_at:?} limit {limit:?}: {:?}, expected {:?}", got.map(|g| g.iter().map(|x| x.0).collect::<Vec<_>>()), want.iter().map(|x| x.0).collect::<Vec<_>>()); }
        }
        QueryMsg::TicksById { tick_ids } => {
            let want: Option<Vec<(i64, TickState)>> = tick_ids.iter().map(|t| s.ticks.get(t).map(|x| (*t, x.clone()))).collect();
            let got: Option<Vec<(i64, TickState)>> = r.as_ref().ok().and_then(|x| from_json::<TicksResponse>(x).ok()).map(|x| x.ticks.into_iter().map(|y| (y.tick_id, y.tick_state)).collect());
            if got != want { v!(o, ["C25"], "ticks {tick_ids:?}: {got:?}, expected {want:?}"); }
        }
        QueryMsg::OrdersByOwner { owner, start_from, end_at, limit } => {
            let all: Vec<&LimitOrder> = s.orders.values().filter(|x| x.owner == *owner).collect();
            let want: Vec<LimitOrder> = s.orders.iter().filter(|(k, x)| x.owner == *owner && start_from.map_or(true, |a| **k >= a) && end_at.map_or(true, |a| **k <= a)).take(limit.unwrap_or(100) as usize).map(|x| x.1.clone()).collect();
            let got = r.as_ref().ok().and_then(|x| from_json::<OrdersResponse>(x).ok());
            if got.as_ref().map(|g| &g.orders) != Some(&want) { v!(o, ["C25"], "orders of {owner} {start_from:?}..{end_at:?} limit {limit:?}: {:?} of {}, expected {} orders", got.map(|g| g.orders.len()), all.len(), want.len()); }
            else if got.unwrap().count != all.len() as u64 { v!(o, ["C25"], "count of the orders of {owner}"); }
        }
        QueryMsg::OrdersByTick { tick_id, start_from, end_at, limit } => {
            let sel: Vec<LimitOrder> = s.orders.iter().filter(|(k, _)| k.0 == *tick_id && start_from.map_or(true, |a| k.1 >= a) && end_at.map_or(true, |a| k.1 <= a)).map(|x| x.1.clone()).collect();
            let want: Vec<LimitOrder> = sel.iter().take(limit.unwrap_or(u64::MAX) as usize).cloned().collect();
            let got = r.as_ref().ok().and_then(|x| from_json::<OrdersResponse>(x).ok());
            if got.as_ref().map(|g| &g.orders) != Some(&want) { v!(o, ["C25"], "orders of tick {tick_id} {start_from:?}..{end_at:?} limit {limit:?}: {:?}, expected {} orders", got.map(|g| g.orders.len()), want.len()); }
            else if got.unwrap().count != sel.len() as u64 { v!(o, ["C25"], "count of the orders of tick {tick_id}"); }
        }
        QueryMsg::GetUnrealizedCancels { tick_ids } => {
            let want: Option<Vec<(i64, Decimal256, Decimal256)>> = tick_ids.iter().map(|t| s.ticks.get(t).map(|x| {
                let f = |d| { let mut l = tree_info(s, *t, d).leaves; l.sort(); let v = tv(x, d); fold_rule(&l, v.cumulative_realized_cancels, v.effective_total_amount_swapped) };
                (*t, f(Dir::Ask), f(Dir::Bid)) })).collect();
            let got: Option<Vec<(i64, Decimal256, Decimal256)>> = r.as_ref().ok().and_then(|x| from_json::<GetUnrealizedCancelsResponse>(x).ok()).map(|x| x.ticks.into_iter().map(|y| (y.tick_id, y.unrealized_cancels.ask_unrealized_cancels, y.unrealized_cancels.bid_unrealized_cancels)).collect());
            if got != want { v!(o, ["C26"], "unrealised cancellations of {tick_ids:?} (tick, ask, bid): {got:?}, expected {want:?}"); }
        }
        QueryMsg::IsActive {} => { let got = r.as_ref().ok().and_then(|x| from_json::<bool>(x).ok()); if got != Some(s.roles.active.unwrap_or(true)) { v!(o, ["C19"], "status query says {got:?}, the switch is {:?}", s.roles.active); } }
        QueryMsg::GetMakerFee {} => { let got = r.as_ref().ok().and_then(|x| from_json::<Decimal256>(x).ok()); if got != Some(s.roles.fee.unwrap_or_default()) { v!(o, ["C20"], "fee query says {got:?}, stored {:?}", s.roles.fee); } }
        QueryMsg::Denoms {} => { let got = r.as_ref().ok().and_then(|x| from_json::<DenomsResponse>(x).ok()); if got.map(|g| (g.base_denom, g.quote_denom)) != Some((BASE.into(), QUOTE.into())) { v!(o, ["C23"], "denominations query"); } }
        QueryMsg::OrderbookState {} => { let got = r.as_ref().ok().and_then(|x| from_json::<sumtree_orderbook::types::Orderbook>(x).ok()); if got != b { v!(o, ["C25", "C13"], "order book query {got:?}, stored {b:?}"); } }
        QueryMsg::Auth(a) => {
            let want = match a { AuthQueryMsg::Admin {} => &s.roles.admin, AuthQueryMsg::AdminOffer {} => &s.roles.admin_offer, AuthQueryMsg::Moderator {} => &s.roles.moderator, AuthQueryMsg::ModeratorOffer {} => &s.roles.moderator_offer };
            let got = r.as_ref().ok().and_then(|x| from_json::<Option<Addr>>(x).ok());
            if got.as_ref() != Some(want) { v!(o, ["C18"], "{a:?} query says {got:?}, stored {want:?}"); }
        }
        _ => {}
    }
}
