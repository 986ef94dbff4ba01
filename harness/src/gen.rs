// Random histories. Requests are chosen from the current state of the real contract so that most of them matter:
// swap amounts are built from the exact cost of filling ticks, cancellations and claims name live orders, and so on.
use crate::model::*;
use crate::step::{swap_exp, Op, World, BREAKER, GOV};
use cosmwasm_std::{coin, Addr, Coin, Decimal, Decimal256, Uint128, Uint256};
use std::collections::BTreeMap;
use sumtree_orderbook::msg::*;

#[derive(Clone, Copy, PartialEq, Debug)]
enum P { Tiny, Multi, Extreme, Auth, Bulk, Math, Deep, Wide }
pub struct Gen {
    pub interesting: bool,
    pub count: BTreeMap<&'static str, u64>,
    s: u64, prop: String, prof: P, left: u32, ticks: Vec<i64>, qmax: u128, oneside: u8, queue: Vec<Op>, time: u64, cancel_w: u64, craft: bool, lits: Vec<u128>, news: Vec<u128>,
}
const USERS: [&str; 4] = ["alice", "bobby", "carol", "david"];
const E18: u128 = 1_000_000_000_000_000_000;

fn env_list(k: &str) -> Vec<u128> { std::env::var(k).unwrap_or_default().split(',').filter_map(|x| x.parse().ok()).collect() }

impl Gen {
    pub fn new(prop: &str, seed: u64) -> Gen {
        let mut g = Gen { interesting: false, count: BTreeMap::new(), s: seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03, prop: prop.into(), prof: P::Multi, left: 0, ticks: vec![], qmax: 5, oneside: 2, queue: vec![], time: 1, cancel_w: 15, craft: false, lits: env_list("OBH_DICT"), news: env_list("OBH_NEW") };
        for _ in 0..4 { g.r(); }
        use P::*;
        let menu: &[P] = match prop {
            "C01" | "C02" => &[Math],
            "C16" | "C17" => &[Deep, Deep, Tiny, Tiny, Deep, Extreme],
            "C15" | "C26" | "C12" | "C14" => &[Deep, Tiny, Tiny, Multi, Extreme],
            "C18" => &[Auth],
            "C19" | "C20" => &[Auth, Auth, Tiny, Multi, Extreme],
            "C07" => &[Bulk, Tiny, Tiny, Multi, Deep, Extreme],
            "C25" => &[Bulk, Multi, Tiny, Multi, Wide],
            "C08" | "C09" | "C10" | "C21" | "C13" | "C23" => &[Multi, Multi, Extreme, Tiny, Wide],
            "C03" | "C06" | "C05" | "C22" => &[Tiny, Multi, Extreme, Deep],
            "C24" => &[Auth, Multi, Tiny],
            _ => &[Tiny, Multi, Deep, Extreme],
        };
        g.prof = menu[g.n(menu.len() as u64) as usize];
        g.craft = (prop == "C16" || prop == "C17") && g.n(3) == 0;
        let mid = [0, 0, -1, 5, 8_999_999, 9_000_000, -9_000_000, 18_000_001, -17_999_999, 45_123_457, -60_000_007][g.n(11) as usize];
        match g.prof {
            Tiny | Deep => { g.ticks = vec![mid]; if g.n(3) == 0 { g.ticks.push(mid + 1); } g.qmax = 1 + g.n(6) as u128; g.left = 30 + g.n(if g.prof == Deep { 130 } else { 60 }) as u32; g.oneside = g.n(4) as u8; g.cancel_w = 12 + g.n(30); }
            Multi => { let k = 2 + g.n(6) as i64; let st = [1, 1, 3, 1_000_000, 9_000_000][g.n(5) as usize]; let c = mid; g.ticks = (0..k).map(|i| (c + (i - k / 2) * st).clamp(MIN_TICK, MAX_TICK)).collect(); g.qmax = [4, 20, 1000, 1_000_000_007][g.n(4) as usize]; g.left = 30 + g.n(70) as u32; }
            Extreme => { let all = [MIN_TICK, MIN_TICK + 1, MAX_TICK, MAX_TICK - 1, 0, -1, 1, 9_000_000, -9_000_000, 180_000_000, -99_000_001, 100_000_000]; let k = 1 + g.n(4); for _ in 0..k { let t = all[g.n(12) as usize]; g.ticks.push(t); } g.qmax = 1u128 << (1 + g.n(110)); g.left = 20 + g.n(40) as u32; }
            Auth => { g.ticks = vec![mid, mid + 1]; g.qmax = 9; g.left = 30 + g.n(60) as u32; }
            Bulk => { g.ticks = vec![mid, mid + 1]; g.qmax = 3; g.left = 150; g.time = 5; }
            Math => { g.left = 400; }
            Wide => { let k = g.lit_under(3, 1200).map(|x| x as i64 + 2).unwrap_or(40 + g.n(160) as i64); g.ticks = (0..k).map(|i| i - k / 2).collect(); g.qmax = 9; g.left = 40; g.cancel_w = 6; g.oneside = g.n(4) as u8; }
        }
        if g.prof != Math && g.prof != Wide {
            if let Some(x) = g.lit_under(4, 200_000_000) { let t = if g.n(2) == 0 { x as i64 } else { -(x as i64) }; let t = t.clamp(MIN_TICK, MAX_TICK); if g.n(2) == 0 { g.ticks.push(t); } else { g.ticks = vec![t]; } }
            if let Some(x) = g.lit_under(4, 400) { g.left += x as u32; }
            if let Some(x) = g.lit_under(6, 1 << 110) { g.qmax = x; }
        }
        if g.prof == Bulk {
            let n = g.lit_under(3, 1200).map(|x| x as u64).unwrap_or(99 + g.n(8)).max(8);
            for _ in 0..n { let q = 1 + g.n(3) as u128; let t = g.pt(); let d = g.dir(); let o = g.place_op("alice", t, d, q, None); g.queue.push(o); }
            g.left = n as u32 + 15;
        }
        if g.prof == Wide {
            let ts = g.ticks.clone();
            for t in &ts { let q = 1 + g.n(9) as u128; let d = if g.oneside == 0 || g.oneside > 1 && *t < 0 { Dir::Bid } else { Dir::Ask }; let o = g.place_op("alice", *t, d, q, None); g.queue.push(o); }
            g.left += ts.len() as u32;
        }
        // a fee and a bounty make the payouts interesting
        if g.prof != Math && g.n(2) == 0 { let f = g.fee(); g.queue.insert(0, Op::Exec { sender: GOV.into(), funds: vec![], msg: ExecuteMsg::Auth(AuthExecuteMsg::SetMakerFee { fee: f }), time: 0 }); }
        g
    }
    fn r(&mut self) -> u64 { let mut x = self.s; x ^= x << 13; x ^= x >> 7; x ^= x << 17; self.s = x; x.wrapping_mul(0x2545F4914F6CDD1D) }
    fn n(&mut self, m: u64) -> u64 { (self.r() >> 11) % m.max(1) }
    fn w(&mut self, ws: &[u64]) -> usize { let t: u64 = ws.iter().sum(); let mut x = self.n(t); for (i, w) in ws.iter().enumerate() { if x < *w { return i; } x -= w; } 0 }
    /// now and then: a number near one that the source mentions (first of all one it did not mention before)
    fn lit(&mut self, rare: u64) -> Option<u128> {
        let k = if self.news.is_empty() { rare * 4 } else { rare };
        if self.n(k) != 0 { return None; }
        let v = if !self.news.is_empty() && self.n(4) != 0 { &self.news } else { &self.lits };
        if v.is_empty() { return None; }
        let (v, i) = (v.clone(), 0usize);
        let x = v[(i + self.n(v.len() as u64) as usize) % v.len()];
        Some(match self.n(8) { 0 => x.saturating_add(1), 1 => x.saturating_sub(1), 2 => x.saturating_mul(2), 3 => x / 2, 4 => x.saturating_mul(10u128.pow(self.n(10) as u32)), _ => x })
    }
    fn lit_under(&mut self, rare: u64, max: u128) -> Option<u128> { self.lit(rare).filter(|x| *x > 0 && *x <= max) }
    fn user(&mut self) -> &'static str { USERS[self.n(4) as usize] }
    fn pt(&mut self) -> i64 { { let n = self.ticks.len() as u64; let i = self.n(n) as usize; self.ticks[i] } }
    fn dir(&mut self) -> Dir { match self.oneside { 0 => Dir::Bid, 1 => Dir::Ask, _ => if self.n(2) == 0 { Dir::Bid } else { Dir::Ask } } }
    fn qty(&mut self) -> u128 { if let Some(x) = self.lit_under(10, 1 << 110) { return x; } if self.prof == P::Extreme && self.n(2) == 0 { let b = self.n(100) + 1; return 1 + (self.r() as u128 * self.r() as u128) % (1u128 << b); } 1 + (self.r() as u128) % self.qmax }
    fn fee(&mut self) -> Decimal256 { if let Some(x) = self.lit_under(8, E18) { let e = [1u128, 1, 1_000_000_000, 100_000_000_000_000, 1_000_000_000_000_000, 10_000_000_000_000_000][self.n(6) as usize]; return Decimal256::new(Uint256::from(x.saturating_mul(e).min(E18))); } let m = self.n(8); Decimal256::new(Uint256::from(match m { 0 => 0u128, 1 => 50_000_000_000_000_000, 2 => 1, 3 => 50_000_000_000_000_000 + 1, 4 => 60_000_000_000_000_000, _ => self.r() as u128 % 50_000_000_000_000_000 })) }
    fn bounty(&mut self) -> Option<Decimal256> {
        if let Some(x) = self.lit_under(8, E18) { let e = [1u128, 1, 1_000_000_000, 100_000_000_000_000, 1_000_000_000_000_000][self.n(5) as usize]; return Some(Decimal256::new(Uint256::from(x.saturating_mul(e).min(10_000_000_000_000_000)))); }
        Some(Decimal256::new(Uint256::from(match self.n(12) { 0 => 0u128, 1 | 2 => 10_000_000_000_000_000, 3 => if self.n(3) == 0 { 10_000_000_000_000_001 } else { 1 }, 4 => if self.n(3) == 0 { E18 } else { 999 }, 5 | 6 => self.r() as u128 % 10_000_000_000_000_000, _ => return None })))
    }
    fn place_op(&mut self, who: &str, t: i64, d: Dir, q: u128, b: Option<Decimal256>) -> Op {
        self.time += 1 + self.s % 3;
        Op::Exec { sender: who.into(), funds: vec![coin(q, dep_denom(d))], msg: ExecuteMsg::PlaceLimit { tick_id: t, order_direction: d, quantity: Uint128::new(q), claim_bounty: b }, time: self.time }
    }
    fn exec(&mut self, who: &str, msg: ExecuteMsg) -> Op {
        self.time += 1;
        let funds = if self.n(25) == 0 { vec![coin(1, [BASE, QUOTE, "other"][self.n(3) as usize])] } else { vec![] };
        Op::Exec { sender: who.into(), funds, msg, time: self.time }
    }
    fn place(&mut self) -> Op {
        let (t, d, q, b) = (self.pt(), self.dir(), self.qty(), self.bounty());
        let who = self.user();
        let mut op = self.place_op(who, t, d, q, b);
        if self.n(12) == 0 {
            if let Op::Exec { funds, msg: ExecuteMsg::PlaceLimit { tick_id, quantity, .. }, .. } = &mut op {
                match self.n(10) {
                    0 => funds[0].denom = pay_denom(d).into(),
                    1 => funds[0].amount += Uint128::one(),
                    2 => funds[0].amount -= Uint128::one(),
                    3 => funds.push(coin(1, "other")),
                    4 => funds.clear(),
                    5 => { *quantity = Uint128::zero(); if self.n(2) == 0 { funds[0].amount = Uint128::zero(); } }
                    6 => *tick_id = MIN_TICK - 1,
                    7 => *tick_id = MAX_TICK + 1,
                    8 => *tick_id = if self.n(2) == 0 { i64::MAX } else { i64::MIN },
                    _ => funds.insert(0, coin(q, pay_denom(d))),
                }
            }
        }
        op
    }
    fn order(&mut self, s: &Snap) -> Option<((i64, u64), String)> {
        if s.orders.is_empty() { return None; }
        // ends of the queue matter: first, last or random
        let i = match self.n(4) { 0 => 0, 1 => s.orders.len() - 1, _ => self.n(s.orders.len() as u64) as usize };
        s.orders.iter().nth(i).map(|(k, x)| (*k, x.owner.to_string()))
    }
    fn cancel(&mut self, s: &Snap) -> Op {
        let Some((k, own)) = self.order(s) else { return self.place(); };
        let who = if self.n(15) == 0 { self.user().to_string() } else { own };
        let k = if self.n(40) == 0 { (k.0 + 1, k.1) } else { k };
        self.exec(&who, ExecuteMsg::CancelLimit { tick_id: k.0, order_id: k.1 })
    }
    fn claimable(&mut self, s: &Snap) -> Option<(i64, u64)> {
        let v: Vec<(i64, u64)> = s.orders.iter().filter(|(k, x)| s.ticks.contains_key(&k.0) && synced_tv(s, k.0, x.order_direction).effective_total_amount_swapped > x.etas).map(|x| *x.0).collect();
        if v.is_empty() || self.n(5) == 0 { return self.order(s).map(|x| x.0); }
        Some(v[self.n(v.len() as u64) as usize])
    }
    fn claim(&mut self, s: &Snap) -> Op {
        let Some(k) = self.claimable(s) else { return self.place(); };
        let who = self.user();
        self.exec(who, ExecuteMsg::ClaimLimit { tick_id: k.0, order_id: k.1 })
    }
    fn batch(&mut self, s: &Snap) -> Op {
        let mut v = vec![];
        if self.prof == P::Bulk && self.n(2) == 0 { let n = self.lit_under(4, 130).map(|x| x as u64).unwrap_or(99 + self.n(4)); for i in 0..n { v.push(s.orders.keys().nth(i as usize).cloned().unwrap_or((0, 5000 + i))); } }
        else { for _ in 0..self.n(7) { if let Some(k) = self.claimable(s) { v.push(k); } if self.n(5) == 0 { let p = (self.pt(), self.n(60)); v.push(p); } if self.n(9) == 0 { v.push((12345, 1)); } } }
        let who = self.user();
        self.exec(who, ExecuteMsg::BatchClaim { orders: v })
    }
    fn swap(&mut self, s: &Snap) -> Op {
        let d = match self.oneside { 0 => if self.n(8) == 0 { Dir::Bid } else { Dir::Ask }, 1 => if self.n(8) == 0 { Dir::Ask } else { Dir::Bid }, _ => if self.n(2) == 0 { Dir::Bid } else { Dir::Ask } };
        let od = opp(d);
        let mut ts: Vec<i64> = s.ticks.iter().filter(|(_, x)| !tv(x, od).total_amount_of_liquidity.is_zero()).map(|x| *x.0).collect();
        if d == Dir::Ask { ts.reverse(); }
        let mut amt: u128 = 0;
        if !ts.is_empty() && self.n(6) != 0 {
            let k = 1 + self.n(ts.len() as u64) as usize;
            for (i, t) in ts.iter().take(k).enumerate() {
                let liq = floor128(tv(&s.ticks[t], od).total_amount_of_liquidity).unwrap_or(0);
                let part = if i + 1 == k && self.n(2) == 0 { 1 + (self.r() as u128 * self.r() as u128) % liq.max(1) } else { liq };
                amt = amt.saturating_add(to_u128(vup(od, part, ladder(*t).unwrap())).unwrap_or(0));
            }
            match self.n(6) { 0 => amt += 1, 1 => amt = amt.saturating_sub(1), 2 => amt = amt.saturating_add(self.n(5) as u128), 3 => { if let Some(t) = ts.get(k) { amt = amt.saturating_add(to_u128(vup(od, 1, ladder(*t).unwrap())).unwrap_or(0) / 2); } } _ => {} }
        } else { amt = match self.n(8) { 2 | 3 if !self.lits.is_empty() => self.lit(1).unwrap_or(1), 0 => 0, 1 => 1, _ => self.qty() } }
        let amt = amt.min(1 << 126);
        let (mut i, mut out) = (dep_denom(d).to_string(), pay_denom(d).to_string());
        let wrong = if self.prop == "C23" { 5 } else { 40 };
        if self.n(wrong) == 0 { match self.n(4) { 0 => i = "other".into(), 1 => out = "other".into(), 2 => out = i.clone(), _ => i = out.clone() } }
        let fee = if self.n(40) == 0 { match self.n(6) { 0 => Decimal::permille(1), 1 => Decimal::one(), 2 => Decimal::raw(1 + self.r() as u128 % 1_000_000_000_000_000_000), 3 => Decimal::MAX, 4 => Decimal::raw(self.lit(1).unwrap_or(7).max(1)), _ => Decimal::raw(1) } } else { Decimal::zero() };
        let sender = if self.n(50) == 0 { ["", "A", "NotLower"][self.n(3) as usize].to_string() } else { self.user().to_string() };
        let target = if self.n(3) == 0 {
            let b = s.book.as_ref().unwrap();
            let p = self.pt();
            Some(match self.n(10) { 0 => b.next_bid_tick, 1 => b.next_ask_tick, 2 => b.next_bid_tick + 1, 3 => b.next_ask_tick - 1, 4 => MIN_TICK, 5 => MAX_TICK, 6 => MIN_TICK - 1, 7 => MAX_TICK + 1, _ => p })
        } else { None };
        let bound = target.unwrap_or(match d { Dir::Bid => MAX_TICK, Dir::Ask => MIN_TICK });
        let ex = swap_exp(s, d, amt, bound).map(|x| x.out).unwrap_or(0);
        let min = Uint128::new(match self.n(8) { 0 => ex, 1 => ex.saturating_add(1), 2 => 1, 3 => ex.saturating_sub(1), _ => 0 });
        let ti = coin(amt, i);
        if self.n(60) == 0 { return Op::Sudo { msg: SudoMsg::SwapExactAmountOut { sender, token_in_denom: ti.denom, token_in_max_amount: Uint128::MAX, token_out: coin(1, out), swap_fee: fee } }; }
        Op::Sudo { msg: match target { None => SudoMsg::SwapExactAmountIn { sender, token_in: ti, token_out_denom: out, token_out_min_amount: min, swap_fee: fee }, Some(t) => SudoMsg::SwapToTick { sender, token_in: ti, token_out_denom: out, token_out_min_amount: min, swap_fee: fee, target_tick: t } } }
    }
    fn query(&mut self, s: &Snap) -> Op {
        let p = self.prop.clone();
        let k = match p.as_str() { "C26" => 7, "C25" => self.n(5) as usize + 3, "C21" => 1, "C23" => [0, 0, 1, 10][self.n(4) as usize], "C11" => 2, "C19" => 8, "C20" => 9, "C18" => 11, _ => self.n(12) as usize };
        let tk: Vec<i64> = s.ticks.keys().cloned().collect();
        let atick = |g: &mut Gen| if tk.is_empty() || g.n(12) == 0 { g.pt() + g.n(3) as i64 - 1 } else { tk[g.n(tk.len() as u64) as usize] };
        let msg = match k {
            0 => { let ds = [BASE, QUOTE, "other"]; let (a, b) = if self.n(5) == 0 { (ds[self.n(3) as usize], ds[self.n(3) as usize]) } else if self.n(2) == 0 { (BASE, QUOTE) } else { (QUOTE, BASE) }; QueryMsg::SpotPrice { quote_asset_denom: a.into(), base_asset_denom: b.into() } }
            1 => { match self.swap(s) { Op::Sudo { msg: SudoMsg::SwapExactAmountIn { token_in, token_out_denom, swap_fee, .. } } | Op::Sudo { msg: SudoMsg::SwapToTick { token_in, token_out_denom, swap_fee, .. } } => if self.n(2) == 0 { QueryMsg::CalcOutAmtGivenIn { token_in, token_out_denom, swap_fee } } else { QueryMsg::CalcOutAmountGivenIn { token_in, token_out_denom, swap_fee } }, _ => QueryMsg::GetTotalPoolLiquidity {} } }
            2 => QueryMsg::GetTotalPoolLiquidity {},
            3 => { let (a, b) = (atick(self), atick(self)); QueryMsg::AllTicks { start_from: if self.n(2) == 0 { Some(a) } else { None }, end_at: if self.n(2) == 0 { Some(b) } else { None }, limit: if let Some(x) = self.lit_under(4, u64::MAX as u128) { Some(x as usize) } else { match self.n(6) { 0 => None, 1 => Some([99, 100, 101, 999, 1000, 1001, 65536, usize::MAX][self.n(8) as usize]), 2 => Some(s.ticks.len() + self.n(3) as usize), _ => Some(self.n(5) as usize) } } } }
            4 => { let mut v = vec![]; for _ in 0..self.n(4) { v.push(atick(self)); } QueryMsg::TicksById { tick_ids: v } }
            5 => { let t = atick(self); let ids: Vec<u64> = s.orders.keys().map(|k| k.1).collect(); let f = |g: &mut Gen| if g.n(2) == 0 || ids.is_empty() { None } else { Some(ids[g.n(ids.len() as u64) as usize] + g.n(2)) }; let (a, b) = (f(self), f(self)); QueryMsg::OrdersByTick { tick_id: t, start_from: a, end_at: b, limit: if let Some(x) = self.lit_under(4, u64::MAX as u128) { Some(x as u64) } else { match self.n(6) { 0 | 1 => None, 2 => Some([99, 100, 101, 1000, 65536, u64::MAX][self.n(6) as usize]), _ => Some(self.n(6)) } } } }
            6 => { let ks: Vec<(i64, u64)> = s.orders.keys().cloned().collect(); let f = |g: &mut Gen| if g.n(2) == 0 || ks.is_empty() { None } else { let k = ks[g.n(ks.len() as u64) as usize]; Some((k.0, k.1 + g.n(2))) }; let (a, b) = (f(self), f(self)); let o = if self.prof == P::Bulk { "alice" } else { self.user() }; QueryMsg::OrdersByOwner { owner: Addr::unchecked(o), start_from: a, end_at: b, limit: if let Some(x) = self.lit_under(4, u64::MAX as u128) { Some(x as u64) } else { match self.n(5) { 0 => Some(self.n(5)), 1 => Some(101), 2 => Some(u64::MAX), _ => None } } } }
            7 => { let mut v = vec![]; for _ in 0..1 + self.n(3) { v.push(atick(self)); } QueryMsg::GetUnrealizedCancels { tick_ids: v } }
            8 => QueryMsg::IsActive {},
            9 => QueryMsg::GetMakerFee {},
            10 => if self.n(2) == 0 { QueryMsg::Denoms {} } else { QueryMsg::OrderbookState {} },
            _ => QueryMsg::Auth(match self.n(4) { 0 => AuthQueryMsg::Admin {}, 1 => AuthQueryMsg::AdminOffer {}, 2 => AuthQueryMsg::Moderator {}, _ => AuthQueryMsg::ModeratorOffer {} }),
        };
        Op::Query { msg }
    }
    fn auth(&mut self, s: &Snap) -> Op {
        let r = &s.roles;
        let st = |a: &Option<Addr>| a.as_ref().map(|x| x.to_string());
        let who = match self.n(10) { 0..=3 => st(&r.admin), 4 | 5 => st(&r.admin_offer), 6 => st(&r.moderator), 7 => st(&r.moderator_offer), 8 => Some([GOV, BREAKER][self.n(2) as usize].to_string()), _ => None };
        let who = who.unwrap_or_else(|| self.user().to_string());
        let a = Addr::unchecked(if self.n(12) == 0 { ["", "x", "BIG", "Mixed1"][self.n(4) as usize] } else { self.user() });
        let f = self.fee();
        let pp = self.prop.clone();
        if self.n(if pp == "C18" || pp == "C19" { 8 } else { 14 }) == 0 {
            return Op::Sudo { msg: match self.n(4) { 0 | 1 => SudoMsg::TransferAdmin { new_admin: a }, 2 => SudoMsg::RemoveAdmin {}, _ => SudoMsg::SetActive { active: self.n(3) > 0 } } };
        }
        let k = match pp.as_str() { "C19" if self.n(2) == 0 => 8, "C20" if self.n(2) == 0 => 9 + self.n(2) as usize, _ => self.n(13) as usize };
        use AuthExecuteMsg::*;
        let m = match k { 0 | 11 => TransferAdmin { new_admin: a }, 1 => CancelAdminTransfer {}, 2 => RejectAdminTransfer {}, 3 | 12 => ClaimAdmin {}, 4 => if self.n(3) == 0 { RenounceAdminship {} } else { ClaimAdmin {} }, 5 => OfferModerator { new_moderator: a }, 6 => RejectModeratorOffer {}, 7 => ClaimModerator {}, 8 => SetActive { active: self.n(2) == 0 }, 9 => SetMakerFee { fee: f }, _ => SetMakerFeeRecipient { recipient: a } };
        self.time += 1;
        Op::Exec { sender: who, funds: vec![], msg: ExecuteMsg::Auth(m), time: self.time }
    }
    fn math(&mut self) -> Op {
        let t = match self.n(6) {
            0 => { let k = self.n(35) as i64 - 13; k * 9_000_000 + self.n(5) as i64 - 2 }
            1 => [MIN_TICK, MIN_TICK + 1, MIN_TICK - 1, MAX_TICK, MAX_TICK - 1, MAX_TICK + 1, 0, 1, -1, i64::MIN, i64::MAX][self.n(11) as usize],
            2 => self.n(40) as i64 - 20,
            _ => MIN_TICK + self.n((MAX_TICK - MIN_TICK + 1) as u64) as i64,
        };
        if self.prop == "C01" { return Op::Price { tick: t }; }
        let b = self.n(129);
        let x = (self.r() as u128) << 64 | self.r() as u128;
        let amt = if b >= 128 { u128::MAX - self.n(3) as u128 } else if self.n(3) == 0 { (1u128 << b).wrapping_add(self.n(3) as u128).wrapping_sub(1) } else { x >> (127 - b.min(127)) };
        let d = if self.n(2) == 0 { Dir::Bid } else { Dir::Ask };
        // amounts just around an exact multiple of the price
        let amt = if self.n(3) == 0 { if let Some(p) = ladder(t) { let pf = to_u128(p).unwrap_or(1).max(1); let k = 1 + self.n(50) as u128; match d { Dir::Bid => (pf / E18).max(1).saturating_mul(k).saturating_add(self.n(2) as u128), Dir::Ask => (E18 / pf.min(E18)).saturating_mul(k) } } else { amt } } else { amt };
        Op::Value { bid: d == Dir::Bid, tick: t, amt: Uint128::new(amt), up: self.n(2) == 0 }
    }
    fn craft_op(&mut self, s: &Snap) -> Op {
        let t = self.pt(); let d = self.dir();
        let v = s.ticks.get(&t).map(|x| tv(x, d)).unwrap_or_else(zero_tv);
        let lo = floor128(v.effective_total_amount_swapped).unwrap_or(0);
        let hi = floor128(v.cumulative_total_value).unwrap_or(0).max(lo);
        let a = lo + self.n((hi - lo + 3).min(1000) as u64) as u128;
        Op::Craft { tick: t, bid: d == Dir::Bid, etas: Uint128::new(a), qty: Uint128::new(1 + self.n(6) as u128) }
    }
    pub fn next(&mut self, w: &World) -> Option<Op> {
        if self.left == 0 { if self.craft { self.craft = false; if let Ok(s) = snap(&w.st) { let op = self.craft_op(&s); self.bump(&op); return Some(op); } } return None; }
        self.left -= 1;
        if !self.queue.is_empty() { let op = self.queue.remove(0); self.bump(&op); return Some(op); }
        let op = if self.prof == P::Math { self.math() } else {
            let s = snap(&w.st).ok()?;
            let q = match self.prop.as_str() { "C25" | "C26" => 30, "C21" | "C23" | "C11" => 15, "C18" | "C19" | "C20" => 8, _ => 3 };
            let (au, ba, sy) = (match self.prof { P::Auth => 40, P::Bulk => 4, _ => if self.prop == "C19" || self.prop == "C20" || self.prop == "C06" || self.prop == "C22" { 6 } else { 1 } }, if self.prop == "C07" { 20 } else { 5 }, if self.prop == "C15" { 12 } else { 3 });
            let misc = if self.prop == "C24" { 12 } else { 0 };
            let pl = if self.prof == P::Deep && self.left > 40 { 45 } else { 28 };
            let sw = if matches!(self.prop.as_str(), "C08" | "C09" | "C10" | "C13" | "C21") { 35 } else { 18 };
            match self.w(&[pl, self.cancel_w, 12, ba, sw, q, au, sy, misc]) {
                0 => self.place(), 1 => self.cancel(&s), 2 => self.claim(&s), 3 => self.batch(&s), 4 => self.swap(&s), 5 => self.query(&s), 6 => self.auth(&s),
                7 => Op::Sync { tick: self.pt() },
                _ => if self.n(2) == 0 { let ds = ["uosmo", "uatom", "zero1", "err1", "one1", "", "uosmo"]; Op::Inst { base: ds[self.n(7) as usize].into(), quote: ds[self.n(7) as usize].into() } } else { Op::Reply { id: self.n(8), err: self.n(2) == 0 } },
            }
        };
        self.bump(&op);
        Some(op)
    }
    fn bump(&mut self, op: &Op) {
        let k = match op { Op::Exec { msg, .. } => match msg { ExecuteMsg::PlaceLimit { .. } => "place", ExecuteMsg::CancelLimit { .. } => "cancel", ExecuteMsg::ClaimLimit { .. } => "claim", ExecuteMsg::BatchClaim { .. } => "batch_claim", ExecuteMsg::Auth(_) => "auth" }, Op::Sudo { .. } => "swap", Op::Sync { .. } => "sync", Op::Query { .. } => "query", Op::Inst { .. } => "instantiate", Op::Reply { .. } => "reply", Op::Craft { .. } => "craft", Op::Price { .. } => "price", Op::Value { .. } => "value" };
        *self.count.entry(k).or_insert(0) += 1;
        self.interesting = true;
    }
}
#[allow(dead_code)]
fn _c(_: Coin) {}
