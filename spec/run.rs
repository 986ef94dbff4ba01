// ---- swaps keep the invariant ----
pub proof fn lem_floor_floor(n: nat, p: nat)
  requires p > 0
  ensures (n / p) / E18() == n / (p * E18())
{ vstd::arithmetic::div_mod::lemma_div_denominator(n as int, p as int, E18() as int); }
// bid value rounded down, without the intermediate 18-decimal quotient
pub proof fn lem_bid_down(a: nat, p: nat)
  requires p > 0
  ensures vdown(OrderDirection::Bid, a, p) == a * E18() / p
{
  let n = a * E18();
  lem_floor_floor(n * E18(), p);
  vstd::arithmetic::div_mod::lemma_div_multiples_vanish_quotient(E18() as int, n as int, p as int);
  assert(E18() * n == n * E18()) by (nonlinear_arith); assert(E18() * p == p * E18()) by (nonlinear_arith);
}
pub proof fn lem_div_bounds(a: nat, b: nat) requires b > 0 ensures (a / b) * b <= a, a < (a / b) * b + b {
  assert((a / b) * b + a % b == a) by (nonlinear_arith) requires b > 0;
}
pub proof fn lem_div_ge(a: nat, b: nat, x: nat) requires b > 0, x * b <= a ensures x <= a / b {
  lem_div_bounds(a, b);
  if x > a / b { assert(x * b >= (a / b + 1) * b) by (nonlinear_arith) requires x >= a / b + 1, b > 0; assert((a / b + 1) * b == (a / b) * b + b) by (nonlinear_arith); }
}
pub proof fn lem_div_zero(a: nat, b: nat) requires b > 0, a < b ensures a / b == 0 {
  vstd::arithmetic::div_mod::lemma_basic_div(a as int, b as int);
}
pub proof fn lem_ceil_le(a: nat, b: nat, x: nat) requires b > 0, a <= x * b ensures ceil_div(a, b) <= x {
  lem_ceil(a, b);
  let c = ceil_div(a, b);
  if c > x { assert(c * b >= x * b + b) by (nonlinear_arith) requires c >= x + 1, b > 0; }
}
// C08: what a tick charges for `x` units, which the input `r` can buy, is covered by `r`
pub proof fn lem_charge_le(d: OrderDirection, r: nat, p: nat, x: nat)
  requires p > 0, x <= vdown(d, r, p)
  ensures vup(opp(d), x, p) <= r
{
  match d {
    OrderDirection::Bid => {
      lem_bid_down(r, p); lem_div_bounds(r * E18(), p);
      assert(x * p <= (r * E18() / p) * p) by (nonlinear_arith) requires x <= r * E18() / p;
      lem_ceil_le(x * p, E18(), r);
    }
    OrderDirection::Ask => {
      lem_div_bounds(r * p, E18());
      assert(x * E18() <= r * p);
      let n = x * E18() * E18();
      assert(n <= (r * E18()) * p) by (nonlinear_arith) requires n == x * E18() * E18(), x * E18() <= r * p;
      lem_div_bounds(n, p);
      if n / p > r * E18() { assert((n / p) * p > (r * E18()) * p) by (nonlinear_arith) requires n / p > r * E18(), p > 0; }
      lem_ceil_le(n / p, E18(), r);
    }
  }
}
// C09, C13: after a fill limited by the input, the rest buys nothing at this price
pub proof fn lem_rest_bid(r: nat, p: nat)
  requires p > 0
  ensures ({ let u = vdown(OrderDirection::Bid, r, p); let c = vup(OrderDirection::Ask, u, p); c <= r && vdown(OrderDirection::Bid, (r - c) as nat, p) == 0 })
{
  let u = vdown(OrderDirection::Bid, r, p); let c = vup(OrderDirection::Ask, u, p);
  lem_charge_le(OrderDirection::Bid, r, p, u);
  let x = (r - c) as nat;
  lem_bid_down(r, p); lem_bid_down(x, p); lem_div_bounds(r * E18(), p);
  lem_ceil(u * p, E18());
  assert(x * E18() == r * E18() - c * E18()) by (nonlinear_arith) requires x == r - c;
  assert(x * E18() < p);
  lem_div_zero(x * E18(), p);
}
pub proof fn lem_rest_ask(r: nat, p: nat)
  requires p > 0
  ensures ({ let u = vdown(OrderDirection::Ask, r, p); let c = vup(OrderDirection::Bid, u, p); c <= r && vdown(OrderDirection::Ask, (r - c) as nat, p) == 0 })
{
  let u = vdown(OrderDirection::Ask, r, p); let c = vup(OrderDirection::Bid, u, p); let e = E18();
  lem_charge_le(OrderDirection::Ask, r, p, u);
  let x = (r - c) as nat; let n = u * e * e; let q = n / p;
  lem_div_bounds(r * p, e); lem_div_bounds(n, p); lem_ceil(q, e);
  // c * e >= q, q * p > n - p
  assert((c * e) * p >= q * p) by (nonlinear_arith) requires c * e >= q;
  assert((c * e) * p == (c * p) * e) by (nonlinear_arith);
  assert(n == (u * e) * e);
  assert((c * p) * e > (u * e) * e - p);
  assert(x * p == r * p - c * p) by (nonlinear_arith) requires x == r - c;
  let y = x * p;
  assert(y * e == (r * p) * e - (c * p) * e) by (nonlinear_arith) requires y == r * p - c * p;
  assert((r * p) * e < (u * e + e) * e) by (nonlinear_arith) requires r * p < u * e + e, e > 0;
  assert((r * p) * e <= (u * e + e - 1) * e) by (nonlinear_arith) requires r * p <= u * e + e - 1, e > 0;
  assert((u * e + e - 1) * e == (u * e) * e + (e - 1) * e) by (nonlinear_arith);
  assert(y * e < (e - 1) * e + p);
  if x == 0 { assert(y == 0) by (nonlinear_arith) requires y == x * p, x == 0; }
  else {
    assert(y >= p) by (nonlinear_arith) requires y == x * p, x >= 1;
    assert(y * e < (e - 1) * e + y);
    assert(y * (e - 1) < (e - 1) * e) by (nonlinear_arith) requires y * e < (e - 1) * e + y;
    assert(y < e) by (nonlinear_arith) requires y * (e - 1) < (e - 1) * e, e == 1_000_000_000_000_000_000nat;
  }
  assert(y < e);
  lem_div_zero(y, e);
}
pub proof fn lem_rest(d: OrderDirection, r: nat, p: nat)
  requires p > 0
  ensures vup(opp(d), vdown(d, r, p), p) <= r, vdown(d, (r - vup(opp(d), vdown(d, r, p), p)) as nat, p) == 0
{ match d { OrderDirection::Bid => { lem_rest_bid(r, p); } OrderDirection::Ask => { lem_rest_ask(r, p); } } }
// a worse price buys no more: asks (consumed by bids) get dearer upwards, bids cheaper downwards
pub open spec fn no_better(d: OrderDirection, p: nat, q: nat) -> bool { match d { OrderDirection::Bid => p <= q, OrderDirection::Ask => p >= q } }
pub proof fn lem_worse(d: OrderDirection, r: nat, p: nat, q: nat)
  requires p > 0, q > 0, no_better(d, p, q)
  ensures vdown(d, r, q) <= vdown(d, r, p)
{
  match d {
    OrderDirection::Bid => {
      lem_bid_down(r, p); lem_bid_down(r, q); lem_div_bounds(r * E18(), q);
      assert((r * E18() / q) * p <= (r * E18() / q) * q) by (nonlinear_arith) requires p <= q;
      lem_div_ge(r * E18(), p, r * E18() / q);
    }
    OrderDirection::Ask => {
      assert(r * q <= r * p) by (nonlinear_arith) requires q <= p;
      lem_div_bounds(r * q, E18());
      lem_div_ge(r * p, E18(), r * q / E18());
    }
  }
}
// ---- the run, tick by tick ----
pub open spec fn fill_by(v: TickValues, w: TickValues, f: nat) -> bool { f <= v.total_amount_of_liquidity@ && whole(f) && w == filled(v, f) }
pub open spec fn fill_rel(v: TickValues, w: TickValues) -> bool { exists|f: nat| #[trigger] fill_by(v, w, f) }
pub open spec fn nxt(b: Orderbook, side: OrderDirection) -> i64 { match side { OrderDirection::Ask => b.next_ask_tick, OrderDirection::Bid => b.next_bid_tick } }
pub open spec fn past(side: OrderDirection, t: i64, p: i64) -> bool { match side { OrderDirection::Ask => t >= p, OrderDirection::Bid => t <= p } }
pub open spec fn seen(ts: Seq<i64>, n: nat, t: i64) -> bool { exists|i: int| 0 <= i < n && #[trigger] ts[i] == t }
pub open spec fn run_ok(s: SV, d: OrderDirection, ts: Seq<i64>, n: nat, w: Swap) -> bool {
  let side = opp(d); let m0 = s.f_tick_state; let m = save_all(m0, w.upd); let p = nxt(w.book, side);
  &&& m.dom() =~= m0.dom()
  &&& forall|t: i64| #[trigger] m_tv(m, t, d) == m_tv(m0, t, d)
  &&& forall|t: i64| seen(ts, n, t) || #[trigger] m_tv(m, t, side) == m_tv(m0, t, side)
  &&& forall|t: i64| fill_rel(m_tv(m0, t, side), #[trigger] m_tv(m, t, side))
  &&& tsum(m, side, NT()) + w.out * E18() == tsum(m0, side, NT())
  &&& w.book == set_next(s.f_orderbook->0, side, p) && in_range(p as int) && (p == nxt(s.f_orderbook->0, side) || seen(ts, n, p))
  &&& forall|t: i64| #[trigger] m_tal(m, t, side) > 0 ==> past(side, t, p)
  &&& forall|t: i64| #[trigger] m_tv(m, t, side) != m_tv(m0, t, side) ==> past(d, t, p)
  &&& !w.dust ==> forall|i: int| 0 <= i < n && m_tal(m, #[trigger] ts[i], side) > 0 ==> ts[i] == p && vdown(d, w.rem, ladder(p as int)) == 0
}
// the ticks visited: from the best price outwards, all of those that hold liquidity up to the bound
pub open spec fn outwards(d: OrderDirection, a: i64, b: i64) -> bool { match d { OrderDirection::Bid => a < b, OrderDirection::Ask => a > b } }
pub open spec fn ts_ok(s: SV, d: OrderDirection, ts: Seq<i64>, bound: i64) -> bool {
  let side = opp(d); let p = nxt(s.f_orderbook->0, side);
  &&& forall|i: int| 0 <= i < ts.len() ==> #[trigger] in_range(ts[i] as int) && has_tick(s, ts[i]) && past(side, ts[i], p)
  &&& forall|i: int, j: int| 0 <= i < j < ts.len() ==> outwards(d, #[trigger] ts[i], #[trigger] ts[j])
  &&& forall|i: int, t: i64| 0 <= i < ts.len() && has_tick(s, t) && past(side, t, p) && !seen(ts, ts.len(), t) ==> outwards(d, #[trigger] ts[i], t) && #[trigger] has_tick(s, t)
}
pub proof fn lem_ts_ok(s: SV, d: OrderDirection, bound: i64)
  requires ticks_in(s.f_tick_state), s.f_orderbook is Some, bound_ok(s.f_orderbook->0, d, bound), swap_lists(s, d, bound)
  ensures ts_ok(s, d, swap_ticks(s, d, bound), bound)
{
  let ts = swap_ticks(s, d, bound); let side = opp(d); let b = s.f_orderbook->0; let p = nxt(b, side);
  assert forall|i: int| 0 <= i < ts.len() implies #[trigger] in_range(ts[i] as int) && has_tick(s, ts[i]) && past(side, ts[i], p) by { assert(s.f_tick_state.dom().contains(ts[i])); }
  assert forall|i: int, t: i64| 0 <= i < ts.len() && has_tick(s, t) && past(side, t, p) && !seen(ts, ts.len(), t) implies outwards(d, #[trigger] ts[i], t) && #[trigger] has_tick(s, t) by {
    assert(!ts.contains(t)) by { if ts.contains(t) { let j = choose|j: int| 0 <= j < ts.len() && ts[j] == t; assert(ts[j] == t); } }
  }
}
pub proof fn lem_save_push(m: Map<i64, TickState>, u: Seq<(i64, TickState)>, x: (i64, TickState))
  ensures save_all(m, u.push(x)) == save_all(m, u).insert(x.0, x.1)
{ assert(u.push(x).drop_last() =~= u); assert(u.push(x).last() == x); }
pub proof fn lem_seen(ts: Seq<i64>, n: nat, t: i64)
  requires n < ts.len()
  ensures seen(ts, n, t) ==> seen(ts, n + 1, t), seen(ts, n + 1, ts[n as int]), seen(ts, n + 1, t) ==> seen(ts, n, t) || t == ts[n as int]
{ if seen(ts, n, t) { let i = choose|i: int| 0 <= i < n && #[trigger] ts[i] == t; assert(0 <= i < n + 1 && ts[i] == t); } assert(ts[n as int] == ts[n as int]); }
pub proof fn lem_run_start(s: SV, d: OrderDirection, ts: Seq<i64>, q: nat)
  requires s.f_orderbook is Some, ptr_ok(s.f_tick_state, s.f_orderbook->0)
  ensures run_ok(s, d, ts, 0, swap0(s, q))
{
  let w = swap0(s, q); let side = opp(d); let m0 = s.f_tick_state; let m = save_all(m0, w.upd);
  assert(m == m0);
  assert forall|t: i64| fill_rel(m_tv(m0, t, side), #[trigger] m_tv(m, t, side)) by { let v = m_tv(m0, t, side); assert(filled(v, 0) == v); assert(fill_by(v, v, 0)); }
  assert(w.book == set_next(s.f_orderbook->0, side, nxt(w.book, side)));
  assert(0 * E18() == 0);
}
// a tick that is skipped, or dust
pub proof fn lem_run_skip(s: SV, d: OrderDirection, ts: Seq<i64>, n: nat, w: Swap, x: Swap)
  requires run_ok(s, d, ts, n, w), n < ts.len(), x == swap_tick(s, d, w, ts[n as int]), !w.bad, !x.bad, x.upd == w.upd && x.out == w.out && x.book == w.book, w.dust ==> x.dust, !x.dust ==> x.rem == w.rem && gtv(s, ts[n as int], opp(d)).total_amount_of_liquidity@ == 0
  ensures run_ok(s, d, ts, n + 1, x)
{
  let side = opp(d); let m0 = s.f_tick_state; let m = save_all(m0, w.upd); let p = nxt(w.book, side);
  assert forall|t: i64| seen(ts, n + 1, t) || #[trigger] m_tv(m, t, side) == m_tv(m0, t, side) by { lem_seen(ts, n, t); }
  lem_seen(ts, n, p);
  if !x.dust {
    assert forall|i: int| 0 <= i < n + 1 && m_tal(m, #[trigger] ts[i], side) > 0 implies ts[i] == p && vdown(d, x.rem, ladder(p as int)) == 0 by {
      if i == n { let f = choose|f: nat| #[trigger] fill_by(m_tv(m0, ts[i], side), m_tv(m, ts[i], side), f); lem_m_tv(s, ts[i], side); }
    }
  }
}
// a fill
pub open spec fn step_fill(s: SV, d: OrderDirection, w: Swap, x: Swap, t: i64) -> bool {
  let side = opp(d); let v = gtv(s, t, side); let f = fill_of(v, d, w.rem, t); let c = charge_of(v, d, w.rem, t);
  &&& !w.dust && v.total_amount_of_liquidity@ > 0 && in_range(t as int) && vdown(d, w.rem, ladder(t as int)) > 0
  &&& c <= w.rem && x == (Swap { rem: (w.rem - c) as nat, out: w.out + f / E18(), upd: w.upd.push((t, set_tv(get_tick(s, t), side, filled(v, f)))), book: set_next(w.book, side, t), price: ladder(t as int), ..w })
}
pub proof fn lem_fill_whole(v: TickValues, d: OrderDirection, rem: nat, t: i64)
  requires whole(v.total_amount_of_liquidity@)
  ensures ({ let f = fill_of(v, d, rem, t); whole(f) && (f / E18()) * E18() == f && f <= v.total_amount_of_liquidity@ && f / E18() <= vdown(d, rem, ladder(t as int)) })
{
  let k = vdown(d, rem, ladder(t as int)); let f = fill_of(v, d, rem, t);
  lem_whole(k, 0); lem_whole(f, 0); lem_mul_div(k, E18());
  assert(f <= k * E18());
  if f / E18() > k { assert((f / E18()) * E18() > k * E18()) by (nonlinear_arith) requires f / E18() > k; }
}
// before a tick is filled, every tick visited so far is empty
pub proof fn lem_run_empty(s: SV, d: OrderDirection, ts: Seq<i64>, n: nat, w: Swap, bound: i64)
  requires run_ok(s, d, ts, n, w), ts_ok(s, d, ts, bound), n < ts.len(), !w.dust, vdown(d, w.rem, ladder(ts[n as int] as int)) > 0
  ensures forall|i: int| 0 <= i < n ==> m_tal(save_all(s.f_tick_state, w.upd), #[trigger] ts[i], opp(d)) == 0
{
  let m = save_all(s.f_tick_state, w.upd); let t = ts[n as int]; let p = nxt(w.book, opp(d));
  assert forall|i: int| 0 <= i < n implies m_tal(m, #[trigger] ts[i], opp(d)) == 0 by {
    if m_tal(m, ts[i], opp(d)) > 0 {
      assert(outwards(d, ts[i], t)); assert(in_range(ts[i] as int) && in_range(t as int));
      lem_ladder_bounds(p as int); lem_ladder_bounds(t as int);
      match d { OrderDirection::Bid => { lem_ladder_mono(p as int, t as int); } OrderDirection::Ask => { lem_ladder_mono(t as int, p as int); } }
      lem_worse(d, w.rem, ladder(p as int), ladder(t as int));
    }
  }
}
pub proof fn lem_set_next(b: Orderbook, side: OrderDirection, p: i64, t: i64) ensures set_next(set_next(b, side, p), side, t) == set_next(b, side, t), nxt(set_next(b, side, t), side) == t {}
pub proof fn lem_run_fill(s: SV, d: OrderDirection, ts: Seq<i64>, n: nat, w: Swap, x: Swap, bound: i64)
  requires run_ok(s, d, ts, n, w), ts_ok(s, d, ts, bound), n < ts.len(), step_fill(s, d, w, x, ts[n as int]), whole(gtv(s, ts[n as int], opp(d)).total_amount_of_liquidity@), ptr_ok(s.f_tick_state, s.f_orderbook->0)
  ensures run_ok(s, d, ts, n + 1, x)
{
  hide(ladder); hide(tsum); hide(vdown); hide(vup); hide(save_all); hide(in_range);
  let t = ts[n as int]; let side = opp(d); let m0 = s.f_tick_state; let m = save_all(m0, w.upd); let v = gtv(s, t, side); let f = fill_of(v, d, w.rem, t);
  let k = set_tv(get_tick(s, t), side, filled(v, f)); let m2 = save_all(m0, x.upd);
  assert(opp(side) == d);
  lem_save_push(m0, w.upd, (t, k)); assert(m2 == m.insert(t, k));
  lem_fill_whole(v, d, w.rem, t); lem_m_tv(s, t, side); lem_m_tv(s, t, d);
  assert(in_range(ts[n as int] as int) && has_tick(s, t));
  assert(!seen(ts, n, t)) by { if seen(ts, n, t) { let i = choose|i: int| 0 <= i < n && #[trigger] ts[i] == t; assert(outwards(d, ts[i], ts[n as int])); } }
  assert(m_tv(m, t, side) == v);
  assert(m2.dom() =~= m0.dom());
  assert forall|u: i64| u != t implies #[trigger] m_tv(m2, u, side) == m_tv(m, u, side) by {}
  assert(m_tv(m2, t, side) == filled(v, f)); assert(tv(k, d) == tv(get_tick(s, t), d));
  assert forall|u: i64| #[trigger] m_tv(m2, u, d) == m_tv(m0, u, d) by { if u != t { assert(m_tv(m, u, d) == m_tv(m0, u, d)); } }
  assert forall|u: i64| seen(ts, n + 1, u) || #[trigger] m_tv(m2, u, side) == m_tv(m0, u, side) by { lem_seen(ts, n, u); if u != t { assert(m_tv(m2, u, side) == m_tv(m, u, side)); } }
  assert forall|u: i64| fill_rel(m_tv(m0, u, side), #[trigger] m_tv(m2, u, side)) by { if u == t { assert(fill_by(v, filled(v, f), f)); } else { assert(fill_rel(m_tv(m0, u, side), m_tv(m, u, side))); } }
  assert forall|u: i64| u != t implies m_tal(m, u, side) == #[trigger] m_tal(m2, u, side) by { assert(m_tv(m2, u, side) == m_tv(m, u, side)); }
  lem_tsum_upd(m, m2, side, NT(), t);
  assert(TMIN() <= t < TMIN() + NT()) by { reveal(in_range); }
  assert(m_tal(m2, t, side) == m_tal(m, t, side) - f);
  assert((w.out + f / E18()) * E18() == w.out * E18() + (f / E18()) * E18()) by (nonlinear_arith);
  lem_set_next(s.f_orderbook->0, side, nxt(w.book, side), t);
  lem_seen(ts, n, t);
  lem_run_empty(s, d, ts, n, w, bound);
  assert forall|u: i64| #[trigger] m_tal(m2, u, side) > 0 implies past(side, u, t) by {
    if u != t {
      assert(m_tal(m, u, side) > 0);
      assert(m_tv(m, u, side).total_amount_of_liquidity@ > 0);
      assert(m.dom().contains(u)); assert(has_tick(s, u));
      assert(!seen(ts, n, u)) by { if seen(ts, n, u) { let i = choose|i: int| 0 <= i < n && #[trigger] ts[i] == u; assert(m_tal(m, ts[i], side) == 0); } }
      assert(m_tal(m0, u, side) > 0);
      assert(past(side, u, nxt(s.f_orderbook->0, side)));
      if seen(ts, ts.len(), u) { let i = choose|i: int| 0 <= i < ts.len() && #[trigger] ts[i] == u; assert(i >= n); if i > n { assert(outwards(d, ts[n as int], ts[i])); } }
      else { assert(outwards(d, ts[n as int], u)); }
    }
  }
  assert forall|u: i64| #[trigger] m_tv(m2, u, side) != m_tv(m0, u, side) implies past(d, u, t) by {
    if u != t { assert(m_tv(m, u, side) != m_tv(m0, u, side)); assert(seen(ts, n, u)); let i = choose|i: int| 0 <= i < n && #[trigger] ts[i] == u; assert(outwards(d, ts[i], ts[n as int])); }
  }
  assert forall|i: int| 0 <= i < n + 1 && m_tal(m2, #[trigger] ts[i], side) > 0 implies ts[i] == t && vdown(d, x.rem, ladder(t as int)) == 0 by {
    if i < n { assert(outwards(d, ts[i], ts[n as int])); assert(m_tal(m, ts[i], side) == 0); assert(m_tal(m2, ts[i], side) == 0); }
    else {
      assert(f == vdown(d, w.rem, ladder(t as int)) * E18());
      lem_mul_div(vdown(d, w.rem, ladder(t as int)), E18());
      lem_ladder_bounds(t as int);
      lem_rest(d, w.rem, ladder(t as int));
    }
  }
}
pub proof fn lem_run_step(s: SV, d: OrderDirection, ts: Seq<i64>, n: nat, w: Swap, bound: i64)
  requires run_ok(s, d, ts, n, w), ts_ok(s, d, ts, bound), n < ts.len(), !w.bad, !swap_tick(s, d, w, ts[n as int]).bad, whole(gtv(s, ts[n as int], opp(d)).total_amount_of_liquidity@), ptr_ok(s.f_tick_state, s.f_orderbook->0)
  ensures run_ok(s, d, ts, n + 1, swap_tick(s, d, w, ts[n as int]))
{
  hide(run_ok); hide(ts_ok); hide(ladder); hide(vdown); hide(charge_of); hide(fill_of); hide(ptr_ok);
  let t = ts[n as int]; let x = swap_tick(s, d, w, t);
  if w.dust || gtv(s, t, opp(d)).total_amount_of_liquidity@ == 0 || vdown(d, w.rem, ladder(t as int)) == 0 { lem_run_skip(s, d, ts, n, w, x); }
  else { lem_run_fill(s, d, ts, n, w, x, bound); }
}
pub proof fn lem_run(s: SV, d: OrderDirection, ts: Seq<i64>, n: nat, q: nat, bound: i64)
  requires inv(s), ts_ok(s, d, ts, bound), n <= ts.len(), !swap_run(s, d, ts, n, swap0(s, q)).bad
  ensures run_ok(s, d, ts, n, swap_run(s, d, ts, n, swap0(s, q)))
  decreases n
{
  hide(run_ok); hide(ts_ok); hide(ptr_ok); hide(t_ok);
  if n == 0 { lem_run_start(s, d, ts, q); }
  else {
    lem_swap_stuck(s, d, ts, (n - 1) as nat, n, swap0(s, q));
    lem_run(s, d, ts, (n - 1) as nat, q, bound);
    let t = ts[n - 1];
    assert(whole(gtv(s, t, opp(d)).total_amount_of_liquidity@)) by { assert(t_ok(s, t)); reveal(t_ok); }
    lem_run_step(s, d, ts, (n - 1) as nat, swap_run(s, d, ts, (n - 1) as nat, swap0(s, q)), bound);
  }
}
pub open spec fn swap_step(s: SV, d: OrderDirection, q: nat, bound: i64) -> bool {
  swap_ok(s, d, q, bound) && swap_lists(s, d, bound) && dliq(s, opp(d)) >= swap_all(s, d, q, bound).out * E18()
}
pub proof fn lem_swap_run(s: SV, d: OrderDirection, q: nat, bound: i64)
  requires inv(s), swap_ok(s, d, q, bound), swap_lists(s, d, bound)
  ensures run_ok(s, d, swap_ticks(s, d, bound), swap_ticks(s, d, bound).len(), swap_all(s, d, q, bound)), ts_ok(s, d, swap_ticks(s, d, bound), bound)
{
  hide(run_ok); hide(ts_ok); hide(ptr_ok); hide(t_ok);
  lem_ts_ok(s, d, bound);
  lem_run(s, d, swap_ticks(s, d, bound), swap_ticks(s, d, bound).len(), q, bound);
}
pub proof fn lem_swap_tick_ok(s: SV, r: SV, d: OrderDirection, t: i64)
  requires t_ok(s, t), m_tv(r.f_tick_state, t, d) == m_tv(s.f_tick_state, t, d), fill_rel(m_tv(s.f_tick_state, t, opp(d)), m_tv(r.f_tick_state, t, opp(d))),
    r == (SV { f_tick_state: r.f_tick_state, f_orderbook: r.f_orderbook, f_direction_liquidity: r.f_direction_liquidity, ..s })
  ensures t_ok(r, t)
{
  let side = opp(d); assert(opp(side) == d);
  lem_m_tv(s, t, d); lem_m_tv(r, t, d); lem_m_tv(s, t, side); lem_m_tv(r, t, side);
  assert(idx_same(s, r, t)); lem_idx_same(s, r, t);
  lem_q_at_frame(s, r, t, d);
  let v = gtv(s, t, side);
  let f = choose|f: nat| #[trigger] fill_by(v, gtv(r, t, side), f);
  lem_q_fill(v, f, entries(s, t, side), s.f_orders, t, side, next_id(s) as nat);
}
pub proof fn lem_inv_swap(s: SV, d: OrderDirection, q: nat, bound: i64)
  requires inv(s), swap_step(s, d, q, bound)
  ensures inv(swapped(s, d, q, bound))
{
  hide(t_ok); hide(tsum); hide(in_range); hide(swap_ok); hide(swap_lists); hide(swap_all); hide(swap_ticks); hide(save_all); hide(ts_ok);
  let r = swapped(s, d, q, bound); let w = swap_all(s, d, q, bound); let ts = swap_ticks(s, d, bound); let side = opp(d); let m0 = s.f_tick_state; let m = r.f_tick_state;
  assert(opp(side) == d);
  lem_swap_run(s, d, q, bound);
  assert(m == save_all(m0, w.upd));
  assert forall|t: i64| #[trigger] t_ok(r, t) by {
    assert(t_ok(s, t));
    assert(m_tv(m, t, d) == m_tv(m0, t, d)); assert(fill_rel(m_tv(m0, t, side), m_tv(m, t, side)));
    lem_swap_tick_ok(s, r, d, t);
  }
  lem_swap_rest(s, r, d, q, bound);
}
pub proof fn lem_swap_rest(s: SV, r: SV, d: OrderDirection, q: nat, bound: i64)
  requires inv(s), dliq(s, opp(d)) >= swap_all(s, d, q, bound).out * E18(), run_ok(s, d, swap_ticks(s, d, bound), swap_ticks(s, d, bound).len(), swap_all(s, d, q, bound)), r == swapped(s, d, q, bound), forall|t: i64| #[trigger] t_ok(r, t)
  ensures inv(r)
{
  hide(t_ok); hide(tsum); hide(swap_all); hide(swap_ticks); hide(save_all); hide(fill_rel);
  let w = swap_all(s, d, q, bound); let side = opp(d); let m0 = s.f_tick_state; let m = r.f_tick_state; let b0 = s.f_orderbook->0;
  assert(opp(side) == d);
  lem_dir_key(side);
  assert forall|t: i64| m_tal(m0, t, d) == #[trigger] m_tal(m, t, d) by { assert(m_tv(m, t, d) == m_tv(m0, t, d)); }
  lem_tsum_same(m0, m, d, NT());
  assert(liq_ok(r, d)); assert(liq_ok(r, side));
  assert(ptr_ok(m, w.book)) by {
    assert forall|t: i64| #[trigger] m_tal(m, t, OrderDirection::Bid) > 0 implies t <= w.book.next_bid_tick by { if side == OrderDirection::Bid { assert(past(side, t, nxt(w.book, side))); } else { assert(m_tal(m0, t, d) > 0); } }
    assert forall|t: i64| #[trigger] m_tal(m, t, OrderDirection::Ask) > 0 implies t >= w.book.next_ask_tick by { if side == OrderDirection::Ask { assert(past(side, t, nxt(w.book, side))); } else { assert(m_tal(m0, t, d) > 0); } }
  }
  assert forall|t: i64, id: u64| #[trigger] r.f_orders.dom().contains((t, id)) implies o_ok(r, t, id) by { assert(o_ok(s, t, id)); }
}
