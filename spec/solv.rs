// ---- C22: solvency over histories ----
pub type Led = Map<(i64, OrderDirection), nat>;
pub open spec fn led(l: Led, t: i64, d: OrderDirection) -> nat { if l.dom().contains((t, d)) { l[(t, d)] } else { 0 } }
pub open spec fn lsum(l: Led, d: OrderDirection, n: nat) -> nat decreases n { if n == 0 { 0 } else { lsum(l, d, (n - 1) as nat) + led(l, (TMIN() + n - 1) as i64, d) } }
pub proof fn lem_lsum_upd(l: Led, m: Led, d: OrderDirection, n: nat, u: i64)
  requires n <= NT(), forall|t: i64| t != u ==> led(l, t, d) == #[trigger] led(m, t, d)
  ensures TMIN() <= u < TMIN() + n ==> lsum(l, d, n) + led(m, u, d) == lsum(m, d, n) + led(l, u, d), !(TMIN() <= u < TMIN() + n) ==> lsum(l, d, n) == lsum(m, d, n)
  decreases n
{
  if n > 0 {
    lem_lsum_upd(l, m, d, (n - 1) as nat, u);
    let t = (TMIN() + n - 1) as i64;
    if t != u { assert(led(l, t, d) == led(m, t, d)); }
  }
}
pub open spec fn ladd(l: Led, t: i64, d: OrderDirection, x: int) -> Led { l.insert((t, d), (led(l, t, d) + x) as nat) }
pub proof fn lem_ladd(l: Led, t: i64, d: OrderDirection, x: int)
  requires in_range(t as int), led(l, t, d) + x >= 0
  ensures lsum(ladd(l, t, d, x), d, NT()) == lsum(l, d, NT()) + x, lsum(ladd(l, t, d, x), opp(d), NT()) == lsum(l, opp(d), NT()),
    forall|u: i64, e: OrderDirection| (u, e) != (t, d) ==> #[trigger] led(ladd(l, t, d, x), u, e) == led(l, u, e), led(ladd(l, t, d, x), t, d) == led(l, t, d) + x
{
  let m = ladd(l, t, d, x);
  lem_lsum_upd(l, m, d, NT(), t); lem_lsum_upd(l, m, opp(d), NT(), (TMAX() + 1) as i64);
}
// filled and unclaimed quantity of a tick and direction
pub open spec fn ubal(s: SV, t: i64, d: OrderDirection) -> int { osum(s.f_orders, t, d, 0, next_id(s) as nat) - tal_of(s, t, d) }
pub open spec fn tick_bal(s: SV, l: Led, k: spec_fn(i64, OrderDirection) -> nat, t: i64, d: OrderDirection) -> bool { in_range(t as int) ==> lbal(d, led(l, t, d), ubal(s, t, d), ladder(t as int), k(t, d)) }
// ---- along a swap ----
pub open spec fn m_ubal(s: SV, m: Map<i64, TickState>, t: i64, d: OrderDirection) -> int { osum(s.f_orders, t, d, 0, next_id(s) as nat) - m_tal(m, t, d) }
pub open spec fn k_run(s: SV, m: Map<i64, TickState>, k: spec_fn(i64, OrderDirection) -> nat, t: i64, d: OrderDirection) -> nat { k(t, d) + (if m_tv(m, t, d) == m_tv(s.f_tick_state, t, d) { 0nat } else { 1nat }) }
pub open spec fn run_tick(s: SV, m: Map<i64, TickState>, l: Led, k: spec_fn(i64, OrderDirection) -> nat, t: i64, d: OrderDirection) -> bool { in_range(t as int) ==> lbal(d, led(l, t, d), m_ubal(s, m, t, d), ladder(t as int), k_run(s, m, k, t, d)) }
pub open spec fn run_led(s: SV, d: OrderDirection, w: Swap, q: nat, l0: Led, l: Led, k: spec_fn(i64, OrderDirection) -> nat) -> bool {
  let side = opp(d); let m = save_all(s.f_tick_state, w.upd);
  &&& forall|t: i64, e: OrderDirection| #[trigger] run_tick(s, m, l, k, t, e)
  &&& lsum(l, side, NT()) + w.rem <= lsum(l0, side, NT()) + q && lsum(l, d, NT()) == lsum(l0, d, NT())
}
pub open spec fn run_paid(s: SV, d: OrderDirection, w: Swap, q: nat, l0: Led, k: spec_fn(i64, OrderDirection) -> nat) -> bool { exists|l: Led| #[trigger] run_led(s, d, w, q, l0, l, k) }
pub proof fn lem_paid_fill(s: SV, d: OrderDirection, ts: Seq<i64>, n: nat, w: Swap, x: Swap, q: nat, l0: Led, l: Led, k: spec_fn(i64, OrderDirection) -> nat, bound: i64)
  requires run_led(s, d, w, q, l0, l, k), run_ok(s, d, ts, n, w), ts_ok(s, d, ts, bound), n < ts.len(), step_fill(s, d, w, x, ts[n as int]), whole(gtv(s, ts[n as int], opp(d)).total_amount_of_liquidity@)
  ensures run_paid(s, d, x, q, l0, k)
{
  hide(ladder); hide(tsum); hide(vdown); hide(vup); hide(save_all); hide(in_range); hide(lsum); hide(lbal); hide(osum); hide(ladd); hide(led);
  let t = ts[n as int]; let side = opp(d); let m0 = s.f_tick_state; let m = save_all(m0, w.upd); let v = gtv(s, t, side); let f = fill_of(v, d, w.rem, t); let c = charge_of(v, d, w.rem, t);
  let z = set_tv(get_tick(s, t), side, filled(v, f)); let m2 = save_all(m0, x.upd); let l2 = ladd(l, t, side, c as int);
  assert(opp(side) == d);
  lem_save_push(m0, w.upd, (t, z)); assert(m2 == m.insert(t, z));
  lem_fill_whole(v, d, w.rem, t); lem_m_tv(s, t, side); lem_m_tv(s, t, d);
  assert(in_range(ts[n as int] as int) && has_tick(s, t));
  assert(!seen(ts, n, t)) by { if seen(ts, n, t) { let i = choose|i: int| 0 <= i < n && #[trigger] ts[i] == t; assert(outwards(d, ts[i], ts[n as int])); } }
  assert(m_tv(m, t, side) == v);
  assert forall|u: i64, e: OrderDirection| (u, e) != (t, side) implies #[trigger] m_tv(m2, u, e) == m_tv(m, u, e) by { if u == t { assert(e == d); assert(m_tv(m, t, d) == m_tv(m0, t, d)); assert(tv(z, d) == tv(get_tick(s, t), d)); } }
  assert(m_tv(m2, t, side) == filled(v, f));
  lem_ladd(l, t, side, c as int); lem_ladder_bounds(t as int);
  assert forall|u: i64, e: OrderDirection| #[trigger] run_tick(s, m2, l2, k, u, e) by {
    assert(run_tick(s, m, l, k, u, e));
    if (u, e) != (t, side) { assert(m_tv(m2, u, e) == m_tv(m, u, e)); assert(led(l2, u, e) == led(l, u, e)); }
    else if in_range(u as int) {
      let kk = k_run(s, m, k, t, side); assert(kk == k(t, side));
      lem_lbal_fill(side, led(l, t, side), m_ubal(s, m, t, side), ladder(t as int), kk, f);
      assert(m_ubal(s, m2, t, side) == m_ubal(s, m, t, side) + f);
      assert(led(l2, t, side) == led(l, t, side) + c);
      if f == 0 { assert(filled(v, 0) == v); lem_lbal_more(side, led(l, t, side), m_ubal(s, m, t, side), ladder(t as int), kk, led(l2, t, side), kk); }
      else { assert(m_tv(m2, t, side) != m_tv(m0, t, side)); }
    }
  }
  assert(run_led(s, d, x, q, l0, l2, k));
}
pub proof fn lem_paid_run(s: SV, d: OrderDirection, ts: Seq<i64>, n: nat, q: nat, bound: i64, l0: Led, k: spec_fn(i64, OrderDirection) -> nat)
  requires inv(s), ts_ok(s, d, ts, bound), n <= ts.len(), !swap_run(s, d, ts, n, swap0(s, q)).bad, forall|t: i64, e: OrderDirection| #[trigger] tick_bal(s, l0, k, t, e)
  ensures run_paid(s, d, swap_run(s, d, ts, n, swap0(s, q)), q, l0, k)
  decreases n
{
  hide(run_ok); hide(ts_ok); hide(ptr_ok); hide(t_ok); hide(lbal); hide(ladder); hide(lsum); hide(vdown); hide(osum); hide(in_range); hide(charge_of); hide(fill_of);
  if n == 0 {
    let w = swap0(s, q);
    assert(save_all(s.f_tick_state, w.upd) == s.f_tick_state);
    assert forall|t: i64, e: OrderDirection| #[trigger] run_tick(s, s.f_tick_state, l0, k, t, e) by { assert(tick_bal(s, l0, k, t, e)); lem_m_tv(s, t, e); }
    assert(run_led(s, d, w, q, l0, l0, k));
  } else {
    let w = swap_run(s, d, ts, (n - 1) as nat, swap0(s, q)); let t = ts[n - 1]; let x = swap_tick(s, d, w, t);
    lem_swap_stuck(s, d, ts, (n - 1) as nat, n, swap0(s, q));
    lem_paid_run(s, d, ts, (n - 1) as nat, q, bound, l0, k);
    lem_run(s, d, ts, (n - 1) as nat, q, bound);
    let l = choose|l: Led| #[trigger] run_led(s, d, w, q, l0, l, k);
    assert(whole(gtv(s, t, opp(d)).total_amount_of_liquidity@)) by { assert(t_ok(s, t)); reveal(t_ok); }
    if w.dust || gtv(s, t, opp(d)).total_amount_of_liquidity@ == 0 { assert(run_led(s, d, x, q, l0, l, k)); }
    else if vdown(d, w.rem, ladder(t as int)) == 0 { assert(run_led(s, d, x, q, l0, l, k)); }
    else { lem_paid_fill(s, d, ts, (n - 1) as nat, w, x, q, l0, l, k, bound); }
  }
}
