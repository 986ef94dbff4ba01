// ---- C22: the contract's holdings over a history, and what they cover ----
pub open spec fn coin_in(c: Coin, den: Seq<char>) -> nat { if c.denom@ == den { c.amount@ } else { 0 } }
pub open spec fn coins_in(l: Seq<Coin>, den: Seq<char>) -> nat decreases l.len() { if l.len() == 0 { 0 } else { coins_in(l.drop_last(), den) + coin_in(l.last(), den) } }
pub open spec fn wire_in(c: ProtoCoin, den: Seq<char>) -> nat { if c.denom@ == den { match num_val(c.amount@) { Some(n) => n, None => 0 } } else { 0 } }
pub open spec fn wires_in(l: Seq<ProtoCoin>, den: Seq<char>) -> nat decreases l.len() { if l.len() == 0 { 0 } else { wires_in(l.drop_last(), den) + wire_in(l.last(), den) } }
// what one message of the contract, and a list of them, sends out in a denomination
pub open spec fn msg_out(m: SubMsg, den: Seq<char>) -> nat {
  match m.msg { CosmosMsg::Bank(BankMsg::Send { to_address, amount }) => coins_in(amount@, den), CosmosMsg::Bank(BankMsg::Burn { amount }) => coins_in(amount@, den), CosmosMsg::Proto(s) => wires_in(s.amount@, den), CosmosMsg::Other(_) => 0 }
}
pub open spec fn out(ms: Seq<SubMsg>, den: Seq<char>) -> nat decreases ms.len() { if ms.len() == 0 { 0 } else { out(ms.drop_last(), den) + msg_out(ms.last(), den) } }
pub proof fn lem_out_cat(a: Seq<SubMsg>, b: Seq<SubMsg>, den: Seq<char>)
  ensures out(a + b, den) == out(a, den) + out(b, den)
  decreases b.len()
{ if b.len() == 0 { assert(a + b =~= a); } else { assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last()); lem_out_cat(a, b.drop_last(), den); } }
pub open spec fn if_den(x: Seq<char>, y: Seq<char>, n: nat) -> nat { if x == y { n } else { 0 } }
pub proof fn lem_pays(m: SubMsg, from: Seq<char>, to: Seq<char>, denom: Seq<char>, amt: nat, den: Seq<char>)
  requires pays(m, from, to, denom, amt)
  ensures msg_out(m, den) == if_den(denom, den, amt)
{
  match m.msg {
    CosmosMsg::Bank(BankMsg::Send { to_address, amount }) => { assert(amount@.drop_last().len() == 0); assert(coins_in(amount@.drop_last(), den) == 0); assert(amount@.last() == amount@[0]); }
    CosmosMsg::Proto(s) => { ax_num_str(amt); assert(s.amount@.drop_last().len() == 0); assert(wires_in(s.amount@.drop_last(), den) == 0); assert(s.amount@.last() == s.amount@[0]); }
    _ => {}
  }
}
pub proof fn lem_out1(ms: Seq<SubMsg>, den: Seq<char>)
  ensures ms.len() == 0 ==> out(ms, den) == 0, ms.len() == 1 ==> out(ms, den) == msg_out(ms[0], den), ms.len() == 2 ==> out(ms, den) == msg_out(ms[0], den) + msg_out(ms[1], den), ms.len() == 3 ==> out(ms, den) == msg_out(ms[0], den) + msg_out(ms[1], den) + msg_out(ms[2], den)
  decreases ms.len()
{
  if ms.len() > 0 {
    let a = ms.drop_last();
    lem_out1(a, den);
    assert(out(ms, den) == out(a, den) + msg_out(ms.last(), den));
    if ms.len() == 3 { assert(a[0] == ms[0] && a[1] == ms[1]); } else if ms.len() == 2 { assert(a[0] == ms[0]); }
  }
}
pub proof fn lem_claim_out(ms: Seq<SubMsg>, me: Seq<char>, owner: Seq<char>, claimer: Seq<char>, rec: Seq<char>, denom: Seq<char>, net: nat, bounty: nat, mfee: nat, den: Seq<char>)
  requires claim_msgs(ms, me, owner, claimer, rec, denom, net, bounty, mfee)
  ensures out(ms, den) == if_den(denom, den, net + bounty + mfee)
{
  lem_out1(ms, den);
  if net > 0 { lem_pays(ms[0], me, owner, denom, net, den); }
  if bounty > 0 { lem_pays(ms[one_if(net) as int], me, claimer, denom, bounty, den); }
  if mfee > 0 { lem_pays(ms[(one_if(net) + one_if(bounty)) as int], me, rec, denom, mfee, den); }
}
// ---- the solvency invariant ----
pub type Hold = spec_fn(OrderDirection) -> int;
pub type Fills = spec_fn(i64, OrderDirection) -> nat;
pub open spec fn den(s: SV, d: OrderDirection) -> Seq<char> { dep_denom(s.f_orderbook->0, d)@ }
pub open spec fn held_ok(s: SV, l: Led, h: Hold, d: OrderDirection) -> bool { h(d) * E18() >= dliq(s, d) + lsum(l, opp(d), NT()) * E18() }
pub open spec fn solv_by(s: SV, l: Led, k: Fills, h: Hold) -> bool {
  &&& s.f_orderbook is Some && den(s, OrderDirection::Bid) != den(s, OrderDirection::Ask)
  &&& forall|t: i64, d: OrderDirection| #[trigger] tick_bal(s, l, k, t, d)
  &&& held_ok(s, l, h, OrderDirection::Bid) && held_ok(s, l, h, OrderDirection::Ask)
}
pub open spec fn solv(s: SV, k: Fills, h: Hold) -> bool { exists|l: Led| #[trigger] solv_by(s, l, k, h) }
pub open spec fn same_den(s: SV, r: SV) -> bool { r.f_orderbook is Some && s.f_orderbook is Some && r.f_orderbook->0.quote_denom == s.f_orderbook->0.quote_denom && r.f_orderbook->0.base_denom == s.f_orderbook->0.base_denom }
pub open spec fn h_out(s: SV, h: Hold, ms: Seq<SubMsg>) -> Hold { |d: OrderDirection| h(d) - out(ms, den(s, d)) }
// nothing of value changes
pub open spec fn vals_same(s: SV, r: SV) -> bool {
  r.f_orders == s.f_orders && r.f_direction_liquidity == s.f_direction_liquidity && next_id(r) == next_id(s) && same_den(s, r) && forall|t: i64, d: OrderDirection| #[trigger] tal_of(r, t, d) == tal_of(s, t, d)
}
pub proof fn lem_solv_same(s: SV, r: SV, l: Led, k: Fills, h: Hold, g: Hold)
  requires solv_by(s, l, k, h), vals_same(s, r), forall|d: OrderDirection| #[trigger] g(d) >= h(d)
  ensures solv_by(r, l, k, g)
{
  assert forall|t: i64, d: OrderDirection| #[trigger] tick_bal(r, l, k, t, d) by { assert(tick_bal(s, l, k, t, d)); assert(tal_of(r, t, d) == tal_of(s, t, d)); }
  assert(h(OrderDirection::Bid) * E18() <= g(OrderDirection::Bid) * E18()) by (nonlinear_arith) requires g(OrderDirection::Bid) >= h(OrderDirection::Bid);
  assert(h(OrderDirection::Ask) * E18() <= g(OrderDirection::Ask) * E18()) by (nonlinear_arith) requires g(OrderDirection::Ask) >= h(OrderDirection::Ask);
}
pub proof fn lem_vals_sync(s: SV, r: SV, t: i64)
  requires sync_step(s, r, t), s.f_orderbook is Some
  ensures vals_same(s, r)
{ hide(value_same); lem_sync_value(s, r, t); reveal(value_same); assert forall|u: i64, d: OrderDirection| #[trigger] tal_of(r, u, d) == tal_of(s, u, d) by { assert(gtv(r, u, d).total_amount_of_liquidity == gtv(s, u, d).total_amount_of_liquidity); } }
// ---- claims ----
pub proof fn lem_claim_sum(s: SV, r: SV, me: Seq<char>, who: Seq<char>, t: i64, id: u64, ms: Seq<SubMsg>, x: Seq<char>)
  requires claimed(s, r, me, who, t, id, ms)
  ensures ({ let o = s.f_orders[(t, id)]; out(ms, x) == if_den(pay_denom(s.f_orderbook->0, o.order_direction)@, x, cl_gross(gtv(r, t, o.order_direction), o, t)) })
{
  hide(cl_owed); hide(cl_book); hide(folded); hide(claim_msgs); hide(cl_gross);
  let o = s.f_orders[(t, id)];
  lem_claim_out(ms, me, o.owner@, who, rec_of(s), pay_denom(s.f_orderbook->0, o.order_direction)@, cl_net(s, r, t, id) as nat, cl_bounty(s, r, t, id), cl_fee(s, r, t, id), x);
}
pub proof fn lem_ubal_claim(m: SV, r: SV, t: i64, id: u64)
  requires inv(m), inv(r), m.f_orders.dom().contains((t, id)), r == (SV { f_orders: r.f_orders, ..m }), r.f_orders =~= claim_map(gtv(m, t, m.f_orders[(t, id)].order_direction), m.f_orders, t, id),
    gtv(m, t, m.f_orders[(t, id)].order_direction).effective_total_amount_swapped@ > m.f_orders[(t, id)].etas@
  ensures ({ let o = m.f_orders[(t, id)]; let d = o.order_direction; let f = cl_fill(gtv(m, t, d), o); ubal(r, t, d) == ubal(m, t, d) - f && whole(f) && f <= ubal(m, t, d) && cl_units(gtv(m, t, d), o) == f / E18() }),
    forall|u: i64, e: OrderDirection| (u, e) != (t, m.f_orders[(t, id)].order_direction) ==> #[trigger] ubal(r, u, e) == ubal(m, u, e)
{
  hide(q_ok); hide(idx_ok); hide(osum); hide(liq_ok); hide(ptr_ok);
  let o = m.f_orders[(t, id)]; let d = o.order_direction; let n = next_id(m) as nat;
  assert(t_ok(m, t)); assert(q_at(m, t, d)); assert(t_ok(r, t)); assert(q_at(r, t, d)); assert(ord(m.f_orders, t, d, id) is Some);
  lem_q_claim(gtv(m, t, d), entries(m, t, d), m.f_orders, t, d, n, id);
  lem_q_liq(gtv(r, t, d), entries(r, t, d), r.f_orders, t, d, n);
  lem_whole(cl_units(gtv(m, t, d), o), 0);
  assert(gtv(r, t, d) == gtv(m, t, d));
  lem_ords_other(m.f_orders, r.f_orders, t, id);
  assert forall|u: i64, e: OrderDirection| (u, e) != (t, d) implies #[trigger] ubal(r, u, e) == ubal(m, u, e) by {
    assert forall|i: u64| i < n implies otl(ord(m.f_orders, u, e, i), 0) == otl(#[trigger] ord(r.f_orders, u, e, i), 0) by { if (u, i) == (t, id) { assert(ord(m.f_orders, u, e, i) is None); assert(ord(r.f_orders, u, e, i) is None); } }
    lem_osum_same(m.f_orders, r.f_orders, u, e, 0, n);
    assert(gtv(r, u, e) == gtv(m, u, e));
  }
}
pub proof fn lem_solv_claim(s: SV, r: SV, me: Seq<char>, who: Seq<char>, t: i64, id: u64, ms: Seq<SubMsg>, l: Led, k: Fills, h: Hold)
  requires inv(s), claimed(s, r, me, who, t, id, ms), solv_by(s, l, k, h), k(t, s.f_orders[(t, id)].order_direction) < E18()
  ensures solv(r, k, h_out(s, h, ms)), same_den(s, r)
{
  hide(inv); hide(claimed); hide(sync_step); hide(synced_now); hide(folded); hide(claim_map); hide(lbal); hide(ladder); hide(lsum); hide(ladd); hide(ubal); hide(in_range); hide(led);
  let m = cl_mid(s, r); let o = s.f_orders[(t, id)]; let d = o.order_direction; let v = gtv(m, t, d); let f = cl_fill(v, o); let g = cl_gross(v, o, t); let h2 = h_out(s, h, ms);
  lem_claim_mid(s, r, me, who, t, id, ms);
  lem_inv_sync(s, m, t); lem_inv_claim(s, r, me, who, t, id, ms);
  assert(s.f_orderbook is Some);
  lem_vals_sync(s, m, t);
  lem_solv_same(s, m, l, k, h, h);
  lem_ubal_claim(m, r, t, id);
  assert(tick_bal(m, l, k, t, d));
  assert(in_range(t as int)) by { reveal(claimed); }
  lem_ladder_bounds(t as int);
  lem_lbal_claim(d, led(l, t, d), ubal(m, t, d), ladder(t as int), k(t, d), f);
  let l2 = ladd(l, t, d, -(g as int));
  lem_ladd(l, t, d, -(g as int));
  assert forall|u: i64, e: OrderDirection| #[trigger] tick_bal(r, l2, k, u, e) by {
    assert(tick_bal(m, l, k, u, e));
    if (u, e) != (t, d) { assert(ubal(r, u, e) == ubal(m, u, e)); assert(led(l2, u, e) == led(l, u, e)); }
  }
  lem_claim_sum(s, r, me, who, t, id, ms, den(s, OrderDirection::Bid)); lem_claim_sum(s, r, me, who, t, id, ms, den(s, OrderDirection::Ask));
  assert(opp(opp(d)) == d);
  assert(pay_denom(s.f_orderbook->0, d)@ == den(s, opp(d)));
  assert(held_ok(m, l, h, d) && held_ok(m, l, h, opp(d))) by { match d { OrderDirection::Bid => {} OrderDirection::Ask => {} } }
  assert(den(s, d) != den(s, opp(d)));
  assert(h2(d) == h(d) && h2(opp(d)) == h(opp(d)) - g);
  assert(held_ok(r, l2, h2, d));
  assert(held_ok(r, l2, h2, opp(d))) by (nonlinear_arith)
    requires h2(opp(d)) == h(opp(d)) - g, h(opp(d)) * E18() >= dliq(m, opp(d)) + lsum(l, d, NT()) * E18(), lsum(l2, d, NT()) == lsum(l, d, NT()) - g, dliq(r, opp(d)) == dliq(m, opp(d)), opp(opp(d)) == d;
  assert(held_ok(r, l2, h2, OrderDirection::Bid) && held_ok(r, l2, h2, OrderDirection::Ask)) by { match d { OrderDirection::Bid => {} OrderDirection::Ask => {} } }
  assert(solv_by(r, l2, k, h2));
}
pub proof fn lem_solv_more(s: SV, k: Fills, h: Hold, g: Hold)
  requires solv(s, k, h), forall|d: OrderDirection| #[trigger] g(d) >= h(d)
  ensures solv(s, k, g)
{ let l = choose|l: Led| #[trigger] solv_by(s, l, k, h); lem_solv_same(s, s, l, k, h, g); assert(solv_by(s, l, k, g)); }
pub proof fn lem_solv_batch(s: SV, r: SV, me: Seq<char>, who: Seq<char>, es: Seq<(i64, u64)>, ms: Seq<SubMsg>, k: Fills, h: Hold)
  requires inv(s), batch(s, r, me, who, es, ms), solv(s, k, h), forall|t: i64, d: OrderDirection| #[trigger] k(t, d) < E18()
  ensures solv(r, k, h_out(s, h, ms)), same_den(s, r)
  decreases es.len()
{
  hide(inv); hide(claimed); hide(cl_safe); hide(cl_fail); hide(cl_sure); hide(solv_by);
  let g = h_out(s, h, ms);
  if es.len() == 0 {
    assert(same_den(s, r)) by { reveal(inv); }
    lem_solv_more(r, k, h, g);
  } else {
    let (m, a, b) = choose|m: SV, a: Seq<SubMsg>, b: Seq<SubMsg>| batch(s, m, me, who, es.drop_last(), a) && #[trigger] batch_step(m, r, me, who, es.last(), b) && #[trigger] joined(ms, a, b);
    lem_solv_batch(s, m, me, who, es.drop_last(), a, k, h);
    lem_inv_batch(s, m, me, who, es.drop_last(), a);
    let e = es.last(); let h1 = h_out(s, h, a); let h2 = h_out(m, h1, b);
    let l = choose|l: Led| #[trigger] solv_by(m, l, k, h1);
    assert(ms == a + b);
    lem_out_cat(a, b, den(s, OrderDirection::Bid)); lem_out_cat(a, b, den(s, OrderDirection::Ask));
    assert forall|d: OrderDirection| #[trigger] g(d) >= h2(d) by { match d { OrderDirection::Bid => {} OrderDirection::Ask => {} } }
    if claimed(m, r, me, who, e.0, e.1, b) { assert(k(e.0, m.f_orders[(e.0, e.1)].order_direction) < E18()); lem_solv_claim(m, r, me, who, e.0, e.1, b, l, k, h1); }
    else {
      lem_cl_safe(m, e.0, e.1); assert(sync_step(m, r, e.0)) by { reveal(cl_fail); } lem_vals_sync(m, r, e.0);
      assert forall|d: OrderDirection| #[trigger] h2(d) >= h1(d) by {}
      lem_solv_same(m, r, l, k, h1, h2); assert(solv_by(r, l, k, h2));
    }
    lem_solv_more(r, k, h2, g);
  }
}
// ---- placements and cancellations move deposits and liquidity alike ----
pub open spec fn h_act(s: SV, h: Hold, funds: Seq<Coin>, ms: Seq<SubMsg>) -> Hold { |d: OrderDirection| h(d) + coins_in(funds, den(s, d)) - out(ms, den(s, d)) }
pub proof fn lem_ubal_place(s: SV, env: Env, info: MessageInfo, t: i64, d: OrderDirection, q: Uint128, bo: Option<Decimal256>, u: i64, e: OrderDirection)
  requires inv(s), place_ok(s, info, t, d, q, bo), next_id(s) < u64::MAX
  ensures ubal(placed(s, env, info, t, d, q, bo), u, e) == ubal(s, u, e)
{
  hide(q_ok); hide(idx_ok); hide(liq_ok); hide(ptr_ok);
  let r = placed(s, env, info, t, d, q, bo); let n = next_id(s) as nat;
  assert(t_ok(s, u)); assert(q_at(s, u, e)); assert(q_new(s.f_orders, u, e, n)) by { reveal(q_ok); }
  assert(ord(s.f_orders, u, e, n as u64) is None);
  assert forall|i: u64| i < n implies otl(ord(s.f_orders, u, e, i), 0) == otl(#[trigger] ord(r.f_orders, u, e, i), 0) by { assert(ord(r.f_orders, u, e, i) == ord(s.f_orders, u, e, i)); }
  lem_osum_same(s.f_orders, r.f_orders, u, e, 0, n);
  assert(next_id(r) == n + 1);
  if u == t && e == d { assert(ord(r.f_orders, t, d, n as u64) == Some(new_order(s, env, info, t, d, q, bo))); assert(gtv(r, t, d) == placed_tv(gtv(s, t, d), q@ * E18())); }
  else { assert(ord(r.f_orders, u, e, n as u64) is None) by { if u == t { } } assert(gtv(r, u, e) == gtv(s, u, e)) by { if u == t { assert(e == opp(d)); } else { assert(get_tick(r, u) == get_tick(s, u)); } } }
}
pub proof fn lem_solv_place(s: SV, env: Env, info: MessageInfo, t: i64, d: OrderDirection, q: Uint128, bo: Option<Decimal256>, l: Led, k: Fills, h: Hold)
  requires inv(s), place_ok(s, info, t, d, q, bo), next_id(s) < u64::MAX, solv_by(s, l, k, h)
  ensures solv_by(placed(s, env, info, t, d, q, bo), l, k, h_act(s, h, info.funds@, Seq::empty()))
{
  hide(inv); hide(lbal); hide(ubal); hide(lsum);
  let r = placed(s, env, info, t, d, q, bo); let g = h_act(s, h, info.funds@, Seq::empty());
  assert forall|u: i64, e: OrderDirection| #[trigger] tick_bal(r, l, k, u, e) by { assert(tick_bal(s, l, k, u, e)); lem_ubal_place(s, env, info, t, d, q, bo, u, e); }
  lem_dir_key(d);
  let c = info.funds@; assert(c.len() == 1 && c.drop_last().len() == 0); assert(c.last() == c[0]);
  assert(forall|x: Seq<char>| coins_in(c.drop_last(), x) == 0);
  assert(den(s, d) != den(s, opp(d))) by { match d { OrderDirection::Bid => {} OrderDirection::Ask => {} } }
  assert(coins_in(c, den(s, d)) == coins_in(c.drop_last(), den(s, d)) + coin_in(c[0], den(s, d)));
  assert(coins_in(c, den(s, opp(d))) == coins_in(c.drop_last(), den(s, opp(d))) + coin_in(c[0], den(s, opp(d))));
  assert(coins_in(c, den(s, d)) == q@ && coins_in(c, den(s, opp(d))) == 0);
  assert(dliq(r, d) == dliq(s, d) + q@ * E18()); assert(dliq(r, opp(d)) == dliq(s, opp(d)));
  assert(g(d) == h(d) + q@ && g(opp(d)) == h(opp(d)));
  assert((h(d) + q@) * E18() == h(d) * E18() + q@ * E18()) by (nonlinear_arith);
  assert(held_ok(s, l, h, d) && held_ok(s, l, h, opp(d))) by { match d { OrderDirection::Bid => {} OrderDirection::Ask => {} } }
  assert(held_ok(r, l, g, d) && held_ok(r, l, g, opp(d)));
  match d { OrderDirection::Bid => {} OrderDirection::Ask => {} }
}
pub proof fn lem_ubal_cancel(s: SV, r: SV, t: i64, id: u64, u: i64, e: OrderDirection)
  requires inv(s), canc_step(s, r, t, id)
  ensures ubal(r, u, e) == ubal(s, u, e)
{
  hide(q_ok); hide(idx_ok); hide(liq_ok); hide(ptr_ok); hide(canc_fit); hide(canc_idx); hide(fold_vals);
  let o = s.f_orders[(t, id)]; let d = o.order_direction; let n = next_id(s) as nat;
  assert(t_ok(s, t)); assert(q_at(s, t, d)); assert(q_new(s.f_orders, t, d, n)) by { reveal(q_ok); }
  lem_canc_tick(s, r, t, id);
  assert(ord(s.f_orders, t, d, id) is Some);
  lem_ords_other(s.f_orders, r.f_orders, t, id);
  assert(next_id(r) == next_id(s));
  if u == t && e == d {
    lem_osum_upd(s.f_orders, r.f_orders, t, d, 0, n, id);
    assert(ord(r.f_orders, t, d, id) is None);
    assert(otl(ord(s.f_orders, t, d, id), 0) == o.quantity@ * E18());
  } else {
    assert forall|i: u64| i < n implies otl(ord(s.f_orders, u, e, i), 0) == otl(#[trigger] ord(r.f_orders, u, e, i), 0) by { if (u, i) == (t, id) { assert(ord(s.f_orders, u, e, i) is None); assert(ord(r.f_orders, u, e, i) is None); } }
    lem_osum_same(s.f_orders, r.f_orders, u, e, 0, n);
    if u == t { assert(e == opp(d)); } else {
      let m = relist(r, t, d, o.quantity@ * E18());
      assert(m.f_tick_state.dom().contains(u) == s.f_tick_state.dom().contains(u)); assert(r.f_tick_state.dom().contains(u) == m.f_tick_state.dom().contains(u));
      assert(has_tick(s, u) ==> m.f_tick_state[u] == s.f_tick_state[u] && m.f_tick_state[u] == r.f_tick_state[u]);
      assert(gtv(r, u, e) == gtv(s, u, e));
    }
  }
}
pub proof fn lem_solv_cancel(s: SV, r: SV, me: Seq<char>, t: i64, id: u64, ms: Seq<SubMsg>, l: Led, k: Fills, h: Hold)
  requires inv(s), canc_step(s, r, t, id), refunded(s, me, t, id, ms), solv_by(s, l, k, h)
  ensures solv_by(r, l, k, h_out(s, h, ms))
{
  hide(inv); hide(lbal); hide(ubal); hide(lsum); hide(ticks_synced); hide(canc_fit); hide(canc_idx); hide(fold_vals);
  let g = h_out(s, h, ms); let o = s.f_orders[(t, id)]; let d = o.order_direction; let q = o.quantity@;
  assert forall|u: i64, e: OrderDirection| #[trigger] tick_bal(r, l, k, u, e) by { assert(tick_bal(s, l, k, u, e)); lem_ubal_cancel(s, r, t, id, u, e); }
  lem_dir_key(d);
  lem_out1(ms, den(s, d)); lem_out1(ms, den(s, opp(d)));
  lem_pays(ms[0], me, o.owner@, den(s, d), q, den(s, d)); lem_pays(ms[0], me, o.owner@, den(s, d), q, den(s, opp(d)));
  assert(den(s, d) != den(s, opp(d))) by { match d { OrderDirection::Bid => {} OrderDirection::Ask => {} } }
  assert(g(d) == h(d) - q && g(opp(d)) == h(opp(d)));
  assert(dliq(r, d) == dliq(s, d) - q * E18()); assert(dliq(r, opp(d)) == dliq(s, opp(d)));
  assert((h(d) - q) * E18() == h(d) * E18() - q * E18()) by (nonlinear_arith);
  assert(held_ok(s, l, h, d) && held_ok(s, l, h, opp(d))) by { match d { OrderDirection::Bid => {} OrderDirection::Ask => {} } }
  assert(held_ok(r, l, g, d) && held_ok(r, l, g, opp(d)));
  match d { OrderDirection::Bid => {} OrderDirection::Ask => {} }
}
// ---- swaps ----
pub open spec fn k_swap(s: SV, r: SV, k: Fills) -> Fills { |t: i64, d: OrderDirection| k(t, d) + (if gtv(r, t, d) == gtv(s, t, d) { 0nat } else { 1nat }) }
pub proof fn lem_solv_swap(s: SV, d: OrderDirection, q: nat, bound: i64, l: Led, k: Fills, h: Hold, g: Hold)
  requires inv(s), swap_step(s, d, q, bound), solv_by(s, l, k, h), g(d) == h(d) + q - swap_all(s, d, q, bound).rem, g(opp(d)) == h(opp(d)) - swap_all(s, d, q, bound).out
  ensures solv(swapped(s, d, q, bound), k_swap(s, swapped(s, d, q, bound), k), g)
{
  hide(inv); hide(swap_lists); hide(swap_all); hide(swap_ticks); hide(save_all); hide(ts_ok); hide(lbal); hide(osum); hide(ladder); hide(lsum); hide(run_ok); hide(swap_run); hide(in_range);
  let r = swapped(s, d, q, bound); let w = swap_all(s, d, q, bound); let ts = swap_ticks(s, d, bound); let k2 = k_swap(s, r, k); let side = opp(d);
  lem_swap_run(s, d, q, bound);
  assert(w == swap_run(s, d, ts, ts.len(), swap0(s, q))) by { reveal(swap_all); }
  lem_paid_run(s, d, ts, ts.len(), q, bound, l, k);
  let l2 = choose|m: Led| #[trigger] run_led(s, d, w, q, l, m, k);
  assert(opp(side) == d);
  lem_dir_key(side);
  assert forall|t: i64, e: OrderDirection| #[trigger] tick_bal(r, l2, k2, t, e) by {
    assert(run_tick(s, save_all(s.f_tick_state, w.upd), l2, k, t, e)); lem_m_tv(s, t, e); lem_m_tv(r, t, e);
  }
  assert(held_ok(s, l, h, d) && held_ok(s, l, h, side)) by { match d { OrderDirection::Bid => {} OrderDirection::Ask => {} } }
  assert(dliq(r, d) == dliq(s, d)); assert(dliq(r, side) == dliq(s, side) - w.out * E18());
  assert(held_ok(r, l2, g, d)) by (nonlinear_arith)
    requires g(d) == h(d) + q - w.rem, h(d) * E18() >= dliq(s, d) + lsum(l, side, NT()) * E18(), lsum(l2, side, NT()) + w.rem <= lsum(l, side, NT()) + q, dliq(r, d) == dliq(s, d), opp(d) == side;
  assert(held_ok(r, l2, g, side)) by (nonlinear_arith)
    requires g(side) == h(side) - w.out, h(side) * E18() >= dliq(s, side) + lsum(l, d, NT()) * E18(), lsum(l2, d, NT()) == lsum(l, d, NT()), dliq(r, side) == dliq(s, side) - w.out * E18(), opp(side) == d;
  assert(same_den(s, r)) by { reveal(run_ok); }
  assert(solv_by(r, l2, k2, g)) by { match d { OrderDirection::Bid => {} OrderDirection::Ask => {} } }
}
// ---- histories with their transfers ----
pub enum Act { Exec { env: Env, info: MessageInfo, msg: ExecuteMsg, ms: Seq<SubMsg> }, Sudo { env: Env, msg: SudoMsg, ms: Seq<SubMsg> }, Refused }
pub open spec fn act_ok(s: SV, r: SV, a: Act) -> bool {
  match a {
    Act::Exec { env, info, msg, ms } => exec_ok(s, r, env, info, msg, ms),
    Act::Sudo { env, msg, ms } => sudo_ok(s, r, msg) && sudo_msgs(s, env, msg, ms),
    Act::Refused => r == s,
  }
}
// coins that come in with a message: the attached funds, or the input the chain hands over for a swap
pub open spec fn act_in(a: Act) -> Seq<Coin> {
  match a {
    Act::Exec { env, info, msg, ms } => info.funds@,
    Act::Sudo { env, msg: SudoMsg::SwapExactAmountIn { sender, token_in, token_out_denom, token_out_min_amount, swap_fee }, ms } => seq![token_in],
    Act::Sudo { env, msg: SudoMsg::SwapToTick { sender, token_in, token_out_denom, token_out_min_amount, swap_fee, target_tick }, ms } => seq![token_in],
    _ => Seq::empty(),
  }
}
pub open spec fn act_out(a: Act) -> Seq<SubMsg> { match a { Act::Exec { env, info, msg, ms } => ms, Act::Sudo { env, msg, ms } => ms, Act::Refused => Seq::empty() } }
pub open spec fn ledger(h: Seq<SV>, a: Seq<Act>) -> bool {
  &&& h.len() == a.len() + 1 && (exists|s: SV, q: String, b: String| empty_store(s) && q@ != b@ && #[trigger] fresh(s, q, b) == h[0])
  &&& forall|i: int| 0 <= i < a.len() ==> #[trigger] act_ok(h[i], h[i + 1], a[i])
}
// what the contract holds after n messages: everything received minus everything sent
pub open spec fn held(a: Seq<Act>, n: nat, x: Seq<char>) -> int decreases n { if n == 0 { 0 } else { held(a, (n - 1) as nat, x) + coins_in(act_in(a[n - 1]), x) - out(act_out(a[n - 1]), x) } }
pub open spec fn fills(h: Seq<SV>, a: Seq<Act>, n: nat, t: i64, d: OrderDirection) -> nat decreases n {
  if n == 0 { 0 } else { fills(h, a, (n - 1) as nat, t, d) + (if a[n - 1] is Sudo && gtv(h[n as int], t, d) != gtv(h[n - 1], t, d) { 1nat } else { 0nat }) }
}
pub open spec fn hold_at(s: SV, a: Seq<Act>, n: nat) -> Hold { |d: OrderDirection| held(a, n, den(s, d)) }
pub open spec fn fills_at(h: Seq<SV>, a: Seq<Act>, n: nat) -> Fills { |t: i64, d: OrderDirection| fills(h, a, n, t, d) }
pub proof fn lem_ledger_history(h: Seq<SV>, a: Seq<Act>)
  requires ledger(h, a)
  ensures history(h)
{
  hide(exec_ok); hide(sudo_ok); hide(sudo_msgs);
  assert forall|i: int| 0 <= i < h.len() - 1 implies #[trigger] step(h[i], h[i + 1]) by { assert(act_ok(h[i], h[i + 1], a[i])); }
}
pub proof fn lem_solv_exec(s: SV, r: SV, env: Env, info: MessageInfo, msg: ExecuteMsg, ms: Seq<SubMsg>, k: Fills, h: Hold)
  requires inv(s), exec_step(s, r, env, info, msg, ms), solv(s, k, h), forall|t: i64, d: OrderDirection| #[trigger] k(t, d) < E18()
  ensures solv(r, k, h_act(s, h, info.funds@, ms)), same_den(s, r)
{
  hide(inv); hide(claimed); hide(batch); hide(cancel_ok); hide(refunded); hide(fold_vals); hide(canc_fit); hide(canc_idx); hide(place_ok); hide(solv_by); hide(cancelled); hide(canc_step);
  let l = choose|l: Led| #[trigger] solv_by(s, l, k, h); let g = h_act(s, h, info.funds@, ms);
  assert(s.f_orderbook is Some) by { reveal(solv_by); }
  match msg {
    ExecuteMsg::PlaceLimit { tick_id, order_direction, quantity, claim_bounty } => {
      assert(r == placed(s, env, info, tick_id, order_direction, quantity, claim_bounty));
      lem_solv_place(s, env, info, tick_id, order_direction, quantity, claim_bounty, l, k, h);
      assert(ms =~= Seq::empty());
      assert(solv_by(r, l, k, g));
    }
    ExecuteMsg::CancelLimit { tick_id, order_id } => {
      lem_exec_cancel(s, r, env, info, tick_id, order_id, ms);
      lem_solv_cancel(s, r, env.contract.address@, tick_id, order_id, ms, l, k, h);
      assert(solv(r, k, h_out(s, h, ms)));
      assert(info.funds@.len() == 0) by { reveal(cancel_ok); }
      assert(same_den(s, r)) by { reveal(canc_step); reveal(cancelled); }
      lem_solv_more(r, k, h_out(s, h, ms), g);
    }
    ExecuteMsg::ClaimLimit { tick_id, order_id } => {
      assert(k(tick_id, s.f_orders[(tick_id, order_id)].order_direction) < E18());
      lem_solv_claim(s, r, env.contract.address@, info.sender@, tick_id, order_id, ms, l, k, h);
      lem_solv_more(r, k, h_out(s, h, ms), g);
    }
    ExecuteMsg::BatchClaim { orders } => { lem_solv_batch(s, r, env.contract.address@, info.sender@, orders@, ms, k, h); lem_solv_more(r, k, h_out(s, h, ms), g); }
    ExecuteMsg::Auth(x) => {
      lem_inv_auth(s, r, info.sender, x);
      assert(ms =~= Seq::empty());
      assert forall|t: i64, d: OrderDirection| #[trigger] tal_of(r, t, d) == tal_of(s, t, d) by {}
      lem_solv_same(s, r, l, k, h, g); assert(solv_by(r, l, k, g));
    }
  }
}
// a swap request and what is paid for it
pub proof fn lem_solv_req(s: SV, me: Seq<char>, sender: Seq<char>, ti: Coin, to: String, min: Uint128, fee: Decimal, target: Option<i64>, ms: Seq<SubMsg>, k: Fills, h: Hold)
  requires inv(s), solv(s, k, h), swap_accepts(s, sender, ti, to, min, fee, target), req_lists(s, ti, to, target), swap_msgs(s, me, sender, ti, to, target, ms)
  ensures ({ let r = req_swapped(s, ti, to, target); solv(r, k_swap(s, r, k), h_act(s, h, seq![ti], ms)) && same_den(s, r) })
{
  hide(inv); hide(swap_ok); hide(swap_lists); hide(swap_all); hide(swap_ticks); hide(save_all); hide(solv_by); hide(dliq); hide(vdown); hide(run_ok); hide(ts_ok);
  let d = swap_dir(s, ti, to)->0; let b = bound_of(d, target); let w = swap_all(s, d, ti.amount@, b); let g = h_act(s, h, seq![ti], ms); let l = choose|l: Led| #[trigger] solv_by(s, l, k, h); let r = req_swapped(s, ti, to, target);
  assert(r == swapped(s, d, ti.amount@, b));
  assert(swap_step(s, d, ti.amount@, b));
  assert(den(s, d) == ti.denom@ && den(s, opp(d)) == to@ && ti.denom@ != to@);
  let c = seq![ti]; assert(c.drop_last().len() == 0);
  assert(coins_in(c, den(s, d)) == coins_in(c.drop_last(), den(s, d)) + coin_in(c[0], den(s, d)));
  assert(coins_in(c, den(s, opp(d))) == coins_in(c.drop_last(), den(s, opp(d))) + coin_in(c[0], den(s, opp(d))));
  lem_out1(ms, den(s, d)); lem_out1(ms, den(s, opp(d)));
  lem_pays(ms[0], me, sender, to@, w.out, den(s, d)); lem_pays(ms[0], me, sender, to@, w.out, den(s, opp(d)));
  if w.rem != 0 { lem_pays(ms[1], me, sender, ti.denom@, w.rem, den(s, d)); lem_pays(ms[1], me, sender, ti.denom@, w.rem, den(s, opp(d))); }
  assert(g(d) == h(d) + ti.amount@ - w.rem); assert(g(opp(d)) == h(opp(d)) - w.out);
  lem_solv_swap(s, d, ti.amount@, b, l, k, h, g);
  assert(same_den(s, r)) by { lem_swap_run(s, d, ti.amount@, b); reveal(run_ok); }
}
pub proof fn lem_k_more(s: SV, k: Fills, k2: Fills, h: Hold)
  requires solv(s, k, h), forall|t: i64, d: OrderDirection| #[trigger] k2(t, d) >= k(t, d)
  ensures solv(s, k2, h)
{
  hide(lbal); hide(ladder); hide(ubal); hide(lsum);
  let l = choose|l: Led| #[trigger] solv_by(s, l, k, h);
  assert forall|t: i64, d: OrderDirection| #[trigger] tick_bal(s, l, k2, t, d) by { assert(tick_bal(s, l, k, t, d)); if in_range(t as int) { lem_lbal_more(d, led(l, t, d), ubal(s, t, d), ladder(t as int), k(t, d), led(l, t, d), k2(t, d)); } }
  assert(solv_by(s, l, k2, h));
}
pub proof fn lem_solv_sudo(s: SV, r: SV, env: Env, msg: SudoMsg, ms: Seq<SubMsg>, k: Fills, h: Hold)
  requires inv(s), sudo_ok(s, r, msg), sudo_msgs(s, env, msg, ms), solv(s, k, h)
  ensures solv(r, k_swap(s, r, k), h_act(s, h, act_in(Act::Sudo { env, msg, ms }), ms)), same_den(s, r)
{
  hide(inv); hide(swap_accepts); hide(req_lists); hide(req_swapped); hide(swap_msgs); hide(solv_by);
  let g = h_act(s, h, act_in(Act::Sudo { env, msg, ms }), ms);
  match msg {
    SudoMsg::SwapExactAmountIn { sender, token_in, token_out_denom, token_out_min_amount, swap_fee } => { lem_solv_req(s, env.contract.address@, sender@, token_in, token_out_denom, token_out_min_amount, swap_fee, None, ms, k, h); }
    SudoMsg::SwapToTick { sender, token_in, token_out_denom, token_out_min_amount, swap_fee, target_tick } => { lem_solv_req(s, env.contract.address@, sender@, token_in, token_out_denom, token_out_min_amount, swap_fee, Some(target_tick), ms, k, h); }
    _ => {
      let l = choose|l: Led| #[trigger] solv_by(s, l, k, h);
      assert(s.f_orderbook is Some) by { reveal(solv_by); }
      assert(ms =~= Seq::empty()); assert(act_in(Act::Sudo { env, msg, ms }) =~= Seq::empty());
      assert forall|t: i64, d: OrderDirection| #[trigger] tal_of(r, t, d) == tal_of(s, t, d) by {}
      lem_solv_same(s, r, l, k, h, g); assert(solv_by(r, l, k, g)); lem_k_more(r, k, k_swap(s, r, k), g);
    }
  }
}
pub proof fn lem_solv_fresh(s: SV, q: String, b: String, k: Fills, h: Hold)
  requires empty_store(s), q@ != b@, forall|d: OrderDirection| #[trigger] h(d) == 0
  ensures solv(fresh(s, q, b), k, h)
{
  let r = fresh(s, q, b); let l: Led = Map::empty();
  assert forall|t: i64, d: OrderDirection| #[trigger] tick_bal(r, l, k, t, d) by { lem_osum_high(r.f_orders, t, d, 0, 0); assert(0 * ladder(t as int) == 0); assert(k(t, d) * ladder(t as int) >= 0) by (nonlinear_arith); assert(0 * ladder(t as int) * E18() == 0) by (nonlinear_arith); }
  lem_lsum_zero(OrderDirection::Bid, NT()); lem_lsum_zero(OrderDirection::Ask, NT());
  assert(solv_by(r, l, k, h));
}
pub proof fn lem_lsum_zero(d: OrderDirection, n: nat) ensures lsum(Map::empty(), d, n) == 0 decreases n { if n > 0 { lem_lsum_zero(d, (n - 1) as nat); } }
pub open spec fn few_fills(h: Seq<SV>, a: Seq<Act>, n: nat) -> bool { forall|t: i64, d: OrderDirection| #[trigger] fills(h, a, n, t, d) < E18() }
pub proof fn lem_solvent(h: Seq<SV>, a: Seq<Act>, n: nat)
  requires ledger(h, a), n < h.len(), few_fills(h, a, n)
  ensures solv(h[n as int], fills_at(h, a, n), hold_at(h[n as int], a, n))
  decreases n
{
  hide(inv); hide(exec_step); hide(sudo_ok); hide(sudo_msgs); hide(solv);
  lem_ledger_history(h, a);
  let k = fills_at(h, a, n); let g = hold_at(h[n as int], a, n);
  if n == 0 { let (s, q, b) = choose|s: SV, q: String, b: String| empty_store(s) && q@ != b@ && #[trigger] fresh(s, q, b) == h[0]; lem_solv_fresh(s, q, b, k, g); }
  else {
    let m = (n - 1) as nat; let s = h[n - 1]; let r = h[n as int]; let x = a[n - 1]; let k0 = fills_at(h, a, m); let g0 = hold_at(s, a, m);
    assert(few_fills(h, a, m)) by { assert forall|t: i64, d: OrderDirection| #[trigger] fills(h, a, m, t, d) < E18() by { assert(fills(h, a, n, t, d) < E18()); } }
    lem_solvent(h, a, m);
    prop_C11_C12_C13_C14_C20_C22_every_state(h, n - 1);
    assert(act_ok(h[n - 1], h[n - 1 + 1], a[n - 1]));
    assert forall|t: i64, d: OrderDirection| #[trigger] k0(t, d) < E18() by { assert(fills(h, a, m, t, d) < E18()); }
    let g1 = h_act(s, g0, act_in(x), act_out(x));
    match x {
      Act::Exec { env, info, msg, ms } => { lem_solv_exec(s, r, env, info, msg, ms, k0, g0); lem_k_more(r, k0, k, g1); }
      Act::Sudo { env, msg, ms } => { lem_solv_sudo(s, r, env, msg, ms, k0, g0); lem_k_more(r, k_swap(s, r, k0), k, g1); }
      Act::Refused => {
        assert(same_den(s, s)) by { reveal(inv); }
        assert forall|d: OrderDirection| #[trigger] g1(d) >= g0(d) by {}
        lem_solv_more(r, k0, g0, g1); lem_k_more(r, k0, k, g1);
      }
    }
    assert forall|d: OrderDirection| #[trigger] g(d) >= g1(d) by { assert(den(s, d) == den(r, d)) by { match d { OrderDirection::Bid => {} OrderDirection::Ask => {} } } }
    lem_solv_more(r, k, g1, g);
  }
}
// everything owed in the denomination that orders of direction d are paid in, over the first n ticks of the range
pub open spec fn tick_owed(s: SV, t: i64, d: OrderDirection) -> nat { owed(s.f_orders, t, d, etas_after(s, t, d) as nat, ladder(t as int), next_id(s) as nat) }
pub open spec fn all_owed(s: SV, d: OrderDirection, n: nat) -> nat decreases n { if n == 0 { 0 } else { all_owed(s, d, (n - 1) as nat) + tick_owed(s, (TMIN() + n - 1) as i64, d) } }
pub proof fn lem_tick_owed(s: SV, l: Led, k: Fills, t: i64, d: OrderDirection)
  requires inv(s), tick_bal(s, l, k, t, d), in_range(t as int), k(t, d) < E18()
  ensures tick_owed(s, t, d) <= led(l, t, d)
{
  hide(q_cover); hide(q_fifo); hide(q_new); hide(idx_ok); hide(liq_ok); hide(ladder); hide(osum); hide(owed); hide(fold_inv); hide(lbal); hide(e_sorted); hide(ents_in);
  let w = folded_tv(s, t, d); let n = next_id(s) as nat; let e = etas_after(s, t, d) as nat;
  lem_sync_fits(s, t, d); lem_folded_tv(s, t, d); lem_ladder_bounds(t as int);
  lem_q_liq(w, entries(s, t, d), s.f_orders, t, d, n);
  assert(w.effective_total_amount_swapped@ == e);
  assert(whole(e));
  assert forall|id: u64| (#[trigger] ord(s.f_orders, t, d, id)) is Some implies whole(ord(s.f_orders, t, d, id)->0.etas@) by { assert(ord_in(w, entries(s, t, d), ord(s.f_orders, t, d, id)->0)); }
  lem_owed(s.f_orders, t, d, e, ladder(t as int), n);
  assert(osum(s.f_orders, t, d, 0, n) - osum(s.f_orders, t, d, e, n) == ubal(s, t, d));
  lem_value_le(d, led(l, t, d), ubal(s, t, d), ladder(t as int), k(t, d), tick_owed(s, t, d));
}
pub proof fn lem_all_owed(s: SV, l: Led, k: Fills, h: Hold, d: OrderDirection, n: nat)
  requires inv(s), solv_by(s, l, k, h), forall|t: i64, e: OrderDirection| #[trigger] k(t, e) < E18(), n <= NT()
  ensures all_owed(s, d, n) <= lsum(l, d, n)
  decreases n
{
  hide(inv); hide(tick_owed); hide(lbal); hide(ladder);
  if n > 0 {
    let t = (TMIN() + n - 1) as i64;
    lem_all_owed(s, l, k, h, d, (n - 1) as nat);
    assert(in_range(t as int)); assert(tick_bal(s, l, k, t, d)); assert(k(t, d) < E18());
    lem_tick_owed(s, l, k, t, d);
  }
}
// C22: in every history in which no tick is filled 10^18 times, the holdings cover all resting deposits and everything owed
pub proof fn prop_C22_solvent(h: Seq<SV>, a: Seq<Act>, n: nat, d: OrderDirection)
  requires ledger(h, a), n < h.len(), few_fills(h, a, n)
  ensures held(a, n, den(h[n as int], d)) * E18() >= dliq(h[n as int], d) + all_owed(h[n as int], opp(d), NT()) * E18()
{
  hide(inv); hide(act_ok); hide(all_owed); hide(lsum);
  let s = h[n as int]; let k = fills_at(h, a, n); let g = hold_at(s, a, n);
  lem_solvent(h, a, n);
  lem_ledger_history(h, a);
  prop_C11_C12_C13_C14_C20_C22_every_state(h, n as int);
  let l = choose|l: Led| #[trigger] solv_by(s, l, k, g);
  assert forall|t: i64, e: OrderDirection| #[trigger] k(t, e) < E18() by { assert(fills(h, a, n, t, e) < E18()); }
  lem_all_owed(s, l, k, g, opp(d), NT());
  assert(held_ok(s, l, g, d)) by { match d { OrderDirection::Bid => {} OrderDirection::Ask => {} } }
  assert(all_owed(s, opp(d), NT()) * E18() <= lsum(l, opp(d), NT()) * E18()) by (nonlinear_arith) requires all_owed(s, opp(d), NT()) <= lsum(l, opp(d), NT());
}
