// ---- coins to the wire format ----
pub open spec fn coin_wire(c: Coin256, r: ProtoCoin) -> bool { r.denom == c.denom && r.amount@ == num_str(c.amount@) }
pub open spec fn send_wire(m: MsgSend256, r: MsgSend) -> bool {
  &&& r.to_address == m.to_address && r.from_address == m.from_address && r.amount@.len() == m.amount@.len()
  &&& forall|i: int| 0 <= i < m.amount@.len() ==> coin_wire(#[trigger] m.amount@[i], r.amount@[i])
}
// ---- claims ----
pub open spec fn nmin(a: nat, b: nat) -> nat { if a <= b { a } else { b } }
// newly filled part of order `o` (18 decimals) when its tick side is `v`
pub open spec fn cl_fill(v: TickValues, o: LimitOrder) -> nat { nmin((v.effective_total_amount_swapped@ - o.etas@) as nat, o.quantity@ * E18()) }
pub open spec fn cl_units(v: TickValues, o: LimitOrder) -> nat { cl_fill(v, o) / E18() }
pub open spec fn cl_gross(v: TickValues, o: LimitOrder, t: i64) -> nat { vdown(o.order_direction, cl_units(v, o), ladder(t as int)) }
pub open spec fn share(gross: nat, rate: nat) -> nat { gross * rate / E18() }
pub open spec fn bounty_rate(o: LimitOrder) -> nat { match o.claim_bounty { Some(b) => b@, None => 0 } }
pub open spec fn one_if(n: nat) -> nat { if n > 0 { 1 } else { 0 } }
pub open spec fn claim_msgs(ms: Seq<SubMsg>, me: Seq<char>, owner: Seq<char>, claimer: Seq<char>, rec: Seq<char>, denom: Seq<char>, net: nat, bounty: nat, mfee: nat) -> bool {
  &&& ms.len() == one_if(net) + one_if(bounty) + one_if(mfee)
  &&& net > 0 ==> pays(ms[0], me, owner, denom, net)
  &&& bounty > 0 ==> pays(ms[one_if(net) as int], me, claimer, denom, bounty)
  &&& mfee > 0 ==> pays(ms[(one_if(net) + one_if(bounty)) as int], me, rec, denom, mfee)
  &&& forall|i: int| 0 <= i < ms.len() ==> guarded(#[trigger] ms[i])
}
// state before the order itself was touched: the tick has been synchronised, the order not yet updated
pub open spec fn cl_mid(s: SV, r: SV) -> SV { SV { f_orders: s.f_orders, ..r } }
pub open spec fn cl_owed(s: SV, r: SV, t: i64, id: u64) -> bool {
  let o = s.f_orders[(t, id)];
  &&& s.f_orderbook is Some && has_tick(s, t) && s.f_orders.dom().contains((t, id)) && in_range(t as int)
  &&& synced_now(s, cl_mid(s, r), t)
  &&& gtv(r, t, o.order_direction).effective_total_amount_swapped@ > o.etas@
}
pub open spec fn cl_new(s: SV, r: SV, t: i64, id: u64) -> LimitOrder {
  let o = s.f_orders[(t, id)]; let v = gtv(r, t, o.order_direction);
  LimitOrder { quantity: Uint128 { v: (o.quantity@ - cl_units(v, o)) as u128 }, etas: d256(o.etas@ + cl_fill(v, o)), ..o }
}
pub open spec fn cl_book(s: SV, r: SV, t: i64, id: u64) -> bool {
  let o = s.f_orders[(t, id)]; let v = gtv(r, t, o.order_direction);
  &&& cl_units(v, o) <= o.quantity@
  &&& r.f_orders =~= (if cl_units(v, o) == o.quantity@ { s.f_orders.remove((t, id)) } else { s.f_orders.insert((t, id), cl_new(s, r, t, id)) })
}
pub open spec fn cl_bounty(s: SV, r: SV, t: i64, id: u64) -> nat { let o = s.f_orders[(t, id)]; share(cl_gross(gtv(r, t, o.order_direction), o, t), bounty_rate(o)) }
pub open spec fn cl_fee(s: SV, r: SV, t: i64, id: u64) -> nat { let o = s.f_orders[(t, id)]; let g = cl_gross(gtv(r, t, o.order_direction), o, t); if g == cl_bounty(s, r, t, id) { 0 } else { share(g, fee(s)) } }
pub open spec fn cl_net(s: SV, r: SV, t: i64, id: u64) -> int { let o = s.f_orders[(t, id)]; cl_gross(gtv(r, t, o.order_direction), o, t) - cl_bounty(s, r, t, id) - cl_fee(s, r, t, id) }
pub open spec fn rec_of(s: SV) -> Seq<char> { match s.f_maker_fee_recipient { Some(a) => a@, None => Seq::empty() } }
pub open spec fn cl_pay(s: SV, r: SV, me: Seq<char>, who: Seq<char>, t: i64, id: u64, ms: Seq<SubMsg>) -> bool {
  let o = s.f_orders[(t, id)];
  &&& cl_net(s, r, t, id) >= 0
  &&& cl_fee(s, r, t, id) > 0 ==> s.f_maker_fee_recipient is Some
  &&& claim_msgs(ms, me, o.owner@, who, rec_of(s), pay_denom(s.f_orderbook->0, o.order_direction)@, cl_net(s, r, t, id) as nat, cl_bounty(s, r, t, id), cl_fee(s, r, t, id))
}
// settings under which no claim can get stuck half way (kept by every operation, see C20)
pub open spec fn cl_safe(s: SV, t: i64, id: u64) -> bool {
  &&& fee(s) <= FEE_MAX() && s.f_maker_fee_recipient is Some
  &&& has_tick(s, t) ==> in_range(t as int)
  &&& s.f_orders.dom().contains((t, id)) ==> bounty_rate(s.f_orders[(t, id)]) <= BOUNTY_MAX()
}
pub open spec fn cl_fail(s: SV, r: SV, t: i64) -> bool { sync_frame(s, r, t) && roots_init(s, r, t) && (r.f_tick_state == s.f_tick_state || synced_now(s, r, t) && fold_vals(s, r, t)) }
pub proof fn lem_share(g: nat, rate: nat) ensures (g * E18()) * rate / E18() == g * rate, (g * E18() / 1) * rate / E18() == g * rate, rate == 0 ==> share(g, rate) == 0,
  rate <= E18() ==> share(g, rate) <= g && g * rate <= g * E18(), g == 0 ==> share(g, rate) == 0 {
  assert((g * E18()) * rate == (g * rate) * E18()) by (nonlinear_arith);
  lem_mul_div(g * rate, E18());
  if rate <= E18() {
    assert(g * rate <= g * E18()) by (nonlinear_arith) requires rate <= E18();
    lem_mul_div(g, E18());
  }
  assert(g * 0 == 0);
  if g == 0 { assert(g * rate == 0) by (nonlinear_arith) requires g == 0; }
}
// bounty (at most 1%) and fee (at most 5%) never exceed the payout
pub proof fn lem_shares(g: nat, b: nat, f: nat) requires b <= BOUNTY_MAX(), f <= FEE_MAX() ensures share(g, b) + share(g, f) <= g {
  assert(g * b + g * f == g * (b + f)) by (nonlinear_arith);
  assert(g * (b + f) <= g * E18()) by (nonlinear_arith) requires b + f <= E18();
  assert(share(g, b) * E18() <= g * b && share(g, f) * E18() <= g * f);
}
pub proof fn lem_share_all() ensures
  forall|g: nat, rate: nat| #[trigger] dmul(ratio(g, 1), rate) == g * rate && dmul(ratio(g, 1), rate) / E18() == share(g, rate) && (rate <= E18() ==> dmul(ratio(g, 1), rate) <= ratio(g, 1)),
  forall|g: nat, rate: nat| #![trigger share(g, rate)] (rate == 0 || g == 0 ==> share(g, rate) == 0) && (rate <= E18() ==> share(g, rate) <= g),
  forall|g: nat, b: nat, f: nat| #![trigger share(g, b), share(g, f)] b <= BOUNTY_MAX() && f <= FEE_MAX() ==> share(g, b) + share(g, f) <= g,
{
  assert forall|g: nat, rate: nat| #[trigger] dmul(ratio(g, 1), rate) == g * rate && dmul(ratio(g, 1), rate) / E18() == share(g, rate) && (rate <= E18() ==> dmul(ratio(g, 1), rate) <= ratio(g, 1)) by { lem_share(g, rate); }
  assert forall|g: nat, rate: nat| #![trigger share(g, rate)] (rate == 0 || g == 0 ==> share(g, rate) == 0) && (rate <= E18() ==> share(g, rate) <= g) by { lem_share(g, rate); }
  assert forall|g: nat, b: nat, f: nat| #![trigger share(g, b), share(g, f)] b <= BOUNTY_MAX() && f <= FEE_MAX() implies share(g, b) + share(g, f) <= g by { lem_shares(g, b, f); }
}
pub proof fn lem_fits_at(t: int) ensures in_range(t) ==> 1_000_000 <= ladder(t) < P128() && ladder(t) > 0 { if in_range(t) { lem_ladder_bounds(t); } }

pub open spec fn claimed(s: SV, r: SV, me: Seq<char>, who: Seq<char>, t: i64, id: u64, ms: Seq<SubMsg>) -> bool {
  cl_owed(s, r, t, id) && cl_book(s, r, t, id) && cl_pay(s, r, me, who, t, id, ms) && folded(s, r, t)
}
pub open spec fn cl_err(s: SV, r: SV, t: i64, id: u64) -> bool { cl_safe(s, t, id) ==> cl_fail(s, r, t) }
// ---- batches: every entry in order, each one a claim or without effect ----
pub open spec fn batch_step(s: SV, r: SV, me: Seq<char>, who: Seq<char>, e: (i64, u64), ms: Seq<SubMsg>) -> bool {
  claimed(s, r, me, who, e.0, e.1, ms) || (ms.len() == 0 && !cl_sure(s, e.0, e.1) && (cl_safe(s, e.0, e.1) ==> cl_fail(s, r, e.0)))
}
pub open spec fn batch(s: SV, r: SV, me: Seq<char>, who: Seq<char>, es: Seq<(i64, u64)>, ms: Seq<SubMsg>) -> bool decreases es.len() {
  if es.len() == 0 { r == s && ms.len() == 0 }
  else { exists|m: SV, a: Seq<SubMsg>, b: Seq<SubMsg>| batch(s, m, me, who, es.drop_last(), a) && #[trigger] batch_step(m, r, me, who, es.last(), b) && #[trigger] joined(ms, a, b) }
}
pub open spec fn joined(ms: Seq<SubMsg>, a: Seq<SubMsg>, b: Seq<SubMsg>) -> bool { ms =~= a + b }
pub proof fn lem_batch_step(s: SV, m: SV, r: SV, me: Seq<char>, who: Seq<char>, es: Seq<(i64, u64)>, a: Seq<SubMsg>, b: Seq<SubMsg>, n: int)
  requires 0 <= n < es.len(), batch(s, m, me, who, es.take(n), a), batch_step(m, r, me, who, es[n], b)
  ensures batch(s, r, me, who, es.take(n + 1), a + b)
{
  let e2 = es.take(n + 1);
  assert(e2.drop_last() =~= es.take(n)); assert(e2.last() == es[n]);
  assert(e2.len() == n + 1);
  assert(batch(s, m, me, who, e2.drop_last(), a)); assert(batch_step(m, r, me, who, e2.last(), b));
  assert(joined(a + b, a, b));
}
// whatever the next entry does, the batch so far goes on with it
pub proof fn lem_batch_all(s: SV, m: SV, me: Seq<char>, who: Seq<char>, es: Seq<(i64, u64)>, a: Seq<SubMsg>, n: int)
  requires 0 <= n < es.len(), batch(s, m, me, who, es.take(n), a)
  ensures
    forall|r: SV| #[trigger] room_kept(m, r, es[n].0) && ticks_room(m, 200 - 2 * n) ==> ticks_room(r, 200 - 2 * (n + 1)),
    forall|r: SV, b: Seq<SubMsg>| #![trigger cl_pay(m, r, me, who, es[n].0, es[n].1, b)] claimed(m, r, me, who, es[n].0, es[n].1, b) ==> batch(s, r, me, who, es.take(n + 1), a + b),
    forall|r: SV| #![trigger cl_err(m, r, es[n].0, es[n].1)] !cl_sure(m, es[n].0, es[n].1) && cl_err(m, r, es[n].0, es[n].1) ==> batch(s, r, me, who, es.take(n + 1), a)
{
  assert forall|r: SV| #[trigger] room_kept(m, r, es[n].0) && ticks_room(m, 200 - 2 * n) implies ticks_room(r, 200 - 2 * (n + 1)) by { lem_room_kept(m, r, es[n].0, 200 - 2 * n); }
  assert forall|r: SV, b: Seq<SubMsg>| #![trigger cl_pay(m, r, me, who, es[n].0, es[n].1, b)] claimed(m, r, me, who, es[n].0, es[n].1, b) implies batch(s, r, me, who, es.take(n + 1), a + b) by { lem_batch_step(s, m, r, me, who, es, a, b, n); }
  assert forall|r: SV| #![trigger cl_err(m, r, es[n].0, es[n].1)] !cl_sure(m, es[n].0, es[n].1) && cl_err(m, r, es[n].0, es[n].1) implies batch(s, r, me, who, es.take(n + 1), a) by {
    lem_batch_step(s, m, r, me, who, es, a, Seq::empty(), n); assert(a + Seq::<SubMsg>::empty() =~= a);
  }
}
// ---- cancellation ----
pub open spec fn ord_keyed(s: SV, t: i64, id: u64) -> bool { s.f_orders.dom().contains((t, id)) ==> s.f_orders[(t, id)].tick_id == t && s.f_orders[(t, id)].order_id == id }
pub open spec fn ticks_synced(s: SV, r: SV, t: i64) -> bool {
  &&& has_tick(s, t) && r.f_tick_state =~= s.f_tick_state.insert(t, r.f_tick_state[t])
  &&& synced_vals(gtv(s, t, OrderDirection::Bid), gtv(r, t, OrderDirection::Bid), gtv(s, t, OrderDirection::Bid).effective_total_amount_swapped@)
  &&& synced_vals(gtv(s, t, OrderDirection::Ask), gtv(r, t, OrderDirection::Ask), gtv(s, t, OrderDirection::Ask).effective_total_amount_swapped@)
}
// only the cancellation index changes
pub open spec fn idx_only(s: SV, r: SV) -> bool { r =~= (SV { f_nodes: r.f_nodes, f_tree: r.f_tree, f_node_id: r.f_node_id, ..s }) }
pub open spec fn relist(r: SV, t: i64, d: OrderDirection, a: nat) -> SV { put_tv(r, t, d, TickValues { total_amount_of_liquidity: d256(gtv(r, t, d).total_amount_of_liquidity@ + a), ..gtv(r, t, d) }) }
pub open spec fn cancel_ok(s: SV, r: SV, info: MessageInfo, t: i64, id: u64) -> bool {
  let o = s.f_orders[(t, id)]; let d = o.order_direction; let m = relist(r, t, d, o.quantity@ * E18());
  &&& info.funds@.len() == 0 && s.f_orderbook is Some && s.f_orders.dom().contains((t, id)) && info.sender@ == o.owner@
  &&& ticks_synced(s, m, t) && gtv(m, t, d).effective_total_amount_swapped@ <= o.etas@
}
pub open spec fn cancelled(s: SV, r: SV, t: i64, id: u64) -> bool {
  let o = s.f_orders[(t, id)]; let a = o.quantity@ * E18();
  &&& dliq(s, o.order_direction) >= a && has_tick(r, t)
  &&& r =~= (SV { f_tick_state: r.f_tick_state, f_orders: s.f_orders.remove((t, id)), f_direction_liquidity: sub_liq(s, o.order_direction, a).f_direction_liquidity, f_nodes: r.f_nodes, f_tree: r.f_tree, f_node_id: r.f_node_id, ..s })
}
pub open spec fn refunded(s: SV, me: Seq<char>, t: i64, id: u64, ms: Seq<SubMsg>) -> bool {
  let o = s.f_orders[(t, id)];
  ms.len() == 1 && guarded(ms[0]) && pays(ms[0], me, o.owner@, dep_denom(s.f_orderbook->0, o.order_direction)@, o.quantity@)
}
pub proof fn lem_fits_all() ensures forall|t: int| in_range(t) ==> 1_000_000 <= #[trigger] ladder(t) < P128() {
  assert forall|t: int| in_range(t) implies 1_000_000 <= #[trigger] ladder(t) < P128() by { lem_ladder_bounds(t); }
}
