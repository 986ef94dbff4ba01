// ---- consequences of the contracts and of the invariant ----
// C12: nothing in a queue goes back
pub open spec fn tv_mono(v: TickValues, w: TickValues) -> bool {
  v.cumulative_total_value@ <= w.cumulative_total_value@ && v.effective_total_amount_swapped@ <= w.effective_total_amount_swapped@ && v.cumulative_realized_cancels@ <= w.cumulative_realized_cancels@
}
pub open spec fn q_mono(s: SV, r: SV) -> bool { forall|t: i64, d: OrderDirection| tv_mono(gtv(s, t, d), #[trigger] gtv(r, t, d)) }
pub proof fn lem_mono_sync(s: SV, r: SV, t: i64)
  requires sync_step(s, r, t)
  ensures q_mono(s, r)
{
  assert forall|u: i64, d: OrderDirection| tv_mono(gtv(s, u, d), #[trigger] gtv(r, u, d)) by {
    lem_m_tv(s, u, d); lem_m_tv(r, u, d);
    if u != t { assert(has_tick(s, t) ==> r.f_tick_state =~= s.f_tick_state.insert(t, r.f_tick_state[t])); assert(gtv(r, u, d) == gtv(s, u, d)); }
    else if r.f_tick_state == s.f_tick_state { assert(gtv(r, u, d) == gtv(s, u, d)); }
    else {
      assert(synced_now(s, r, t));
      match d { OrderDirection::Bid => { assert(tv_mono(gtv(s, u, OrderDirection::Bid), gtv(r, u, OrderDirection::Bid))); } OrderDirection::Ask => { assert(tv_mono(gtv(s, u, OrderDirection::Ask), gtv(r, u, OrderDirection::Ask))); } }
    }
    assert(tv_mono(gtv(s, u, d), gtv(r, u, d)));
  }
}
pub proof fn lem_mono_claim(s: SV, r: SV, me: Seq<char>, who: Seq<char>, t: i64, id: u64, ms: Seq<SubMsg>)
  requires claimed(s, r, me, who, t, id, ms)
  ensures q_mono(s, r)
{
  hide(claimed); hide(sync_step); hide(claim_map); hide(tv_mono); hide(synced_now); hide(folded);
  let m = cl_mid(s, r);
  lem_claim_mid(s, r, me, who, t, id, ms);
  lem_mono_sync(s, m, t);
  assert forall|u: i64, d: OrderDirection| tv_mono(gtv(s, u, d), #[trigger] gtv(r, u, d)) by { assert(gtv(m, u, d) == gtv(r, u, d)); }
}
pub proof fn lem_mono_batch(s: SV, r: SV, me: Seq<char>, who: Seq<char>, es: Seq<(i64, u64)>, ms: Seq<SubMsg>)
  requires inv(s), batch(s, r, me, who, es, ms)
  ensures q_mono(s, r)
  decreases es.len()
{
  hide(inv); hide(claimed); hide(cl_safe); hide(cl_fail); hide(cl_sure);
  if es.len() > 0 {
    let (m, a, b) = choose|m: SV, a: Seq<SubMsg>, b: Seq<SubMsg>| batch(s, m, me, who, es.drop_last(), a) && #[trigger] batch_step(m, r, me, who, es.last(), b) && #[trigger] joined(ms, a, b);
    lem_mono_batch(s, m, me, who, es.drop_last(), a);
    lem_inv_batch(s, m, me, who, es.drop_last(), a);
    let e = es.last();
    if claimed(m, r, me, who, e.0, e.1, b) { lem_mono_claim(m, r, me, who, e.0, e.1, b); }
    else { lem_cl_safe(m, e.0, e.1); assert(sync_step(m, r, e.0)) by { reveal(cl_fail); } lem_mono_sync(m, r, e.0); }
    assert forall|u: i64, d: OrderDirection| tv_mono(gtv(s, u, d), #[trigger] gtv(r, u, d)) by { assert(tv_mono(gtv(s, u, d), gtv(m, u, d))); assert(tv_mono(gtv(m, u, d), gtv(r, u, d))); }
  }
}
pub proof fn lem_place_big(s: SV, t: i64, d: OrderDirection, q: nat)
  requires inv(s), q < P128()
  ensures gtv(s, t, d).cumulative_total_value@ + q * E18() < P256(), gtv(s, t, d).total_amount_of_liquidity@ + q * E18() < P256(), dliq(s, d) + q * E18() < P256()
{
  hide(q_ok); hide(idx_ok); hide(tsum);
  assert(t_ok(s, t)); lem_ctt(s, t, d);
  assert(conserved(s, t, d)) by { prop_C12_conserved(s, t, d); }
  assert(q * E18() <= BIG()) by (nonlinear_arith) requires q < P128();
  assert(BIG() < P256() / 4) by (compute);
  assert(next_id(s) * BIG() <= 0xffff_ffff_ffff_ffffnat * BIG()) by (nonlinear_arith) requires next_id(s) <= 0xffff_ffff_ffff_ffffnat;
  assert(0xffff_ffff_ffff_ffffnat * (0x1_0000_0000_0000_0000_0000_0000_0000_0000nat * 1_000_000_000_000_000_000nat) < P256() / 4) by (compute);
  assert(dliq(s, d) <= next_id(s) * BIG()) by { match d { OrderDirection::Bid => {} OrderDirection::Ask => {} } }
}
pub proof fn lem_mono_cancel(s: SV, r: SV, t: i64, id: u64)
  requires canc_step(s, r, t, id)
  ensures q_mono(s, r)
{
  hide(cancelled); hide(fold_vals); hide(canc_fit); hide(canc_idx);
  let o = s.f_orders[(t, id)]; let k = relist(r, t, o.order_direction, o.quantity@ * E18());
  assert forall|u: i64, d: OrderDirection| tv_mono(gtv(s, u, d), #[trigger] gtv(r, u, d)) by {
    if u != t {
      assert(k.f_tick_state.dom().contains(u) == s.f_tick_state.dom().contains(u)); assert(r.f_tick_state.dom().contains(u) == k.f_tick_state.dom().contains(u));
      assert(has_tick(s, u) ==> k.f_tick_state[u] == s.f_tick_state[u] && k.f_tick_state[u] == r.f_tick_state[u]);
      assert(gtv(r, u, d) == gtv(s, u, d));
    } else {
      assert(tv_mono(gtv(s, u, OrderDirection::Bid), gtv(k, u, OrderDirection::Bid))); assert(tv_mono(gtv(s, u, OrderDirection::Ask), gtv(k, u, OrderDirection::Ask)));
      match d { OrderDirection::Bid => {} OrderDirection::Ask => {} }
    }
  }
}
pub proof fn lem_mono_exec(s: SV, r: SV, env: Env, info: MessageInfo, msg: ExecuteMsg, m: Seq<SubMsg>)
  requires inv(s), exec_step(s, r, env, info, msg, m)
  ensures q_mono(s, r)
{
  hide(inv); hide(claimed); hide(batch); hide(cancel_ok); hide(refunded); hide(fold_vals); hide(canc_fit); hide(canc_idx); hide(place_ok);
  match msg {
    ExecuteMsg::PlaceLimit { tick_id, order_direction, quantity, claim_bounty } => {
      assert(r == placed(s, env, info, tick_id, order_direction, quantity, claim_bounty));
      assert forall|u: i64, d: OrderDirection| tv_mono(gtv(s, u, d), #[trigger] gtv(r, u, d)) by {
        if u != tick_id { assert(get_tick(r, u) == get_tick(s, u)); }
        else if d == order_direction { assert(gtv(r, u, d) == placed_tv(gtv(s, u, d), quantity@ * E18())); lem_place_big(s, u, d, quantity@); }
        else { assert(gtv(r, u, d) == gtv(s, u, d)); }
      }
    }
    ExecuteMsg::CancelLimit { tick_id, order_id } => {
      lem_exec_cancel(s, r, env, info, tick_id, order_id, m);
      lem_mono_cancel(s, r, tick_id, order_id);
    }
    ExecuteMsg::ClaimLimit { tick_id, order_id } => { lem_mono_claim(s, r, env.contract.address@, info.sender@, tick_id, order_id, m); }
    ExecuteMsg::BatchClaim { orders } => { lem_mono_batch(s, r, env.contract.address@, info.sender@, orders@, m); }
    ExecuteMsg::Auth(a) => { lem_inv_auth(s, r, info.sender, a); }
  }
}
pub proof fn lem_mono_swap(s: SV, d: OrderDirection, q: nat, bound: i64)
  requires inv(s), swap_step(s, d, q, bound)
  ensures q_mono(s, swapped(s, d, q, bound))
{
  hide(inv); hide(swap_lists); hide(swap_all); hide(swap_ticks); hide(save_all); hide(ts_ok);
  let r = swapped(s, d, q, bound); let w = swap_all(s, d, q, bound);
  lem_swap_run(s, d, q, bound);
  assert forall|u: i64, e: OrderDirection| tv_mono(gtv(s, u, e), #[trigger] gtv(r, u, e)) by {
    lem_m_tv(s, u, e); lem_m_tv(r, u, e);
    if e == d { assert(m_tv(r.f_tick_state, u, d) == m_tv(s.f_tick_state, u, d)); } else {
      assert(e == opp(d)); assert(fill_rel(m_tv(s.f_tick_state, u, e), m_tv(r.f_tick_state, u, e)));
    }
  }
}
// what a governance message does to the book: one swap, or nothing
pub open spec fn sudo_is_swap(s: SV, r: SV) -> bool { exists|d: OrderDirection, q: nat, bound: i64| #[trigger] swap_step(s, d, q, bound) && r == swapped(s, d, q, bound) }
pub proof fn lem_sudo_cases(s: SV, msg: SudoMsg)
  requires inv(s), sudo_accepts(s, msg), sudo_lists(s, msg)
  ensures sudo_is_swap(s, sudo_state(s, msg)) || book_same(s, sudo_state(s, msg))
{
  hide(inv); hide(swap_accepts); hide(req_lists); hide(req_swapped);
  match msg {
    SudoMsg::SwapExactAmountIn { sender, token_in, token_out_denom, token_out_min_amount, swap_fee } => {
      lem_sudo_swap(s, sender@, token_in, token_out_denom, token_out_min_amount, swap_fee, None);
      let d = swap_dir(s, token_in, token_out_denom)->0; assert(swap_step(s, d, token_in.amount@, bound_of(d, None)));
    }
    SudoMsg::SwapToTick { sender, token_in, token_out_denom, token_out_min_amount, swap_fee, target_tick } => {
      lem_sudo_swap(s, sender@, token_in, token_out_denom, token_out_min_amount, swap_fee, Some(target_tick));
      let d = swap_dir(s, token_in, token_out_denom)->0; assert(swap_step(s, d, token_in.amount@, bound_of(d, Some(target_tick))));
    }
    _ => {}
  }
}
pub proof fn lem_mono_step(s: SV, r: SV)
  requires inv(s), step(s, r)
  ensures q_mono(s, r)
{
  hide(inv); hide(exec_step); hide(swap_step);
  if any_exec(s, r) { let (env, info, msg, m) = choose|env: Env, info: MessageInfo, msg: ExecuteMsg, m: Seq<SubMsg>| #[trigger] exec_ok(s, r, env, info, msg, m); lem_mono_exec(s, r, env, info, msg, m); }
  else if any_sudo(s, r) {
    let msg = choose|msg: SudoMsg| #[trigger] sudo_ok(s, r, msg); lem_sudo_cases(s, msg);
    if sudo_is_swap(s, r) { let (d, q, bound) = choose|d: OrderDirection, q: nat, bound: i64| #[trigger] swap_step(s, d, q, bound) && r == swapped(s, d, q, bound); lem_mono_swap(s, d, q, bound); }
  }
}
// C12: conservation in every reachable state, and the totals never go back
pub open spec fn conserved(s: SV, t: i64, d: OrderDirection) -> bool {
  let v = gtv(s, t, d); let p = e_sum(entries(s, t, d)) - v.cumulative_realized_cancels@;
  p >= 0 && v.cumulative_total_value@ == v.total_amount_of_liquidity@ + v.effective_total_amount_swapped@ + p && v.effective_total_amount_swapped@ <= v.cumulative_total_value@
}
pub proof fn prop_C12_conserved(s: SV, t: i64, d: OrderDirection)
  requires inv(s)
  ensures conserved(s, t, d)
{
  assert(t_ok(s, t));
  assert(q_at(s, t, d));
  lem_q_liq(gtv(s, t, d), entries(s, t, d), s.f_orders, t, d, next_id(s) as nat);
}
pub proof fn prop_C12_totals_never_fall(h: Seq<SV>, i: int, j: int)
  requires history(h), 0 <= i <= j < h.len()
  ensures q_mono(h[i], h[j])
  decreases j - i
{
  hide(inv); hide(step); hide(tv_mono);
  if i < j {
    prop_C12_totals_never_fall(h, i, j - 1);
    prop_C11_C12_C13_C14_C20_C22_every_state(h, j - 1);
    assert(step(h[j - 1], h[j - 1 + 1])); lem_mono_step(h[j - 1], h[j]);
    assert forall|t: i64, d: OrderDirection| tv_mono(gtv(h[i], t, d), #[trigger] gtv(h[j], t, d)) by {
      assert(tv_mono(gtv(h[i], t, d), gtv(h[j - 1], t, d))); assert(tv_mono(gtv(h[j - 1], t, d), gtv(h[j], t, d))); reveal(tv_mono);
    }
  } else { assert forall|t: i64, d: OrderDirection| tv_mono(gtv(h[i], t, d), #[trigger] gtv(h[j], t, d)) by { reveal(tv_mono); } }
}
// C14: every unit of the queue has at most one owner
pub open spec fn disj(a: nat, b: nat, c: nat, e: nat) -> bool { b <= c || e <= a }
pub proof fn prop_C14_queue_positions(s: SV, t: i64, d: OrderDirection)
  requires inv(s)
  ensures
    forall|i: u64, j: u64| i != j && (#[trigger] ord(s.f_orders, t, d, i)) is Some && (#[trigger] ord(s.f_orders, t, d, j)) is Some ==> disj(ord(s.f_orders, t, d, i)->0.etas@, q_end(ord(s.f_orders, t, d, i)->0), ord(s.f_orders, t, d, j)->0.etas@, q_end(ord(s.f_orders, t, d, j)->0)),
    forall|i: u64, k: int| (#[trigger] ord(s.f_orders, t, d, i)) is Some && 0 <= k < entries(s, t, d).len() ==> disj(ord(s.f_orders, t, d, i)->0.etas@, q_end(ord(s.f_orders, t, d, i)->0), (#[trigger] entries(s, t, d)[k]).0, e_end(entries(s, t, d)[k])),
    forall|k: int, l: int| 0 <= k < l < entries(s, t, d).len() ==> e_end(#[trigger] entries(s, t, d)[k]) <= (#[trigger] entries(s, t, d)[l]).0,
    forall|i: u64| (#[trigger] ord(s.f_orders, t, d, i)) is Some ==> ord(s.f_orders, t, d, i)->0.etas@ < q_end(ord(s.f_orders, t, d, i)->0) <= gtv(s, t, d).cumulative_total_value@,
    forall|k: int| 0 <= k < entries(s, t, d).len() ==> e_end(#[trigger] entries(s, t, d)[k]) <= gtv(s, t, d).cumulative_total_value@,
{
  assert(t_ok(s, t)); assert(q_at(s, t, d));
  let v = gtv(s, t, d); let l = entries(s, t, d); let os = s.f_orders;
  assert forall|i: u64, j: u64| i != j && (#[trigger] ord(os, t, d, i)) is Some && (#[trigger] ord(os, t, d, j)) is Some implies disj(ord(os, t, d, i)->0.etas@, q_end(ord(os, t, d, i)->0), ord(os, t, d, j)->0.etas@, q_end(ord(os, t, d, j)->0)) by { if i < j { assert(q_end(ord(os, t, d, i)->0) <= ord(os, t, d, j)->0.etas@); } else { assert(q_end(ord(os, t, d, j)->0) <= ord(os, t, d, i)->0.etas@); } }
  assert forall|i: u64| (#[trigger] ord(os, t, d, i)) is Some implies ord_in(v, l, ord(os, t, d, i)->0) by {}
}
// C04: what one message can do to orders
pub open spec fn same_order(o: LimitOrder, p: LimitOrder) -> bool {
  o.tick_id == p.tick_id && o.order_id == p.order_id && o.order_direction == p.order_direction && o.owner == p.owner && o.claim_bounty == p.claim_bounty && o.placed_quantity == p.placed_quantity && o.placed_at == p.placed_at && p.quantity@ <= o.quantity@ && o.etas@ <= p.etas@
}
pub open spec fn ords_evolve(s: SV, r: SV) -> bool {
  &&& next_id(s) <= next_id(r)
  &&& forall|k: (i64, u64)| #[trigger] r.f_orders.dom().contains(k) ==> s.f_orders.dom().contains(k) && same_order(s.f_orders[k], r.f_orders[k]) || next_id(s) <= k.1 < next_id(r) && !s.f_orders.dom().contains(k)
}
pub open spec fn ords_shrink(s: SV, r: SV) -> bool { next_id(r) == next_id(s) && forall|k: (i64, u64)| #[trigger] r.f_orders.dom().contains(k) ==> s.f_orders.dom().contains(k) && same_order(s.f_orders[k], r.f_orders[k]) }
// identifiers are unique over the whole book, and none is at or above the next one to be given
pub open spec fn ids_ok(s: SV) -> bool {
  &&& forall|t: i64, id: u64| #[trigger] s.f_orders.dom().contains((t, id)) ==> id < next_id(s)
  &&& forall|t: i64, u: i64, id: u64| #[trigger] s.f_orders.dom().contains((t, id)) && #[trigger] s.f_orders.dom().contains((u, id)) ==> t == u
}
// only a message naming the order touches it
pub open spec fn ords_only(s: SV, r: SV, t: i64, id: u64) -> bool {
  forall|k: (i64, u64)| k != (t, id) ==> (#[trigger] r.f_orders.dom().contains(k) <==> s.f_orders.dom().contains(k)) && r.f_orders[k] == s.f_orders[k]
}
pub proof fn prop_C04_identifiers_are_fresh(s: SV)
  requires inv(s)
  ensures forall|t: i64, id: u64| #[trigger] s.f_orders.dom().contains((t, id)) ==> id < next_id(s) && s.f_orders[(t, id)].tick_id == t && s.f_orders[(t, id)].order_id == id
{
  assert forall|t: i64, id: u64| #[trigger] s.f_orders.dom().contains((t, id)) implies id < next_id(s) && s.f_orders[(t, id)].tick_id == t && s.f_orders[(t, id)].order_id == id by {
    assert(o_ok(s, t, id)); assert(t_ok(s, t)); let d = s.f_orders[(t, id)].order_direction; assert(q_at(s, t, d)); assert(ord(s.f_orders, t, d, id) is Some);
  }
}
pub proof fn lem_evolve_claim(s: SV, r: SV, me: Seq<char>, who: Seq<char>, t: i64, id: u64, ms: Seq<SubMsg>)
  requires inv(s), claimed(s, r, me, who, t, id, ms)
  ensures ords_shrink(s, r), ords_only(s, r, t, id)
{
  hide(inv); hide(claimed); hide(sync_step); hide(synced_now); hide(folded); hide(q_ok);
  let m = cl_mid(s, r); let o = s.f_orders[(t, id)]; let v = gtv(m, t, o.order_direction);
  lem_claim_mid(s, r, me, who, t, id, ms);
  lem_inv_sync(s, m, t);
  assert(t_ok(m, t)) by { reveal(inv); }
  assert(q_at(m, t, o.order_direction));
  assert(ord(m.f_orders, t, o.order_direction, id) is Some);
  lem_q_claim(v, entries(m, t, o.order_direction), m.f_orders, t, o.order_direction, next_id(m) as nat, id);
  assert(next_id(m) == next_id(s)) by { reveal(sync_step); }
}
pub proof fn lem_evolve_trans(s: SV, m: SV, r: SV)
  requires inv(s), ords_evolve(s, m), ords_evolve(m, r)
  ensures ords_evolve(s, r)
{
  hide(inv); hide(same_order);
  prop_C04_identifiers_are_fresh(s);
  assert forall|k: (i64, u64)| #[trigger] r.f_orders.dom().contains(k) implies s.f_orders.dom().contains(k) && same_order(s.f_orders[k], r.f_orders[k]) || next_id(s) <= k.1 < next_id(r) && !s.f_orders.dom().contains(k) by {
    reveal(same_order);
    assert(k == (k.0, k.1));
    if m.f_orders.dom().contains(k) {} else { if s.f_orders.dom().contains((k.0, k.1)) {} }
  }
}
pub open spec fn named(es: Seq<(i64, u64)>, k: (i64, u64)) -> bool { exists|i: int| 0 <= i < es.len() && #[trigger] es[i] == k }
pub open spec fn ord_kept(s: SV, r: SV, k: (i64, u64)) -> bool { (r.f_orders.dom().contains(k) <==> s.f_orders.dom().contains(k)) && r.f_orders[k] == s.f_orders[k] }
pub proof fn lem_evolve_batch(s: SV, r: SV, me: Seq<char>, who: Seq<char>, es: Seq<(i64, u64)>, ms: Seq<SubMsg>)
  requires inv(s), batch(s, r, me, who, es, ms)
  ensures ords_shrink(s, r), forall|k: (i64, u64)| named(es, k) || #[trigger] ord_kept(s, r, k)
  decreases es.len()
{
  hide(inv); hide(claimed); hide(cl_safe); hide(cl_fail); hide(cl_sure);
  if es.len() > 0 {
    let (m, a, b) = choose|m: SV, a: Seq<SubMsg>, b: Seq<SubMsg>| batch(s, m, me, who, es.drop_last(), a) && #[trigger] batch_step(m, r, me, who, es.last(), b) && #[trigger] joined(ms, a, b);
    lem_evolve_batch(s, m, me, who, es.drop_last(), a);
    lem_inv_batch(s, m, me, who, es.drop_last(), a);
    let e = es.last();
    if claimed(m, r, me, who, e.0, e.1, b) { lem_evolve_claim(m, r, me, who, e.0, e.1, b); }
    else { lem_cl_safe(m, e.0, e.1); assert(r.f_orders == m.f_orders && next_id(r) == next_id(m)) by { reveal(cl_fail); } }
    assert forall|k: (i64, u64)| named(es, k) || #[trigger] ord_kept(s, r, k) by {
      if !named(es, k) {
        assert(es[es.len() - 1] == e);
        if named(es.drop_last(), k) { let i = choose|i: int| 0 <= i < es.drop_last().len() && #[trigger] es.drop_last()[i] == k; assert(es[i] == k); }
        assert(k != e);
        assert(ord_kept(s, m, k));
        assert(r.f_orders.dom().contains(k) <==> m.f_orders.dom().contains(k));
      }
    }
  }
}
// every accepted message: which orders can differ afterwards
pub open spec fn msg_names(msg: ExecuteMsg, k: (i64, u64)) -> bool {
  match msg {
    ExecuteMsg::CancelLimit { tick_id, order_id } => k == (tick_id, order_id),
    ExecuteMsg::ClaimLimit { tick_id, order_id } => k == (tick_id, order_id),
    ExecuteMsg::BatchClaim { orders } => named(orders@, k),
    _ => false,
  }
}
// at most one order appears
pub open spec fn one_new(s: SV, r: SV) -> bool {
  forall|k: (i64, u64), l: (i64, u64)| #[trigger] r.f_orders.dom().contains(k) && #[trigger] r.f_orders.dom().contains(l) && !s.f_orders.dom().contains(k) && !s.f_orders.dom().contains(l) ==> k == l
}
pub proof fn prop_C04_only_the_named_order(s: SV, r: SV, env: Env, info: MessageInfo, msg: ExecuteMsg, m: Seq<SubMsg>)
  requires inv(s), exec_step(s, r, env, info, msg, m)
  ensures ords_evolve(s, r), one_new(s, r), forall|k: (i64, u64)| msg_names(msg, k) || !s.f_orders.dom().contains(k) || #[trigger] ord_kept(s, r, k)
{
  hide(inv); hide(claimed); hide(batch); hide(cancel_ok); hide(refunded); hide(fold_vals); hide(canc_fit); hide(canc_idx); hide(place_ok);
  match msg {
    ExecuteMsg::PlaceLimit { tick_id, order_direction, quantity, claim_bounty } => {
      assert(r == placed(s, env, info, tick_id, order_direction, quantity, claim_bounty));
      prop_C04_identifiers_are_fresh(s);
      assert(!s.f_orders.dom().contains((tick_id, next_id(s))));
    }
    ExecuteMsg::CancelLimit { tick_id, order_id } => { lem_exec_cancel(s, r, env, info, tick_id, order_id, m); }
    ExecuteMsg::ClaimLimit { tick_id, order_id } => { lem_evolve_claim(s, r, env.contract.address@, info.sender@, tick_id, order_id, m); }
    ExecuteMsg::BatchClaim { orders } => { lem_evolve_batch(s, r, env.contract.address@, info.sender@, orders@, m); }
    ExecuteMsg::Auth(a) => { lem_inv_auth(s, r, info.sender, a); }
  }
}
pub proof fn prop_C04_one_message(s: SV, r: SV)
  requires inv(s), step(s, r)
  ensures ords_evolve(s, r), one_new(s, r)
{
  hide(inv); hide(exec_step); hide(swap_step);
  if any_exec(s, r) { let (env, info, msg, m) = choose|env: Env, info: MessageInfo, msg: ExecuteMsg, m: Seq<SubMsg>| #[trigger] exec_ok(s, r, env, info, msg, m); prop_C04_only_the_named_order(s, r, env, info, msg, m); }
  else if any_sudo(s, r) {
    let msg = choose|msg: SudoMsg| #[trigger] sudo_ok(s, r, msg); lem_sudo_cases(s, msg);
    assert(r.f_orders == s.f_orders && next_id(r) == next_id(s));
  }
}
// over whole histories: an identifier once given out is never given out again, on any tick, and the order it names keeps its terms
pub proof fn prop_C04_never_reissued(h: Seq<SV>, i: int, j: int)
  requires history(h), 0 <= i <= j < h.len()
  ensures ords_evolve(h[i], h[j])
  decreases j - i
{
  hide(inv); hide(step); hide(ords_evolve);
  prop_C11_C12_C13_C14_C20_C22_every_state(h, i);
  if i < j {
    prop_C04_never_reissued(h, i, j - 1);
    prop_C11_C12_C13_C14_C20_C22_every_state(h, j - 1);
    assert(step(h[j - 1], h[j - 1 + 1])); prop_C04_one_message(h[j - 1], h[j]);
    lem_evolve_trans(h[i], h[j - 1], h[j]);
  } else { reveal(ords_evolve); }
}
pub proof fn prop_C04_identifiers_are_unique(h: Seq<SV>, i: int)
  requires history(h), 0 <= i < h.len()
  ensures ids_ok(h[i])
  decreases i
{
  hide(inv); hide(step);
  prop_C11_C12_C13_C14_C20_C22_every_state(h, i);
  prop_C04_identifiers_are_fresh(h[i]);
  if i > 0 {
    prop_C04_identifiers_are_unique(h, i - 1);
    prop_C11_C12_C13_C14_C20_C22_every_state(h, i - 1);
    assert(step(h[i - 1], h[i - 1 + 1])); prop_C04_one_message(h[i - 1], h[i]);
    let s = h[i - 1]; let r = h[i];
    assert forall|t: i64, u: i64, id: u64| #[trigger] r.f_orders.dom().contains((t, id)) && #[trigger] r.f_orders.dom().contains((u, id)) implies t == u by {
      let a = s.f_orders.dom().contains((t, id)); let b = s.f_orders.dom().contains((u, id));
    }
  } else { let (s, q, b) = choose|s: SV, q: String, b: String| empty_store(s) && #[trigger] fresh(s, q, b) == h[0]; }
}
// synchronisation never fails in a reachable state, and never passes the placed total
pub proof fn lem_sync_fits(s: SV, t: i64, d: OrderDirection)
  requires inv(s)
  ensures sync_fits(s, t, d, gtv(s, t, d).effective_total_amount_swapped@), gtv(s, t, d).effective_total_amount_swapped@ <= etas_after(s, t, d) <= gtv(s, t, d).cumulative_total_value@ < P256() / 4
{
  hide(idx_ok); hide(liq_ok); hide(q_ord); hide(q_fifo); hide(q_new); hide(q_cover);
  let v = gtv(s, t, d); let l = entries(s, t, d); let e = v.effective_total_amount_swapped@; let c = v.cumulative_realized_cancels@; let x = v.cumulative_total_value@;
  assert(t_ok(s, t)); assert(q_at(s, t, d)); lem_ctt(s, t, d);
  lem_q_liq(v, l, s.f_orders, t, d, next_id(s) as nat);
  lem_esum_below(l, x); lem_esum_high(l, x);
  let k = choose|k: int| fold_at(l, e, c, k);
  lem_fold(l, e, c, k);
  let f = choose|f: int| #[trigger] fold_to(l, e, c, k, f, (e + qf(l, e, 0, c) - c) as nat) && qf(l, e, 0, c) == e_sum(l.take(f));
  lem_take_sum(l, f);
}
pub proof fn lem_sync_sure(s: SV, t: i64)
  requires inv(s), has_tick(s, t)
  ensures sync_sure(s, t)
{ lem_sync_fits(s, t, OrderDirection::Bid); lem_sync_fits(s, t, OrderDirection::Ask); assert(t_ok(s, t)); }
pub open spec fn folded_tv(s: SV, t: i64, d: OrderDirection) -> TickValues {
  let v = gtv(s, t, d); let e = v.effective_total_amount_swapped@; let n = qf(entries(s, t, d), e, 0, v.cumulative_realized_cancels@);
  if v.last_tick_sync_etas@ == e { v } else { TickValues { effective_total_amount_swapped: d256(etas_after(s, t, d) as nat), cumulative_realized_cancels: d256(n), last_tick_sync_etas: d256(e), ..v } }
}
pub proof fn lem_folded_tv(s: SV, t: i64, d: OrderDirection)
  requires inv(s)
  ensures folded_to(gtv(s, t, d), folded_tv(s, t, d), entries(s, t, d)), q_ok(folded_tv(s, t, d), entries(s, t, d), s.f_orders, t, d, next_id(s) as nat), settled(folded_tv(s, t, d), entries(s, t, d))
{
  lem_sync_fits(s, t, d); assert(t_ok(s, t)); assert(q_at(s, t, d));
  lem_q_sync(gtv(s, t, d), folded_tv(s, t, d), entries(s, t, d), s.f_orders, t, d, next_id(s) as nat);
}
// C05: in every reachable state the owner of an order nothing of which is filled can cancel it
pub proof fn prop_C05_owner_can_cancel(s: SV, info: MessageInfo, t: i64, id: u64)
  requires inv(s), info.funds@.len() == 0, s.f_orders.dom().contains((t, id)), info.sender@ == s.f_orders[(t, id)].owner@, etas_after(s, t, s.f_orders[(t, id)].order_direction) <= s.f_orders[(t, id)].etas@
  ensures canc_sure(s, info, t, id)
{
  hide(q_ok); hide(tsum);
  let o = s.f_orders[(t, id)]; let d = o.order_direction; let v = gtv(s, t, d); let w = folded_tv(s, t, d); let l = entries(s, t, d);
  assert(o_ok(s, t, id)); assert(t_ok(s, t)); assert(q_at(s, t, d));
  lem_sync_sure(s, t); lem_sync_fits(s, t, d); lem_folded_tv(s, t, d);
  assert(ord(s.f_orders, t, d, id) is Some);
  lem_q_room(w, l, s.f_orders, t, d, next_id(s) as nat, id);
  lem_q_fit(v, l, s.f_orders, t, d, next_id(s) as nat, id);
  assert(in_range(t as int)) by { assert(s.f_tick_state.dom().contains(t)); }
  lem_tsum_one(s.f_tick_state, d, NT(), t); lem_m_tv(s, t, d);
  assert(liq_ok(s, d)) by { match d { OrderDirection::Bid => {} OrderDirection::Ask => {} } }
}
// C06, C20: in every reachable state a claim of an order of which something is filled succeeds
pub proof fn prop_C06_C20_filled_order_can_be_claimed(s: SV, t: i64, id: u64)
  requires inv(s), s.f_orders.dom().contains((t, id)), etas_after(s, t, s.f_orders[(t, id)].order_direction) > s.f_orders[(t, id)].etas@
  ensures cl_sure(s, t, id)
{
  hide(idx_ok); hide(q_ok); hide(tsum);
  assert(o_ok(s, t, id));
  lem_sync_sure(s, t); lem_sync_fits(s, t, s.f_orders[(t, id)].order_direction); lem_cl_safe(s, t, id);
  assert(in_range(t as int)) by { assert(s.f_tick_state.dom().contains(t)); }
}
// ... so an order can always be taken out: claimed while part of it is filled, cancelled otherwise
pub proof fn prop_C05_C06_no_order_is_stuck(s: SV, info: MessageInfo, t: i64, id: u64)
  requires inv(s), info.funds@.len() == 0, s.f_orders.dom().contains((t, id)), info.sender@ == s.f_orders[(t, id)].owner@
  ensures cl_sure(s, t, id) || canc_sure(s, info, t, id)
{
  hide(inv); hide(canc_sure); hide(cl_sure);
  if etas_after(s, t, s.f_orders[(t, id)].order_direction) > s.f_orders[(t, id)].etas@ { prop_C06_C20_filled_order_can_be_claimed(s, t, id); } else { prop_C05_owner_can_cancel(s, info, t, id); }
}
// C03: a valid order never overflows anything it is added to
pub proof fn prop_C03_room_for_every_order(s: SV, t: i64, d: OrderDirection, q: nat)
  requires inv(s), q < P128()
  ensures gtv(s, t, d).cumulative_total_value@ + q * E18() < P256(), gtv(s, t, d).total_amount_of_liquidity@ + q * E18() < P256(), dliq(s, d) + q * E18() < P256()
{ hide(inv); lem_place_big(s, t, d, q); }
// C07: an entry that fails may at most have synchronised its tick: no order, liquidity, placed total or setting differs
pub open spec fn value_same(s: SV, r: SV) -> bool {
  &&& r.f_orders == s.f_orders && r.f_direction_liquidity == s.f_direction_liquidity && r.f_orderbook == s.f_orderbook && r.f_order_id == s.f_order_id && r.f_nodes == s.f_nodes
  &&& r.f_is_active == s.f_is_active && r.f_maker_fee == s.f_maker_fee && r.f_maker_fee_recipient == s.f_maker_fee_recipient && r.f_admin == s.f_admin && r.f_admin_offer == s.f_admin_offer && r.f_moderator == s.f_moderator && r.f_moderator_offer == s.f_moderator_offer
  &&& forall|t: i64, d: OrderDirection| (#[trigger] gtv(r, t, d)).total_amount_of_liquidity == gtv(s, t, d).total_amount_of_liquidity && gtv(r, t, d).cumulative_total_value == gtv(s, t, d).cumulative_total_value
}
pub proof fn lem_sync_value(s: SV, r: SV, t: i64)
  requires sync_step(s, r, t)
  ensures value_same(s, r)
{
  assert forall|u: i64, d: OrderDirection| (#[trigger] gtv(r, u, d)).total_amount_of_liquidity == gtv(s, u, d).total_amount_of_liquidity && gtv(r, u, d).cumulative_total_value == gtv(s, u, d).cumulative_total_value by {
    if u != t { assert(has_tick(s, t) ==> r.f_tick_state =~= s.f_tick_state.insert(t, r.f_tick_state[t])); assert(gtv(r, u, d) == gtv(s, u, d)); }
    else if r.f_tick_state == s.f_tick_state { assert(gtv(r, u, d) == gtv(s, u, d)); }
    else { match d { OrderDirection::Bid => {} OrderDirection::Ask => {} } }
  }
}
pub proof fn prop_C07_failing_entry(s: SV, r: SV, me: Seq<char>, who: Seq<char>, e: (i64, u64), ms: Seq<SubMsg>)
  requires inv(s), batch_step(s, r, me, who, e, ms)
  ensures claimed(s, r, me, who, e.0, e.1, ms) || (ms.len() == 0 && value_same(s, r) && (s.f_orders.dom().contains(e) ==> etas_after(s, e.0, s.f_orders[e].order_direction) <= s.f_orders[e].etas@))
{
  hide(inv); hide(claimed); hide(cl_safe); hide(cl_sure); hide(value_same);
  if !claimed(s, r, me, who, e.0, e.1, ms) {
    lem_cl_safe(s, e.0, e.1); lem_sync_value(s, r, e.0);
    if s.f_orders.dom().contains((e.0, e.1)) && etas_after(s, e.0, s.f_orders[(e.0, e.1)].order_direction) > s.f_orders[(e.0, e.1)].etas@ { prop_C06_C20_filled_order_can_be_claimed(s, e.0, e.1); }
  }
}
// C08: a tick's charge never exceeds the input that is left
pub proof fn prop_C08_charge_within_input(s: SV, d: OrderDirection, rem: nat, t: i64)
  requires inv(s), in_range(t as int)
  ensures charge_of(gtv(s, t, opp(d)), d, rem, t) <= rem, fill_of(gtv(s, t, opp(d)), d, rem, t) <= gtv(s, t, opp(d)).total_amount_of_liquidity@, whole(fill_of(gtv(s, t, opp(d)), d, rem, t))
{
  hide(q_ok); hide(tsum);
  let v = gtv(s, t, opp(d));
  assert(t_ok(s, t)); assert(q_at(s, t, opp(d))); assert(whole(v.total_amount_of_liquidity@)) by { reveal(q_ok); }
  lem_fill_whole(v, d, rem, t); lem_ladder_bounds(t as int);
  lem_charge_le(d, rem, ladder(t as int), fill_of(v, d, rem, t) / E18());
}
// C09: strictly best price first, inside the bound
pub open spec fn inside(b: Orderbook, d: OrderDirection, bound: i64, t: i64) -> bool { match d { OrderDirection::Bid => b.next_ask_tick <= t <= bound, OrderDirection::Ask => bound <= t <= b.next_bid_tick } }
pub open spec fn touched(s: SV, r: SV, d: OrderDirection, t: i64) -> bool { gtv(r, t, d) != gtv(s, t, d) }
pub proof fn prop_C09_best_price_first(s: SV, d: OrderDirection, q: nat, bound: i64)
  requires inv(s), swap_step(s, d, q, bound)
  ensures
    forall|t: i64| #[trigger] touched(s, swapped(s, d, q, bound), opp(d), t) ==> inside(s.f_orderbook->0, d, bound, t),
    forall|t: i64, u: i64| #[trigger] touched(s, swapped(s, d, q, bound), opp(d), t) && outwards(d, u, t) ==> #[trigger] tal_of(swapped(s, d, q, bound), u, opp(d)) == 0,
    forall|t: i64| !(#[trigger] touched(s, swapped(s, d, q, bound), d, t)),
{
  hide(inv); hide(swap_all); hide(swap_ticks); hide(save_all); hide(fill_rel); hide(tsum);
  let r = swapped(s, d, q, bound); let w = swap_all(s, d, q, bound); let ts = swap_ticks(s, d, bound); let side = opp(d); let p = nxt(w.book, side);
  lem_swap_run(s, d, q, bound);
  assert(opp(side) == d);
  assert forall|t: i64| #[trigger] touched(s, r, side, t) implies inside(s.f_orderbook->0, d, bound, t) by {
    lem_m_tv(s, t, side); lem_m_tv(r, t, side);
    assert(seen(ts, ts.len(), t)); let i = choose|i: int| 0 <= i < ts.len() && #[trigger] ts[i] == t;
    assert(ts.contains(t)); reveal(swap_ticks);
  }
  assert forall|t: i64, u: i64| #[trigger] touched(s, r, side, t) && outwards(d, u, t) implies #[trigger] tal_of(r, u, side) == 0 by {
    lem_m_tv(s, t, side); lem_m_tv(r, t, side); lem_m_tv(s, u, side); lem_m_tv(r, u, side);
    assert(past(d, t, p));
    if tal_of(r, u, side) > 0 { assert(m_tal(save_all(s.f_tick_state, w.upd), u, side) > 0); assert(past(side, u, p)); }
  }
  assert forall|t: i64| !(#[trigger] touched(s, r, d, t)) by { lem_m_tv(s, t, d); lem_m_tv(r, t, d); assert(m_tv(save_all(s.f_tick_state, w.upd), t, d) == m_tv(s.f_tick_state, t, d)); }
}
// C09, C13: what a swap that is not stopped by dust leaves inside its bound buys nothing at the last price
pub proof fn prop_C09_C13_leaves_nothing_to_buy(s: SV, d: OrderDirection, q: nat, bound: i64)
  requires inv(s), swap_step(s, d, q, bound)
  ensures ({ let w = swap_all(s, d, q, bound); let r = swapped(s, d, q, bound); w.dust || forall|t: i64| #[trigger] tal_of(r, t, opp(d)) > 0 && inside(s.f_orderbook->0, d, bound, t) ==> t == nxt(r.f_orderbook->0, opp(d)) && vdown(d, w.rem, ladder(t as int)) == 0 })
{
  hide(inv); hide(swap_all); hide(save_all); hide(fill_rel); hide(tsum); hide(ladder); hide(vdown);
  let r = swapped(s, d, q, bound); let w = swap_all(s, d, q, bound); let ts = swap_ticks(s, d, bound); let side = opp(d); let p = nxt(w.book, side);
  lem_swap_run(s, d, q, bound);
  if !w.dust {
    assert forall|t: i64| #[trigger] tal_of(r, t, side) > 0 && inside(s.f_orderbook->0, d, bound, t) implies t == p && vdown(d, w.rem, ladder(t as int)) == 0 by {
      lem_m_tv(r, t, side);
      assert(m_tal(save_all(s.f_tick_state, w.upd), t, side) > 0);
      assert(s.f_tick_state.dom().contains(t));
      assert(ts.contains(t)); let i = choose|i: int| 0 <= i < ts.len() && ts[i] == t; assert(m_tal(save_all(s.f_tick_state, w.upd), ts[i], side) > 0);
    }
  }
}
// C13: no resting liquidity beyond the recorded best ticks, which stay in range
pub proof fn prop_C13_pointers(s: SV)
  requires inv(s)
  ensures ({ let b = s.f_orderbook->0; in_range(b.next_bid_tick as int) && in_range(b.next_ask_tick as int) && (forall|t: i64| #[trigger] tal_of(s, t, OrderDirection::Bid) > 0 ==> t <= b.next_bid_tick) && (forall|t: i64| #[trigger] tal_of(s, t, OrderDirection::Ask) > 0 ==> t >= b.next_ask_tick) })
{
  let b = s.f_orderbook->0;
  assert forall|t: i64| #[trigger] tal_of(s, t, OrderDirection::Bid) > 0 implies t <= b.next_bid_tick by { lem_m_tv(s, t, OrderDirection::Bid); assert(m_tal(s.f_tick_state, t, OrderDirection::Bid) > 0); }
  assert forall|t: i64| #[trigger] tal_of(s, t, OrderDirection::Ask) > 0 implies t >= b.next_ask_tick by { lem_m_tv(s, t, OrderDirection::Ask); assert(m_tal(s.f_tick_state, t, OrderDirection::Ask) > 0); }
}
// C11: the recorded totals are the sums over all ticks (every tick with liquidity is in range)
pub proof fn prop_C11_totals(s: SV, d: OrderDirection)
  requires inv(s)
  ensures dliq(s, d) == tsum(s.f_tick_state, d, NT()), forall|t: i64| #[trigger] tal_of(s, t, d) > 0 ==> in_range(t as int)
{
  hide(tsum);
  assert(liq_ok(s, d)) by { match d { OrderDirection::Bid => {} OrderDirection::Ask => {} } }
  assert forall|t: i64| #[trigger] tal_of(s, t, d) > 0 implies in_range(t as int) by { lem_m_tv(s, t, d); assert(s.f_tick_state.dom().contains(t)); }
}
// C15: the fold rule, and that a second synchronisation advances nothing
pub open spec fn folds_exactly(v: TickValues, w: TickValues, l: Ents, k: int, f: int) -> bool {
  &&& 0 <= k <= f <= l.len() && v.cumulative_realized_cancels@ == e_sum(l.take(k)) && w.cumulative_realized_cancels@ == e_sum(l.take(f))
  &&& w.effective_total_amount_swapped@ == v.effective_total_amount_swapped@ + e_sum(l.take(f)) - e_sum(l.take(k))
  &&& f > 0 ==> e_end(l[f - 1]) <= w.effective_total_amount_swapped@
  &&& f < l.len() ==> w.effective_total_amount_swapped@ < l[f].0
}
pub proof fn prop_C15_fold_rule(s: SV, r: SV, t: i64, d: OrderDirection)
  requires inv(s), sync_step(s, r, t), r.f_tick_state != s.f_tick_state
  ensures gtv(s, t, d).last_tick_sync_etas@ == gtv(s, t, d).effective_total_amount_swapped@ && gtv(r, t, d) == gtv(s, t, d) || exists|k: int, f: int| #[trigger] folds_exactly(gtv(s, t, d), gtv(r, t, d), entries(s, t, d), k, f)
{
  hide(q_ord); hide(q_fifo); hide(q_new); hide(q_cover); hide(idx_ok); hide(tsum);
  let v = gtv(s, t, d); let w = gtv(r, t, d); let l = entries(s, t, d); let e = v.effective_total_amount_swapped@; let c = v.cumulative_realized_cancels@;
  assert(t_ok(s, t)); assert(q_at(s, t, d));
  lem_folded_to(s, r, t, d);
  if v.last_tick_sync_etas@ != e {
    let k = choose|k: int| fold_at(l, e, c, k);
    lem_fold(l, e, c, k);
    let f = choose|f: int| #[trigger] fold_to(l, e, c, k, f, (e + qf(l, e, 0, c) - c) as nat) && qf(l, e, 0, c) == e_sum(l.take(f));
    assert(folds_exactly(v, w, l, k, f));
  }
}
pub proof fn prop_C15_once(s: SV, m: SV, r: SV, t: i64, d: OrderDirection)
  requires inv(s), sync_step(s, m, t), m.f_tick_state != s.f_tick_state, sync_step(m, r, t)
  ensures gtv(r, t, d).effective_total_amount_swapped@ == gtv(m, t, d).effective_total_amount_swapped@, gtv(r, t, d).cumulative_realized_cancels@ == gtv(m, t, d).cumulative_realized_cancels@
{
  hide(inv); hide(t_ok); hide(q_ord); hide(q_fifo); hide(q_new); hide(q_cover); hide(idx_ok);
  lem_inv_sync(s, m, t);
  assert(t_ok(s, t) && t_ok(m, t)) by { reveal(inv); }
  assert(idx_ok(s, t) && idx_ok(m, t) && q_at(s, t, d)) by { reveal(t_ok); }
  let v = gtv(s, t, d); let l = entries(s, t, d); let e = v.effective_total_amount_swapped@; let c = v.cumulative_realized_cancels@;
  lem_roots(s, m, t);
  lem_folded_to(s, m, t, d);
  if r.f_tick_state != m.f_tick_state {
    lem_folded_to(m, r, t, d);
    if v.last_tick_sync_etas@ != e { let k = choose|k: int| fold_at(l, e, c, k); lem_fold_twice(l, e, c, k); }
  }
}
// C20: fee, recipient and bounties
pub proof fn prop_C20_settings(s: SV, t: i64, id: u64)
  requires inv(s)
  ensures fee(s) <= FEE_MAX(), s.f_maker_fee_recipient is Some, s.f_orders.dom().contains((t, id)) ==> bounty_rate(s.f_orders[(t, id)]) <= BOUNTY_MAX(),
    s.f_orders.dom().contains((t, id)) ==> forall|g: nat| #![trigger share(g, fee(s))] share(g, bounty_rate(s.f_orders[(t, id)])) + share(g, fee(s)) <= g
{
  if s.f_orders.dom().contains((t, id)) { assert(o_ok(s, t, id)); let b = bounty_rate(s.f_orders[(t, id)]); assert forall|g: nat| #![trigger share(g, fee(s))] share(g, b) + share(g, fee(s)) <= g by { lem_shares(g, b, fee(s)); } }
}
// ---- no operation aborts in a reachable state ----
pub proof fn lem_canc_fits(s: SV, t: i64, id: u64)
  requires inv(s), s.f_orders.dom().contains((t, id)), etas_after(s, t, s.f_orders[(t, id)].order_direction) <= s.f_orders[(t, id)].etas@
  ensures canc_fit(s, t, s.f_orders[(t, id)])
{
  hide(q_ok); hide(tsum);
  let o = s.f_orders[(t, id)]; let d = o.order_direction; let v = gtv(s, t, d); let l = entries(s, t, d);
  assert(o_ok(s, t, id)); assert(t_ok(s, t)); assert(q_at(s, t, d));
  lem_sync_fits(s, t, d);
  assert(ord(s.f_orders, t, d, id) is Some);
  lem_q_fit(v, l, s.f_orders, t, d, next_id(s) as nat, id);
}
// identifiers are left: fewer than 2^64 - 200 index records were ever made for any tick
pub open spec fn ids_left(s: SV) -> bool { next_id(s) < u64::MAX && forall|t: i64| #[trigger] node_ctr(s, t) + 200 <= u64::MAX }
// C03, C05, C06, C07, C18, C20: whatever a user sends, the contract answers (it never aborts in the middle)
pub proof fn prop_C03_C05_C06_C07_C18_C20_no_message_aborts(s: SV, msg: ExecuteMsg)
  requires inv(s), ids_left(s)
  ensures exec_live(s, msg)
{
  hide(idx_ok); hide(q_at); hide(tsum);
  assert forall|t: i64| room(s, t, 200) by { assert(t_ok(s, t)); assert(node_ctr(s, t) + 200 <= u64::MAX); }
  match msg {
    ExecuteMsg::CancelLimit { tick_id, order_id } => {
      assert(room(s, tick_id, 200));
      if s.f_orders.dom().contains((tick_id, order_id)) {
        assert(o_ok(s, tick_id, order_id));
        if etas_after(s, tick_id, s.f_orders[(tick_id, order_id)].order_direction) <= s.f_orders[(tick_id, order_id)].etas@ { lem_canc_fits(s, tick_id, order_id); }
      }
    }
    ExecuteMsg::ClaimLimit { tick_id, order_id } => { assert(room(s, tick_id, 200)); }
    _ => {}
  }
}
// C08, C11: what a swap pays out never exceeds the liquidity recorded for the side it fills
pub proof fn prop_C08_C11_output_is_covered(s: SV, d: OrderDirection, q: nat, bound: i64)
  requires inv(s), swap_ok(s, d, q, bound), swap_lists(s, d, bound)
  ensures dliq(s, opp(d)) >= swap_all(s, d, q, bound).out * E18(), swap_all(s, d, q, bound).out * E18() < P256()
{
  hide(t_ok); hide(tsum); hide(swap_ok); hide(swap_lists); hide(swap_all); hide(swap_ticks); hide(ts_ok); hide(ptr_ok);
  lem_swap_run(s, d, q, bound);
  assert(liq_ok(s, opp(d))) by { match d { OrderDirection::Bid => {} OrderDirection::Ask => {} } }
  assert(next_id(s) * BIG() < P256()) by { assert(next_id(s) * BIG() <= 0xffff_ffff_ffff_ffffnat * BIG()) by (nonlinear_arith) requires next_id(s) <= 0xffff_ffff_ffff_ffffnat;
    assert(0xffff_ffff_ffff_ffffnat * (0x1_0000_0000_0000_0000_0000_0000_0000_0000nat * 1_000_000_000_000_000_000nat) < P256() / 4) by (compute); }
}
pub proof fn lem_req_fits(s: SV, ti: Coin, to: String, target: Option<i64>)
  requires inv(s)
  ensures req_fits(s, ti, to, target), swap_dir(s, ti, to) is Some && swap_ok(s, swap_dir(s, ti, to)->0, ti.amount@, bound_of(swap_dir(s, ti, to)->0, target)) && req_lists(s, ti, to, target) ==> dl_ok(s, ti, to, target)
{
  hide(inv); hide(swap_ok); hide(swap_lists); hide(swap_all);
  if swap_dir(s, ti, to) is Some {
    let d = swap_dir(s, ti, to)->0; let b = bound_of(d, target);
    if swap_ok(s, d, ti.amount@, b) && swap_lists(s, d, b) { prop_C08_C11_output_is_covered(s, d, ti.amount@, b); }
  }
}
// C08, C10: no chain message aborts, but for the kind the book does not offer
pub proof fn prop_C08_C10_no_chain_message_aborts(s: SV, msg: SudoMsg)
  requires inv(s), !(msg is SwapExactAmountOut)
  ensures sudo_live(s, msg)
{
  hide(inv); hide(req_fits);
  match msg {
    SudoMsg::SwapExactAmountIn { sender, token_in, token_out_denom, token_out_min_amount, swap_fee } => { lem_req_fits(s, token_in, token_out_denom, None); }
    SudoMsg::SwapToTick { sender, token_in, token_out_denom, token_out_min_amount, swap_fee, target_tick } => { lem_req_fits(s, token_in, token_out_denom, Some(target_tick)); }
    _ => {}
  }
}
// C10, C21: what is quoted can be executed: with a minimum no higher than the quote the swap is accepted
pub proof fn prop_C10_C21_quotes_execute(s: SV, sender: Seq<char>, ti: Coin, to: String, min: Uint128, fee: Decimal)
  requires inv(s), swap_req(s, ti, to, fee, None), req_lists(s, ti, to, None), ti.denom@ != to@, addr_valid(sender), min@ <= req_run(s, ti, to, None).out
  ensures swap_accepts(s, sender, ti, to, min, fee, None)
{ hide(inv); hide(swap_ok); hide(swap_all); hide(swap_lists); lem_req_fits(s, ti, to, None); }
// C26, C25, C23: no query aborts, but for the one the book does not offer and a pool too large for the answer
pub proof fn prop_C21_C25_C26_no_query_aborts(s: SV, msg: QueryMsg)
  requires inv(s), !(msg is CalcInAmtGivenOut), msg is GetTotalPoolLiquidity ==> pool_live(s)
  ensures query_live(s, msg)
{
  hide(q_at);
  match msg {
    QueryMsg::GetUnrealizedCancels { tick_ids } => { assert forall|i: int| 0 <= i < tick_ids@.len() implies has_tick(s, #[trigger] tick_ids@[i]) ==> unr_live(s, tick_ids@[i]) by { assert(t_ok(s, tick_ids@[i])); } }
    _ => {}
  }
}
