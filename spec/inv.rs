// ---- the invariant of every reachable state ----
// the most one placement can add to a tick (18 decimals); identifiers bound the number of placements
pub open spec fn BIG() -> nat { P128() * E18() }
pub open spec fn m_tv(m: Map<i64, TickState>, t: i64, d: OrderDirection) -> TickValues { if m.dom().contains(t) { tv(m[t], d) } else { dflt_TickValues() } }
pub open spec fn m_tal(m: Map<i64, TickState>, t: i64, d: OrderDirection) -> nat { m_tv(m, t, d).total_amount_of_liquidity@ }
pub open spec fn NT() -> nat { (TMAX() - TMIN() + 1) as nat }
// resting liquidity of the first n ticks of the range
pub open spec fn tsum(m: Map<i64, TickState>, d: OrderDirection, n: nat) -> nat decreases n {
  if n == 0 { 0 } else { tsum(m, d, (n - 1) as nat) + m_tal(m, (TMIN() + n - 1) as i64, d) }
}
pub open spec fn q_at(s: SV, t: i64, d: OrderDirection) -> bool {
  q_ok(gtv(s, t, d), entries(s, t, d), s.f_orders, t, d, next_id(s) as nat) && gtv(s, t, d).cumulative_total_value@ <= next_id(s) * BIG()
}
pub open spec fn t_ok(s: SV, t: i64) -> bool { idx_ok(s, t) && q_at(s, t, OrderDirection::Bid) && q_at(s, t, OrderDirection::Ask) }
pub open spec fn o_ok(s: SV, t: i64, id: u64) -> bool {
  let o = s.f_orders[(t, id)];
  o.tick_id == t && o.order_id == id && has_tick(s, t) && bounty_rate(o) <= BOUNTY_MAX() && o.quantity@ <= o.placed_quantity@
}
pub open spec fn ords_ok(s: SV) -> bool { forall|t: i64, id: u64| #[trigger] s.f_orders.dom().contains((t, id)) ==> o_ok(s, t, id) }
pub open spec fn ticks_in(m: Map<i64, TickState>) -> bool { forall|t: i64| #[trigger] m.dom().contains(t) ==> in_range(t as int) }
// C11
pub open spec fn liq_ok(s: SV, d: OrderDirection) -> bool { dliq(s, d) == tsum(s.f_tick_state, d, NT()) && dliq(s, d) <= next_id(s) * BIG() }
// C13
pub open spec fn ptr_ok(m: Map<i64, TickState>, b: Orderbook) -> bool {
  &&& in_range(b.next_bid_tick as int) && in_range(b.next_ask_tick as int)
  &&& forall|t: i64| #[trigger] m_tal(m, t, OrderDirection::Bid) > 0 ==> t <= b.next_bid_tick
  &&& forall|t: i64| #[trigger] m_tal(m, t, OrderDirection::Ask) > 0 ==> t >= b.next_ask_tick
}
// C20
pub open spec fn conf_ok(s: SV) -> bool { fee(s) <= FEE_MAX() && s.f_maker_fee_recipient is Some }
pub open spec fn inv(s: SV) -> bool {
  &&& s.f_orderbook is Some && conf_ok(s) && ords_ok(s) && ticks_in(s.f_tick_state)
  &&& forall|t: i64| #[trigger] t_ok(s, t)
  &&& liq_ok(s, OrderDirection::Bid) && liq_ok(s, OrderDirection::Ask) && ptr_ok(s.f_tick_state, s.f_orderbook->0)
}
// ---- frames ----
pub proof fn lem_tsum_same(m: Map<i64, TickState>, m2: Map<i64, TickState>, d: OrderDirection, n: nat)
  requires forall|t: i64| m_tal(m, t, d) == #[trigger] m_tal(m2, t, d)
  ensures tsum(m, d, n) == tsum(m2, d, n)
  decreases n
{ if n > 0 { lem_tsum_same(m, m2, d, (n - 1) as nat); assert(m_tal(m, (TMIN() + n - 1) as i64, d) == m_tal(m2, (TMIN() + n - 1) as i64, d)); } }
pub proof fn lem_tsum_upd(m: Map<i64, TickState>, m2: Map<i64, TickState>, d: OrderDirection, n: nat, u: i64)
  requires n <= NT(), forall|t: i64| t != u ==> m_tal(m, t, d) == #[trigger] m_tal(m2, t, d)
  ensures TMIN() <= u < TMIN() + n ==> tsum(m, d, n) + m_tal(m2, u, d) == tsum(m2, d, n) + m_tal(m, u, d), !(TMIN() <= u < TMIN() + n) ==> tsum(m, d, n) == tsum(m2, d, n)
  decreases n
{
  if n > 0 {
    lem_tsum_upd(m, m2, d, (n - 1) as nat, u);
    let t = (TMIN() + n - 1) as i64;
    if t != u { assert(m_tal(m, t, d) == m_tal(m2, t, d)); }
  }
}
pub proof fn lem_tsum_zero(d: OrderDirection, n: nat) ensures tsum(Map::empty(), d, n) == 0 decreases n { if n > 0 { lem_tsum_zero(d, (n - 1) as nat); } }
// no single tick holds more than the total
pub proof fn lem_tsum_one(m: Map<i64, TickState>, d: OrderDirection, n: nat, u: i64)
  requires TMIN() <= u < TMIN() + n
  ensures m_tal(m, u, d) <= tsum(m, d, n)
  decreases n
{ if u as int != TMIN() + n - 1 { lem_tsum_one(m, d, (n - 1) as nat, u); } }
pub proof fn lem_m_tv(s: SV, t: i64, d: OrderDirection) ensures gtv(s, t, d) == m_tv(s.f_tick_state, t, d) {}
// a tick at which nothing changes
pub open spec fn ords_same(s: SV, r: SV, t: i64, d: OrderDirection) -> bool { forall|id: u64| ord(s.f_orders, t, d, id) == #[trigger] ord(r.f_orders, t, d, id) }
pub proof fn lem_q_at_frame(s: SV, r: SV, t: i64, d: OrderDirection)
  requires q_at(s, t, d), gtv(r, t, d) == gtv(s, t, d), entries(r, t, d) == entries(s, t, d), ords_same(s, r, t, d), next_id(r) == next_id(s) || next_id(r) == next_id(s) + 1
  ensures q_at(r, t, d)
{
  lem_q_frame(gtv(s, t, d), entries(s, t, d), s.f_orders, r.f_orders, t, d, next_id(s) as nat);
  if next_id(r) != next_id(s) { lem_q_more(gtv(s, t, d), entries(s, t, d), r.f_orders, t, d, next_id(s) as nat); }
  assert(next_id(s) * BIG() <= next_id(r) * BIG()) by (nonlinear_arith) requires next_id(s) <= next_id(r);
}
pub proof fn lem_t_frame(s: SV, r: SV, t: i64)
  requires t_ok(s, t), idx_same(s, r, t), get_tick(r, t) == get_tick(s, t), ords_same(s, r, t, OrderDirection::Bid), ords_same(s, r, t, OrderDirection::Ask), next_id(r) == next_id(s) || next_id(r) == next_id(s) + 1
  ensures t_ok(r, t)
{
  lem_idx_same(s, r, t);
  lem_q_at_frame(s, r, t, OrderDirection::Bid); lem_q_at_frame(s, r, t, OrderDirection::Ask);
}
// ---- the state after instantiation ----
pub open spec fn empty_store(s: SV) -> bool {
  &&& s.f_orders == Map::<(i64, u64), LimitOrder>::empty() && s.f_tick_state == Map::<i64, TickState>::empty() && s.f_direction_liquidity.dom() =~= Set::empty()
  &&& s.f_nodes == Map::<(i64, u64), TreeNode>::empty() && s.f_tree == Map::<(i64, Seq<char>), u64>::empty() && s.f_order_id is None
}
pub proof fn lem_inv_fresh(s: SV, q: String, b: String)
  requires empty_store(s)
  ensures inv(fresh(s, q, b))
{
  let r = fresh(s, q, b);
  assert forall|t: i64| #[trigger] t_ok(r, t) by {
    assert(ix_is(r, t, OrderDirection::Bid, IX::Empty)); assert(ix_is(r, t, OrderDirection::Ask, IX::Empty));
    lem_ix_of(r, t, OrderDirection::Bid, IX::Empty); lem_ix_of(r, t, OrderDirection::Ask, IX::Empty);
    lem_q_start(t, OrderDirection::Bid, r.f_orders, 0); lem_q_start(t, OrderDirection::Ask, r.f_orders, 0);
  }
  lem_tsum_zero(OrderDirection::Bid, NT()); lem_tsum_zero(OrderDirection::Ask, NT());
}
// ---- role messages and governance touch no orders, ticks or liquidity ----
pub open spec fn book_same(s: SV, r: SV) -> bool {
  r.f_orders == s.f_orders && r.f_tick_state == s.f_tick_state && r.f_direction_liquidity == s.f_direction_liquidity && r.f_nodes == s.f_nodes && r.f_tree == s.f_tree && r.f_node_id == s.f_node_id && r.f_order_id == s.f_order_id && r.f_orderbook == s.f_orderbook
}
pub proof fn lem_inv_book(s: SV, r: SV)
  requires inv(s), book_same(s, r), conf_ok(r)
  ensures inv(r)
{
  assert forall|t: i64| #[trigger] t_ok(r, t) by { assert(t_ok(s, t)); lem_t_frame(s, r, t); }
  assert forall|t: i64, id: u64| #[trigger] r.f_orders.dom().contains((t, id)) implies o_ok(r, t, id) by { assert(o_ok(s, t, id)); }
}
pub proof fn lem_inv_auth(s: SV, r: SV, sender: Addr, m: AuthExecuteMsg)
  requires inv(s), auth_step(s, sender, m, r)
  ensures inv(r), book_same(s, r)
{ lem_inv_book(s, r); }
// ---- placement ----
pub proof fn lem_place_tick(s: SV, r: SV, env: Env, info: MessageInfo, t: i64, d: OrderDirection, q: Uint128, bo: Option<Decimal256>, u: i64)
  requires t_ok(s, u), place_ok(s, info, t, d, q, bo), next_id(s) < u64::MAX, r == placed(s, env, info, t, d, q, bo)
  ensures t_ok(r, u)
{
  hide(q_ok); hide(idx_ok);
  let n = next_id(s); let e = opp(d); let o = new_order(s, env, info, t, d, q, bo); let v = gtv(s, t, d); let a = q@ * E18();
  assert(idx_same(s, r, u));
  assert(next_id(r) == n + 1);
  assert(opp(e) == d);
  if u != t { assert(get_tick(r, u) == get_tick(s, u)); lem_t_frame(s, r, u); } else {
    lem_idx_same(s, r, t);
    assert(gtv(r, t, e) == gtv(s, t, e));
    assert(q_new(s.f_orders, t, e, n as nat)) by { reveal(q_ok); }
    assert(ord(s.f_orders, t, e, n) is None);
    assert(ords_same(s, r, t, e));
    lem_q_at_frame(s, r, t, e);
    lem_q_place(v, entries(s, t, d), s.f_orders, r.f_orders, t, d, n as nat, o);
    assert(gtv(r, t, d) == placed_tv(v, a));
    assert(a <= BIG()) by (nonlinear_arith) requires a == q@ * E18(), q@ < P128();
    assert((n + 1) * BIG() == n * BIG() + BIG()) by (nonlinear_arith);
    assert(q_at(r, t, d));
  }
}
// the resting liquidity of one tick and direction changes from x to y
pub open spec fn tal_step(m: Map<i64, TickState>, m2: Map<i64, TickState>, d: OrderDirection, t: i64) -> bool {
  (forall|u: i64| #[trigger] m_tal(m2, u, opp(d)) == m_tal(m, u, opp(d))) && (forall|u: i64| u != t ==> #[trigger] m_tal(m2, u, d) == m_tal(m, u, d))
}
pub proof fn lem_tal_step(m: Map<i64, TickState>, m2: Map<i64, TickState>, d: OrderDirection, t: i64)
  requires tal_step(m, m2, d, t), in_range(t as int)
  ensures tsum(m2, d, NT()) + m_tal(m, t, d) == tsum(m, d, NT()) + m_tal(m2, t, d), tsum(m2, opp(d), NT()) == tsum(m, opp(d), NT())
{ lem_tsum_same(m, m2, opp(d), NT()); lem_tsum_upd(m, m2, d, NT(), t); }
// pointers after the liquidity of one tick fell or stayed
pub proof fn lem_ptr_less(m: Map<i64, TickState>, m2: Map<i64, TickState>, b: Orderbook)
  requires ptr_ok(m, b), forall|u: i64| #[trigger] m_tal(m2, u, OrderDirection::Bid) <= m_tal(m, u, OrderDirection::Bid), forall|u: i64| #[trigger] m_tal(m2, u, OrderDirection::Ask) <= m_tal(m, u, OrderDirection::Ask)
  ensures ptr_ok(m2, b)
{
  assert forall|u: i64| #[trigger] m_tal(m2, u, OrderDirection::Bid) > 0 implies u <= b.next_bid_tick by { assert(m_tal(m, u, OrderDirection::Bid) > 0); }
  assert forall|u: i64| #[trigger] m_tal(m2, u, OrderDirection::Ask) > 0 implies u >= b.next_ask_tick by { assert(m_tal(m, u, OrderDirection::Ask) > 0); }
}
pub proof fn lem_ptr_bump(m: Map<i64, TickState>, m2: Map<i64, TickState>, b: Orderbook, d: OrderDirection, t: i64)
  requires ptr_ok(m, b), tal_step(m, m2, d, t), in_range(t as int)
  ensures ptr_ok(m2, bump(b, t, d))
{
  let c = bump(b, t, d);
  assert forall|u: i64| #[trigger] m_tal(m2, u, OrderDirection::Bid) > 0 implies u <= c.next_bid_tick by { if u != t || d == OrderDirection::Ask { assert(m_tal(m, u, OrderDirection::Bid) > 0); } }
  assert forall|u: i64| #[trigger] m_tal(m2, u, OrderDirection::Ask) > 0 implies u >= c.next_ask_tick by { if u != t || d == OrderDirection::Bid { assert(m_tal(m, u, OrderDirection::Ask) > 0); } }
}
pub proof fn lem_inv_place(s: SV, env: Env, info: MessageInfo, t: i64, d: OrderDirection, q: Uint128, bo: Option<Decimal256>)
  requires inv(s), place_ok(s, info, t, d, q, bo), next_id(s) < u64::MAX
  ensures inv(placed(s, env, info, t, d, q, bo))
{
  hide(t_ok); hide(idx_same); hide(ptr_ok); hide(tsum);
  let r = placed(s, env, info, t, d, q, bo); let a = q@ * E18(); let n = next_id(s); let e = opp(d);
  assert(a <= BIG()) by (nonlinear_arith) requires a == q@ * E18(), q@ < P128();
  assert((n + 1) * BIG() == n * BIG() + BIG()) by (nonlinear_arith);
  lem_dir_key(d);
  assert forall|u: i64| #[trigger] t_ok(r, u) by { assert(t_ok(s, u)); lem_place_tick(s, r, env, info, t, d, q, bo, u); }
  assert forall|u: i64, id: u64| #[trigger] r.f_orders.dom().contains((u, id)) implies o_ok(r, u, id) by { if (u, id) != (t, n) { assert(s.f_orders.dom().contains((u, id))); assert(o_ok(s, u, id)); } }
  let m = s.f_tick_state; let m2 = r.f_tick_state;
  assert(tal_step(m, m2, d, t));
  lem_tal_step(m, m2, d, t);
  assert(m_tal(m2, t, d) == m_tal(m, t, d) + a);
  assert(liq_ok(r, d)); assert(liq_ok(r, e));
  lem_ptr_bump(m, m2, s.f_orderbook->0, d, t);
}
// ---- synchronisation ----
pub open spec fn t_settled(s: SV, t: i64) -> bool { settled(gtv(s, t, OrderDirection::Bid), entries(s, t, OrderDirection::Bid)) && settled(gtv(s, t, OrderDirection::Ask), entries(s, t, OrderDirection::Ask)) }
pub proof fn lem_folded_to(s: SV, r: SV, t: i64, d: OrderDirection)
  requires idx_ok(s, t), fold_vals(s, r, t), synced_now(s, r, t)
  ensures folded_to(gtv(s, t, d), gtv(r, t, d), entries(s, t, d))
{ match d { OrderDirection::Bid => {} OrderDirection::Ask => {} } }
pub proof fn lem_q_at_sync(s: SV, r: SV, t: i64, d: OrderDirection)
  requires t_ok(s, t), fold_vals(s, r, t), synced_now(s, r, t), entries(r, t, d) == entries(s, t, d), r.f_orders == s.f_orders, next_id(r) == next_id(s)
  ensures q_at(r, t, d), settled(gtv(r, t, d), entries(r, t, d)), m_tal(r.f_tick_state, t, d) == m_tal(s.f_tick_state, t, d), gtv(r, t, d).effective_total_amount_swapped@ >= gtv(s, t, d).effective_total_amount_swapped@
{
  lem_folded_to(s, r, t, d);
  match d { OrderDirection::Bid => {} OrderDirection::Ask => {} }
  lem_q_sync(gtv(s, t, d), gtv(r, t, d), entries(s, t, d), s.f_orders, t, d, next_id(s) as nat);
}
pub proof fn lem_t_sync(s: SV, r: SV, t: i64)
  requires t_ok(s, t), folded(s, r, t), synced_now(s, r, t)
  ensures t_ok(r, t), t_settled(r, t), entries(r, t, OrderDirection::Bid) == entries(s, t, OrderDirection::Bid), entries(r, t, OrderDirection::Ask) == entries(s, t, OrderDirection::Ask),
    forall|d: OrderDirection| #[trigger] m_tal(r.f_tick_state, t, d) == m_tal(s.f_tick_state, t, d)
{
  lem_roots(s, r, t);
  lem_q_at_sync(s, r, t, OrderDirection::Bid); lem_q_at_sync(s, r, t, OrderDirection::Ask);
  assert forall|d: OrderDirection| #[trigger] m_tal(r.f_tick_state, t, d) == m_tal(s.f_tick_state, t, d) by { match d { OrderDirection::Bid => {} OrderDirection::Ask => {} } }
}
// a claim's synchronisation (or a failed claim's): nothing else changes
pub open spec fn sync_step(s: SV, r: SV, t: i64) -> bool { sync_frame(s, r, t) && roots_init(s, r, t) && (r.f_tick_state == s.f_tick_state || synced_now(s, r, t) && fold_vals(s, r, t)) }
pub proof fn lem_sync_tick(s: SV, r: SV, t: i64, u: i64)
  requires t_ok(s, t), t_ok(s, u), sync_step(s, r, t)
  ensures t_ok(r, u)
{
  lem_roots(s, r, t);
  if u == t {
    if r.f_tick_state == s.f_tick_state { lem_q_at_frame(s, r, t, OrderDirection::Bid); lem_q_at_frame(s, r, t, OrderDirection::Ask); } else { lem_t_sync(s, r, t); }
  } else { assert(idx_same(s, r, u)); assert(get_tick(r, u) == get_tick(s, u)); lem_t_frame(s, r, u); }
}
pub proof fn lem_sync_tal(s: SV, r: SV, t: i64)
  requires sync_step(s, r, t)
  ensures forall|u: i64, d: OrderDirection| #[trigger] m_tal(r.f_tick_state, u, d) == m_tal(s.f_tick_state, u, d)
{
  let m = s.f_tick_state; let m2 = r.f_tick_state;
  assert forall|u: i64, d: OrderDirection| #[trigger] m_tal(m2, u, d) == m_tal(m, u, d) by {
    lem_m_tv(s, u, d); lem_m_tv(r, u, d);
    if u != t { assert(has_tick(s, t) ==> m2 =~= m.insert(t, m2[t])); } else { match d { OrderDirection::Bid => {} OrderDirection::Ask => {} } }
  }
}
pub proof fn lem_inv_sync(s: SV, r: SV, t: i64)
  requires inv(s), sync_step(s, r, t)
  ensures inv(r), r.f_tick_state != s.f_tick_state ==> t_settled(r, t)
{
  assert(t_ok(s, t));
  assert forall|u: i64| #[trigger] t_ok(r, u) by { assert(t_ok(s, u)); lem_sync_tick(s, r, t, u); }
  lem_inv_sync2(s, r, t);
  if r.f_tick_state != s.f_tick_state { lem_t_sync(s, r, t); }
}
pub proof fn lem_inv_sync2(s: SV, r: SV, t: i64)
  requires inv(s), sync_step(s, r, t), forall|u: i64| #[trigger] t_ok(r, u)
  ensures inv(r)
{
  hide(ptr_ok); hide(tsum); hide(t_ok); hide(roots_init); hide(synced_now); hide(fold_vals); hide(m_tal);
  let m = s.f_tick_state; let m2 = r.f_tick_state;
  lem_sync_tal(s, r, t);
  lem_tsum_same(m, m2, OrderDirection::Bid, NT()); lem_tsum_same(m, m2, OrderDirection::Ask, NT());
  lem_ptr_less(m, m2, s.f_orderbook->0);
  assert(has_tick(s, t) ==> m2.dom() =~= m.dom()) by { assert(has_tick(s, t) ==> m2 =~= m.insert(t, m2[t])); }
  assert forall|u: i64, id: u64| #[trigger] r.f_orders.dom().contains((u, id)) implies o_ok(r, u, id) by { assert(o_ok(s, u, id)); }
}
// ---- claims ----
pub proof fn lem_ords_other(os: Orders, o2: Orders, t: i64, id: u64)
  requires forall|k: (i64, u64)| k != (t, id) ==> os.dom().contains(k) == #[trigger] o2.dom().contains(k) && os[k] == o2[k]
  ensures forall|u: i64, d: OrderDirection, i: u64| (u, i) != (t, id) ==> ord(os, u, d, i) == #[trigger] ord(o2, u, d, i)
{ assert forall|u: i64, d: OrderDirection, i: u64| (u, i) != (t, id) implies ord(os, u, d, i) == #[trigger] ord(o2, u, d, i) by { assert(o2.dom().contains((u, i)) == os.dom().contains((u, i))); } }
pub proof fn lem_claim_tick(m: SV, r: SV, t: i64, id: u64)
  requires t_ok(m, t), m.f_orders.dom().contains((t, id)), r == (SV { f_orders: r.f_orders, ..m }), r.f_orders =~= claim_map(gtv(m, t, m.f_orders[(t, id)].order_direction), m.f_orders, t, id),
    gtv(m, t, m.f_orders[(t, id)].order_direction).effective_total_amount_swapped@ > m.f_orders[(t, id)].etas@
  ensures t_ok(r, t)
{
  let o = m.f_orders[(t, id)]; let d = o.order_direction; let e = opp(d);
  assert(opp(e) == d);
  assert(idx_same(m, r, t)); lem_idx_same(m, r, t);
  assert(ord(m.f_orders, t, d, id) == Some(o));
  lem_q_claim(gtv(m, t, d), entries(m, t, d), m.f_orders, t, d, next_id(m) as nat, id);
  assert(q_at(r, t, d));
  lem_ords_other(m.f_orders, r.f_orders, t, id);
  assert(ords_same(m, r, t, e)) by { assert forall|i: u64| ord(m.f_orders, t, e, i) == #[trigger] ord(r.f_orders, t, e, i) by { if i == id {} } }
  lem_q_at_frame(m, r, t, e);
}
pub proof fn lem_claim_frame(m: SV, r: SV, t: i64, id: u64)
  requires inv(m), t_ok(r, t), r == (SV { f_orders: r.f_orders, ..m }), m.f_orders.dom().contains((t, id)), r.f_orders =~= claim_map(gtv(m, t, m.f_orders[(t, id)].order_direction), m.f_orders, t, id)
  ensures inv(r)
{
  hide(q_ok); hide(idx_ok);
  lem_ords_other(m.f_orders, r.f_orders, t, id);
  assert forall|u: i64| #[trigger] t_ok(r, u) by { assert(t_ok(m, u)); if u != t { assert(idx_same(m, r, u)); assert(get_tick(r, u) == get_tick(m, u)); lem_t_frame(m, r, u); } }
  assert forall|u: i64, i: u64| #[trigger] r.f_orders.dom().contains((u, i)) implies o_ok(r, u, i) by { assert(m.f_orders.dom().contains((u, i))); assert(o_ok(m, u, i)); }
}
pub proof fn lem_claim_mid(s: SV, r: SV, me: Seq<char>, who: Seq<char>, t: i64, id: u64, ms: Seq<SubMsg>)
  requires claimed(s, r, me, who, t, id, ms)
  ensures ({ let m = cl_mid(s, r); let o = s.f_orders[(t, id)]; sync_step(s, m, t) && synced_now(s, m, t) && folded(s, m, t) && r == (SV { f_orders: r.f_orders, ..m }) && m.f_orders == s.f_orders && m.f_orders.dom().contains((t, id)) && gtv(r, t, o.order_direction) == gtv(m, t, o.order_direction)
    && r.f_orders =~= claim_map(gtv(m, t, o.order_direction), m.f_orders, t, id) && gtv(m, t, o.order_direction).effective_total_amount_swapped@ > o.etas@ })
{
  hide(idx_ok); hide(cl_pay); hide(synced_vals); hide(sync_val);
  let m = cl_mid(s, r); let o = s.f_orders[(t, id)];
  assert(roots_init(s, m, t)) by { let (b1, b2) = choose|b1: bool, b2: bool| #[trigger] roots_by(s, r.f_tree, r.f_node_id, t, b1, b2); assert(roots_by(s, m.f_tree, m.f_node_id, t, b1, b2)); }
  assert(get_tick(m, t) == get_tick(r, t));
  assert(fold_vals(s, m, t)) by { reveal(sync_val); }
  assert(sync_step(s, m, t));
}
pub proof fn lem_inv_claim(s: SV, r: SV, me: Seq<char>, who: Seq<char>, t: i64, id: u64, ms: Seq<SubMsg>)
  requires inv(s), claimed(s, r, me, who, t, id, ms)
  ensures inv(r)
{
  hide(inv); hide(t_ok); hide(claimed); hide(sync_step); hide(folded); hide(synced_now);
  let m = cl_mid(s, r);
  lem_claim_mid(s, r, me, who, t, id, ms);
  lem_inv_sync(s, m, t);
  assert(t_ok(m, t)) by { reveal(inv); }
  lem_claim_tick(m, r, t, id);
  lem_claim_frame(m, r, t, id);
}
pub proof fn lem_cl_safe(s: SV, t: i64, id: u64) requires inv(s) ensures cl_safe(s, t, id) { if s.f_orders.dom().contains((t, id)) { assert(o_ok(s, t, id)); } }
pub proof fn lem_inv_batch(s: SV, r: SV, me: Seq<char>, who: Seq<char>, es: Seq<(i64, u64)>, ms: Seq<SubMsg>)
  requires inv(s), batch(s, r, me, who, es, ms)
  ensures inv(r)
  decreases es.len()
{
  hide(claimed); hide(cl_safe); hide(cl_fail);
  if es.len() > 0 {
    let (m, a, b) = choose|m: SV, a: Seq<SubMsg>, b: Seq<SubMsg>| batch(s, m, me, who, es.drop_last(), a) && #[trigger] batch_step(m, r, me, who, es.last(), b) && #[trigger] joined(ms, a, b);
    lem_inv_batch(s, m, me, who, es.drop_last(), a);
    let e = es.last();
    if claimed(m, r, me, who, e.0, e.1, b) { lem_inv_claim(m, r, me, who, e.0, e.1, b); }
    else { lem_cl_safe(m, e.0, e.1); assert(sync_step(m, r, e.0)) by { reveal(cl_fail); } lem_inv_sync(m, r, e.0); }
  }
}
// ---- cancellation ----
// disjoint entries hold at most x below position x
pub open spec fn e_last(l: Ents) -> nat { if l.len() == 0 { 0 } else { e_end(l.last()) } }
pub proof fn lem_esum_below(l: Ents, x: nat)
  requires e_sorted(l)
  ensures e_sum(l) <= esum(l, x) + nmin(x, e_last(l))
  decreases l.len()
{
  if l.len() > 0 {
    let m = l.drop_last();
    assert(e_sorted(m)) by {
      assert forall|i: int| 0 <= i < m.len() implies (#[trigger] m[i]).1 > 0 by { assert(m[i] == l[i]); }
      assert forall|i: int, j: int| 0 <= i < j < m.len() implies e_end(#[trigger] m[i]) <= (#[trigger] m[j]).0 by { assert(m[i] == l[i] && m[j] == l[j]); }
    }
    lem_esum_below(m, x);
    if m.len() > 0 { assert(e_end(l[m.len() - 1]) <= l[l.len() - 1].0); assert(m.last() == l[m.len() - 1]); }
  }
}
// the entry of an order nothing of which is filled fits next to those recorded
pub proof fn lem_q_fit(v: TickValues, l: Ents, os: Orders, t: i64, d: OrderDirection, n: nat, id: u64)
  requires q_ok(v, l, os, t, d, n), n <= u64::MAX, ord(os, t, d, id) is Some, v.effective_total_amount_swapped@ <= os[(t, id)].etas@
  ensures os[(t, id)].quantity@ > 0, e_apart(l, cq(os[(t, id)])), e_sum(l) + os[(t, id)].quantity@ * E18() <= v.cumulative_total_value@, e_end(cq(os[(t, id)])) <= v.cumulative_total_value@
{
  let o = os[(t, id)]; let e = v.effective_total_amount_swapped@; let o2 = os.remove((t, id));
  assert(ord_in(v, l, ord(os, t, d, id)->0));
  lem_esum_below(l, e);
  lem_q_liq(v, l, os, t, d, n);
  assert(osum(os, t, d, e, n) + esum(l, e) == v.cumulative_total_value@ - e);
  assert forall|i: u64| i != id implies ord(os, t, d, i) == #[trigger] ord(o2, t, d, i) by {}
  assert(ord(o2, t, d, id) is None); assert(id < n);
  lem_osum_upd(os, o2, t, d, e, n, id);
}
pub proof fn lem_ctt(s: SV, t: i64, d: OrderDirection)
  requires q_at(s, t, d)
  ensures gtv(s, t, d).cumulative_total_value@ < P256() / 4
{
  assert(next_id(s) * BIG() <= 0xffff_ffff_ffff_ffffnat * BIG()) by (nonlinear_arith) requires next_id(s) <= 0xffff_ffff_ffff_ffffnat;
  assert(0xffff_ffff_ffff_ffffnat * (0x1_0000_0000_0000_0000_0000_0000_0000_0000nat * 1_000_000_000_000_000_000nat) < P256() / 4) by (compute);
}
pub open spec fn canc_step(s: SV, r: SV, t: i64, id: u64) -> bool {
  let o = s.f_orders[(t, id)]; let m = relist(r, t, o.order_direction, o.quantity@ * E18());
  &&& s.f_orders.dom().contains((t, id)) && ticks_synced(s, m, t) && gtv(m, t, o.order_direction).effective_total_amount_swapped@ <= o.etas@
  &&& cancelled(s, r, t, id) && fold_vals(s, r, t) && (canc_fit(s, t, o) ==> canc_idx(s, r, t, o))
}
pub proof fn lem_canc_tick(s: SV, r: SV, t: i64, id: u64)
  requires t_ok(s, t), canc_step(s, r, t, id)
  ensures t_ok(r, t), canc_idx(s, r, t, s.f_orders[(t, id)]), ({ let o = s.f_orders[(t, id)]; tal_of(s, t, o.order_direction) >= o.quantity@ * E18() && tal_of(r, t, o.order_direction) == tal_of(s, t, o.order_direction) - o.quantity@ * E18() && tal_of(r, t, opp(o.order_direction)) == tal_of(s, t, opp(o.order_direction)) }),
    settled(gtv(r, t, s.f_orders[(t, id)].order_direction), entries(r, t, s.f_orders[(t, id)].order_direction)),
{
  hide(q_ok);
  let o = s.f_orders[(t, id)]; let d = o.order_direction; let e = opp(d); let a = o.quantity@ * E18(); let n = next_id(s) as nat;
  let m = relist(r, t, d, a);
  assert(opp(e) == d);
  let v = gtv(s, t, d); let w = gtv(m, t, d); let l = entries(s, t, d);
  assert(ord(s.f_orders, t, d, id) == Some(o));
  lem_canc_fold(s, r, m, t, d, a);
  lem_q_sync(v, w, l, s.f_orders, t, d, n);
  lem_q_sync(gtv(s, t, e), gtv(m, t, e), entries(s, t, e), s.f_orders, t, e, n);
  lem_q_fit(w, l, s.f_orders, t, d, n, id);
  lem_ctt(s, t, d);
  assert(canc_fit(s, t, o));
  lem_canc_end(s, r, t, id);
}
pub open spec fn tal_of(s: SV, t: i64, d: OrderDirection) -> nat { gtv(s, t, d).total_amount_of_liquidity@ }
pub proof fn lem_canc_fold(s: SV, r: SV, m: SV, t: i64, d: OrderDirection, a: nat)
  requires idx_ok(s, t), m == relist(r, t, d, a), ticks_synced(s, m, t), fold_vals(s, r, t)
  ensures folded_to(gtv(s, t, d), gtv(m, t, d), entries(s, t, d)), folded_to(gtv(s, t, opp(d)), gtv(m, t, opp(d)), entries(s, t, opp(d))), gtv(r, t, opp(d)) == gtv(m, t, opp(d)),
    gtv(m, t, d) == (TickValues { total_amount_of_liquidity: d256(gtv(r, t, d).total_amount_of_liquidity@ + a), ..gtv(r, t, d) })
{
  match d { OrderDirection::Bid => {} OrderDirection::Ask => {} }
}
pub proof fn lem_canc_end(s: SV, r: SV, t: i64, id: u64)
  requires t_ok(s, t), canc_step(s, r, t, id), canc_fit(s, t, s.f_orders[(t, id)])
  ensures t_ok(r, t), canc_idx(s, r, t, s.f_orders[(t, id)]), ({ let o = s.f_orders[(t, id)]; tal_of(s, t, o.order_direction) >= o.quantity@ * E18() && tal_of(r, t, o.order_direction) == tal_of(s, t, o.order_direction) - o.quantity@ * E18() && tal_of(r, t, opp(o.order_direction)) == tal_of(s, t, opp(o.order_direction)) }),
    settled(gtv(r, t, s.f_orders[(t, id)].order_direction), entries(r, t, s.f_orders[(t, id)].order_direction)),
{
  hide(q_ok); hide(canc_fit); hide(settled);
  let o = s.f_orders[(t, id)]; let d = o.order_direction; let e = opp(d); let a = o.quantity@ * E18(); let n = next_id(s) as nat;
  let m = relist(r, t, d, a);
  assert(opp(e) == d);
  let v = gtv(s, t, d); let w = gtv(m, t, d); let l = entries(s, t, d);
  assert(ord(s.f_orders, t, d, id) == Some(o));
  lem_canc_fold(s, r, m, t, d, a);
  lem_q_sync(v, w, l, s.f_orders, t, d, n);
  lem_q_sync(gtv(s, t, e), gtv(m, t, e), entries(s, t, e), s.f_orders, t, e, n);
  assert(e_sorted(entries(r, t, d))) by { assert(ix_wf(r, t, d)); }
  assert(w.effective_total_amount_swapped@ <= o.etas@);
  lem_q_cancel(w, l, entries(r, t, d), s.f_orders, t, d, n, id);
  assert(gtv(r, t, d) == lowered(w, a));
  assert(r.f_orders == s.f_orders.remove((t, id)));
  assert(q_at(r, t, d));
  assert(ords_same(s, r, t, e)) by { assert forall|i: u64| ord(s.f_orders, t, e, i) == #[trigger] ord(r.f_orders, t, e, i) by { if i == id {} } }
  lem_q_frame(gtv(m, t, e), entries(s, t, e), s.f_orders, r.f_orders, t, e, n);
  assert(q_at(r, t, e));
  assert(settled(gtv(r, t, d), entries(r, t, d))) by { lem_low_settled(s, r, w, l, t, d, id); }
}
pub proof fn lem_low_settled(s: SV, r: SV, w: TickValues, l: Ents, t: i64, d: OrderDirection, id: u64)
  requires q_ok(w, l, s.f_orders, t, d, next_id(s) as nat), settled(w, l), ord(s.f_orders, t, d, id) is Some, w.effective_total_amount_swapped@ <= s.f_orders[(t, id)].etas@,
    e_added(l, entries(r, t, d), cq(s.f_orders[(t, id)])), e_sorted(entries(r, t, d)), gtv(r, t, d) == lowered(w, s.f_orders[(t, id)].quantity@ * E18())
  ensures settled(gtv(r, t, d), entries(r, t, d))
{
  let m = entries(r, t, d); let o = s.f_orders[(t, id)];
  assert(ord_in(w, l, ord(s.f_orders, t, d, id)->0));
  let k = choose|k: int| fold_done(l, w.effective_total_amount_swapped@, w.cumulative_realized_cancels@, k);
  assert(cq(o).1 > 0) by (nonlinear_arith) requires cq(o).1 == o.quantity@ * E18(), o.quantity@ > 0;
  lem_added_fold(l, m, cq(o), w.effective_total_amount_swapped@, w.cumulative_realized_cancels@, k);
  assert(fold_done(m, gtv(r, t, d).effective_total_amount_swapped@, gtv(r, t, d).cumulative_realized_cancels@, k));
}
pub proof fn lem_canc_map(s: SV, r: SV, t: i64, id: u64)
  requires canc_step(s, r, t, id)
  ensures r.f_tick_state =~= s.f_tick_state.insert(t, r.f_tick_state[t]), has_tick(s, t)
{
  hide(fold_vals); hide(canc_fit); hide(canc_idx); hide(synced_vals);
  let o = s.f_orders[(t, id)]; let m = s.f_tick_state; let m2 = r.f_tick_state; let rm = relist(r, t, o.order_direction, o.quantity@ * E18());
  assert(rm.f_tick_state =~= m.insert(t, rm.f_tick_state[t]));
  assert forall|u: i64| m2.dom().contains(u) == m.dom().contains(u) by { assert(rm.f_tick_state.dom().contains(u) == m.dom().contains(u)); }
  assert forall|u: i64| u != t && m.dom().contains(u) implies m2[u] == m[u] by { assert(rm.f_tick_state[u] == m[u]); }
}
pub proof fn lem_canc_other(s: SV, r: SV, t: i64, id: u64, u: i64)
  requires canc_step(s, r, t, id), canc_idx(s, r, t, s.f_orders[(t, id)]), t_ok(s, u), u != t
  ensures t_ok(r, u)
{
  hide(canc_fit); hide(q_ok); hide(idx_ok); hide(fold_vals);
  lem_canc_map(s, r, t, id);
  lem_ords_other(s.f_orders, r.f_orders, t, id);
  assert(idx_same(s, r, u)); assert(get_tick(r, u) == get_tick(s, u)); lem_t_frame(s, r, u);
}
pub proof fn lem_inv_cancel(s: SV, r: SV, t: i64, id: u64)
  requires inv(s), canc_step(s, r, t, id)
  ensures inv(r)
{
  hide(t_ok); hide(canc_step); hide(canc_idx);
  assert(t_ok(s, t));
  lem_canc_tick(s, r, t, id);
  assert forall|u: i64| #[trigger] t_ok(r, u) by { assert(t_ok(s, u)); if u != t { lem_canc_other(s, r, t, id, u); } }
  lem_inv_cancel2(s, r, t, id);
}
pub proof fn lem_inv_cancel2(s: SV, r: SV, t: i64, id: u64)
  requires inv(s), canc_step(s, r, t, id), forall|u: i64| #[trigger] t_ok(r, u), ({ let o = s.f_orders[(t, id)]; tal_of(s, t, o.order_direction) >= o.quantity@ * E18() && tal_of(r, t, o.order_direction) == tal_of(s, t, o.order_direction) - o.quantity@ * E18() && tal_of(r, t, opp(o.order_direction)) == tal_of(s, t, opp(o.order_direction)) })
  ensures inv(r)
{
  hide(t_ok); hide(ptr_ok); hide(tsum); hide(fold_vals); hide(canc_fit); hide(canc_idx); hide(synced_vals);
  let o = s.f_orders[(t, id)]; let d = o.order_direction; let e = opp(d);
  let m = s.f_tick_state; let m2 = r.f_tick_state; let rm = relist(r, t, d, o.quantity@ * E18());
  assert(opp(e) == d);
  lem_dir_key(d);
  lem_canc_map(s, r, t, id);
  assert(tal_step(m, m2, d, t)) by {
    lem_m_tv(s, t, d); lem_m_tv(r, t, d); lem_m_tv(s, t, e); lem_m_tv(r, t, e);
    assert forall|u: i64| #[trigger] m_tal(m2, u, e) == m_tal(m, u, e) by { if u != t {} }
  }
  lem_tal_step(m, m2, d, t);
  assert(liq_ok(r, d)); assert(liq_ok(r, e));
  assert forall|u: i64| #[trigger] m_tal(m2, u, OrderDirection::Bid) <= m_tal(m, u, OrderDirection::Bid) by { if u == t { lem_m_tv(s, t, OrderDirection::Bid); lem_m_tv(r, t, OrderDirection::Bid); } }
  assert forall|u: i64| #[trigger] m_tal(m2, u, OrderDirection::Ask) <= m_tal(m, u, OrderDirection::Ask) by { if u == t { lem_m_tv(s, t, OrderDirection::Ask); lem_m_tv(r, t, OrderDirection::Ask); } }
  lem_ptr_less(m, m2, s.f_orderbook->0);
  assert forall|u: i64, i: u64| #[trigger] r.f_orders.dom().contains((u, i)) implies o_ok(r, u, i) by { assert(s.f_orders.dom().contains((u, i))); assert(o_ok(s, u, i)); }
}
