pub open spec fn BOUNTY_MAX() -> nat { 10_000_000_000_000_000nat }
pub open spec fn next_id(s: SV) -> u64 { match s.f_order_id { Some(i) => i, None => 0 } }
pub open spec fn has_tick(s: SV, t: i64) -> bool { s.f_tick_state.dom().contains(t) }
pub open spec fn add_liq(s: SV, d: OrderDirection, a: nat) -> SV { SV { f_direction_liquidity: s.f_direction_liquidity.insert(dir_key(d), d256(dliq(s, d) + a)), ..s } }
pub open spec fn sub_liq(s: SV, d: OrderDirection, a: nat) -> SV { SV { f_direction_liquidity: s.f_direction_liquidity.insert(dir_key(d), d256((dliq(s, d) - a) as nat)), ..s } }
pub open spec fn put_tv(s: SV, t: i64, d: OrderDirection, v: TickValues) -> SV { SV { f_tick_state: s.f_tick_state.insert(t, set_tv(get_tick(s, t), d, v)), ..s } }
// ---- transfers ----
pub open spec fn pays(m: SubMsg, from: Seq<char>, to: Seq<char>, denom: Seq<char>, amt: nat) -> bool {
  match m.msg {
    CosmosMsg::Bank(BankMsg::Send { to_address, amount }) => to_address@ == to && amount@.len() == 1 && amount@[0].denom@ == denom && amount@[0].amount@ == amt,
    CosmosMsg::Proto(s) => s.from_address@ == from && s.to_address@ == to && s.amount@.len() == 1 && s.amount@[0].denom@ == denom && s.amount@[0].amount@ == num_str(amt),
    _ => false,
  }
}
pub open spec fn guarded(m: SubMsg) -> bool { m.reply_on == ReplyOn::Error || m.reply_on == ReplyOn::Always }
pub open spec fn all_guarded(r: Response) -> bool { forall|i: int| 0 <= i < r.messages@.len() ==> guarded(#[trigger] r.messages@[i]) }
// ---- placing ----
pub open spec fn bump(b: Orderbook, t: i64, d: OrderDirection) -> Orderbook {
  match d { OrderDirection::Bid => if t > b.next_bid_tick { Orderbook { next_bid_tick: t, ..b } } else { b }, OrderDirection::Ask => if t < b.next_ask_tick { Orderbook { next_ask_tick: t, ..b } } else { b } }
}
pub open spec fn place_ok(s: SV, info: MessageInfo, t: i64, d: OrderDirection, q: Uint128, bo: Option<Decimal256>) -> bool {
  &&& s.f_orderbook is Some && in_range(t as int) && q@ > 0 && (bo is Some ==> bo->0@ <= BOUNTY_MAX())
  &&& one_coin(info, dep_denom(s.f_orderbook->0, d)@, q@)
}
pub open spec fn new_order(s: SV, env: Env, info: MessageInfo, t: i64, d: OrderDirection, q: Uint128, bo: Option<Decimal256>) -> LimitOrder {
  LimitOrder { tick_id: t, order_id: next_id(s), order_direction: d, owner: info.sender, quantity: q, etas: gtv(s, t, d).cumulative_total_value, claim_bounty: bo, placed_quantity: q, placed_at: env.block.time }
}
pub open spec fn placed(s: SV, env: Env, info: MessageInfo, t: i64, d: OrderDirection, q: Uint128, bo: Option<Decimal256>) -> SV {
  let v = gtv(s, t, d); let a = q@ * E18();
  SV { f_order_id: Some((next_id(s) + 1) as u64), f_orderbook: Some(bump(s.f_orderbook->0, t, d)),
    f_orders: s.f_orders.insert((t, next_id(s)), new_order(s, env, info, t, d, q, bo)),
    f_direction_liquidity: s.f_direction_liquidity.insert(dir_key(d), d256(dliq(s, d) + a)),
    f_tick_state: s.f_tick_state.insert(t, set_tv(get_tick(s, t), d, TickValues { total_amount_of_liquidity: d256(v.total_amount_of_liquidity@ + a), cumulative_total_value: d256(v.cumulative_total_value@ + a), ..v })),
    ..s }
}
// ---- the cancellation index root ----
pub open spec fn has_root(s: SV, t: i64, d: OrderDirection) -> bool { s.f_tree.dom().contains((t, dir_key(d))) && s.f_nodes.dom().contains((t, s.f_tree[(t, dir_key(d))])) }
pub open spec fn node_ctr(s: SV, t: i64) -> u64 { if s.f_node_id.dom().contains(t) { s.f_node_id[t] } else { 0 } }
pub open spec fn bump_ctr(s: SV, t: i64) -> SV { SV { f_node_id: s.f_node_id.insert(t, (node_ctr(s, t) + 1) as u64), ..s } }
pub open spec fn root_state(s: SV, t: i64, d: OrderDirection) -> SV { if has_root(s, t, d) { s } else { SV { f_node_id: s.f_node_id.insert(t, (node_ctr(s, t) + 1) as u64), f_tree: s.f_tree.insert((t, dir_key(d)), (node_ctr(s, t) + 1) as u64), ..s } } }
pub open spec fn root_node(s: SV, t: i64, d: OrderDirection) -> TreeNode { if has_root(s, t, d) { s.f_nodes[(t, s.f_tree[(t, dir_key(d))])] } else {
  TreeNode { key: (node_ctr(s, t) + 1) as u64, tick_id: t, direction: d, left: None, right: None, parent: None, node_type: dflt_NodeType() } } }
// ---- synchronisation of one tick ----
pub open spec fn synced_vals(v: TickValues, w: TickValues, target: nat) -> bool {
  ||| w == v && v.last_tick_sync_etas@ == target
  ||| { &&& v.last_tick_sync_etas@ != target
        &&& w.total_amount_of_liquidity == v.total_amount_of_liquidity && w.cumulative_total_value == v.cumulative_total_value
        &&& w.last_tick_sync_etas@ == target && w.cumulative_realized_cancels@ >= v.cumulative_realized_cancels@
        &&& w.effective_total_amount_swapped@ == v.effective_total_amount_swapped@ + (w.cumulative_realized_cancels@ - v.cumulative_realized_cancels@)
        &&& w.effective_total_amount_swapped@ <= w.cumulative_total_value@ }
}
// only the fill progress of tick t and the (empty) index roots of t change
pub open spec fn sync_frame(s: SV, r: SV, t: i64) -> bool {
  &&& r.f_nodes == s.f_nodes
  &&& forall|k: (i64, Seq<char>)| k.0 != t || s.f_nodes.dom().contains((t, s.f_tree[k])) && s.f_tree.dom().contains(k) ==> r.f_tree.dom().contains(k) == s.f_tree.dom().contains(k) && r.f_tree[k] == s.f_tree[k]
  &&& forall|k: i64| k != t ==> r.f_node_id.dom().contains(k) == s.f_node_id.dom().contains(k) && r.f_node_id[k] == s.f_node_id[k]
  &&& node_ctr(s, t) <= node_ctr(r, t)
  &&& has_tick(r, t) == has_tick(s, t)
  &&& r =~= (SV { f_tick_state: r.f_tick_state, f_tree: r.f_tree, f_node_id: r.f_node_id, ..s })
  &&& has_tick(s, t) ==> r.f_tick_state =~= s.f_tick_state.insert(t, r.f_tick_state[t])
  &&& !has_tick(s, t) ==> r.f_tick_state == s.f_tick_state
}
pub open spec fn synced(s: SV, r: SV, t: i64, bt: nat, at: nat) -> bool {
  &&& sync_frame(s, r, t)
  &&& has_tick(s, t)
  &&& synced_vals(gtv(s, t, OrderDirection::Bid), gtv(r, t, OrderDirection::Bid), bt)
  &&& synced_vals(gtv(s, t, OrderDirection::Ask), gtv(r, t, OrderDirection::Ask), at)
}
// synchronisation to the tick's own fill progress
pub open spec fn synced_now(s: SV, r: SV, t: i64) -> bool {
  synced(s, r, t, gtv(s, t, OrderDirection::Bid).effective_total_amount_swapped@, gtv(s, t, OrderDirection::Ask).effective_total_amount_swapped@)
}
