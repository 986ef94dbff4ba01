pub open spec fn dflt_TickValues() -> TickValues {
  TickValues { total_amount_of_liquidity: d256(0), cumulative_total_value: d256(0), effective_total_amount_swapped: d256(0), cumulative_realized_cancels: d256(0), last_tick_sync_etas: d256(0) }
}
pub open spec fn dflt_NodeType() -> NodeType {
  NodeType::Internal { accumulator: d256(0), range: (d256((P256() - 1) as nat), d256(0)), weight: 0 }
}
// ---- directions, denominations ----
pub open spec fn opp(d: OrderDirection) -> OrderDirection { match d { OrderDirection::Bid => OrderDirection::Ask, OrderDirection::Ask => OrderDirection::Bid } }
pub open spec fn tv(t: TickState, d: OrderDirection) -> TickValues { match d { OrderDirection::Ask => t.ask_values, OrderDirection::Bid => t.bid_values } }
pub open spec fn set_tv(t: TickState, d: OrderDirection, v: TickValues) -> TickState { match d { OrderDirection::Ask => TickState { ask_values: v, ..t }, OrderDirection::Bid => TickState { bid_values: v, ..t } } }
pub open spec fn dir_key(d: OrderDirection) -> Seq<char> { match d { OrderDirection::Ask => "ask"@, OrderDirection::Bid => "bid"@ } }
pub proof fn lem_dir_key(d: OrderDirection) ensures dir_key(d) != dir_key(opp(d)) {
  reveal_strlit("ask"); reveal_strlit("bid");
  assert("ask"@[0] != "bid"@[0]);
}
// bids deposit quote and pay base, asks the other way round
pub open spec fn dep_denom(b: Orderbook, d: OrderDirection) -> String { match d { OrderDirection::Bid => b.quote_denom, OrderDirection::Ask => b.base_denom } }
pub open spec fn pay_denom(b: Orderbook, d: OrderDirection) -> String { match d { OrderDirection::Bid => b.base_denom, OrderDirection::Ask => b.quote_denom } }
pub open spec fn pair_dir(b: Orderbook, i: Seq<char>, o: Seq<char>) -> Option<OrderDirection> {
  if b.base_denom@ == i && b.quote_denom@ == o { Some(OrderDirection::Ask) } else if b.quote_denom@ == i && b.base_denom@ == o { Some(OrderDirection::Bid) } else { None }
}
// ---- storage view accessors ----
pub open spec fn get_tick(s: SV, t: i64) -> TickState { if s.f_tick_state.dom().contains(t) { s.f_tick_state[t] } else { TickState { ask_values: dflt_TickValues(), bid_values: dflt_TickValues() } } }
pub open spec fn gtv(s: SV, t: i64, d: OrderDirection) -> TickValues { tv(get_tick(s, t), d) }
pub open spec fn dliq(s: SV, d: OrderDirection) -> nat { if s.f_direction_liquidity.dom().contains(dir_key(d)) { s.f_direction_liquidity[dir_key(d)]@ } else { 0 } }
