fn types::tick::TickValues::default() -> r
  @ensures C03
    r == dflt_TickValues()

fn sumtree::node::NodeType::default() -> r
  @ensures C15 C16
    r == dflt_NodeType()

fn types::tick::TickState::get_values(self, direction) -> r
  @ensures C03 C05 C06 C08 C12 C15 C26
    r == tv(*self, direction)

fn types::tick::TickState::set_values(self, direction, values) -> r
  @ensures C03 C05 C08 C12 C15
    *final(self) == set_tv(*old(self), direction, values)

fn types::order::OrderDirection::opposite(self) -> r
  @ensures C08 C11 C23
    r == opp(*self)

fn types::order::from__OrderDirection__String()
  @flag C11 C15 C23
  @rel
    r@ == dir_key(self)

fn types::order::display__OrderDirection()
  @flag C11 C15
  @rel
    dir_key(*self)

fn types::order::LimitOrder::new(tick_id, order_id, order_direction, owner, quantity, etas, claim_bounty) -> r
  @ensures C03 C04
    r == (LimitOrder { tick_id: tick_id, order_id: order_id, order_direction: order_direction, owner: owner, quantity: quantity, etas: etas, claim_bounty: claim_bounty, placed_quantity: quantity, placed_at: r.placed_at })

fn types::order::LimitOrder::with_placed_at(self, placed_at) -> r
  @ensures C03 C04
    r == (LimitOrder { placed_at: placed_at, ..self })

fn types::order::MarketOrder::new(quantity, order_direction, owner) -> r
  @ensures C08 C10 C21
    r == (MarketOrder { quantity: quantity, order_direction: order_direction, owner: owner })

fn types::orderbook::Orderbook::new(quote_denom, base_denom, current_tick, next_bid_tick, next_ask_tick) -> r
  @ensures C24
    r == (Orderbook { quote_denom: quote_denom, base_denom: base_denom, current_tick: current_tick, next_bid_tick: next_bid_tick, next_ask_tick: next_ask_tick })

fn types::orderbook::Orderbook::get_expected_denom(self, order_direction) -> r
  @ensures C23
    r == dep_denom(*self, *order_direction)

fn types::orderbook::Orderbook::get_opposite_denom(self, order_direction) -> r
  @ensures C23
    r == pay_denom(*self, *order_direction)

fn types::orderbook::Orderbook::direction_from_pair(self, token_in_denom, token_out_denom) -> r
  @ensures C23 C10
    r is Ok <==> pair_dir(*self, token_in_denom@, token_out_denom@) is Some,
  @ensures C23 C10
    r is Ok ==> Some(r->Ok_0) == pair_dir(*self, token_in_denom@, token_out_denom@)

fn types::coin::coin_u256(amount, denom) -> r
  @ensures C10
    amount.into_rel(r.amount) && r.denom == *denom
