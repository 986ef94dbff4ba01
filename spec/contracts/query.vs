fn types::order::FilterOwnerOrders::all(owner) -> r
  @ensures C25
    r == FilterOwnerOrders::All(owner)

fn state::get_orders_by_owner(storage, filter, min, max, page_size) -> r
  @ensures C25
    r is Ok && page_owner($pre, filter, min, max, opt_n(page_size, 100), r->Ok_0@)
  @loop 0
    invariant vx_i0 <= vx_src0@.len(), vx_i0 <= vx_n0, snds_at(vx_src0@, vx_out0@, vx_i0 as int),
      forall|j: int| 0 <= j < vx_src0@.len() ==> #[trigger] vx_src0@[j] is Ok,
    ensures vx_i0 == nmin(vx_n0 as nat, vx_src0@.len()),

fn query::orders_by_owner(deps, owner, start_from, end_at, limit) -> r
  @ensures C25
    r is Ok && q_owner($pre, owner, start_from, end_at, limit, r->Ok_0)

fn query::orders_by_tick(deps, tick_id, start_from, end_at, limit) -> r
  @ensures C25
    r is Ok && q_tick($pre, tick_id, start_from, end_at, limit, r->Ok_0)
  @loop 1
    invariant vx_i1 <= vx_src1@.len(), vx_i1 <= vx_n1, snds_at(vx_src1@, vx_out1@, vx_i1 as int),
      forall|j: int| 0 <= j < vx_src1@.len() ==> #[trigger] vx_src1@[j] is Ok,
    ensures vx_i1 == nmin(vx_n1 as nat, vx_src1@.len()),

fn query::all_ticks(deps, start_from, end_at, limit) -> r
  @ensures C25
    r is Ok && q_all($pre, start_from, end_at, limit, r->Ok_0)
  @loop 0
    invariant vx_i0 <= vx_src0@.len(), vx_i0 <= vx_n0, vx_out0@.len() == vx_i0,
      forall|j: int| 0 <= j < vx_src0@.len() ==> #[trigger] vx_src0@[j] is Ok,
      ticks_at(vx_src0@, vx_out0@, vx_i0 as int),
    ensures vx_i0 == nmin(vx_n0 as nat, vx_src0@.len()),
  @loop 1
    invariant vx_i1 <= vx_src1@.len(), vx_out1@.len() == vx_i1,
      forall|j: int| 0 <= j < vx_src1@.len() ==> #[trigger] vx_src1@[j] is Ok,
      ticks_at(vx_src1@, vx_out1@, vx_i1 as int),
    ensures vx_i1 == vx_src1@.len(),

fn query::ticks_by_id(deps, tick_ids) -> r
  @ensures C25
    r is Ok <==> all_known($pre, tick_ids@),
  @ensures C25
    r is Ok ==> r->Ok_0.ticks@ =~= states_of($pre, tick_ids@)
  @loop 0
    invariant vx_src0@ == tick_ids@, vx_i0 <= vx_src0@.len(), ticks@.len() == vx_i0,
      forall|j: int| 0 <= j < vx_i0 ==> has_tick($pre, #[trigger] vx_src0@[j]) && ticks@[j] == (TickIdAndState { tick_id: vx_src0@[j], tick_state: $pre.f_tick_state[vx_src0@[j]] }),
    ensures vx_i0 == vx_src0@.len(),

fn query::denoms(deps) -> r
  @ensures C23
    (r is Ok <==> $pre.f_orderbook is Some),
  @ensures C23
    r is Ok ==> r->Ok_0.quote_denom@ == $pre.f_orderbook->0.quote_denom@ && r->Ok_0.base_denom@ == $pre.f_orderbook->0.base_denom@

fn query::orderbook_state(deps) -> r
  @ensures C13 C23
    r is Ok ==> Some(r->Ok_0) == $pre.f_orderbook

fn query::get_swap_fee() -> r
  @ensures C10
    r is Ok && r->Ok_0.swap_fee@ == 0

fn query::total_pool_liquidity(deps) -> r
  @live C11
    pool_live($pre)
  @ensures C11
    r is Ok ==> $pre.f_orderbook is Some && pool($pre, r->Ok_0.total_pool_liquidity@)

fn query::calc_out_amount_given_in(deps, token_in, token_out_denom, swap_fee) -> r
  @ensures C21
    r is Ok <==> swap_req($pre, token_in, token_out_denom, swap_fee, None),
  @ensures C21
    r is Ok ==> quoted($pre, token_in, token_out_denom, r->Ok_0)

fn query::spot_price(deps, quote_asset_denom, base_asset_denom) -> r
  @ensures C23
    r is Ok ==> spot_ok($pre, quote_asset_denom@, base_asset_denom@) && r->Ok_0.spot_price@ == spot($pre, quote_asset_denom@, base_asset_denom@),
  @ensures C23
    spot_ok($pre, quote_asset_denom@, base_asset_denom@) ==> r is Ok
  @entry
    broadcast use ax_dec_str;
    proof { lem_fits_all(); lem_inv(); }

fn contract::query(deps, _env, msg) -> r
  @live C10 C11 C21 C23 C25 C26
    query_live($pre, msg)
  @ensures C23
    q0($pre, msg, r)
  @ensures C21
    q1($pre, msg, r)
  @ensures C21
    q2($pre, msg, r)
  @ensures C11
    q3($pre, msg, r)
  @ensures C25
    q4($pre, msg, r)
  @ensures C19
    q5($pre, msg, r)
  @ensures C10
    q6($pre, msg, r)
  @ensures C25
    q7($pre, msg, r)
  @ensures C25
    q8($pre, msg, r)
  @ensures C25
    q9($pre, msg, r)
  @ensures C13 C23
    q10($pre, msg, r)
  @ensures C23
    q11($pre, msg, r)
  @ensures C20
    q12($pre, msg, r)
  @ensures C18
    q13($pre, msg, r)
  @ensures C26
    q14($pre, msg, r)

fn query::get_unrealized_cancels(deps, tick_state, tick_id) -> r
  @live C26
    unr_live($pre, tick_id)
  @ensures C26
    r is Ok ==> unr_is($pre, tick_id, tick_state, r->Ok_0),
  @ensures C26
    unr_fit2($pre, tick_id, tick_state) ==> r is Ok
  @entry
    proof { lem_pend(deps.storage.sv@, tick_id, OrderDirection::Ask); lem_pend(deps.storage.sv@, tick_id, OrderDirection::Bid); }

fn query::ticks_unrealized_cancels_by_id(deps, tick_ids) -> r
  @live C26
    forall|i: int| 0 <= i < tick_ids@.len() ==> has_tick($pre, #[trigger] tick_ids@[i]) ==> unr_live($pre, tick_ids@[i])
  @ensures C26
    r is Ok ==> unr_list($pre, tick_ids@, r->Ok_0.ticks@),
  @ensures C26
    (forall|i: int| 0 <= i < tick_ids@.len() ==> has_tick($pre, #[trigger] tick_ids@[i]) && unr_fit2($pre, tick_ids@[i], $pre.f_tick_state[tick_ids@[i]])) ==> r is Ok
  @loop 0
    invariant vx_src0@ == tick_ids@, vx_i0 <= vx_src0@.len(), ticks@.len() == vx_i0,
      forall|j: int| 0 <= j < vx_i0 ==> #[trigger] unr_at($pre, vx_src0@[j], ticks@[j]),
    ensures vx_i0 == vx_src0@.len(),
