// ---- swaps as requested by the chain ----
pub open spec fn bound_of(d: OrderDirection, target: Option<i64>) -> i64 {
  match target { Some(t) => t, None => match d { OrderDirection::Bid => TMAX() as i64, OrderDirection::Ask => TMIN() as i64 } }
}
pub open spec fn swap_dir(s: SV, ti: Coin, to: String) -> Option<OrderDirection> { pair_dir(s.f_orderbook->0, ti.denom@, to@) }
pub open spec fn swap_req(s: SV, ti: Coin, to: String, fee: Decimal, target: Option<i64>) -> bool {
  &&& fee@ == 0 && s.f_orderbook is Some && swap_dir(s, ti, to) is Some
  &&& ({ let d = swap_dir(s, ti, to)->0; swap_ok(s, d, ti.amount@, bound_of(d, target)) })
}
pub open spec fn req_run(s: SV, ti: Coin, to: String, target: Option<i64>) -> Swap { let d = swap_dir(s, ti, to)->0; swap_all(s, d, ti.amount@, bound_of(d, target)) }
pub open spec fn dl_ok(s: SV, ti: Coin, to: String, target: Option<i64>) -> bool { dliq(s, opp(swap_dir(s, ti, to)->0)) >= req_run(s, ti, to, target).out * E18() }
pub open spec fn swap_accepts(s: SV, sender: Seq<char>, ti: Coin, to: String, min: Uint128, fee: Decimal, target: Option<i64>) -> bool {
  &&& swap_req(s, ti, to, fee, target) && ti.denom@ != to@ && addr_valid(sender) && min@ <= req_run(s, ti, to, target).out && dl_ok(s, ti, to, target)
}
pub open spec fn swap_msgs(s: SV, self_addr: Seq<char>, sender: Seq<char>, ti: Coin, to: String, target: Option<i64>, m: Seq<SubMsg>) -> bool {
  let w = req_run(s, ti, to, target);
  &&& m.len() == (if w.rem == 0 { 1nat } else { 2nat })
  &&& pays(m[0], self_addr, sender, to@, w.out) && guarded(m[0])
  &&& w.rem != 0 ==> pays(m[1], self_addr, sender, ti.denom@, w.rem) && guarded(m[1])
}
pub open spec fn is_doc<T>(b: Binary, x: T) -> bool { b.at@ == jdoc(x) }
pub open spec fn swap_data(s: SV, ti: Coin, to: String, target: Option<i64>, data: Option<Binary>) -> bool {
  data is Some && is_doc(data->0, SwapExactAmountInResponseData { token_out_amount: u256(req_run(s, ti, to, target).out) })
}
pub open spec fn req_swapped(s: SV, ti: Coin, to: String, target: Option<i64>) -> SV { let d = swap_dir(s, ti, to)->0; swapped(s, d, ti.amount@, bound_of(d, target)) }
pub open spec fn req_lists(s: SV, ti: Coin, to: String, target: Option<i64>) -> bool { let d = swap_dir(s, ti, to)->0; swap_lists(s, d, bound_of(d, target)) }
pub open spec fn sudo_lists(s: SV, msg: SudoMsg) -> bool {
  match msg {
    SudoMsg::SwapExactAmountIn { sender, token_in, token_out_denom, token_out_min_amount, swap_fee } => req_lists(s, token_in, token_out_denom, None),
    SudoMsg::SwapToTick { sender, token_in, token_out_denom, token_out_min_amount, swap_fee, target_tick } => req_lists(s, token_in, token_out_denom, Some(target_tick)),
    _ => true,
  }
}
// a book as instantiated
pub open spec fn fresh(s: SV, q: String, b: String) -> SV {
  SV { f_orderbook: Some(Orderbook { quote_denom: q, base_denom: b, current_tick: 0, next_bid_tick: TMIN() as i64, next_ask_tick: TMAX() as i64 }),
    f_maker_fee: Some(d256(0)), f_maker_fee_recipient: Some(addr("osmo1r9jc2234fljy93z80cevqjt3nmjycec8aj4cc6"@)),
    f_admin: Some(addr("osmo10d07y265gmmuvt4z0w9aw880jnsr700jjeq4qp"@)), f_moderator: Some(addr("osmo1peuxfjj66n2qt2v5jmqlvzz8neakjgduez7vttvemw58uug6546sr60ngl"@)), ..s }
}
pub open spec fn sudo_msgs(s: SV, env: Env, msg: SudoMsg, m: Seq<SubMsg>) -> bool {
  match msg {
    SudoMsg::SwapExactAmountIn { sender, token_in, token_out_denom, token_out_min_amount, swap_fee } => swap_msgs(s, env.contract.address@, sender@, token_in, token_out_denom, None, m),
    SudoMsg::SwapToTick { sender, token_in, token_out_denom, token_out_min_amount, swap_fee, target_tick } => swap_msgs(s, env.contract.address@, sender@, token_in, token_out_denom, Some(target_tick), m),
    _ => m.len() == 0,
  }
}
pub open spec fn sudo_data(s: SV, msg: SudoMsg, data: Option<Binary>) -> bool {
  match msg {
    SudoMsg::SwapExactAmountIn { sender, token_in, token_out_denom, token_out_min_amount, swap_fee } => swap_data(s, token_in, token_out_denom, None, data),
    SudoMsg::SwapToTick { sender, token_in, token_out_denom, token_out_min_amount, swap_fee, target_tick } => swap_data(s, token_in, token_out_denom, Some(target_tick), data),
    _ => true,
  }
}
pub open spec fn sudo_accepts(s: SV, msg: SudoMsg) -> bool {
  match msg {
    SudoMsg::SwapExactAmountIn { sender, token_in, token_out_denom, token_out_min_amount, swap_fee } => swap_accepts(s, sender@, token_in, token_out_denom, token_out_min_amount, swap_fee, None),
    SudoMsg::SwapToTick { sender, token_in, token_out_denom, token_out_min_amount, swap_fee, target_tick } => swap_accepts(s, sender@, token_in, token_out_denom, token_out_min_amount, swap_fee, Some(target_tick)),
    SudoMsg::SwapExactAmountOut { sender, token_in_denom, token_in_max_amount, token_out, swap_fee } => false,
    SudoMsg::TransferAdmin { new_admin } => addr_valid(new_admin@),
    _ => true,
  }
}
pub open spec fn sudo_state(s: SV, msg: SudoMsg) -> SV {
  match msg {
    SudoMsg::SwapExactAmountIn { sender, token_in, token_out_denom, token_out_min_amount, swap_fee } => req_swapped(s, token_in, token_out_denom, None),
    SudoMsg::SwapToTick { sender, token_in, token_out_denom, token_out_min_amount, swap_fee, target_tick } => req_swapped(s, token_in, token_out_denom, Some(target_tick)),
    SudoMsg::SwapExactAmountOut { sender, token_in_denom, token_in_max_amount, token_out, swap_fee } => s,
    SudoMsg::TransferAdmin { new_admin } => SV { f_admin: Some(new_admin), f_admin_offer: None, ..s },
    SudoMsg::RemoveAdmin { } => SV { f_admin: None, f_admin_offer: None, ..s },
    SudoMsg::SetActive { active } => SV { f_is_active: Some(active), ..s },
  }
}
// ---- where an entry point cannot abort (the storage ids and the sums it needs fit) ----
pub open spec fn exec_live(s: SV, msg: ExecuteMsg) -> bool {
  match msg {
    ExecuteMsg::PlaceLimit { tick_id, order_direction, quantity, claim_bounty } => next_id(s) < u64::MAX,
    ExecuteMsg::CancelLimit { tick_id, order_id } => cancel_live(s, tick_id, order_id),
    ExecuteMsg::ClaimLimit { tick_id, order_id } => claim_live(s, tick_id),
    ExecuteMsg::BatchClaim { orders } => ticks_room(s, 200),
    ExecuteMsg::Auth(a) => true,
  }
}
pub open spec fn req_fits(s: SV, ti: Coin, to: String, target: Option<i64>) -> bool { s.f_orderbook is Some && swap_dir(s, ti, to) is Some ==> ({ let d = swap_dir(s, ti, to)->0; out_fits(s, d, ti.amount@, bound_of(d, target)) }) }
pub open spec fn sudo_live(s: SV, msg: SudoMsg) -> bool {
  match msg {
    SudoMsg::SwapExactAmountIn { sender, token_in, token_out_denom, token_out_min_amount, swap_fee } => req_fits(s, token_in, token_out_denom, None),
    SudoMsg::SwapToTick { sender, token_in, token_out_denom, token_out_min_amount, swap_fee, target_tick } => req_fits(s, token_in, token_out_denom, Some(target_tick)),
    SudoMsg::SwapExactAmountOut { sender, token_in_denom, token_in_max_amount, token_out, swap_fee } => false,
    _ => true,
  }
}
pub open spec fn pool_live(s: SV) -> bool { dliq(s, OrderDirection::Ask) / E18() < P128() && dliq(s, OrderDirection::Bid) / E18() < P128() }
pub open spec fn unr_live(s: SV, t: i64) -> bool { ix_wf(s, t, OrderDirection::Ask) && ix_wf(s, t, OrderDirection::Bid) }
pub open spec fn query_live(s: SV, msg: QueryMsg) -> bool {
  match msg {
    QueryMsg::CalcInAmtGivenOut { } => false,
    QueryMsg::GetTotalPoolLiquidity { } => pool_live(s),
    QueryMsg::GetUnrealizedCancels { tick_ids } => forall|i: int| 0 <= i < tick_ids@.len() ==> has_tick(s, #[trigger] tick_ids@[i]) ==> unr_live(s, tick_ids@[i]),
    _ => true,
  }
}
// effect and transfers of a user message
pub open spec fn exec_step(s: SV, r: SV, env: Env, info: MessageInfo, msg: ExecuteMsg, m: Seq<SubMsg>) -> bool {
  match msg {
    ExecuteMsg::PlaceLimit { tick_id, order_direction, quantity, claim_bounty } => place_ok(s, info, tick_id, order_direction, quantity, claim_bounty) && next_id(s) < u64::MAX
      && r =~= placed(s, env, info, tick_id, order_direction, quantity, claim_bounty) && m.len() == 0,
    ExecuteMsg::CancelLimit { tick_id, order_id } => ord_keyed(s, tick_id, order_id) ==> cancel_ok(s, r, info, tick_id, order_id) && cancelled(s, r, tick_id, order_id) && refunded(s, env.contract.address@, tick_id, order_id, m)
      && fold_vals(s, r, tick_id) && (canc_fit(s, tick_id, s.f_orders[(tick_id, order_id)]) ==> canc_idx(s, r, tick_id, s.f_orders[(tick_id, order_id)])),
    ExecuteMsg::ClaimLimit { tick_id, order_id } => info.funds@.len() == 0 && claimed(s, r, env.contract.address@, info.sender@, tick_id, order_id, m),
    ExecuteMsg::BatchClaim { orders } => info.funds@.len() == 0 && orders@.len() <= 100 && batch(s, r, env.contract.address@, info.sender@, orders@, m),
    ExecuteMsg::Auth(a) => auth_step(s, info.sender, a, r) && m.len() == 0,
  }
}
