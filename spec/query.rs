// ---- listings ----
pub open spec fn cut<K>(l: Seq<K>, n: nat) -> Seq<K> { l.take(nmin(n, l.len()) as int) }
pub open spec fn incl<K>(o: Option<K>) -> Option<Bound<K>> { match o { Some(k) => Some(Bound::Inclusive(k)), None => None } }
pub open spec fn opt_n(o: Option<u64>, d: nat) -> nat { match o { Some(n) => n as nat, None => d } }
pub open spec fn recs(s: SV, l: Seq<(i64, u64)>) -> Seq<LimitOrder> { Seq::new(l.len(), |i: int| s.f_orders[l[i]]) }
pub open spec fn tick_recs(s: SV, t: i64, l: Seq<u64>) -> Seq<LimitOrder> { Seq::new(l.len(), |i: int| s.f_orders[(t, l[i])]) }
pub open spec fn states_of(s: SV, l: Seq<i64>) -> Seq<TickIdAndState> { Seq::new(l.len(), |i: int| TickIdAndState { tick_id: l[i], tick_state: s.f_tick_state[l[i]] }) }
pub open spec fn owner_keys(s: SV, o: Addr, a: Option<(i64, u64)>, b: Option<(i64, u64)>) -> Seq<(i64, u64)> { listing(orders_by_owner(s, o), incl(a), incl(b), Order::Ascending) }
pub open spec fn tick_owner_keys(s: SV, t: i64, o: Addr, a: Option<(i64, u64)>, b: Option<(i64, u64)>) -> Seq<(i64, u64)> { listing(orders_by_tick_and_owner(s, (t, o)), incl(a), incl(b), Order::Ascending) }
pub open spec fn tick_keys(s: SV, t: i64, a: Option<u64>, b: Option<u64>) -> Seq<u64> { listing(orders_sub(s, t), incl(a), incl(b), Order::Ascending) }
pub open spec fn all_keys(s: SV, a: Option<i64>, b: Option<i64>) -> Seq<i64> { listing(s.f_tick_state.dom(), incl(a), incl(b), Order::Ascending) }
pub open spec fn page_owner(s: SV, f: FilterOwnerOrders, a: Option<(i64, u64)>, b: Option<(i64, u64)>, n: nat, x: Seq<LimitOrder>) -> bool {
  match f {
    FilterOwnerOrders::All(o) => x =~= recs(s, cut(owner_keys(s, o, a, b), n)) && lists(owner_keys(s, o, a, b), orders_by_owner(s, o), incl(a), incl(b), Order::Ascending),
    FilterOwnerOrders::ByTick(t, o) => x =~= recs(s, cut(tick_owner_keys(s, t, o, a, b), n)) && lists(tick_owner_keys(s, t, o, a, b), orders_by_tick_and_owner(s, (t, o)), incl(a), incl(b), Order::Ascending),
  }
}
pub open spec fn q_owner(s: SV, o: Addr, a: Option<(i64, u64)>, b: Option<(i64, u64)>, lim: Option<u64>, x: OrdersResponse) -> bool {
  page_owner(s, FilterOwnerOrders::All(o), a, b, opt_n(lim, 100), x.orders@) && x.count == owner_keys(s, o, None, None).len()
}
pub open spec fn q_tick(s: SV, t: i64, a: Option<u64>, b: Option<u64>, lim: Option<u64>, x: OrdersResponse) -> bool {
  let l = tick_keys(s, t, a, b);
  lists(l, orders_sub(s, t), incl(a), incl(b), Order::Ascending) && x.orders@ =~= tick_recs(s, t, cut(l, opt_n(lim, l.len()))) && x.count == l.len()
}
pub open spec fn q_all(s: SV, a: Option<i64>, b: Option<i64>, lim: Option<usize>, x: TicksResponse) -> bool {
  let l = all_keys(s, a, b);
  lists(l, s.f_tick_state.dom(), incl(a), incl(b), Order::Ascending) && x.ticks@ =~= states_of(s, cut(l, match lim { Some(n) => n as nat, None => l.len() }))
}
pub open spec fn all_known(s: SV, ids: Seq<i64>) -> bool { forall|i: int| 0 <= i < ids.len() ==> has_tick(s, #[trigger] ids[i]) }
// ---- quotes ----
pub open spec fn quoted(s: SV, ti: Coin, to: String, x: CalcOutAmtGivenInResponse) -> bool {
  x.token_out.denom@ == to@ && x.token_out.amount@ == num_str(req_run(s, ti, to, None).out)
}
pub open spec fn spot(s: SV, q: Seq<char>, b: Seq<char>) -> nat {
  let k = s.f_orderbook->0;
  match pair_dir(k, b, q)->0 { OrderDirection::Ask => ladder(k.next_bid_tick as int), OrderDirection::Bid => E18() * E18() / ladder(k.next_ask_tick as int) }
}
pub open spec fn spot_ok(s: SV, q: Seq<char>, b: Seq<char>) -> bool {
  q != b && s.f_orderbook is Some && pair_dir(s.f_orderbook->0, b, q) is Some && in_range(match pair_dir(s.f_orderbook->0, b, q)->0 { OrderDirection::Ask => s.f_orderbook->0.next_bid_tick as int, OrderDirection::Bid => s.f_orderbook->0.next_ask_tick as int })
}
pub open spec fn pool(s: SV, x: Seq<Coin>) -> bool {
  let k = s.f_orderbook->0;
  x.len() == 2 && x[0].denom@ == k.base_denom@ && x[0].amount@ == dliq(s, OrderDirection::Ask) / E18() && x[1].denom@ == k.quote_denom@ && x[1].amount@ == dliq(s, OrderDirection::Bid) / E18()
}
pub open spec fn ticks_at(src: Seq<StdResult<(i64, TickState)>>, out: Seq<TickIdAndState>, n: int) -> bool {
  out.len() == n && forall|j: int| 0 <= j < n ==> (#[trigger] out[j]) == (TickIdAndState { tick_id: src[j]->Ok_0.0, tick_state: src[j]->Ok_0.1 })
}
pub open spec fn snds_at<K>(src: Seq<StdResult<(K, LimitOrder)>>, out: Seq<LimitOrder>, n: int) -> bool {
  out.len() == n && forall|j: int| 0 <= j < n ==> (#[trigger] out[j]) == src[j]->Ok_0.1
}
pub proof fn lem_inv() ensures forall|l: nat| l >= 1_000_000 ==> #[trigger] (E18() * E18() / l) < P128() {
  assert forall|l: nat| l >= 1_000_000 implies #[trigger] (E18() * E18() / l) < P128() by {
    let q = E18() * E18() / l;
    assert(q * l <= E18() * E18()) by (nonlinear_arith) requires q == E18() * E18() / l, l > 0;
    assert(q * 1_000_000 <= q * l) by (nonlinear_arith) requires l >= 1_000_000;
  }
}
// the answer of the query entry point
pub open spec fn q_calc(s: SV, ti: Coin, to: String, f: Decimal, r: ContractResult<Binary>) -> bool {
  (r is Ok <==> swap_req(s, ti, to, f, None)) && (r is Ok ==> exists|x: CalcOutAmtGivenInResponse| r->Ok_0.at@ == #[trigger] jdoc(x) && quoted(s, ti, to, x))
}
pub open spec fn q_auth(s: SV, m: AuthQueryMsg) -> Option<Addr> {
  match m { AuthQueryMsg::Admin { } => s.f_admin, AuthQueryMsg::AdminOffer { } => s.f_admin_offer, AuthQueryMsg::Moderator { } => s.f_moderator, AuthQueryMsg::ModeratorOffer { } => s.f_moderator_offer }
}
pub open spec fn q0(s: SV, msg: QueryMsg, r: ContractResult<Binary>) -> bool {
  msg is SpotPrice ==> (r is Ok <==> spot_ok(s, msg->SpotPrice_quote_asset_denom@, msg->SpotPrice_base_asset_denom@)) && (r is Ok ==> is_doc(r->Ok_0, SpotPriceResponse { spot_price: Decimal { at: Ghost(spot(s, msg->SpotPrice_quote_asset_denom@, msg->SpotPrice_base_asset_denom@)) } }))
}
pub open spec fn q1(s: SV, msg: QueryMsg, r: ContractResult<Binary>) -> bool {
  msg is CalcOutAmountGivenIn ==> q_calc(s, msg->CalcOutAmountGivenIn_token_in, msg->CalcOutAmountGivenIn_token_out_denom, msg->CalcOutAmountGivenIn_swap_fee, r)
}
pub open spec fn q2(s: SV, msg: QueryMsg, r: ContractResult<Binary>) -> bool {
  msg is CalcOutAmtGivenIn ==> q_calc(s, msg->CalcOutAmtGivenIn_token_in, msg->CalcOutAmtGivenIn_token_out_denom, msg->CalcOutAmtGivenIn_swap_fee, r)
}
pub open spec fn q3(s: SV, msg: QueryMsg, r: ContractResult<Binary>) -> bool {
  msg is GetTotalPoolLiquidity && r is Ok ==> exists|x: GetTotalPoolLiquidityResponse| r->Ok_0.at@ == #[trigger] jdoc(x) && pool(s, x.total_pool_liquidity@)
}
pub open spec fn q4(s: SV, msg: QueryMsg, r: ContractResult<Binary>) -> bool {
  msg is AllTicks ==> r is Ok && exists|x: TicksResponse| r->Ok_0.at@ == #[trigger] jdoc(x) && q_all(s, msg->AllTicks_start_from, msg->AllTicks_end_at, msg->AllTicks_limit, x)
}
pub open spec fn q5(s: SV, msg: QueryMsg, r: ContractResult<Binary>) -> bool {
  msg is IsActive ==> r is Ok && is_doc(r->Ok_0, active(s))
}
pub open spec fn q6(s: SV, msg: QueryMsg, r: ContractResult<Binary>) -> bool {
  msg is GetSwapFee ==> r is Ok && is_doc(r->Ok_0, GetSwapFeeResponse { swap_fee: Decimal { at: Ghost(0) } })
}
pub open spec fn q7(s: SV, msg: QueryMsg, r: ContractResult<Binary>) -> bool {
  msg is OrdersByOwner ==> r is Ok && exists|x: OrdersResponse| r->Ok_0.at@ == #[trigger] jdoc(x) && q_owner(s, msg->owner, msg->OrdersByOwner_start_from, msg->OrdersByOwner_end_at, msg->OrdersByOwner_limit, x)
}
pub open spec fn q8(s: SV, msg: QueryMsg, r: ContractResult<Binary>) -> bool {
  msg is OrdersByTick ==> r is Ok && exists|x: OrdersResponse| r->Ok_0.at@ == #[trigger] jdoc(x) && q_tick(s, msg->tick_id, msg->OrdersByTick_start_from, msg->OrdersByTick_end_at, msg->OrdersByTick_limit, x)
}
pub open spec fn q9(s: SV, msg: QueryMsg, r: ContractResult<Binary>) -> bool {
  msg is TicksById ==> (r is Ok <==> all_known(s, msg->TicksById_tick_ids@)) && (r is Ok ==> exists|x: TicksResponse| r->Ok_0.at@ == #[trigger] jdoc(x) && x.ticks@ =~= states_of(s, msg->TicksById_tick_ids@))
}
pub open spec fn q10(s: SV, msg: QueryMsg, r: ContractResult<Binary>) -> bool {
  msg is OrderbookState && r is Ok ==> s.f_orderbook is Some && is_doc(r->Ok_0, s.f_orderbook->0)
}
pub open spec fn q11(s: SV, msg: QueryMsg, r: ContractResult<Binary>) -> bool {
  msg is Denoms ==> (r is Ok <==> s.f_orderbook is Some) && (r is Ok ==> exists|x: DenomsResponse| r->Ok_0.at@ == #[trigger] jdoc(x) && x.quote_denom@ == s.f_orderbook->0.quote_denom@ && x.base_denom@ == s.f_orderbook->0.base_denom@)
}
pub open spec fn q12(s: SV, msg: QueryMsg, r: ContractResult<Binary>) -> bool {
  msg is GetMakerFee ==> r is Ok && is_doc(r->Ok_0, d256(fee(s)))
}
pub open spec fn q13(s: SV, msg: QueryMsg, r: ContractResult<Binary>) -> bool {
  msg is Auth ==> r is Ok && is_doc(r->Ok_0, q_auth(s, msg->Auth_0))
}
pub open spec fn q14(s: SV, msg: QueryMsg, r: ContractResult<Binary>) -> bool {
  msg is GetUnrealizedCancels && r is Ok ==> exists|x: GetUnrealizedCancelsResponse| r->Ok_0.at@ == #[trigger] jdoc(x) && unr_list(s, msg->GetUnrealizedCancels_tick_ids@, x.ticks@)
}
