fn sudo::ensure_swap_fee(fee) -> r
  @ensures C10 C21
    r is Ok <==> fee@ == 0

fn sudo::validate_output_amount(max_in_amount, min_out_amount, input, output) -> r
  @ensures C10
    r is Ok <==> input.amount@ <= max_in_amount@ && output.amount@ >= min_out_amount@ && output.denom@ != input.denom@

fn sudo::dispatch_swap_exact_amount_out(_deps, _sender, _token_in_denom, _token_in_max_amount, _token_out, _swap_fee) -> r
  @live C10
    false
  @ensures C10 C19
    r is Err

fn sudo::dispatch_swap_exact_amount_in(deps, env, sender, token_in, token_out_denom, token_out_min_amount, swap_fee, target_tick) -> r
  @live C08 C10
    req_fits($pre, token_in, token_out_denom, target_tick)
  @attr #[verifier::rlimit(40)]
  @ensures C10
    r is Ok ==> swap_accepts($pre, sender@, token_in, token_out_denom, token_out_min_amount, swap_fee, target_tick),
  @ensures C10 C21
    swap_accepts($pre, sender@, token_in, token_out_denom, token_out_min_amount, swap_fee, target_tick) ==> r is Ok,
  @ensures C08 C09 C11 C12 C13 C14
    r is Ok ==> $post =~= req_swapped($pre, token_in, token_out_denom, target_tick),
  @ensures C09 C13
    r is Ok ==> req_lists($pre, token_in, token_out_denom, target_tick),
  @ensures C10 C22 C24
    r is Ok ==> swap_msgs($pre, env.contract.address@, sender@, token_in, token_out_denom, target_tick, r->Ok_0.messages@),
  @ensures C10 C21
    r is Ok ==> swap_data($pre, token_in, token_out_denom, target_tick, r->Ok_0.data)

fn sudo::sudo(deps, env, msg) -> r
  @live C08 C10
    sudo_live($pre, msg)
  @ensures C18 C19
    r is Ok ==> active($pre),
  @ensures C10
    r is Ok ==> sudo_accepts($pre, msg),
  @ensures C10 C18 C21
    active($pre) && sudo_accepts($pre, msg) ==> r is Ok,
  @ensures C04 C08 C09 C11 C12 C13 C14 C18 C19 C20
    r is Ok ==> $post =~= sudo_state($pre, msg),
  @ensures C09 C13
    r is Ok ==> sudo_lists($pre, msg),
  @ensures C10 C22 C24
    r is Ok ==> sudo_msgs($pre, env, msg, r->Ok_0.messages@),
  @ensures C10 C21
    r is Ok ==> sudo_data($pre, msg, r->Ok_0.data)

fn contract::dispatch_place_limit(deps, env, info, tick_id, order_direction, quantity, claim_bounty) -> r
  @live C03
    next_id($pre) < u64::MAX
  @ensures C03 C23
    r is Ok ==> place_ok($pre, info, tick_id, order_direction, quantity, claim_bounty),
  @ensures C03 C04 C11 C12 C13 C14
    r is Ok ==> $post =~= placed($pre, env, info, tick_id, order_direction, quantity, claim_bounty) && next_id($pre) < u64::MAX,
  @ensures C03 C24
    r is Ok ==> r->Ok_0.messages@.len() == 0
  @ensures C03
    place_ok($pre, info, tick_id, order_direction, quantity, claim_bounty) && gtv($pre, tick_id, order_direction).cumulative_total_value@ + quantity@ * E18() < P256()
      && gtv($pre, tick_id, order_direction).total_amount_of_liquidity@ + quantity@ * E18() < P256() && dliq($pre, order_direction) + quantity@ * E18() < P256() ==> r is Ok

fn contract::execute(deps, env, info, msg) -> r
  @live C03 C05 C06 C07 C18 C20
    exec_live($pre, msg)
  @ensures C19
    r is Ok ==> active($pre) || msg is Auth,
  @ensures C18 C19
    msg is Auth ==> (r is Ok <==> auth_ok($pre, info.sender, msg->Auth_0)),
  @ensures C03 C04 C05 C06 C07 C11 C12 C13 C14 C18 C19 C20 C22
    r is Ok ==> exec_step($pre, $post, env, info, msg, r->Ok_0.messages@),
  @ensures C24
    r is Ok && !(msg is BatchClaim) && (msg is CancelLimit ==> ord_keyed($pre, msg->CancelLimit_tick_id, msg->CancelLimit_order_id)) ==> all_guarded(r->Ok_0)
  @ensures C07
    msg is BatchClaim && active($pre) && $pre.f_orderbook is Some && info.funds@.len() == 0 && msg->orders@.len() <= 100 ==> r is Ok
  @ensures C03
    active($pre) && msg is PlaceLimit && place_ok($pre, info, msg->PlaceLimit_tick_id, msg->order_direction, msg->quantity, msg->claim_bounty) && gtv($pre, msg->PlaceLimit_tick_id, msg->order_direction).cumulative_total_value@ + msg->quantity@ * E18() < P256()
      && gtv($pre, msg->PlaceLimit_tick_id, msg->order_direction).total_amount_of_liquidity@ + msg->quantity@ * E18() < P256() && dliq($pre, msg->order_direction) + msg->quantity@ * E18() < P256() ==> r is Ok

fn contract::reply(_deps, _env, msg) -> r
  @ensures C24
    (r is Ok <==> msg.result is Ok),
  @ensures C24
    r is Ok ==> r->Ok_0.messages@.len() == 0 && $post == $pre

fn contract::migrate(_deps, _env, _msg) -> r
  @ensures C24
    r is Ok ==> r->Ok_0.messages@.len() == 0 && $post == $pre

fn contract::instantiate(deps, _env, _info, msg) -> r
  @ensures C24
    r is Ok ==> msg.quote_denom@ != msg.base_denom@ && supplied(old(deps.storage).sv@, deps.querier, msg.quote_denom@) && supplied(old(deps.storage).sv@, deps.querier, msg.base_denom@),
  @ensures C13 C18 C20 C24
    r is Ok ==> $post =~= fresh($pre, msg.quote_denom, msg.base_denom),
  @ensures C24
    r is Ok ==> r->Ok_0.messages@.len() == 0
