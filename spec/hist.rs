// ---- histories: whatever messages are accepted, in whatever order ----
pub open spec fn exec_ok(s: SV, r: SV, env: Env, info: MessageInfo, msg: ExecuteMsg, m: Seq<SubMsg>) -> bool { exec_step(s, r, env, info, msg, m) }
pub open spec fn sudo_ok(s: SV, r: SV, msg: SudoMsg) -> bool { sudo_accepts(s, msg) && sudo_lists(s, msg) && r == sudo_state(s, msg) }
pub open spec fn any_exec(s: SV, r: SV) -> bool { exists|env: Env, info: MessageInfo, msg: ExecuteMsg, m: Seq<SubMsg>| #[trigger] exec_ok(s, r, env, info, msg, m) }
pub open spec fn any_sudo(s: SV, r: SV) -> bool { exists|msg: SudoMsg| #[trigger] sudo_ok(s, r, msg) }
// one accepted message; a refused one leaves the state as it was
pub open spec fn step(s: SV, r: SV) -> bool { r == s || any_exec(s, r) || any_sudo(s, r) }
// the states of a book since its instantiation
pub open spec fn history(h: Seq<SV>) -> bool {
  &&& h.len() > 0 && (exists|s: SV, q: String, b: String| empty_store(s) && #[trigger] fresh(s, q, b) == h[0])
  &&& forall|i: int| 0 <= i < h.len() - 1 ==> #[trigger] step(h[i], h[i + 1])
}
pub proof fn lem_exec_cancel(s: SV, r: SV, env: Env, info: MessageInfo, t: i64, id: u64, m: Seq<SubMsg>)
  requires inv(s), exec_step(s, r, env, info, ExecuteMsg::CancelLimit { tick_id: t, order_id: id }, m)
  ensures canc_step(s, r, t, id), cancel_ok(s, r, info, t, id), refunded(s, env.contract.address@, t, id, m)
{
  assert(ord_keyed(s, t, id)) by { if s.f_orders.dom().contains((t, id)) { assert(o_ok(s, t, id)); } }
}
pub proof fn lem_inv_exec(s: SV, r: SV, env: Env, info: MessageInfo, msg: ExecuteMsg, m: Seq<SubMsg>)
  requires inv(s), exec_step(s, r, env, info, msg, m)
  ensures inv(r)
{
  hide(inv); hide(claimed); hide(batch); hide(canc_step); hide(cancel_ok); hide(refunded); hide(cancelled); hide(fold_vals); hide(canc_fit); hide(canc_idx);
  match msg {
    ExecuteMsg::PlaceLimit { tick_id, order_direction, quantity, claim_bounty } => { assert(r == placed(s, env, info, tick_id, order_direction, quantity, claim_bounty)); lem_inv_place(s, env, info, tick_id, order_direction, quantity, claim_bounty); }
    ExecuteMsg::CancelLimit { tick_id, order_id } => { lem_exec_cancel(s, r, env, info, tick_id, order_id, m); lem_inv_cancel(s, r, tick_id, order_id); }
    ExecuteMsg::ClaimLimit { tick_id, order_id } => { lem_inv_claim(s, r, env.contract.address@, info.sender@, tick_id, order_id, m); }
    ExecuteMsg::BatchClaim { orders } => { lem_inv_batch(s, r, env.contract.address@, info.sender@, orders@, m); }
    ExecuteMsg::Auth(a) => { lem_inv_auth(s, r, info.sender, a); }
  }
}
pub proof fn lem_sudo_swap(s: SV, sender: Seq<char>, ti: Coin, to: String, min: Uint128, fee: Decimal, target: Option<i64>)
  requires swap_accepts(s, sender, ti, to, min, fee, target), req_lists(s, ti, to, target)
  ensures swap_step(s, swap_dir(s, ti, to)->0, ti.amount@, bound_of(swap_dir(s, ti, to)->0, target)), req_swapped(s, ti, to, target) == swapped(s, swap_dir(s, ti, to)->0, ti.amount@, bound_of(swap_dir(s, ti, to)->0, target))
{}
pub proof fn lem_inv_sudo(s: SV, msg: SudoMsg)
  requires inv(s), sudo_accepts(s, msg), sudo_lists(s, msg)
  ensures inv(sudo_state(s, msg))
{
  hide(inv); hide(swap_accepts); hide(req_lists); hide(req_swapped);
  match msg {
    SudoMsg::SwapExactAmountIn { sender, token_in, token_out_denom, token_out_min_amount, swap_fee } => {
      lem_sudo_swap(s, sender@, token_in, token_out_denom, token_out_min_amount, swap_fee, None);
      let d = swap_dir(s, token_in, token_out_denom)->0; lem_inv_swap(s, d, token_in.amount@, bound_of(d, None));
    }
    SudoMsg::SwapToTick { sender, token_in, token_out_denom, token_out_min_amount, swap_fee, target_tick } => {
      lem_sudo_swap(s, sender@, token_in, token_out_denom, token_out_min_amount, swap_fee, Some(target_tick));
      let d = swap_dir(s, token_in, token_out_denom)->0; lem_inv_swap(s, d, token_in.amount@, bound_of(d, Some(target_tick)));
    }
    _ => { assert(conf_ok(s)) by { reveal(inv); } lem_inv_book(s, sudo_state(s, msg)); }
  }
}
pub proof fn lem_inv_step(s: SV, r: SV)
  requires inv(s), step(s, r)
  ensures inv(r)
{
  hide(inv); hide(exec_step);
  if any_exec(s, r) { let (env, info, msg, m) = choose|env: Env, info: MessageInfo, msg: ExecuteMsg, m: Seq<SubMsg>| #[trigger] exec_ok(s, r, env, info, msg, m); lem_inv_exec(s, r, env, info, msg, m); }
  else if any_sudo(s, r) { let msg = choose|msg: SudoMsg| #[trigger] sudo_ok(s, r, msg); lem_inv_sudo(s, msg); }
}
// the invariant holds in every state of every history
pub proof fn prop_C11_C12_C13_C14_C20_C22_every_state(h: Seq<SV>, i: int)
  requires history(h), 0 <= i < h.len()
  ensures inv(h[i])
  decreases i
{
  hide(inv); hide(step);
  if i == 0 { let (s, q, b) = choose|s: SV, q: String, b: String| empty_store(s) && #[trigger] fresh(s, q, b) == h[0]; lem_inv_fresh(s, q, b); }
  else { prop_C11_C12_C13_C14_C20_C22_every_state(h, i - 1); assert(step(h[i - 1], h[i - 1 + 1])); lem_inv_step(h[i - 1], h[i]); }
}
