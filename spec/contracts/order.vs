fn order::place_limit(deps, env, info, tick_id, order_direction, quantity, claim_bounty) -> r
  @live C03
    next_id($pre) < u64::MAX
  @ensures C03 C23
    r is Ok ==> place_ok($pre, info, tick_id, order_direction, quantity, claim_bounty),
  @ensures C03 C04 C11 C12 C13 C14
    r is Ok ==> $post =~= placed($pre, env, info, tick_id, order_direction, quantity, claim_bounty) && next_id($pre) < u64::MAX,
  @ensures C03 C24
    r is Ok ==> r->Ok_0.messages@.len() == 0
  @ensures C03
    place_ok($pre, info, tick_id, order_direction, quantity, claim_bounty) && gtv($pre, tick_id, order_direction).cumulative_total_value@ + quantity@ * E18() < P256()
      && gtv($pre, tick_id, order_direction).total_amount_of_liquidity@ + quantity@ * E18() < P256() && dliq($pre, order_direction) + quantity@ * E18() < P256() ==> r is Ok

fn order::claim_order(storage, contract_address, sender, tick_id, order_id) -> r
  @live C06 C07 C20
    claim_live($pre, tick_id)
  @attr #[verifier::rlimit(120)]
  @ensures C06 C07
    r is Ok ==> cl_owed($pre, $post, tick_id, order_id),
  @ensures C04 C06 C07 C14
    r is Ok ==> cl_book($pre, $post, tick_id, order_id) && r->Ok_0.2 == cl_new($pre, $post, tick_id, order_id),
  @ensures C06 C07 C22 C24
    r is Ok ==> cl_pay($pre, $post, contract_address@, sender@, tick_id, order_id, r->Ok_0.1@) && r->Ok_0.0@ == cl_net($pre, $post, tick_id, order_id),
  @ensures C12 C15
    r is Ok ==> folded($pre, $post, tick_id),
  @ensures C07 C20
    r is Err ==> cl_err($pre, $post, tick_id, order_id),
  @ensures C06 C07 C20
    cl_sure($pre, tick_id, order_id) ==> r is Ok,
  @ensures C07
    room_kept($pre, $post, tick_id)
  @entry
    proof { lem_share_all(); lem_fits_at(tick_id as int); lem_value_all(tick_id as int); lem_room_same(storage.sv@, tick_id); assert(roots_by(storage.sv@, storage.sv@.f_tree, storage.sv@.f_node_id, tick_id, false, false)); }

fn order::cancel_limit(deps, _env, info, tick_id, order_id) -> r
  @live C05 C16
    cancel_live($pre, tick_id, order_id)
  @ensures C05
    r is Ok && ord_keyed($pre, tick_id, order_id) ==> cancel_ok($pre, $post, info, tick_id, order_id),
  @ensures C04 C05 C11 C12 C14
    r is Ok && ord_keyed($pre, tick_id, order_id) ==> cancelled($pre, $post, tick_id, order_id),
  @ensures C05 C22 C24
    r is Ok && ord_keyed($pre, tick_id, order_id) ==> refunded($pre, _env.contract.address@, tick_id, order_id, r->Ok_0.messages@),
  @ensures C12 C14 C16 C17
    r is Ok && ord_keyed($pre, tick_id, order_id) && canc_fit($pre, tick_id, $pre.f_orders[(tick_id, order_id)]) ==> canc_idx($pre, $post, tick_id, $pre.f_orders[(tick_id, order_id)]),
  @ensures C05 C12 C15
    r is Ok && ord_keyed($pre, tick_id, order_id) ==> fold_vals($pre, $post, tick_id),
  @ensures C05 C16
    ord_keyed($pre, tick_id, order_id) && canc_sure($pre, info, tick_id, order_id) ==> r is Ok
  @entry
    proof { let vx_s = deps.storage.sv@; let vx_o = vx_s.f_orders[(tick_id, order_id)]; if canc_fit(vx_s, tick_id, vx_o) { lem_cx_all(vx_s, tick_id, vx_o); } }

fn order::claim_limit(deps, env, info, tick_id, order_id) -> r
  @live C06 C07 C20
    claim_live($pre, tick_id)
  @ensures C06 C07 C22
    r is Ok ==> info.funds@.len() == 0 && claimed($pre, $post, env.contract.address@, info.sender@, tick_id, order_id, r->Ok_0.messages@),
  @ensures C06 C20
    info.funds@.len() == 0 && cl_sure($pre, tick_id, order_id) ==> r is Ok

fn order::batch_claim_limits(deps, info, env, entries) -> r
  @live C07
    ticks_room($pre, 200)
  @flag isolated
  @ensures C07
    r is Ok <==> info.funds@.len() == 0 && entries@.len() <= 100 && $pre.f_orderbook is Some,
  @ensures C06 C07 C22
    r is Ok ==> batch($pre, $post, env.contract.address@, info.sender@, entries@, r->Ok_0.messages@)
  @loop 0
    invariant vx_src0@ == entries@, vx_i0 <= vx_src0@.len(), vx_src0@.len() <= 100, live() ==> ticks_room(deps.storage.sv@, 200 - 2 * vx_i0), batch(old(deps.storage).sv@, deps.storage.sv@, env.contract.address@, info.sender@, vx_src0@.take(vx_i0 as int), responses@),
    ensures vx_i0 == vx_src0@.len(), vx_src0@.take(vx_src0@.len() as int) =~= vx_src0@, vx_src0@ == entries@, batch(old(deps.storage).sv@, deps.storage.sv@, env.contract.address@, info.sender@, vx_src0@, responses@),
  @before vx_take
    proof { lem_batch_all(old(deps.storage).sv@, deps.storage.sv@, env.contract.address@, info.sender@, vx_src0@, responses@, vx_i0 as int); }

fn sumtree::node::TreeNode::save(self, storage) -> r
  @ensures C05 C16
    r is Ok && $post == (SV { f_nodes: $pre.f_nodes.insert((self.tick_id, self.key), *self), ..$pre })
