fn state::new_order_id(storage) -> r
  @live C03
    next_id($pre) < u64::MAX
  @ensures C03 C04
    r is Ok && r->Ok_0 == next_id($pre) && next_id($pre) < u64::MAX && $post == (SV { f_order_id: Some((next_id($pre) + 1) as u64), ..$pre })

fn state::get_directional_liquidity(storage, direction) -> r
  @ensures C11
    r is Ok && r->Ok_0@ == dliq($pre, direction)

fn state::add_directional_liquidity(storage, direction, amount) -> r
  @ensures C11
    r is Ok ==> $post =~= add_liq($pre, direction, amount@)
  @ensures C03 C11
    r is Ok <==> dliq($pre, direction) + amount@ < P256()

fn state::subtract_directional_liquidity(storage, direction, amount) -> r
  @ensures C11
    r is Ok <==> dliq($pre, direction) >= amount@
  @ensures C11
    r is Ok ==> $post =~= sub_liq($pre, direction, amount@)

fn sumtree::node::generate_node_id(storage, tick_id) -> r
  @live C05 C16
    node_ctr($pre, tick_id) < u64::MAX
  @ensures C16
    r is Ok && node_ctr($pre, tick_id) < u64::MAX && r->Ok_0 == node_ctr($pre, tick_id) + 1 && $post =~= bump_ctr($pre, tick_id)

fn sumtree::node::NodeType::leaf(etas, value) -> r
  @ensures C16
    r == (NodeType::Leaf { value: value, etas: etas })

fn sumtree::node::TreeNode::new(tick_id, direction, key, node_type) -> r
  @ensures C16
    r == (TreeNode { key: key, tick_id: tick_id, direction: direction, left: None, right: None, parent: None, node_type: node_type })

fn sumtree::tree::get_root_node(storage, tick_id, direction) -> r
  @ensures C15 C16 C26
    r is Ok <==> has_root($pre, tick_id, direction),
  @ensures C15 C16 C26
    r is Ok ==> r->Ok_0 == root_node($pre, tick_id, direction)

fn sumtree::tree::get_or_init_root_node(storage, tick_id, direction) -> r
  @live C05 C06 C07 C15 C16 C20
    !has_root($pre, tick_id, direction) ==> node_ctr($pre, tick_id) < u64::MAX
  @ensures C15 C16
    r is Ok && r->Ok_0 == root_node($pre, tick_id, direction) && $post =~= root_state($pre, tick_id, direction),
  @ensures C15 C16
    !has_root($pre, tick_id, direction) ==> node_ctr($pre, tick_id) < u64::MAX

fn tick::sync_tick(storage, tick_id, current_tick_bid_etas, current_tick_ask_etas) -> r
  @live C05 C06 C07 C15 C20
    has_tick($pre, tick_id) ==> room($pre, tick_id, 2)
  @ensures C05 C06 C07 C11 C12 C15
    r is Ok ==> synced($pre, $post, tick_id, current_tick_bid_etas@, current_tick_ask_etas@),
  @ensures C07
    r is Err ==> sync_frame($pre, $post, tick_id) && $post.f_tick_state == $pre.f_tick_state
  @ensures C16 C17
    roots_init($pre, $post, tick_id),
  @ensures C07
    room_kept($pre, $post, tick_id),
  @ensures C12 C15
    r is Ok && idx_ok($pre, tick_id) ==> sync_val($pre, $post, tick_id, OrderDirection::Bid, current_tick_bid_etas@) && sync_val($pre, $post, tick_id, OrderDirection::Ask, current_tick_ask_etas@),
  @ensures C07 C15
    has_tick($pre, tick_id) && idx_ok($pre, tick_id) && sync_fits($pre, tick_id, OrderDirection::Bid, current_tick_bid_etas@) && sync_fits($pre, tick_id, OrderDirection::Ask, current_tick_ask_etas@) ==> r is Ok
  @entry
    proof { lem_dir_key(OrderDirection::Bid); lem_sync_all(storage.sv@, tick_id); }
