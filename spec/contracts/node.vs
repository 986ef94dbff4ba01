fn sumtree::node::NodeType::internal(accumulator, range) -> r
  @ensures C16
    r == (NodeType::Internal { accumulator: accumulator, range: range, weight: 0 })

fn sumtree::node::TreeNode::is_internal(self) -> r
  @ensures C15 C16 C17 C26
    r == inner(*self)

fn sumtree::node::TreeNode::get_right(self, storage) -> r
  @ensures C15 C16 C17 C26
    r is Ok && r->Ok_0 == rc($pre.f_nodes, *self)

fn sumtree::node::TreeNode::get_left(self, storage) -> r
  @ensures C15 C16 C17 C26
    r is Ok && r->Ok_0 == lc($pre.f_nodes, *self)

fn sumtree::node::TreeNode::get_parent(self, storage) -> r
  @ensures C16 C17
    r is Ok && r->Ok_0 == at_key($pre.f_nodes, self.tick_id, self.parent)

fn sumtree::node::TreeNode::has_child(self) -> r
  @ensures C16 C17
    r == (self.left is Some || self.right is Some)

fn sumtree::node::TreeNode::sync(self, storage) -> r
  @ensures C16 C17
    r is Ok <==> $pre.f_nodes.dom().contains((old(self).tick_id, old(self).key)),
  @ensures C16 C17
    r is Ok ==> *final(self) == $pre.f_nodes[(old(self).tick_id, old(self).key)]

fn sumtree::node::TreeNode::get_max_range(self) -> r
  @live C05 C06 C07 C15 C16 C20 C26
    nhi(*self) < P256()
  @ensures C15 C16 C26
    r@ == nhi(*self)

fn sumtree::node::TreeNode::get_min_range(self) -> r
  @ensures C15 C16 C26
    r@ == nlo(*self)

fn sumtree::node::TreeNode::set_max_range(self, new_max) -> r
  @ensures C16
    match old(self).node_type { NodeType::Internal { accumulator, range, weight } => r is Ok && *final(self) == (TreeNode { node_type: NodeType::Internal { accumulator: accumulator, range: (range.0, new_max), weight: weight }, ..*old(self) }), NodeType::Leaf { .. } => r is Err && *final(self) == *old(self) }

fn sumtree::node::TreeNode::set_min_range(self, new_min) -> r
  @ensures C16
    match old(self).node_type { NodeType::Internal { accumulator, range, weight } => r is Ok && *final(self) == (TreeNode { node_type: NodeType::Internal { accumulator: accumulator, range: (new_min, range.1), weight: weight }, ..*old(self) }), NodeType::Leaf { .. } => r is Err && *final(self) == *old(self) }

fn sumtree::node::TreeNode::set_value(self, value) -> r
  @ensures C16
    match old(self).node_type { NodeType::Internal { accumulator, range, weight } => r is Ok && *final(self) == (TreeNode { node_type: NodeType::Internal { accumulator: value, range: range, weight: weight }, ..*old(self) }), NodeType::Leaf { .. } => r is Err && *final(self) == *old(self) }

fn sumtree::node::TreeNode::set_weight(self, new_weight) -> r
  @ensures C16 C17
    match old(self).node_type { NodeType::Internal { accumulator, range, weight } => r is Ok && *final(self) == (TreeNode { node_type: NodeType::Internal { accumulator: accumulator, range: range, weight: new_weight }, ..*old(self) }), NodeType::Leaf { .. } => r is Err && *final(self) == *old(self) }

fn sumtree::node::TreeNode::get_weight(self) -> r
  @ensures C16 C17
    r == nwt(*self)

fn sumtree::node::TreeNode::get_value(self) -> r
  @ensures C15 C16 C26
    r@ == nval(*self)

fn sumtree::node::TreeNode::in_or_below_range(self, node) -> r
  @live C05 C16
    nhi(node) < P256()
  @ensures C16
    r == (nlo(*self) < nhi(node))

fn sumtree::node::TreeNode::in_or_above_range(self, node) -> r
  @ensures C16
    r == (nlo(*self) >= nlo(node))

fn sumtree::node::TreeNode::below_range(self, node) -> r
  @live C05 C16
    nhi(*self) < P256()
  @ensures C16
    r == (nhi(*self) <= nlo(node))

fn sumtree::node::TreeNode::above_range(self, node) -> r
  @live C05 C16
    nhi(node) < P256()
  @ensures C16
    r == (nlo(*self) >= nhi(node))

fn sumtree::node::TreeNode::get_balance_factor(self, storage) -> r
  @live C05 C16 C17
    w_of(lc($pre.f_nodes, *self)) <= i32::MAX && w_of(rc($pre.f_nodes, *self)) <= i32::MAX
  @ensures C17
    r is Ok,
  @ensures C17
    w_of(lc($pre.f_nodes, *self)) <= i32::MAX && w_of(rc($pre.f_nodes, *self)) <= i32::MAX ==> r->Ok_0 == w_of(rc($pre.f_nodes, *self)) - w_of(lc($pre.f_nodes, *self))

fn sumtree::node::TreeNode::sync_range_and_value(self, storage) -> r
  @live C05 C16
    sync_live($pre.f_nodes, *self)
  @ensures C05
    idx_only($pre, $post),
  @ensures C16
    r is Err ==> $post == $pre,
  @ensures C16 C17
    ({ let l = lc($pre.f_nodes, *old(self)); let rr = rc($pre.f_nodes, *old(self));
       inner(*old(self)) && (l is Some || rr is Some) ==> (r is Ok <==> v_of(l) + v_of(rr) < P256()) && (r is Ok ==> *final(self) == resum(*old(self), l, rr) && w_of(l) < u64::MAX && w_of(rr) < u64::MAX && $post == put_node($pre, *final(self))) })

fn sumtree::node::TreeNode::split(self, storage, new_node) -> r
  @live C05 C16
    node_ctr($pre, self.tick_id) < u64::MAX && nhi(*self) < P256() && nhi(*new_node) < P256()
  @ensures C05
    idx_only($pre, $post),
  @ensures C16
    ({ let x = *old(self); let y = *old(new_node);
       !inner(x) && x.tick_id == y.tick_id && x.direction == y.direction ==> (r is Ok <==> apart(x, y) && nval(x) + nval(y) < P256())
        && (r is Ok ==> node_ctr($pre, x.tick_id) < u64::MAX && r->Ok_0 == node_ctr($pre, x.tick_id) + 1 && *final(self) == with_parent(x, r->Ok_0) && *final(new_node) == with_parent(y, r->Ok_0)
          && (x.key != y.key && x.key <= node_ctr($pre, x.tick_id) && y.key <= node_ctr($pre, x.tick_id) ==> $post =~= (SV { f_nodes: $post.f_nodes, ..split_state($pre, x, y) }) && $post.f_nodes =~= split_state($pre, x, y).f_nodes)) })

fn sumtree::node::TreeNode::insert(self, storage, new_node) -> r
  @live C05 C16
    ins_live($pre, *self, *new_node)
  @measure
    g_ht(g_of($pre.f_nodes, *self))
  @attr #[verifier::rlimit(60)]
  @ensures C05
    idx_only($pre, $post),
  @ensures C16
    zero_pre(*old(self), *old(new_node)) ==> r is Ok && zero_post($pre, $post, *old(self), *old(new_node), *final(self)),
  @ensures C16
    one_pre($pre, *old(self), *old(new_node)) ==> r is Ok && one_post($pre, $post, *old(self), *old(new_node), *final(self)),
  @ensures C16 C17
    ({ let x = *old(self); let y = *old(new_node); let g = g_of($pre.f_nodes, x);
       ins_pre($pre, x, y, g) ==> r is Ok && exists|g2: GT| #[trigger] ins_post($pre, $post, x, y, *final(self), g, g2) }),
  @ensures C16
    ovl_pre($pre, *old(self), *old(new_node), g_of($pre.f_nodes, *old(self))) ==> r is Err,
  @ensures C05 C16 C17
    cx_told($pre, $post, r is Ok, *old(self), *old(new_node), *final(self))
  @entry
    let ghost vx_s = storage.sv@; let ghost vx_x = *self; let ghost vx_y = *new_node; let ghost vx_g = g_of(vx_s.f_nodes, vx_x);
    let ghost vx_p = ins_pre(vx_s, vx_x, vx_y, vx_g);
    proof { lem_cx_told(vx_s, vx_x, vx_y); }
    proof { if ovl_pre(vx_s, vx_x, vx_y, vx_g) { lem_ovl(vx_s, vx_x, vx_y, vx_g); lem_loaded(vx_s, vx_x, vx_g, true); lem_loaded(vx_s, vx_x, vx_g, false); } }
    proof { if vx_p {
      lem_loaded(vx_s, vx_x, vx_g, true); lem_loaded(vx_s, vx_x, vx_g, false); lem_side(vx_g, vx_y);
      lem_ins_side(vx_s, vx_x, vx_y, vx_g, false); lem_ins_side(vx_s, vx_x, vx_y, vx_g, true); lem_ins_entry(vx_s, vx_x, vx_y, vx_g);
    } }

fn sumtree::node::TreeNode::rebalance(self, storage) -> r
  @live C05 C16
    reb_live($pre.f_nodes, self.tick_id, self.key)
  @ensures C05
    idx_only($pre, $post),
  @ensures C16 C17
    ({ let x = $pre.f_nodes[(old(self).tick_id, old(self).key)]; let g = g_of($pre.f_nodes, x);
       $pre.f_nodes.dom().contains((old(self).tick_id, old(self).key)) && x.tick_id == old(self).tick_id && x.key == old(self).key && reb_pre($pre.f_nodes, x, g) ==> r is Ok && reb_post($pre, $post, x, *final(self), g) }),
  @ensures C16 C17
    ({ let k = (old(self).tick_id, old(self).key); let x = $pre.f_nodes[k]; let l = lc($pre.f_nodes, x); let rr = rc($pre.f_nodes, x);
       $pre.f_nodes.dom().contains(k) && x.tick_id == k.0 && x.key == k.1 && inner(x) && (l is Some || rr is Some) && adiff(w_of(l), w_of(rr)) <= 1 && w_of(l) <= HT_MAX() && w_of(rr) <= HT_MAX() && v_of(l) + v_of(rr) < P256()
         ==> r is Ok && *final(self) == resum(x, l, rr) && $post == put_node($pre, *final(self)) })
  @entry
    let ghost vx_s = storage.sv@; let ghost vx_x = vx_s.f_nodes[(self.tick_id, self.key)]; let ghost vx_g = g_of(vx_s.f_nodes, vx_x);
    let ghost vx_p = vx_s.f_nodes.dom().contains((self.tick_id, self.key)) && vx_x.tick_id == self.tick_id && vx_x.key == self.key && reb_pre(vx_s.f_nodes, vx_x, vx_g);
    proof { if vx_p {
      lem_g_resum(vx_s.f_nodes, vx_x, vx_g); lem_resum_moved(vx_s, vx_x, vx_g); lem_ht_pos(g_left(vx_g)); lem_ht_pos(g_right(vx_g));
      if g_right(vx_g) is Node { lem_child_pre(vx_s.f_nodes, vx_x, vx_g, true); } if g_left(vx_g) is Node { lem_child_pre(vx_s.f_nodes, vx_x, vx_g, false); }
      lem_rots(g_left(vx_g)); lem_rots(g_right(vx_g)); lem_reb_entry(vx_s, vx_x, vx_g);
    } }

fn sumtree::node::TreeNode::rotate_right(self, storage) -> r
  @live C05 C16
    ({ let g = g_of($pre.f_nodes, *self); g_pre($pre.f_nodes, *self, g) && g_left(g) is Node })
  @ensures C05
    idx_only($pre, $post),
  @ensures C16 C17
    ({ let x = *old(self); let g = g_of($pre.f_nodes, x);
       g_pre($pre.f_nodes, x, g) && g_left(g) is Node ==> r is Ok && g_moved($pre, $post, x, *final(self), g, rot_r(g), ISet::empty()) && $post.f_node_id == $pre.f_node_id })
  @entry
    proof { let vx_s = storage.sv@; let vx_g = g_of(vx_s.f_nodes, *self); if g_pre(vx_s.f_nodes, *self, vx_g) && g_left(vx_g) is Node { lem_rr_all(vx_s, *self, vx_g); } }

fn sumtree::node::TreeNode::rotate_left(self, storage) -> r
  @live C05 C16
    ({ let g = g_of($pre.f_nodes, *self); g_pre($pre.f_nodes, *self, g) && g_right(g) is Node })
  @ensures C05
    idx_only($pre, $post),
  @ensures C16 C17
    ({ let x = *old(self); let g = g_of($pre.f_nodes, x);
       g_pre($pre.f_nodes, x, g) && g_right(g) is Node ==> r is Ok && g_moved($pre, $post, x, *final(self), g, rot_l(g), ISet::empty()) && $post.f_node_id == $pre.f_node_id })
  @entry
    proof { let vx_s = storage.sv@; let vx_g = g_of(vx_s.f_nodes, *self); if g_pre(vx_s.f_nodes, *self, vx_g) && g_right(vx_g) is Node { lem_rl_all(vx_s, *self, vx_g); } }
