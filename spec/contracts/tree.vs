fn sumtree::tree::prefix_sum_walk(storage, node, current_sum, target_etas, prev_sum) -> r
  @live C05 C06 C07 C15 C20 C26
    ({ let g = g_sub($pre.f_nodes, *node); walk_pre($pre.f_nodes, *node, g, current_sum@, target_etas@) && g_hi(g) < P256() }) || (exists|a: GT| #[trigger] one_rec($pre.f_nodes, *node, a) && current_sum@ == g_sum(a) && g_hi(a) < P256()) || (node.node_type == dflt_NodeType() && current_sum@ == 0)
  @measure
    walk_size($pre.f_nodes, *node)
  @ensures C15 C26
    ({ let g = g_sub($pre.f_nodes, *node); let c = current_sum@; let t = target_etas@;
       walk_pre($pre.f_nodes, *node, g, c, t) ==> (r is Ok ==> r->Ok_0@ == qf(g_lv(g), t, (c - g_sum(g)) as nat, prev_sum@)) && (g is Leaf || t + g_sum(g) < P256() ==> r is Ok) }),
  @ensures C15 C26
    forall|a: GT| one_rec($pre.f_nodes, *node, a) && current_sum@ == g_sum(a) ==> r is Ok && r->Ok_0@ == #[trigger] qf(g_lv(a), target_etas@, 0, prev_sum@),
  @ensures C15 C26
    node.node_type == dflt_NodeType() && current_sum@ == 0 ==> r is Ok && r->Ok_0@ == 0
  @entry
    proof {
      let g = g_sub(storage.sv@.f_nodes, *node); let c = current_sum@; let t = target_etas@;
      if walk_pre(storage.sv@.f_nodes, *node, g, c, t) {
        lem_rec(node.tick_id, node.direction, node.parent, g); let s = (c - g_sum(g)) as nat;
        if g is Node { lem_child_here(storage.sv@.f_nodes, *node, g); lem_walk(g, t, s, prev_sum@); } else { lem_walk_leaf(g, t, s, prev_sum@); }
      }
      assert forall|a: GT| one_rec(storage.sv@.f_nodes, *node, a) && current_sum@ == g_sum(a) implies #[trigger] qf(g_lv(a), target_etas@, 0, prev_sum@) == (if target_etas@ < g_lo(a) { 0 } else { g_sum(a) }) by { lem_one_rec(storage.sv@.f_nodes, *node, a, target_etas@, prev_sum@); }
      if exists|a: GT| one_rec(storage.sv@.f_nodes, *node, a) { let a = choose|a: GT| one_rec(storage.sv@.f_nodes, *node, a); lem_one_rec(storage.sv@.f_nodes, *node, a, target_etas@, prev_sum@);
        assert forall|b: GT| one_rec(storage.sv@.f_nodes, *node, b) implies b == a by { lem_one_rec(storage.sv@.f_nodes, *node, b, target_etas@, prev_sum@); } }
    }

fn sumtree::tree::get_prefix_sum(storage, root_node, target_etas, prev_sum) -> r
  @live C05 C06 C07 C15 C20 C26
    ({ let i = ix_of($pre, root_node.tick_id, root_node.direction); root_rec($pre, root_node) && ix_is($pre, root_node.tick_id, root_node.direction, i) && e_sorted(i_lv(i)) })
  @ensures C15 C26
    ({ let i = ix_of($pre, root_node.tick_id, root_node.direction);
       root_rec($pre, root_node) && ix_is($pre, root_node.tick_id, root_node.direction, i) && e_sorted(i_lv(i)) ==> (r is Ok ==> r->Ok_0@ == qf(i_lv(i), target_etas@, 0, prev_sum@)) && (target_etas@ + i_sum(i) < P256() ==> r is Ok) })
  @entry
    proof {
      let s = storage.sv@; let t = root_node.tick_id; let d = root_node.direction; let i = ix_of(s, t, d);
      if root_rec(s, root_node) && ix_is(s, t, d, i) && e_sorted(i_lv(i)) {
        match i {
          IX::Empty => {}
          IX::One { k, a } => { assert(i_lv(i)[0].1 > 0); assert(one_rec(s.f_nodes, root_node, a)); assert(qf(g_lv(a), target_etas@, 0, prev_sum@) == qf(i_lv(i), target_etas@, 0, prev_sum@)); lem_one_rec(s.f_nodes, root_node, a, target_etas@, prev_sum@); }
          IX::Full { g } => { lem_height(g); assert(has_rec(s.f_nodes, g_mk(t, d, None, g))); assert(g_here(s.f_nodes, root_node, g)); lem_g_sub(s.f_nodes, root_node, g); lem_rec(t, d, None, g); }
        }
      }
    }
