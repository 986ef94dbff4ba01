// ---- operations keep the cancellation indexes well-formed ----
// records of tick `t` outside `ks` are untouched
pub open spec fn g_loc(n: Map<(i64, u64), TreeNode>, m: Map<(i64, u64), TreeNode>, t: i64, ks: ISet<u64>) -> bool {
  forall|k: u64| #![trigger m.dom().contains((t, k))] #![trigger m[(t, k)]] #![trigger n[(t, k)]] !ks.contains(k) ==> m.dom().contains((t, k)) == n.dom().contains((t, k)) && m[(t, k)] == n[(t, k)]
}
pub proof fn lem_g_loc(n: Map<(i64, u64), TreeNode>, m: Map<(i64, u64), TreeNode>, t: i64, d: OrderDirection, p: Option<u64>, g: GT, ks: ISet<u64>)
  requires g_rep(n, t, d, p, g), g_loc(n, m, t, ks), g_ks(g).disjoint(ks)
  ensures g_rep(m, t, d, p, g)
  decreases g
{
  assert(g_ks(g).contains(gk(g)));
  assert(has_rec(n, g_mk(t, d, p, g)));
  match g { GT::Leaf { .. } => {}, GT::Node { k, l, r } => {
    assert(g_ks(*l).subset_of(g_ks(g))); assert(g_ks(*r).subset_of(g_ks(g)));
    lem_g_loc(n, m, t, d, Some(k), *l, ks); lem_g_loc(n, m, t, d, Some(k), *r, ks); } }
}
pub open spec fn root_same(s: SV, r: SV, t: i64, d: OrderDirection) -> bool { r.f_tree.dom().contains((t, dir_key(d))) == s.f_tree.dom().contains((t, dir_key(d))) && r.f_tree[(t, dir_key(d))] == s.f_tree[(t, dir_key(d))] }
pub proof fn lem_ix_loc(s: SV, r: SV, t: i64, d: OrderDirection, ks: ISet<u64>)
  requires ix_is(s, t, d, ix_of(s, t, d)), g_loc(s.f_nodes, r.f_nodes, t, ks), i_ks(ix_of(s, t, d)).disjoint(ks), has_root(s, t, d) ==> root_same(s, r, t, d), !has_root(s, t, d) ==> !has_root(r, t, d)
  ensures ix_is(r, t, d, ix_of(s, t, d)), ix_of(r, t, d) == ix_of(s, t, d)
{
  let i = ix_of(s, t, d);
  match i {
    IX::Empty => {}
    IX::One { k, a } => { assert(i_ks(i).contains(k)); assert(i_ks(i).contains(gk(a))); assert(g_ks(a) =~= one_key(gk(a))); lem_g_loc(s.f_nodes, r.f_nodes, t, d, Some(k), a, ks); assert(has_rec(r.f_nodes, one_root(t, d, k, a))); }
    IX::Full { g } => { assert(g_ks(g).contains(gk(g))); lem_g_loc(s.f_nodes, r.f_nodes, t, d, None, g, ks); assert(has_rec(r.f_nodes, g_mk(t, d, None, g))); }
  }
  lem_ix_of(r, t, d, i);
}
// the indexes of tick `t` are untouched
pub open spec fn idx_same(s: SV, r: SV, t: i64) -> bool {
  g_loc(s.f_nodes, r.f_nodes, t, ISet::empty()) && root_same(s, r, t, OrderDirection::Bid) && root_same(s, r, t, OrderDirection::Ask) && node_ctr(s, t) == node_ctr(r, t)
}
pub proof fn lem_idx_same(s: SV, r: SV, t: i64)
  requires idx_ok(s, t), idx_same(s, r, t)
  ensures idx_ok(r, t), entries(r, t, OrderDirection::Bid) == entries(s, t, OrderDirection::Bid), entries(r, t, OrderDirection::Ask) == entries(s, t, OrderDirection::Ask)
{
  lem_ix_loc(s, r, t, OrderDirection::Bid, ISet::empty()); lem_ix_loc(s, r, t, OrderDirection::Ask, ISet::empty());
  assert forall|k: u64| #[trigger] r.f_nodes.dom().contains((t, k)) implies k <= node_ctr(r, t) by { assert(s.f_nodes.dom().contains((t, k))); }
}
// ---- synchronisation creates at most fresh empty roots ----
pub open spec fn root_if(s: SV, t: i64, d: OrderDirection, b: bool) -> SV { if b { root_state(s, t, d) } else { s } }
pub open spec fn root_fits(s: SV, t: i64, d: OrderDirection, b: bool) -> bool { b && !has_root(s, t, d) ==> node_ctr(s, t) < u64::MAX }
pub open spec fn roots_by(s: SV, tr: Map<(i64, Seq<char>), u64>, ids: Map<i64, u64>, t: i64, b1: bool, b2: bool) -> bool {
  let m = root_if(s, t, OrderDirection::Bid, b1);
  let e = root_if(m, t, OrderDirection::Ask, b2);
  root_fits(s, t, OrderDirection::Bid, b1) && root_fits(m, t, OrderDirection::Ask, b2) && tr == e.f_tree && ids == e.f_node_id
}
pub open spec fn roots_init(s: SV, r: SV, t: i64) -> bool { r.f_nodes == s.f_nodes && exists|b1: bool, b2: bool| #[trigger] roots_by(s, r.f_tree, r.f_node_id, t, b1, b2) }
pub proof fn lem_root_state(s: SV, t: i64, d: OrderDirection)
  requires idx_ok(s, t), !has_root(s, t, d) ==> node_ctr(s, t) < u64::MAX
  ensures ({ let r = root_state(s, t, d); idx_ok(r, t) && ix_of(r, t, OrderDirection::Bid) == ix_of(s, t, OrderDirection::Bid) && ix_of(r, t, OrderDirection::Ask) == ix_of(s, t, OrderDirection::Ask)
    && has_root(r, t, d) == has_root(s, t, d) && has_root(r, t, opp(d)) == has_root(s, t, opp(d)) && forall|t2: i64| t2 != t ==> #[trigger] idx_same(s, r, t2) })
{
  let r = root_state(s, t, d);
  lem_dir_key(OrderDirection::Bid); lem_dir_key(d);
  assert forall|t2: i64| t2 != t implies #[trigger] idx_same(s, r, t2) by {}
  if !has_root(s, t, d) {
    assert(!s.f_nodes.dom().contains((t, (node_ctr(s, t) + 1) as u64)));
    lem_ix_loc(s, r, t, d, ISet::empty()); lem_ix_loc(s, r, t, opp(d), ISet::empty());
    assert(opp(opp(d)) == d);
  }
}
pub proof fn lem_roots(s: SV, r: SV, t: i64)
  requires idx_ok(s, t), roots_init(s, r, t)
  ensures idx_ok(r, t), ix_of(r, t, OrderDirection::Bid) == ix_of(s, t, OrderDirection::Bid), ix_of(r, t, OrderDirection::Ask) == ix_of(s, t, OrderDirection::Ask),
    forall|t2: i64| t2 != t ==> #[trigger] idx_same(s, r, t2),
{
  let (b1, b2) = choose|b1: bool, b2: bool| #[trigger] roots_by(s, r.f_tree, r.f_node_id, t, b1, b2);
  let m = root_if(s, t, OrderDirection::Bid, b1); let e = root_if(m, t, OrderDirection::Ask, b2);
  if b1 { lem_root_state(s, t, OrderDirection::Bid); }
  if b2 { lem_root_state(m, t, OrderDirection::Ask); }
  assert forall|t2: i64| t2 != t implies #[trigger] idx_same(s, r, t2) by { assert(b1 ==> idx_same(s, m, t2)); assert(b2 ==> idx_same(m, e, t2)); }
  assert(idx_ok(e, t));
  lem_ix_loc(e, r, t, OrderDirection::Bid, ISet::empty()); lem_ix_loc(e, r, t, OrderDirection::Ask, ISet::empty());
}
// the index of tick `t` is well-formed and there are identifiers left for `k` more records
pub open spec fn room(s: SV, t: i64, k: int) -> bool { idx_ok(s, t) && node_ctr(s, t) + k <= u64::MAX }
pub open spec fn ticks_room(s: SV, k: int) -> bool { forall|t: i64| #[trigger] has_tick(s, t) ==> room(s, t, k) }
pub open spec fn claim_live(s: SV, t: i64) -> bool { has_tick(s, t) ==> room(s, t, 2) }
pub open spec fn cancel_live(s: SV, t: i64, id: u64) -> bool { s.f_orders.dom().contains((t, id)) ==> ord_keyed(s, t, id) && room(s, t, 5) && (etas_after(s, t, s.f_orders[(t, id)].order_direction) <= s.f_orders[(t, id)].etas@ ==> canc_fit(s, t, s.f_orders[(t, id)])) }
pub open spec fn room_kept(s: SV, r: SV, t: i64) -> bool { roots_init(s, r, t) && forall|u: i64| has_tick(r, u) == has_tick(s, u) }
pub proof fn lem_room_kept(s: SV, r: SV, t: i64, k: int)
  requires ticks_room(s, k), room_kept(s, r, t)
  ensures ticks_room(r, k - 2)
{
  lem_roots_ctr(s, r, t);
  assert forall|u: i64| #[trigger] has_tick(r, u) implies room(r, u, k - 2) by { assert(has_tick(s, u)); if u == t { lem_roots(s, r, t); } else { if has_tick(s, t) { lem_roots(s, r, t); } lem_roots_other(s, r, t, u); } }
}
pub proof fn lem_room_same(s: SV, t: i64)
  ensures room_kept(s, s, t), forall|m: SV, r: SV| #[trigger] room_kept(s, m, t) && r.f_nodes == m.f_nodes && r.f_tree == m.f_tree && r.f_node_id == m.f_node_id && r.f_tick_state == m.f_tick_state ==> #[trigger] room_kept(s, r, t)
{
  assert(roots_by(s, s.f_tree, s.f_node_id, t, false, false));
  assert forall|m: SV, r: SV| #[trigger] room_kept(s, m, t) && r.f_nodes == m.f_nodes && r.f_tree == m.f_tree && r.f_node_id == m.f_node_id && r.f_tick_state == m.f_tick_state implies #[trigger] room_kept(s, r, t) by {
    let (b1, b2) = choose|b1: bool, b2: bool| #[trigger] roots_by(s, m.f_tree, m.f_node_id, t, b1, b2);
    assert(roots_by(s, r.f_tree, r.f_node_id, t, b1, b2));
    assert forall|u: i64| has_tick(r, u) == has_tick(s, u) by { assert(has_tick(m, u) == has_tick(s, u)); }
  }
}
pub proof fn lem_roots_other(s: SV, r: SV, t: i64, u: i64)
  requires idx_ok(s, u), roots_init(s, r, t), u != t
  ensures idx_ok(r, u)
{
  assert(idx_same(s, r, u)); lem_idx_same(s, r, u);
}
pub proof fn lem_roots_ctr(s: SV, r: SV, t: i64)
  requires roots_init(s, r, t)
  ensures node_ctr(s, t) <= node_ctr(r, t) <= node_ctr(s, t) + 2, forall|u: i64| u != t ==> #[trigger] node_ctr(r, u) == node_ctr(s, u)
{}
// what synchronisation does to the fill progress of one direction
pub open spec fn sync_val(s: SV, r: SV, t: i64, d: OrderDirection, target: nat) -> bool {
  gtv(s, t, d).last_tick_sync_etas@ != target ==> gtv(r, t, d).cumulative_realized_cancels@ == qf(entries(s, t, d), target, 0, gtv(s, t, d).cumulative_realized_cancels@)
}
// the recorded cancellations are folded into the fill progress of both directions, to the tick's own progress
pub open spec fn fold_vals(s: SV, r: SV, t: i64) -> bool {
  idx_ok(s, t) ==> sync_val(s, r, t, OrderDirection::Bid, gtv(s, t, OrderDirection::Bid).effective_total_amount_swapped@) && sync_val(s, r, t, OrderDirection::Ask, gtv(s, t, OrderDirection::Ask).effective_total_amount_swapped@)
}
pub open spec fn folded(s: SV, r: SV, t: i64) -> bool { roots_init(s, r, t) && fold_vals(s, r, t) }
pub open spec fn sync_fits(s: SV, t: i64, d: OrderDirection, target: nat) -> bool {
  let v = gtv(s, t, d); let n = qf(entries(s, t, d), target, 0, v.cumulative_realized_cancels@);
  v.last_tick_sync_etas@ != target ==> target + e_sum(entries(s, t, d)) < P256() && v.cumulative_total_value@ < P256() && n >= v.cumulative_realized_cancels@ && v.effective_total_amount_swapped@ + n - v.cumulative_realized_cancels@ <= v.cumulative_total_value@
}
pub proof fn lem_sync_all(s: SV, t: i64)
  ensures ({ let m = root_state(s, t, OrderDirection::Bid); let e = root_state(s, t, OrderDirection::Ask); let f = root_state(m, t, OrderDirection::Ask);
    let ok1 = root_fits(s, t, OrderDirection::Bid, true); let ok2 = root_fits(s, t, OrderDirection::Ask, true); let ok3 = ok1 && root_fits(m, t, OrderDirection::Ask, true);
    &&& roots_by(s, s.f_tree, s.f_node_id, t, false, false) && (ok1 ==> roots_by(s, m.f_tree, m.f_node_id, t, true, false)) && (ok2 ==> roots_by(s, e.f_tree, e.f_node_id, t, false, true)) && (ok3 ==> roots_by(s, f.f_tree, f.f_node_id, t, true, true))
    &&& idx_ok(s, t) && ok1 ==> root_known(s, m, t, OrderDirection::Bid)
    &&& idx_ok(s, t) && ok2 ==> root_known(s, e, t, OrderDirection::Ask)
    &&& idx_ok(s, t) && ok3 ==> root_known(s, f, t, OrderDirection::Ask) && (root_known(s, f, t, OrderDirection::Bid))
  })
{
  if idx_ok(s, t) {
    let m = root_state(s, t, OrderDirection::Bid); let e = root_state(s, t, OrderDirection::Ask); let f = root_state(m, t, OrderDirection::Ask);
    lem_i_sum(ix_of(s, t, OrderDirection::Bid)); lem_i_sum(ix_of(s, t, OrderDirection::Ask));
    if root_fits(s, t, OrderDirection::Bid, true) {
      lem_root_state(s, t, OrderDirection::Bid); lem_pend(m, t, OrderDirection::Bid);
      if root_fits(m, t, OrderDirection::Ask, true) { lem_root_state(m, t, OrderDirection::Ask); lem_pend(f, t, OrderDirection::Ask); lem_pend(f, t, OrderDirection::Bid); }
    }
    if root_fits(s, t, OrderDirection::Ask, true) { lem_root_state(s, t, OrderDirection::Ask); lem_pend(e, t, OrderDirection::Ask); }
  }
}
// what the prefix sum needs to know about the root of a state reached during synchronisation
pub open spec fn root_known(s: SV, r: SV, t: i64, d: OrderDirection) -> bool {
  &&& idx_ok(r, t) && ix_of(r, t, d) == ix_of(s, t, d) && i_sum(ix_of(s, t, d)) == e_sum(entries(s, t, d)) && e_sorted(entries(s, t, d))
  &&& ({ let x = root_node(r, t, d); x.tick_id == t && x.direction == d && root_rec(r, x) })
}
// ---- recording one cancellation ----
// `x` is the root record handed to the insertion: the stored one, or a fresh one whose key is already recorded
pub open spec fn root_mem(s: SV, t: i64, d: OrderDirection, x: TreeNode) -> bool {
  if has_root(s, t, d) { x == s.f_nodes[(t, s.f_tree[(t, dir_key(d))])] }
  else { s.f_tree.dom().contains((t, dir_key(d))) && s.f_tree[(t, dir_key(d))] == x.key && x.tick_id == t && x.direction == d && x.left is None && x.right is None && x.parent is None && x.node_type == dflt_NodeType() }
}
pub open spec fn cx_pre(s: SV, t: i64, d: OrderDirection, x: TreeNode, y: TreeNode) -> bool {
  &&& idx_ok(s, t) && root_mem(s, t, d, x) && new_leaf(y, t, d) && y.parent is None
  &&& y.key <= node_ctr(s, t) && !s.f_nodes.dom().contains((t, y.key)) && y.key != x.key && (has_ptr(s, t, opp(d)) ==> ptr(s, t, opp(d)) != y.key)
  &&& e_apart(entries(s, t, d), entry_of(y)) && e_sum(entries(s, t, d)) + nval(y) < P256() && nhi(y) < P256()
}
pub open spec fn ins_some(s: SV, r: SV, x: TreeNode, y: TreeNode, z: TreeNode, g: GT) -> bool { exists|g2: GT| #[trigger] ins_post(s, r, x, y, z, g, g2) }
// what the insertion guarantees
pub open spec fn ins_told(s: SV, r: SV, x: TreeNode, y: TreeNode, z: TreeNode) -> bool {
  &&& zero_pre(x, y) ==> zero_post(s, r, x, y, z)
  &&& one_pre(s, x, y) ==> one_post(s, r, x, y, z)
  &&& ins_pre(s, x, y, g_of(s.f_nodes, x)) ==> ins_some(s, r, x, y, z, g_of(s.f_nodes, x))
}
pub open spec fn cx_post(s: SV, r: SV, t: i64, d: OrderDirection, y: TreeNode, z: TreeNode) -> bool {
  &&& idx_ok(r, t) && e_added(entries(s, t, d), entries(r, t, d), entry_of(y)) && entries(r, t, opp(d)) == entries(s, t, opp(d))
  &&& has_rec(r.f_nodes, z) && forall|t2: i64| t2 != t ==> #[trigger] idx_same(s, r, t2)
}
pub proof fn lem_leaf_of(y: TreeNode, t: i64, d: OrderDirection, p: Option<u64>)
  requires new_leaf(y, t, d)
  ensures (TreeNode { parent: p, ..y }) == g_mk(t, d, p, g_leaf(y)), g_lv(g_leaf(y)) == seq![entry_of(y)], g_sum(g_leaf(y)) == nval(y), g_ks(g_leaf(y)) == one_key(y.key), g_lo(g_leaf(y)) == nlo(y), g_hi(g_leaf(y)) == nhi(y), nhi(y) == e_end(entry_of(y)), nwt(y) == 1
{}
// which of the insertion's cases applies
pub proof fn lem_cx_pre(s: SV, t: i64, d: OrderDirection, x: TreeNode, y: TreeNode)
  requires cx_pre(s, t, d, x, y)
  ensures x.tick_id == t, x.direction == d, match ix_of(s, t, d) { IX::Empty => zero_pre(x, y), IX::One { k, a } => one_pre(s, x, y), IX::Full { g } => g_of(s.f_nodes, x) == g && ins_pre(s, x, y, g) }
{
  lem_i_sum(ix_of(s, t, d)); lem_ix_stored(s, t, d, ix_of(s, t, d));
  match ix_of(s, t, d) {
    IX::Empty => {}
    IX::One { k, a } => { assert(has_rec(s.f_nodes, g_mk(t, d, Some(k), a))); assert(x == one_root(t, d, k, a)); assert(i_ks(ix_of(s, t, d)).contains(gk(a))); }
    IX::Full { g } => {
      assert(has_rec(s.f_nodes, g_mk(t, d, None, g))); assert(x == g_mk(t, d, None, g)); lem_height(g); lem_rec(t, d, None, g);
      assert(g_at(s.f_nodes, x, g)); lem_g_of(s.f_nodes, x, g);
      assert(ks_le(g_ks(g), node_ctr(s, t))) by { assert forall|k: u64| #[trigger] g_ks(g).contains(k) implies k <= node_ctr(s, t) by { assert(i_ks(ix_of(s, t, d)).contains(k)); } }
      assert(!g_ks(g).contains(y.key)) by { if g_ks(g).contains(y.key) { assert(i_ks(ix_of(s, t, d)).contains(y.key)); } }
    }
  }
}
// the direction whose index `i2` has replaced the old one; everything else is framed
pub proof fn lem_cx_close(s: SV, r: SV, t: i64, d: OrderDirection, y: TreeNode, z: TreeNode, i2: IX, fresh: ISet<u64>)
  requires idx_ok(s, t), ix_is(r, t, d, i2), e_sorted(i_lv(i2)), e_added(entries(s, t, d), i_lv(i2), entry_of(y)), has_rec(r.f_nodes, z), node_ctr(s, t) <= node_ctr(r, t),
    g_fr(s.f_nodes, r.f_nodes, t, i_ks(ix_of(s, t, d)).union(fresh)), i_ks(i2).subset_of(i_ks(ix_of(s, t, d)).union(fresh)),
    forall|k: u64| #[trigger] fresh.contains(k) ==> k <= node_ctr(r, t) && !s.f_nodes.dom().contains((t, k)) && (has_ptr(s, t, opp(d)) ==> ptr(s, t, opp(d)) != k),
    forall|q: (i64, Seq<char>)| #![trigger r.f_tree.dom().contains(q)] #![trigger r.f_tree[q]] q != (t, dir_key(d)) ==> r.f_tree.dom().contains(q) == s.f_tree.dom().contains(q) && r.f_tree[q] == s.f_tree[q],
    r.f_tree.dom().contains((t, dir_key(d))) && i_ks(i2).contains(r.f_tree[(t, dir_key(d))]), ctr_only(s, r, t),
  ensures cx_post(s, r, t, d, y, z)
{
  let o = opp(d); let ks = i_ks(ix_of(s, t, d)).union(fresh);
  lem_dir_key(d); assert(opp(o) == d);
  lem_ix_stored(s, t, OrderDirection::Bid, ix_of(s, t, OrderDirection::Bid)); lem_ix_stored(s, t, OrderDirection::Ask, ix_of(s, t, OrderDirection::Ask));
  assert(i_ks(ix_of(s, t, o)).disjoint(ks)) by {
    assert forall|k: u64| #[trigger] i_ks(ix_of(s, t, o)).contains(k) implies !ks.contains(k) by { assert(s.f_nodes.dom().contains((t, k))); }
  }
  assert(g_loc(s.f_nodes, r.f_nodes, t, ks));
  lem_ix_of(r, t, d, i2);
  assert(root_same(s, r, t, o));
  if has_root(s, t, o) {
    lem_root_key(s, t, o);
    assert(i_ks(ix_of(s, t, o)).contains(ptr(s, t, o)));
    assert(!ks.contains(ptr(s, t, o)));
  } else if has_ptr(s, t, o) {
    let k = ptr(s, t, o);
    assert(!s.f_nodes.dom().contains((t, k)));
    assert(!ks.contains(k));
    assert(!r.f_nodes.dom().contains((t, k)));
  }
  assert(has_root(r, t, o) == has_root(s, t, o));
  lem_ix_loc(s, r, t, o, ks);
  assert forall|k: u64| #[trigger] r.f_nodes.dom().contains((t, k)) implies k <= node_ctr(r, t) by {
    if !ks.contains(k) { assert(s.f_nodes.dom().contains((t, k))); } else if i_ks(ix_of(s, t, d)).contains(k) { assert(s.f_nodes.dom().contains((t, k))); }
  }
  assert(ptr(r, t, d) <= node_ctr(r, t));
  assert(has_ptr(r, t, o) ==> ptr(r, t, o) != ptr(r, t, d));
  assert(i_ks(ix_of(r, t, o)).disjoint(i_ks(i2)));
  assert(ix_wf(r, t, d)); assert(ix_wf(r, t, o));
  assert forall|t2: i64| t2 != t implies #[trigger] idx_same(s, r, t2) by {}
}
pub proof fn lem_root_key(s: SV, t: i64, d: OrderDirection)
  requires has_root(s, t, d), ix_is(s, t, d, ix_of(s, t, d))
  ensures i_ks(ix_of(s, t, d)).contains(ptr(s, t, d))
{
  match ix_of(s, t, d) { IX::Empty => {} IX::One { k, a } => {} IX::Full { g } => { assert(g_ks(g).contains(gk(g))); } }
}
pub proof fn lem_one_list(x: (nat, nat), l: Seq<(nat, nat)>)
  requires x.1 > 0, l == seq![x]
  ensures e_sorted(l), e_added(Seq::empty(), l, x)
{ assert(Seq::<(nat, nat)>::empty().insert(0, x) =~= l); }
pub proof fn lem_two_list(a: (nat, nat), b: (nat, nat), x: (nat, nat))
  requires a.1 > 0, b.1 > 0, e_end(a) <= b.0, x == a || x == b
  ensures e_sorted(seq![a] + seq![b]), e_added(seq![if x == a { b } else { a }], seq![a] + seq![b], x)
{
  let l = seq![a] + seq![b];
  if x == a { assert(seq![b].insert(0, a) =~= l); } else { assert(seq![a].insert(1, b) =~= l); }
}
// the insertion's guarantee keeps the invariant and records exactly the new entry
pub proof fn lem_cx_post(s: SV, r: SV, t: i64, d: OrderDirection, x: TreeNode, y: TreeNode, z: TreeNode)
  requires cx_pre(s, t, d, x, y), ins_told(s, r, x, y, z)
  ensures cx_post(s, r, t, d, y, z)
{
  lem_cx_pre(s, t, d, x, y); lem_leaf_of(y, t, d, Some(x.key));
  let b = with_parent(y, x.key); let gb = g_leaf(y);
  match ix_of(s, t, d) {
    IX::Empty => {
      let i2 = IX::One { k: x.key, a: gb }; let fresh = one_key(x.key).insert(y.key);
      assert(z == one_root(t, d, x.key, gb));
      assert(has_rec(r.f_nodes, b)); assert(has_rec(r.f_nodes, z));
      assert(g_rep(r.f_nodes, t, d, Some(x.key), gb));
      lem_one_list(entry_of(y), i_lv(i2));
      assert(entries(s, t, d) =~= Seq::<(nat, nat)>::empty());
      assert(ix_is(r, t, d, i2));
      lem_cx_close(s, r, t, d, y, z, i2, fresh);
    }
    IX::One { k, a } => {
      let ra = lc(s.f_nodes, x)->0;
      assert(has_rec(s.f_nodes, g_mk(t, d, Some(k), a))); assert(x == one_root(t, d, k, a)); assert(ra == g_mk(t, d, Some(k), a));
      let left = nhi(y) <= nlo(ra);
      let g2 = if left { GT::Node { k: k, l: Box::new(gb), r: Box::new(a) } } else { GT::Node { k: k, l: Box::new(a), r: Box::new(gb) } };
      let i2 = IX::Full { g: g2 };
      let ea = (g_lo(a), g_sum(a)); assert(g_lv(a) == seq![ea]); assert(entries(s, t, d)[0] == ea);
      assert(g_lv(g2) == (if left { seq![entry_of(y)] + seq![ea] } else { seq![ea] + seq![entry_of(y)] }));
      if left { lem_two_list(entry_of(y), ea, entry_of(y)); } else { lem_two_list(ea, entry_of(y), entry_of(y)); }
      assert(has_rec(r.f_nodes, b)); assert(has_rec(r.f_nodes, ra)); assert(has_rec(r.f_nodes, z));
      assert(g_rep(r.f_nodes, t, d, Some(k), gb)); assert(g_rep(r.f_nodes, t, d, Some(k), a));
      assert(g_ks(a) == one_key(gk(a)));
      assert(z == g_mk(t, d, None, g2));
      assert(g_dis(gb) && g_dis(a) && g_bal(gb) && g_bal(a) && g_ht(a) == 1 && g_ht(gb) == 1); assert(gk(a) != y.key);
      assert(!g_ks(gb).contains(k) && !g_ks(a).contains(k)); assert(g_ks(gb).disjoint(g_ks(a)));
      assert(g_dis(g2)); assert(g_bal(g2));
      assert(ix_is(r, t, d, i2));
      lem_cx_close(s, r, t, d, y, z, i2, one_key(y.key));
    }
    IX::Full { g } => {
      let g2 = choose|g2: GT| #[trigger] ins_post(s, r, x, y, z, g, g2);
      let i2 = IX::Full { g: g2 };
      assert(g_ht(g) >= 2); assert(g2 is Node);
      lem_ht_pos(g2); assert(has_rec(r.f_nodes, g_mk(t, d, None, g2)));
      assert(ix_is(r, t, d, i2));
      let fresh = g_new(s, r, t, y.key);
      assert forall|k: u64| #[trigger] fresh.contains(k) implies k <= node_ctr(r, t) && !s.f_nodes.dom().contains((t, k)) && (has_ptr(s, t, opp(d)) ==> ptr(s, t, opp(d)) != k) by {}
      assert(g_ks(g).union(fresh).union(key_set(x.parent)) =~= g_ks(g).union(fresh));
      lem_dir_key(d);
      lem_cx_close(s, r, t, d, y, z, i2, fresh);
    }
  }
}
// the state in which the insertion starts: root pointer in place, one fresh identifier drawn
pub proof fn lem_cx_start(s0: SV, s: SV, t: i64, d: OrderDirection, y: TreeNode)
  requires idx_ok(s0, t), roots_init(s0, s, t), !has_root(s, t, d) ==> node_ctr(s, t) < u64::MAX, ({ let m = root_state(s, t, d); node_ctr(m, t) < u64::MAX && y.key == node_ctr(m, t) + 1 }),
    new_leaf(y, t, d), y.parent is None, e_apart(entries(s0, t, d), entry_of(y)), e_sum(entries(s0, t, d)) + nval(y) < P256(), nhi(y) < P256(),
  ensures ({ let r = bump_ctr(root_state(s, t, d), t); cx_pre(r, t, d, root_node(s, t, d), y) && entries(r, t, d) == entries(s0, t, d) && entries(r, t, opp(d)) == entries(s0, t, opp(d)) && forall|t2: i64| t2 != t ==> #[trigger] idx_same(s0, r, t2) })
{
  lem_roots(s0, s, t); lem_root_state(s, t, d);
  let m = root_state(s, t, d); let r = bump_ctr(m, t); let x = root_node(s, t, d);
  lem_ix_loc(m, r, t, d, ISet::empty()); lem_ix_loc(m, r, t, opp(d), ISet::empty());
  assert(idx_ok(r, t));
  assert forall|t2: i64| t2 != t implies #[trigger] idx_same(s0, r, t2) by { assert(idx_same(s0, s, t2)); assert(idx_same(s, m, t2)); }
  lem_dir_key(d);
  if has_root(s, t, d) { lem_root_key(s, t, d); lem_ix_stored(s, t, d, ix_of(s, t, d)); }
  assert(root_mem(r, t, d, x));
  assert(!r.f_nodes.dom().contains((t, y.key)));
}
pub open spec fn cq(o: LimitOrder) -> (nat, nat) { (o.etas@, (o.quantity@ * E18()) as nat) }
// recording the cancellation of order `o` is possible
pub open spec fn canc_fit(s: SV, t: i64, o: LimitOrder) -> bool {
  idx_ok(s, t) && o.quantity@ > 0 && e_apart(entries(s, t, o.order_direction), cq(o)) && e_sum(entries(s, t, o.order_direction)) + o.quantity@ * E18() < P256() && e_end(cq(o)) < P256()
}
pub open spec fn canc_idx(s: SV, r: SV, t: i64, o: LimitOrder) -> bool {
  &&& idx_ok(r, t) && e_added(entries(s, t, o.order_direction), entries(r, t, o.order_direction), cq(o)) && entries(r, t, opp(o.order_direction)) == entries(s, t, opp(o.order_direction))
  &&& forall|t2: i64| t2 != t ==> #[trigger] idx_same(s, r, t2)
}
// whichever order the cancellation writes in: the records of the index (`s`: where the insertion starts, `f`: at the end) decide
pub open spec fn idx_fields(s: SV, r: SV) -> bool { r.f_nodes == s.f_nodes && r.f_tree == s.f_tree && r.f_node_id == s.f_node_id }
pub open spec fn cx_from(s0: SV, s1: SV, s: SV, t: i64, o: LimitOrder, x: TreeNode, y: TreeNode) -> bool {
  let d = o.order_direction; let m = root_state(s1, t, d);
  roots_init(s0, s1, t) && (!has_root(s1, t, d) ==> node_ctr(s1, t) < u64::MAX) && node_ctr(m, t) < u64::MAX && y.key == node_ctr(m, t) + 1
    && new_leaf(y, t, d) && y.parent is None && entry_of(y) == cq(o) && idx_fields(bump_ctr(m, t), s) && x == root_node(s1, t, d)
}
pub open spec fn cx_to(r: SV, f: SV, z: TreeNode) -> bool { f.f_nodes == r.f_nodes.insert((z.tick_id, z.key), z) && f.f_tree == r.f_tree && f.f_node_id == r.f_node_id }
pub proof fn lem_cx_from(s0: SV, s1: SV, s: SV, t: i64, o: LimitOrder, x: TreeNode, y: TreeNode)
  requires canc_fit(s0, t, o), cx_from(s0, s1, s, t, o, x, y)
  ensures ({ let d = o.order_direction; cx_pre(s, t, d, x, y) && entries(s, t, d) == entries(s0, t, d) && entries(s, t, opp(d)) == entries(s0, t, opp(d)) && forall|t2: i64| t2 != t ==> #[trigger] idx_same(s0, s, t2) })
{
  let d = o.order_direction; let m = root_state(s1, t, d); let b = bump_ctr(m, t);
  lem_cx_start(s0, s1, t, d, y);
  assert(idx_same(b, s, t)); lem_idx_same(b, s, t);
  assert forall|t2: i64| t2 != t implies #[trigger] idx_same(s0, s, t2) by { assert(idx_same(s0, b, t2)); }
}
pub proof fn lem_cx_end(s0: SV, s: SV, r: SV, f: SV, t: i64, o: LimitOrder, y: TreeNode, z: TreeNode)
  requires cx_post(s, r, t, o.order_direction, y, z), entry_of(y) == cq(o), entries(s, t, o.order_direction) == entries(s0, t, o.order_direction), entries(s, t, opp(o.order_direction)) == entries(s0, t, opp(o.order_direction)),
    forall|t2: i64| t2 != t ==> #[trigger] idx_same(s0, s, t2), cx_to(r, f, z),
  ensures canc_idx(s0, f, t, o)
{
  assert(f.f_nodes =~= r.f_nodes);
  assert(idx_same(r, f, t)); lem_idx_same(r, f, t);
  assert forall|t2: i64| t2 != t implies #[trigger] idx_same(s0, f, t2) by { assert(idx_same(s0, s, t2)); assert(idx_same(s, r, t2)); }
}
// what the insertion guarantees, at the level of a whole index
pub open spec fn cx_told(s: SV, r: SV, ok: bool, x: TreeNode, y: TreeNode, z: TreeNode) -> bool { cx_pre(s, x.tick_id, x.direction, x, y) ==> ok && cx_post(s, r, x.tick_id, x.direction, y, z) }
pub open spec fn cx_case(s: SV, x: TreeNode, y: TreeNode) -> bool { zero_pre(x, y) || one_pre(s, x, y) || ins_pre(s, x, y, g_of(s.f_nodes, x)) }
pub proof fn lem_cx_told(s: SV, x: TreeNode, y: TreeNode)
  ensures cx_pre(s, x.tick_id, x.direction, x, y) ==> cx_case(s, x, y),
    forall|r: SV, ok: bool, z: TreeNode| #![trigger cx_told(s, r, ok, x, y, z)] ok && ins_told(s, r, x, y, z) ==> cx_told(s, r, ok, x, y, z)
{
  let t = x.tick_id; let d = x.direction;
  if cx_pre(s, t, d, x, y) {
    lem_cx_pre(s, t, d, x, y);
    assert forall|r: SV, ok: bool, z: TreeNode| #![trigger cx_told(s, r, ok, x, y, z)] ok && ins_told(s, r, x, y, z) implies cx_told(s, r, ok, x, y, z) by { lem_cx_post(s, r, t, d, x, y, z); }
  }
}
// (stated over every state the body may pass through, so that the order of its writes does not matter)
pub proof fn lem_cx_all(s0: SV, t: i64, o: LimitOrder)
  requires canc_fit(s0, t, o)
  ensures
    forall|s1: SV, s: SV, r: SV, ok: bool, x: TreeNode, y: TreeNode, z: TreeNode| #![trigger roots_init(s0, s1, t), cx_told(s, r, ok, x, y, z)] cx_from(s0, s1, s, t, o, x, y) && cx_told(s, r, ok, x, y, z) ==> ok,
    forall|s1: SV, s: SV, r: SV, ok: bool, f: SV, x: TreeNode, y: TreeNode, z: TreeNode| #![trigger roots_init(s0, s1, t), cx_told(s, r, ok, x, y, z), canc_idx(s0, f, t, o)]
      cx_from(s0, s1, s, t, o, x, y) && cx_told(s, r, ok, x, y, z) && cx_to(r, f, z) ==> canc_idx(s0, f, t, o),
    forall|s1: SV| #[trigger] roots_init(s0, s1, t) ==> node_ctr(s1, t) <= node_ctr(s0, t) + 2,
    forall|s1: SV, s: SV, x: TreeNode, y: TreeNode| #![trigger roots_init(s0, s1, t), ins_live(s, x, y)] cx_from(s0, s1, s, t, o, x, y) && node_ctr(s, t) < u64::MAX ==> ins_live(s, x, y),
{
  assert forall|s1: SV| #[trigger] roots_init(s0, s1, t) implies node_ctr(s1, t) <= node_ctr(s0, t) + 2 by { lem_roots_ctr(s0, s1, t); }
  assert forall|s1: SV, s: SV, x: TreeNode, y: TreeNode| #![trigger roots_init(s0, s1, t), ins_live(s, x, y)] cx_from(s0, s1, s, t, o, x, y) && node_ctr(s, t) < u64::MAX implies ins_live(s, x, y) by { lem_cx_from(s0, s1, s, t, o, x, y); lem_cx_pre(s, t, o.order_direction, x, y); }
  let d = o.order_direction;
  assert forall|s1: SV, s: SV, r: SV, ok: bool, x: TreeNode, y: TreeNode, z: TreeNode| #![trigger roots_init(s0, s1, t), cx_told(s, r, ok, x, y, z)] cx_from(s0, s1, s, t, o, x, y) && cx_told(s, r, ok, x, y, z) implies ok by { lem_cx_from(s0, s1, s, t, o, x, y); lem_cx_pre(s, t, d, x, y); }
  assert forall|s1: SV, s: SV, r: SV, ok: bool, f: SV, x: TreeNode, y: TreeNode, z: TreeNode| #![trigger roots_init(s0, s1, t), cx_told(s, r, ok, x, y, z), canc_idx(s0, f, t, o)]
      cx_from(s0, s1, s, t, o, x, y) && cx_told(s, r, ok, x, y, z) && cx_to(r, f, z) implies canc_idx(s0, f, t, o) by { lem_cx_from(s0, s1, s, t, o, x, y); lem_cx_pre(s, t, d, x, y); lem_cx_end(s0, s, r, f, t, o, y, z); }
}
// fill progress after synchronisation to the tick's own progress
pub open spec fn etas_after(s: SV, t: i64, d: OrderDirection) -> int {
  let v = gtv(s, t, d); let e = v.effective_total_amount_swapped@;
  if v.last_tick_sync_etas@ == e { e as int } else { e + qf(entries(s, t, d), e, 0, v.cumulative_realized_cancels@) - v.cumulative_realized_cancels@ }
}
pub open spec fn sync_sure(s: SV, t: i64) -> bool {
  has_tick(s, t) && idx_ok(s, t) && sync_fits(s, t, OrderDirection::Bid, gtv(s, t, OrderDirection::Bid).effective_total_amount_swapped@) && sync_fits(s, t, OrderDirection::Ask, gtv(s, t, OrderDirection::Ask).effective_total_amount_swapped@)
}
// a cancellation by its owner, of an order nothing of which has been filled
pub open spec fn canc_sure(s: SV, info: MessageInfo, t: i64, id: u64) -> bool {
  let o = s.f_orders[(t, id)]; let d = o.order_direction; let a = o.quantity@ * E18();
  &&& info.funds@.len() == 0 && s.f_orderbook is Some && s.f_orders.dom().contains((t, id)) && info.sender@ == o.owner@
  &&& sync_sure(s, t) && canc_fit(s, t, o) && etas_after(s, t, d) <= o.etas@
  &&& dliq(s, d) >= a && gtv(s, t, d).total_amount_of_liquidity@ >= a
}
// a claim of an order of which something has been filled
pub open spec fn cl_sure(s: SV, t: i64, id: u64) -> bool {
  let o = s.f_orders[(t, id)];
  s.f_orderbook is Some && s.f_orders.dom().contains((t, id)) && in_range(t as int) && sync_sure(s, t) && cl_safe(s, t, id) && o.etas@ < etas_after(s, t, o.order_direction) < P256()
}
