// ---- folding cancellations into the fill progress: the queue-order rule ----
// part of a cancelled quantity `v` whose predecessors sum to `s` that is not yet accounted for in `prev`
pub open spec fn unr(v: nat, s: nat, prev: nat) -> nat { if s + v <= prev { 0 } else if s >= prev { v } else { (s + v - prev) as nat } }
// go through the entries `l` in order: each one starting at or before the progress `t` moves it on by what is not yet
// accounted for; stop at the first one that starts later. Result: the sum of the entries passed (plus `s`)
pub open spec fn qf(l: Seq<(nat, nat)>, t: nat, s: nat, prev: nat) -> nat decreases l.len() {
  if l.len() == 0 { s } else if t < l[0].0 { s } else { qf(l.drop_first(), t + unr(l[0].1, s, prev), s + l[0].1, prev) }
}
// are all entries passed?
pub open spec fn qall(l: Seq<(nat, nat)>, t: nat, s: nat, prev: nat) -> bool decreases l.len() {
  l.len() == 0 || (t >= l[0].0 && qall(l.drop_first(), t + unr(l[0].1, s, prev), s + l[0].1, prev))
}
pub proof fn lem_sum_first(l: Seq<(nat, nat)>)
  requires l.len() > 0
  ensures e_sum(l) == l[0].1 + e_sum(l.drop_first())
{
  assert(l =~= seq![l[0]] + l.drop_first());
  lem_sum_cat(seq![l[0]], l.drop_first());
  assert(seq![l[0]].drop_last() =~= Seq::<(nat, nat)>::empty());
  assert(e_sum(Seq::<(nat, nat)>::empty()) == 0);
  assert(seq![l[0]].last() == l[0]);
  assert(e_sum(seq![l[0]]) == l[0].1);
}
pub proof fn lem_sorted_tail(l: Seq<(nat, nat)>)
  requires l.len() > 0, e_sorted(l)
  ensures e_sorted(l.drop_first())
{
  let m = l.drop_first();
  assert forall|i: int| 0 <= i < m.len() implies (#[trigger] m[i]).1 > 0 by { assert(m[i] == l[i + 1]); }
  assert forall|i: int, j: int| 0 <= i < j < m.len() implies e_end(#[trigger] m[i]) <= (#[trigger] m[j]).0 by { assert(m[i] == l[i + 1] && m[j] == l[j + 1]); }
}
// disjoint entries fit between the first start and the last end
pub proof fn lem_sum_span(l: Seq<(nat, nat)>)
  requires l.len() > 0, e_sorted(l)
  ensures l[0].0 + e_sum(l) <= e_end(l.last())
  decreases l.len()
{
  lem_sum_first(l); lem_sorted_tail(l);
  let m = l.drop_first();
  if m.len() > 0 { lem_sum_span(m); assert(m.last() == l.last()); assert(e_end(l[0]) <= l[1].0); assert(m[0] == l[1]); } else { assert(e_sum(m) == 0); assert(l.last() == l[0]); }
}
// passing a whole list, then the rest
pub proof fn lem_qf_cat(a: Seq<(nat, nat)>, b: Seq<(nat, nat)>, t: nat, s: nat, prev: nat)
  ensures
    qall(a, t, s, prev) ==> qf(a + b, t, s, prev) == qf(b, t + unr(e_sum(a), s, prev), s + e_sum(a), prev) && qf(a, t, s, prev) == s + e_sum(a),
    !qall(a, t, s, prev) ==> qf(a + b, t, s, prev) == qf(a, t, s, prev),
  decreases a.len()
{
  if a.len() == 0 { assert(a + b =~= b); assert(e_sum(a) == 0); }
  else {
    assert((a + b).drop_first() =~= a.drop_first() + b); assert((a + b)[0] == a[0]);
    lem_sum_first(a);
    lem_qf_cat(a.drop_first(), b, t + unr(a[0].1, s, prev), s + a[0].1, prev);
  }
}
// when the progress ends up at or past the end of a list, all of it is passed
pub proof fn lem_qall(a: Seq<(nat, nat)>, t: nat, s: nat, prev: nat)
  requires e_sorted(a), a.len() > 0 ==> t + unr(e_sum(a), s, prev) >= e_end(a.last())
  ensures qall(a, t, s, prev)
  decreases a.len()
{
  if a.len() > 0 {
    lem_sum_first(a); lem_sum_span(a); lem_sorted_tail(a);
    let m = a.drop_first();
    if m.len() > 0 { assert(m.last() == a.last()); }
    lem_qall(m, t + unr(a[0].1, s, prev), s + a[0].1, prev);
  }
}
// one step of the walk at an inner node
pub proof fn lem_walk(g: GT, t: nat, s: nat, prev: nat)
  requires g is Node, e_sorted(g_lv(g))
  ensures ({ let l = g_left(g); let r = g_right(g); let t2 = t + unr(g_sum(l), s, prev);
    &&& g_lo(g) == g_lo(l) && g_hi(g) == g_hi(r) && g_lo(l) < g_hi(l) && g_hi(l) <= g_lo(r) && g_lo(r) < g_hi(r) && g_sum(g) == g_sum(l) + g_sum(r)
    &&& e_sorted(g_lv(l)) && e_sorted(g_lv(r))
    &&& t2 >= g_lo(r) ==> qf(g_lv(g), t, s, prev) == qf(g_lv(r), t2, s + g_sum(l), prev)
    &&& t2 < g_lo(r) ==> qf(g_lv(g), t, s, prev) == qf(g_lv(l), t, s, prev)
    &&& t2 < g_lo(r) && t >= g_hi(l) ==> qf(g_lv(g), t, s, prev) == s + g_sum(l)
    &&& t >= g_hi(g) ==> qf(g_lv(g), t, s, prev) == s + g_sum(g)
    &&& t < g_lo(g) ==> qf(g_lv(g), t, s, prev) == s
  })
{
  let l = g_left(g); let r = g_right(g); let a = g_lv(l); let b = g_lv(r); let t2 = t + unr(g_sum(l), s, prev);
  assert(g_lv(g) == a + b);
  lem_lv_parts(g); lem_lohi(g); lem_lohi(l); lem_lohi(r); lem_g_sum(l); lem_g_sum(r); lem_g_sum(g);
  assert(e_end(a.last()) <= b[0].0) by { assert(e_end(a[a.len() - 1]) <= b[0].0); }
  assert(g_lv(g)[0] == a[0]); assert(g_lv(g).last() == b.last());
  lem_qf_cat(a, b, t, s, prev);
  if t2 >= g_lo(r) || t >= g_hi(l) { lem_qall(a, t, s, prev); }
  if t >= g_hi(g) { lem_qall(g_lv(g), t, s, prev); lem_qf_cat(g_lv(g), Seq::empty(), t, s, prev); }
}
pub proof fn lem_walk_leaf(g: GT, t: nat, s: nat, prev: nat)
  requires g is Leaf
  ensures qf(g_lv(g), t, s, prev) == (if t < g_lo(g) { s } else { s + g_sum(g) })
{
  let l = g_lv(g); assert(l.drop_first() =~= Seq::<(nat, nat)>::empty());
  assert(qf(l.drop_first(), t + unr(l[0].1, s, prev), s + l[0].1, prev) == s + l[0].1);
}
// the stored subtree of record `x`
pub open spec fn g_here(n: Map<(i64, u64), TreeNode>, x: TreeNode, g: GT) -> bool { g_rep(n, x.tick_id, x.direction, x.parent, g) && x == g_mk(x.tick_id, x.direction, x.parent, g) }
pub open spec fn g_sub(n: Map<(i64, u64), TreeNode>, x: TreeNode) -> GT { choose|g: GT| g_here(n, x, g) }
pub proof fn lem_g_sub(n: Map<(i64, u64), TreeNode>, x: TreeNode, g: GT)
  requires g_here(n, x, g)
  ensures g_sub(n, x) == g
{
  let h = g_sub(n, x); assert(g_here(n, x, h));
  lem_g_unique(n, x.tick_id, x.direction, x.parent, g, h);
}
pub open spec fn walk_pre(n: Map<(i64, u64), TreeNode>, x: TreeNode, g: GT, c: nat, t: nat) -> bool {
  g_here(n, x, g) && g_ht(g) <= HT_MAX() && e_sorted(g_lv(g)) && c >= g_sum(g) && (t >= g_lo(g) || c == g_sum(g))
}
pub open spec fn one_rec(n: Map<(i64, u64), TreeNode>, x: TreeNode, a: GT) -> bool {
  x == one_root(x.tick_id, x.direction, x.key, a) && a is Leaf && g_rep(n, x.tick_id, x.direction, Some(x.key), a) && g_sum(a) > 0
}
// how far the walk can still go down from record `x`
pub open spec fn walk_size(n: Map<(i64, u64), TreeNode>, x: TreeNode) -> nat { if x.left is Some && x.right is None { HT_MAX() + 1 } else { g_ht(g_sub(n, x)) } }
// `x` is the root record (or the fresh one if none is stored)
pub open spec fn root_rec(s: SV, x: TreeNode) -> bool {
  (has_root(s, x.tick_id, x.direction) ==> x == root_node(s, x.tick_id, x.direction)) && (!has_root(s, x.tick_id, x.direction) ==> x.node_type == dflt_NodeType())
}
pub proof fn lem_child_here(n: Map<(i64, u64), TreeNode>, x: TreeNode, g: GT)
  requires g_here(n, x, g), g is Node, g_ht(g) <= HT_MAX()
  ensures lc(n, x) is Some, rc(n, x) is Some, g_here(n, lc(n, x)->0, g_left(g)), g_here(n, rc(n, x)->0, g_right(g)), g_sub(n, lc(n, x)->0) == g_left(g), g_sub(n, rc(n, x)->0) == g_right(g), g_ht(g_left(g)) <= HT_MAX(), g_ht(g_right(g)) <= HT_MAX()
{
  match g { GT::Node { k, l, r } => {
    lem_rec(x.tick_id, x.direction, Some(k), *l); lem_rec(x.tick_id, x.direction, Some(k), *r);
    assert(g_rep(n, x.tick_id, x.direction, Some(k), *l)); assert(g_rep(n, x.tick_id, x.direction, Some(k), *r));
    assert(has_rec(n, g_mk(x.tick_id, x.direction, Some(k), *l)));
    assert(has_rec(n, g_mk(x.tick_id, x.direction, Some(k), *r)));
    assert(x.left == Some(gk(*l)) && x.right == Some(gk(*r)));
    lem_g_sub(n, lc(n, x)->0, *l); lem_g_sub(n, rc(n, x)->0, *r);
  }, _ => {} }
}
pub proof fn lem_one_rec(n: Map<(i64, u64), TreeNode>, x: TreeNode, a: GT, t: nat, prev: nat)
  requires one_rec(n, x, a)
  ensures lc(n, x) is Some, rc(n, x) is None, g_here(n, lc(n, x)->0, a), g_sub(n, lc(n, x)->0) == a, nlo(x) == g_lo(a), nhi(x) == g_hi(a), nval(x) == g_sum(a), inner(x), g_ht(a) == 1, e_sorted(g_lv(a)), g_lo(a) < g_hi(a),
    nlo(lc(n, x)->0) == g_lo(a), nhi(lc(n, x)->0) == g_hi(a), qf(g_lv(a), t, 0, prev) == (if t < g_lo(a) { 0 } else { g_sum(a) }), qf(g_lv(a), t, (g_sum(a) - g_sum(a)) as nat, prev) == qf(g_lv(a), t, 0, prev)
{
  lem_rec(x.tick_id, x.direction, Some(x.key), a);
  assert(has_rec(n, g_mk(x.tick_id, x.direction, Some(x.key), a)));
  lem_g_sub(n, lc(n, x)->0, a);
  lem_walk_leaf(a, t, 0, prev);
}
// a stored root record carries its own tick and direction
pub proof fn lem_root_rec(s: SV, t: i64, d: OrderDirection)
  requires ix_is(s, t, d, ix_of(s, t, d))
  ensures ({ let x = root_node(s, t, d); x.tick_id == t && x.direction == d && root_rec(s, x) })
{
  match ix_of(s, t, d) { IX::Full { g } => { assert(has_rec(s.f_nodes, g_mk(t, d, None, g))); }, _ => {} }
}
pub proof fn lem_no_root(s: SV, t: i64, d: OrderDirection)
  requires !has_root(s, t, d)
  ensures ix_of(s, t, d) is Empty, entries(s, t, d).len() == 0, ix_is(s, t, d, IX::Empty)
{ assert(ix_is(s, t, d, IX::Empty)); lem_ix_of(s, t, d, IX::Empty); }
// what synchronisation would fold in now
pub open spec fn monus(a: nat, b: nat) -> nat { if a >= b { (a - b) as nat } else { 0 } }
pub open spec fn pend_v(s: SV, t: i64, d: OrderDirection, v: TickValues) -> nat { monus(qf(entries(s, t, d), v.effective_total_amount_swapped@, 0, v.cumulative_realized_cancels@), v.cumulative_realized_cancels@) }
pub open spec fn unr_is(s: SV, t: i64, k: TickState, u: UnrealizedCancels) -> bool {
  &&& ix_wf(s, t, OrderDirection::Ask) ==> u.ask_unrealized_cancels@ == pend_v(s, t, OrderDirection::Ask, k.ask_values)
  &&& ix_wf(s, t, OrderDirection::Bid) ==> u.bid_unrealized_cancels@ == pend_v(s, t, OrderDirection::Bid, k.bid_values)
  &&& !has_root(s, t, OrderDirection::Ask) ==> u.ask_unrealized_cancels@ == 0
  &&& !has_root(s, t, OrderDirection::Bid) ==> u.bid_unrealized_cancels@ == 0
}
pub open spec fn unr_at(s: SV, t: i64, x: TickUnrealizedCancels) -> bool { has_tick(s, t) && x.tick_id == t && unr_is(s, t, s.f_tick_state[t], x.unrealized_cancels) }
pub open spec fn unr_list(s: SV, ids: Seq<i64>, xs: Seq<TickUnrealizedCancels>) -> bool { xs.len() == ids.len() && forall|i: int| 0 <= i < ids.len() ==> #[trigger] unr_at(s, ids[i], xs[i]) }
// the fold cannot overflow
pub open spec fn unr_fits(s: SV, t: i64, d: OrderDirection, v: TickValues) -> bool { ix_wf(s, t, d) && v.effective_total_amount_swapped@ + e_sum(entries(s, t, d)) < P256() }
pub open spec fn unr_fit2(s: SV, t: i64, k: TickState) -> bool { unr_fits(s, t, OrderDirection::Ask, k.ask_values) && unr_fits(s, t, OrderDirection::Bid, k.bid_values) }
pub proof fn lem_i_sum(i: IX) ensures i_sum(i) == e_sum(i_lv(i)) { match i { IX::Empty => {} IX::One { a, .. } => { lem_g_sum(a); } IX::Full { g } => { lem_g_sum(g); } } }
pub proof fn lem_pend(s: SV, t: i64, d: OrderDirection)
  ensures ix_wf(s, t, d) ==> (({ let x = root_node(s, t, d); x.tick_id == t && x.direction == d && root_rec(s, x) }) && i_sum(ix_of(s, t, d)) == e_sum(entries(s, t, d))),
    !has_root(s, t, d) ==> ix_of(s, t, d) is Empty && entries(s, t, d).len() == 0 && forall|x: nat, c: nat| qf(entries(s, t, d), x, 0, c) == 0,
{
  if ix_wf(s, t, d) { lem_root_rec(s, t, d); lem_i_sum(ix_of(s, t, d)); }
  if !has_root(s, t, d) { lem_no_root(s, t, d); }
}
