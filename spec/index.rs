// ---- the whole cancellation index of one tick and direction ----
pub enum IX { Empty, One { k: u64, a: GT }, Full { g: GT } }
pub open spec fn i_ks(i: IX) -> ISet<u64> { match i { IX::Empty => ISet::empty(), IX::One { k, a } => one_key(k).insert(gk(a)), IX::Full { g } => g_ks(g) } }
pub open spec fn i_lv(i: IX) -> Seq<(nat, nat)> { match i { IX::Empty => Seq::empty(), IX::One { a, .. } => g_lv(a), IX::Full { g } => g_lv(g) } }
pub open spec fn i_sum(i: IX) -> nat { match i { IX::Empty => 0, IX::One { a, .. } => g_sum(a), IX::Full { g } => g_sum(g) } }
// the root of an index with exactly one entry
pub open spec fn one_root(t: i64, d: OrderDirection, k: u64, a: GT) -> TreeNode {
  TreeNode { key: k, tick_id: t, direction: d, left: Some(gk(a)), right: None, parent: None, node_type: NodeType::Internal { accumulator: d256(g_sum(a)), range: (d256(g_lo(a)), d256(g_hi(a))), weight: 2 } }
}
pub open spec fn ix_is(s: SV, t: i64, d: OrderDirection, i: IX) -> bool {
  match i {
    IX::Empty => !has_root(s, t, d),
    IX::One { k, a } => has_root(s, t, d) && s.f_tree[(t, dir_key(d))] == k && has_rec(s.f_nodes, one_root(t, d, k, a)) && a is Leaf && gk(a) != k && g_rep(s.f_nodes, t, d, Some(k), a) && g_hi(a) < P256(),
    IX::Full { g } => has_root(s, t, d) && s.f_tree[(t, dir_key(d))] == gk(g) && g is Node && g_rep(s.f_nodes, t, d, None, g) && g_dis(g) && g_bal(g) && g_hi(g) < P256(),
  }
}
pub open spec fn ix_of(s: SV, t: i64, d: OrderDirection) -> IX { choose|i: IX| ix_is(s, t, d, i) }
// the recorded cancellations: (position, quantity), in order
pub open spec fn entries(s: SV, t: i64, d: OrderDirection) -> Seq<(nat, nat)> { i_lv(ix_of(s, t, d)) }
pub open spec fn ix_wf(s: SV, t: i64, d: OrderDirection) -> bool {
  &&& ix_is(s, t, d, ix_of(s, t, d)) && e_sorted(entries(s, t, d))
  &&& s.f_tree.dom().contains((t, dir_key(d))) ==> s.f_tree[(t, dir_key(d))] <= node_ctr(s, t)
}
// index invariant of one tick: both indexes well-formed, no record shared, no record beyond the counter
pub open spec fn idx_ok(s: SV, t: i64) -> bool {
  &&& ix_wf(s, t, OrderDirection::Bid) && ix_wf(s, t, OrderDirection::Ask)
  &&& i_ks(ix_of(s, t, OrderDirection::Bid)).disjoint(i_ks(ix_of(s, t, OrderDirection::Ask)))
  &&& forall|k: u64| #[trigger] s.f_nodes.dom().contains((t, k)) ==> k <= node_ctr(s, t)
  &&& has_ptr(s, t, OrderDirection::Bid) && has_ptr(s, t, OrderDirection::Ask) ==> ptr(s, t, OrderDirection::Bid) != ptr(s, t, OrderDirection::Ask)
}
pub open spec fn has_ptr(s: SV, t: i64, d: OrderDirection) -> bool { s.f_tree.dom().contains((t, dir_key(d))) }
pub open spec fn ptr(s: SV, t: i64, d: OrderDirection) -> u64 { s.f_tree[(t, dir_key(d))] }

pub proof fn lem_ix_of(s: SV, t: i64, d: OrderDirection, i: IX)
  requires ix_is(s, t, d, i)
  ensures ix_of(s, t, d) == i
{
  let j = ix_of(s, t, d); assert(ix_is(s, t, d, j));
  let n = s.f_nodes;
  match i {
    IX::Empty => {}
    IX::One { k, a } => { match j { IX::One { k: k2, a: a2 } => { lem_g_unique(n, t, d, Some(k), a, a2); } IX::Full { g } => { assert(has_rec(n, g_mk(t, d, None, g))); } _ => {} } }
    IX::Full { g } => { assert(has_rec(n, g_mk(t, d, None, g))); match j { IX::Full { g: g2 } => { lem_g_unique(n, t, d, None, g, g2); } _ => {} } }
  }
}
// the records of an index are stored
pub proof fn lem_ks_stored(n: Map<(i64, u64), TreeNode>, t: i64, d: OrderDirection, p: Option<u64>, g: GT)
  requires g_rep(n, t, d, p, g)
  ensures forall|k: u64| #[trigger] g_ks(g).contains(k) ==> n.dom().contains((t, k))
  decreases g
{
  assert(has_rec(n, g_mk(t, d, p, g)));
  match g { GT::Leaf { .. } => {
    assert forall|j: u64| #[trigger] g_ks(g).contains(j) implies n.dom().contains((t, j)) by { assert(j == gk(g)); }
  }, GT::Node { k, l, r } => {
    lem_ks_stored(n, t, d, Some(k), *l); lem_ks_stored(n, t, d, Some(k), *r);
    assert forall|j: u64| #[trigger] g_ks(g).contains(j) implies n.dom().contains((t, j)) by { assert(j == k || g_ks(*l).contains(j) || g_ks(*r).contains(j)); }
  } }
}
pub proof fn lem_ix_stored(s: SV, t: i64, d: OrderDirection, i: IX)
  requires ix_is(s, t, d, i)
  ensures forall|k: u64| #[trigger] i_ks(i).contains(k) ==> s.f_nodes.dom().contains((t, k))
{
  match i { IX::Empty => {} IX::One { k, a } => { lem_ks_stored(s.f_nodes, t, d, Some(k), a); } IX::Full { g } => { lem_ks_stored(s.f_nodes, t, d, None, g); } }
}
pub proof fn lem_sum_cat(a: Seq<(nat, nat)>, b: Seq<(nat, nat)>)
  ensures e_sum(a + b) == e_sum(a) + e_sum(b)
  decreases b.len()
{
  if b.len() == 0 { assert(a + b =~= a); } else { assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last()); lem_sum_cat(a, b.drop_last()); }
}
pub open spec fn e_sum(l: Seq<(nat, nat)>) -> nat decreases l.len() { if l.len() == 0 { 0 } else { e_sum(l.drop_last()) + l.last().1 } }
pub proof fn lem_g_sum(g: GT) ensures g_sum(g) == e_sum(g_lv(g)) decreases g {
  match g { GT::Leaf { e, v, .. } => { assert(g_lv(g).drop_last() =~= Seq::<(nat, nat)>::empty()); assert(e_sum(g_lv(g).drop_last()) == 0); assert(g_lv(g).last().1 == v); }, GT::Node { l, r, .. } => { lem_g_sum(*l); lem_g_sum(*r); lem_sum_cat(g_lv(*l), g_lv(*r)); } }
}
pub proof fn lem_added_sum(l: Seq<(nat, nat)>, m: Seq<(nat, nat)>, x: (nat, nat))
  requires e_added(l, m, x)
  ensures e_sum(m) == e_sum(l) + x.1, m.len() == l.len() + 1
{
  let i = choose|i: int| 0 <= i <= l.len() && m =~= #[trigger] l.insert(i, x);
  let a = l.take(i); let b = l.skip(i);
  assert(m =~= a.push(x) + b); assert(l =~= a + b);
  lem_sum_cat(a, b); lem_sum_cat(a.push(x), b); assert(a.push(x).drop_last() =~= a);
}
// ---- the height of a balanced index is logarithmic, hence small ----
pub open spec fn g_ki(g: GT) -> Set<int> decreases g { match g { GT::Leaf { k, .. } => set![k as int], GT::Node { k, l, r } => g_ki(*l).union(g_ki(*r)).insert(k as int) } }
pub open spec fn g_cnt(g: GT) -> nat decreases g { match g { GT::Leaf { .. } => 1, GT::Node { l, r, .. } => g_cnt(*l) + g_cnt(*r) + 1 } }
pub open spec fn p2(n: nat) -> nat decreases n { if n == 0 { 1 } else { 2 * p2((n - 1) as nat) } }
pub proof fn lem_ki(g: GT)
  requires g_dis(g)
  ensures forall|i: int| #[trigger] g_ki(g).contains(i) <==> 0 <= i <= u64::MAX && g_ks(g).contains(i as u64), g_ki(g).len() == g_cnt(g), g_ki(g).finite()
  decreases g
{
  match g { GT::Leaf { k, .. } => { assert(g_ki(g) =~= Set::<int>::empty().insert(k as int)); }
    GT::Node { k, l, r } => {
      lem_ki(*l); lem_ki(*r);
      let a = g_ki(*l); let b = g_ki(*r);
      assert(a.disjoint(b)) by { assert forall|i: int| a.contains(i) implies !b.contains(i) by { assert(g_ks(*l).contains(i as u64)); } }
      vstd::set_lib::lemma_set_disjoint_lens(a, b);
      assert(!a.union(b).contains(k as int));
    } }
}
pub proof fn lem_cnt(g: GT)
  requires g_bal(g)
  ensures g_cnt(g) >= p2(g_ht(g) / 2)
  decreases g
{
  match g { GT::Leaf { .. } => { assert(p2(0) == 1); assert(g_ht(g) / 2 == 0); } GT::Node { l, r, .. } => {
    lem_cnt(*l); lem_cnt(*r); lem_ht_pos(*l); lem_ht_pos(*r);
    let h = g_ht(g);
    assert(g_ht(*l) >= h - 2 && g_ht(*r) >= h - 2);
    lem_p2((g_ht(*l) / 2) as nat, (h / 2 - 1) as nat); lem_p2((g_ht(*r) / 2) as nat, (h / 2 - 1) as nat);
    assert(p2(h / 2) == 2 * p2((h / 2 - 1) as nat));
  } }
}
pub proof fn lem_p2(a: nat, b: nat) requires a >= b ensures p2(a) >= p2(b) decreases a { if a > b { lem_p2((a - 1) as nat, b); } }
pub proof fn lem_height(g: GT)
  requires g_bal(g), g_dis(g)
  ensures g_ht(g) <= 131
{
  lem_ki(g); lem_cnt(g);
  let all = vstd::set_lib::set_int_range(0, 0x1_0000_0000_0000_0000);
  vstd::set_lib::lemma_int_range(0, 0x1_0000_0000_0000_0000);
  assert(g_ki(g).subset_of(all));
  vstd::set_lib::lemma_len_subset(g_ki(g), all);
  if g_ht(g) > 131 { lem_p2(g_ht(g) / 2, 66); assert(p2(66) > 0x1_0000_0000_0000_0000) by (compute); }
}
