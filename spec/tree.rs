// ---- records of the cancellation index ----
pub open spec fn nval(x: TreeNode) -> nat { match x.node_type { NodeType::Internal { accumulator, .. } => accumulator@, NodeType::Leaf { value, .. } => value@ } }
pub open spec fn nlo(x: TreeNode) -> nat { match x.node_type { NodeType::Internal { range, .. } => range.0@, NodeType::Leaf { etas, .. } => etas@ } }
pub open spec fn nhi(x: TreeNode) -> nat { match x.node_type { NodeType::Internal { range, .. } => range.1@, NodeType::Leaf { value, etas } => value@ + etas@ } }
pub open spec fn nwt(x: TreeNode) -> u64 { match x.node_type { NodeType::Internal { weight, .. } => weight, NodeType::Leaf { .. } => 1 } }
pub open spec fn inner(x: TreeNode) -> bool { x.node_type is Internal }
pub open spec fn at_key(n: Map<(i64, u64), TreeNode>, t: i64, k: Option<u64>) -> Option<TreeNode> { if k is Some && n.dom().contains((t, k->0)) { Some(n[(t, k->0)]) } else { None } }
pub open spec fn lc(n: Map<(i64, u64), TreeNode>, x: TreeNode) -> Option<TreeNode> { at_key(n, x.tick_id, x.left) }
pub open spec fn rc(n: Map<(i64, u64), TreeNode>, x: TreeNode) -> Option<TreeNode> { at_key(n, x.tick_id, x.right) }
pub open spec fn w_of(o: Option<TreeNode>) -> nat { match o { Some(x) => nwt(x) as nat, None => 0 } }
pub open spec fn v_of(o: Option<TreeNode>) -> nat { match o { Some(x) => nval(x), None => 0 } }
pub open spec fn lo2(a: Option<TreeNode>, b: Option<TreeNode>) -> nat { match (a, b) { (Some(x), Some(y)) => nmin(nlo(x), nlo(y)), (Some(x), None) => nlo(x), (None, Some(y)) => nlo(y), (None, None) => 0 } }
pub open spec fn nmax2(a: nat, b: nat) -> nat { if a >= b { a } else { b } }
pub open spec fn hi2(a: Option<TreeNode>, b: Option<TreeNode>) -> nat { match (a, b) { (Some(x), Some(y)) => nmax2(nhi(x), nhi(y)), (Some(x), None) => nhi(x), (None, Some(y)) => nhi(y), (None, None) => 0 } }
// the record of an inner node recomputed from its children
pub open spec fn resum(x: TreeNode, l: Option<TreeNode>, r: Option<TreeNode>) -> TreeNode {
  TreeNode { node_type: NodeType::Internal { accumulator: d256(v_of(l) + v_of(r)), range: (d256(lo2(l, r)), d256(hi2(l, r))), weight: (nmax2(w_of(l), w_of(r)) + 1) as u64 }, ..x }
}
pub open spec fn put_node(s: SV, x: TreeNode) -> SV { SV { f_nodes: s.f_nodes.insert((x.tick_id, x.key), x), ..s } }
// ---- splitting a leaf: a fresh inner node over the old and the new leaf, in order of their ranges ----
pub open spec fn split_node(s: SV, x: TreeNode, y: TreeNode) -> TreeNode {
  let below = nhi(x) <= nlo(y);
  TreeNode { key: (node_ctr(s, x.tick_id) + 1) as u64, tick_id: x.tick_id, direction: x.direction, left: Some(if below { x.key } else { y.key }), right: Some(if below { y.key } else { x.key }), parent: x.parent,
    node_type: NodeType::Internal { accumulator: d256(nval(x) + nval(y)), range: (d256(nmin(nlo(x), nlo(y))), d256(nmax2(nhi(x), nhi(y)))), weight: 2 } }
}
pub open spec fn apart(x: TreeNode, y: TreeNode) -> bool { nhi(x) <= nlo(y) || nlo(x) >= nhi(y) }
pub open spec fn with_parent(x: TreeNode, p: u64) -> TreeNode { TreeNode { parent: Some(p), ..x } }
pub open spec fn split_state(s: SV, x: TreeNode, y: TreeNode) -> SV {
  let q = split_node(s, x, y);
  put_node(put_node(put_node(bump_ctr(s, x.tick_id), q), with_parent(x, q.key)), with_parent(y, q.key))
}
// ---- the index as a tree ----
// every inner node has two children (only the root of an index with at most one entry differs, see `one_rep`)
pub enum GT { Leaf { k: u64, e: nat, v: nat }, Node { k: u64, l: Box<GT>, r: Box<GT> } }
pub open spec fn gk(g: GT) -> u64 { match g { GT::Leaf { k, .. } => k, GT::Node { k, .. } => k } }
pub open spec fn g_lo(g: GT) -> nat decreases g { match g { GT::Leaf { e, .. } => e, GT::Node { l, r, .. } => nmin(g_lo(*l), g_lo(*r)) } }
pub open spec fn g_hi(g: GT) -> nat decreases g { match g { GT::Leaf { e, v, .. } => v + e, GT::Node { l, r, .. } => nmax2(g_hi(*l), g_hi(*r)) } }
pub open spec fn g_sum(g: GT) -> nat decreases g { match g { GT::Leaf { v, .. } => v, GT::Node { l, r, .. } => g_sum(*l) + g_sum(*r) } }
pub open spec fn g_ht(g: GT) -> nat decreases g { match g { GT::Leaf { .. } => 1, GT::Node { l, r, .. } => nmax2(g_ht(*l), g_ht(*r)) + 1 } }
pub open spec fn g_ks(g: GT) -> ISet<u64> decreases g { match g { GT::Leaf { k, .. } => one_key(k), GT::Node { k, l, r } => g_ks(*l).union(g_ks(*r)).insert(k) } }
// the recorded entries from left to right: (position, quantity)
pub open spec fn g_lv(g: GT) -> Seq<(nat, nat)> decreases g { match g { GT::Leaf { e, v, .. } => seq![(e, v)], GT::Node { l, r, .. } => g_lv(*l) + g_lv(*r) } }
// no record is used twice
pub open spec fn g_dis(g: GT) -> bool decreases g { match g { GT::Leaf { .. } => true, GT::Node { k, l, r } => g_dis(*l) && g_dis(*r) && !g_ks(*l).contains(k) && !g_ks(*r).contains(k) && g_ks(*l).disjoint(g_ks(*r)) } }
pub open spec fn adiff(a: nat, b: nat) -> nat { if a >= b { (a - b) as nat } else { (b - a) as nat } }
// heights of siblings differ by at most one
pub open spec fn g_bal(g: GT) -> bool decreases g { match g { GT::Leaf { .. } => true, GT::Node { l, r, .. } => g_bal(*l) && g_bal(*r) && adiff(g_ht(*l), g_ht(*r)) <= 1 } }
// the stored record of the root of `g`
pub open spec fn g_mk(t: i64, d: OrderDirection, p: Option<u64>, g: GT) -> TreeNode {
  match g {
    GT::Leaf { k, e, v } => TreeNode { key: k, tick_id: t, direction: d, left: None, right: None, parent: p, node_type: NodeType::Leaf { value: d256(v), etas: d256(e) } },
    GT::Node { k, l, r } => TreeNode { key: k, tick_id: t, direction: d, left: Some(gk(*l)), right: Some(gk(*r)), parent: p, node_type: NodeType::Internal { accumulator: d256(g_sum(g)), range: (d256(g_lo(g)), d256(g_hi(g))), weight: g_ht(g) as u64 } },
  }
}
pub open spec fn has_rec(n: Map<(i64, u64), TreeNode>, x: TreeNode) -> bool { n.dom().contains((x.tick_id, x.key)) && n[(x.tick_id, x.key)] == x }
// the records stored in `n` are exactly the tree `g`, hanging below `p`
pub open spec fn g_rep(n: Map<(i64, u64), TreeNode>, t: i64, d: OrderDirection, p: Option<u64>, g: GT) -> bool decreases g {
  has_rec(n, g_mk(t, d, p, g)) && match g { GT::Leaf { .. } => true, GT::Node { k, l, r } => g_rep(n, t, d, Some(k), *l) && g_rep(n, t, d, Some(k), *r) }
}
// the same with the root record's sum, range and height not yet recomputed
pub open spec fn g_old(x: TreeNode, t: i64, d: OrderDirection, p: Option<u64>, g: GT) -> bool { g is Node && inner(x) && x == (TreeNode { node_type: x.node_type, ..g_mk(t, d, p, g) }) }
pub open spec fn g_kids(n: Map<(i64, u64), TreeNode>, t: i64, d: OrderDirection, g: GT) -> bool { match g { GT::Leaf { .. } => true, GT::Node { k, l, r } => g_rep(n, t, d, Some(k), *l) && g_rep(n, t, d, Some(k), *r) } }
// record `x` (in memory) with its stored subtrees is the tree `g`
pub open spec fn g_at(n: Map<(i64, u64), TreeNode>, x: TreeNode, g: GT) -> bool {
  g_old(x, x.tick_id, x.direction, x.parent, g) && g_kids(n, x.tick_id, x.direction, g) && g_dis(g)
}
pub open spec fn g_of(n: Map<(i64, u64), TreeNode>, x: TreeNode) -> GT { choose|g: GT| g_at(n, x, g) }
// records outside `ks` of tick `t` are untouched
pub open spec fn g_fr(n: Map<(i64, u64), TreeNode>, m: Map<(i64, u64), TreeNode>, t: i64, ks: ISet<u64>) -> bool {
  forall|x: (i64, u64)| #![trigger m.dom().contains(x)] #![trigger m[x]] x.0 != t || !ks.contains(x.1) ==> m.dom().contains(x) == n.dom().contains(x) && m[x] == n[x]
}
pub open spec fn rot_r(g: GT) -> GT { match g { GT::Node { k, l, r } => match *l { GT::Node { k: lk, l: ll, r: lr } => GT::Node { k: lk, l: ll, r: Box::new(GT::Node { k: k, l: lr, r: r }) }, _ => g }, _ => g } }
pub open spec fn rot_l(g: GT) -> GT { match g { GT::Node { k, l, r } => match *r { GT::Node { k: rk, l: rl, r: rr } => GT::Node { k: rk, l: Box::new(GT::Node { k: k, l: l, r: rl }), r: rr }, _ => g }, _ => g } }
pub open spec fn g_left(g: GT) -> GT { match g { GT::Node { l, .. } => *l, _ => g } }
pub open spec fn g_right(g: GT) -> GT { match g { GT::Node { r, .. } => *r, _ => g } }
pub open spec fn g_bf(g: GT) -> int { match g { GT::Node { l, r, .. } => g_ht(*r) - g_ht(*l), _ => 0 } }
pub open spec fn g_node(g: GT, l: GT, r: GT) -> GT { GT::Node { k: gk(g), l: Box::new(l), r: Box::new(r) } }
// what rebalancing does
pub open spec fn g_reb(g: GT) -> GT {
  if -1 <= g_bf(g) <= 1 { g }
  else if g_bf(g) > 0 { if g_bf(g_right(g)) >= 0 { rot_l(g) } else { rot_l(g_node(g, g_left(g), rot_r(g_right(g)))) } }
  else { if g_bf(g_left(g)) <= 0 { rot_r(g) } else { rot_r(g_node(g, rot_l(g_left(g)), g_right(g))) } }
}
// pointers to `k` become pointers to `k2`
pub open spec fn relink(q: TreeNode, k: u64, k2: u64) -> TreeNode {
  TreeNode { left: if q.left == Some(k) { Some(k2) } else { q.left }, right: if q.right == Some(k) { Some(k2) } else { q.right }, ..q }
}
pub open spec fn one_key(k: u64) -> ISet<u64> { ISet::empty().insert(k) }
pub open spec fn key_set(p: Option<u64>) -> ISet<u64> { match p { Some(k) => one_key(k), None => ISet::empty() } }
// the parent of `x` (if any) is stored, is not part of `g` and points to `x` once
pub open spec fn par_ok(n: Map<(i64, u64), TreeNode>, x: TreeNode, g: GT) -> bool {
  match x.parent { None => true, Some(p) => n.dom().contains((x.tick_id, p)) && !g_ks(g).contains(p) && n[(x.tick_id, p)].key == p && n[(x.tick_id, p)].tick_id == x.tick_id
    && (n[(x.tick_id, p)].left == Some(x.key) <==> n[(x.tick_id, p)].right != Some(x.key)) }
}
// `x`'s subtree `g` has become `g2` in place: the parent or the root pointer follows, nothing else changes
pub open spec fn g_moved(s: SV, r: SV, x: TreeNode, y: TreeNode, g: GT, g2: GT, fresh: ISet<u64>) -> bool {
  &&& g_rep(r.f_nodes, x.tick_id, x.direction, x.parent, g2) && g_dis(g2)
  &&& g_ks(g2).subset_of(g_ks(g).union(fresh))
  &&& g_fr(s.f_nodes, r.f_nodes, x.tick_id, g_ks(g).union(fresh).union(key_set(x.parent)))
  &&& x.parent is Some ==> r.f_nodes.dom().contains((x.tick_id, x.parent->0)) && r.f_nodes[(x.tick_id, x.parent->0)] == relink(s.f_nodes[(x.tick_id, x.parent->0)], gk(g), gk(g2))
  &&& r.f_tree == (if x.parent is None && gk(g) != gk(g2) { s.f_tree.insert((x.tick_id, dir_key(x.direction)), gk(g2)) } else { s.f_tree })
  &&& has_rec(r.f_nodes, y) && y.key == x.key && y.tick_id == x.tick_id
}
// ---- facts about trees ----
pub proof fn lem_g_frame(n: Map<(i64, u64), TreeNode>, m: Map<(i64, u64), TreeNode>, t: i64, d: OrderDirection, p: Option<u64>, g: GT, ks: ISet<u64>)
  requires g_rep(n, t, d, p, g), g_fr(n, m, t, ks), g_ks(g).disjoint(ks)
  ensures g_rep(m, t, d, p, g)
  decreases g
{
  assert(g_ks(g).contains(gk(g)));
  match g { GT::Leaf { .. } => {}, GT::Node { k, l, r } => {
    assert(g_ks(*l).subset_of(g_ks(g))); assert(g_ks(*r).subset_of(g_ks(g)));
    lem_g_frame(n, m, t, d, Some(k), *l, ks); lem_g_frame(n, m, t, d, Some(k), *r, ks); } }
}
pub proof fn lem_g_unique(n: Map<(i64, u64), TreeNode>, t: i64, d: OrderDirection, p: Option<u64>, a: GT, b: GT)
  requires g_rep(n, t, d, p, a), g_rep(n, t, d, p, b), gk(a) == gk(b)
  ensures a == b
  decreases a
{
  assert(g_mk(t, d, p, a) == g_mk(t, d, p, b));
  match a {
    GT::Leaf { k, e, v } => { assert(d256(v)@ == v && d256(e)@ == e); match b { GT::Leaf { k: k2, e: e2, v: v2 } => { assert(d256(v2)@ == v2 && d256(e2)@ == e2); }, _ => {} } }
    GT::Node { k, l, r } => match b { GT::Node { k: k2, l: l2, r: r2 } => { lem_g_unique(n, t, d, Some(k), *l, *l2); lem_g_unique(n, t, d, Some(k), *r, *r2); }, _ => {} }
  }
}
pub proof fn lem_g_of(n: Map<(i64, u64), TreeNode>, x: TreeNode, g: GT)
  requires g_at(n, x, g)
  ensures g_of(n, x) == g
{
  let h = g_of(n, x); assert(g_at(n, x, h));
  match g { GT::Node { k, l, r } => match h { GT::Node { k: k2, l: l2, r: r2 } => { lem_g_unique(n, x.tick_id, x.direction, Some(k), *l, *l2); lem_g_unique(n, x.tick_id, x.direction, Some(k), *r, *r2); }, _ => {} }, _ => {} }
}
// the recomputed record is the tree's record
pub proof fn lem_g_resum(n: Map<(i64, u64), TreeNode>, x: TreeNode, g: GT)
  requires g_at(n, x, g), g_ht(g) < u64::MAX
  ensures resum(x, lc(n, x), rc(n, x)) == g_mk(x.tick_id, x.direction, x.parent, g), lc(n, x) is Some, rc(n, x) is Some,
    v_of(lc(n, x)) + v_of(rc(n, x)) == g_sum(g), w_of(lc(n, x)) == g_ht(g_left(g)), w_of(rc(n, x)) == g_ht(g_right(g)),
    lc(n, x)->0 == g_mk(x.tick_id, x.direction, Some(x.key), g_left(g)), rc(n, x)->0 == g_mk(x.tick_id, x.direction, Some(x.key), g_right(g)),
{
  match g { GT::Node { k, l, r } => { lem_rec(x.tick_id, x.direction, Some(k), *l); lem_rec(x.tick_id, x.direction, Some(k), *r); }, _ => {} }
}
pub proof fn lem_rec(t: i64, d: OrderDirection, p: Option<u64>, g: GT)
  requires g_ht(g) < u64::MAX
  ensures nval(g_mk(t, d, p, g)) == g_sum(g), nlo(g_mk(t, d, p, g)) == g_lo(g), nhi(g_mk(t, d, p, g)) == g_hi(g), nwt(g_mk(t, d, p, g)) == g_ht(g)
{}
pub proof fn lem_g_put(n: Map<(i64, u64), TreeNode>, t: i64, d: OrderDirection, p: Option<u64>, g: GT, k: u64, x: TreeNode)
  requires g_rep(n, t, d, p, g), !g_ks(g).contains(k)
  ensures g_rep(n.insert((t, k), x), t, d, p, g)
{
  assert(g_ks(g).disjoint(one_key(k)));
  lem_g_frame(n, n.insert((t, k), x), t, d, p, g, one_key(k));
}
// writing the root's record over its children (re-)establishes the tree, below any parent
pub proof fn lem_g_root(n: Map<(i64, u64), TreeNode>, t: i64, d: OrderDirection, q: Option<u64>, g: GT)
  requires g_kids(n, t, d, g), g_dis(g)
  ensures g_rep(n.insert((t, gk(g)), g_mk(t, d, q, g)), t, d, q, g)
{
  match g { GT::Leaf { .. } => {}, GT::Node { k, l, r } => { lem_g_put(n, t, d, Some(k), *l, k, g_mk(t, d, q, g)); lem_g_put(n, t, d, Some(k), *r, k, g_mk(t, d, q, g)); } }
}
pub open spec fn HT_MAX() -> nat { 1000 }
// preconditions under which the index code is exact
pub open spec fn g_pre(n: Map<(i64, u64), TreeNode>, x: TreeNode, g: GT) -> bool { g_at(n, x, g) && par_ok(n, x, g) && g_ht(g) <= HT_MAX() && g_sum(g) < P256() && g_hi(g) < P256() }
pub proof fn lem_ht_pos(g: GT) ensures g_ht(g) >= 1, g_ks(g).contains(gk(g)) {}
// the three writes of a right rotation before the sums are recomputed
pub open spec fn rr_mid(n: Map<(i64, u64), TreeNode>, x: TreeNode) -> Map<(i64, u64), TreeNode> {
  let l = lc(n, x)->0; let x2 = TreeNode { parent: Some(l.key), left: l.right, ..x };
  let n1 = match lc(n, x2) { Some(c) => n.insert((x.tick_id, c.key), with_parent(c, x.key)), None => n };
  n1.insert((x.tick_id, l.key), TreeNode { parent: x.parent, right: Some(x.key), ..l }).insert((x.tick_id, x.key), x2)
}
pub proof fn lem_rot_r(n: Map<(i64, u64), TreeNode>, x: TreeNode, g: GT)
  requires g_pre(n, x, g), g_left(g) is Node
  ensures ({ let l = lc(n, x)->0; let t = x.tick_id; let d = x.direction; let x2 = TreeNode { parent: Some(l.key), left: l.right, ..x }; let l2 = TreeNode { parent: x.parent, right: Some(x.key), ..l };
    let m = rr_mid(n, x); let h = g_right(rot_r(g)); let m2 = m.insert((t, gk(h)), g_mk(t, d, Some(l.key), h)); let m3 = m2.insert((t, gk(rot_r(g))), g_mk(t, d, x.parent, rot_r(g)));
    &&& lc(n, x) is Some && inner(l) && lc(n, x2) is Some
    &&& g_at(m, x2, h) && g_ht(h) <= HT_MAX() && g_sum(h) < P256() && gk(h) == x.key
    &&& g_at(m2, l2, rot_r(g)) && g_sum(rot_r(g)) == g_sum(g) && g_hi(rot_r(g)) == g_hi(g) && gk(rot_r(g)) == l.key && g_ht(rot_r(g)) <= HT_MAX() + 1 && l.key != x.key
    &&& g_rep(m3, t, d, x.parent, rot_r(g)) && g_dis(rot_r(g)) && g_ks(rot_r(g)) =~= g_ks(g) && g_lv(rot_r(g)) =~= g_lv(g)
    &&& g_fr(n, m3, t, g_ks(g)) && has_rec(m3, g_mk(t, d, Some(l.key), h))
  })
{
  let t = x.tick_id; let d = x.direction; let m = rr_mid(n, x);
  match g { GT::Node { k, l, r } => match *l { GT::Node { k: lk, l: ll, r: lr } => {
    let a = lc(n, x)->0; let x2 = TreeNode { parent: Some(a.key), left: a.right, ..x }; let a2 = TreeNode { parent: x.parent, right: Some(x.key), ..a };
    lem_ht_pos(*ll); lem_ht_pos(*lr); lem_ht_pos(*r); lem_ht_pos(*l);
    assert(g_rep(n, t, d, Some(k), *l)); assert(g_rep(n, t, d, Some(lk), *lr)); assert(g_rep(n, t, d, Some(lk), *ll));
    assert(a == g_mk(t, d, Some(k), *l)); assert(a.key == lk && a.right == Some(gk(*lr)));
    let c = lc(n, x2)->0; assert(c == g_mk(t, d, Some(lk), *lr));
    assert(with_parent(c, k) == g_mk(t, d, Some(k), *lr));
    let n1 = n.insert((t, c.key), with_parent(c, k));
    assert(g_dis(*l)); assert(g_dis(*lr) && g_dis(*ll)); assert(g_ks(*lr).subset_of(g_ks(*l)) && g_ks(*ll).subset_of(g_ks(*l)) && g_ks(*l).contains(lk));
    assert(g_ks(*l).contains(gk(*lr)));
    assert(g_kids(n, t, d, *lr)); lem_g_root(n, t, d, Some(k), *lr);
    lem_g_put(n, t, d, Some(lk), *ll, c.key, with_parent(c, k)); lem_g_put(n, t, d, Some(k), *r, c.key, with_parent(c, k));
    let n2 = n1.insert((t, lk), a2);
    assert(g_ks(*l).contains(lk));
    lem_g_put(n1, t, d, Some(k), *lr, lk, a2); lem_g_put(n1, t, d, Some(lk), *ll, lk, a2); lem_g_put(n1, t, d, Some(k), *r, lk, a2);
    assert(m == n2.insert((t, k), x2));
    assert(!g_ks(*l).contains(k));
    lem_g_put(n2, t, d, Some(k), *lr, k, x2); lem_g_put(n2, t, d, Some(lk), *ll, k, x2); lem_g_put(n2, t, d, Some(k), *r, k, x2);
    let h = GT::Node { k: k, l: lr, r: r };
    assert(g_right(rot_r(g)) == h);
    assert(g_dis(h)); assert(g_at(m, x2, h));
    let hr = g_mk(t, d, Some(lk), h); let m2 = m.insert((t, k), hr);
    lem_g_root(m, t, d, Some(lk), h); lem_g_put(m, t, d, Some(lk), *ll, k, hr);
    assert(!g_ks(*ll).contains(k)); assert(!g_ks(h).contains(lk)); assert(g_ks(*ll).disjoint(g_ks(h)));
    assert(g_dis(rot_r(g))); assert(g_at(m2, a2, rot_r(g)));
    lem_g_root(m2, t, d, x.parent, rot_r(g));
    assert(g_ks(rot_r(g)) =~= g_ks(g));
    assert(g_lv(*l) == g_lv(*ll) + g_lv(*lr)); assert(g_lv(h) == g_lv(*lr) + g_lv(*r)); assert(g_lv(rot_r(g)) == g_lv(*ll) + g_lv(h));
    assert(g_lv(rot_r(g)) =~= g_lv(g));
  }, _ => {} }, _ => {} }
}
// the three writes of a left rotation before the sums are recomputed
pub open spec fn rl_mid(n: Map<(i64, u64), TreeNode>, x: TreeNode) -> Map<(i64, u64), TreeNode> {
  let l = rc(n, x)->0; let x2 = TreeNode { parent: Some(l.key), right: l.left, ..x };
  let n1 = match rc(n, x2) { Some(c) => n.insert((x.tick_id, c.key), with_parent(c, x.key)), None => n };
  n1.insert((x.tick_id, l.key), TreeNode { parent: x.parent, left: Some(x.key), ..l }).insert((x.tick_id, x.key), x2)
}
pub proof fn lem_rot_l(n: Map<(i64, u64), TreeNode>, x: TreeNode, g: GT)
  requires g_pre(n, x, g), g_right(g) is Node
  ensures ({ let l = rc(n, x)->0; let t = x.tick_id; let d = x.direction; let x2 = TreeNode { parent: Some(l.key), right: l.left, ..x }; let l2 = TreeNode { parent: x.parent, left: Some(x.key), ..l };
    let m = rl_mid(n, x); let h = g_left(rot_l(g)); let m2 = m.insert((t, gk(h)), g_mk(t, d, Some(l.key), h)); let m3 = m2.insert((t, gk(rot_l(g))), g_mk(t, d, x.parent, rot_l(g)));
    &&& rc(n, x) is Some && inner(l) && rc(n, x2) is Some
    &&& g_at(m, x2, h) && g_ht(h) <= HT_MAX() && g_sum(h) < P256() && gk(h) == x.key
    &&& g_at(m2, l2, rot_l(g)) && g_sum(rot_l(g)) == g_sum(g) && g_hi(rot_l(g)) == g_hi(g) && gk(rot_l(g)) == l.key && g_ht(rot_l(g)) <= HT_MAX() + 1 && l.key != x.key
    &&& g_rep(m3, t, d, x.parent, rot_l(g)) && g_dis(rot_l(g)) && g_ks(rot_l(g)) =~= g_ks(g) && g_lv(rot_l(g)) =~= g_lv(g)
    &&& g_fr(n, m3, t, g_ks(g)) && has_rec(m3, g_mk(t, d, Some(l.key), h))
  })
{
  let t = x.tick_id; let d = x.direction; let m = rl_mid(n, x);
  match g { GT::Node { k, l: r, r: l } => match *l { GT::Node { k: lk, l: lr, r: ll } => {
    let a = rc(n, x)->0; let x2 = TreeNode { parent: Some(a.key), right: a.left, ..x }; let a2 = TreeNode { parent: x.parent, left: Some(x.key), ..a };
    lem_ht_pos(*ll); lem_ht_pos(*lr); lem_ht_pos(*r); lem_ht_pos(*l);
    assert(g_rep(n, t, d, Some(k), *l)); assert(g_rep(n, t, d, Some(lk), *lr)); assert(g_rep(n, t, d, Some(lk), *ll));
    assert(a == g_mk(t, d, Some(k), *l)); assert(a.key == lk && a.left == Some(gk(*lr)));
    let c = rc(n, x2)->0; assert(c == g_mk(t, d, Some(lk), *lr));
    assert(with_parent(c, k) == g_mk(t, d, Some(k), *lr));
    let n1 = n.insert((t, c.key), with_parent(c, k));
    assert(g_dis(*l)); assert(g_dis(*lr) && g_dis(*ll)); assert(g_ks(*lr).subset_of(g_ks(*l)) && g_ks(*ll).subset_of(g_ks(*l)) && g_ks(*l).contains(lk));
    assert(g_ks(*l).contains(gk(*lr)));
    assert(g_kids(n, t, d, *lr)); lem_g_root(n, t, d, Some(k), *lr);
    lem_g_put(n, t, d, Some(lk), *ll, c.key, with_parent(c, k)); lem_g_put(n, t, d, Some(k), *r, c.key, with_parent(c, k));
    let n2 = n1.insert((t, lk), a2);
    assert(g_ks(*l).contains(lk));
    lem_g_put(n1, t, d, Some(k), *lr, lk, a2); lem_g_put(n1, t, d, Some(lk), *ll, lk, a2); lem_g_put(n1, t, d, Some(k), *r, lk, a2);
    assert(m == n2.insert((t, k), x2));
    assert(!g_ks(*l).contains(k));
    lem_g_put(n2, t, d, Some(k), *lr, k, x2); lem_g_put(n2, t, d, Some(lk), *ll, k, x2); lem_g_put(n2, t, d, Some(k), *r, k, x2);
    let h = GT::Node { k: k, l: r, r: lr };
    assert(g_left(rot_l(g)) == h);
    assert(g_dis(h)); assert(g_at(m, x2, h));
    let hr = g_mk(t, d, Some(lk), h); let m2 = m.insert((t, k), hr);
    lem_g_root(m, t, d, Some(lk), h); lem_g_put(m, t, d, Some(lk), *ll, k, hr);
    assert(!g_ks(*ll).contains(k)); assert(!g_ks(h).contains(lk)); assert(g_ks(*ll).disjoint(g_ks(h)));
    assert(g_dis(rot_l(g))); assert(g_at(m2, a2, rot_l(g)));
    lem_g_root(m2, t, d, x.parent, rot_l(g));
    assert(g_ks(rot_l(g)) =~= g_ks(g));
    assert(g_lv(*l) == g_lv(*lr) + g_lv(*ll)); assert(g_lv(h) == g_lv(*r) + g_lv(*lr)); assert(g_lv(rot_l(g)) == g_lv(h) + g_lv(*ll));
    assert(g_lv(rot_l(g)) =~= g_lv(g));
  }, _ => {} }, _ => {} }
}
// a right rotation as a whole: what is loaded, what is computed, and which final storage amounts to it
pub open spec fn rr_fin(s: SV, x: TreeNode, g: GT) -> Map<(i64, u64), TreeNode> {
  let n = s.f_nodes; let t = x.tick_id; let d = x.direction; let a = lc(n, x)->0; let x2 = TreeNode { parent: Some(a.key), left: a.right, ..x }; let c = lc(n, x2)->0;
  let m = n.insert((t, c.key), with_parent(c, x.key)).insert((t, x.key), g_mk(t, d, Some(a.key), g_right(rot_r(g)))).insert((t, a.key), g_mk(t, d, x.parent, rot_r(g)));
  match x.parent { Some(q) => m.insert((t, q), relink(n[(t, q)], x.key, a.key)), None => m }
}
pub open spec fn rr_done(s: SV, r: SV, x: TreeNode, y: TreeNode, g: GT) -> bool {
  let a = lc(s.f_nodes, x)->0;
  &&& r.f_nodes =~= rr_fin(s, x, g) && y == g_mk(x.tick_id, x.direction, Some(a.key), g_right(rot_r(g)))
  &&& r.f_tree =~= (if x.parent is None { s.f_tree.insert((x.tick_id, dir_key(x.direction)), a.key) } else { s.f_tree })
}
pub proof fn lem_rr_all(s: SV, x: TreeNode, g: GT)
  requires g_pre(s.f_nodes, x, g), g_left(g) is Node
  ensures ({ let n = s.f_nodes; let t = x.tick_id; let d = x.direction; let a = lc(n, x)->0; let x2 = TreeNode { parent: Some(a.key), left: a.right, ..x }; let a2 = TreeNode { parent: x.parent, right: Some(x.key), ..a };
    let c = lc(n, x2)->0; let h = g_right(rot_r(g)); let hx = g_mk(t, d, Some(a.key), h); let ax = g_mk(t, d, x.parent, rot_r(g));
    &&& inner(x) && lc(n, x) is Some && inner(a) && lc(n, x2) is Some && rc(n, x) is Some && lc(n, a) is Some
    &&& a.tick_id == t && c.tick_id == t && a.direction == d && a.right == Some(c.key) && x.left == Some(a.key) && c.parent == Some(a.key)
    &&& a.key != x.key && c.key != x.key && c.key != a.key && x.right is Some && a.left is Some
    &&& x.right->0 != a.key && x.right->0 != c.key && x.right->0 != x.key && a.left->0 != x.key && a.left->0 != a.key && a.left->0 != c.key
    &&& resum(x2, Some(with_parent(c, x.key)), rc(n, x)) == hx && nval(c) + v_of(rc(n, x)) < P256() && w_of(rc(n, x)) < u64::MAX && nwt(c) < u64::MAX
    &&& nhi(c) < P256() && nhi(rc(n, x)->0) < P256() && nhi(lc(n, a)->0) < P256() && nhi(hx) < P256()
    &&& resum(a2, lc(n, a), Some(hx)) == ax && v_of(lc(n, a)) + nval(hx) < P256() && w_of(lc(n, a)) < u64::MAX && nwt(hx) < u64::MAX
    &&& x.parent is Some ==> x.parent->0 != x.key && x.parent->0 != a.key && x.parent->0 != c.key && x.parent->0 != x.right->0 && x.parent->0 != a.left->0
    &&& forall|r: SV, y: TreeNode, fresh: ISet<u64>| #![trigger g_moved(s, r, x, y, g, rot_r(g), fresh)] fresh == ISet::<u64>::empty() && rr_done(s, r, x, y, g) ==> g_moved(s, r, x, y, g, rot_r(g), fresh)
  })
{
  let n = s.f_nodes; let t = x.tick_id; let d = x.direction; let m = rr_mid(n, x); let a = lc(n, x)->0; let x2 = TreeNode { parent: Some(a.key), left: a.right, ..x }; let a2 = TreeNode { parent: x.parent, right: Some(x.key), ..a };
  let h = g_right(rot_r(g)); let hx = g_mk(t, d, Some(a.key), h); let c = lc(n, x2)->0; let ax = g_mk(t, d, x.parent, rot_r(g));
  lem_rot_r(n, x, g);
  let m2 = m.insert((t, gk(h)), hx); let m3 = m2.insert((t, gk(rot_r(g))), ax);
  match g { GT::Node { k, l, r } => match *l { GT::Node { k: lk, l: ll, r: lr } => {
    lem_ht_pos(*ll); lem_ht_pos(*lr); lem_ht_pos(*r); lem_ht_pos(*l);
    assert(g_rep(n, t, d, Some(k), *l)); assert(g_rep(n, t, d, Some(k), *r)); assert(g_rep(n, t, d, Some(lk), *lr)); assert(g_rep(n, t, d, Some(lk), *ll));
    assert(g_dis(*l)); assert(a == g_mk(t, d, Some(k), *l)); assert(c == g_mk(t, d, Some(lk), *lr));
    assert(g_ks(*l).contains(gk(*lr)) && g_ks(*l).contains(gk(*ll)) && g_ks(*l).contains(lk)); assert(g_ks(*r).contains(gk(*r)));
    lem_g_resum(m, x2, h); lem_g_resum(m2, a2, rot_r(g));
    assert(lc(m, x2) == Some(with_parent(c, k))); assert(rc(m, x2) == rc(n, x)); assert(lc(m2, a2) == lc(n, a)); assert(rc(m2, a2) == Some(hx));
    lem_rec(t, d, Some(lk), *lr); lem_rec(t, d, Some(lk), *ll); lem_rec(t, d, Some(k), *r);
    assert forall|r: SV, y: TreeNode, fresh: ISet<u64>| #![trigger g_moved(s, r, x, y, g, rot_r(g), fresh)] fresh == ISet::<u64>::empty() && rr_done(s, r, x, y, g) implies g_moved(s, r, x, y, g, rot_r(g), fresh) by {
      match x.parent {
        Some(q) => { let w = relink(n[(t, q)], x.key, a.key); lem_g_put(m3, t, d, x.parent, rot_r(g), q, w); assert(r.f_nodes =~= m3.insert((t, q), w)); }
        None => { assert(r.f_nodes =~= m3); }
      }
      assert(r.f_tree =~= (if x.parent is None && gk(g) != gk(rot_r(g)) { s.f_tree.insert((t, dir_key(d)), gk(rot_r(g))) } else { s.f_tree }));
      assert(g_ks(g).union(fresh) =~= g_ks(g));
    }
  }, _ => {} }, _ => {} }
}
// a left rotation as a whole: what is loaded, what is computed, and which final storage amounts to it
pub open spec fn rl_fin(s: SV, x: TreeNode, g: GT) -> Map<(i64, u64), TreeNode> {
  let n = s.f_nodes; let t = x.tick_id; let d = x.direction; let a = rc(n, x)->0; let x2 = TreeNode { parent: Some(a.key), right: a.left, ..x }; let c = rc(n, x2)->0;
  let m = n.insert((t, c.key), with_parent(c, x.key)).insert((t, x.key), g_mk(t, d, Some(a.key), g_left(rot_l(g)))).insert((t, a.key), g_mk(t, d, x.parent, rot_l(g)));
  match x.parent { Some(q) => m.insert((t, q), relink(n[(t, q)], x.key, a.key)), None => m }
}
pub open spec fn rl_done(s: SV, r: SV, x: TreeNode, y: TreeNode, g: GT) -> bool {
  let a = rc(s.f_nodes, x)->0;
  &&& r.f_nodes =~= rl_fin(s, x, g) && y == g_mk(x.tick_id, x.direction, Some(a.key), g_left(rot_l(g)))
  &&& r.f_tree =~= (if x.parent is None { s.f_tree.insert((x.tick_id, dir_key(x.direction)), a.key) } else { s.f_tree })
}
pub proof fn lem_rl_all(s: SV, x: TreeNode, g: GT)
  requires g_pre(s.f_nodes, x, g), g_right(g) is Node
  ensures ({ let n = s.f_nodes; let t = x.tick_id; let d = x.direction; let a = rc(n, x)->0; let x2 = TreeNode { parent: Some(a.key), right: a.left, ..x }; let a2 = TreeNode { parent: x.parent, left: Some(x.key), ..a };
    let c = rc(n, x2)->0; let h = g_left(rot_l(g)); let hx = g_mk(t, d, Some(a.key), h); let ax = g_mk(t, d, x.parent, rot_l(g));
    &&& inner(x) && rc(n, x) is Some && inner(a) && rc(n, x2) is Some && lc(n, x) is Some && rc(n, a) is Some
    &&& a.tick_id == t && c.tick_id == t && a.direction == d && a.left == Some(c.key) && x.right == Some(a.key) && c.parent == Some(a.key)
    &&& a.key != x.key && c.key != x.key && c.key != a.key && x.left is Some && a.right is Some
    &&& x.left->0 != a.key && x.left->0 != c.key && x.left->0 != x.key && a.right->0 != x.key && a.right->0 != a.key && a.right->0 != c.key
    &&& resum(x2, lc(n, x), Some(with_parent(c, x.key))) == hx && v_of(lc(n, x)) + nval(c) < P256() && w_of(lc(n, x)) < u64::MAX && nwt(c) < u64::MAX
    &&& nhi(c) < P256() && nhi(lc(n, x)->0) < P256() && nhi(rc(n, a)->0) < P256() && nhi(hx) < P256()
    &&& resum(a2, Some(hx), rc(n, a)) == ax && nval(hx) + v_of(rc(n, a)) < P256() && w_of(rc(n, a)) < u64::MAX && nwt(hx) < u64::MAX
    &&& x.parent is Some ==> x.parent->0 != x.key && x.parent->0 != a.key && x.parent->0 != c.key && x.parent->0 != x.left->0 && x.parent->0 != a.right->0
    &&& forall|r: SV, y: TreeNode, fresh: ISet<u64>| #![trigger g_moved(s, r, x, y, g, rot_l(g), fresh)] fresh == ISet::<u64>::empty() && rl_done(s, r, x, y, g) ==> g_moved(s, r, x, y, g, rot_l(g), fresh)
  })
{
  let n = s.f_nodes; let t = x.tick_id; let d = x.direction; let m = rl_mid(n, x); let a = rc(n, x)->0; let x2 = TreeNode { parent: Some(a.key), right: a.left, ..x }; let a2 = TreeNode { parent: x.parent, left: Some(x.key), ..a };
  let h = g_left(rot_l(g)); let hx = g_mk(t, d, Some(a.key), h); let c = rc(n, x2)->0; let ax = g_mk(t, d, x.parent, rot_l(g));
  lem_rot_l(n, x, g);
  let m2 = m.insert((t, gk(h)), hx); let m3 = m2.insert((t, gk(rot_l(g))), ax);
  match g { GT::Node { k, l: r, r: l } => match *l { GT::Node { k: lk, l: lr, r: ll } => {
    lem_ht_pos(*ll); lem_ht_pos(*lr); lem_ht_pos(*r); lem_ht_pos(*l);
    assert(g_rep(n, t, d, Some(k), *l)); assert(g_rep(n, t, d, Some(k), *r)); assert(g_rep(n, t, d, Some(lk), *lr)); assert(g_rep(n, t, d, Some(lk), *ll));
    assert(g_dis(*l)); assert(a == g_mk(t, d, Some(k), *l)); assert(c == g_mk(t, d, Some(lk), *lr));
    assert(g_ks(*l).contains(gk(*lr)) && g_ks(*l).contains(gk(*ll)) && g_ks(*l).contains(lk)); assert(g_ks(*r).contains(gk(*r)));
    lem_g_resum(m, x2, h); lem_g_resum(m2, a2, rot_l(g));
    assert(rc(m, x2) == Some(with_parent(c, k))); assert(lc(m, x2) == lc(n, x)); assert(rc(m2, a2) == rc(n, a)); assert(lc(m2, a2) == Some(hx));
    lem_rec(t, d, Some(lk), *lr); lem_rec(t, d, Some(lk), *ll); lem_rec(t, d, Some(k), *r);
    assert forall|r: SV, y: TreeNode, fresh: ISet<u64>| #![trigger g_moved(s, r, x, y, g, rot_l(g), fresh)] fresh == ISet::<u64>::empty() && rl_done(s, r, x, y, g) implies g_moved(s, r, x, y, g, rot_l(g), fresh) by {
      match x.parent {
        Some(q) => { let w = relink(n[(t, q)], x.key, a.key); lem_g_put(m3, t, d, x.parent, rot_l(g), q, w); assert(r.f_nodes =~= m3.insert((t, q), w)); }
        None => { assert(r.f_nodes =~= m3); }
      }
      assert(r.f_tree =~= (if x.parent is None && gk(g) != gk(rot_l(g)) { s.f_tree.insert((t, dir_key(d)), gk(rot_l(g))) } else { s.f_tree }));
      assert(g_ks(g).union(fresh) =~= g_ks(g));
    }
  }, _ => {} }, _ => {} }
}
// ---- rebalancing ----
// a stored child of `x`, as the code loads it, satisfies the preconditions itself
pub proof fn lem_child_pre(n: Map<(i64, u64), TreeNode>, x: TreeNode, g: GT, right: bool)
  requires g_pre(n, x, g), has_rec(n, x), (if right { g_right(g) } else { g_left(g) }) is Node
  ensures ({ let c = if right { g_right(g) } else { g_left(g) }; let y = (if right { rc(n, x) } else { lc(n, x) })->0;
    (if right { rc(n, x) } else { lc(n, x) }) is Some && g_pre(n, y, c) && has_rec(n, y) && g_of(n, y) == c && y == g_mk(x.tick_id, x.direction, Some(x.key), c)
    && y.parent == Some(x.key) && g_bf(c) == w_of(rc(n, y)) - w_of(lc(n, y)) && w_of(rc(n, y)) <= HT_MAX() && w_of(lc(n, y)) <= HT_MAX() })
{
  let c = if right { g_right(g) } else { g_left(g) }; let y = (if right { rc(n, x) } else { lc(n, x) })->0;
  match g { GT::Node { k, l, r } => {
    lem_ht_pos(*l); lem_ht_pos(*r);
    assert(g_rep(n, x.tick_id, x.direction, Some(k), *l)); assert(g_rep(n, x.tick_id, x.direction, Some(k), *r));
    assert(y == g_mk(x.tick_id, x.direction, Some(k), c));
    assert(gk(*l) != gk(*r));
    assert(g_at(n, y, c)); lem_g_of(n, y, c); lem_g_resum(n, y, c);
  }, _ => {} }
}
// first half of a double rotation
pub proof fn lem_inner_rot(s: SV, s1: SV, x: TreeNode, y: TreeNode, y2: TreeNode, g: GT, c2: GT, right: bool)
  requires g_pre(s.f_nodes, x, g), has_rec(s.f_nodes, x), g_ht(g) < HT_MAX(),
    ({ let c = if right { g_right(g) } else { g_left(g) }; c is Node && y == g_mk(x.tick_id, x.direction, Some(x.key), c) && g_moved(s, s1, y, y2, c, c2, ISet::empty()) && g_ht(c2) <= g_ht(c) + 1 && g_sum(c2) == g_sum(c) && g_hi(c2) == g_hi(c) })
  ensures ({ let g1 = if right { g_node(g, g_left(g), c2) } else { g_node(g, c2, g_right(g)) }; let x1 = s1.f_nodes[(x.tick_id, x.key)];
    s1.f_nodes.dom().contains((x.tick_id, x.key)) && g_pre(s1.f_nodes, x1, g1) && has_rec(s1.f_nodes, x1) && x1.tick_id == x.tick_id && x1.key == x.key && x1.direction == x.direction && x1.parent == x.parent && g_of(s1.f_nodes, x1) == g1
    && g_ks(g1).subset_of(g_ks(g)) && s1.f_tree == s.f_tree && g_fr(s.f_nodes, s1.f_nodes, x.tick_id, g_ks(g)) })
{
  let c = if right { g_right(g) } else { g_left(g) }; let o = if right { g_left(g) } else { g_right(g) };
  let g1 = if right { g_node(g, g_left(g), c2) } else { g_node(g, c2, g_right(g)) };
  let t = x.tick_id; let d = x.direction; let n = s.f_nodes; let m = s1.f_nodes; let x1 = m[(t, x.key)];
  match g { GT::Node { k, l, r } => {
    lem_ht_pos(*l); lem_ht_pos(*r); lem_ht_pos(c2);
    let ks = g_ks(c).union(ISet::<u64>::empty()).union(key_set(Some(k)));
    assert(g_ks(c2).subset_of(g_ks(c)));
    assert(g_ks(o).disjoint(ks));
    lem_g_frame(n, m, t, d, Some(k), o, ks);
    assert(x1 == relink(x, gk(c), gk(c2)));
    assert(gk(*l) != gk(*r));
    assert(g_dis(g1)); assert(g_kids(m, t, d, g1));
    assert(g_old(x1, t, d, x.parent, g1));
    assert(g_at(m, x1, g1)); lem_g_of(m, x1, g1);
    assert(g_ks(g1).subset_of(g_ks(g)));
    assert(g_sum(g1) == g_sum(g));
  }, _ => {} }
}
pub proof fn lem_moved_trans(s: SV, s1: SV, s2: SV, x: TreeNode, x1: TreeNode, y: TreeNode, g: GT, g1: GT, g2: GT)
  requires g_fr(s.f_nodes, s1.f_nodes, x.tick_id, g_ks(g)), par_ok(s.f_nodes, x, g), s1.f_tree == s.f_tree, g_moved(s1, s2, x1, y, g1, g2, ISet::empty()), g_ks(g1).subset_of(g_ks(g)), gk(g1) == gk(g),
    x1.tick_id == x.tick_id && x1.key == x.key && x1.direction == x.direction && x1.parent == x.parent
  ensures g_moved(s, s2, x, y, g, g2, ISet::empty())
{}
// recomputing the root record in place
pub proof fn lem_resum_moved(s: SV, x: TreeNode, g: GT)
  requires g_pre(s.f_nodes, x, g)
  ensures g_moved(s, put_node(s, g_mk(x.tick_id, x.direction, x.parent, g)), x, g_mk(x.tick_id, x.direction, x.parent, g), g, g, ISet::empty())
{
  lem_g_root(s.f_nodes, x.tick_id, x.direction, x.parent, g); lem_ht_pos(g);
}
pub proof fn lem_bal_rr(g: GT)
  requires g_left(g) is Node, g is Node, g_bal(g_left(g)), g_bal(g_right(g)), g_bf(g) == -2, g_bf(g_left(g)) <= 0
  ensures g_bal(rot_r(g)), g_ht(rot_r(g)) <= g_ht(g) <= g_ht(rot_r(g)) + 1
{
  match g { GT::Node { k, l, r } => match *l { GT::Node { k: lk, l: ll, r: lr } => {
    let h = GT::Node { k: k, l: lr, r: r };
    assert(g_bal(*ll) && g_bal(*lr)); assert(g_bal(h)); assert(g_ht(h) == nmax2(g_ht(*lr), g_ht(*r)) + 1); assert(rot_r(g) == (GT::Node { k: lk, l: ll, r: Box::new(h) }));
    assert(g_ht(*l) == nmax2(g_ht(*ll), g_ht(*lr)) + 1);
  }, _ => {} }, _ => {} }
}
pub proof fn lem_bal_ll(g: GT)
  requires g_right(g) is Node, g is Node, g_bal(g_left(g)), g_bal(g_right(g)), g_bf(g) == 2, g_bf(g_right(g)) >= 0
  ensures g_bal(rot_l(g)), g_ht(rot_l(g)) <= g_ht(g) <= g_ht(rot_l(g)) + 1
{
  match g { GT::Node { k, l: r, r: l } => match *l { GT::Node { k: lk, l: lr, r: ll } => {
    let h = GT::Node { k: k, l: r, r: lr };
    assert(g_bal(*ll) && g_bal(*lr)); assert(g_bal(h)); assert(g_ht(h) == nmax2(g_ht(*lr), g_ht(*r)) + 1); assert(rot_l(g) == (GT::Node { k: lk, l: Box::new(h), r: ll }));
    assert(g_ht(*l) == nmax2(g_ht(*lr), g_ht(*ll)) + 1);
  }, _ => {} }, _ => {} }
}
pub proof fn lem_bal_lr(g: GT)
  requires g is Node, g_left(g) is Node, g_bal(g_left(g)), g_bal(g_right(g)), g_bf(g) == -2, g_bf(g_left(g)) > 0
  ensures ({ let q = rot_r(g_node(g, rot_l(g_left(g)), g_right(g))); g_bal(q) && g_ht(q) <= g_ht(g) <= g_ht(q) + 1 })
{
  match g { GT::Node { k, l, r } => match *l { GT::Node { k: lk, l: ll, r: lr } => { lem_ht_pos(*ll); match *lr { GT::Node { k: k3, l: a, r: b } => {
    assert(g_bal(*lr) && g_bal(*ll)); assert(g_bal(*a) && g_bal(*b));
    assert(g_ht(*lr) == nmax2(g_ht(*a), g_ht(*b)) + 1); assert(g_ht(*l) == nmax2(g_ht(*ll), g_ht(*lr)) + 1);
    let x = GT::Node { k: lk, l: ll, r: a }; let y = GT::Node { k: k, l: b, r: r };
    assert(g_ht(x) == nmax2(g_ht(*ll), g_ht(*a)) + 1); assert(g_ht(y) == nmax2(g_ht(*b), g_ht(*r)) + 1);
    assert(g_bal(x) && g_bal(y));
    let q = rot_r(g_node(g, rot_l(g_left(g)), g_right(g)));
    assert(rot_l(*l) == (GT::Node { k: k3, l: Box::new(x), r: b }));
    assert(q == (GT::Node { k: k3, l: Box::new(x), r: Box::new(y) }));
  }, _ => {} } }, _ => {} }, _ => {} }
}
pub proof fn lem_bal_rl(g: GT)
  requires g is Node, g_right(g) is Node, g_bal(g_left(g)), g_bal(g_right(g)), g_bf(g) == 2, g_bf(g_right(g)) < 0
  ensures ({ let q = rot_l(g_node(g, g_left(g), rot_r(g_right(g)))); g_bal(q) && g_ht(q) <= g_ht(g) <= g_ht(q) + 1 })
{
  match g { GT::Node { k, l: r, r: l } => match *l { GT::Node { k: lk, l: lr, r: ll } => { lem_ht_pos(*ll); match *lr { GT::Node { k: k3, l: b, r: a } => {
    assert(g_bal(*lr) && g_bal(*ll)); assert(g_bal(*a) && g_bal(*b));
    assert(g_ht(*lr) == nmax2(g_ht(*b), g_ht(*a)) + 1); assert(g_ht(*l) == nmax2(g_ht(*lr), g_ht(*ll)) + 1);
    let x = GT::Node { k: lk, l: a, r: ll }; let y = GT::Node { k: k, l: r, r: b };
    assert(g_ht(x) == nmax2(g_ht(*a), g_ht(*ll)) + 1); assert(g_ht(y) == nmax2(g_ht(*r), g_ht(*b)) + 1);
    assert(g_bal(x) && g_bal(y));
    let q = rot_l(g_node(g, g_left(g), rot_r(g_right(g))));
    assert(rot_r(*l) == (GT::Node { k: k3, l: b, r: Box::new(x) }));
    assert(q == (GT::Node { k: k3, l: Box::new(y), r: Box::new(x) }));
  }, _ => {} } }, _ => {} }, _ => {} }
}
// rebalancing keeps the entries and restores the balance
pub proof fn lem_reb(g: GT)
  requires g is Node, g_bal(g_left(g)), g_bal(g_right(g)), -2 <= g_bf(g) <= 2
  ensures g_bal(g_reb(g)), g_ht(g_reb(g)) <= g_ht(g) <= g_ht(g_reb(g)) + 1, g_lv(g_reb(g)) =~= g_lv(g), g_sum(g_reb(g)) == g_sum(g), g_hi(g_reb(g)) == g_hi(g)
{
  lem_rots(g); lem_rots(g_right(g)); lem_rots(g_left(g));
  let q1 = g_node(g, g_left(g), rot_r(g_right(g))); let q2 = g_node(g, rot_l(g_left(g)), g_right(g));
  lem_rots(q1); lem_rots(q2);
  lem_ht_pos(g_left(g)); lem_ht_pos(g_right(g));
  assert(g_lv(g) == g_lv(g_left(g)) + g_lv(g_right(g))); assert(g_sum(g) == g_sum(g_left(g)) + g_sum(g_right(g)));
  assert(g_lv(q1) == g_lv(g_left(g)) + g_lv(rot_r(g_right(g)))); assert(g_lv(q2) == g_lv(rot_l(g_left(g))) + g_lv(g_right(g)));
  if -1 <= g_bf(g) <= 1 { assert(g_bal(g)) by { assert(g == g_node(g, g_left(g), g_right(g))); } }
  else if g_bf(g) > 0 { if g_bf(g_right(g)) >= 0 { lem_bal_ll(g); } else { lem_bal_rl(g); } }
  else { if g_bf(g_left(g)) <= 0 { lem_bal_rr(g); } else { lem_bal_lr(g); } }
}
pub proof fn lem_rots(g: GT)
  ensures g_lv(rot_r(g)) =~= g_lv(g), g_lv(rot_l(g)) =~= g_lv(g), g_sum(rot_r(g)) == g_sum(g), g_sum(rot_l(g)) == g_sum(g), g_hi(rot_r(g)) == g_hi(g), g_hi(rot_l(g)) == g_hi(g), g_ht(rot_r(g)) <= g_ht(g) + 1, g_ht(rot_l(g)) <= g_ht(g) + 1
{
  match g { GT::Node { k, l, r } => {
    match *l { GT::Node { k: lk, l: ll, r: lr } => { assert(g_lv(*l) == g_lv(*ll) + g_lv(*lr)); let h = GT::Node { k: k, l: lr, r: r }; assert(g_lv(h) == g_lv(*lr) + g_lv(*r)); assert(g_lv(rot_r(g)) == g_lv(*ll) + g_lv(h)); assert(g_lv(rot_r(g)) =~= g_lv(g)); reveal_with_fuel(g_sum, 3); reveal_with_fuel(g_ht, 3); reveal_with_fuel(g_hi, 3); }, _ => {} }
    match *r { GT::Node { k: rk, l: rl, r: rr } => { assert(g_lv(*r) == g_lv(*rl) + g_lv(*rr)); let h = GT::Node { k: k, l: l, r: rl }; assert(g_lv(h) == g_lv(*l) + g_lv(*rl)); assert(g_lv(rot_l(g)) == g_lv(h) + g_lv(*rr)); assert(g_lv(rot_l(g)) =~= g_lv(g)); reveal_with_fuel(g_sum, 3); reveal_with_fuel(g_ht, 3); reveal_with_fuel(g_hi, 3); }, _ => {} }
  }, _ => {} }
}
pub open spec fn reb_pre(n: Map<(i64, u64), TreeNode>, x: TreeNode, g: GT) -> bool { has_rec(n, x) && g_pre(n, x, g) && g_ht(g) < HT_MAX() }
pub open spec fn reb_post(s: SV, r: SV, x: TreeNode, y: TreeNode, g: GT) -> bool { g_moved(s, r, x, y, g, g_reb(g), ISet::empty()) && r.f_node_id == s.f_node_id }
// ---- insertion ----
pub open spec fn e_end(x: (nat, nat)) -> nat { x.0 + x.1 }
// entries are non-empty, do not overlap and are sorted by position
pub open spec fn e_sorted(l: Seq<(nat, nat)>) -> bool {
  &&& forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]).1 > 0
  &&& forall|i: int, j: int| 0 <= i < j < l.len() ==> e_end(#[trigger] l[i]) <= (#[trigger] l[j]).0
}
pub open spec fn e_apart(l: Seq<(nat, nat)>, x: (nat, nat)) -> bool { forall|i: int| 0 <= i < l.len() ==> e_end(#[trigger] l[i]) <= x.0 || e_end(x) <= l[i].0 }
// `m` is `l` with the one entry `x` added somewhere
pub open spec fn e_added(l: Seq<(nat, nat)>, m: Seq<(nat, nat)>, x: (nat, nat)) -> bool { exists|i: int| 0 <= i <= l.len() && m =~= #[trigger] l.insert(i, x) }
pub open spec fn entry_of(y: TreeNode) -> (nat, nat) { (nlo(y), nval(y)) }
pub open spec fn new_leaf(y: TreeNode, t: i64, d: OrderDirection) -> bool { y.tick_id == t && y.direction == d && y.left is None && y.right is None && !inner(y) && nval(y) > 0 }
pub open spec fn g_leaf(y: TreeNode) -> GT { GT::Leaf { k: y.key, e: nlo(y), v: nval(y) } }
pub open spec fn g_new(s: SV, r: SV, t: i64, k: u64) -> ISet<u64> { ISet::new(|i: u64| i == k || (node_ctr(s, t) < i && i <= node_ctr(r, t))) }
pub open spec fn ctr_only(s: SV, r: SV, t: i64) -> bool {
  node_ctr(s, t) <= node_ctr(r, t) && forall|k: i64| #![trigger r.f_node_id.dom().contains(k)] #![trigger r.f_node_id[k]] k != t ==> r.f_node_id.dom().contains(k) == s.f_node_id.dom().contains(k) && r.f_node_id[k] == s.f_node_id[k]
}
pub open spec fn ks_le(ks: ISet<u64>, c: u64) -> bool { forall|k: u64| #[trigger] ks.contains(k) ==> k <= c }
pub open spec fn ins_pre(s: SV, x: TreeNode, y: TreeNode, g: GT) -> bool {
  &&& g_at(s.f_nodes, x, g) && par_ok(s.f_nodes, x, g) && g_bal(g) && g_ht(g) + 2 < HT_MAX() && g_sum(g) + nval(y) < P256() && g_hi(g) < P256() && nhi(y) < P256()
  &&& new_leaf(y, x.tick_id, x.direction) && e_sorted(g_lv(g)) && e_apart(g_lv(g), entry_of(y))
  &&& ks_le(g_ks(g), node_ctr(s, x.tick_id)) && y.key <= node_ctr(s, x.tick_id) && !g_ks(g).contains(y.key)
  &&& x.parent is Some ==> x.parent->0 <= node_ctr(s, x.tick_id) && x.parent->0 != y.key
}
pub open spec fn ins_post(s: SV, r: SV, x: TreeNode, y: TreeNode, z: TreeNode, g: GT, g2: GT) -> bool {
  &&& g_moved(s, r, x, z, g, g2, g_new(s, r, x.tick_id, y.key)) && ctr_only(s, r, x.tick_id)
  &&& g_bal(g2) && g_ht(g) <= g_ht(g2) <= g_ht(g) + 1 && g_sum(g2) == g_sum(g) + nval(y) && g_hi(g2) < P256()
  &&& e_added(g_lv(g), g_lv(g2), entry_of(y)) && e_sorted(g_lv(g2))
}
// before the final rebalancing: `g1` is `g` with the entry added below one of the children
pub open spec fn ins_mid(s: SV, r: SV, x: TreeNode, x2: TreeNode, y: TreeNode, g: GT, g1: GT) -> bool {
  &&& x2.key == x.key && x2.tick_id == x.tick_id && x2.direction == x.direction && x2.parent == x.parent
  &&& reb_pre(r.f_nodes, x2, g1) && g_bal(g_left(g1)) && g_bal(g_right(g1)) && -2 <= g_bf(g1) <= 2
  &&& g_ht(g) <= g_ht(g1) <= g_ht(g) + 1 && (-1 <= g_bf(g1) <= 1 || g_ht(g1) == g_ht(g) + 1)
  &&& g_fr(s.f_nodes, r.f_nodes, x.tick_id, g_ks(g).union(g_new(s, r, x.tick_id, y.key))) && g_ks(g1).subset_of(g_ks(g).union(g_new(s, r, x.tick_id, y.key)))
  &&& r.f_tree == s.f_tree && ctr_only(s, r, x.tick_id) && gk(g1) == gk(g)
  &&& e_added(g_lv(g), g_lv(g1), entry_of(y)) && e_sorted(g_lv(g1)) && g_sum(g1) == g_sum(g) + nval(y) && par_ok(s.f_nodes, x, g)
  &&& x.parent is Some ==> x.parent->0 <= node_ctr(s, x.tick_id) && x.parent->0 != y.key
}
pub proof fn lem_ins_end(s: SV, m: SV, r: SV, x: TreeNode, x2: TreeNode, y: TreeNode, z: TreeNode, g: GT, g1: GT)
  requires ins_mid(s, m, x, x2, y, g, g1), reb_post(m, r, x2, z, g1)
  ensures ins_post(s, r, x, y, z, g, g_reb(g1))
{
  lem_reb(g1);
  let t = x.tick_id;
  assert(node_ctr(r, t) == node_ctr(m, t));
  assert(g_new(s, r, t, y.key) =~= g_new(s, m, t, y.key));
  if x.parent is Some { assert(!g_new(s, m, t, y.key).contains(x.parent->0)); }
  assert(g_lv(g_reb(g1)) =~= g_lv(g1));
}
pub proof fn lem_lohi(g: GT)
  requires e_sorted(g_lv(g))
  ensures g_lv(g).len() > 0, g_lo(g) == g_lv(g)[0].0, g_hi(g) == e_end(g_lv(g).last()), g_lo(g) < g_hi(g)
  decreases g
{
  match g { GT::Leaf { .. } => {}, GT::Node { k, l, r } => {
    let a = g_lv(*l); let b = g_lv(*r);
    lem_lv_parts(g); lem_lohi(*l); lem_lohi(*r);
    assert(g_lv(g)[0] == a[0]); assert(g_lv(g)[a.len() as int] == b[0]); assert(g_lv(g).last() == b.last()); assert(g_lv(g)[a.len() - 1] == a.last());
    assert(g_lv(g)[g_lv(g).len() - 1] == b.last());
    assert(e_end(g_lv(g)[a.len() - 1]) <= g_lv(g)[a.len() as int].0);
  } }
}
// the parts of a sorted list are sorted and in order
pub proof fn lem_lv_parts(g: GT)
  requires g is Node, e_sorted(g_lv(g))
  ensures e_sorted(g_lv(g_left(g))), e_sorted(g_lv(g_right(g))), forall|i: int, j: int| 0 <= i < g_lv(g_left(g)).len() && 0 <= j < g_lv(g_right(g)).len() ==> e_end(#[trigger] g_lv(g_left(g))[i]) <= (#[trigger] g_lv(g_right(g))[j]).0
{
  let a = g_lv(g_left(g)); let b = g_lv(g_right(g)); let c = g_lv(g);
  assert(c == a + b);
  assert forall|i: int| 0 <= i < a.len() implies (#[trigger] a[i]).1 > 0 by { assert(c[i] == a[i]); }
  assert forall|i: int, j: int| 0 <= i < j < a.len() implies e_end(#[trigger] a[i]) <= (#[trigger] a[j]).0 by { assert(c[i] == a[i] && c[j] == a[j]); }
  assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]).1 > 0 by { assert(c[i + a.len()] == b[i]); }
  assert forall|i: int, j: int| 0 <= i < j < b.len() implies e_end(#[trigger] b[i]) <= (#[trigger] b[j]).0 by { assert(c[i + a.len()] == b[i] && c[j + a.len()] == b[j]); }
  assert forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < b.len() implies e_end(#[trigger] a[i]) <= (#[trigger] b[j]).0 by { assert(c[i] == a[i] && c[j + a.len()] == b[j]); }
}
pub proof fn lem_cat_sorted(a: Seq<(nat, nat)>, b: Seq<(nat, nat)>)
  requires e_sorted(a), e_sorted(b), a.len() > 0 && b.len() > 0 ==> e_end(a.last()) <= b[0].0
  ensures e_sorted(a + b)
{
  let c = a + b;
  assert forall|i: int| 0 <= i < c.len() implies (#[trigger] c[i]).1 > 0 by { if i < a.len() { assert(c[i] == a[i]); } else { assert(c[i] == b[i - a.len()]); } }
  assert forall|i: int, j: int| 0 <= i < j < c.len() implies e_end(#[trigger] c[i]) <= (#[trigger] c[j]).0 by {
    if j < a.len() { assert(c[i] == a[i] && c[j] == a[j]); } else if i >= a.len() { assert(c[i] == b[i - a.len()] && c[j] == b[j - a.len()]); }
    else {
      assert(c[i] == a[i] && c[j] == b[j - a.len()]);
      assert(e_end(a[i]) <= e_end(a.last())) by { if i < a.len() - 1 { assert(e_end(a[i]) <= a[a.len() - 1].0); } }
      assert(b[0].0 <= b[j - a.len()].0) by { if j > a.len() { assert(e_end(b[0]) <= b[j - a.len()].0); } }
    }
  }
}
pub proof fn lem_below(g: GT, x: (nat, nat), right: bool)
  requires g is Node, e_sorted(g_lv(g))
  ensures e_end(g_lv(g_left(g)).last()) <= g_lv(g_right(g))[0].0
{
  lem_lv_parts(g); lem_lohi(g_left(g)); lem_lohi(g_right(g));
  let a = g_lv(g_left(g));
  assert(e_end(a[a.len() - 1]) <= g_lv(g_right(g))[0].0);
}
// adding an entry to one part of a sorted list, on the right side of the boundary
pub proof fn lem_added_part(g: GT, l2: GT, r2: GT, x: (nat, nat), right: bool)
  requires g is Node, e_sorted(g_lv(g)), e_sorted(g_lv(l2)), e_sorted(g_lv(r2)), x.1 > 0,
    right ==> l2 == g_left(g) && e_added(g_lv(g_right(g)), g_lv(r2), x) && g_hi(l2) <= x.0,
    !right ==> r2 == g_right(g) && e_added(g_lv(g_left(g)), g_lv(l2), x) && e_end(x) <= g_lo(r2),
  ensures e_added(g_lv(g), g_lv(g_node(g, l2, r2)), x), e_sorted(g_lv(g_node(g, l2, r2)))
{
  hide(e_sorted);
  let a = g_lv(g_left(g)); let b = g_lv(g_right(g));
  assert(g_lv(g) == a + b); assert(g_lv(g_node(g, l2, r2)) == g_lv(l2) + g_lv(r2));
  lem_lv_parts(g); lem_lohi(g_left(g)); lem_lohi(g_right(g)); lem_lohi(l2); lem_lohi(r2);
  if right {
    let i = choose|i: int| 0 <= i <= b.len() && g_lv(r2) =~= #[trigger] b.insert(i, x);
    assert((a + b).insert(i + a.len(), x) =~= a + b.insert(i, x));
    assert(g_lv(r2)[0] == if i == 0 { x } else { b[0] });
    lem_below(g, x, true);
    lem_cat_sorted(a, g_lv(r2));
  } else {
    let i = choose|i: int| 0 <= i <= a.len() && g_lv(l2) =~= #[trigger] a.insert(i, x);
    assert((a + b).insert(i, x) =~= a.insert(i, x) + b);
    assert(g_lv(l2).last() == if i == a.len() { x } else { a.last() });
    lem_below(g, x, false);
    lem_cat_sorted(g_lv(l2), b);
  }
}
pub open spec fn g_side(g: GT, right: bool) -> GT { if right { g_right(g) } else { g_left(g) } }
pub open spec fn g_with(g: GT, c: GT, right: bool) -> GT { if right { g_node(g, g_left(g), c) } else { g_node(g, c, g_right(g)) } }
pub open spec fn side_rec(n: Map<(i64, u64), TreeNode>, x: TreeNode, right: bool) -> TreeNode { (if right { rc(n, x) } else { lc(n, x) })->0 }
pub open spec fn goes(g: GT, y: TreeNode, right: bool) -> bool { if right { nlo(y) >= g_hi(g_left(g)) } else { nlo(y) < g_lo(g_right(g)) } }
// the new entry fits between the two parts
pub proof fn lem_side(g: GT, y: TreeNode)
  requires g is Node, e_sorted(g_lv(g)), e_apart(g_lv(g), entry_of(y)), nval(y) > 0, !inner(y)
  ensures g_hi(g_left(g)) <= g_lo(g_right(g)), goes(g, y, false) ==> nhi(y) <= g_lo(g_right(g)), e_apart(g_lv(g_left(g)), entry_of(y)), e_apart(g_lv(g_right(g)), entry_of(y)),
    e_sorted(g_lv(g_left(g))), e_sorted(g_lv(g_right(g))), goes(g, y, true) || goes(g, y, false), nhi(y) == e_end(entry_of(y)),
    nlo(y) < g_hi(g_left(g)) ==> goes(g, y, false), nlo(y) >= g_lo(g_right(g)) ==> goes(g, y, true),
{
  let a = g_lv(g_left(g)); let b = g_lv(g_right(g)); let c = g_lv(g); let x = entry_of(y);
  lem_lv_parts(g); lem_lohi(g_left(g)); lem_lohi(g_right(g)); lem_below(g, x, true);
  assert(c == a + b);
  assert forall|i: int| 0 <= i < a.len() implies e_end(#[trigger] a[i]) <= x.0 || e_end(x) <= a[i].0 by { assert(c[i] == a[i]); }
  assert forall|i: int| 0 <= i < b.len() implies e_end(#[trigger] b[i]) <= x.0 || e_end(x) <= b[i].0 by { assert(c[i + a.len()] == b[i]); }
  assert(e_end(b[0]) <= x.0 || e_end(x) <= b[0].0);
}
pub proof fn lem_loaded(s: SV, x: TreeNode, g: GT, right: bool)
  requires g_at(s.f_nodes, x, g), g_ht(g) <= HT_MAX()
  ensures lc(s.f_nodes, x) is Some, rc(s.f_nodes, x) is Some, ({ let c = side_rec(s.f_nodes, x, right); let h = g_side(g, right);
    c == g_mk(x.tick_id, x.direction, Some(x.key), h) && c.tick_id == x.tick_id && c.key == gk(h) && c.direction == x.direction && c.parent == Some(x.key) && inner(c) == (h is Node)
    && nlo(c) == g_lo(h) && nhi(c) == g_hi(h) && nval(c) == g_sum(h) && nwt(c) == g_ht(h) && has_rec(s.f_nodes, c) })
{
  lem_g_resum(s.f_nodes, x, g); lem_rec(x.tick_id, x.direction, Some(x.key), g_side(g, right));
  match g { GT::Node { l, r, k } => { assert(g_rep(s.f_nodes, x.tick_id, x.direction, Some(k), *l)); assert(g_rep(s.f_nodes, x.tick_id, x.direction, Some(k), *r)); }, _ => {} }
}
pub proof fn lem_ins_child(s: SV, x: TreeNode, y: TreeNode, g: GT, right: bool)
  requires ins_pre(s, x, y, g), g_side(g, right) is Node
  ensures ({ let c = side_rec(s.f_nodes, x, right); let m = put_node(s, x); ins_pre(m, c, y, g_side(g, right)) && g_of(m.f_nodes, c) == g_side(g, right) })
{
  lem_loaded(s, x, g, right); lem_side(g, y);
  let c = side_rec(s.f_nodes, x, right); let m = put_node(s, x); let h = g_side(g, right); let t = x.tick_id; let d = x.direction;
  match g { GT::Node { k, l, r } => {
    lem_ht_pos(*l); lem_ht_pos(*r);
    lem_g_put(s.f_nodes, t, d, Some(k), *l, k, x); lem_g_put(s.f_nodes, t, d, Some(k), *r, k, x);
    assert(g_rep(m.f_nodes, t, d, Some(k), h));
    assert(g_ks(h).subset_of(g_ks(g))); assert(gk(*l) != gk(*r));
    assert(g_dis(h) && g_bal(h)); assert(g_kids(m.f_nodes, t, d, h)); assert(g_at(m.f_nodes, c, h)); lem_g_of(m.f_nodes, c, h);
    assert(node_ctr(m, t) == node_ctr(s, t));
    assert(g_ks(g).contains(k)); assert(g_ks(g).contains(gk(h)));
    assert(ks_le(g_ks(h), node_ctr(m, t)));
    assert(par_ok(m.f_nodes, c, h));
    assert(g_sum(h) <= g_sum(g) && g_ht(h) < g_ht(g));
  }, _ => {} }
}
// what `ins_mid` needs about the heights and the entries
pub proof fn lem_mid_shape(g: GT, y: TreeNode, c2: GT, right: bool)
  requires g is Node, g_bal(g), e_sorted(g_lv(g)), e_apart(g_lv(g), entry_of(y)), nval(y) > 0, !inner(y), goes(g, y, right), g_bal(c2), g_ht(g_side(g, right)) <= g_ht(c2) <= g_ht(g_side(g, right)) + 1,
    e_added(g_lv(g_side(g, right)), g_lv(c2), entry_of(y)), e_sorted(g_lv(c2)), g_sum(c2) == g_sum(g_side(g, right)) + nval(y)
  ensures ({ let g1 = g_with(g, c2, right); g_bal(g_left(g1)) && g_bal(g_right(g1)) && -2 <= g_bf(g1) <= 2 && g_ht(g) <= g_ht(g1) <= g_ht(g) + 1 && (-1 <= g_bf(g1) <= 1 || g_ht(g1) == g_ht(g) + 1)
    && e_added(g_lv(g), g_lv(g1), entry_of(y)) && e_sorted(g_lv(g1)) && g_sum(g1) == g_sum(g) + nval(y) && gk(g1) == gk(g) })
{
  lem_side(g, y);
  lem_added_part(g, g_left(g_with(g, c2, right)), g_right(g_with(g, c2, right)), entry_of(y), right);
}
pub proof fn lem_ins_child_mid(s: SV, r: SV, x: TreeNode, y: TreeNode, z: TreeNode, g: GT, c2: GT, right: bool)
  requires ins_pre(s, x, y, g), g_side(g, right) is Node, goes(g, y, right), ins_post(put_node(s, x), r, side_rec(s.f_nodes, x, right), y, z, g_side(g, right), c2)
  ensures ({ let x2 = r.f_nodes[(x.tick_id, x.key)]; let g1 = g_with(g, c2, right); r.f_nodes.dom().contains((x.tick_id, x.key)) && ins_mid(s, r, x, x2, y, g, g1) && g_of(r.f_nodes, x2) == g1 })
{
  hide(e_sorted); hide(e_apart); hide(e_added);
  let m = put_node(s, x); let c = side_rec(s.f_nodes, x, right); let h = g_side(g, right); let o = g_side(g, !right); let t = x.tick_id; let d = x.direction; let n = r.f_nodes;
  let x2 = n[(t, x.key)]; let g1 = g_with(g, c2, right); let fr = g_new(s, r, t, y.key);
  lem_loaded(s, x, g, right); lem_mid_shape(g, y, c2, right);
  assert(node_ctr(m, t) == node_ctr(s, t)); assert(g_new(m, r, t, y.key) =~= fr);
  match g { GT::Node { k, l, r: rr } => {
    lem_ht_pos(*l); lem_ht_pos(*rr); lem_ht_pos(c2);
    lem_g_put(s.f_nodes, t, d, Some(k), o, k, x);
    let ks = g_ks(h).union(fr).union(key_set(Some(k)));
    assert forall|i: u64| g_ks(o).contains(i) implies !ks.contains(i) by { assert(g_ks(g).contains(i)); }
    assert(g_ks(o).disjoint(ks));
    lem_g_frame(m.f_nodes, n, t, d, Some(k), o, ks);
    assert(g_ks(g).contains(k) && g_ks(g).contains(gk(h)));
    assert(gk(*l) != gk(*rr));
    assert(x2 == relink(x, gk(h), gk(c2)));
    assert forall|i: u64| g_ks(c2).contains(i) implies !g_ks(o).contains(i) && i != k by { assert(g_ks(h).union(fr).contains(i)); }
    assert(g_ks(o).disjoint(g_ks(c2)) && g_ks(c2).disjoint(g_ks(o)));
    assert(g_dis(o) && g_dis(h));
    assert(g_dis(g1)); assert(g_kids(n, t, d, g1));
    assert(g_old(x2, t, d, x.parent, g1));
    assert(g_at(n, x2, g1)); lem_g_of(n, x2, g1);
    assert forall|i: u64| g_ks(g1).contains(i) implies g_ks(g).union(fr).contains(i) by { if g_ks(c2).contains(i) { assert(g_ks(h).union(fr).contains(i)); } }
    assert(g_ks(g1).subset_of(g_ks(g).union(fr)));
    if x.parent is Some { assert(!fr.contains(x.parent->0)); assert(!g_ks(g1).contains(x.parent->0)); assert(!ks.contains(x.parent->0)); }
    assert(par_ok(n, x2, g1));
    assert(g_fr(s.f_nodes, n, t, g_ks(g).union(fr)));
    assert(ctr_only(s, r, t));
  }, _ => {} }
}
pub open spec fn split_gt(c: TreeNode, y: TreeNode, id: u64) -> GT { if nhi(c) <= nlo(y) { GT::Node { k: id, l: Box::new(g_leaf(c)), r: Box::new(g_leaf(y)) } } else { GT::Node { k: id, l: Box::new(g_leaf(y)), r: Box::new(g_leaf(c)) } } }
pub open spec fn with_side(x: TreeNode, id: u64, right: bool) -> TreeNode { if right { TreeNode { right: Some(id), ..x } } else { TreeNode { left: Some(id), ..x } } }
// the fresh inner node over an old and a new leaf
pub proof fn lem_split_gt(c: TreeNode, y: TreeNode, id: u64)
  requires apart(c, y), !inner(c), !inner(y), nval(c) > 0, nval(y) > 0, c.key != y.key, id != c.key, id != y.key
  ensures ({ let c2 = split_gt(c, y, id); let b = entry_of(y);
    e_added(g_lv(g_leaf(c)), g_lv(c2), b) && e_sorted(g_lv(c2)) && g_ht(c2) == 2 && g_sum(c2) == nval(c) + nval(y) && g_bal(c2) && g_dis(c2) && gk(c2) == id
    && g_ks(c2) =~= one_key(id).insert(c.key).insert(y.key) && g_lo(c2) == nmin(nlo(c), nlo(y)) && g_hi(c2) == nmax2(nhi(c), nhi(y)) })
{
  let c2 = split_gt(c, y, id); let a = entry_of(c); let b = entry_of(y);
  assert(g_lv(g_leaf(y)) == seq![b]); assert(g_lv(g_leaf(c)) == seq![a]);
  if nhi(c) <= nlo(y) { assert(g_lv(c2) == seq![a] + seq![b]); assert(g_lv(c2) =~= g_lv(g_leaf(c)).insert(1, b)); }
  else { assert(g_lv(c2) == seq![b] + seq![a]); assert(g_lv(c2) =~= g_lv(g_leaf(c)).insert(0, b)); }
  assert(e_added(g_lv(g_leaf(c)), g_lv(c2), b));
  reveal_with_fuel(g_ht, 3); reveal_with_fuel(g_sum, 3); reveal_with_fuel(g_bal, 3); reveal_with_fuel(g_ks, 3); reveal_with_fuel(g_dis, 3); reveal_with_fuel(g_lo, 3); reveal_with_fuel(g_hi, 3);
}
pub open spec fn split_to(s: SV, x: TreeNode, y: TreeNode, right: bool) -> SV {
  put_node(split_state(s, side_rec(s.f_nodes, x, right), y), with_side(x, (node_ctr(s, x.tick_id) + 1) as u64, right))
}
pub proof fn lem_split_ok(s: SV, x: TreeNode, y: TreeNode, g: GT, right: bool)
  requires ins_pre(s, x, y, g), g_side(g, right) is Leaf, goes(g, y, right)
  ensures ({ let c = side_rec(s.f_nodes, x, right); let h = g_side(g, right); apart(c, y) && nval(c) + nval(y) < P256() && !inner(c) && c.tick_id == y.tick_id && c.direction == y.direction && g_leaf(c) == h && nval(c) > 0 && c.key == gk(h) && g_ks(h) =~= one_key(c.key) && g_ks(g).contains(c.key) && c.key != y.key && c.key <= node_ctr(s, x.tick_id)
    && c.parent == Some(x.key) && c.left is None && c.right is None && c.tick_id == x.tick_id && c.direction == x.direction && c == g_mk(x.tick_id, x.direction, Some(x.key), h) })
{
  lem_loaded(s, x, g, right); lem_side(g, y);
  let h = g_side(g, right); let c = side_rec(s.f_nodes, x, right);
  assert(g_lv(h).len() == 1); assert(g_lv(h)[0] == (g_lo(h), g_sum(h)));
  assert(e_end(g_lv(h)[0]) <= entry_of(y).0 || e_end(entry_of(y)) <= g_lv(h)[0].0);
  assert(g_sum(h) <= g_sum(g));
}
pub proof fn lem_split_rep(s: SV, x: TreeNode, y: TreeNode, g: GT, right: bool)
  requires ins_pre(s, x, y, g), g_side(g, right) is Leaf, goes(g, y, right), node_ctr(s, x.tick_id) < u64::MAX
  ensures ({ let c = side_rec(s.f_nodes, x, right); let id = (node_ctr(s, x.tick_id) + 1) as u64; let x2 = with_side(x, id, right); let n = split_to(s, x, y, right).f_nodes; let g1 = g_with(g, split_gt(c, y, id), right);
    g_at(n, x2, g1) && has_rec(n, x2) && g_fr(s.f_nodes, n, x.tick_id, one_key(id).insert(c.key).insert(y.key).insert(x.key)) && g_ks(g1).subset_of(g_ks(g).insert(id).insert(y.key)) })
{
  hide(e_sorted); hide(e_apart); hide(e_added); hide(g_bal);
  lem_split_ok(s, x, y, g, right);
  let c = side_rec(s.f_nodes, x, right); let id = (node_ctr(s, x.tick_id) + 1) as u64; let x2 = with_side(x, id, right); let n = split_to(s, x, y, right).f_nodes; let c2 = split_gt(c, y, id); let g1 = g_with(g, c2, right);
  let t = x.tick_id; let d = x.direction; let h = g_side(g, right); let o = g_side(g, !right); let q = split_node(s, c, y);
  match g { GT::Node { k, l, r: rr } => {
    lem_ht_pos(*l); lem_ht_pos(*rr); lem_ht_pos(h); lem_ht_pos(o);
    assert(g_ks(g).contains(k) && g_ks(g).contains(gk(h)));
    assert(id != c.key && id != y.key && id != k && c.key != y.key);
    lem_split_gt(c, y, id);
    let ks = one_key(id).insert(c.key).insert(y.key).insert(k);
    assert forall|i: u64| g_ks(o).contains(i) implies !ks.contains(i) by { assert(g_ks(g).contains(i)); }
    assert(g_ks(o).disjoint(ks));
    assert(g_fr(s.f_nodes, n, t, ks));
    lem_g_frame(s.f_nodes, n, t, d, Some(k), o, ks);
    assert(q == g_mk(t, d, Some(k), c2));
    assert(with_parent(y, id) == g_mk(t, d, Some(id), g_leaf(y)));
    assert(with_parent(c, id) == g_mk(t, d, Some(id), h));
    assert(has_rec(n, q) && has_rec(n, with_parent(y, id)) && has_rec(n, with_parent(c, id)) && has_rec(n, x2));
    assert(g_rep(n, t, d, Some(id), g_leaf(y))); assert(g_rep(n, t, d, Some(id), h));
    assert(g_rep(n, t, d, Some(k), c2));
    assert(g_dis(o));
    assert forall|i: u64| g_ks(c2).contains(i) implies !g_ks(o).contains(i) && i != k by { }
    assert(g_ks(o).disjoint(g_ks(c2)) && g_ks(c2).disjoint(g_ks(o)));
    assert(g_dis(g1)); assert(g_kids(n, t, d, g1));
    assert(g_old(x2, t, d, x.parent, g1));
  }, _ => {} }
}
pub proof fn lem_ins_split(s: SV, x: TreeNode, y: TreeNode, g: GT, right: bool)
  requires ins_pre(s, x, y, g), g_side(g, right) is Leaf, goes(g, y, right), node_ctr(s, x.tick_id) < u64::MAX
  ensures ({ let id = (node_ctr(s, x.tick_id) + 1) as u64; let x2 = with_side(x, id, right); let r = split_to(s, x, y, right); let g1 = g_with(g, split_gt(side_rec(s.f_nodes, x, right), y, id), right);
    ins_mid(s, r, x, x2, y, g, g1) && g_of(r.f_nodes, x2) == g1 && r.f_nodes.dom().contains((x.tick_id, x.key)) && r.f_nodes[(x.tick_id, x.key)] == x2 })
{
  hide(e_sorted); hide(e_apart); hide(e_added); hide(g_rep);
  lem_split_ok(s, x, y, g, right); lem_split_rep(s, x, y, g, right);
  let c = side_rec(s.f_nodes, x, right); let id = (node_ctr(s, x.tick_id) + 1) as u64; let x2 = with_side(x, id, right); let r = split_to(s, x, y, right); let c2 = split_gt(c, y, id); let g1 = g_with(g, c2, right);
  let t = x.tick_id; let fr = g_new(s, r, t, y.key); let h = g_side(g, right);
  lem_ht_pos(h);
  assert(g_ks(g).contains(gk(h)) && g_ks(g).contains(x.key)) by { lem_ht_pos(g); }
  lem_split_gt(c, y, id); lem_mid_shape(g, y, c2, right); lem_g_of(r.f_nodes, x2, g1);
  assert(node_ctr(r, t) == id);
  assert(g_ks(g1).subset_of(g_ks(g).union(fr)));
  assert(one_key(id).insert(c.key).insert(y.key).insert(x.key).subset_of(g_ks(g).union(fr)));
  assert(g_fr(s.f_nodes, r.f_nodes, t, g_ks(g).union(fr)));
  assert(ctr_only(s, r, t));
  if x.parent is Some { assert(!g_ks(g1).contains(x.parent->0)); }
  assert(par_ok(r.f_nodes, x2, g1));
  assert(r.f_nodes[(x.tick_id, x.key)] == x2);
}
// ---- an index with at most one entry ----
// the same facts, stated once at the entry of the insertion for whatever state the body is in when it gets there
pub open spec fn mid_told(s: SV, m: SV, x: TreeNode, y: TreeNode, g: GT, g1: GT) -> bool {
  let x2 = m.f_nodes[(x.tick_id, x.key)]; m.f_nodes.dom().contains((x.tick_id, x.key)) && ins_mid(s, m, x, x2, y, g, g1) && g_of(m.f_nodes, x2) == g1
}
pub proof fn lem_ins_side(s: SV, x: TreeNode, y: TreeNode, g: GT, right: bool)
  requires ins_pre(s, x, y, g)
  ensures
    g_side(g, right) is Node ==> ({ let c = side_rec(s.f_nodes, x, right); let m = put_node(s, x); ins_pre(m, c, y, g_side(g, right)) && g_of(m.f_nodes, c) == g_side(g, right) }),
    g_side(g, right) is Node && goes(g, y, right) ==> forall|s1: SV, m: SV, c: TreeNode, z: TreeNode, h: GT, c2: GT| #[trigger] ins_post(s1, m, c, y, z, h, c2) && s1 == put_node(s, x) && c == side_rec(s.f_nodes, x, right) && h == g_side(g, right) ==> mid_told(s, m, x, y, g, g_with(g, c2, right)),
    g_side(g, right) is Leaf && goes(g, y, right) ==> ({ let c = side_rec(s.f_nodes, x, right); apart(c, y) && nval(c) + nval(y) < P256() && !inner(c) && c.tick_id == y.tick_id && c.direction == y.direction && c.key != y.key && c.key <= node_ctr(s, x.tick_id) }),
    g_side(g, right) is Leaf && goes(g, y, right) && node_ctr(s, x.tick_id) < u64::MAX ==> mid_told(s, split_to(s, x, y, right), x, y, g, g_with(g, split_gt(side_rec(s.f_nodes, x, right), y, (node_ctr(s, x.tick_id) + 1) as u64), right))
{
  hide(ins_pre); hide(ins_mid); hide(ins_post); hide(goes); hide(split_to); hide(split_gt); hide(g_with);
  if g_side(g, right) is Node {
    lem_ins_child(s, x, y, g, right);
    if goes(g, y, right) {
      assert forall|s1: SV, m: SV, c: TreeNode, z: TreeNode, h: GT, c2: GT| #[trigger] ins_post(s1, m, c, y, z, h, c2) && s1 == put_node(s, x) && c == side_rec(s.f_nodes, x, right) && h == g_side(g, right) implies mid_told(s, m, x, y, g, g_with(g, c2, right)) by {
        lem_ins_child_mid(s, m, x, y, z, g, c2, right);
      }
    }
  } else if goes(g, y, right) {
    lem_split_ok(s, x, y, g, right);
    if node_ctr(s, x.tick_id) < u64::MAX { lem_ins_split(s, x, y, g, right); }
  }
}
pub proof fn lem_ins_entry(s: SV, x: TreeNode, y: TreeNode, g: GT)
  requires ins_pre(s, x, y, g)
  ensures forall|m: SV, r: SV, x2: TreeNode, z: TreeNode, g1: GT| #![trigger reb_post(m, r, x2, z, g1)] ins_mid(s, m, x, x2, y, g, g1) && reb_post(m, r, x2, z, g1) ==> ins_post(s, r, x, y, z, g, g_reb(g1))
{
  hide(ins_pre); hide(ins_mid); hide(ins_post); hide(reb_post);
  assert forall|m: SV, r: SV, x2: TreeNode, z: TreeNode, g1: GT| #![trigger reb_post(m, r, x2, z, g1)] ins_mid(s, m, x, x2, y, g, g1) && reb_post(m, r, x2, z, g1) implies ins_post(s, r, x, y, z, g, g_reb(g1)) by { lem_ins_end(s, m, r, x, x2, y, z, g, g1); }
}
// likewise for the rebalancing: the first half of a double rotation, and two steps in a row
pub proof fn lem_reb_entry(s: SV, x: TreeNode, g: GT)
  requires reb_pre(s.f_nodes, x, g)
  ensures
    forall|s1: SV, y: TreeNode, y2: TreeNode, c: GT, c2: GT| #![trigger g_moved(s, s1, y, y2, c, c2, ISet::empty())] g_moved(s, s1, y, y2, c, c2, ISet::empty()) && c == g_right(g) && c is Node && y == g_mk(x.tick_id, x.direction, Some(x.key), c) && g_ht(c2) <= g_ht(c) + 1 && g_sum(c2) == g_sum(c) && g_hi(c2) == g_hi(c)
      ==> rot_told(s, s1, x, g, g_node(g, g_left(g), c2)),
    forall|s1: SV, y: TreeNode, y2: TreeNode, c: GT, c2: GT| #![trigger g_moved(s, s1, y, y2, c, c2, ISet::empty())] g_moved(s, s1, y, y2, c, c2, ISet::empty()) && c == g_left(g) && c is Node && y == g_mk(x.tick_id, x.direction, Some(x.key), c) && g_ht(c2) <= g_ht(c) + 1 && g_sum(c2) == g_sum(c) && g_hi(c2) == g_hi(c)
      ==> rot_told(s, s1, x, g, g_node(g, c2, g_right(g))),
    forall|s1: SV, s2: SV, x1: TreeNode, y: TreeNode, g1: GT, g2: GT| #![trigger rot_told(s, s1, x, g, g1), g_moved(s1, s2, x1, y, g1, g2, ISet::empty())] rot_told(s, s1, x, g, g1) && g_moved(s1, s2, x1, y, g1, g2, ISet::empty()) && x1 == s1.f_nodes[(x.tick_id, x.key)] && gk(g1) == gk(g) ==> g_moved(s, s2, x, y, g, g2, ISet::empty()),
{
  hide(g_moved); hide(g_at); hide(g_pre);
  assert forall|s1: SV, y: TreeNode, y2: TreeNode, c: GT, c2: GT| #![trigger g_moved(s, s1, y, y2, c, c2, ISet::empty())] g_moved(s, s1, y, y2, c, c2, ISet::empty()) && c == g_right(g) && c is Node && y == g_mk(x.tick_id, x.direction, Some(x.key), c) && g_ht(c2) <= g_ht(c) + 1 && g_sum(c2) == g_sum(c) && g_hi(c2) == g_hi(c)
      implies rot_told(s, s1, x, g, g_node(g, g_left(g), c2)) by { lem_inner_rot(s, s1, x, y, y2, g, c2, true); }
  assert forall|s1: SV, y: TreeNode, y2: TreeNode, c: GT, c2: GT| #![trigger g_moved(s, s1, y, y2, c, c2, ISet::empty())] g_moved(s, s1, y, y2, c, c2, ISet::empty()) && c == g_left(g) && c is Node && y == g_mk(x.tick_id, x.direction, Some(x.key), c) && g_ht(c2) <= g_ht(c) + 1 && g_sum(c2) == g_sum(c) && g_hi(c2) == g_hi(c)
      implies rot_told(s, s1, x, g, g_node(g, c2, g_right(g))) by { lem_inner_rot(s, s1, x, y, y2, g, c2, false); }
  assert forall|s1: SV, s2: SV, x1: TreeNode, y: TreeNode, g1: GT, g2: GT| #![trigger rot_told(s, s1, x, g, g1), g_moved(s1, s2, x1, y, g1, g2, ISet::empty())] rot_told(s, s1, x, g, g1) && g_moved(s1, s2, x1, y, g1, g2, ISet::empty()) && x1 == s1.f_nodes[(x.tick_id, x.key)] && gk(g1) == gk(g) implies g_moved(s, s2, x, y, g, g2, ISet::empty()) by {
    assert(par_ok(s.f_nodes, x, g)) by { reveal(g_pre); }
    lem_moved_trans(s, s1, s2, x, x1, y, g, g1, g2);
  }
}
pub open spec fn rot_told(s: SV, s1: SV, x: TreeNode, g: GT, g1: GT) -> bool {
  let x1 = s1.f_nodes[(x.tick_id, x.key)];
  s1.f_nodes.dom().contains((x.tick_id, x.key)) && g_pre(s1.f_nodes, x1, g1) && has_rec(s1.f_nodes, x1) && x1.tick_id == x.tick_id && x1.key == x.key && x1.direction == x.direction && x1.parent == x.parent && g_of(s1.f_nodes, x1) == g1
    && g_ks(g1).subset_of(g_ks(g)) && s1.f_tree == s.f_tree && g_fr(s.f_nodes, s1.f_nodes, x.tick_id, g_ks(g))
}
pub open spec fn zero_pre(x: TreeNode, y: TreeNode) -> bool { inner(x) && x.left is None && x.right is None && new_leaf(y, x.tick_id, x.direction) && y.key != x.key && nval(y) < P256() && nhi(y) < P256() }
pub open spec fn one_pre(s: SV, x: TreeNode, y: TreeNode) -> bool {
  inner(x) && x.right is None && new_leaf(y, x.tick_id, x.direction) && y.key != x.key && lc(s.f_nodes, x) is Some && ({ let a = lc(s.f_nodes, x)->0;
    !inner(a) && a.key != x.key && a.key != y.key && a.tick_id == x.tick_id && x.left == Some(a.key) && nval(a) + nval(y) < P256() && nhi(a) < P256() && nhi(y) < P256() })
}
pub open spec fn zero_post(s: SV, r: SV, x: TreeNode, y: TreeNode, z: TreeNode) -> bool {
  let b = with_parent(y, x.key);
  z == resum(TreeNode { left: Some(y.key), ..x }, Some(b), None) && r =~= put_node(put_node(s, b), z)
}
pub open spec fn one_post(s: SV, r: SV, x: TreeNode, y: TreeNode, z: TreeNode) -> bool {
  let a = lc(s.f_nodes, x)->0; let b = with_parent(y, x.key);
  z == (if nhi(y) <= nlo(a) { resum(TreeNode { left: Some(y.key), right: x.left, ..x }, Some(b), Some(a)) } else { resum(TreeNode { right: Some(y.key), ..x }, Some(a), Some(b)) })
  && r =~= put_node(put_node(s, b), z)
}
// ---- an entry inside an existing one is refused ----
pub open spec fn e_inside(l: Seq<(nat, nat)>, x: (nat, nat)) -> bool { exists|i: int| 0 <= i < l.len() && (#[trigger] l[i]).0 <= x.0 && e_end(x) <= e_end(l[i]) }
pub open spec fn ovl_pre(s: SV, x: TreeNode, y: TreeNode, g: GT) -> bool { g_at(s.f_nodes, x, g) && g_ht(g) <= HT_MAX() && new_leaf(y, x.tick_id, x.direction) && e_sorted(g_lv(g)) && e_inside(g_lv(g), entry_of(y)) }
pub open spec fn ovl_side(s: SV, x: TreeNode, y: TreeNode, g: GT, right: bool) -> bool {
  let c = side_rec(s.f_nodes, x, right); let h = g_side(g, right);
  (h is Node ==> ovl_pre(put_node(s, x), c, y, h) && g_of(put_node(s, x).f_nodes, c) == h) && (h is Leaf ==> !apart(c, y)) && (right ==> nlo(y) >= g_lo(h) && nlo(y) >= g_hi(g_left(g))) && (!right ==> nlo(y) < g_hi(h) && nlo(y) < g_lo(g_right(g)))
}
pub proof fn lem_ovl(s: SV, x: TreeNode, y: TreeNode, g: GT)
  requires ovl_pre(s, x, y, g)
  ensures ovl_side(s, x, y, g, true) || ovl_side(s, x, y, g, false)
{
  let a = g_lv(g_left(g)); let b = g_lv(g_right(g)); let c = g_lv(g); let e = entry_of(y);
  lem_lv_parts(g); lem_below(g, e, true); lem_lohi(g_left(g)); lem_lohi(g_right(g));
  assert(c == a + b);
  let i = choose|i: int| 0 <= i < c.len() && (#[trigger] c[i]).0 <= e.0 && e_end(e) <= e_end(c[i]);
  let right = i >= a.len(); let h = g_side(g, right); let j = if right { i - a.len() } else { i };
  assert(g_lv(h)[j] == c[i]);
  assert(e_inside(g_lv(h), e));
  assert(e.0 < e_end(c[i]));
  if right { if j > 0 { assert(e_end(b[0]) <= b[j].0); } } else { if j < a.len() - 1 { assert(e_end(a[j]) <= a[a.len() - 1].0); } }
  lem_loaded(s, x, g, right);
  let m = put_node(s, x); let r = side_rec(s.f_nodes, x, right); let t = x.tick_id; let d = x.direction;
  match g { GT::Node { k, l, r: rr } => {
    lem_ht_pos(*l); lem_ht_pos(*rr);
    lem_g_put(s.f_nodes, t, d, Some(k), h, k, x);
    if h is Node { assert(g_kids(m.f_nodes, t, d, h)); assert(g_dis(h)); assert(g_at(m.f_nodes, r, h)); lem_g_of(m.f_nodes, r, h); }
    else { assert(g_lv(h).len() == 1); assert(g_lv(h)[0] == (g_lo(h), g_sum(h))); }
  }, _ => {} }
}

// when the index code runs without a panic
pub open spec fn sync_live(n: Map<(i64, u64), TreeNode>, x: TreeNode) -> bool {
  let l = lc(n, x); let r = rc(n, x);
  inner(x) && (x.left is Some || x.right is Some) ==> (l is Some || r is Some) && w_of(l) < u64::MAX && w_of(r) < u64::MAX && (l is Some ==> nhi(l->0) < P256()) && (r is Some ==> nhi(r->0) < P256())
}
pub open spec fn reb_light(n: Map<(i64, u64), TreeNode>, x: TreeNode) -> bool {
  let l = lc(n, x); let r = rc(n, x);
  inner(x) && (l is Some || r is Some) && adiff(w_of(l), w_of(r)) <= 1 && w_of(l) <= HT_MAX() && w_of(r) <= HT_MAX() && v_of(l) + v_of(r) < P256()
}
pub open spec fn reb_live(n: Map<(i64, u64), TreeNode>, t: i64, k: u64) -> bool {
  let x = n[(t, k)]; n.dom().contains((t, k)) && x.tick_id == t && x.key == k && (reb_pre(n, x, g_of(n, x)) || (reb_light(n, x) && sync_live(n, x)))
}
pub open spec fn ins_live(s: SV, x: TreeNode, y: TreeNode) -> bool { node_ctr(s, x.tick_id) < u64::MAX && (zero_pre(x, y) || one_pre(s, x, y) || ins_pre(s, x, y, g_of(s.f_nodes, x))) }
