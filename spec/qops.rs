// ---- every operation keeps the queue invariant ----
// L0: the invariant depends on the orders of this tick and direction only
pub proof fn lem_q_frame(v: TickValues, l: Ents, os: Orders, o2: Orders, t: i64, d: OrderDirection, n: nat)
  requires q_ok(v, l, os, t, d, n), forall|id: u64| ord(os, t, d, id) == #[trigger] ord(o2, t, d, id), n <= u64::MAX
  ensures q_ok(v, l, o2, t, d, n)
{
  assert forall|x: nat| v.effective_total_amount_swapped@ <= x <= v.cumulative_total_value@ implies #[trigger] osum(o2, t, d, x, n) + esum(l, x) == v.cumulative_total_value@ - x by {
    lem_osum_same(os, o2, t, d, x, n); assert(osum(os, t, d, x, n) + esum(l, x) == v.cumulative_total_value@ - x);
  }
  assert forall|a: u64, b: u64| a < b && (#[trigger] ord(o2, t, d, a)) is Some && (#[trigger] ord(o2, t, d, b)) is Some implies q_end(ord(o2, t, d, a)->0) <= ord(o2, t, d, b)->0.etas@ by { assert(ord(os, t, d, a) == ord(o2, t, d, a)); assert(ord(os, t, d, b) == ord(o2, t, d, b)); }
  assert forall|id: u64| (#[trigger] ord(o2, t, d, id)) is Some implies ord_in(v, l, ord(o2, t, d, id)->0) && id < n by { assert(ord(os, t, d, id) == ord(o2, t, d, id)); }
}
// a later next identifier
pub proof fn lem_q_more(v: TickValues, l: Ents, os: Orders, t: i64, d: OrderDirection, n: nat)
  requires q_ok(v, l, os, t, d, n), n < u64::MAX
  ensures q_ok(v, l, os, t, d, n + 1)
{
  assert(ord(os, t, d, n as u64) is None);
  assert forall|x: nat| v.effective_total_amount_swapped@ <= x <= v.cumulative_total_value@ implies #[trigger] osum(os, t, d, x, n + 1) + esum(l, x) == v.cumulative_total_value@ - x by { assert(osum(os, t, d, x, n) + esum(l, x) == v.cumulative_total_value@ - x); assert(otl(ord(os, t, d, n as u64), x) == 0); }
}
pub proof fn lem_q_start(t: i64, d: OrderDirection, os: Orders, n: nat)
  requires forall|id: u64| (#[trigger] ord(os, t, d, id)) is None, n <= u64::MAX
  ensures q_ok(dflt_TickValues(), Seq::empty(), os, t, d, n)
{
  let l: Ents = Seq::empty(); let v = dflt_TickValues();
  assert(l.take(0) =~= l); assert(e_sum(l.take(0)) == 0); assert(fold_at(l, 0, 0, 0)); assert(fold_done(l, 0, 0, 0));
  assert forall|x: nat| v.effective_total_amount_swapped@ <= x <= v.cumulative_total_value@ implies #[trigger] osum(os, t, d, x, n) + esum(l, x) == v.cumulative_total_value@ - x by { lem_osum_high(os, t, d, x, n); }
}
// L1: synchronisation to the tick's own progress
pub open spec fn folded_to(v: TickValues, w: TickValues, l: Ents) -> bool {
  let e = v.effective_total_amount_swapped@;
  synced_vals(v, w, e) && (v.last_tick_sync_etas@ != e ==> w.cumulative_realized_cancels@ == qf(l, e, 0, v.cumulative_realized_cancels@))
}
pub proof fn lem_q_sync(v: TickValues, w: TickValues, l: Ents, os: Orders, t: i64, d: OrderDirection, n: nat)
  requires q_ok(v, l, os, t, d, n), folded_to(v, w, l), n <= u64::MAX
  ensures q_ok(w, l, os, t, d, n), settled(w, l), w.effective_total_amount_swapped@ >= v.effective_total_amount_swapped@, w.total_amount_of_liquidity == v.total_amount_of_liquidity, w.cumulative_total_value == v.cumulative_total_value
{
  let e = v.effective_total_amount_swapped@; let c = v.cumulative_realized_cancels@;
  if w != v {
    let k = choose|k: int| fold_at(l, e, c, k);
    lem_fold(l, e, c, k);
    let e2 = w.effective_total_amount_swapped@; let c2 = w.cumulative_realized_cancels@;
    let f = choose|f: int| #[trigger] fold_to(l, e, c, k, f, (e + qf(l, e, 0, c) - c) as nat) && qf(l, e, 0, c) == e_sum(l.take(f));
    assert(e2 == e + c2 - c);
    assert(fold_at(l, e2, c2, f)); assert(fold_done(l, e2, c2, f));
    let a = l.take(f);
    assert(wholes(a)) by { assert forall|i: int| 0 <= i < a.len() implies whole((#[trigger] a[i]).0) && whole(a[i].1) by { assert(a[i] == l[i]); } }
    lem_whole_sum(a); lem_whole(c2, c); lem_whole(e, (c2 - c) as nat);
    assert(q_whole(w, l)); assert(q_sum(w, l));
    assert forall|id: u64| (#[trigger] ord(os, t, d, id)) is Some implies ord_in(w, l, ord(os, t, d, id)->0) by { assert(ord_in(v, l, ord(os, t, d, id)->0)); }
    assert forall|x: nat| w.effective_total_amount_swapped@ <= x <= w.cumulative_total_value@ implies #[trigger] osum(os, t, d, x, n) + esum(l, x) == w.cumulative_total_value@ - x by { assert(osum(os, t, d, x, n) + esum(l, x) == v.cumulative_total_value@ - x); }
  }
}
// L2: a fill
pub proof fn lem_q_fill(v: TickValues, f: nat, l: Ents, os: Orders, t: i64, d: OrderDirection, n: nat)
  requires q_ok(v, l, os, t, d, n), f <= v.total_amount_of_liquidity@, whole(f), n <= u64::MAX
  ensures q_ok(filled(v, f), l, os, t, d, n)
{
  let w = filled(v, f);
  lem_whole(v.effective_total_amount_swapped@, f); lem_whole(v.total_amount_of_liquidity@, f);
  let k = choose|k: int| fold_at(l, v.effective_total_amount_swapped@, v.cumulative_realized_cancels@, k);
  assert(fold_at(l, w.effective_total_amount_swapped@, w.cumulative_realized_cancels@, k));
  if f == 0 && settled(v, l) { let j = choose|j: int| fold_done(l, v.effective_total_amount_swapped@, v.cumulative_realized_cancels@, j); assert(fold_done(l, w.effective_total_amount_swapped@, w.cumulative_realized_cancels@, j)); }
  assert forall|id: u64| (#[trigger] ord(os, t, d, id)) is Some implies ord_in(w, l, ord(os, t, d, id)->0) by { assert(ord_in(v, l, ord(os, t, d, id)->0)); }
  assert forall|x: nat| w.effective_total_amount_swapped@ <= x <= w.cumulative_total_value@ implies #[trigger] osum(os, t, d, x, n) + esum(l, x) == w.cumulative_total_value@ - x by { assert(osum(os, t, d, x, n) + esum(l, x) == v.cumulative_total_value@ - x); }
}
// L3: a placement behind everything placed before
pub open spec fn placed_tv(v: TickValues, a: nat) -> TickValues { TickValues { total_amount_of_liquidity: d256(v.total_amount_of_liquidity@ + a), cumulative_total_value: d256(v.cumulative_total_value@ + a), ..v } }
pub proof fn lem_q_place(v: TickValues, l: Ents, os: Orders, o2: Orders, t: i64, d: OrderDirection, n: nat, o: LimitOrder)
  requires q_ok(v, l, os, t, d, n), n < u64::MAX, o.order_direction == d, o.etas@ == v.cumulative_total_value@, o.quantity@ > 0, o2 == os.insert((t, n as u64), o)
  ensures q_ok(placed_tv(v, o.quantity@ * E18()), l, o2, t, d, n + 1)
{
  let a = o.quantity@ * E18(); let w = placed_tv(v, a); let c = v.cumulative_total_value@;
  lem_whole(o.quantity@, 0); lem_whole(v.cumulative_total_value@, a); lem_whole(v.total_amount_of_liquidity@, a);
  assert(ord(o2, t, d, n as u64) == Some(o));
  assert forall|id: u64| id != n implies ord(os, t, d, id) == #[trigger] ord(o2, t, d, id) by {}
  assert(ord_in(w, l, o)) by { assert forall|i: int| 0 <= i < l.len() implies e_end(#[trigger] l[i]) <= cq(o).0 || e_end(cq(o)) <= l[i].0 by {} }
  assert forall|id: u64| (#[trigger] ord(o2, t, d, id)) is Some implies ord_in(w, l, ord(o2, t, d, id)->0) && id < n + 1 by { if id != n { assert(ord(os, t, d, id) == ord(o2, t, d, id)); assert(ord_in(v, l, ord(os, t, d, id)->0)); } }
  assert forall|x: u64, y: u64| x < y && (#[trigger] ord(o2, t, d, x)) is Some && (#[trigger] ord(o2, t, d, y)) is Some implies q_end(ord(o2, t, d, x)->0) <= ord(o2, t, d, y)->0.etas@ by {
    if y != n { assert(y < n); assert(ord(os, t, d, x) == ord(o2, t, d, x) && ord(os, t, d, y) == ord(o2, t, d, y)); } else { assert(ord(os, t, d, x) == ord(o2, t, d, x)); assert(ord_in(v, l, ord(os, t, d, x)->0)); }
  }
  assert forall|x: nat| w.effective_total_amount_swapped@ <= x <= w.cumulative_total_value@ implies #[trigger] osum(o2, t, d, x, n + 1) + esum(l, x) == w.cumulative_total_value@ - x by {
    lem_osum_upd(os, o2, t, d, x, n, n as u64);
    assert(osum(o2, t, d, x, n + 1) == osum(o2, t, d, x, n) + otl(Some(o), x));
    if x <= c { assert(osum(os, t, d, x, n) + esum(l, x) == c - x); }
    else {
      assert forall|id: u64| (#[trigger] ord(os, t, d, id)) is Some implies q_end(ord(os, t, d, id)->0) <= x by { assert(ord_in(v, l, ord(os, t, d, id)->0)); }
      lem_osum_high(os, t, d, x, n); lem_esum_high(l, x);
    }
  }
  let k = choose|k: int| fold_at(l, v.effective_total_amount_swapped@, v.cumulative_realized_cancels@, k);
  assert(fold_at(l, w.effective_total_amount_swapped@, w.cumulative_realized_cancels@, k));
  if settled(v, l) { let j = choose|j: int| fold_done(l, v.effective_total_amount_swapped@, v.cumulative_realized_cancels@, j); assert(fold_done(l, w.effective_total_amount_swapped@, w.cumulative_realized_cancels@, j)); }
}
// L4: a claim
pub open spec fn claim_map(v: TickValues, os: Orders, t: i64, id: u64) -> Orders {
  let o = os[(t, id)];
  if cl_units(v, o) == o.quantity@ { os.remove((t, id)) } else { os.insert((t, id), LimitOrder { quantity: Uint128 { v: (o.quantity@ - cl_units(v, o)) as u128 }, etas: d256(o.etas@ + cl_fill(v, o)), ..o }) }
}
pub proof fn lem_claim_one(v: TickValues, os: Orders, t: i64, d: OrderDirection, id: u64)
  requires ord(os, t, d, id) is Some, v.effective_total_amount_swapped@ > os[(t, id)].etas@, os[(t, id)].quantity@ > 0, whole(os[(t, id)].etas@), whole(v.effective_total_amount_swapped@)
  ensures ({ let o = os[(t, id)]; let o2 = claim_map(v, os, t, id); let f = cl_fill(v, o); let u = cl_units(v, o);
    &&& u * E18() == f && whole(f) && 0 < u <= o.quantity@ && o.etas@ + f >= v.effective_total_amount_swapped@ || u == o.quantity@ && u * E18() == f && whole(f) && 0 < u
    &&& ord(o2, t, d, id) is Some <==> u < o.quantity@
    &&& ord(o2, t, d, id) is Some ==> ({ let p = ord(o2, t, d, id)->0; p.quantity@ == o.quantity@ - u && p.quantity@ > 0 && p.etas@ == o.etas@ + f && whole(p.etas@) && q_end(p) == q_end(o) && p.quantity@ * E18() == o.quantity@ * E18() - f })
    &&& forall|i: u64| i != id ==> ord(os, t, d, i) == #[trigger] ord(o2, t, d, i) })
{
  let o = os[(t, id)]; let o2 = claim_map(v, os, t, id); let e = v.effective_total_amount_swapped@; let f = cl_fill(v, o); let u = cl_units(v, o); let q = o.quantity@;
  lem_whole(e, o.etas@); lem_whole(q, 0); lem_whole(q * E18(), 0); lem_whole(f, 0);
  assert(u * E18() == f);
  assert(u <= q) by (nonlinear_arith) requires u * E18() == f, f <= q * E18();
  assert(f > 0) by (nonlinear_arith) requires f == nmin((e - o.etas@) as nat, q * E18()), e > o.etas@, q > 0;
  assert(u > 0) by (nonlinear_arith) requires u * E18() == f, f > 0;
  assert(q * E18() - f == (q - u) * E18()) by (nonlinear_arith) requires u * E18() == f;
  lem_whole(o.etas@, f);
  if u < q { assert(f < q * E18()) by (nonlinear_arith) requires u * E18() == f, u < q; }
}
pub proof fn lem_claim_cover(v: TickValues, l: Ents, os: Orders, o2: Orders, t: i64, d: OrderDirection, n: nat, id: u64)
  requires q_cover(v, l, os, t, d, n), n <= u64::MAX, forall|i: u64| i != id ==> ord(os, t, d, i) == #[trigger] ord(o2, t, d, i), forall|x: nat| v.effective_total_amount_swapped@ <= x ==> otl(ord(os, t, d, id), x) == #[trigger] otl(ord(o2, t, d, id), x)
  ensures q_cover(v, l, o2, t, d, n)
{
  assert forall|x: nat| v.effective_total_amount_swapped@ <= x <= v.cumulative_total_value@ implies #[trigger] osum(o2, t, d, x, n) + esum(l, x) == v.cumulative_total_value@ - x by {
    assert(osum(os, t, d, x, n) + esum(l, x) == v.cumulative_total_value@ - x);
    assert(otl(ord(os, t, d, id), x) == otl(ord(o2, t, d, id), x));
    lem_osum_upd(os, o2, t, d, x, n, id);
  }
}
pub proof fn lem_claim_ord(v: TickValues, l: Ents, os: Orders, o2: Orders, t: i64, d: OrderDirection, n: nat, id: u64)
  requires q_ord(v, l, os, t, d), q_fifo(os, t, d), q_new(os, t, d, n), ord(os, t, d, id) is Some, forall|i: u64| i != id ==> ord(os, t, d, i) == #[trigger] ord(o2, t, d, i),
    ord(o2, t, d, id) is Some ==> ({ let p = ord(o2, t, d, id)->0; let o = ord(os, t, d, id)->0; p.quantity@ > 0 && p.etas@ >= o.etas@ && whole(p.etas@) && q_end(p) == q_end(o) })
  ensures q_ord(v, l, o2, t, d), q_fifo(o2, t, d), q_new(o2, t, d, n)
{
  assert forall|i: u64| (#[trigger] ord(o2, t, d, i)) is Some implies ord_in(v, l, ord(o2, t, d, i)->0) && i < n && ord(os, t, d, i) is Some && ord(os, t, d, i)->0.etas@ <= ord(o2, t, d, i)->0.etas@ && q_end(ord(o2, t, d, i)->0) == q_end(ord(os, t, d, i)->0) by {
    assert(ord(os, t, d, i) is Some); assert(ord_in(v, l, ord(os, t, d, i)->0));
    if i == id {
      let p = ord(o2, t, d, i)->0; let o = ord(os, t, d, i)->0;
      assert(e_end(cq(p)) == q_end(p) && e_end(cq(o)) == q_end(o));
      assert(e_apart(l, cq(p))) by { assert forall|j: int| 0 <= j < l.len() implies e_end(#[trigger] l[j]) <= cq(p).0 || e_end(cq(p)) <= l[j].0 by { assert(e_end(l[j]) <= cq(o).0 || e_end(cq(o)) <= l[j].0); } }
    }
  }
  assert forall|a: u64, b: u64| a < b && (#[trigger] ord(o2, t, d, a)) is Some && (#[trigger] ord(o2, t, d, b)) is Some implies q_end(ord(o2, t, d, a)->0) <= ord(o2, t, d, b)->0.etas@ by {
    assert(ord(os, t, d, a) is Some && ord(os, t, d, b) is Some); assert(q_end(ord(os, t, d, a)->0) <= ord(os, t, d, b)->0.etas@);
  }
}
pub proof fn lem_q_claim(v: TickValues, l: Ents, os: Orders, t: i64, d: OrderDirection, n: nat, id: u64)
  requires q_ok(v, l, os, t, d, n), n <= u64::MAX, ord(os, t, d, id) is Some, v.effective_total_amount_swapped@ > os[(t, id)].etas@
  ensures q_ok(v, l, claim_map(v, os, t, id), t, d, n), cl_units(v, os[(t, id)]) * E18() == cl_fill(v, os[(t, id)]), 0 < cl_units(v, os[(t, id)]) <= os[(t, id)].quantity@,
    osum(claim_map(v, os, t, id), t, d, 0, n) + cl_fill(v, os[(t, id)]) == osum(os, t, d, 0, n)
{
  hide(q_ord); hide(q_fifo); hide(q_new); hide(q_cover); hide(fold_inv); hide(claim_map); hide(e_sorted); hide(ents_in); hide(osum); hide(wholes);
  let o = os[(t, id)]; let o2 = claim_map(v, os, t, id); let e = v.effective_total_amount_swapped@; let f = cl_fill(v, o); let u = cl_units(v, o);
  assert(ord(os, t, d, id) == Some(o));
  assert(ord_in(v, l, o)) by { reveal(q_ord); assert(ord_in(v, l, ord(os, t, d, id)->0)); }
  assert(id < n) by { reveal(q_new); }
  lem_claim_one(v, os, t, d, id);
  lem_claim_ord(v, l, os, o2, t, d, n, id);
  assert forall|x: nat| e <= x implies otl(ord(os, t, d, id), x) == #[trigger] otl(ord(o2, t, d, id), x) by {}
  lem_claim_cover(v, l, os, o2, t, d, n, id);
  lem_osum_upd(os, o2, t, d, 0, n, id);
  assert(otl(ord(os, t, d, id), 0) == o.quantity@ * E18());
  assert(otl(ord(o2, t, d, id), 0) + f == o.quantity@ * E18());
}
// an order nothing of which is filled is covered by resting liquidity
pub proof fn lem_q_room(v: TickValues, l: Ents, os: Orders, t: i64, d: OrderDirection, n: nat, id: u64)
  requires q_ok(v, l, os, t, d, n), settled(v, l), n <= u64::MAX, ord(os, t, d, id) is Some, v.effective_total_amount_swapped@ <= os[(t, id)].etas@
  ensures v.total_amount_of_liquidity@ >= os[(t, id)].quantity@ * E18()
{
  let e = v.effective_total_amount_swapped@; let o2 = os.remove((t, id));
  lem_q_liq(v, l, os, t, d, n);
  assert forall|z: u64| z != id implies ord(os, t, d, z) == #[trigger] ord(o2, t, d, z) by {}
  lem_osum_upd(os, o2, t, d, e, n, id);
  assert(ord_in(v, l, ord(os, t, d, id)->0)); assert(id < n);
}
// L5: a cancellation of an order nothing of which is filled
// what it does to the entries
pub proof fn lem_added_at(l: Ents, m: Ents, y: (nat, nat), i: int, j: int)
  requires 0 <= i <= l.len(), m =~= l.insert(i, y), 0 <= j < m.len()
  ensures j < i ==> m[j] == l[j], j == i ==> m[j] == y, j > i ==> m[j] == l[j - 1], m.len() == l.len() + 1
{}
pub proof fn lem_added_apart(l: Ents, m: Ents, y: (nat, nat), p: (nat, nat))
  requires e_added(l, m, y), e_apart(l, p), e_end(y) <= p.0 || e_end(p) <= y.0
  ensures e_apart(m, p)
{
  let i = choose|i: int| 0 <= i <= l.len() && m =~= #[trigger] l.insert(i, y);
  assert forall|j: int| 0 <= j < m.len() implies e_end(#[trigger] m[j]) <= p.0 || e_end(p) <= m[j].0 by { lem_added_at(l, m, y, i, j); }
}
pub proof fn lem_added_wholes(l: Ents, m: Ents, y: (nat, nat), c: nat)
  requires e_added(l, m, y), wholes(l), whole(y.0), whole(y.1), forall|i: int| 0 <= i < l.len() ==> e_end(#[trigger] l[i]) <= c, e_end(y) <= c
  ensures wholes(m), forall|i: int| 0 <= i < m.len() ==> e_end(#[trigger] m[i]) <= c
{
  let i = choose|i: int| 0 <= i <= l.len() && m =~= #[trigger] l.insert(i, y);
  assert forall|j: int| 0 <= j < m.len() implies whole((#[trigger] m[j]).0) && whole(m[j].1) && e_end(m[j]) <= c by { lem_added_at(l, m, y, i, j); }
}
pub proof fn lem_added_fold(l: Ents, m: Ents, y: (nat, nat), e: nat, rc: nat, k: int)
  requires fold_done(l, e, rc, k), e <= y.0, y.1 > 0, e_added(l, m, y), e_sorted(m)
  ensures fold_done(m, e, rc, k)
{
  let i = choose|i: int| 0 <= i <= l.len() && m =~= #[trigger] l.insert(i, y);
  assert(m.len() == l.len() + 1);
  if i < k { lem_added_at(l, m, y, i, i); lem_added_at(l, m, y, i, k); assert(m[k] == l[k - 1]); assert(e_end(m[i]) <= m[k].0); assert(e_end(l[k - 1]) <= e); assert(m[k].0 <= e_end(m[k])); assert(false); }
  assert(m.take(k) =~= l.take(k));
  if k > 0 { lem_added_at(l, m, y, i, k - 1); }
  lem_added_at(l, m, y, i, k);
  assert(fold_at(m, e, rc, k));
}
pub proof fn lem_l_cancel(v: TickValues, l: Ents, m: Ents, y: (nat, nat))
  requires e_sorted(l), fold_inv(v, l), settled(v, l), wholes(l), ents_in(v, l), v.effective_total_amount_swapped@ <= y.0, y.1 > 0, whole(y.0), whole(y.1), e_end(y) <= v.cumulative_total_value@, e_added(l, m, y), e_sorted(m)
  ensures fold_inv(v, m), settled(v, m), wholes(m), ents_in(v, m), e_sum(m) == e_sum(l) + y.1, forall|p: (nat, nat)| #[trigger] e_apart(l, p) && (e_end(y) <= p.0 || e_end(p) <= y.0) ==> e_apart(m, p)
{
  let e = v.effective_total_amount_swapped@; let rc = v.cumulative_realized_cancels@; let c = v.cumulative_total_value@;
  let k = choose|k: int| fold_done(l, e, rc, k);
  lem_added_fold(l, m, y, e, rc, k);
  assert(fold_at(m, e, rc, k));
  lem_added_sum(l, m, y);
  lem_added_wholes(l, m, y, c);
  assert forall|p: (nat, nat)| #[trigger] e_apart(l, p) && (e_end(y) <= p.0 || e_end(p) <= y.0) implies e_apart(m, p) by { lem_added_apart(l, m, y, p); }
}
pub open spec fn lowered(v: TickValues, a: nat) -> TickValues { TickValues { total_amount_of_liquidity: d256((v.total_amount_of_liquidity@ - a) as nat), ..v } }
// what it does to the orders
pub proof fn lem_o_cancel(v: TickValues, l: Ents, m: Ents, os: Orders, t: i64, d: OrderDirection, n: nat, id: u64)
  requires q_ok(v, l, os, t, d, n), n <= u64::MAX, ord(os, t, d, id) is Some, forall|p: (nat, nat)| #[trigger] e_apart(l, p) && (e_end(cq(os[(t, id)])) <= p.0 || e_end(p) <= cq(os[(t, id)]).0) ==> e_apart(m, p)
  ensures q_ord(v, m, os.remove((t, id)), t, d), q_fifo(os.remove((t, id)), t, d), q_new(os.remove((t, id)), t, d, n)
{
  let o2 = os.remove((t, id)); let o = os[(t, id)];
  assert forall|z: u64| z != id implies ord(os, t, d, z) == #[trigger] ord(o2, t, d, z) by {}
  assert forall|z: u64| (#[trigger] ord(o2, t, d, z)) is Some implies ord_in(v, m, ord(o2, t, d, z)->0) && z < n by {
    assert(z != id); assert(ord(os, t, d, z) == ord(o2, t, d, z)); let p = ord(o2, t, d, z)->0; assert(ord_in(v, l, p));
    if z < id { assert(q_end(ord(os, t, d, z)->0) <= ord(os, t, d, id)->0.etas@); } else { assert(q_end(ord(os, t, d, id)->0) <= ord(os, t, d, z)->0.etas@); }
    assert(e_apart(l, cq(p)));
  }
  assert forall|x: u64, z: u64| x < z && (#[trigger] ord(o2, t, d, x)) is Some && (#[trigger] ord(o2, t, d, z)) is Some implies q_end(ord(o2, t, d, x)->0) <= ord(o2, t, d, z)->0.etas@ by { assert(ord(os, t, d, x) == ord(o2, t, d, x) && ord(os, t, d, z) == ord(o2, t, d, z)); }
}
pub proof fn lem_c_cancel(v: TickValues, l: Ents, m: Ents, os: Orders, t: i64, d: OrderDirection, n: nat, id: u64)
  requires q_cover(v, l, os, t, d, n), n <= u64::MAX, ord(os, t, d, id) is Some, id < n, e_added(l, m, cq(os[(t, id)]))
  ensures q_cover(v, m, os.remove((t, id)), t, d, n), os[(t, id)].quantity@ > 0 ==> osum(os.remove((t, id)), t, d, 0, n) + os[(t, id)].quantity@ * E18() == osum(os, t, d, 0, n)
{
  let o2 = os.remove((t, id)); let y = cq(os[(t, id)]);
  assert(ord(o2, t, d, id) is None);
  assert forall|z: u64| z != id implies ord(os, t, d, z) == #[trigger] ord(o2, t, d, z) by {}
  assert forall|x: nat| v.effective_total_amount_swapped@ <= x <= v.cumulative_total_value@ implies #[trigger] osum(o2, t, d, x, n) + esum(m, x) == v.cumulative_total_value@ - x by {
    assert(osum(os, t, d, x, n) + esum(l, x) == v.cumulative_total_value@ - x);
    lem_osum_upd(os, o2, t, d, x, n, id); lem_esum_added(l, m, y, x);
  }
  lem_osum_upd(os, o2, t, d, 0, n, id);
}
pub proof fn lem_q_lower(v: TickValues, m: Ents, os: Orders, t: i64, d: OrderDirection, n: nat, a: nat)
  requires fold_inv(v, m), q_ord(v, m, os, t, d), q_cover(v, m, os, t, d, n)
  ensures fold_inv(lowered(v, a), m), q_ord(lowered(v, a), m, os, t, d), q_cover(lowered(v, a), m, os, t, d, n)
{
  let w = lowered(v, a); let e = v.effective_total_amount_swapped@; let rc = v.cumulative_realized_cancels@;
  let k = choose|k: int| fold_at(m, e, rc, k);
  assert(fold_at(m, w.effective_total_amount_swapped@, w.cumulative_realized_cancels@, k));
  if settled(v, m) { let j = choose|j: int| fold_done(m, e, rc, j); assert(fold_done(m, w.effective_total_amount_swapped@, w.cumulative_realized_cancels@, j)); }
  assert forall|z: u64| (#[trigger] ord(os, t, d, z)) is Some implies ord_in(w, m, ord(os, t, d, z)->0) by { assert(ord_in(v, m, ord(os, t, d, z)->0)); }
  assert forall|x: nat| w.effective_total_amount_swapped@ <= x <= w.cumulative_total_value@ implies #[trigger] osum(os, t, d, x, n) + esum(m, x) == w.cumulative_total_value@ - x by { assert(osum(os, t, d, x, n) + esum(m, x) == v.cumulative_total_value@ - x); }
}
pub proof fn lem_q_cancel(v: TickValues, l: Ents, m: Ents, os: Orders, t: i64, d: OrderDirection, n: nat, id: u64)
  requires q_ok(v, l, os, t, d, n), settled(v, l), n <= u64::MAX, ord(os, t, d, id) is Some, v.effective_total_amount_swapped@ <= os[(t, id)].etas@, e_added(l, m, cq(os[(t, id)])), e_sorted(m)
  ensures ({ let a = os[(t, id)].quantity@ * E18(); v.total_amount_of_liquidity@ >= a && q_ok(lowered(v, a), m, os.remove((t, id)), t, d, n)
    && osum(os.remove((t, id)), t, d, 0, n) + a == osum(os, t, d, 0, n) })
{
  hide(q_cover); hide(fold_inv); hide(settled); hide(q_fifo); hide(q_new); hide(ents_in); hide(osum); hide(e_sorted);
  let o = os[(t, id)]; let o2 = os.remove((t, id)); let y = cq(o); let a = y.1;
  assert(ord(os, t, d, id) == Some(o)); assert(ord_in(v, l, o));
  assert(id < n) by { reveal(q_new); }
  lem_whole(o.quantity@, 0); lem_whole(v.total_amount_of_liquidity@, a);
  assert(a > 0) by (nonlinear_arith) requires a == o.quantity@ * E18(), o.quantity@ > 0;
  lem_l_cancel(v, l, m, y);
  lem_q_room(v, l, os, t, d, n, id);
  lem_o_cancel(v, l, m, os, t, d, n, id);
  lem_c_cancel(v, l, m, os, t, d, n, id);
  lem_q_lower(v, m, o2, t, d, n, a);
  let w = lowered(v, a);
  assert(ents_in(w, m)) by { reveal(ents_in); }
  assert(q_sum(w, m)); assert(q_whole(w, m));
}
