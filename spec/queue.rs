// ---- the queue of one tick and direction: invariant and what each operation does to it ----
pub type Orders = Map<(i64, u64), LimitOrder>;
pub type Ents = Seq<(nat, nat)>;
pub open spec fn ord(os: Orders, t: i64, d: OrderDirection, id: u64) -> Option<LimitOrder> {
  if os.dom().contains((t, id)) && os[(t, id)].order_direction == d { Some(os[(t, id)]) } else { None }
}
// length of [a, b) at or above x
pub open spec fn tl(a: nat, b: nat, x: nat) -> nat { if b <= x { 0 } else if a >= x { monus(b, a) } else { (b - x) as nat } }
pub open spec fn q_end(o: LimitOrder) -> nat { o.etas@ + o.quantity@ * E18() }
pub open spec fn otl(o: Option<LimitOrder>, x: nat) -> nat { match o { Some(o) => tl(o.etas@, q_end(o), x), None => 0 } }
// what the resting orders own at or above position x (with x = 0: their remaining quantities)
pub open spec fn osum(os: Orders, t: i64, d: OrderDirection, x: nat, n: nat) -> nat decreases n {
  if n == 0 { 0 } else { osum(os, t, d, x, (n - 1) as nat) + otl(ord(os, t, d, (n - 1) as u64), x) }
}
pub open spec fn esum(l: Ents, x: nat) -> nat decreases l.len() { if l.len() == 0 { 0 } else { esum(l.drop_last(), x) + tl(l.last().0, e_end(l.last()), x) } }
pub open spec fn whole(n: nat) -> bool { n % E18() == 0 }
pub open spec fn wholes(l: Ents) -> bool { forall|i: int| 0 <= i < l.len() ==> whole((#[trigger] l[i]).0) && whole(l[i].1) }
// the entries folded in so far are the first k, and all of them lie below the fill progress
pub open spec fn fold_at(l: Ents, e: nat, c: nat, k: int) -> bool { 0 <= k <= l.len() && c == e_sum(l.take(k)) && (k > 0 ==> e_end(l[k - 1]) <= e) }
// ... and none of the others starts below it: nothing is left to fold in
pub open spec fn fold_done(l: Ents, e: nat, c: nat, k: int) -> bool { fold_at(l, e, c, k) && (k < l.len() ==> e <= l[k].0) }
pub open spec fn settled(v: TickValues, l: Ents) -> bool { exists|k: int| fold_done(l, v.effective_total_amount_swapped@, v.cumulative_realized_cancels@, k) }
pub open spec fn fold_inv(v: TickValues, l: Ents) -> bool {
  &&& exists|k: int| fold_at(l, v.effective_total_amount_swapped@, v.cumulative_realized_cancels@, k)
  &&& v.last_tick_sync_etas@ <= v.effective_total_amount_swapped@
  &&& v.last_tick_sync_etas@ == v.effective_total_amount_swapped@ ==> settled(v, l)
}
// C12: conservation
pub open spec fn q_sum(v: TickValues, l: Ents) -> bool {
  v.cumulative_total_value@ + v.cumulative_realized_cancels@ == v.total_amount_of_liquidity@ + v.effective_total_amount_swapped@ + e_sum(l)
}
pub open spec fn q_whole(v: TickValues, l: Ents) -> bool {
  whole(v.cumulative_total_value@) && whole(v.total_amount_of_liquidity@) && whole(v.effective_total_amount_swapped@) && whole(v.cumulative_realized_cancels@) && wholes(l)
}
// C14: queue intervals
pub open spec fn ord_in(v: TickValues, l: Ents, o: LimitOrder) -> bool {
  o.quantity@ > 0 && whole(o.etas@) && q_end(o) <= v.cumulative_total_value@ && e_apart(l, cq(o))
}
pub open spec fn q_ord(v: TickValues, l: Ents, os: Orders, t: i64, d: OrderDirection) -> bool {
  forall|id: u64| (#[trigger] ord(os, t, d, id)) is Some ==> ord_in(v, l, ord(os, t, d, id)->0)
}
pub open spec fn q_fifo(os: Orders, t: i64, d: OrderDirection) -> bool {
  forall|a: u64, b: u64| a < b && (#[trigger] ord(os, t, d, a)) is Some && (#[trigger] ord(os, t, d, b)) is Some ==> q_end(ord(os, t, d, a)->0) <= ord(os, t, d, b)->0.etas@
}
pub open spec fn q_new(os: Orders, t: i64, d: OrderDirection, n: nat) -> bool { forall|id: u64| (#[trigger] ord(os, t, d, id)) is Some ==> id < n }
pub open spec fn ents_in(v: TickValues, l: Ents) -> bool { forall|i: int| 0 <= i < l.len() ==> e_end(#[trigger] l[i]) <= v.cumulative_total_value@ }
// everything from the fill progress on belongs to a resting order or to a recorded cancellation
pub open spec fn q_cover(v: TickValues, l: Ents, os: Orders, t: i64, d: OrderDirection, n: nat) -> bool {
  forall|x: nat| v.effective_total_amount_swapped@ <= x <= v.cumulative_total_value@ ==> #[trigger] osum(os, t, d, x, n) + esum(l, x) == v.cumulative_total_value@ - x
}
pub open spec fn q_ok(v: TickValues, l: Ents, os: Orders, t: i64, d: OrderDirection, n: nat) -> bool {
  &&& q_sum(v, l) && q_whole(v, l) && e_sorted(l) && ents_in(v, l)
  &&& fold_inv(v, l)
  &&& q_ord(v, l, os, t, d) && q_fifo(os, t, d) && q_new(os, t, d, n) && q_cover(v, l, os, t, d, n)
}
// ---- sums ----
pub proof fn lem_osum_same(os: Orders, o2: Orders, t: i64, d: OrderDirection, x: nat, n: nat)
  requires forall|id: u64| id < n ==> otl(ord(os, t, d, id), x) == otl(#[trigger] ord(o2, t, d, id), x), n <= u64::MAX
  ensures osum(os, t, d, x, n) == osum(o2, t, d, x, n)
  decreases n
{ if n > 0 { lem_osum_same(os, o2, t, d, x, (n - 1) as nat); assert(otl(ord(os, t, d, (n - 1) as u64), x) == otl(ord(o2, t, d, (n - 1) as u64), x)); } }
pub proof fn lem_osum_upd(os: Orders, o2: Orders, t: i64, d: OrderDirection, x: nat, n: nat, i: u64)
  requires forall|id: u64| id != i ==> ord(os, t, d, id) == #[trigger] ord(o2, t, d, id), n <= u64::MAX
  ensures osum(os, t, d, x, n) + (if i < n { otl(ord(o2, t, d, i), x) } else { 0 }) == osum(o2, t, d, x, n) + (if i < n { otl(ord(os, t, d, i), x) } else { 0 })
  decreases n
{
  if n > 0 {
    lem_osum_upd(os, o2, t, d, x, (n - 1) as nat, i);
    let j = (n - 1) as u64;
    if j != i { assert(ord(os, t, d, j) == ord(o2, t, d, j)); }
  }
}
pub proof fn lem_osum_high(os: Orders, t: i64, d: OrderDirection, x: nat, n: nat)
  requires forall|id: u64| (#[trigger] ord(os, t, d, id)) is Some ==> q_end(ord(os, t, d, id)->0) <= x, n <= u64::MAX
  ensures osum(os, t, d, x, n) == 0
  decreases n
{ if n > 0 { lem_osum_high(os, t, d, x, (n - 1) as nat); assert(otl(ord(os, t, d, (n - 1) as u64), x) == 0); } }
pub proof fn lem_osum_le(os: Orders, t: i64, d: OrderDirection, x: nat, n: nat)
  ensures osum(os, t, d, x, n) <= osum(os, t, d, 0, n)
  decreases n
{ if n > 0 { lem_osum_le(os, t, d, x, (n - 1) as nat); } }
pub proof fn lem_esum_cat(a: Ents, b: Ents, x: nat)
  ensures esum(a + b, x) == esum(a, x) + esum(b, x)
  decreases b.len()
{ if b.len() == 0 { assert(a + b =~= a); } else { assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last()); lem_esum_cat(a, b.drop_last(), x); } }
pub proof fn lem_esum_added(l: Ents, m: Ents, e: (nat, nat), x: nat)
  requires e_added(l, m, e)
  ensures esum(m, x) == esum(l, x) + tl(e.0, e_end(e), x)
{
  let i = choose|i: int| 0 <= i <= l.len() && m =~= #[trigger] l.insert(i, e);
  let a = l.take(i); let b = l.skip(i);
  assert(m =~= a.push(e) + b); assert(l =~= a + b);
  lem_esum_cat(a, b, x); lem_esum_cat(a.push(e), b, x); assert(a.push(e).drop_last() =~= a);
}
pub proof fn lem_esum_high(l: Ents, x: nat)
  requires forall|i: int| 0 <= i < l.len() ==> e_end(#[trigger] l[i]) <= x
  ensures esum(l, x) == 0
  decreases l.len()
{ if l.len() > 0 { let m = l.drop_last(); assert forall|i: int| 0 <= i < m.len() implies e_end(#[trigger] m[i]) <= x by { assert(m[i] == l[i]); } lem_esum_high(m, x); assert(e_end(l[l.len() - 1]) <= x); } }
pub proof fn lem_esum_le(l: Ents, x: nat) ensures esum(l, x) <= e_sum(l) decreases l.len() { if l.len() > 0 { lem_esum_le(l.drop_last(), x); } }
pub proof fn lem_esum_low(l: Ents, x: nat)
  requires forall|i: int| 0 <= i < l.len() ==> x <= (#[trigger] l[i]).0
  ensures esum(l, x) == e_sum(l)
  decreases l.len()
{ if l.len() > 0 { let m = l.drop_last(); assert forall|i: int| 0 <= i < m.len() implies x <= (#[trigger] m[i]).0 by { assert(m[i] == l[i]); } lem_esum_low(m, x); assert(x <= l[l.len() - 1].0); } }
pub proof fn lem_take_sum(l: Ents, k: int)
  requires 0 <= k <= l.len()
  ensures e_sum(l) == e_sum(l.take(k)) + e_sum(l.skip(k)), forall|x: nat| #[trigger] esum(l, x) == esum(l.take(k), x) + esum(l.skip(k), x)
{ assert(l =~= l.take(k) + l.skip(k)); lem_sum_cat(l.take(k), l.skip(k)); assert forall|x: nat| #[trigger] esum(l, x) == esum(l.take(k), x) + esum(l.skip(k), x) by { lem_esum_cat(l.take(k), l.skip(k), x); } }
pub proof fn lem_take_next(l: Ents, k: int)
  requires 0 <= k < l.len()
  ensures e_sum(l.take(k + 1)) == e_sum(l.take(k)) + l[k].1, l.skip(k)[0] == l[k], l.skip(k).drop_first() =~= l.skip(k + 1)
{ assert(l.take(k + 1).drop_last() =~= l.take(k)); assert(l.take(k + 1).last() == l[k]); }
// ---- C15: the fold passes whole entries, from the first one on, each once ----
// from entry j on, when everything before is accounted for
pub open spec fn fold_to(l: Ents, e: nat, c: nat, k: int, f: int, e2: nat) -> bool {
  &&& k <= f <= l.len() && e2 == e + e_sum(l.take(f)) - c && (f > 0 ==> e_end(l[f - 1]) <= e2) && (f < l.len() ==> e2 < l[f].0)
}
pub proof fn lem_fold_rest(l: Ents, j: int, e: nat, c: nat)
  requires 0 <= j <= l.len(), c <= e_sum(l.take(j)), e_sorted(l), j > 0 ==> e_end(l[j - 1]) <= e
  ensures exists|f: int| #[trigger] fold_to(l, e, e_sum(l.take(j)), j, f, (e + qf(l.skip(j), e, e_sum(l.take(j)), c) - e_sum(l.take(j))) as nat) && qf(l.skip(j), e, e_sum(l.take(j)), c) == e_sum(l.take(f))
  decreases l.len() - j
{
  let s = e_sum(l.take(j)); let m = l.skip(j);
  if j == l.len() { assert(fold_to(l, e, s, j, j, e)); }
  else {
    lem_take_next(l, j);
    if e < m[0].0 { assert(fold_to(l, e, s, j, j, e)); }
    else {
      let e2 = e + l[j].1;
      assert(unr(l[j].1, s, c) == l[j].1);
      lem_fold_rest(l, j + 1, e2, c);
      let f = choose|f: int| #[trigger] fold_to(l, e2, e_sum(l.take(j + 1)), j + 1, f, (e2 + qf(l.skip(j + 1), e2, e_sum(l.take(j + 1)), c) - e_sum(l.take(j + 1))) as nat) && qf(l.skip(j + 1), e2, e_sum(l.take(j + 1)), c) == e_sum(l.take(f));
      assert(qf(m, e, s, c) == qf(l.skip(j + 1), e2, e_sum(l.take(j + 1)), c));
      assert(fold_to(l, e, s, j, f, (e + qf(m, e, s, c) - s) as nat));
    }
  }
}
pub proof fn lem_fold_skip(l: Ents, j: int, k: int, e: nat, c: nat)
  requires 0 <= j <= k <= l.len(), e_sorted(l), c == e_sum(l.take(k)), k > 0 ==> e_end(l[k - 1]) <= e
  ensures qf(l.skip(j), e, e_sum(l.take(j)), c) == qf(l.skip(k), e, c, c)
  decreases k - j
{
  if j < k {
    lem_take_next(l, j); lem_fold_skip(l, j + 1, k, e, c);
    let s = e_sum(l.take(j));
    if j < k - 1 { assert(e_end(l[j]) <= l[k - 1].0); }
    assert(e_sum(l.take(j + 1)) <= c) by { lem_take_sum(l.take(k), j + 1); assert(l.take(k).take(j + 1) =~= l.take(j + 1)); }
    assert(unr(l[j].1, s, c) == 0);
    assert(l.skip(j)[0].0 <= e);
  }
}
// the fold as a whole: f entries are accounted for afterwards, all below the new progress, the next one starts above it
pub proof fn lem_fold(l: Ents, e: nat, c: nat, k: int)
  requires e_sorted(l), fold_at(l, e, c, k)
  ensures exists|f: int| #[trigger] fold_to(l, e, c, k, f, (e + qf(l, e, 0, c) - c) as nat) && qf(l, e, 0, c) == e_sum(l.take(f)), qf(l, e, 0, c) >= c
{
  assert(l.skip(0) =~= l); assert(l.take(0) =~= Seq::<(nat, nat)>::empty()); assert(e_sum(l.take(0)) == 0);
  lem_fold_skip(l, 0, k, e, c); lem_fold_rest(l, k, e, c);
  let f = choose|f: int| #[trigger] fold_to(l, e, c, k, f, (e + qf(l.skip(k), e, c, c) - c) as nat) && qf(l.skip(k), e, c, c) == e_sum(l.take(f));
  assert(fold_to(l, e, c, k, f, (e + qf(l, e, 0, c) - c) as nat));
  lem_take_sum(l.take(f), k); assert(l.take(f).take(k) =~= l.take(k));
}
pub proof fn lem_whole(a: nat, b: nat)
  ensures whole(a) && whole(b) ==> whole(a + b) && (a >= b ==> whole((a - b) as nat)), whole(a) ==> (a / E18()) * E18() == a, whole(a * E18()), whole(0), a > 0 && whole(a) ==> a >= E18()
{
  assert((a * E18()) % E18() == 0) by (nonlinear_arith);
}
pub proof fn lem_whole_sum(l: Ents) requires wholes(l) ensures whole(e_sum(l)) decreases l.len() {
  if l.len() > 0 { let m = l.drop_last(); assert forall|i: int| 0 <= i < m.len() implies whole((#[trigger] m[i]).0) && whole(m[i].1) by { assert(m[i] == l[i]); } lem_whole_sum(m); assert(whole(l[l.len() - 1].1)); lem_whole(e_sum(m), l.last().1); }
}
// synchronising again right away advances nothing
pub proof fn lem_fold_twice(l: Ents, e: nat, c: nat, k: int)
  requires e_sorted(l), fold_at(l, e, c, k)
  ensures ({ let n = qf(l, e, 0, c); let e2 = (e + n - c) as nat; qf(l, e2, 0, n) == n })
{
  lem_fold(l, e, c, k);
  let n = qf(l, e, 0, c); let e2 = (e + n - c) as nat;
  let f = choose|f: int| #[trigger] fold_to(l, e, c, k, f, e2) && n == e_sum(l.take(f));
  assert(fold_at(l, e2, n, f));
  assert(l.skip(0) =~= l); assert(l.take(0) =~= Seq::<(nat, nat)>::empty()); assert(e_sum(l.take(0)) == 0);
  lem_fold_skip(l, 0, f, e2, n);
  if f < l.len() { assert(l.skip(f)[0] == l[f]); }
}
// what resting orders own above the progress is at least the resting liquidity; right after a fold it is equal to it
pub proof fn lem_q_liq(v: TickValues, l: Ents, os: Orders, t: i64, d: OrderDirection, n: nat)
  requires q_ok(v, l, os, t, d, n)
  ensures v.effective_total_amount_swapped@ + v.total_amount_of_liquidity@ <= v.cumulative_total_value@, v.cumulative_realized_cancels@ <= e_sum(l),
    osum(os, t, d, v.effective_total_amount_swapped@, n) >= v.total_amount_of_liquidity@, osum(os, t, d, 0, n) >= v.total_amount_of_liquidity@,
    settled(v, l) ==> osum(os, t, d, v.effective_total_amount_swapped@, n) == v.total_amount_of_liquidity@,
{
  let e = v.effective_total_amount_swapped@;
  let k = choose|k: int| fold_at(l, e, v.cumulative_realized_cancels@, k);
  lem_take_sum(l, k);
  let a = l.take(k);
  assert forall|i: int| 0 <= i < a.len() implies e_end(#[trigger] a[i]) <= e by { assert(a[i] == l[i]); if i < k - 1 { assert(e_end(l[i]) <= l[k - 1].0); } }
  lem_esum_high(a, e); lem_esum_le(l.skip(k), e); lem_osum_le(os, t, d, e, n);
  assert(esum(l, e) == esum(a, e) + esum(l.skip(k), e));
  if settled(v, l) {
    let j = choose|j: int| fold_done(l, e, v.cumulative_realized_cancels@, j);
    lem_take_sum(l, j);
    let a = l.take(j); let b = l.skip(j);
    assert forall|i: int| 0 <= i < a.len() implies e_end(#[trigger] a[i]) <= e by { assert(a[i] == l[i]); if i < j - 1 { assert(e_end(l[i]) <= l[j - 1].0); } }
    assert forall|i: int| 0 <= i < b.len() implies e <= (#[trigger] b[i]).0 by { assert(b[i] == l[j + i]); if i > 0 { assert(e_end(l[j]) <= l[j + i].0); } }
    lem_esum_high(a, e); lem_esum_low(b, e);
    assert(esum(l, e) == esum(a, e) + esum(b, e));
  }
}
