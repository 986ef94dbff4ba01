// the tick of one item of a walk over the stored ticks (keys only or entries, from cw-storage-plus or already unwrapped)
pub trait VKey { spec fn vkey(self) -> Option<i64>; }
impl VKey for i64 { open spec fn vkey(self) -> Option<i64> { Some(self) } }
impl VKey for (i64, TickState) { open spec fn vkey(self) -> Option<i64> { Some(self.0) } }
impl<T: VKey> VKey for Result<T, StdError> { open spec fn vkey(self) -> Option<i64> { match self { Ok(v) => v.vkey(), Err(_) => None } } }
// ---- a swap as a function of the stored book ----
// rem: input left, out: output so far, upd: updated ticks in visiting order, price: last price used,
// dust: the rest of the input buys nothing, bad: the swap is refused
pub struct Swap { pub rem: nat, pub out: nat, pub upd: Seq<(i64, TickState)>, pub book: Orderbook, pub price: nat, pub dust: bool, pub bad: bool }
pub open spec fn set_next(b: Orderbook, side: OrderDirection, t: i64) -> Orderbook {
  match side { OrderDirection::Ask => Orderbook { next_ask_tick: t, ..b }, OrderDirection::Bid => Orderbook { next_bid_tick: t, ..b } }
}
// what one tick supplies (18 decimals) to a swap in direction d with `rem` input left, and what it charges
pub open spec fn fill_of(v: TickValues, d: OrderDirection, rem: nat, t: i64) -> nat { nmin(vdown(d, rem, ladder(t as int)) * E18(), v.total_amount_of_liquidity@) }
pub open spec fn charge_of(v: TickValues, d: OrderDirection, rem: nat, t: i64) -> nat { vup(opp(d), fill_of(v, d, rem, t) / E18(), ladder(t as int)) }
pub open spec fn filled(v: TickValues, f: nat) -> TickValues {
  TickValues { total_amount_of_liquidity: d256((v.total_amount_of_liquidity@ - f) as nat), effective_total_amount_swapped: d256(v.effective_total_amount_swapped@ + f), ..v }
}
pub open spec fn swap_tick(s: SV, d: OrderDirection, w: Swap, t: i64) -> Swap {
  let side = opp(d); let v = gtv(s, t, side);
  if w.bad || w.dust || v.total_amount_of_liquidity@ == 0 { w }
  else if !in_range(t as int) { Swap { bad: true, ..w } }
  else if vdown(d, w.rem, ladder(t as int)) == 0 { Swap { rem: 0, price: ladder(t as int), dust: true, ..w } }
  else {
    let f = fill_of(v, d, w.rem, t); let c = charge_of(v, d, w.rem, t);
    if c == 0 || c > w.rem || f / E18() >= P128() || v.effective_total_amount_swapped@ + f >= P256() || w.out + f / E18() >= P256() { Swap { bad: true, ..w } }
    else { Swap { rem: (w.rem - c) as nat, out: w.out + f / E18(), upd: w.upd.push((t, set_tv(get_tick(s, t), side, filled(v, f)))), book: set_next(w.book, side, t), price: ladder(t as int), ..w } }
  }
}
pub open spec fn swap_run(s: SV, d: OrderDirection, ts: Seq<i64>, n: nat, w0: Swap) -> Swap decreases n {
  if n == 0 { w0 } else { swap_tick(s, d, swap_run(s, d, ts, (n - 1) as nat, w0), ts[n - 1]) }
}
pub proof fn lem_swap_stuck(s: SV, d: OrderDirection, ts: Seq<i64>, n: nat, m: nat, w0: Swap)
  requires n <= m ensures swap_run(s, d, ts, n, w0).bad || swap_run(s, d, ts, n, w0).dust ==> swap_run(s, d, ts, m, w0) == swap_run(s, d, ts, n, w0) decreases m
{ if n < m { lem_swap_stuck(s, d, ts, n, (m - 1) as nat, w0); } }
pub open spec fn bound_ok(b: Orderbook, d: OrderDirection, bound: i64) -> bool {
  in_range(bound as int) && match d { OrderDirection::Ask => bound <= b.next_bid_tick, OrderDirection::Bid => bound >= b.next_ask_tick }
}
pub open spec fn bound_min(b: Orderbook, d: OrderDirection, bound: i64) -> i64 { match d { OrderDirection::Ask => bound, OrderDirection::Bid => b.next_ask_tick } }
pub open spec fn bound_max(b: Orderbook, d: OrderDirection, bound: i64) -> i64 { match d { OrderDirection::Ask => b.next_bid_tick, OrderDirection::Bid => bound } }
pub open spec fn visit_ord(d: OrderDirection) -> Order { match d { OrderDirection::Ask => Order::Descending, OrderDirection::Bid => Order::Ascending } }
pub open spec fn swap_ticks(s: SV, d: OrderDirection, bound: i64) -> Seq<i64> {
  let b = s.f_orderbook->0;
  listing(s.f_tick_state.dom(), Some(Bound::Inclusive(bound_min(b, d, bound))), Some(Bound::Inclusive(bound_max(b, d, bound))), visit_ord(d))
}
pub open spec fn full_range(d: OrderDirection, bound: i64) -> bool { match d { OrderDirection::Ask => bound as int <= TMIN(), OrderDirection::Bid => bound as int >= TMAX() } }
pub open spec fn swap0(s: SV, q: nat) -> Swap { Swap { rem: q, out: 0, upd: Seq::empty(), book: s.f_orderbook->0, price: E18(), dust: false, bad: false } }
pub open spec fn swap_all(s: SV, d: OrderDirection, q: nat, bound: i64) -> Swap { swap_run(s, d, swap_ticks(s, d, bound), swap_ticks(s, d, bound).len(), swap0(s, q)) }
pub open spec fn swap_ok(s: SV, d: OrderDirection, q: nat, bound: i64) -> bool {
  let w = swap_all(s, d, q, bound);
  q > 0 && s.f_orderbook is Some && bound_ok(s.f_orderbook->0, d, bound) && !w.bad && (vdown(d, w.rem, w.price) == 0 || !full_range(d, bound))
}
pub open spec fn out_fits(s: SV, d: OrderDirection, q: nat, bound: i64) -> bool { swap_ok(s, d, q, bound) && swap_lists(s, d, bound) ==> swap_all(s, d, q, bound).out * E18() < P256() }
pub open spec fn swap_lists(s: SV, d: OrderDirection, bound: i64) -> bool {
  let b = s.f_orderbook->0;
  lists(swap_ticks(s, d, bound), s.f_tick_state.dom(), Some(Bound::Inclusive(bound_min(b, d, bound))), Some(Bound::Inclusive(bound_max(b, d, bound))), visit_ord(d))
}
pub open spec fn save_all(m: Map<i64, TickState>, u: Seq<(i64, TickState)>) -> Map<i64, TickState> decreases u.len() {
  if u.len() == 0 { m } else { save_all(m, u.drop_last()).insert(u.last().0, u.last().1) }
}
pub open spec fn swapped(s: SV, d: OrderDirection, q: nat, bound: i64) -> SV {
  let w = swap_all(s, d, q, bound);
  SV { f_tick_state: save_all(s.f_tick_state, w.upd), f_orderbook: Some(w.book), ..sub_liq(s, opp(d), w.out * E18()) }
}

pub open spec fn swap_at(s: SV, d: OrderDirection, q: nat, bound: i64, n: nat) -> Swap { swap_run(s, d, swap_ticks(s, d, bound), n, swap0(s, q)) }
pub open spec fn swap_ctx(s: SV, d: OrderDirection, q: nat, bound: i64) -> bool {
  &&& forall|t: int| in_range(t) ==> 1_000_000 <= #[trigger] ladder(t) < P128()
  &&& forall|n: nat| n <= swap_ticks(s, d, bound).len() ==> (#[trigger] swap_at(s, d, q, bound, n).bad || swap_at(s, d, q, bound, n).dust ==> swap_all(s, d, q, bound) == swap_at(s, d, q, bound, n))
}
pub proof fn lem_swap_ctx(s: SV, d: OrderDirection, q: nat, bound: i64) ensures swap_ctx(s, d, q, bound), swap_at(s, d, q, bound, 0) == swap0(s, q), swap_all(s, d, q, bound) == swap_at(s, d, q, bound, swap_ticks(s, d, bound).len()) {
  lem_fits_all();
  let ts = swap_ticks(s, d, bound);
  assert forall|n: nat| n <= ts.len() implies (#[trigger] swap_at(s, d, q, bound, n).bad || swap_at(s, d, q, bound, n).dust ==> swap_all(s, d, q, bound) == swap_at(s, d, q, bound, n)) by { lem_swap_stuck(s, d, ts, n, ts.len(), swap0(s, q)); }
}
pub proof fn lem_swap_next(s: SV, d: OrderDirection, q: nat, bound: i64, n: nat) requires n < swap_ticks(s, d, bound).len()
  ensures swap_at(s, d, q, bound, n + 1).bad || swap_at(s, d, q, bound, n + 1).dust ==> swap_all(s, d, q, bound) == swap_at(s, d, q, bound, n + 1), swap_at(s, d, q, bound, n + 1) == swap_tick(s, d, swap_at(s, d, q, bound, n), swap_ticks(s, d, bound)[n as int]), swap_at(s, d, q, bound, swap_ticks(s, d, bound).len()) == swap_all(s, d, q, bound) { let ts = swap_ticks(s, d, bound); lem_swap_stuck(s, d, ts, n + 1, ts.len(), swap0(s, q)); }
