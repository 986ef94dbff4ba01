// ---- C22: what one tick and direction has collected covers what it still owes ----
// L: coins collected for fills and not yet paid out; u: filled and unclaimed quantity (18 decimals); p: price; k: number of fills
pub open spec fn lbal(d: OrderDirection, l: nat, u: int, p: nat, k: nat) -> bool {
  u >= 0 && match d { OrderDirection::Ask => l * E18() * E18() >= u * p, OrderDirection::Bid => l * p * E18() + k * p >= u * E18() }
}
pub proof fn lem_lbal_more(d: OrderDirection, l: nat, u: int, p: nat, k: nat, l2: nat, k2: nat)
  requires lbal(d, l, u, p, k), l <= l2, k <= k2
  ensures lbal(d, l2, u, p, k2)
{
  assert(l * E18() * E18() <= l2 * E18() * E18()) by (nonlinear_arith) requires l <= l2;
  assert(l * p * E18() <= l2 * p * E18()) by (nonlinear_arith) requires l <= l2;
  assert(k * p <= k2 * p) by (nonlinear_arith) requires k <= k2;
}
pub proof fn lem_lbal_fill(d: OrderDirection, l: nat, u: int, p: nat, k: nat, f: nat)
  requires lbal(d, l, u, p, k), whole(f), p > 0
  ensures lbal(d, l + vup(d, f / E18(), p), u + f, p, k + 1)
{
  let q = f / E18(); let c = vup(d, q, p);
  lem_whole(f, 0);
  match d {
    OrderDirection::Ask => {
      lem_ceil(q * p, E18());
      assert(c * E18() * E18() >= f * p) by (nonlinear_arith) requires c * E18() >= q * p, q * E18() == f;
      assert((l + c) * E18() * E18() == l * E18() * E18() + c * E18() * E18()) by (nonlinear_arith);
      assert((u + f) * p == u * p + f * p) by (nonlinear_arith);
    }
    OrderDirection::Bid => {
      let n = q * E18() * E18(); let y = n / p;
      lem_ceil(y, E18()); lem_div_bounds(n, p);
      assert(n == f * E18()) by (nonlinear_arith) requires n == q * E18() * E18(), q * E18() == f;
      assert(c * p * E18() >= y * p) by (nonlinear_arith) requires c * E18() >= y;
      assert((l + c) * p * E18() == l * p * E18() + c * p * E18()) by (nonlinear_arith);
      assert((k + 1) * p == k * p + p) by (nonlinear_arith);
      assert((u + f) * E18() == u * E18() + f * E18()) by (nonlinear_arith);
    }
  }
}
// the value of `f` at price p is at most what has been collected for it
pub proof fn lem_value_le(d: OrderDirection, l: nat, u: int, p: nat, k: nat, g: nat)
  requires lbal(d, l, u, p, k), p > 0, k < E18(), match d { OrderDirection::Ask => g * E18() * E18() <= u * p, OrderDirection::Bid => g * p <= u }
  ensures g <= l
{
  match d {
    OrderDirection::Ask => { if g > l { assert(g * E18() * E18() > l * E18() * E18()) by (nonlinear_arith) requires g > l; } }
    OrderDirection::Bid => {
      assert(g * p * E18() <= u * E18()) by (nonlinear_arith) requires g * p <= u;
      if g > l {
        assert(g * p * E18() >= (l + 1) * p * E18()) by (nonlinear_arith) requires g >= l + 1;
        assert((l + 1) * p * E18() == l * p * E18() + p * E18()) by (nonlinear_arith);
        assert(k * p < p * E18()) by (nonlinear_arith) requires k < E18(), p > 0;
      }
    }
  }
}
pub proof fn lem_value(d: OrderDirection, f: nat, p: nat)
  requires whole(f), p > 0
  ensures match d { OrderDirection::Ask => vdown(d, f / E18(), p) * E18() * E18() <= f * p, OrderDirection::Bid => vdown(d, f / E18(), p) * p <= f }
{
  let q = f / E18(); let g = vdown(d, q, p);
  lem_whole(f, 0);
  match d {
    OrderDirection::Ask => {
      lem_div_bounds(q * p, E18());
      assert(g * E18() * E18() <= f * p) by (nonlinear_arith) requires g * E18() <= q * p, q * E18() == f;
    }
    OrderDirection::Bid => { lem_bid_down(q, p); lem_div_bounds(q * E18(), p); }
  }
}
pub proof fn lem_lbal_claim(d: OrderDirection, l: nat, u: int, p: nat, k: nat, f: nat)
  requires lbal(d, l, u, p, k), whole(f), f <= u, p > 0, k < E18()
  ensures vdown(d, f / E18(), p) <= l, lbal(d, (l - vdown(d, f / E18(), p)) as nat, u - f, p, k)
{
  let g = vdown(d, f / E18(), p);
  lem_value(d, f, p);
  match d {
    OrderDirection::Ask => {
      assert(f * p <= u * p) by (nonlinear_arith) requires f <= u;
      lem_value_le(d, l, u, p, k, g);
      let m = (l - g) as nat;
      assert(m * E18() * E18() == l * E18() * E18() - g * E18() * E18()) by (nonlinear_arith) requires m == l - g;
      assert((u - f) * p == u * p - f * p) by (nonlinear_arith);
    }
    OrderDirection::Bid => {
      lem_value_le(d, l, u, p, k, g);
      let m = (l - g) as nat;
      assert(m * p * E18() == l * p * E18() - g * p * E18()) by (nonlinear_arith) requires m == l - g;
      assert(g * p * E18() <= f * E18()) by (nonlinear_arith) requires g * p <= f;
      assert((u - f) * E18() == u * E18() - f * E18()) by (nonlinear_arith);
    }
  }
}
// ---- payouts still owed for the filled parts of the resting orders ----
pub open spec fn ufill(o: LimitOrder, e: nat) -> nat { nmin(monus(e, o.etas@), o.quantity@ * E18()) }
pub open spec fn o_owed(o: Option<LimitOrder>, d: OrderDirection, e: nat, p: nat) -> nat { match o { Some(o) => vdown(d, ufill(o, e) / E18(), p), None => 0 } }
pub open spec fn owed(os: Orders, t: i64, d: OrderDirection, e: nat, p: nat, n: nat) -> nat decreases n {
  if n == 0 { 0 } else { owed(os, t, d, e, p, (n - 1) as nat) + o_owed(ord(os, t, d, (n - 1) as u64), d, e, p) }
}
pub proof fn lem_whole_min(a: nat, b: nat) requires whole(a), whole(b) ensures whole(nmin(a, b)), a >= b ==> whole((a - b) as nat) { lem_whole(a, b); }
pub proof fn lem_owed(os: Orders, t: i64, d: OrderDirection, e: nat, p: nat, n: nat)
  requires p > 0, whole(e), n <= u64::MAX, forall|id: u64| (#[trigger] ord(os, t, d, id)) is Some ==> whole(ord(os, t, d, id)->0.etas@)
  ensures osum(os, t, d, 0, n) >= osum(os, t, d, e, n), ({ let x = osum(os, t, d, 0, n) - osum(os, t, d, e, n); let g = owed(os, t, d, e, p, n); match d { OrderDirection::Ask => g * E18() * E18() <= x * p, OrderDirection::Bid => g * p <= x } })
  decreases n
{
  if n > 0 {
    lem_owed(os, t, d, e, p, (n - 1) as nat);
    let x = osum(os, t, d, 0, (n - 1) as nat) - osum(os, t, d, e, (n - 1) as nat); let g = owed(os, t, d, e, p, (n - 1) as nat);
    let o = ord(os, t, d, (n - 1) as u64); let h = o_owed(o, d, e, p);
    let f = match o { Some(o) => ufill(o, e), None => 0 };
    assert(otl(o, 0) - otl(o, e) == f);
    if o is Some {
      lem_whole(o->0.quantity@, 0); lem_whole(e, o->0.etas@);
      assert(whole(f));
      lem_value(d, f, p);
    }
    assert((x + f) * p == x * p + f * p) by (nonlinear_arith);
    assert((g + h) * p == g * p + h * p) by (nonlinear_arith);
    assert((g + h) * E18() * E18() == g * E18() * E18() + h * E18() * E18()) by (nonlinear_arith);
    assert(0 * E18() * E18() == 0); 
  } else { assert(0 * p == 0); }
}
