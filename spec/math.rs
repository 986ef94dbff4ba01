// ---- powers of ten ----
pub broadcast proof fn lem_npow_add(b: nat, x: nat, y: nat) ensures #[trigger] npow(b, x + y) == npow(b, x) * npow(b, y) decreases x {
  if x == 0 { assert(npow(b, 0) == 1); assert(1 * npow(b, y) == npow(b, y)); }
  else {
    lem_npow_add(b, (x - 1) as nat, y);
    assert((x + y - 1) as nat == (x - 1) as nat + y);
    assert(npow(b, x + y) == b * npow(b, (x + y - 1) as nat));
    assert(b * (npow(b, (x - 1) as nat) * npow(b, y)) == (b * npow(b, (x - 1) as nat)) * npow(b, y)) by (nonlinear_arith);
  }
}
pub proof fn lem_npow_pos(b: nat, x: nat) requires b >= 1 ensures npow(b, x) >= 1 decreases x {
  if x > 0 { lem_npow_pos(b, (x - 1) as nat); assert(b * npow(b, (x - 1) as nat) >= 1) by (nonlinear_arith) requires b >= 1, npow(b, (x - 1) as nat) >= 1; }
}
pub proof fn lem_npow_mono(b: nat, x: nat, y: nat) requires b >= 1, x <= y ensures npow(b, x) <= npow(b, y) {
  lem_npow_add(b, x, (y - x) as nat); lem_npow_pos(b, (y - x) as nat); lem_npow_pos(b, x);
  assert(x + (y - x) as nat == y);
  assert(npow(b, x) <= npow(b, x) * npow(b, (y - x) as nat)) by (nonlinear_arith) requires npow(b, (y - x) as nat) >= 1;
}
pub proof fn lem_p10() ensures npow(10, 0) == 1, npow(10, 1) == 10, npow(10, 6) == 1_000_000, npow(10, 7) == 10_000_000, npow(10, 18) == E18(), npow(10, 19) == 10_000_000_000_000_000_000,
  npow(10, 38) == 100000000000000000000000000000000000000, npow(10, 32) == 100000000000000000000000000000000, npow(10, 20) == 100000000000000000000, npow(10, 12) == 1000000000000, npow(10, 25) == 10000000000000000000000000 {
  assert(npow(10, 0) == 1) by (compute_only);
  assert(npow(10, 1) == 10) by (compute_only);
  assert(npow(10, 6) == 1_000_000) by (compute_only);
  assert(npow(10, 7) == 10_000_000) by (compute_only);
  assert(npow(10, 12) == 1000000000000) by (compute_only);
  assert(npow(10, 18) == 1_000_000_000_000_000_000) by (compute_only);
  assert(npow(10, 19) == 10_000_000_000_000_000_000) by (compute_only);
  assert(npow(10, 20) == 100000000000000000000) by (compute_only);
  assert(npow(10, 25) == 10000000000000000000000000) by (compute_only);
  assert(npow(10, 32) == 100000000000000000000000000000000) by (compute_only);
  assert(npow(10, 38) == 100000000000000000000000000000000000000) by (compute_only);
}
pub proof fn lem_mul_div(a: nat, b: nat) requires b > 0 ensures a * b / b == a, b * a / b == a {
  assert(a * b / b == a) by (nonlinear_arith) requires b > 0;
  assert(b * a == a * b) by (nonlinear_arith);
}
pub open spec fn ten_pow(e: int) -> nat { if e >= 0 { npow(10, e as nat) * E18() } else { E18() / npow(10, (-e) as nat) } }
pub proof fn lem_ten_pow(e: int) requires -18 <= e <= 40 ensures ten_pow(e) == npow(10, (18 + e) as nat), e >= 0 ==> npow(10, e as nat) * E18() < P256() {
  lem_p10();
  if e >= 0 {
    lem_npow_add(10, e as nat, 18);
    assert((e as nat) + 18 == (18 + e) as nat);
    lem_npow_mono(10, (18 + e) as nat, 58); lem_npow_add(10, 20, 38);
    assert(100000000000000000000nat * 100000000000000000000000000000000000000nat == 10000000000000000000000000000000000000000000000000000000000nat) by (compute_only);
  } else {
    lem_npow_add(10, (18 + e) as nat, (-e) as nat);
    assert((18 + e) as nat + (-e) as nat == 18);
    lem_npow_pos(10, (-e) as nat);
    lem_mul_div(npow(10, (18 + e) as nat), npow(10, (-e) as nat));
  }
}
// ---- the documented price ladder (18 decimals) ----
pub open spec fn TMIN() -> int { -108000000 }
pub open spec fn TMAX() -> int { 182402823 }
pub open spec fn in_range(t: int) -> bool { TMIN() <= t <= TMAX() }
pub open spec fn ladder(t: int) -> nat {
  if t >= 0 { npow(10, (18 + t / 9_000_000) as nat) + ((t % 9_000_000) as nat) * npow(10, (12 + t / 9_000_000) as nat) }
  else { let k = (-t) / 9_000_000; let m = (-t) % 9_000_000;
    if m == 0 { npow(10, (18 - k) as nat) } else { (npow(10, (18 - k) as nat) - m * npow(10, (11 - k) as nat)) as nat } }
}
pub proof fn lem_ladder_step(t: int) requires in_range(t), in_range(t + 1) ensures ladder(t) < ladder(t + 1), ladder(t) >= 1_000_000 {
  lem_p10();
  if t >= 0 {
    let k = t / 9_000_000; let m = t % 9_000_000;
    lem_npow_pos(10, (12 + k) as nat);
    lem_npow_add(10, 6, (12 + k) as nat); assert(6 + (12 + k) as nat == (18 + k) as nat);
    lem_npow_mono(10, 18, (18 + k) as nat);
    let p = npow(10, (12 + k) as nat);
    if m == 8_999_999 {
      assert((t + 1) / 9_000_000 == k + 1 && (t + 1) % 9_000_000 == 0);
      lem_npow_add(10, 1, (18 + k) as nat); assert(1 + (18 + k) as nat == (18 + k + 1) as nat);
      assert(ladder(t) == npow(10, (18 + k) as nat) + 8_999_999 * p);
      assert(0nat * npow(10, (12 + (k + 1)) as nat) == 0) by (nonlinear_arith);
      assert(ladder(t + 1) == npow(10, (18 + (k + 1)) as nat));
      assert(ladder(t) < ladder(t + 1));
    } else {
      assert((t + 1) / 9_000_000 == k && (t + 1) % 9_000_000 == m + 1);
      assert((m + 1) * p == m * p + p) by (nonlinear_arith);
      assert(ladder(t) == npow(10, (18 + k) as nat) + m * p);
      assert(ladder(t + 1) == npow(10, (18 + k) as nat) + (m + 1) * p);
    }
    assert((m as nat) * p >= 0) by (nonlinear_arith) requires m >= 0;
    assert(ladder(t) >= E18());
  } else {
    let n = -t; let k = n / 9_000_000; let m = n % 9_000_000;
    assert(n <= 108_000_000);
    let n2 = n - 1; let k2 = n2 / 9_000_000; let m2 = n2 % 9_000_000;
    if m == 0 {
      assert(k2 == k - 1 && m2 == 8_999_999);
      assert(0 <= k2 <= 11);
      let p = npow(10, (11 - k2) as nat);
      lem_npow_pos(10, (11 - k2) as nat);
      lem_npow_add(10, 7, (11 - k2) as nat); assert(7 + (11 - k2) as nat == (18 - k2) as nat);
      lem_npow_add(10, 6, (11 - k2) as nat); assert(6 + (11 - k2) as nat == (18 - k) as nat);
      assert(10_000_000 * p - 8_999_999 * p > 1_000_000 * p) by (nonlinear_arith) requires p >= 1;
      assert(npow(10, (18 - k) as nat) >= 1_000_000) by { lem_npow_mono(10, 6, (18 - k) as nat); }
      assert(-(t + 1) == n2);
    } else {
      assert(0 <= k <= 11);
      assert(k2 == k && m2 == m - 1);
      let p = npow(10, (11 - k) as nat);
      lem_npow_pos(10, (11 - k) as nat);
      lem_npow_add(10, 7, (11 - k) as nat); assert(7 + (11 - k) as nat == (18 - k) as nat);
      assert(m * p == (m - 1) * p + p) by (nonlinear_arith);
      assert(10_000_000 * p - m * p > 1_000_000 * p) by (nonlinear_arith) requires p >= 1, m < 9_000_000;
      assert((m - 1) * p >= 0) by (nonlinear_arith) requires p >= 1, m >= 1;
      assert(10_000_000 * p - (m - 1) * p > 0);
      assert(-(t + 1) == n2);
    }
  }
}
// strictly increasing, never zero
pub proof fn lem_ladder_mono(a: int, b: int) requires in_range(a), in_range(b), a < b ensures ladder(a) < ladder(b) decreases b - a {
  lem_ladder_step(b - 1);
  if a < b - 1 { lem_ladder_mono(a, b - 1); }
}
pub proof fn lem_ladder_bounds(t: int) requires in_range(t) ensures 1_000_000 <= ladder(t) < P128() {
  lem_p10();
  if t < TMAX() { lem_ladder_step(t); lem_ladder_mono(t, TMAX()); } else { lem_ladder_step(t - 1); }
  assert(TMAX() / 9_000_000 == 20 && TMAX() % 9_000_000 == 2_402_823);
  assert((18 + 20) as nat == 38 && (12 + 20) as nat == 32);
  assert(ladder(TMAX()) == npow(10, 38) + 2_402_823nat * npow(10, 32));
  assert(ladder(TMAX()) == 340282300000000000000000000000000000000);
}
// ---- conversions ----
// value of `a` units at price `p` in 18 decimals: asks multiply, bids divide
pub open spec fn conv(d: OrderDirection, a: nat, p: nat) -> nat { match d { OrderDirection::Bid => a * E18() * E18() / p, OrderDirection::Ask => a * p } }
pub open spec fn vdown(d: OrderDirection, a: nat, p: nat) -> nat { conv(d, a, p) / E18() }
pub open spec fn vup(d: OrderDirection, a: nat, p: nat) -> nat { ceil_div(conv(d, a, p), E18()) }
pub proof fn lem_conv_fits(d: OrderDirection, a: nat, p: nat) requires a < P128(), 1_000_000 <= p < P128() ensures conv(d, a, p) < P256() {
  match d {
    OrderDirection::Ask => { assert(a * p < P256()) by (nonlinear_arith) requires a < 0x1_0000_0000_0000_0000_0000_0000_0000_0000nat, p < 0x1_0000_0000_0000_0000_0000_0000_0000_0000nat; }
    OrderDirection::Bid => {
      assert(a * E18() * E18() <= 0x1_0000_0000_0000_0000_0000_0000_0000_0000nat * 1_000_000_000_000_000_000nat * 1_000_000_000_000_000_000nat) by (nonlinear_arith) requires a < 0x1_0000_0000_0000_0000_0000_0000_0000_0000nat;
      let n = a * E18() * E18();
      assert(n / p <= n) by (nonlinear_arith) requires p >= 1;
    }
  }
}
// every converted amount fits the decimal type
pub proof fn lem_value(d: OrderDirection, a: nat, p: nat) requires a < P128(), 1_000_000 <= p < P128() ensures vdown(d, a, p) * E18() < P256() {
  lem_conv_fits(d, a, p); let n = conv(d, a, p);
  assert((n / E18()) * E18() <= n) by (nonlinear_arith);
}
pub proof fn lem_value_dec() ensures forall|d: OrderDirection, a: nat, p: nat| a < P128() && 1_000_000 <= p < P128() ==> ratio(#[trigger] vdown(d, a, p), 1) < P256() {
  assert forall|d: OrderDirection, a: nat, p: nat| a < P128() && 1_000_000 <= p < P128() implies ratio(#[trigger] vdown(d, a, p), 1) < P256() by { lem_value(d, a, p); }
}
pub proof fn lem_value_all(t: int) ensures forall|d: OrderDirection, a: nat| in_range(t) && a < P128() ==> ratio(#[trigger] vdown(d, a, ladder(t)), 1) < P256() {
  if in_range(t) { lem_ladder_bounds(t); lem_value_dec(); }
}
pub proof fn lem_ceil(a: nat, b: nat) requires b > 0 ensures a / b <= ceil_div(a, b) <= a / b + 1, ceil_div(a, b) * b >= a, ceil_div(a, b) * b < a + b, (a / b) * b <= a, a < (a / b) * b + b {
  assert((a / b) * b + a % b == a) by (nonlinear_arith) requires b > 0;
  assert(0 <= a % b < b);
  assert((a / b + 1) * b == (a / b) * b + b) by (nonlinear_arith);
}
pub proof fn lem_pow_small(e: nat) ensures e <= 40 ==> npow(10, e) < P256() {
  lem_p10();
  if e <= 40 { lem_npow_mono(10, e, 58); lem_npow_add(10, 20, 38);
    assert(100000000000000000000nat * 100000000000000000000000000000000000000nat == 10000000000000000000000000000000000000000000000000000000000nat) by (compute_only); }
}
pub proof fn lem_amt(a: nat) requires a < P128() ensures a * E18() < P256(), a * E18() / 1 == a * E18(), (a * E18()) * E18() == a * E18() * E18() {
  assert(a * E18() < P256()) by (nonlinear_arith) requires a < 0x1_0000_0000_0000_0000_0000_0000_0000_0000nat;
}
pub proof fn lem_mul_scaled(p: nat, a: nat) ensures p * (a * E18()) / E18() == a * p, p * (a * E18() / 1) / E18() == a * p {
  assert(p * (a * E18()) == (a * p) * E18()) by (nonlinear_arith);
  lem_mul_div(a * p, E18());
}
pub proof fn lem_conv_zero(d: OrderDirection, p: nat) ensures p != 0 ==> vdown(d, 0, p) == 0 && vup(d, 0, p) == 0, d == OrderDirection::Ask ==> vdown(d, 0, p) == 0 && vup(d, 0, p) == 0 {
  assert(0nat * p == 0) by (nonlinear_arith);
  if p != 0 { assert(0nat * E18() * E18() / p == 0) by (nonlinear_arith) requires p != 0; }
}
// arithmetic of tick_to_price
pub proof fn lem_tick_to_price(t: int) requires in_range(t) || t != 0 || true
  ensures in_range(t) ==> ({
    let d = tdiv(t, 9_000_000); let e = if t < 0 { -6 + d - 1 } else { -6 + d }; let m = t - d * 9_000_000; let um = iabs(m);
    &&& -12 <= d <= 20 && -20 < e <= 20 && um < 9_000_000
    &&& ten_pow(d) == npow(10, (18 + d) as nat)
    &&& um * E18() < P256() && um * E18() / 1 == um * E18()
    &&& (um * E18()) * ten_pow(e) / E18() == um * ten_pow(e) && (um * E18()) * ten_pow(e) / E18() < P128()
    &&& m < 0 ==> ten_pow(d) >= um * ten_pow(e) && ten_pow(d) - um * ten_pow(e) == ladder(t)
    &&& m >= 0 ==> ten_pow(d) + um * ten_pow(e) == ladder(t) && ladder(t) < P128()
  }) {
  if in_range(t) {
    lem_p10();
    let d = tdiv(t, 9_000_000); let e = if t < 0 { -6 + d - 1 } else { -6 + d }; let m = t - d * 9_000_000; let um = iabs(m);
    lem_ladder_bounds(t);
    if t >= 0 {
      assert(d == t / 9_000_000 && m == t % 9_000_000);
      lem_ten_pow(d); lem_ten_pow(e);
    } else {
      let n = -t;
      assert(d == -(n / 9_000_000)); assert(um == n % 9_000_000);
      lem_ten_pow(d);
      if e >= -18 {
        lem_ten_pow(e);
        assert((18 + e) as nat == (11 - n / 9_000_000) as nat);
        assert((18 + d) as nat == (18 - n / 9_000_000) as nat);
        lem_npow_add(10, 7, (18 + e) as nat); assert(7 + (18 + e) as nat == (18 + d) as nat);
        let p = npow(10, (18 + e) as nat);
        assert(10_000_000 * p >= um * p) by (nonlinear_arith) requires um < 9_000_000;
      } else { assert(n / 9_000_000 == 12); assert(um == 0); assert(e == -19); }
    }
    let x = ten_pow(e);
    assert((um * E18()) * x == (um * x) * E18()) by (nonlinear_arith);
    lem_mul_div(um * x, E18());
    if e == -19 { assert(um == 0); assert(um * x == 0) by (nonlinear_arith) requires um == 0; }
    else {
      lem_npow_mono(10, (18 + e) as nat, 32);
      assert(um * x <= 9_000_000 * 100000000000000000000000000000000) by (nonlinear_arith) requires um < 9_000_000, x <= 100000000000000000000000000000000;
    }
  }
}
