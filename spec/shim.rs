// Assumed contracts on the external libraries (cosmwasm-std 1.5, cw-storage-plus, cw-utils, cw2,
// osmosis-std). Everything in this file is TRUSTED: `external_body` functions are never verified.
// Values are represented by their mathematical meaning (ghost), see DESIGN.md.
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use crate::sv::Storage;
verus! {

pub open spec fn P128() -> nat { 0x1_0000_0000_0000_0000_0000_0000_0000_0000nat }
pub open spec fn P256() -> nat { 0x1_0000_0000_0000_0000_0000_0000_0000_0000_0000_0000_0000_0000_0000_0000_0000_0000nat }
pub open spec fn E18() -> nat { 1_000_000_000_000_000_000nat }

// ---------- panics, formatting, literals ----------
// A panic reverts the transaction, so a contract clause is about the runs that return (partial correctness).  `live()` is an
// arbitrary fixed truth value: a function whose `@live` condition holds is in addition proved not to panic (take live() == true).
pub uninterp spec fn live() -> bool;
#[verifier::external_body]
pub fn vx_panic<T>() -> (r: T) requires !live() ensures false { unimplemented!() }
#[verifier::external_body]
pub fn vx_fmt() -> (r: String) { unimplemented!() }
#[verifier::external_body]
pub fn str_lit(s: &'static str) -> (r: String) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
pub const fn str_ref(s: &'static str) -> (r: &'static String) ensures r@ == s@ { &VX_S }

// ---------- conversions ----------
pub trait Into_<T>: Sized { spec fn into_rel(self, r: T) -> bool; fn into_(self) -> (r: T) ensures self.into_rel(r); }
pub trait ToStr_ { spec fn str_spec(&self) -> Seq<char>; fn vx_str(&self) -> (r: String) ensures r@ == self.str_spec(); }
pub trait ToU256: Sized { spec fn u(self) -> nat; }
impl ToU256 for u8 { open spec fn u(self) -> nat { self as nat } }
impl ToU256 for u32 { open spec fn u(self) -> nat { self as nat } }
impl ToU256 for u64 { open spec fn u(self) -> nat { self as nat } }
impl ToU256 for u128 { open spec fn u(self) -> nat { self as nat } }
impl ToU256 for Uint128 { open spec fn u(self) -> nat { self@ } }
impl ToU256 for Uint256 { open spec fn u(self) -> nat { self@ } }
impl Into_<Uint256> for u8 { open spec fn into_rel(self, r: Uint256) -> bool { r@ == self as nat } #[verifier::external_body] fn into_(self) -> (r: Uint256) { unimplemented!() } }
impl Into_<Uint256> for u32 { open spec fn into_rel(self, r: Uint256) -> bool { r@ == self as nat } #[verifier::external_body] fn into_(self) -> (r: Uint256) { unimplemented!() } }
impl Into_<Uint256> for u64 { open spec fn into_rel(self, r: Uint256) -> bool { r@ == self as nat } #[verifier::external_body] fn into_(self) -> (r: Uint256) { unimplemented!() } }
impl Into_<Uint256> for u128 { open spec fn into_rel(self, r: Uint256) -> bool { r@ == self as nat } #[verifier::external_body] fn into_(self) -> (r: Uint256) { unimplemented!() } }
impl Into_<Uint256> for Uint128 { open spec fn into_rel(self, r: Uint256) -> bool { r@ == self@ } #[verifier::external_body] fn into_(self) -> (r: Uint256) { unimplemented!() } }
impl Into_<Uint256> for Uint256 { open spec fn into_rel(self, r: Uint256) -> bool { r == self } #[verifier::external_body] fn into_(self) -> (r: Uint256) { unimplemented!() } }
impl Into_<Decimal256> for Decimal256 { open spec fn into_rel(self, r: Decimal256) -> bool { r == self } #[verifier::external_body] fn into_(self) -> (r: Decimal256) { unimplemented!() } }
impl Into_<Uint128> for u128 { open spec fn into_rel(self, r: Uint128) -> bool { r.v == self } #[verifier::external_body] fn into_(self) -> (r: Uint128) { unimplemented!() } }
impl Into_<Uint128> for u64 { open spec fn into_rel(self, r: Uint128) -> bool { r@ == self as nat } #[verifier::external_body] fn into_(self) -> (r: Uint128) { unimplemented!() } }
impl Into_<i64> for bool { open spec fn into_rel(self, r: i64) -> bool { r == if self { 1int } else { 0int } } fn into_(self) -> (r: i64) { if self { 1 } else { 0 } } }
impl Into_<i64> for u32 { open spec fn into_rel(self, r: i64) -> bool { r == self } fn into_(self) -> (r: i64) { self as i64 } }
impl Into_<Uint128> for u32 { open spec fn into_rel(self, r: Uint128) -> bool { r@ == self as nat } #[verifier::external_body] fn into_(self) -> (r: Uint128) { unimplemented!() } }
impl Into_<String> for String { open spec fn into_rel(self, r: String) -> bool { r == self } #[verifier::external_body] fn into_(self) -> (r: String) { unimplemented!() } }
impl Into_<String> for &String { open spec fn into_rel(self, r: String) -> bool { r@ == self@ } #[verifier::external_body] fn into_(self) -> (r: String) { unimplemented!() } }
impl Into_<String> for Addr { open spec fn into_rel(self, r: String) -> bool { r@ == self@ } #[verifier::external_body] fn into_(self) -> (r: String) { unimplemented!() } }
impl Into_<CosmosMsg> for CosmosMsg { open spec fn into_rel(self, r: CosmosMsg) -> bool { r == self } #[verifier::external_body] fn into_(self) -> (r: CosmosMsg) { unimplemented!() } }
impl Into_<CosmosMsg> for BankMsg { open spec fn into_rel(self, r: CosmosMsg) -> bool { r == CosmosMsg::Bank(self) } #[verifier::external_body] fn into_(self) -> (r: CosmosMsg) { unimplemented!() } }
impl Into_<CosmosMsg> for MsgSend { open spec fn into_rel(self, r: CosmosMsg) -> bool { r == CosmosMsg::Proto(self) } #[verifier::external_body] fn into_(self) -> (r: CosmosMsg) { unimplemented!() } }

// decimal texts of naturals / of 18-decimal numbers: injective
pub uninterp spec fn num_str(n: nat) -> Seq<char>;
pub uninterp spec fn num_val(s: Seq<char>) -> Option<nat>;
pub uninterp spec fn dec_str(n: nat) -> Seq<char>;
pub uninterp spec fn dec_val(s: Seq<char>) -> Option<nat>;
#[verifier::external_body]
pub broadcast proof fn ax_num_str(n: nat) ensures num_val(#[trigger] num_str(n)) == Some(n) {}
#[verifier::external_body]
pub broadcast proof fn ax_dec_str(n: nat) ensures dec_val(#[trigger] dec_str(n)) == Some(n) {}

macro_rules! tostr_num { ($($t:ty),*) => { $( verus!{ impl ToStr_ for $t { uninterp spec fn str_spec(&self) -> Seq<char>; #[verifier::external_body] fn vx_str(&self) -> (r: String) { unimplemented!() } } } )* } }
tostr_num!(u8, u32, u64, u128, i32, i64, bool, usize, Timestamp, Coin);
impl ToStr_ for Uint128 { open spec fn str_spec(&self) -> Seq<char> { num_str(self@) } #[verifier::external_body] fn vx_str(&self) -> (r: String) { unimplemented!() } }
impl ToStr_ for Uint256 { open spec fn str_spec(&self) -> Seq<char> { num_str(self@) } #[verifier::external_body] fn vx_str(&self) -> (r: String) { unimplemented!() } }
impl ToStr_ for Decimal256 { open spec fn str_spec(&self) -> Seq<char> { dec_str(self@) } #[verifier::external_body] fn vx_str(&self) -> (r: String) { unimplemented!() } }
impl ToStr_ for Decimal { open spec fn str_spec(&self) -> Seq<char> { dec_str(self@) } #[verifier::external_body] fn vx_str(&self) -> (r: String) { unimplemented!() } }
impl ToStr_ for Addr { open spec fn str_spec(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_str(&self) -> (r: String) { unimplemented!() } }
impl ToStr_ for String { open spec fn str_spec(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_str(&self) -> (r: String) { unimplemented!() } }
// references to printable values print alike
impl<T: ToStr_> ToStr_ for &T { open spec fn str_spec(&self) -> Seq<char> { (**self).str_spec() } #[verifier::external_body] fn vx_str(&self) -> (r: String) { unimplemented!() } }

// ---------- defaults / options ----------
pub trait VxDefault: Sized { spec fn dflt() -> Self; fn vx_default() -> (r: Self) ensures r == Self::dflt(); }
impl VxDefault for u64 { open spec fn dflt() -> u64 { 0 } #[verifier::external_body] fn vx_default() -> (r: u64) { 0 } }
impl VxDefault for u32 { open spec fn dflt() -> u32 { 0 } #[verifier::external_body] fn vx_default() -> (r: u32) { 0 } }
impl VxDefault for i64 { open spec fn dflt() -> i64 { 0 } #[verifier::external_body] fn vx_default() -> (r: i64) { 0 } }
impl VxDefault for bool { open spec fn dflt() -> bool { false } #[verifier::external_body] fn vx_default() -> (r: bool) { false } }
impl VxDefault for Decimal256 { open spec fn dflt() -> Decimal256 { d256(0) } #[verifier::external_body] fn vx_default() -> (r: Decimal256) { unimplemented!() } }
impl VxDefault for Decimal { open spec fn dflt() -> Decimal { Decimal { at: Ghost(0) } } #[verifier::external_body] fn vx_default() -> (r: Decimal) { unimplemented!() } }
impl VxDefault for Uint256 { open spec fn dflt() -> Uint256 { u256(0) } #[verifier::external_body] fn vx_default() -> (r: Uint256) { unimplemented!() } }
impl VxDefault for Uint128 { open spec fn dflt() -> Uint128 { Uint128 { v: 0 } } #[verifier::external_body] fn vx_default() -> (r: Uint128) { unimplemented!() } }
impl VxDefault for String { open spec fn dflt() -> String { String { at: Ghost(Seq::empty()) } } #[verifier::external_body] fn vx_default() -> (r: String) { unimplemented!() } }
pub trait VxUod<T> { spec fn uod(self) -> T; fn vx_uod(self) -> (r: T) ensures r == self.uod(); }
impl<T: VxDefault> VxUod<T> for Option<T> {
  open spec fn uod(self) -> T { match self { Some(v) => v, None => T::dflt() } }
  fn vx_uod(self) -> (r: T) { match self { Some(v) => v, None => T::vx_default() } }
}
impl<T: VxDefault, E> VxUod<T> for Result<T, E> {
  open spec fn uod(self) -> T { match self { Ok(v) => v, Err(_) => T::dflt() } }
  fn vx_uod(self) -> (r: T) { match self { Ok(v) => v, Err(_) => T::vx_default() } }
}
pub trait VxUo<T> { spec fn uo(self, d: T) -> T; fn vx_uo(self, d: T) -> (r: T) ensures r == self.uo(d); }
impl<T> VxUo<T> for Option<T> {
  open spec fn uo(self, d: T) -> T { match self { Some(v) => v, None => d } }
  fn vx_uo(self, d: T) -> (r: T) { match self { Some(v) => v, None => d } }
}
impl<T, E> VxUo<T> for Result<T, E> {
  open spec fn uo(self, d: T) -> T { match self { Ok(v) => v, Err(_) => d } }
  fn vx_uo(self, d: T) -> (r: T) { match self { Ok(v) => v, Err(_) => d } }
}

// ---------- min / max / checked machine arithmetic (overflow-checks = true: overflow aborts) ----------
pub trait MinMax: Sized { spec fn num(self) -> int;
  fn min_(self, o: Self) -> (r: Self) ensures r == (if o.num() < self.num() { o } else { self });
  fn max_(self, o: Self) -> (r: Self) ensures r == (if self.num() < o.num() { o } else { self }); }
macro_rules! minmax { ($($t:ty),*) => { $( verus!{ impl MinMax for $t { open spec fn num(self) -> int { self as int }
  fn min_(self, o: Self) -> (r: Self) { if o < self { o } else { self } }
  fn max_(self, o: Self) -> (r: Self) { if self < o { o } else { self } } } } )* } }
minmax!(u64, i64, u32, i32, usize, u128);
macro_rules! minmaxv { ($($t:ty),*) => { $( verus!{ impl MinMax for $t { open spec fn num(self) -> int { self@ as int }
  #[verifier::external_body] fn min_(self, o: Self) -> (r: Self) { unimplemented!() }
  #[verifier::external_body] fn max_(self, o: Self) -> (r: Self) { unimplemented!() } } } )* } }
minmaxv!(Uint128, Uint256, Decimal256, Decimal);
pub trait VxArith: Sized { spec fn val(self) -> int; spec fn fits(x: int) -> bool; spec fn mulv(a: int, b: int) -> int;
  fn vx_addm(self, o: Self) -> (r: Self) ensures r.val() == self.val() + o.val();
  fn vx_subm(self, o: Self) -> (r: Self) ensures r.val() == self.val() - o.val();
  fn vx_mulm(self, o: Self) -> (r: Self) ensures r.val() == Self::mulv(self.val(), o.val()); }
macro_rules! varith { ($($t:ty),*) => { $( verus!{ impl VxArith for $t { open spec fn val(self) -> int { self as int } open spec fn fits(x: int) -> bool { $t::MIN <= x <= $t::MAX } open spec fn mulv(a: int, b: int) -> int { a * b }
  #[verifier::external_body] fn vx_addm(self, o: Self) -> (r: Self) { unimplemented!() }
  #[verifier::external_body] fn vx_subm(self, o: Self) -> (r: Self) { unimplemented!() }
  #[verifier::external_body] fn vx_mulm(self, o: Self) -> (r: Self) { unimplemented!() } } } )* } }
varith!(u8, u32, u64, u128, i32, i64, usize);
macro_rules! varithv { ($($t:ty, $m:expr);*) => { $( verus!{ impl VxArith for $t { open spec fn val(self) -> int { self@ as int } open spec fn fits(x: int) -> bool { 0 <= x < $m } open spec fn mulv(a: int, b: int) -> int { a * b }
  #[verifier::external_body] fn vx_addm(self, o: Self) -> (r: Self) { unimplemented!() }
  #[verifier::external_body] fn vx_subm(self, o: Self) -> (r: Self) { unimplemented!() }
  #[verifier::external_body] fn vx_mulm(self, o: Self) -> (r: Self) { unimplemented!() } } } )* } }
varithv!(Uint128, P128(); Uint256, P256());
impl VxArith for Decimal { open spec fn val(self) -> int { self@ as int } open spec fn fits(x: int) -> bool { 0 <= x < P128() } open spec fn mulv(a: int, b: int) -> int { a * b / (E18() as int) }
  #[verifier::external_body] fn vx_addm(self, o: Self) -> (r: Self) { unimplemented!() }
  #[verifier::external_body] fn vx_subm(self, o: Self) -> (r: Self) { unimplemented!() }
  #[verifier::external_body] fn vx_mulm(self, o: Self) -> (r: Self) { unimplemented!() } }
impl VxArith for Decimal256 { open spec fn val(self) -> int { self@ as int } open spec fn fits(x: int) -> bool { 0 <= x < P256() } open spec fn mulv(a: int, b: int) -> int { a * b / (E18() as int) }
  #[verifier::external_body] fn vx_addm(self, o: Self) -> (r: Self) { unimplemented!() }
  #[verifier::external_body] fn vx_subm(self, o: Self) -> (r: Self) { unimplemented!() }
  #[verifier::external_body] fn vx_mulm(self, o: Self) -> (r: Self) { unimplemented!() } }
pub fn vx_add<T: VxArith>(a: T, b: T) -> (r: T) requires live() ==> T::fits(a.val() + b.val()) ensures r.val() == a.val() + b.val() { a.vx_addm(b) }
pub fn vx_sub<T: VxArith>(a: T, b: T) -> (r: T) requires live() ==> T::fits(a.val() - b.val()) ensures r.val() == a.val() - b.val() { a.vx_subm(b) }
pub fn vx_mul<T: VxArith>(a: T, b: T) -> (r: T) requires live() ==> T::fits(T::mulv(a.val(), b.val())) ensures r.val() == T::mulv(a.val(), b.val()) { a.vx_mulm(b) }
pub open spec fn iabs(x: int) -> nat { if x < 0 { (-x) as nat } else { x as nat } }
pub trait VxUabs<U> { spec fn uabs_rel(self, r: U) -> bool; fn vx_uabs(self) -> (r: U) ensures self.uabs_rel(r); }
impl VxUabs<u32> for i32 { open spec fn uabs_rel(self, r: u32) -> bool { r as nat == iabs(self as int) } #[verifier::external_body] fn vx_uabs(self) -> (r: u32) { unimplemented!() } }
impl VxUabs<u64> for i64 { open spec fn uabs_rel(self, r: u64) -> bool { r as nat == iabs(self as int) } #[verifier::external_body] fn vx_uabs(self) -> (r: u64) { unimplemented!() } }
pub trait VxAbsm: Sized { spec fn aval(self) -> int; spec fn amin(self) -> bool; fn vx_abs(self) -> (r: Self) requires live() ==> !self.amin() ensures r.aval() == iabs(self.aval()); }
impl VxAbsm for i32 { open spec fn aval(self) -> int { self as int } open spec fn amin(self) -> bool { self == i32::MIN } #[verifier::external_body] fn vx_abs(self) -> (r: i32) { unimplemented!() } }
impl VxAbsm for i64 { open spec fn aval(self) -> int { self as int } open spec fn amin(self) -> bool { self == i64::MIN } #[verifier::external_body] fn vx_abs(self) -> (r: i64) { unimplemented!() } }

pub open spec fn tdiv(a: int, b: int) -> int { if b == 0 { 0 } else if (a < 0) == (b < 0) { (iabs(a) / iabs(b)) as int } else { -((iabs(a) / iabs(b)) as int) } }
pub trait VxDiv: Sized { spec fn dval(self) -> int; spec fn dmin() -> int; spec fn divv(a: int, b: int) -> int; spec fn dfits(x: int) -> bool;
  fn vx_divm(self, o: Self) -> (r: Self) ensures o.dval() != 0, r.dval() == Self::divv(self.dval(), o.dval());
  fn vx_remm(self, o: Self) -> (r: Self) ensures o.dval() != 0, r.dval() == self.dval() - o.dval() * tdiv(self.dval(), o.dval()); }
macro_rules! vdiv { ($($t:ty),*) => { $( verus!{ impl VxDiv for $t { open spec fn dval(self) -> int { self as int } open spec fn dmin() -> int { $t::MIN as int } open spec fn divv(a: int, b: int) -> int { tdiv(a, b) } open spec fn dfits(x: int) -> bool { true }
  #[verifier::external_body] fn vx_divm(self, o: Self) -> (r: Self) { unimplemented!() }
  #[verifier::external_body] fn vx_remm(self, o: Self) -> (r: Self) { unimplemented!() } } } )* } }
vdiv!(u8, u32, u64, u128, i32, i64, usize);
macro_rules! vdivv { ($($t:ty),*) => { $( verus!{ impl VxDiv for $t { open spec fn dval(self) -> int { self@ as int } open spec fn dmin() -> int { -1 } open spec fn divv(a: int, b: int) -> int { tdiv(a, b) } open spec fn dfits(x: int) -> bool { true }
  #[verifier::external_body] fn vx_divm(self, o: Self) -> (r: Self) { unimplemented!() }
  #[verifier::external_body] fn vx_remm(self, o: Self) -> (r: Self) { unimplemented!() } } } )* } }
vdivv!(Uint128, Uint256);
macro_rules! vdivd { ($($t:ty, $m:expr);*) => { $( verus!{ impl VxDiv for $t { open spec fn dval(self) -> int { self@ as int } open spec fn dmin() -> int { -1 } open spec fn divv(a: int, b: int) -> int { a * (E18() as int) / b } open spec fn dfits(x: int) -> bool { x < $m }
  #[verifier::external_body] fn vx_divm(self, o: Self) -> (r: Self) { unimplemented!() }
  #[verifier::external_body] fn vx_remm(self, o: Self) -> (r: Self) { unimplemented!() } } } )* } }
vdivd!(Decimal256, P256(); Decimal, P128());
pub fn vx_div<T: VxDiv>(a: T, b: T) -> (r: T) requires b.dval() != 0, live() ==> !(a.dval() == T::dmin() && b.dval() == -1) && T::dfits(T::divv(a.dval(), b.dval())) ensures r.dval() == T::divv(a.dval(), b.dval()) { a.vx_divm(b) }
pub fn vx_rem<T: VxDiv>(a: T, b: T) -> (r: T) requires b.dval() != 0, live() ==> !(a.dval() == T::dmin() && b.dval() == -1) ensures r.dval() == a.dval() - b.dval() * tdiv(a.dval(), b.dval()) { a.vx_remm(b) }

// `.unwrap()` where a panic (= revert) is acceptable
pub trait VxUnwrap<T> { spec fn uwok(self) -> bool; spec fn uw(self) -> T; fn vx_unwrap(self) -> (r: T) requires live() ==> self.uwok() ensures self.uwok(), r == self.uw(); fn vx_unwrap_any(self) -> (r: T) ensures self.uwok(), r == self.uw(); }
impl<T> VxUnwrap<T> for Option<T> { open spec fn uwok(self) -> bool { self is Some } open spec fn uw(self) -> T { self->0 } #[verifier::external_body] fn vx_unwrap(self) -> (r: T) { unimplemented!() } #[verifier::external_body] fn vx_unwrap_any(self) -> (r: T) { unimplemented!() } }
impl<T, E> VxUnwrap<T> for Result<T, E> { open spec fn uwok(self) -> bool { self is Ok } open spec fn uw(self) -> T { self->Ok_0 } #[verifier::external_body] fn vx_unwrap(self) -> (r: T) { unimplemented!() } #[verifier::external_body] fn vx_unwrap_any(self) -> (r: T) { unimplemented!() } }

// ---------- standard library methods for which vstd has no contract ----------
pub open spec fn ediv(a: int, b: int) -> int { a / b }
pub open spec fn zpow(b: int, e: nat) -> int decreases e { if e == 0 { 1 } else { b * zpow(b, (e - 1) as nat) } }
macro_rules! sstd { ($($t:ty, $u:ty);*) => { $( verus!{
pub assume_specification[ <$t>::is_negative ](x: $t) -> (r: bool) ensures r == (x < 0);
pub assume_specification[ <$t>::is_positive ](x: $t) -> (r: bool) ensures r == (x > 0);
pub assume_specification[ <$t>::signum ](x: $t) -> (r: $t) ensures r == (if x < 0 { -1int } else if x == 0 { 0int } else { 1int });
pub assume_specification[ <$t>::div_euclid ](x: $t, y: $t) -> (r: $t) requires y != 0, !(x == <$t>::MIN && y == -1) ensures r == ediv(x as int, y as int);
pub assume_specification[ <$t>::rem_euclid ](x: $t, y: $t) -> (r: $t) requires y != 0, !(x == <$t>::MIN && y == -1) ensures r == x % y;
pub assume_specification[ <$t>::checked_neg ](x: $t) -> (r: Option<$t>) ensures r is Some <==> x != <$t>::MIN, r is Some ==> r->0 == -x;
} )* } }
sstd!(i32, u32; i64, u64);
macro_rules! istd { ($($t:ty, $u:ty);*) => { $( verus!{
pub assume_specification[ <$t>::abs_diff ](x: $t, y: $t) -> (r: $u) ensures r == iabs(x - y);
pub assume_specification[ <$t>::pow ](x: $t, e: u32) -> (r: $t) requires <$t>::MIN <= zpow(x as int, e as nat) <= <$t>::MAX ensures r == zpow(x as int, e as nat);
pub assume_specification[ <$t>::checked_pow ](x: $t, e: u32) -> (r: Option<$t>) ensures r is Some <==> <$t>::MIN <= zpow(x as int, e as nat) <= <$t>::MAX, r is Some ==> r->0 == zpow(x as int, e as nat);
} )* } }
istd!(i32, u32; i64, u64; u32, u32; u64, u64; u128, u128);
pub assume_specification<T>[ <Option<T>>::or ](a: Option<T>, b: Option<T>) -> (r: Option<T>) ensures r == (if a is Some { a } else { b });
pub assume_specification<T>[ <Option<Option<T>>>::flatten ](a: Option<Option<T>>) -> (r: Option<T>) ensures r == (if a is Some { a->0 } else { None });
pub assume_specification<T: Copy>[ <Option<&T>>::copied ](a: Option<&T>) -> (r: Option<T>) ensures a is None ==> r is None, a is Some ==> r == Some(*a->0);
pub assume_specification<T>[ <Option<T>>::xor ](a: Option<T>, b: Option<T>) -> (r: Option<T>) ensures r == (if a is Some && b is None { a } else if a is None && b is Some { b } else { None });
pub assume_specification<T, U>[ <Option<T>>::zip ](a: Option<T>, b: Option<U>) -> (r: Option<(T, U)>) ensures r == (if a is Some && b is Some { Some((a->0, b->0)) } else { None });
pub assume_specification<T>[ <Option<T>>::replace ](a: &mut Option<T>, b: T) -> (r: Option<T>) ensures r == *old(a), *final(a) == Some(b);
pub assume_specification<T, E>[ <Option<Result<T, E>>>::transpose ](a: Option<Result<T, E>>) -> (r: Result<Option<T>, E>)
    ensures a is None ==> r == Ok::<Option<T>, E>(None), (a is Some && a->0 is Ok) ==> r == Ok::<Option<T>, E>(Some(a->0->Ok_0)), (a is Some && a->0 is Err) ==> r == Err::<Option<T>, E>(a->0->Err_0);
pub assume_specification<T, E>[ <Result<Option<T>, E>>::transpose ](a: Result<Option<T>, E>) -> (r: Option<Result<T, E>>)
    ensures a is Err ==> r == Some(Err::<T, E>(a->Err_0)), (a is Ok && a->Ok_0 is Some) ==> r == Some(Ok::<T, E>(a->Ok_0->0)), (a is Ok && a->Ok_0 is None) ==> r is None;
pub assume_specification<T>[ bool::then_some ](b: bool, t: T) -> (r: Option<T>) ensures r == (if b { Some(t) } else { None });
pub assume_specification<T>[ core::mem::replace ](d: &mut T, s: T) -> (r: T) ensures r == *old(d), *final(d) == s;
pub trait VxVec<T> { spec fn vv(&self) -> Seq<T>; fn vx_extend(&mut self, w: Vec<T>) ensures final(self).vv() == old(self).vv() + w@;
  fn vx_sort(&mut self) ensures final(self).vv().to_multiset() == old(self).vv().to_multiset();
  fn vx_reverse(&mut self) ensures final(self).vv() == old(self).vv().reverse();
  fn vx_swap(&mut self, i: usize, j: usize) requires live() ==> i < old(self).vv().len() && j < old(self).vv().len()
    ensures i < old(self).vv().len(), j < old(self).vv().len(), final(self).vv() == old(self).vv().update(i as int, old(self).vv()[j as int]).update(j as int, old(self).vv()[i as int]);
  fn vx_dedup(&mut self); }
impl<T> VxVec<T> for Vec<T> { open spec fn vv(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_extend(&mut self, w: Vec<T>) { unimplemented!() }
  #[verifier::external_body] fn vx_sort(&mut self) { unimplemented!() }
  #[verifier::external_body] fn vx_reverse(&mut self) { unimplemented!() }
  #[verifier::external_body] fn vx_swap(&mut self, i: usize, j: usize) { unimplemented!() }
  #[verifier::external_body] fn vx_dedup(&mut self) { unimplemented!() } }
pub fn min<T: MinMax>(a: T, b: T) -> (r: T) ensures r == (if b.num() < a.num() { b } else { a }) { a.min_(b) }
pub fn max<T: MinMax>(a: T, b: T) -> (r: T) ensures r.num() == (if a.num() < b.num() { b.num() } else { a.num() }) { a.max_(b) }

// ---------- sequences ----------
#[verifier::external_body]
pub fn vx_take<T>(v: &Vec<T>, i: usize) -> (r: T) requires i < v@.len() ensures r == v@[i as int] { unimplemented!() }
pub trait VxFirst<T> { spec fn fv(&self) -> Seq<T>; fn vx_first(&self) -> (r: Option<&T>) ensures self.fv().len() == 0 ==> r is None, self.fv().len() > 0 ==> r is Some && *r->0 == self.fv()[0]; }
impl<T> VxFirst<T> for Vec<T> { open spec fn fv(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_first(&self) -> (r: Option<&T>) { unimplemented!() } }

#[verifier::external_body]
pub fn vx_tc<T, E>(v: Vec<Result<T, E>>) -> (r: Result<Vec<T>, E>)
  ensures r is Ok <==> (forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]) is Ok), r is Ok ==> r->Ok_0@.len() == v@.len() && (forall|i: int| 0 <= i < v@.len() ==> v@[i] == Ok::<T, E>(#[trigger] r->Ok_0@[i])) { unimplemented!() }
#[verifier::external_body]
pub fn vx_refs<T>(v: &Vec<T>) -> (r: Vec<&T>) ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> *(#[trigger] r@[i]) == v@[i] { unimplemented!() }

// iterator adaptors on a source that the extractor has turned into a vector
pub trait VxIter<T>: Sized { spec fn itv(self) -> Seq<T>;
    fn take(self, n: usize) -> (r: Vec<T>) ensures r@ == self.itv().subrange(0, if n <= self.itv().len() { n as int } else { self.itv().len() as int });
    fn skip(self, n: usize) -> (r: Vec<T>) ensures r@ == self.itv().subrange(if n <= self.itv().len() { n as int } else { self.itv().len() as int }, self.itv().len() as int);
    fn rev(self) -> (r: Vec<T>) ensures r@ == self.itv().reverse();
}
impl<T> VxIter<T> for Vec<T> { open spec fn itv(self) -> Seq<T> { self@ } #[verifier::external_body] fn take(self, n: usize) -> (r: Vec<T>) { unimplemented!() } #[verifier::external_body] fn skip(self, n: usize) -> (r: Vec<T>) { unimplemented!() } #[verifier::external_body] fn rev(self) -> (r: Vec<T>) { unimplemented!() } }

// ---------- numbers ----------
pub struct Uint128 { pub v: u128 }
impl View for Uint128 { type V = nat; open spec fn view(&self) -> nat { self.v as nat } }
pub struct Uint256 { pub at: Ghost<nat> }
impl View for Uint256 { type V = nat; open spec fn view(&self) -> nat { self.at@ } }
pub struct Decimal256 { pub at: Ghost<nat> }
impl View for Decimal256 { type V = nat; open spec fn view(&self) -> nat { self.at@ } }
pub struct Decimal { pub at: Ghost<nat> }
impl View for Decimal { type V = nat; open spec fn view(&self) -> nat { self.at@ } }
pub struct Timestamp { pub at: Ghost<nat> }
impl View for Timestamp { type V = nat; open spec fn view(&self) -> nat { self.at@ } }
pub open spec fn d256(n: nat) -> Decimal256 { Decimal256 { at: Ghost(n) } }
pub open spec fn u256(n: nat) -> Uint256 { Uint256 { at: Ghost(n) } }

macro_rules! num_traits { ($($t:ident),*) => { $( verus!{
impl Copy for $t {}
impl Clone for $t { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl PartialEqSpecImpl for $t {
  open spec fn obeys_eq_spec() -> bool { true }
  open spec fn eq_spec(&self, other: &$t) -> bool { self@ == other@ }
}
impl PartialEq for $t { #[verifier::external_body] fn eq(&self, other: &$t) -> (r: bool) { unimplemented!() } }
impl PartialOrdSpecImpl for $t {
  open spec fn obeys_partial_cmp_spec() -> bool { true }
  open spec fn partial_cmp_spec(&self, other: &$t) -> Option<core::cmp::Ordering> {
    if self@ < other@ { Some(core::cmp::Ordering::Less) } else if self@ == other@ { Some(core::cmp::Ordering::Equal) } else { Some(core::cmp::Ordering::Greater) }
  }
}
impl PartialOrd for $t { #[verifier::external_body] fn partial_cmp(&self, other: &$t) -> (r: Option<core::cmp::Ordering>) { unimplemented!() } }
} )* } }
num_traits!(Uint128, Uint256, Decimal256, Decimal, Timestamp);

#[verifier::external_body]
pub fn vx_oe() -> OverflowError { unimplemented!() }

impl Uint128 {
  #[verifier::external_body]
  pub fn saturating_add(self, o: Uint128) -> (r: Uint128) ensures r@ == (if self@ + o@ < P128() { self@ + o@ } else { (P128() - 1) as nat }) { unimplemented!() }
  #[verifier::external_body]
  pub fn saturating_mul(self, o: Uint128) -> (r: Uint128) ensures r@ == (if self@ * o@ < P128() { self@ * o@ } else { (P128() - 1) as nat }) { unimplemented!() }
  #[verifier::external_body]
  pub fn abs_diff(self, o: Uint128) -> (r: Uint128) ensures r@ == iabs(self@ - o@) { unimplemented!() }
  #[verifier::external_body]
  pub fn checked_rem(self, o: Uint128) -> (r: Result<Uint128, DivideByZeroError>) ensures r is Ok <==> o@ != 0, r is Ok ==> r->Ok_0@ == self@ % o@ { unimplemented!() }
  #[verifier::external_body]
  pub fn vx_MAX() -> (r: Uint128) ensures r@ == P128() - 1 { unimplemented!() }
  #[verifier::external_body]
  pub fn vx_MIN() -> (r: Uint128) ensures r@ == 0 { unimplemented!() }
  #[verifier::external_body]
  pub fn multiply_ratio<A: ToU256, B: ToU256>(&self, a: A, b: B) -> (r: Uint128) requires live() ==> b.u() != 0 && self@ * a.u() / b.u() < P128() ensures b.u() != 0, r@ == self@ * a.u() / b.u() { unimplemented!() }
  #[verifier::external_body]
  pub fn checked_div(self, o: Uint128) -> (r: Result<Uint128, DivideByZeroError>) ensures r is Ok <==> o@ != 0, r is Ok ==> r->Ok_0@ == self@ / o@ { unimplemented!() }
  #[verifier::external_body]
  pub fn checked_pow(self, e: u32) -> (r: Result<Uint128, OverflowError>) ensures r is Ok <==> npow(self@, e as nat) < P128(), r is Ok ==> r->Ok_0@ == npow(self@, e as nat) { unimplemented!() }
  pub const fn zero() -> (r: Uint128) ensures r@ == 0 { Uint128 { v: 0 } }
  pub const fn one() -> (r: Uint128) ensures r@ == 1 { Uint128 { v: 1 } }
  pub const fn new(v: u128) -> (r: Uint128) ensures r.v == v { Uint128 { v } }
  pub fn u128(&self) -> (r: u128) ensures r == self.v { self.v }
  pub fn is_zero(&self) -> (r: bool) ensures r == (self.v == 0) { self.v == 0 }
  #[verifier::external_body]
  pub fn checked_add(self, o: Uint128) -> (r: Result<Uint128, OverflowError>) ensures r is Ok <==> self@ + o@ < P128(), r is Ok ==> r->Ok_0@ == self@ + o@ { unimplemented!() }
  #[verifier::external_body]
  pub fn checked_sub(self, o: Uint128) -> (r: Result<Uint128, OverflowError>) ensures r is Ok <==> self@ >= o@, r is Ok ==> r->Ok_0@ == self@ - o@ { unimplemented!() }
  #[verifier::external_body]
  pub fn checked_mul(self, o: Uint128) -> (r: Result<Uint128, OverflowError>) ensures r is Ok <==> self@ * o@ < P128(), r is Ok ==> r->Ok_0@ == self@ * o@ { unimplemented!() }
  #[verifier::external_body]
  pub fn saturating_sub(self, o: Uint128) -> (r: Uint128) ensures r@ == (if self@ >= o@ { (self@ - o@) as nat } else { 0 }) { unimplemented!() }
  #[verifier::external_body]
  pub fn try_from(x: Uint256) -> (r: Result<Uint128, ConversionOverflowError>) ensures r is Ok <==> x@ < P128(), r is Ok ==> r->Ok_0@ == x@ { unimplemented!() }
  #[verifier::external_body]
  pub fn from_str(s: &String) -> (r: Result<Uint128, StdError>)
    ensures (num_val(s@) is Some && num_val(s@)->0 < P128()) ==> r is Ok && r->Ok_0@ == num_val(s@)->0,
            (num_val(s@) is Some && num_val(s@)->0 >= P128()) ==> r is Err { unimplemented!() }
}
impl Uint256 {
  #[verifier::external_body]
  pub fn saturating_add(self, o: Uint256) -> (r: Uint256) ensures r@ == (if self@ + o@ < P256() { self@ + o@ } else { (P256() - 1) as nat }) { unimplemented!() }
  #[verifier::external_body]
  pub fn saturating_mul(self, o: Uint256) -> (r: Uint256) ensures r@ == (if self@ * o@ < P256() { self@ * o@ } else { (P256() - 1) as nat }) { unimplemented!() }
  #[verifier::external_body]
  pub fn abs_diff(self, o: Uint256) -> (r: Uint256) ensures r@ == iabs(self@ - o@) { unimplemented!() }
  #[verifier::external_body]
  pub fn checked_rem(self, o: Uint256) -> (r: Result<Uint256, DivideByZeroError>) ensures r is Ok <==> o@ != 0, r is Ok ==> r->Ok_0@ == self@ % o@ { unimplemented!() }
  #[verifier::external_body]
  pub fn vx_MAX() -> (r: Uint256) ensures r@ == P256() - 1 { unimplemented!() }
  #[verifier::external_body]
  pub fn vx_MIN() -> (r: Uint256) ensures r@ == 0 { unimplemented!() }
  #[verifier::external_body]
  pub fn multiply_ratio<A: ToU256, B: ToU256>(&self, a: A, b: B) -> (r: Uint256) requires live() ==> b.u() != 0 && self@ * a.u() / b.u() < P256() ensures b.u() != 0, r@ == self@ * a.u() / b.u() { unimplemented!() }
  #[verifier::external_body]
  pub const fn zero() -> (r: Uint256) ensures r@ == 0 { Uint256 { at: Ghost::assume_new() } }
  #[verifier::external_body]
  pub const fn one() -> (r: Uint256) ensures r@ == 1 { Uint256 { at: Ghost::assume_new() } }
  #[verifier::external_body]
  pub fn is_zero(&self) -> (r: bool) ensures r == (self@ == 0) { unimplemented!() }
  #[verifier::external_body]
  pub fn from_u128(v: u128) -> (r: Uint256) ensures r@ == v as nat { unimplemented!() }
  #[verifier::external_body]
  pub fn from_uint128(v: Uint128) -> (r: Uint256) ensures r@ == v@ { unimplemented!() }
  #[verifier::external_body]
  pub fn checked_add(self, o: Uint256) -> (r: Result<Uint256, OverflowError>) ensures r is Ok <==> self@ + o@ < P256(), r is Ok ==> r->Ok_0@ == self@ + o@ { unimplemented!() }
  #[verifier::external_body]
  pub fn checked_sub(self, o: Uint256) -> (r: Result<Uint256, OverflowError>) ensures r is Ok <==> self@ >= o@, r is Ok ==> r->Ok_0@ == self@ - o@ { unimplemented!() }
  #[verifier::external_body]
  pub fn checked_mul(self, o: Uint256) -> (r: Result<Uint256, OverflowError>) ensures r is Ok <==> self@ * o@ < P256(), r is Ok ==> r->Ok_0@ == self@ * o@ { unimplemented!() }
  #[verifier::external_body]
  pub fn checked_div(self, o: Uint256) -> (r: Result<Uint256, DivideByZeroError>) ensures r is Ok <==> o@ != 0, r is Ok ==> r->Ok_0@ == self@ / o@ { unimplemented!() }
  #[verifier::external_body]
  pub fn checked_pow(self, e: u32) -> (r: Result<Uint256, OverflowError>) ensures r is Ok <==> npow(self@, e as nat) < P256(), r is Ok ==> r->Ok_0@ == npow(self@, e as nat) { unimplemented!() }
  #[verifier::external_body]
  pub fn saturating_sub(self, o: Uint256) -> (r: Uint256) ensures r@ == (if self@ >= o@ { (self@ - o@) as nat } else { 0 }) { unimplemented!() }
}
pub open spec fn npow(b: nat, e: nat) -> nat decreases e { if e == 0 { 1 } else { b * npow(b, (e - 1) as nat) } }
impl Decimal256 {
  #[verifier::external_body]
  pub fn saturating_add(self, o: Decimal256) -> (r: Decimal256) ensures r@ == (if self@ + o@ < P256() { self@ + o@ } else { (P256() - 1) as nat }) { unimplemented!() }
  #[verifier::external_body]
  pub fn abs_diff(self, o: Decimal256) -> (r: Decimal256) ensures r@ == iabs(self@ - o@) { unimplemented!() }
  #[verifier::external_body]
  pub fn floor(&self) -> (r: Decimal256) ensures r@ == self@ / E18() * E18() { unimplemented!() }
  #[verifier::external_body]
  pub fn ceil(&self) -> (r: Decimal256) requires live() ==> ceil_div(self@, E18()) * E18() < P256() ensures r@ == ceil_div(self@, E18()) * E18(), r@ < P256() { unimplemented!() }
  #[verifier::external_body]
  pub fn atomics(&self) -> (r: Uint256) ensures r@ == self@ { unimplemented!() }
  #[verifier::external_body]
  pub fn new(v: Uint256) -> (r: Decimal256) ensures r@ == v@ { unimplemented!() }
  #[verifier::external_body]
  pub fn raw(v: u128) -> (r: Decimal256) ensures r@ == v as nat { unimplemented!() }
  #[verifier::external_body]
  pub fn bps(x: u64) -> (r: Decimal256) ensures r@ == x as nat * 100_000_000_000_000nat { unimplemented!() }
  #[verifier::external_body]
  pub const fn zero() -> (r: Decimal256) ensures r@ == 0 { Decimal256 { at: Ghost::assume_new() } }
  #[verifier::external_body]
  pub const fn one() -> (r: Decimal256) ensures r@ == E18() { Decimal256 { at: Ghost::assume_new() } }
  #[verifier::external_body]
  pub fn vx_MAX() -> (r: Decimal256) ensures r@ == P256() - 1 { unimplemented!() }
  #[verifier::external_body]
  pub fn vx_MIN() -> (r: Decimal256) ensures r@ == 0 { unimplemented!() }
  #[verifier::external_body]
  pub fn is_zero(&self) -> (r: bool) ensures r == (self@ == 0) { unimplemented!() }
  #[verifier::external_body]
  pub const fn percent(x: u64) -> (r: Decimal256) ensures r@ == x as nat * 10_000_000_000_000_000nat { Decimal256 { at: Ghost::assume_new() } }
  #[verifier::external_body]
  pub const fn permille(x: u64) -> (r: Decimal256) ensures r@ == x as nat * 1_000_000_000_000_000nat { Decimal256 { at: Ghost::assume_new() } }
  // panics on a zero denominator and on overflow
  #[verifier::external_body]
  pub fn from_ratio<A: ToU256, B: ToU256>(a: A, b: B) -> (r: Decimal256) requires live() ==> b.u() != 0 && ratio(a.u(), b.u()) < P256() ensures b.u() != 0, ratio(a.u(), b.u()) < P256(), r@ == ratio(a.u(), b.u()) { unimplemented!() }
  // the same, where the caller has to show that it does not panic
  #[verifier::external_body]
  pub fn from_ratio_t<A: ToU256, B: ToU256>(a: A, b: B) -> (r: Decimal256) requires b.u() != 0, ratio(a.u(), b.u()) < P256() ensures r@ == ratio(a.u(), b.u()) { unimplemented!() }
  #[verifier::external_body]
  pub fn checked_from_ratio<A: ToU256, B: ToU256>(a: A, b: B) -> (r: Result<Decimal256, CheckedFromRatioError>)
    ensures r is Ok <==> (b.u() != 0 && ratio(a.u(), b.u()) < P256()), r is Ok ==> r->Ok_0@ == ratio(a.u(), b.u()) { unimplemented!() }
  #[verifier::external_body]
  pub fn checked_add(self, o: Decimal256) -> (r: Result<Decimal256, OverflowError>) ensures r is Ok <==> self@ + o@ < P256(), r is Ok ==> r->Ok_0@ == self@ + o@ { unimplemented!() }
  #[verifier::external_body]
  pub fn checked_sub(self, o: Decimal256) -> (r: Result<Decimal256, OverflowError>) ensures r is Ok <==> self@ >= o@, r is Ok ==> r->Ok_0@ == self@ - o@ { unimplemented!() }
  #[verifier::external_body]
  pub fn checked_mul(self, o: Decimal256) -> (r: Result<Decimal256, OverflowError>) ensures r is Ok <==> dmul(self@, o@) < P256(), r is Ok ==> r->Ok_0@ == dmul(self@, o@) { unimplemented!() }
  #[verifier::external_body]
  pub fn checked_div(self, o: Decimal256) -> (r: Result<Decimal256, CheckedFromRatioError>) ensures r is Ok <==> (o@ != 0 && ratio(self@, o@) < P256()), r is Ok ==> r->Ok_0@ == ratio(self@, o@) { unimplemented!() }
  #[verifier::external_body]
  pub fn saturating_sub(self, o: Decimal256) -> (r: Decimal256) ensures r@ == (if self@ >= o@ { (self@ - o@) as nat } else { 0 }) { unimplemented!() }
  #[verifier::external_body]
  pub fn to_uint_floor(self) -> (r: Uint256) ensures r@ == self@ / E18() { unimplemented!() }
  #[verifier::external_body]
  pub fn to_uint_ceil(self) -> (r: Uint256) ensures r@ == ceil_div(self@, E18()) { unimplemented!() }
  #[verifier::external_body]
  pub fn inv(&self) -> (r: Option<Decimal256>) ensures r is Some <==> self@ != 0, r is Some ==> r->0@ == E18() * E18() / self@ { unimplemented!() }
}
pub open spec fn ratio(a: nat, b: nat) -> nat { a * E18() / b }
pub open spec fn dmul(a: nat, b: nat) -> nat { a * b / E18() }
pub open spec fn ceil_div(a: nat, b: nat) -> nat { if a % b == 0 { a / b } else { a / b + 1 } }
impl Decimal256 {
  #[verifier::external_body]
  pub fn from_atomics<A: ToU256>(a: A, d: u32) -> (r: Result<Decimal256, DecimalRangeExceeded>) ensures d == 18 ==> r is Ok && r->Ok_0@ == a.u() { unimplemented!() }
  #[verifier::external_body]
  pub fn numerator(&self) -> (r: Uint256) ensures r@ == self@ { unimplemented!() }
  #[verifier::external_body]
  pub fn denominator(&self) -> (r: Uint256) ensures r@ == E18() { unimplemented!() }
}
pub trait VxFrac { spec fn fr(self) -> nat; }
impl VxFrac for Decimal { open spec fn fr(self) -> nat { self@ } }
impl VxFrac for Decimal256 { open spec fn fr(self) -> nat { self@ } }
macro_rules! frac { ($($t:ty, $m:expr);*) => { $( verus!{ impl $t {
  #[verifier::external_body]
  pub fn mul_floor<F: VxFrac>(self, f: F) -> (r: $t) requires live() ==> self@ * f.fr() / E18() < $m ensures r@ == self@ * f.fr() / E18(), r@ < $m { unimplemented!() }
  #[verifier::external_body]
  pub fn mul_ceil<F: VxFrac>(self, f: F) -> (r: $t) requires live() ==> ceil_div(self@ * f.fr(), E18()) < $m ensures r@ == ceil_div(self@ * f.fr(), E18()), r@ < $m { unimplemented!() }
  #[verifier::external_body]
  pub fn checked_mul_floor<F: VxFrac>(self, f: F) -> (r: Result<$t, CheckedFromRatioError>) ensures r is Ok <==> self@ * f.fr() / E18() < $m, r is Ok ==> r->Ok_0@ == self@ * f.fr() / E18() { unimplemented!() }
  #[verifier::external_body]
  pub fn checked_mul_ceil<F: VxFrac>(self, f: F) -> (r: Result<$t, CheckedFromRatioError>) ensures r is Ok <==> ceil_div(self@ * f.fr(), E18()) < $m, r is Ok ==> r->Ok_0@ == ceil_div(self@ * f.fr(), E18()) { unimplemented!() }
} } )* } }
frac!(Uint128, P128(); Uint256, P256());
impl Decimal {
  #[verifier::external_body]
  pub const fn zero() -> (r: Decimal) ensures r@ == 0 { Decimal { at: Ghost::assume_new() } }
  #[verifier::external_body]
  pub const fn one() -> (r: Decimal) ensures r@ == E18() { Decimal { at: Ghost::assume_new() } }
  #[verifier::external_body]
  pub const fn percent(x: u64) -> (r: Decimal) ensures r@ == x as nat * 10_000_000_000_000_000nat { Decimal { at: Ghost::assume_new() } }
  #[verifier::external_body]
  pub fn is_zero(&self) -> (r: bool) ensures r == (self@ == 0) { unimplemented!() }
  #[verifier::external_body]
  pub fn permille(x: u64) -> (r: Decimal) ensures r@ == x as nat * 1_000_000_000_000_000nat { unimplemented!() }
  #[verifier::external_body]
  pub fn bps(x: u64) -> (r: Decimal) ensures r@ == x as nat * 100_000_000_000_000nat { unimplemented!() }
  #[verifier::external_body]
  pub fn new(v: Uint128) -> (r: Decimal) ensures r@ == v@ { unimplemented!() }
  #[verifier::external_body]
  pub fn raw(v: u128) -> (r: Decimal) ensures r@ == v as nat { unimplemented!() }
  #[verifier::external_body]
  pub fn atomics(&self) -> (r: Uint128) ensures r@ == self@ { unimplemented!() }
  #[verifier::external_body]
  pub fn floor(&self) -> (r: Decimal) ensures r@ == self@ / E18() * E18() { unimplemented!() }
  #[verifier::external_body]
  pub fn ceil(&self) -> (r: Decimal) requires live() ==> ceil_div(self@, E18()) * E18() < P128() ensures r@ == ceil_div(self@, E18()) * E18(), r@ < P128() { unimplemented!() }
  #[verifier::external_body]
  pub fn to_uint_floor(self) -> (r: Uint128) ensures r@ == self@ / E18() { unimplemented!() }
  #[verifier::external_body]
  pub fn to_uint_ceil(self) -> (r: Uint128) ensures r@ == ceil_div(self@, E18()) { unimplemented!() }
  #[verifier::external_body]
  pub fn checked_add(self, o: Decimal) -> (r: Result<Decimal, OverflowError>) ensures r is Ok <==> self@ + o@ < P128(), r is Ok ==> r->Ok_0@ == self@ + o@ { unimplemented!() }
  #[verifier::external_body]
  pub fn checked_sub(self, o: Decimal) -> (r: Result<Decimal, OverflowError>) ensures r is Ok <==> self@ >= o@, r is Ok ==> r->Ok_0@ == self@ - o@ { unimplemented!() }
  #[verifier::external_body]
  pub fn from_str(s: &String) -> (r: Result<Decimal, StdError>)
    ensures (dec_val(s@) is Some && dec_val(s@)->0 < P128()) ==> r is Ok && r->Ok_0@ == dec_val(s@)->0,
            (dec_val(s@) is Some && dec_val(s@)->0 >= P128()) ==> r is Err { unimplemented!() }
}
impl Timestamp {
  #[verifier::external_body]
  pub fn default() -> (r: Timestamp) ensures r@ == 0 { unimplemented!() }
  #[verifier::external_body]
  pub fn nanos(&self) -> (r: u64) ensures r as nat == self@ { unimplemented!() }
  #[verifier::external_body]
  pub fn from_nanos(n: u64) -> (r: Timestamp) ensures r@ == n as nat { unimplemented!() }
  #[verifier::external_body]
  pub fn from_seconds(n: u64) -> (r: Timestamp) requires live() ==> n as nat * 1_000_000_000 <= u64::MAX ensures r@ == n as nat * 1_000_000_000 { unimplemented!() }
  #[verifier::external_body]
  pub fn subsec_nanos(&self) -> (r: u64) ensures r as nat == self@ % 1_000_000_000 { unimplemented!() }
  #[verifier::external_body]
  pub fn minus_nanos(&self, n: u64) -> (r: Timestamp) requires live() ==> self@ >= n as nat ensures self@ >= n as nat, r@ == self@ - n as nat { unimplemented!() }
  #[verifier::external_body]
  pub fn minus_seconds(&self, n: u64) -> (r: Timestamp) requires live() ==> self@ >= n as nat * 1_000_000_000 ensures self@ >= n as nat * 1_000_000_000, r@ == self@ - n as nat * 1_000_000_000 { unimplemented!() }
  #[verifier::external_body]
  pub fn seconds(&self) -> (r: u64) ensures r as nat == self@ / 1_000_000_000 { unimplemented!() }
  #[verifier::external_body]
  pub fn plus_seconds(&self, n: u64) -> (r: Timestamp) requires live() ==> self@ + n as nat * 1_000_000_000 <= u64::MAX ensures r@ == self@ + n as nat * 1_000_000_000 { unimplemented!() }
  #[verifier::external_body]
  pub fn plus_nanos(&self, n: u64) -> (r: Timestamp) requires live() ==> self@ + n as nat <= u64::MAX ensures r@ == self@ + n as nat { unimplemented!() }
}

// ---------- text ----------
pub struct String { pub at: Ghost<Seq<char>> }
impl View for String { type V = Seq<char>; open spec fn view(&self) -> Seq<char> { self.at@ } }
pub struct Addr { pub at: Ghost<Seq<char>> }
impl View for Addr { type V = Seq<char>; open spec fn view(&self) -> Seq<char> { self.at@ } }
macro_rules! str_traits { ($($t:ident),*) => { $( verus!{
impl Clone for $t { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl PartialEqSpecImpl for $t {
  open spec fn obeys_eq_spec() -> bool { true }
  open spec fn eq_spec(&self, other: &$t) -> bool { self@ == other@ }
}
impl PartialEq for $t { #[verifier::external_body] fn eq(&self, other: &$t) -> (r: bool) { unimplemented!() } }
} )* } }
str_traits!(String, Addr);
impl String {
  pub fn as_str(&self) -> (r: &String) ensures r == self { self }
  #[verifier::external_body]
  pub fn len(&self) -> (r: usize) ensures r == 0 <==> self@.len() == 0 { unimplemented!() }
  #[verifier::external_body]
  pub fn to_lowercase(&self) -> (r: String) { unimplemented!() }
  #[verifier::external_body]
  pub fn to_uppercase(&self) -> (r: String) { unimplemented!() }
  #[verifier::external_body]
  pub fn trim(&self) -> (r: &String) { unimplemented!() }
  #[verifier::external_body]
  pub fn starts_with(&self, o: &String) -> (r: bool) ensures o@ == self@ ==> r { unimplemented!() }
  #[verifier::external_body]
  pub fn ends_with(&self, o: &String) -> (r: bool) ensures o@ == self@ ==> r { unimplemented!() }
  #[verifier::external_body]
  pub fn contains(&self, o: &String) -> (r: bool) ensures o@ == self@ ==> r { unimplemented!() }
  #[verifier::external_body]
  pub fn eq_ignore_ascii_case(&self, o: &String) -> (r: bool) ensures o@ == self@ ==> r { unimplemented!() }
  #[verifier::external_body]
  pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
}
pub trait VxIs { spec fn iv(&self) -> Seq<char>; fn vx_is(&self, o: &String) -> (r: bool) ensures r == (self.iv() == o@); }
impl VxIs for String { open spec fn iv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_is(&self, o: &String) -> (r: bool) { unimplemented!() } }
impl VxIs for Addr { open spec fn iv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_is(&self, o: &String) -> (r: bool) { unimplemented!() } }
impl Addr {
  #[verifier::external_body]
  pub fn as_str(&self) -> (r: &String) ensures r@ == self@ { unimplemented!() }
  #[verifier::external_body]
  pub fn unchecked(s: &String) -> (r: Addr) ensures r@ == s@ { unimplemented!() }
  #[verifier::external_body]
  pub fn into_string(self) -> (r: String) ensures r@ == self@ { unimplemented!() }
}

} // verus!
pub static VX_S: String = String { at: Ghost::assume_new() };
verus! {
// ---------- errors ----------
pub struct StdError { pub x: u64 }
pub struct OverflowError { pub operation: OverflowOperation, pub operand1: String, pub operand2: String }
pub enum OverflowOperation { Add, Sub, Mul, Pow, Shr, Shl }
pub struct CoinsError { pub x: u64 }
pub struct PaymentError { pub x: u64 }
pub struct ConversionOverflowError { pub x: u64 }
pub struct CheckedMultiplyRatioError { pub x: u64 }
pub struct CheckedFromRatioError { pub x: u64 }
pub struct DivideByZeroError { pub x: u64 }
pub struct DecimalRangeExceeded { pub x: u64 }
pub type StdResult<T> = Result<T, StdError>;
} // verus!
macro_rules! dbg_traits { ($($t:ident),*) => { $(
impl core::fmt::Debug for $t { fn fmt(&self, _f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) } }
)* } }
dbg_traits!(StdError, OverflowError, OverflowOperation, CoinsError, PaymentError, ConversionOverflowError, CheckedMultiplyRatioError, CheckedFromRatioError, DivideByZeroError, DecimalRangeExceeded, String);
verus! {

// ---------- coins, messages, responses ----------
pub struct Coin { pub denom: String, pub amount: Uint128 }
impl Clone for Coin { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub fn coin<D: ToStr_>(amount: u128, denom: D) -> (r: Coin) ensures r.denom@ == denom.str_spec(), r.amount.v == amount { Coin { denom: denom.vx_str(), amount: Uint128 { v: amount } } }
pub struct ProtoCoin { pub denom: String, pub amount: String }
impl Clone for ProtoCoin { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub struct MsgSend { pub from_address: String, pub to_address: String, pub amount: Vec<ProtoCoin> }
pub enum BankMsg { Send { to_address: String, amount: Vec<Coin> }, Burn { amount: Vec<Coin> } }
pub enum CosmosMsg { Bank(BankMsg), Proto(MsgSend), Other(u64) }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum ReplyOn { Always, Error, Success, Never }
pub struct SubMsg { pub id: u64, pub msg: CosmosMsg, pub reply_on: ReplyOn }
impl SubMsg {
  #[verifier::external_body]
  pub fn reply_on_error<M: Into_<CosmosMsg>>(msg: M, id: u64) -> (r: SubMsg) ensures r.id == id, r.reply_on == ReplyOn::Error, msg.into_rel(r.msg) { unimplemented!() }
  #[verifier::external_body]
  pub fn reply_on_success<M: Into_<CosmosMsg>>(msg: M, id: u64) -> (r: SubMsg) ensures r.id == id, r.reply_on == ReplyOn::Success, msg.into_rel(r.msg) { unimplemented!() }
  #[verifier::external_body]
  pub fn reply_always<M: Into_<CosmosMsg>>(msg: M, id: u64) -> (r: SubMsg) ensures r.id == id, r.reply_on == ReplyOn::Always, msg.into_rel(r.msg) { unimplemented!() }
  #[verifier::external_body]
  pub fn new<M: Into_<CosmosMsg>>(msg: M) -> (r: SubMsg) ensures r.id == 0, r.reply_on == ReplyOn::Never, msg.into_rel(r.msg) { unimplemented!() }
}
pub struct Event { pub x: u64 }
impl Event { #[verifier::external_body] pub fn new(s: &String) -> (r: Event) { unimplemented!() } }
pub struct Binary { pub at: Ghost<Jv> }
// abstract JSON document; `jdoc` maps a value to its document
pub struct Jv { pub id: int }
pub uninterp spec fn jdoc<T>(t: T) -> Jv;
#[verifier::external_body]
pub fn to_json_binary<T>(t: &T) -> (r: StdResult<Binary>) ensures r is Ok, r->Ok_0.at@ == jdoc(*t) { unimplemented!() }
pub struct Response { pub messages: Vec<SubMsg>, pub data: Option<Binary> }
impl Response {
  #[verifier::external_body]
  pub fn new() -> (r: Response) ensures r.messages@ == Seq::<SubMsg>::empty(), r.data is None { unimplemented!() }
  #[verifier::external_body]
  pub fn default() -> (r: Response) ensures r.messages@ == Seq::<SubMsg>::empty(), r.data is None { unimplemented!() }
  #[verifier::external_body]
  pub fn add_submessage(self, m: SubMsg) -> (r: Response) ensures r.messages@ == self.messages@.push(m), r.data == self.data { unimplemented!() }
  #[verifier::external_body]
  pub fn add_submessages(self, m: Vec<SubMsg>) -> (r: Response) ensures r.messages@ == self.messages@ + m@, r.data == self.data { unimplemented!() }
  #[verifier::external_body]
  pub fn add_message<M: Into_<CosmosMsg>>(self, m: M) -> (r: Response) ensures r.messages@.len() == self.messages@.len() + 1, r.messages@.drop_last() == self.messages@, r.messages@.last().reply_on == ReplyOn::Never, r.messages@.last().id == 0, m.into_rel(r.messages@.last().msg), r.data == self.data { unimplemented!() }
  #[verifier::external_body]
  pub fn set_data(self, d: Binary) -> (r: Response) ensures r.messages@ == self.messages@, r.data == Some(d) { unimplemented!() }
}
pub struct SubMsgResponse { pub x: u64 }
pub enum SubMsgResult { Ok(SubMsgResponse), Err(String) }
impl SubMsgResult {
  pub fn is_ok(&self) -> (r: bool) ensures r == (*self is Ok) { match self { SubMsgResult::Ok(_) => true, SubMsgResult::Err(_) => false } }
  pub fn is_err(&self) -> (r: bool) ensures r == (*self is Err) { match self { SubMsgResult::Ok(_) => false, SubMsgResult::Err(_) => true } }
  #[verifier::external_body]
  pub fn unwrap_err(self) -> (r: String) requires self is Err ensures r == self->Err_0 { unimplemented!() }
  #[verifier::external_body]
  pub fn unwrap(self) -> (r: SubMsgResponse) requires self is Ok ensures r == self->Ok_0 { unimplemented!() }
  pub fn into_result(self) -> (r: Result<SubMsgResponse, String>) ensures r is Ok <==> self is Ok, r is Err ==> r->Err_0 == self->Err_0, r is Ok ==> r->Ok_0 == self->Ok_0 { match self { SubMsgResult::Ok(x) => Ok(x), SubMsgResult::Err(e) => Err(e) } }
}
pub struct Reply { pub id: u64, pub result: SubMsgResult }

// ---------- environment ----------
pub struct BlockInfo { pub height: u64, pub time: Timestamp, pub chain_id: String }
pub struct ContractInfo { pub address: Addr }
pub struct Env { pub block: BlockInfo, pub contract: ContractInfo }
pub struct MessageInfo { pub sender: Addr, pub funds: Vec<Coin> }
pub struct Api { pub x: u64 }
pub uninterp spec fn addr_valid(s: Seq<char>) -> bool;
impl Api {
  #[verifier::external_body]
  pub fn addr_validate(&self, s: &String) -> (r: StdResult<Addr>) ensures r is Ok <==> addr_valid(s@), r is Ok ==> r->Ok_0@ == s@ { unimplemented!() }
}
pub struct QuerierWrapper { pub x: u64 }
pub uninterp spec fn supply_ok(q: QuerierWrapper, d: Seq<char>) -> bool;
pub uninterp spec fn supply_amt(q: QuerierWrapper, d: Seq<char>) -> nat;
impl Copy for QuerierWrapper {}
impl Clone for QuerierWrapper { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl QuerierWrapper {
  #[verifier::external_body]
  pub fn query_supply<D: ToStr_>(&self, d: D) -> (r: StdResult<Coin>) ensures r is Ok <==> supply_ok(*self, d.str_spec()), r is Ok ==> r->Ok_0.amount@ == supply_amt(*self, d.str_spec()) { unimplemented!() }
}
pub struct DepsMut<'a> { pub storage: &'a mut Storage, pub api: &'a Api, pub querier: QuerierWrapper }
pub struct Deps<'a> { pub storage: &'a Storage, pub api: &'a Api, pub querier: QuerierWrapper }
impl<'a> Copy for Deps<'a> {}
impl<'a> Clone for Deps<'a> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<'a> DepsMut<'a> {
  #[verifier::external_body]
  pub fn as_ref(&self) -> (r: Deps<'_>) ensures *r.storage == *old(self.storage), r.api == self.api, r.querier == self.querier { unimplemented!() }
}
pub open spec fn one_coin(info: MessageInfo, denom: Seq<char>, amount: nat) -> bool {
  info.funds@.len() == 1 && info.funds@[0].denom@ == denom && info.funds@[0].amount@ == amount && amount > 0
}
#[verifier::external_body]
pub fn must_pay(info: &MessageInfo, denom: &String) -> (r: Result<Uint128, PaymentError>)
  ensures r is Ok <==> (info.funds@.len() == 1 && info.funds@[0].denom@ == denom@ && info.funds@[0].amount@ > 0),
          r is Ok ==> r->Ok_0 == info.funds@[0].amount { unimplemented!() }
#[verifier::external_body]
pub fn nonpayable(info: &MessageInfo) -> (r: Result<(), PaymentError>) ensures r is Ok <==> info.funds@.len() == 0 { unimplemented!() }
#[verifier::external_body]
pub fn set_contract_version(s: &mut Storage, name: &String, version: &String) -> (r: Result<(), StdError>) ensures r is Ok, final(s).sv@ == old(s).sv@ { unimplemented!() }

// ---------- storage iteration ----------
pub enum Bound<T> { Inclusive(T), Exclusive(T) }
impl<T> Bound<T> {
  pub fn inclusive(t: T) -> (r: Bound<T>) ensures r == Bound::Inclusive(t) { Bound::Inclusive(t) }
  pub fn exclusive(t: T) -> (r: Bound<T>) ensures r == Bound::Exclusive(t) { Bound::Exclusive(t) }
}
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum Order { Ascending, Descending }
// total order of the storage keys
pub trait KeyOrd { spec fn klt(self, o: Self) -> bool; }
impl KeyOrd for i64 { open spec fn klt(self, o: i64) -> bool { self < o } }
impl KeyOrd for u64 { open spec fn klt(self, o: u64) -> bool { self < o } }
impl KeyOrd for (i64, u64) { open spec fn klt(self, o: (i64, u64)) -> bool { self.0 < o.0 || (self.0 == o.0 && self.1 < o.1) } }
pub open spec fn kle<K: KeyOrd>(a: K, b: K) -> bool { a == b || a.klt(b) }
pub open spec fn ge_min<K: KeyOrd>(k: K, b: Option<Bound<K>>) -> bool { match b { None => true, Some(Bound::Inclusive(m)) => kle(m, k), Some(Bound::Exclusive(m)) => m.klt(k) } }
pub open spec fn le_max<K: KeyOrd>(k: K, b: Option<Bound<K>>) -> bool { match b { None => true, Some(Bound::Inclusive(m)) => kle(k, m), Some(Bound::Exclusive(m)) => k.klt(m) } }
// `s` lists exactly the keys of `dom` inside the bounds, each once, in the requested order
pub open spec fn lists<K: KeyOrd>(s: Seq<K>, dom: Set<K>, min: Option<Bound<K>>, max: Option<Bound<K>>, ord: Order) -> bool {
  &&& forall|i: int| 0 <= i < s.len() ==> dom.contains(#[trigger] s[i]) && ge_min(s[i], min) && le_max(s[i], max)
  &&& forall|k: K| dom.contains(k) && ge_min(k, min) && le_max(k, max) ==> #[trigger] s.contains(k)
  &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> if ord == Order::Ascending { (#[trigger] s[i]).klt(#[trigger] s[j]) } else { s[j].klt(s[i]) }
}
// the listing is a function of its arguments
pub uninterp spec fn listing<K>(dom: Set<K>, min: Option<Bound<K>>, max: Option<Bound<K>>, ord: Order) -> Seq<K>;
} // verus!
