%verbatim
pub mod vxf { use vstd::prelude::*;
// ------------------------------------------------------------------ f32 (trusted axioms)
// `grid` values are the multiples of 1/2 up to 2^23: h() counts halves. IEEE 754 binary32 represents
// them exactly, so an operation whose exact result is again on the grid returns exactly it.
// Outside of the grid only what a faithfully rounded operation guarantees is assumed.
pub open spec fn FMAX() -> int { 16777216 }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct F { f: f32 }
impl F {
    pub uninterp spec fn num(self) -> bool;
    pub uninterp spec fn nan(self) -> bool;
    pub uninterp spec fn val(self) -> real;
    pub uninterp spec fn grid(self) -> bool;
    pub uninterp spec fn h(self) -> int;
    #[verifier::external_body]
    pub fn max(self, o: F) -> (r: F)
        ensures self.nan() ==> r == o, o.nan() ==> r == self,
            self.num() && o.num() ==> r.num() && (r == self || r == o) && r.val() >= self.val() && r.val() >= o.val(),
            self.grid() && o.grid() ==> r.grid() && r.h() == (if self.h() >= o.h() { self.h() } else { o.h() }),
    { F { f: self.f.max(o.f) } }
    #[verifier::external_body]
    pub fn min(self, o: F) -> (r: F)
        ensures self.nan() ==> r == o, o.nan() ==> r == self,
            self.num() && o.num() ==> r.num() && (r == self || r == o) && r.val() <= self.val() && r.val() <= o.val(),
            self.grid() && o.grid() ==> r.grid() && r.h() == (if self.h() <= o.h() { self.h() } else { o.h() }),
    { F { f: self.f.min(o.f) } }
    #[verifier::external_body]
    pub fn abs(self) -> (r: F)
        ensures self.grid() ==> r.grid() && r.h() == (if self.h() >= 0 { self.h() } else { -self.h() }),
    { F { f: self.f.abs() } }
    pub uninterp spec fn u32_of(self) -> u32;
    #[verifier::external_body]
    pub fn vx_as_u32(self) -> (r: u32) ensures r == self.u32_of(), self.grid() && self.h() >= 0 ==> r == self.h() / 2 { self.f as u32 }
    #[verifier::external_body]
    pub fn powi(self, n: i32) -> (r: F) ensures n == 2 && self.grid() && -8388608 <= self.h() <= 8388608 ==> r == sq(if self.h() >= 0 { self.h() } else { -self.h() }) { F { f: self.f.powi(n) } }
    #[verifier::external_body]
    pub fn sqrt(self) -> (r: F) ensures forall|a: int| 0 <= a <= 8388608 && self == #[trigger] sq(a) ==> r.grid() && r.h() == a { F { f: self.f.sqrt() } }
}
/// Correctly rounded quotient of two grid values (in halves, b > 0). Rounding is monotone, and near 0 and 1 it
/// cannot reach the bound: |a/b| >= 2^-23 does not underflow and a/b > 1 means a/b >= 1 + 2^-23.
pub uninterp spec fn quo(a: int, b: int) -> real;

/// The rounded square of a halves. Adding the square of 0 changes nothing, and the rounded root of the rounded square of a is a (exhaustively tested, see DESIGN.md).
pub uninterp spec fn sq(a: int) -> F;

impl vstd::std_specs::ops::AddSpecImpl<F> for F { open spec fn obeys_add_spec() -> bool { false } open spec fn add_req(self, o: F) -> bool { true } open spec fn add_spec(self, o: F) -> F { arbitrary() } }
impl core::ops::Add for F { type Output = F;
    #[verifier::external_body]
    fn add(self, o: F) -> (r: F) ensures self.grid() && o.grid() && -FMAX() <= self.h() + o.h() <= FMAX() ==> r.grid() && r.h() == self.h() + o.h(),
        forall|a: int| 0 <= a <= 8388608 && (self == #[trigger] sq(a) && o == sq(0) || self == sq(0) && o == sq(a)) ==> r == sq(a) { F { f: self.f + o.f } } }
impl vstd::std_specs::ops::SubSpecImpl<F> for F { open spec fn obeys_sub_spec() -> bool { false } open spec fn sub_req(self, o: F) -> bool { true } open spec fn sub_spec(self, o: F) -> F { arbitrary() } }
impl core::ops::Sub for F { type Output = F;
    #[verifier::external_body]
    fn sub(self, o: F) -> (r: F) ensures self.grid() && o.grid() && -FMAX() <= self.h() - o.h() <= FMAX() ==> r.grid() && r.h() == self.h() - o.h() { F { f: self.f - o.f } } }
impl vstd::std_specs::ops::MulSpecImpl<F> for F { open spec fn obeys_mul_spec() -> bool { false } open spec fn mul_req(self, o: F) -> bool { true } open spec fn mul_spec(self, o: F) -> F { arbitrary() } }
impl core::ops::Mul for F { type Output = F;
    #[verifier::external_body]
    fn mul(self, o: F) -> (r: F) ensures self.grid() && o.grid() && (self.h() * o.h()) % 2 == 0 && -FMAX() <= (self.h() * o.h()) / 2 <= FMAX() ==> r.grid() && r.h() == (self.h() * o.h()) / 2 { F { f: self.f * o.f } } }
impl vstd::std_specs::ops::DivSpecImpl<F> for F { open spec fn obeys_div_spec() -> bool { false } open spec fn div_req(self, o: F) -> bool { true } open spec fn div_spec(self, o: F) -> F { arbitrary() } }
impl core::ops::Div for F { type Output = F;
    #[verifier::external_body]
    fn div(self, o: F) -> (r: F)
        ensures self.grid() && o.grid() && o.h() > 0 ==> r.num() && r.val() == quo(self.h(), o.h()),
            self.grid() && o.grid() && o.h() < 0 ==> r.num() && r.val() == quo(-self.h(), -o.h()),
            self.grid() && o.grid() && o.h() != 0 && (2 * self.h()) % o.h() == 0 && -FMAX() <= (2 * self.h()) / o.h() <= FMAX() ==> r.grid() && r.h() == (2 * self.h()) / o.h(),
    { F { f: self.f / o.f } } }
impl vstd::std_specs::ops::NegSpecImpl for F { open spec fn obeys_neg_spec() -> bool { false } open spec fn neg_req(self) -> bool { true } open spec fn neg_spec(self) -> F { arbitrary() } }
impl core::ops::Neg for F { type Output = F;
    #[verifier::external_body]
    fn neg(self) -> (r: F) ensures self.grid() ==> r.grid() && r.h() == -self.h() { F { f: -self.f } } }
impl vstd::std_specs::cmp::PartialEqSpecImpl<F> for F { open spec fn obeys_eq_spec() -> bool { false } open spec fn eq_spec(&self, o: &F) -> bool { arbitrary() } }
impl PartialEq for F {
    #[verifier::external_body]
    fn eq(&self, o: &F) -> (r: bool) ensures self.num() && o.num() ==> r == (self.val() == o.val()), self.grid() && o.grid() ==> r == (self.h() == o.h()) { self.f == o.f } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl<F> for F { open spec fn obeys_partial_cmp_spec() -> bool { false } open spec fn partial_cmp_spec(&self, o: &F) -> Option<core::cmp::Ordering> { arbitrary() } }
impl PartialOrd for F {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &F) -> (r: Option<core::cmp::Ordering>) { self.f.partial_cmp(&o.f) }
    #[verifier::external_body]
    fn lt(&self, o: &F) -> (r: bool) ensures self.num() && o.num() ==> r == (self.val() < o.val()), self.grid() && o.grid() ==> r == (self.h() < o.h()) { self.f < o.f }
    #[verifier::external_body]
    fn le(&self, o: &F) -> (r: bool) ensures self.num() && o.num() ==> r == (self.val() <= o.val()), self.grid() && o.grid() ==> r == (self.h() <= o.h()) { self.f <= o.f }
    #[verifier::external_body]
    fn gt(&self, o: &F) -> (r: bool) ensures self.num() && o.num() ==> r == (self.val() > o.val()), self.grid() && o.grid() ==> r == (self.h() > o.h()) { self.f > o.f }
    #[verifier::external_body]
    fn ge(&self, o: &F) -> (r: bool) ensures self.num() && o.num() ==> r == (self.val() >= o.val()), self.grid() && o.grid() ==> r == (self.h() >= o.h()) { self.f >= o.f }
}
#[verifier::external_body]
pub fn vx_lit(h: i64) -> (r: F) ensures -FMAX() <= h <= FMAX() ==> r.grid() && r.h() == h { F { f: h as f32 / 2.0 } }
#[verifier::external_body]
pub fn vx_f32_any() -> (r: F) { F { f: 0.0 } }
#[verifier::external_body]
pub fn vx_f32_min() -> (r: F) ensures r.num(), !r.grid(), r.val() < -8388608real { F { f: f32::MIN } }
#[verifier::external_body]
pub fn vx_f32_max() -> (r: F) ensures r.num(), !r.grid(), r.val() > 8388608real { F { f: f32::MAX } }
#[verifier::external_body]
pub fn vx_f32_nan() -> (r: F) ensures r.nan() { F { f: f32::NAN } }
pub trait VxAsF32 { spec fn vx_f32_halves(self) -> int; fn vx_as_f32(self) -> (r: F) where Self: Sized ensures -FMAX() <= self.vx_f32_halves() <= FMAX() ==> r.grid() && r.h() == self.vx_f32_halves(); }
impl VxAsF32 for usize { open spec fn vx_f32_halves(self) -> int { 2 * self as int }
    #[verifier::external_body] fn vx_as_f32(self) -> (r: F) { F { f: self as f32 } } }
pub broadcast axiom fn ax_grid(f: F) ensures #[trigger] f.grid() ==> f.num() && f.val() == f.h() as real / 2real && -16777216 <= f.h() <= 16777216;
pub broadcast axiom fn ax_nan(f: F) ensures #[trigger] f.nan() ==> !f.num();
pub broadcast axiom fn ax_quo(a: int, b: int) ensures 0 < b <= 8388608 ==> (#[trigger] quo(a, b) >= 0real) == (a >= 0) && (quo(a, b) > 0real) == (a > 0) && (quo(a, b) > 1real) == (a > b) && (quo(a, b) >= 1real) == (a >= b);
pub broadcast axiom fn ax_quo_mono(a: int, c: int, b: int) requires b > 0, a <= c ensures #[trigger] quo(a, b) <= #[trigger] quo(c, b);
}
use vxf::*;
impl VxConv<F> for F { open spec fn conv(self, r: F) -> bool { r == self } fn vx_conv(self) -> (r: F) { self } }
