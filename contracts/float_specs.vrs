// binary floating point numbers: rounded operations on real values (IEEE 754, round to nearest)
verus! {
pub uninterp spec fn fin(f: f32) -> bool;
pub uninterp spec fn fv(f: f32) -> real;
// the nearest representable value
pub uninterp spec fn rnd(x: real) -> real;
pub open spec fn ceiling() -> real { 1267650600228229401496703205376real } // 2^100, far from an overflow
pub open spec fn exact() -> int { 16777216 } // 2^24: the integers up to it are representable
pub open spec fn times(x: real, y: real) -> real { x * y }
pub axiom fn rnd_grows(x: real, y: real)
    ensures x <= y ==> rnd(x) <= rnd(y);
pub axiom fn rnd_int(n: int)
    ensures -exact() <= n <= exact() ==> rnd(n as real) == (n as real);
pub axiom fn rnd_near(x: real)
    ensures 0real <= x <= ceiling() ==> x - x / 16777216real - 1real / ceiling() <= rnd(x) <= x + x / 16777216real + 1real / ceiling();
pub broadcast axiom fn mul_values(a: f32, b: f32, r: f32)
    requires #[trigger] vstd::std_specs::ops::mul_ensures::<f32>(a, b, r), fin(a), fin(b), -ceiling() <= times(fv(a), fv(b)) <= ceiling(),
    ensures fin(r), fv(r) == rnd(times(fv(a), fv(b)));
// multiplying by 8 changes the exponent only
pub broadcast axiom fn eight_times(a: f32, b: f32, r: f32)
    requires #[trigger] vstd::std_specs::ops::mul_ensures::<f32>(a, b, r),
    ensures
        fin(a) && -ceiling() <= fv(a) <= ceiling() && fin(b) && fv(b) == 8real ==> fin(r) && fv(r) == fv(a) * 8real,
        fin(b) && -ceiling() <= fv(b) <= ceiling() && fin(a) && fv(a) == 8real ==> fin(r) && fv(r) == fv(b) * 8real;
pub broadcast axiom fn mul_allowed(a: f32, b: f32)
    ensures #[trigger] vstd::std_specs::ops::MulSpec::mul_req(a, b);
pub broadcast axiom fn sub_values(a: f32, b: f32, r: f32)
    requires #[trigger] vstd::std_specs::ops::sub_ensures::<f32>(a, b, r), fin(a), fin(b), -ceiling() <= fv(a) - fv(b) <= ceiling(),
    ensures fin(r), fv(r) == rnd(fv(a) - fv(b)),
        // (the fractional part)
        fv(a) >= 0real && fv(b) == (fv(a).floor() as real) ==> fv(r) == fv(a) - fv(b);
pub broadcast axiom fn sub_allowed(a: f32, b: f32)
    ensures #[trigger] vstd::std_specs::ops::SubSpec::sub_req(a, b);
pub axiom fn literals()
    ensures fin(0.0f32), fv(0.0f32) == 0real, fin(0.5f32), fv(0.5f32) == 0.5real, fin(1.0f32), fv(1.0f32) == 1real, fin(2.0f32), fv(2.0f32) == 2real,
        fin(4.0f32), fv(4.0f32) == 4real, fin(7.0f32), fv(7.0f32) == 7real, fin(8.0f32), fv(8.0f32) == 8real;
pub assume_specification [f32::fract] (x: f32) -> (r: f32)
    ensures fin(x) && fv(x) >= 0real ==> fin(r) && fv(r) == fv(x) - (fv(x).floor() as real);
pub assume_specification [f32::floor] (x: f32) -> (r: f32)
    ensures fin(x) ==> fin(r) && fv(r) == (fv(x).floor() as real);
pub assume_specification [f32::trunc] (x: f32) -> (r: f32)
    ensures fin(x) && fv(x) >= 0real ==> fin(r) && fv(r) == (fv(x).floor() as real);
// (to the nearest integer, halves upwards for positive values)
pub assume_specification [f32::round] (x: f32) -> (r: f32)
    ensures fin(x) && fv(x) >= 0real ==> fin(r) && fv(r) == (nearest(fv(x)) as real);
pub open spec fn nearest(x: real) -> int { (x + 0.5real).floor() }
pub trait VrtAs<T>: Sized {
    spec fn gives(&self, r: T) -> bool;
    fn vrt_as(self) -> (r: T) ensures self.gives(r);
}
impl VrtAs<f32> for usize {
    open spec fn gives(&self, r: f32) -> bool { fin(r) && fv(r) == rnd(*self as real) }
    #[verifier::external_body]
    fn vrt_as(self) -> (r: f32) { self as f32 }
}
impl VrtAs<usize> for f32 {
    open spec fn gives(&self, r: usize) -> bool { fin(*self) && 0real <= fv(*self) <= 9223372036854775807real ==> r == fv(*self).floor() }
    #[verifier::external_body]
    fn vrt_as(self) -> (r: usize) { self as usize }
}
}
