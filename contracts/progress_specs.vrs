// progress bars
verus! {
//@const src/views/progress.rs CHARS | CHARS@ == blocks()
//@type src/views/progress.rs ProgressBar
#[verifier::external_body]
pub fn vrt_repeat_char(c: char, n: usize) -> (r: String)
    ensures r@ == Seq::new(n as nat, |i: int| c),
{ unimplemented!() }
#[verifier::external_body]
pub struct FmtError { _p: core::marker::PhantomData<()> }
pub type FmtResult = core::result::Result<(), FmtError>;
#[verifier::external_body]
pub struct Formatter<'a> { _p: core::marker::PhantomData<&'a ()> }
impl<'a> Formatter<'a> {
    pub uninterp spec fn out(&self) -> Seq<char>;
    pub uninterp spec fn plain(&self) -> bool; // no width nor precision
    #[verifier::external_body]
    pub fn pad(&mut self, s: &str) -> (r: FmtResult)
        ensures final(self).plain() == old(self).plain(), r.is_ok() && old(self).plain() ==> final(self).out() == old(self).out() + s@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write_str(&mut self, s: &str) -> (r: FmtResult)
        ensures final(self).plain() == old(self).plain(), r.is_ok() ==> final(self).out() == old(self).out() + s@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write_char(&mut self, c: char) -> (r: FmtResult)
        ensures final(self).plain() == old(self).plain(), r.is_ok() ==> final(self).out() == old(self).out().push(c),
    { unimplemented!() }
}
// the filled part, in eighths of chars
pub open spec fn eighths(mp: real) -> int { mp.floor() * 8 + nearest((mp - (mp.floor() as real)) * 8real) }
pub open spec fn blocks() -> Seq<char> { seq!['▏', '▎', '▍', '▌', '▋', '▊', '▉', '█'] }
// full blocks, then one for the remaining eighths, if any
pub open spec fn bar(n: int) -> Seq<char> {
    let full = Seq::new((n / 8) as nat, |i: int| '█');
    if n % 8 == 0 { full } else { full.push(blocks()[n % 8 - 1]) }
}
impl ProgressBar {
    pub open spec fn ok(&self) -> bool { fin(self.part) && 0real <= fv(self.part) <= 1real && self.chars_len <= exact() }
    pub open spec fn filled(&self) -> int { eighths(rnd(times(self.chars_len as real, fv(self.part)))) }
}
pub proof fn product_bounds(len: int, p: real)
    requires 0 <= len <= exact(), 0real <= p <= 1real,
    ensures 0real <= times(len as real, p) <= (len as real), 0real <= rnd(times(len as real, p)) <= (len as real),
{
    assert(0real <= (len as real) * p <= (len as real)) by (nonlinear_arith) requires 0real <= p <= 1real, 0 <= len;
    rnd_grows(0real, (len as real) * p);
    rnd_grows((len as real) * p, len as real);
    rnd_int(0);
    rnd_int(len);
}
// C21: a bar isn't longer than its length
pub proof fn bar_fits(b: ProgressBar)
    requires b.ok(),
    ensures 0 <= b.filled() <= 8 * b.chars_len, bar(b.filled()).len() <= b.chars_len,
{
    product_bounds(b.chars_len as int, fv(b.part));
}
// it's full for a part of 1 and empty for a part of 0
pub proof fn bar_ends(b: ProgressBar)
    requires b.ok(),
    ensures fv(b.part) == 1real ==> bar(b.filled()) =~= Seq::new(b.chars_len as nat, |i: int| '█'), fv(b.part) == 0real ==> bar(b.filled()).len() == 0,
{
    rnd_int(b.chars_len as int);
    rnd_int(0);
    let x = (b.chars_len as real) * fv(b.part);
    if fv(b.part) == 1real { assert(x == (b.chars_len as real)); assert(b.filled() == 8 * b.chars_len); }
    if fv(b.part) == 0real { assert(x == 0real); }
}
// it grows with the part
pub proof fn bar_grows(a: ProgressBar, b: ProgressBar)
    requires a.ok(), b.ok(), a.chars_len == b.chars_len, fv(a.part) <= fv(b.part),
    ensures a.filled() <= b.filled(),
{
    let l = a.chars_len as real;
    let (p, q) = (fv(a.part), fv(b.part));
    assert(l * p <= l * q) by (nonlinear_arith) requires p <= q, l >= 0real;
    rnd_grows(l * p, l * q);
}
// the filled part is the right one, to half an eighth of a char (and the precision of floats)
pub proof fn bar_right(b: ProgressBar)
    requires b.ok(),
    ensures
        ({ let d = (b.filled() as real) - 8real * ((b.chars_len as real) * fv(b.part));
           b.chars_len <= 65536 ==> -0.54real <= d <= 0.54real }),
{
    product_bounds(b.chars_len as int, fv(b.part));
    rnd_near((b.chars_len as real) * fv(b.part));
}
// what the code writes for the cells
pub open spec fn written(full: int, rem: int) -> Seq<char> {
    let s = Seq::new(full as nat, |i: int| '█');
    if rem == 0 { s } else { s.push(blocks()[rem - 1]) }
}
pub proof fn split(m: real)
    requires m >= 0real,
    ensures
        ({ let e = m - (m.floor() as real); let r = nearest(e * 8real);
           0 <= r <= 8 && bar(eighths(m)) == written(m.floor(), r) }),
{
    let e = m - (m.floor() as real);
    let r = nearest(e * 8real);
    assert(0real <= e < 1real);
    assert(0real <= e * 8real < 8real);
    assert(0 <= r <= 8);
    let n = eighths(m);
    let f = m.floor();
    assert(n == f * 8 + r);
    if r == 8 {
        assert(n / 8 == f + 1 && n % 8 == 0);
        assert(Seq::new((f + 1) as nat, |i: int| '█') =~= Seq::new(f as nat, |i: int| '█').push('█'));
    } else {
        assert(n / 8 == f && n % 8 == r);
    }
}
//@fn src/views/progress.rs ProgressBar::new
//@ret r
//@spec
    ensures r.part == part, r.chars_len == chars_len,
//@endfn
//@fn src/views/progress.rs <fmt::Display for ProgressBar>::fmt
//@header impl ProgressBar
//@rule float_casts
//@attrs #[verifier::loop_isolation(false)]
//@ret r
//@spec
    requires self.ok(),
    ensures r.is_ok() && old(f).plain() ==> final(f).out() == old(f).out() + bar(self.filled()),
//@at body-start
    hide(bar);
    hide(eighths);
    hide(times);
    broadcast use {eight_times, mul_values, mul_allowed, sub_values, sub_allowed};
    proof {
        literals();
        product_bounds(self.chars_len as int, fv(self.part));
        rnd_int(self.chars_len as int);
    }
    let ghost m = rnd(times(self.chars_len as real, fv(self.part)));
    let ghost e = m - (m.floor() as real);
    proof {
        rnd_int(m.floor());
        split(m);
    }
//@loop 0 it
    invariant s@ =~= Seq::new(it.index@ as nat, |i: int| '█'),
//@at before call pad 0
    proof {
        assert(s@ =~= written(m.floor(), nearest(e * 8real)));
    }
//@endfn
}
