// strings: a str is seen as its sequence of chars; byte offsets are the sums of the
// lengths of the chars; columns are the sums of the widths of the chars
verus! {
use vstd::string::*;
use vstd::utf8::{encode_utf8, encode_scalar, encode_utf8_push};
pub open spec fn clen(c: char) -> int { encode_scalar(c as u32).len() as int }
pub open spec fn blen(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 { 0 } else { blen(s.drop_last()) + clen(s.last()) } }
pub proof fn blen_utf8(s: Seq<char>)
    ensures blen(s) == encode_utf8(s).len(),
    decreases s.len(),
{
    if s.len() > 0 {
        blen_utf8(s.drop_last());
        assert(s.drop_last().push(s.last()) =~= s);
        encode_utf8_push(s.drop_last(), s.last());
    }
}
pub broadcast proof fn str_blen(s: &str)
    ensures #[trigger] s.spec_bytes().len() == blen(s@),
{ blen_utf8(s@); }
pub broadcast proof fn clen_bounds(c: char)
    ensures 1 <= #[trigger] clen(c) <= 4,
{}
pub broadcast proof fn blen_push(s: Seq<char>, c: char)
    ensures #[trigger] blen(s.push(c)) == blen(s) + clen(c),
{ assert(s.push(c).drop_last() =~= s); }
pub proof fn blen_take(s: Seq<char>, k: int)
    requires 0 <= k < s.len(),
    ensures blen(s.take(k + 1)) == blen(s.take(k)) + clen(s[k]),
{ assert(s.take(k + 1) =~= s.take(k).push(s[k])); blen_push(s.take(k), s[k]); }
pub proof fn blen_mono(s: Seq<char>, i: int, j: int)
    requires 0 <= i <= j <= s.len(),
    ensures blen(s.take(j)) >= blen(s.take(i)) + (j - i),
    decreases j - i,
{
    if i < j { blen_mono(s, i, j - 1); blen_take(s, j - 1); clen_bounds(s[j - 1]); }
}
pub proof fn blen_inj(s: Seq<char>, i: int, j: int)
    requires 0 <= i <= s.len(), 0 <= j <= s.len(), blen(s.take(i)) == blen(s.take(j)),
    ensures i == j,
{
    if i < j { blen_mono(s, i, j); }
    if j < i { blen_mono(s, j, i); }
}
pub proof fn blen_add(a: Seq<char>, b: Seq<char>)
    ensures blen(a + b) == blen(a) + blen(b),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); } else {
        blen_add(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
    }
}
pub proof fn blen_zero(s: Seq<char>)
    ensures blen(s) >= s.len(), blen(s) == 0 <==> s.len() == 0,
{
    blen_mono(s, 0, s.len() as int);
    assert(s.take(s.len() as int) =~= s);
    assert(s.take(0) =~= Seq::<char>::empty());
}
// b is the byte offset of the boundary before the k-th char
pub open spec fn at(s: Seq<char>, b: int, k: int) -> bool { 0 <= k <= s.len() && blen(s.take(k)) == b }
pub open spec fn boundary(s: Seq<char>, b: int) -> bool { exists|k: int| at(s, b, k) }
pub open spec fn idx(s: Seq<char>, b: int) -> int { choose|k: int| at(s, b, k) }
pub proof fn idx_at(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(),
    ensures boundary(s, blen(s.take(k))), idx(s, blen(s.take(k))) == k, blen(s.take(k)) >= 0,
{
    assert(at(s, blen(s.take(k)), k));
    blen_inj(s, idx(s, blen(s.take(k))), k);
    blen_zero(s.take(k));
}
pub proof fn idx_ends(s: Seq<char>)
    ensures boundary(s, 0), idx(s, 0) == 0, boundary(s, blen(s)), idx(s, blen(s)) == s.len(),
{
    idx_at(s, 0); idx_at(s, s.len() as int);
    assert(s.take(s.len() as int) =~= s);
    assert(s.take(0) =~= Seq::<char>::empty());
}
pub proof fn boundary_idx(s: Seq<char>, b: int)
    requires boundary(s, b),
    ensures at(s, b, idx(s, b)), 0 <= idx(s, b) <= s.len(),
{}
// std: str::char_indices, with all the items computed at once
pub open spec fn indexed(s: Seq<char>, v: Seq<(usize, char)>) -> bool {
    v.len() == s.len() && forall|k: int| 0 <= k < v.len() ==> (#[trigger] v[k]).1 == s[k] && v[k].0 == blen(s.take(k))
}
// unicode-width: the width of a char, and (assumption) of a str as the sum of the ones of its chars
pub uninterp spec fn uwidth(c: char) -> Option<usize>;
pub open spec fn chw(c: char) -> int { match uwidth(c) { Some(w) => w as int, None => 0 } }
pub open spec fn sw(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 { 0 } else { sw(s.drop_last()) + chw(s.last()) } }
pub axiom fn uwidth_max(c: char)
    ensures uwidth(c) matches Some(w) ==> w <= 2;
pub axiom fn uwidth_ascii(c: char)
    ensures 0x20 <= c as u32 <= 0x7e ==> uwidth(c) == Some(1usize);
pub broadcast proof fn sw_push(s: Seq<char>, c: char)
    ensures #[trigger] sw(s.push(c)) == sw(s) + chw(c),
{ assert(s.push(c).drop_last() =~= s); }
pub proof fn sw_take(s: Seq<char>, k: int)
    requires 0 <= k < s.len(),
    ensures sw(s.take(k + 1)) == sw(s.take(k)) + chw(s[k]),
{ assert(s.take(k + 1) =~= s.take(k).push(s[k])); sw_push(s.take(k), s[k]); }
pub proof fn sw_add(a: Seq<char>, b: Seq<char>)
    ensures sw(a + b) == sw(a) + sw(b),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); } else {
        sw_add(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
    }
}
pub proof fn sw_max(s: Seq<char>)
    ensures 0 <= sw(s) <= 2 * s.len(),
    decreases s.len(),
{
    if s.len() > 0 { sw_max(s.drop_last()); uwidth_max(s.last()); }
}
pub proof fn sw_mono(s: Seq<char>, i: int, j: int)
    requires 0 <= i <= j <= s.len(),
    ensures sw(s.take(i)) <= sw(s.take(j)), sw(s.subrange(i, j)) == sw(s.take(j)) - sw(s.take(i)),
{
    assert(s.take(j) =~= s.take(i) + s.subrange(i, j));
    sw_add(s.take(i), s.subrange(i, j));
    sw_max(s.subrange(i, j));
}
// std: a str is at most isize::MAX bytes long
pub axiom fn str_max(s: &str)
    ensures blen(s@) <= 0x7fff_ffff_ffff_ffff;
pub open spec fn replaced(s: Seq<char>, c: char, by: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { s } else { replaced(s.drop_last(), c, by) + (if s.last() == c { by } else { seq![s.last()] }) }
}
pub proof fn replaced_none(s: Seq<char>, c: char, by: Seq<char>)
    requires forall|i: int| 0 <= i < s.len() ==> s[i] != c,
    ensures replaced(s, c, by) == s,
    decreases s.len(),
{
    if s.len() > 0 { replaced_none(s.drop_last(), c, by); assert(s.drop_last() + seq![s.last()] =~= s); }
}
// std: char::is_whitespace (uninterpreted)
pub uninterp spec fn blank(c: char) -> bool;
pub open spec fn all_blank(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> blank(#[trigger] s[i]) }
// Iterator::nth on the items of char_indices
pub trait VrtNth<T> { fn vrt_nth(&self, n: usize) -> (r: Option<T>) ensures self.nv(n, r); spec fn nv(&self, n: usize, r: Option<T>) -> bool; }
impl VrtNth<(usize, char)> for Vec<(usize, char)> {
    open spec fn nv(&self, n: usize, r: Option<(usize, char)>) -> bool { r == (if n < self@.len() { Some(self@[n as int]) } else { None }) }
    fn vrt_nth(&self, n: usize) -> (r: Option<(usize, char)>) { if n < self.len() { Some(self[n]) } else { None } }
}
pub trait VrtStr {
    spec fn sv(&self) -> Seq<char>;
    // std: &s[a..b] panics out of the char boundaries
    fn vrt_slice<'a>(&'a self, a: usize, b: usize) -> (r: &'a str)
        requires boundary(self.sv(), a as int), boundary(self.sv(), b as int), a <= b,
        ensures r@ == self.sv().subrange(idx(self.sv(), a as int), idx(self.sv(), b as int));
    fn vrt_slice_from<'a>(&'a self, a: usize) -> (r: &'a str)
        requires boundary(self.sv(), a as int),
        ensures r@ == self.sv().skip(idx(self.sv(), a as int));
    // std: str::replace of a char by a str
    fn vrt_replace(&self, c: char, by: &str) -> (r: String) ensures r@ == replaced(self.sv(), c, by@);
    fn vrt_width(&self) -> (r: usize) ensures r == sw(self.sv());
    fn vrt_chars_count(&self) -> (r: usize) ensures r == self.sv().len();
    fn vrt_all_blank(&self) -> (r: bool) ensures r == all_blank(self.sv());
    fn vrt_char_indices(&self) -> (r: Vec<(usize, char)>) ensures indexed(self.sv(), r@);
}
impl VrtStr for str {
    open spec fn sv(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vrt_slice<'a>(&'a self, a: usize, b: usize) -> (r: &'a str) { unimplemented!() }
    #[verifier::external_body]
    fn vrt_slice_from<'a>(&'a self, a: usize) -> (r: &'a str) { unimplemented!() }
    #[verifier::external_body]
    fn vrt_replace(&self, c: char, by: &str) -> (r: String) { unimplemented!() }
    #[verifier::external_body]
    fn vrt_width(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body]
    fn vrt_chars_count(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body]
    fn vrt_all_blank(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn vrt_char_indices(&self) -> (r: Vec<(usize, char)>) { unimplemented!() }
}
impl VrtStr for String {
    open spec fn sv(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vrt_slice<'a>(&'a self, a: usize, b: usize) -> (r: &'a str) { unimplemented!() }
    #[verifier::external_body]
    fn vrt_slice_from<'a>(&'a self, a: usize) -> (r: &'a str) { unimplemented!() }
    #[verifier::external_body]
    fn vrt_replace(&self, c: char, by: &str) -> (r: String) { unimplemented!() }
    #[verifier::external_body]
    fn vrt_width(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body]
    fn vrt_chars_count(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body]
    fn vrt_all_blank(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn vrt_char_indices(&self) -> (r: Vec<(usize, char)>) { unimplemented!() }
}
pub struct UnicodeWidthChar;
impl UnicodeWidthChar {
    #[verifier::external_body]
    pub fn width(c: char) -> (r: Option<usize>) ensures r == uwidth(c) { unimplemented!() }
}
pub trait VrtCharWidth { spec fn cv(self) -> char; fn vrt_width(self) -> (r: Option<usize>) ensures r == uwidth(self.cv()); }
impl VrtCharWidth for char {
    open spec fn cv(self) -> char { self }
    #[verifier::external_body]
    fn vrt_width(self) -> (r: Option<usize>) { unimplemented!() }
}
// std: String
pub assume_specification [String::len] (s: &String) -> (r: usize)
    ensures r == blen(s@);
pub assume_specification [String::with_capacity] (n: usize) -> (r: String)
    ensures r@ == Seq::<char>::empty();
pub assume_specification [String::truncate] (s: &mut String, n: usize)
    requires boundary(old(s)@, n as int) || n >= blen(old(s)@),
    ensures final(s)@ == (if boundary(old(s)@, n as int) { old(s)@.take(idx(old(s)@, n as int)) } else { old(s)@ });
pub axiom fn string_max(s: &String)
    ensures blen(s@) <= 0x7fff_ffff_ffff_ffff;
pub fn vrt_string_of_char(c: char) -> (r: String)
    ensures r@ == seq![c],
{ let mut s = String::new(); s.push(c); proof { assert(s@ =~= seq![c]); } s }
pub proof fn blen_one(c: char)
    ensures blen(seq![c]) == clen(c),
{ reveal_with_fuel(blen, 2); assert(seq![c].drop_last() =~= Seq::<char>::empty()); }
}
