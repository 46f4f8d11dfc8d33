// wrapping: the styled chars of composites, and how lines are cut
verus! {
// a char with its flags: bold, italic, strikeout, code
pub type SCh = (char, bool, bool, bool, bool);
pub open spec fn flat1(c: Compound<'_>) -> Seq<SCh> { Seq::new(c.src@.len(), |i: int| (c.src@[i], c.bold, c.italic, c.strikeout, c.code)) }
pub open spec fn flat(s: Seq<Compound<'_>>) -> Seq<SCh> decreases s.len() { if s.len() == 0 { Seq::empty() } else { flat(s.drop_last()) + flat1(s.last()) } }
pub proof fn flat_push(s: Seq<Compound<'_>>, c: Compound<'_>)
    ensures flat(s.push(c)) == flat(s) + flat1(c),
{ assert(s.push(c).drop_last() =~= s); }
pub proof fn flat_take(s: Seq<Compound<'_>>, k: int)
    requires 0 <= k < s.len(),
    ensures flat(s.take(k + 1)) == flat(s.take(k)) + flat1(s[k]),
{ assert(s.take(k + 1).drop_last() =~= s.take(k)); }
// columns of styled chars
pub open spec fn fw(s: Seq<SCh>) -> int decreases s.len() { if s.len() == 0 { 0 } else { fw(s.drop_last()) + chw(s.last().0) } }
pub proof fn fw_add(a: Seq<SCh>, b: Seq<SCh>)
    ensures fw(a + b) == fw(a) + fw(b),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); } else { fw_add(a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); }
}
pub proof fn fw_pos(s: Seq<SCh>)
    ensures fw(s) >= 0,
    decreases s.len(),
{ if s.len() > 0 { fw_pos(s.drop_last()); } }
pub proof fn fw_flat1(c: Compound<'_>, a: int, b: int)
    requires 0 <= a <= b <= c.src@.len(),
    ensures fw(flat1(c).subrange(a, b)) == sw(c.src@.subrange(a, b)),
    decreases b - a,
{
    if a < b {
        fw_flat1(c, a, b - 1);
        assert(flat1(c).subrange(a, b).drop_last() =~= flat1(c).subrange(a, b - 1));
        assert(c.src@.subrange(a, b).drop_last() =~= c.src@.subrange(a, b - 1));
    }
}
pub proof fn fw_flat(s: Seq<Compound<'_>>)
    ensures fw(flat(s)) == ccw(s),
    decreases s.len(),
{
    if s.len() > 0 {
        fw_flat(s.drop_last());
        let c = s.last();
        fw_flat1(c, 0, c.src@.len() as int);
        assert(flat1(c).subrange(0, c.src@.len() as int) =~= flat1(c)); assert(c.src@.subrange(0, c.src@.len() as int) =~= c.src@);
        fw_add(flat(s.drop_last()), flat1(c));
    }
}
pub open spec fn narrow(s: Seq<SCh>, w: int) -> bool { forall|i: int| 0 <= i < s.len() ==> chw(#[trigger] s[i].0) <= w }
pub open spec fn blanks(s: Seq<SCh>, a: int, b: int) -> bool { forall|i: int| a <= i < b ==> blank(#[trigger] s[i].0) }

// ---------------------------------------------------------------- tokens
//@type src/tokens.rs Token
impl<'s> Token<'s> {
    pub open spec fn a(&self) -> int { idx(self.compound.src@, self.start_in_compound as int) }
    pub open spec fn b(&self) -> int { idx(self.compound.src@, self.end_in_compound as int) }
    pub open spec fn chars(&self) -> Seq<char> { self.compound.src@.subrange(self.a(), self.b()) }
    pub open spec fn flat(&self) -> Seq<SCh> { flat1(self.compound).subrange(self.a(), self.b()) }
    pub open spec fn ok(&self, max: int) -> bool {
        &&& boundary(self.compound.src@, self.start_in_compound as int)
        &&& boundary(self.compound.src@, self.end_in_compound as int)
        &&& 0 <= self.a() < self.b() <= self.compound.src@.len()
        &&& self.width == sw(self.chars())
        &&& self.width <= max || self.chars().len() == 1
        &&& self.blank ==> all_blank(self.chars())
    }
}
pub open spec fn tflat(t: Seq<Token<'_>>) -> Seq<SCh> decreases t.len() { if t.len() == 0 { Seq::empty() } else { tflat(t.drop_last()) + t.last().flat() } }
pub proof fn tflat_push(t: Seq<Token<'_>>, k: Token<'_>)
    ensures tflat(t.push(k)) == tflat(t) + k.flat(),
{ assert(t.push(k).drop_last() =~= t); }
pub proof fn tflat_take(t: Seq<Token<'_>>, k: int)
    requires 0 <= k < t.len(),
    ensures tflat(t.take(k + 1)) == tflat(t.take(k)) + t[k].flat(),
{ assert(t.take(k + 1).drop_last() =~= t.take(k)); }
pub proof fn tflat_prefix(t: Seq<Token<'_>>, k: int)
    requires 0 <= k <= t.len(),
    ensures tflat(t.take(k)).len() <= tflat(t).len(), tflat(t.take(k)) == tflat(t).take(tflat(t.take(k)).len() as int),
    decreases t.len() - k,
{
    if k == t.len() { assert(t.take(k) =~= t); } else {
        tflat_prefix(t, k + 1); tflat_take(t, k);
        assert(tflat(t.take(k)) =~= tflat(t.take(k + 1)).take(tflat(t.take(k)).len() as int));
        assert(tflat(t).take(tflat(t.take(k + 1)).len() as int).take(tflat(t.take(k)).len() as int) =~= tflat(t).take(tflat(t.take(k)).len() as int));
    }
}
// std: Option::replace
pub trait VrtOpt<T> { spec fn ov(&self) -> Option<T>; fn vrt_opt_replace(&mut self, t: T) -> (r: Option<T>) ensures r == old(self).ov(), final(self).ov() == Some(t); }
impl<T> VrtOpt<T> for Option<T> {
    open spec fn ov(&self) -> Option<T> { *self }
    fn vrt_opt_replace(&mut self, t: T) -> (r: Option<T>) { let r = self.take(); *self = Some(t); r }
}
// std: char::is_whitespace, char::len_utf8
pub trait VrtChar { spec fn cc(self) -> char; fn vrt_is_blank(self) -> (r: bool) ensures r == blank(self.cc()); fn vrt_len_utf8(self) -> (r: usize) ensures r == clen(self.cc()); }
impl VrtChar for char {
    open spec fn cc(self) -> char { self }
    #[verifier::external_body]
    fn vrt_is_blank(self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn vrt_len_utf8(self) -> (r: usize) { unimplemented!() }
}
//@fn minimad:src/markdown/compound.rs Compound::set_str
//@spec
    ensures *final(self) == (Compound { src: src, ..*old(self) }),
//@endfn
//@fn src/tokens.rs Token::to_compound
//@ret r
//@rule str_slice
//@spec
    requires exists|max: int| self.ok(max),
    ensures r.src@ == self.chars(), flat1(r) == self.flat(), sw(r.src@) == self.width,
//@at body-start
    proof { blen_mono(self.compound.src@, self.a(), self.b()); }
//@at body-end
    proof { assert(flat1(compound) =~= self.flat()); }
//@endfn
// the token being built
pub open spec fn cur(t: Option<Token<'_>>) -> Seq<SCh> { match t { Some(t) => t.flat(), None => Seq::empty() } }
pub open spec fn cur_ok(t: Option<Token<'_>>, c: Compound<'_>, k: int, max: int) -> bool {
    match t { Some(t) => t.compound == c && t.ok(max) && t.b() == k && t.end_in_compound == blen(c.src@.take(k)) && t.start_in_compound == blen(c.src@.take(t.a())), None => k == 0 }
}
pub proof fn char_in(src: Seq<char>, k: int)
    requires 0 <= k < src.len(),
    ensures 0 <= blen(src.take(k)), blen(src.take(k)) + clen(src[k]) <= blen(src), 1 <= clen(src[k]) <= 4, 0 <= chw(src[k]) <= 2,
{
    blen_take(src, k); clen_bounds(src[k]); uwidth_max(src[k]); idx_at(src, k);
    blen_mono(src, k + 1, src.len() as int); assert(src.take(src.len() as int) =~= src);
}
pub proof fn token_ext(t: Token<'_>, n: Token<'_>, k: int, max: int)
    requires cur_ok(Some(t), t.compound, k, max), 0 <= k < t.compound.src@.len(),
        n == (Token { width: n.width, end_in_compound: n.end_in_compound, ..t }), n.width == t.width + chw(t.compound.src@[k]), n.width <= max,
        n.end_in_compound == t.end_in_compound + clen(t.compound.src@[k]), n.blank ==> blank(t.compound.src@[k]),
    ensures cur_ok(Some(n), t.compound, k + 1, max), n.flat() == t.flat().push(flat1(t.compound)[k]),
{
    let src = t.compound.src@;
    char_in(src, k); blen_take(src, k); idx_at(src, k + 1);
    sw_push(t.chars(), src[k]);
    assert(n.chars() =~= t.chars().push(src[k]));
    assert(n.flat() =~= t.flat().push(flat1(t.compound)[k]));
    if n.blank { assert forall|i: int| 0 <= i < n.chars().len() implies blank(#[trigger] n.chars()[i]) by { if i < t.chars().len() { assert(blank(t.chars()[i])); } } }
}
pub proof fn token_new(n: Token<'_>, k: int, max: int)
    requires 0 <= k < n.compound.src@.len(), n.start_in_compound == blen(n.compound.src@.take(k)), n.end_in_compound == n.start_in_compound + clen(n.compound.src@[k]),
        n.width == chw(n.compound.src@[k]), n.blank ==> blank(n.compound.src@[k]),
    ensures cur_ok(Some(n), n.compound, k + 1, max), n.flat() == seq![flat1(n.compound)[k]],
{
    let src = n.compound.src@;
    char_in(src, k); blen_take(src, k); idx_at(src, k + 1); idx_at(src, k);
    reveal_with_fuel(sw, 2);
    assert(n.chars() =~= seq![src[k]]); assert(n.chars().drop_last() =~= Seq::<char>::empty());
    assert(n.flat() =~= seq![flat1(n.compound)[k]]);
}
//@fn src/tokens.rs tokenize
//@ret r
//@rule width
//@rule method replace vrt_opt_replace
//@rule method is_whitespace vrt_is_blank
//@rule method len_utf8 vrt_len_utf8
//@spec
    ensures tflat(r@) == flat(compounds@), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).ok(max_token_width as int),
//@loop 0 it
    invariant
        it.seq().len() == compounds@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *it.seq()[i] == compounds@[i],
        tflat(tokens@) == flat(compounds@.take(it.index@ as int)),
        forall|i: int| 0 <= i < tokens@.len() ==> (#[trigger] tokens@[i]).ok(max_token_width as int),
//@at loop 0 start
    let ghost f0 = tflat(tokens@);
    let ghost src = compound.src@;
    let ghost ci = it.index@ as int;
    proof { str_max(compound.src); }
//@loop 1 ic
    invariant
        indexed(src, ic.seq()), src == compound.src@, blen(src) <= 0x7fff_ffff_ffff_ffff,
        forall|i: int| 0 <= i < tokens@.len() ==> (#[trigger] tokens@[i]).ok(max_token_width as int),
        tflat(tokens@) + cur(token) =~= f0 + flat1(*compound).take(ic.index@ as int),
        cur_ok(token, *compound, ic.index@ as int, max_token_width as int),
//@at loop 1 start
    let ghost t0 = token;
    let ghost k0 = tokens@;
    let ghost k = ic.index@ as int;
    proof {
        char_in(src, k);
        if let Some(t) = t0 { sw_max(t.chars()); blen_zero(src); tflat_push(k0, t); assert(t.chars().len() <= src.len()); }
    }
//@at loop 1 end
    proof {
        let t1 = token.unwrap();
        assert(flat1(*compound).take(k + 1) =~= flat1(*compound).take(k).push(flat1(*compound)[k]));
        let x = flat1(*compound)[k];
        match t0 {
            Some(t) if tokens@.len() == k0.len() => { token_ext(t, t1, k, max_token_width as int); assert(tflat(k0) + t.flat().push(x) =~= (tflat(k0) + t.flat()).push(x)); }
            Some(t) => { token_new(t1, k, max_token_width as int); assert(tokens@ == k0.push(t)); assert(tflat(tokens@) + seq![x] =~= tflat(tokens@).push(x)); }
            None => { token_new(t1, k, max_token_width as int); assert(tokens@ == k0); assert(k == 0); assert(tflat(tokens@) + seq![x] =~= (tflat(tokens@) + Seq::empty()).push(x)); }
        }
    }
//@at loop 0 end
    proof {
        flat_take(compounds@, ci);
        assert(flat1(*compound).take(src.len() as int) =~= flat1(*compound));
        assert(tflat(tokens@) =~= f0 + flat1(*compound));
    }
//@at loop 1 after
    let ghost k1 = tokens@;
    let ghost t1 = token;
    proof { if let Some(t) = t1 { tflat_push(k1, t); } }
//@at body-end
    proof { assert(compounds@.take(compounds@.len() as int) =~= compounds@); }
//@endfn
}
