// style texts
verus! {
//@type src/parse/mod.rs StyleToken derive=Structural,PartialEq,Eq,Clone,Copy
//@type src/parse/mod.rs ParseStyleTokenError
//@type src/parse/parse_color.rs ParseColorError
//@type src/parse/parse_attribute.rs ParseAttributeError
//@type src/parse/parse_align.rs ParseAlignError
// minimad's derived Default
impl Default for Alignment { fn default() -> (r: Self) ensures r == Alignment::Unspecified { Alignment::Unspecified } }
// ------------------------------------------------------------- the meaning of a sequence of tokens
pub open spec fn is_col(t: StyleToken) -> bool { t is Color || t is None }
pub open spec fn has_col(t: Seq<StyleToken>) -> bool { exists|i: int| 0 <= i < t.len() && is_col(#[trigger] t[i]) }
// the first color, or none, is the foreground
pub open spec fn fg_of(t: Seq<StyleToken>) -> Option<Color> decreases t.len() {
    if t.len() == 0 { None } else if has_col(t.drop_last()) { fg_of(t.drop_last()) } else { match t.last() { StyleToken::Color(c) => Some(c), _ => None } }
}
// the other colors are for the background (the last one wins)
pub open spec fn bg_of(t: Seq<StyleToken>) -> Option<Color> decreases t.len() {
    if t.len() == 0 { None } else { match t.last() { StyleToken::Color(c) => if has_col(t.drop_last()) { Some(c) } else { bg_of(t.drop_last()) }, _ => bg_of(t.drop_last()) } }
}
pub open spec fn attrs_of(t: Seq<StyleToken>) -> u32 decreases t.len() {
    if t.len() == 0 { 0 } else { match t.last() { StyleToken::Attribute(a) => attrs_of(t.drop_last()) | abits(a), _ => attrs_of(t.drop_last()) } }
}
pub open spec fn align_of(t: Seq<StyleToken>) -> Alignment decreases t.len() {
    if t.len() == 0 { Alignment::Unspecified } else { match t.last() { StyleToken::Align(a) => a, _ => align_of(t.drop_last()) } }
}
// the numbers
pub open spec fn dims_of(t: Seq<StyleToken>) -> Seq<int> decreases t.len() {
    if t.len() == 0 { Seq::empty() } else { match t.last() { StyleToken::Dimension(d) => dims_of(t.drop_last()).push(d as int), _ => dims_of(t.drop_last()) } }
}
pub open spec fn left_of(t: Seq<StyleToken>) -> int { let d = dims_of(t); if d.len() > 0 { d[0] } else { 0 } }
pub open spec fn right_of(t: Seq<StyleToken>) -> int { let d = dims_of(t); if d.len() > 1 { d.last() } else { 0 } }
pub open spec fn style_of(t: Seq<StyleToken>) -> CompoundStyle { sty(fg_of(t), bg_of(t), attrs_of(t)) }
// the first char
pub open spec fn char_of(t: Seq<StyleToken>) -> Option<char> decreases t.len() {
    if t.len() == 0 { None } else { match char_of(t.drop_last()) { Some(c) => Some(c), None => match t.last() { StyleToken::Char(c) => Some(c), _ => None } } }
}
pub proof fn has_col_next(t: Seq<StyleToken>, k: int)
    requires 0 <= k < t.len(),
    ensures has_col(t.take(k + 1)) == (has_col(t.take(k)) || is_col(t[k])), t.take(k + 1).drop_last() == t.take(k), t.take(k + 1).last() == t[k],
{
    let a = t.take(k); let b = t.take(k + 1);
    assert(b.drop_last() =~= a);
    if has_col(a) { let i = choose|i: int| 0 <= i < a.len() && is_col(#[trigger] a[i]); assert(b[i] == a[i]); }
    if is_col(t[k]) { assert(is_col(b[k])); }
    if has_col(b) { let i = choose|i: int| 0 <= i < b.len() && is_col(#[trigger] b[i]); if i < k { assert(a[i] == b[i]); } }
}
pub trait VrtFromTokens: Sized {
    spec fn from_tokens(t: Seq<StyleToken>, r: Self) -> bool;
    fn vrt_of(t: &[StyleToken]) -> (r: Self) ensures Self::from_tokens(t@, r);
}
impl VrtFromTokens for CompoundStyle {
    open spec fn from_tokens(t: Seq<StyleToken>, r: Self) -> bool { r == style_of(t) }
    fn vrt_of(t: &[StyleToken]) -> (r: Self) { CompoundStyle::vrt_from(t) }
}
impl VrtFromTokens for LineStyle {
    open spec fn from_tokens(t: Seq<StyleToken>, r: Self) -> bool {
        r.compound_style == style_of(t) && r.align == align_of(t) && r.left_margin == left_of(t) && r.right_margin == right_of(t)
    }
    fn vrt_of(t: &[StyleToken]) -> (r: Self) { LineStyle::vrt_from(t) }
}
// Into is From
pub trait VrtInto { spec fn tks(&self) -> Seq<StyleToken>; fn vrt_into<T: VrtFromTokens>(self) -> (r: T) where Self: Sized ensures T::from_tokens(self.tks(), r); }
impl<'a> VrtInto for &'a [StyleToken] {
    open spec fn tks(&self) -> Seq<StyleToken> { self@ }
    fn vrt_into<T: VrtFromTokens>(self) -> (r: T) { T::vrt_of(self) }
}
//@fn src/parse/parse_compound_style.rs <From<&[StyleToken]> for CompoundStyle>::from
//@header impl CompoundStyle
//@as vrt_from
//@ret r
//@spec
    ensures r == style_of(tokens@),
//@at body-start
    proof { assert(tokens@.take(0) =~= Seq::<StyleToken>::empty()); }
//@loop 0 it
    invariant it.seq().map_values(|t: &StyleToken| *t) == tokens@, style == style_of(tokens@.take(it.index@)), fg_set == has_col(tokens@.take(it.index@)),
//@at loop 0 start
    proof { has_col_next(tokens@, it.index@); assert(*token == tokens@[it.index@]); }
//@at loop 0 after
    proof { assert(tokens@.take(tokens@.len() as int) =~= tokens@); }
//@endfn
//@fn src/parse/parse_line_style.rs <From<&[StyleToken]> for LineStyle>::from
//@header impl LineStyle
//@as vrt_from
//@ret r
//@rule method into vrt_into
//@spec
    ensures LineStyle::from_tokens(tokens@, r),
//@at body-start
    proof { assert(tokens@.take(0) =~= Seq::<StyleToken>::empty()); }
//@loop 0 it
    invariant it.seq().map_values(|t: &StyleToken| *t) == tokens@, align == align_of(tokens@.take(it.index@)), 
        ({ let d = dims_of(tokens@.take(it.index@));
        &&& left_margin == (if d.len() > 0 { Some(d[0] as u16) } else { None::<u16> })
        &&& right_margin == (if d.len() > 1 { Some(d.last() as u16) } else { None::<u16> })
        &&& forall|i: int| 0 <= i < d.len() ==> 0 <= #[trigger] d[i] < 65536 }),
//@at loop 0 start
    proof { has_col_next(tokens@, it.index@); assert(*token == tokens@[it.index@]); }
//@at loop 0 after
    proof { assert(tokens@.take(tokens@.len() as int) =~= tokens@); }
//@endfn
// ------------------------------------------------------------- the tokens of a style
//@const src/compound_style.rs ATTRIBUTES | ATTRIBUTES@ == known()
pub open spec fn known() -> Seq<Attribute> {
    seq![Attribute::Bold, Attribute::Dim, Attribute::Italic, Attribute::Underlined, Attribute::Reverse, Attribute::CrossedOut, Attribute::Encircled, Attribute::OverLined]
}
// the k first attributes which are in a set
pub open spec fn attr_tokens(bits: u32, k: int) -> Seq<StyleToken> decreases k {
    if k <= 0 { Seq::empty() } else if bits & abits(known()[k - 1]) != 0 { attr_tokens(bits, k - 1).push(StyleToken::Attribute(known()[k - 1])) } else { attr_tokens(bits, k - 1) }
}
pub open spec fn color_tokens(s: CompoundStyle) -> Seq<StyleToken> {
    match (s.fg(), s.bg()) {
        (Some(f), Some(b)) => seq![StyleToken::Color(f), StyleToken::Color(b)],
        (Some(f), None) => seq![StyleToken::Color(f)],
        (None, Some(b)) => seq![StyleToken::None, StyleToken::Color(b)],
        (None, None) => Seq::empty(),
    }
}
pub open spec fn style_tokens(s: CompoundStyle) -> Seq<StyleToken> { color_tokens(s) + attr_tokens(s.attributes(), 8) }
pub open spec fn dim(n: usize) -> StyleToken { StyleToken::Dimension((if n < 65535 { n as int } else { 65535 }) as u16) }
pub open spec fn line_tokens(s: LineStyle) -> Seq<StyleToken> {
    style_tokens(s.compound_style) + (seq![StyleToken::Align(s.align)] + (if s.left_margin > 0 || s.right_margin > 0 { seq![dim(s.left_margin), dim(s.right_margin)] } else { Seq::empty() }))
}
pub open spec fn char_tokens(s: StyledChar) -> Seq<StyleToken> { seq![StyleToken::Char(s.nude_char)] + style_tokens(s.compound_style) }
//@fn src/parse/parse_compound_style.rs <PushStyleTokens for CompoundStyle>::push_style_tokens
//@header impl CompoundStyle
//@spec
    ensures final(tokens)@ == old(tokens)@ + style_tokens(*self),
//@at loop 0 before
    let ghost t0 = tokens@;
    proof { assert(t0 =~= old(tokens)@ + color_tokens(*self)); assert(t0 + attr_tokens(self.attributes(), 0) =~= t0); }
//@loop 0 it
    invariant it.seq().map_values(|t: &Attribute| *t) == known(), tokens@ == t0 + attr_tokens(self.attributes(), it.index@),
//@at loop 0 end
    proof { assert(attr == known()[it.index@]); assert(tokens@ =~= t0 + attr_tokens(self.attributes(), it.index@ + 1)); }
//@at loop 0 after
    proof { assert(tokens@ =~= old(tokens)@ + style_tokens(*self)); }
//@endfn
//@fn src/parse/parse_line_style.rs <PushStyleTokens for LineStyle>::push_style_tokens
//@header impl LineStyle
//@spec
    ensures final(tokens)@ =~= old(tokens)@ + line_tokens(*self),
//@endfn
//@fn src/parse/parse_styled_char.rs <PushStyleTokens for StyledChar>::push_style_tokens
//@header impl StyledChar
//@spec
    ensures final(tokens)@ =~= old(tokens)@ + char_tokens(*self),
//@endfn
pub trait PushStyleTokens {
    spec fn tokens(&self) -> Seq<StyleToken>;
    fn vrt_push_tokens(&self, tokens: &mut Vec<StyleToken>)
        ensures final(tokens)@ == old(tokens)@ + self.tokens();
}
impl PushStyleTokens for CompoundStyle {
    open spec fn tokens(&self) -> Seq<StyleToken> { style_tokens(*self) }
    fn vrt_push_tokens(&self, tokens: &mut Vec<StyleToken>) { self.push_style_tokens(tokens) }
}
impl PushStyleTokens for LineStyle {
    open spec fn tokens(&self) -> Seq<StyleToken> { line_tokens(*self) }
    fn vrt_push_tokens(&self, tokens: &mut Vec<StyleToken>) { self.push_style_tokens(tokens) }
}
impl PushStyleTokens for StyledChar {
    open spec fn tokens(&self) -> Seq<StyleToken> { char_tokens(*self) }
    fn vrt_push_tokens(&self, tokens: &mut Vec<StyleToken>) { self.push_style_tokens(tokens) }
}
// ------------------------------------------------------------- back from the tokens
// only the attributes which can be written
pub open spec fn known_bits(bits: u32) -> u32 {
    bits & (abits(Attribute::Bold) | abits(Attribute::Dim) | abits(Attribute::Italic) | abits(Attribute::Underlined) | abits(Attribute::Reverse) | abits(Attribute::CrossedOut) | abits(Attribute::Encircled) | abits(Attribute::OverLined))
}
pub open spec fn plain_style(s: CompoundStyle) -> bool { s.object_style.underline_color is None && known_bits(s.attributes()) == s.attributes() }
pub proof fn attrs_app(a: Seq<StyleToken>, b: Seq<StyleToken>)
    ensures attrs_of(a + b) == attrs_of(a) | attrs_of(b),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); let x = attrs_of(a); assert(x | 0u32 == x) by (bit_vector); } else {
        attrs_app(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        let (x, y) = (attrs_of(a), attrs_of(b.drop_last()));
        if let StyleToken::Attribute(t) = b.last() { let z = abits(t); assert((x | y) | z == x | (y | z)) by (bit_vector); }
    }
}
pub proof fn attr_tokens_mean(bits: u32, k: int)
    requires 0 <= k <= 8,
    ensures forall|i: int| 0 <= i < attr_tokens(bits, k).len() ==> (#[trigger] attr_tokens(bits, k)[i]) is Attribute,
        attrs_of(attr_tokens(bits, k)) == some_bits(bits, k),
    decreases k,
{
    if k > 0 {
        attr_tokens_mean(bits, k - 1);
        let t = attr_tokens(bits, k - 1);
        assert(t.push(StyleToken::Attribute(known()[k - 1])).drop_last() =~= t);
    }
}
pub open spec fn some_bits(bits: u32, k: int) -> u32 decreases k {
    if k <= 0 { 0 } else if bits & abits(known()[k - 1]) != 0 { some_bits(bits, k - 1) | abits(known()[k - 1]) } else { some_bits(bits, k - 1) }
}
pub proof fn all_bits(bits: u32)
    requires known_bits(bits) == bits,
    ensures some_bits(bits, 8) == bits,
{
    reveal_with_fuel(some_bits, 9);
    let (a, b, c, d) = (abits(Attribute::Bold), abits(Attribute::Dim), abits(Attribute::Italic), abits(Attribute::Underlined));
    let (e, f, g, h) = (abits(Attribute::Reverse), abits(Attribute::CrossedOut), abits(Attribute::Encircled), abits(Attribute::OverLined));
    one_bit(bits, (Attribute::Bold as u32 + 1) as u32); one_bit(bits, (Attribute::Dim as u32 + 1) as u32); one_bit(bits, (Attribute::Italic as u32 + 1) as u32); one_bit(bits, (Attribute::Underlined as u32 + 1) as u32); one_bit(bits, (Attribute::Reverse as u32 + 1) as u32); one_bit(bits, (Attribute::CrossedOut as u32 + 1) as u32); one_bit(bits, (Attribute::Encircled as u32 + 1) as u32); one_bit(bits, (Attribute::OverLined as u32 + 1) as u32);
    let (i, j, k, l, m, n, o, p) = (bits & a, bits & b, bits & c, bits & d, bits & e, bits & f, bits & g, bits & h);
    assert(bits & (a | b | c | d | e | f | g | h) == ((((((((0u32 | (bits & a)) | (bits & b)) | (bits & c)) | (bits & d)) | (bits & e)) | (bits & f)) | (bits & g)) | (bits & h))) by (bit_vector);
    assert(forall|x: u32| #[trigger] (x | 0u32) == x) by (bit_vector);
}
// (abits gives powers of two)
pub proof fn one_bit(bits: u32, n: u32)
    requires n < 32,
    ensures bits & (1u32 << n) != 0 ==> bits & (1u32 << n) == (1u32 << n),
{ assert(n < 32 ==> bits & (1u32 << n) != 0 ==> bits & (1u32 << n) == (1u32 << n)) by (bit_vector); }
// tokens which aren't colors, or aren't attributes...
pub proof fn cols_tail(a: Seq<StyleToken>, b: Seq<StyleToken>)
    requires forall|i: int| 0 <= i < b.len() ==> !is_col(#[trigger] b[i]),
    ensures fg_of(a + b) == fg_of(a), bg_of(a + b) == bg_of(a), has_col(a + b) == has_col(a),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); } else {
        let c = b.drop_last();
        assert forall|i: int| 0 <= i < c.len() implies !is_col(#[trigger] c[i]) by { assert(c[i] == b[i]); }
        cols_tail(a, c);
        let s = a + b;
        assert(s.drop_last() =~= a + c);
        assert(!is_col(b[b.len() - 1]));
        has_col_next(s, s.len() - 1);
        assert(s.take(s.len() as int) =~= s); assert(s.take(s.len() - 1) =~= a + c);
    }
}
pub proof fn cols_head(h: StyleToken, t: Seq<StyleToken>)
    requires !is_col(h),
    ensures fg_of(seq![h] + t) == fg_of(t), bg_of(seq![h] + t) == bg_of(t), has_col(seq![h] + t) == has_col(t), attrs_of(seq![h] + t) == attrs_of(seq![h]) | attrs_of(t),
    decreases t.len(),
{
    attrs_app(seq![h], t);
    let s = seq![h] + t;
    if t.len() == 0 {
        assert(s =~= seq![h]); assert(seq![h].drop_last() =~= Seq::<StyleToken>::empty());
        assert(!has_col(t)); assert(!has_col(s.drop_last()));
        assert forall|i: int| 0 <= i < s.len() implies !is_col(#[trigger] s[i]) by {}
        assert(s.last() == h);
        reveal_with_fuel(bg_of, 2); reveal_with_fuel(fg_of, 2);
    } else {
        cols_head(h, t.drop_last());
        assert(s.drop_last() =~= seq![h] + t.drop_last());
        has_col_next(s, s.len() - 1); has_col_next(t, t.len() - 1);
        assert(s.take(s.len() as int) =~= s); assert(s.take(s.len() - 1) =~= s.drop_last());
        assert(t.take(t.len() as int) =~= t); assert(t.take(t.len() - 1) =~= t.drop_last());
    }
}
pub proof fn no_attr(t: Seq<StyleToken>)
    requires forall|i: int| 0 <= i < t.len() ==> !((#[trigger] t[i]) is Attribute),
    ensures attrs_of(t) == 0,
    decreases t.len(),
{ if t.len() > 0 { assert(!(t[t.len() - 1] is Attribute)); assert forall|i: int| 0 <= i < t.drop_last().len() implies !((#[trigger] t.drop_last()[i]) is Attribute) by { assert(t.drop_last()[i] == t[i]); } no_attr(t.drop_last()); } }
pub proof fn no_dim(t: Seq<StyleToken>)
    requires forall|i: int| 0 <= i < t.len() ==> !((#[trigger] t[i]) is Dimension),
    ensures dims_of(t) == Seq::<int>::empty(),
    decreases t.len(),
{ if t.len() > 0 { assert(!(t[t.len() - 1] is Dimension)); assert forall|i: int| 0 <= i < t.drop_last().len() implies !((#[trigger] t.drop_last()[i]) is Dimension) by { assert(t.drop_last()[i] == t[i]); } no_dim(t.drop_last()); } }
pub proof fn style_tokens_kinds(s: CompoundStyle)
    ensures forall|i: int| 0 <= i < style_tokens(s).len() ==> (is_col(#[trigger] style_tokens(s)[i]) || style_tokens(s)[i] is Attribute),
{
    attr_tokens_mean(s.attributes(), 8);
    let (a, b) = (color_tokens(s), attr_tokens(s.attributes(), 8));
    assert forall|i: int| 0 <= i < style_tokens(s).len() implies (is_col(#[trigger] style_tokens(s)[i]) || style_tokens(s)[i] is Attribute) by {
        if i < a.len() { assert(style_tokens(s)[i] == a[i]); } else { assert(style_tokens(s)[i] == b[i - a.len()]); }
    }
}
pub proof fn color_tokens_mean(s: CompoundStyle)
    ensures fg_of(color_tokens(s)) == s.fg(), bg_of(color_tokens(s)) == s.bg(), attrs_of(color_tokens(s)) == 0,
{
    let t = color_tokens(s);
    assert forall|i: int| 0 <= i < t.len() implies !((#[trigger] t[i]) is Attribute) by {}
    no_attr(t);
    let e = Seq::<StyleToken>::empty();
    assert(!has_col(e)); assert(fg_of(e) is None); assert(bg_of(e) is None);
    if t.len() >= 1 {
        let u = t.take(1);
        assert(t.take(0) =~= e); has_col_next(t, 0); assert(has_col(u));
        assert(fg_of(u) == (match t[0] { StyleToken::Color(c) => Some(c), _ => None }));
        assert(bg_of(u) is None);
        if t.len() == 1 { assert(u =~= t); } else { has_col_next(t, 1); assert(t.take(2) =~= t); }
    }
}
// the tokens of a style give it back
pub proof fn style_back(s: CompoundStyle)
    requires plain_style(s),
    ensures style_of(style_tokens(s)) == s,
{
    let (a, b) = (color_tokens(s), attr_tokens(s.attributes(), 8));
    color_tokens_mean(s); attr_tokens_mean(s.attributes(), 8); all_bits(s.attributes());
    cols_tail(a, b); attrs_app(a, b);
    let x = s.attributes(); assert(0u32 | x == x) by (bit_vector);
}
pub proof fn line_back(s: LineStyle)
    requires plain_style(s.compound_style), s.left_margin < 65536, s.right_margin < 65536,
    ensures LineStyle::from_tokens(line_tokens(s), s),
{
    let c = s.compound_style;
    style_back(c); style_tokens_kinds(c);
    let a = style_tokens(c);
    let al = seq![StyleToken::Align(s.align)];
    let d = if s.left_margin > 0 || s.right_margin > 0 { seq![dim(s.left_margin), dim(s.right_margin)] } else { Seq::empty() };
    let b = al + d;
    let t = a + b;
    assert forall|i: int| 0 <= i < b.len() implies !is_col(#[trigger] b[i]) && !(b[i] is Attribute) by {}
    cols_tail(a, b); attrs_app(a, b); no_attr(b); no_dim(a);
    let x = c.attributes(); assert(x | 0u32 == x) by (bit_vector);
    let m = a + al;
    assert(m.drop_last() =~= a); assert(m.last() == al[0]);
    assert(t =~= m + d);
    no_align(m, d); dims_app(m, d);
    assert(align_of(m) == s.align);
    assert(dims_of(m) =~= Seq::<int>::empty());
    two_dims(d);
    if d.len() > 0 { assert(d[0] == dim(s.left_margin) && d[1] == dim(s.right_margin)); assert(dims_of(t) =~= seq![s.left_margin as int, s.right_margin as int]); }
    else { assert(dims_of(t) =~= Seq::<int>::empty()); }
}
pub proof fn no_align(a: Seq<StyleToken>, b: Seq<StyleToken>)
    requires forall|i: int| 0 <= i < b.len() ==> !((#[trigger] b[i]) is Align),
    ensures align_of(a + b) == align_of(a),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); } else {
        assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b[b.len() - 1]);
        assert forall|i: int| 0 <= i < b.drop_last().len() implies !((#[trigger] b.drop_last()[i]) is Align) by { assert(b.drop_last()[i] == b[i]); }
        no_align(a, b.drop_last());
    }
}
pub proof fn dims_app(a: Seq<StyleToken>, b: Seq<StyleToken>)
    ensures dims_of(a + b) == dims_of(a) + dims_of(b),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); assert(dims_of(a) + dims_of(b) =~= dims_of(a)); } else {
        assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last());
        dims_app(a, b.drop_last());
        assert(dims_of(a + b) =~= dims_of(a) + dims_of(b));
    }
}
pub proof fn two_dims(d: Seq<StyleToken>)
    requires d.len() == 0 || (d.len() == 2 && d[0] is Dimension && d[1] is Dimension),
    ensures dims_of(d) == (if d.len() == 0 { Seq::<int>::empty() } else { seq![d[0]->Dimension_0 as int, d[1]->Dimension_0 as int] }),
{
    if d.len() == 2 {
        let x = d.drop_last();
        assert(x.last() == d[0]); assert(x.drop_last() =~= Seq::<StyleToken>::empty());
        assert(dims_of(x.drop_last()) =~= Seq::<int>::empty());
        assert(dims_of(x) =~= seq![d[0]->Dimension_0 as int]);
        assert(dims_of(d) =~= seq![d[0]->Dimension_0 as int, d[1]->Dimension_0 as int]);
    }
}
pub proof fn char_head(c: char, t: Seq<StyleToken>)
    ensures char_of(seq![StyleToken::Char(c)] + t) == Some(c),
    decreases t.len(),
{
    let s = seq![StyleToken::Char(c)] + t;
    if t.len() == 0 { assert(s.drop_last() =~= Seq::<StyleToken>::empty()); assert(s.last() == StyleToken::Char(c)); reveal_with_fuel(char_of, 2); } else { assert(s.drop_last() =~= seq![StyleToken::Char(c)] + t.drop_last()); char_head(c, t.drop_last()); }
}
pub proof fn char_back(s: StyledChar)
    requires plain_style(s.compound_style),
    ensures style_of(char_tokens(s)) == s.compound_style, char_of(char_tokens(s)) == Some(s.nude_char),
{
    let h = StyleToken::Char(s.nude_char);
    style_back(s.compound_style);
    cols_head(h, style_tokens(s.compound_style)); char_head(s.nude_char, style_tokens(s.compound_style));
    assert forall|i: int| 0 <= i < seq![h].len() implies !((#[trigger] seq![h][i]) is Attribute) by {}
    no_attr(seq![h]);
    let x = s.compound_style.attributes(); assert(0u32 | x == x) by (bit_vector);
}
}
