// style texts: what's written and read
verus! {
pub open spec fn digit(n: int) -> char { ((48 + n) as u8) as char }
pub open spec fn dec(n: int) -> Seq<char> decreases n { if n < 10 { seq![digit(n)] } else { dec(n / 10).push(digit(n % 10)) } }
pub open spec fn color_text(c: Color) -> Seq<char> {
    match c {
        Color::Reset => Seq::empty(),
        Color::Black => "Black"@,
        Color::DarkGrey => "DarkGrey"@,
        Color::Red => "Red"@,
        Color::DarkRed => "DarkRed"@,
        Color::Green => "Green"@,
        Color::DarkGreen => "DarkGreen"@,
        Color::Yellow => "Yellow"@,
        Color::DarkYellow => "DarkYellow"@,
        Color::Blue => "Blue"@,
        Color::DarkBlue => "DarkBlue"@,
        Color::Magenta => "Magenta"@,
        Color::DarkMagenta => "DarkMagenta"@,
        Color::Cyan => "Cyan"@,
        Color::DarkCyan => "DarkCyan"@,
        Color::White => "White"@,
        Color::Grey => "Grey"@,
        Color::Rgb { r, g, b } => "rgb("@ + dec(r as int) + ", "@ + dec(g as int) + ", "@ + dec(b as int) + ")"@,
        Color::AnsiValue(v) => "ansi("@ + dec(v as int) + ")"@,
    }
}
pub open spec fn align_text(a: Alignment) -> Seq<char> {
    match a { Alignment::Left => "left"@, Alignment::Center => "center"@, Alignment::Right => "right"@, Alignment::Unspecified => Seq::empty() }
}
pub open spec fn attr_text(a: Attribute) -> Seq<char> {
    match a {
        Attribute::Bold => "Bold"@, Attribute::Dim => "Dim"@, Attribute::Italic => "Italic"@, Attribute::Underlined => "Underlined"@,
        Attribute::Reverse => "Reverse"@, Attribute::CrossedOut => "CrossedOut"@, Attribute::Encircled => "Encircled"@, _ => "OverLined"@,
    }
}
pub open spec fn text(t: StyleToken) -> Seq<char> {
    match t {
        StyleToken::Char(c) => seq![c],
        StyleToken::Color(c) => color_text(c),
        StyleToken::Attribute(a) => attr_text(a),
        StyleToken::Align(a) => align_text(a),
        StyleToken::Dimension(n) => dec(n as int),
        StyleToken::None => "none"@,
    }
}
impl VrtDisplay for u8 { open spec fn shown(&self) -> Seq<Cell> { unstyled(dec(*self as int)) } #[verifier::external_body] fn vrt_display(&self, f: &mut Formatter<'_>) -> (r: FmtResult) { unimplemented!() } }
impl VrtDisplay for u16 { open spec fn shown(&self) -> Seq<Cell> { unstyled(dec(*self as int)) } #[verifier::external_body] fn vrt_display(&self, f: &mut Formatter<'_>) -> (r: FmtResult) { unimplemented!() } }
impl VrtDisplay for char { open spec fn shown(&self) -> Seq<Cell> { unstyled(seq![*self]) } #[verifier::external_body] fn vrt_display(&self, f: &mut Formatter<'_>) -> (r: FmtResult) { unimplemented!() } }
//@fn src/parse/parse_color.rs write_color
//@rule write
//@ret r
//@spec
    ensures r.is_ok() ==> final(f).out() == old(f).out() + unstyled(color_text(c)),
//@endfn
//@fn src/parse/parse_attribute.rs write_attribute
//@rule write
//@ret r
//@spec
    ensures r.is_ok() && known().contains(a) ==> final(f).out() == old(f).out() + unstyled(attr_text(a)),
//@endfn
//@fn src/parse/parse_align.rs write_align
//@rule write
//@ret r
//@spec
    ensures r.is_ok() ==> final(f).out() == old(f).out() + unstyled(align_text(a)),
//@endfn
//@fn src/parse/mod.rs <fmt::Display for StyleToken>::fmt
//@header impl StyleToken
//@as vrt_show
//@rule write
//@ret r
//@spec
    ensures r.is_ok() && writable(*self) ==> final(f).out() == old(f).out() + unstyled(text(*self)),
//@endfn
pub open spec fn writable(t: StyleToken) -> bool { t matches StyleToken::Attribute(a) ==> known().contains(a) }
pub open spec fn all_writable(t: Seq<StyleToken>) -> bool { forall|i: int| 0 <= i < t.len() ==> writable(#[trigger] t[i]) }
// the texts, separated by spaces
pub open spec fn joined(t: Seq<StyleToken>) -> Seq<char> decreases t.len() {
    if t.len() == 0 { Seq::empty() } else {
        let j = joined(t.drop_last());
        if j.len() == 0 { text(t.last()) } else { j + (seq![' '] + text(t.last())) }
    }
}
pub proof fn joined_next(t: Seq<StyleToken>, k: int)
    requires 0 <= k < t.len(),
    ensures joined(t.take(k + 1)) == (if joined(t.take(k)).len() == 0 { text(t[k]) } else { joined(t.take(k)) + (seq![' '] + text(t[k])) }),
{ assert(t.take(k + 1).drop_last() =~= t.take(k)); }
pub proof fn attr_tokens_known(bits: u32, k: int)
    requires k <= 8,
    ensures forall|i: int| 0 <= i < attr_tokens(bits, k).len() ==> (#[trigger] attr_tokens(bits, k)[i] matches StyleToken::Attribute(a) && known().contains(a)),
    decreases k,
{ if k > 0 { attr_tokens_known(bits, k - 1); assert(known().contains(known()[k - 1])); } }
pub proof fn style_tokens_writable(s: CompoundStyle)
    ensures all_writable(style_tokens(s)),
{
    attr_tokens_known(s.attributes(), 8);
    let (a, b) = (color_tokens(s), attr_tokens(s.attributes(), 8));
    assert forall|i: int| 0 <= i < style_tokens(s).len() implies writable(#[trigger] style_tokens(s)[i]) by {
        if i < a.len() { assert(style_tokens(s)[i] == a[i]); } else { assert(style_tokens(s)[i] == b[i - a.len()]); }
    }
}
pub proof fn line_tokens_writable(s: LineStyle)
    ensures all_writable(line_tokens(s)),
{
    style_tokens_writable(s.compound_style);
    let t = line_tokens(s); let a = style_tokens(s.compound_style);
    assert forall|i: int| 0 <= i < t.len() implies writable(#[trigger] t[i]) by { if i < a.len() { assert(t[i] == a[i]); } }
}
pub proof fn char_tokens_writable(s: StyledChar)
    ensures all_writable(char_tokens(s)),
{
    style_tokens_writable(s.compound_style);
    let t = char_tokens(s); let a = style_tokens(s.compound_style);
    assert forall|i: int| 0 <= i < t.len() implies writable(#[trigger] t[i]) by { if i > 0 { assert(t[i] == a[i - 1]); } }
}
// std: what's displayed (see vrt_show) is pushed
#[verifier::external_body]
pub fn vrt_push_shown(s: &mut String, t: &StyleToken)
    ensures writable(*t) ==> final(s)@ == old(s)@ + text(*t),
{ unimplemented!() }
//@fn src/parse/mod.rs PushStyleTokens::to_style_tokens_string
//@header impl CompoundStyle
//@rule write_string
//@ret r
//@spec
    ensures r@ == joined(style_tokens(*self)),
//@at loop 0 before
    let ghost t = style_tokens(*self);
    proof { style_tokens_writable(*self); assert(tokens@ =~= t); assert(t.take(0) =~= Seq::<StyleToken>::empty()); }
//@loop 0 it
    invariant it.seq() == t, t == style_tokens(*self), all_writable(t), s@ == joined(t.take(it.index@)),
//@at loop 0 end
    proof { assert(token == t[it.index@]); joined_next(t, it.index@); let j = joined(t.take(it.index@)); assert(j + seq![' '] + text(token) =~= j + (seq![' '] + text(token))); assert(" "@ =~= seq![' ']) by { reveal_strlit(" "); } if j.len() == 0 { assert(j + text(token) =~= text(token)); } }
//@at loop 0 after
    proof { assert(t.take(t.len() as int) =~= t); }
//@endfn
//@fn src/parse/mod.rs PushStyleTokens::to_style_tokens_string
//@header impl LineStyle
//@rule write_string
//@ret r
//@spec
    ensures r@ == joined(line_tokens(*self)),
//@at loop 0 before
    let ghost t = line_tokens(*self);
    proof { line_tokens_writable(*self); assert(tokens@ =~= t); assert(t.take(0) =~= Seq::<StyleToken>::empty()); }
//@loop 0 it
    invariant it.seq() == t, t == line_tokens(*self), all_writable(t), s@ == joined(t.take(it.index@)),
//@at loop 0 end
    proof { assert(token == t[it.index@]); joined_next(t, it.index@); let j = joined(t.take(it.index@)); assert(j + seq![' '] + text(token) =~= j + (seq![' '] + text(token))); assert(" "@ =~= seq![' ']) by { reveal_strlit(" "); } if j.len() == 0 { assert(j + text(token) =~= text(token)); } }
//@at loop 0 after
    proof { assert(t.take(t.len() as int) =~= t); }
//@endfn
//@fn src/parse/mod.rs PushStyleTokens::to_style_tokens_string
//@header impl StyledChar
//@rule write_string
//@ret r
//@spec
    ensures r@ == joined(char_tokens(*self)),
//@at loop 0 before
    let ghost t = char_tokens(*self);
    proof { char_tokens_writable(*self); assert(tokens@ =~= t); assert(t.take(0) =~= Seq::<StyleToken>::empty()); }
//@loop 0 it
    invariant it.seq() == t, t == char_tokens(*self), all_writable(t), s@ == joined(t.take(it.index@)),
//@at loop 0 end
    proof { assert(token == t[it.index@]); joined_next(t, it.index@); let j = joined(t.take(it.index@)); assert(j + seq![' '] + text(token) =~= j + (seq![' '] + text(token))); assert(" "@ =~= seq![' ']) by { reveal_strlit(" "); } if j.len() == 0 { assert(j + text(token) =~= text(token)); } }
//@at loop 0 after
    proof { assert(t.take(t.len() as int) =~= t); }
//@endfn
//@fn src/parse/mod.rs style_tokens_to_string
//@rule write_string
//@ret r
//@spec
    ensures all_writable(tokens@) ==> r@ == joined(tokens@),
//@at loop 0 before
    let ghost t = tokens@;
    proof { assert(t.take(0) =~= Seq::<StyleToken>::empty()); }
//@loop 0 it
    invariant it.seq().map_values(|x: &StyleToken| *x) == t, all_writable(t) ==> s@ == joined(t.take(it.index@)),
//@at loop 0 end
    proof { assert(*token == t[it.index@]); joined_next(t, it.index@); let j = joined(t.take(it.index@)); assert(j + seq![' '] + text(*token) =~= j + (seq![' '] + text(*token))); assert(" "@ =~= seq![' ']) by { reveal_strlit(" "); } if j.len() == 0 { assert(j + text(*token) =~= text(*token)); } }
//@at loop 0 after
    proof { assert(t.take(t.len() as int) =~= t); }
//@endfn
}
