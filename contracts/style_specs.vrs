// styles: the contracts of CompoundStyle, LineStyle, StyledChar (included by the units which use them)
verus! {
//@type crossterm:src/style/types/attribute.rs Attribute derive=Structural,PartialEq,Eq,Clone,Copy
pub open spec fn abits(a: Attribute) -> u32 { 1u32 << ((a as u32 + 1) as u32) }
pub assume_specification<T> [Option::<T>::or] (a: Option<T>, b: Option<T>) -> (r: Option<T>)
    ensures r == (if a.is_some() { a } else { b });

//@fn crossterm:src/style/types/attribute.rs Attribute::bytes
//@ret r
//@spec
    ensures r == abits(self),
//@endfn
//@fn crossterm:src/style/attributes.rs Attributes::set
//@spec
    ensures final(self).0 == old(self).0 | abits(attribute),
//@endfn
//@fn crossterm:src/style/attributes.rs Attributes::unset
//@spec
    ensures final(self).0 == old(self).0 & !abits(attribute),
//@endfn
//@fn crossterm:src/style/attributes.rs Attributes::has
//@ret r
//@spec
    ensures r == (self.0 & abits(attribute) != 0),
//@endfn
//@fn crossterm:src/style/attributes.rs Attributes::extend
//@spec
    ensures final(self).0 == old(self).0 | attributes.0,
//@endfn
//@fn crossterm:src/style/styled_content.rs StyledContent::new
//@ret r
//@spec
    ensures r.style == style, r.content == content,
//@endfn
//@fn crossterm:src/style/content_style.rs ContentStyle::apply
//@ret r
//@spec
    ensures r.style == self, r.content == val,
//@endfn
// the derived Default instances of the dependencies' types
impl Default for Attributes { fn default() -> (r: Self) ensures r.0 == 0 { Attributes(0) } }
impl Default for CompoundStyle {
    fn default() -> (r: Self) ensures r == plain() {
        CompoundStyle { object_style: ContentStyle { foreground_color: None, background_color: None, underline_color: None, attributes: Attributes(0) } }
    }
}
pub open spec fn plain() -> CompoundStyle {
    CompoundStyle { object_style: ContentStyle { foreground_color: None, background_color: None, underline_color: None, attributes: Attributes(0) } }
}
// a style made of the given foreground, background and attributes
pub open spec fn sty(fg: Option<Color>, bg: Option<Color>, attrs: u32) -> CompoundStyle {
    CompoundStyle { object_style: ContentStyle { foreground_color: fg, background_color: bg, underline_color: None, attributes: Attributes(attrs) } }
}
impl CompoundStyle {
    pub open spec fn fg(&self) -> Option<Color> { self.object_style.foreground_color }
    pub open spec fn bg(&self) -> Option<Color> { self.object_style.background_color }
    pub open spec fn attributes(&self) -> u32 { self.object_style.attributes.0 }
    // the same style but for the given fields
    pub open spec fn with(&self, fg: Option<Color>, bg: Option<Color>, attrs: u32) -> CompoundStyle {
        CompoundStyle { object_style: ContentStyle { foreground_color: fg, background_color: bg, underline_color: self.object_style.underline_color, attributes: Attributes(attrs) } }
    }
    pub open spec fn overwritten(&self, o: &CompoundStyle) -> CompoundStyle {
        self.with(
            if o.fg().is_some() { o.fg() } else { self.fg() },
            if o.bg().is_some() { o.bg() } else { self.bg() },
            self.attributes() | o.attributes())
    }
}
//@fn src/compound_style.rs CompoundStyle::new
//@ret r
//@spec
    ensures r == sty(foreground_color, background_color, attributes.0),
//@endfn
//@fn src/compound_style.rs CompoundStyle::with_fgbg
//@ret r
//@spec
    ensures r == sty(Some(fg), Some(bg), 0),
//@endfn
//@fn src/compound_style.rs CompoundStyle::with_fg
//@ret r
//@spec
    ensures r == sty(Some(fg), None, 0),
//@endfn
//@fn src/compound_style.rs CompoundStyle::with_bg
//@ret r
//@spec
    ensures r == sty(None, Some(bg), 0),
//@endfn
//@fn src/compound_style.rs CompoundStyle::with_attr
//@ret r
//@spec
    ensures r == sty(None, None, 0u32 | abits(attr)),
//@endfn
//@fn src/compound_style.rs CompoundStyle::set_fg
//@spec
    ensures *final(self) == old(self).with(Some(color), old(self).bg(), old(self).attributes()),
//@endfn
//@fn src/compound_style.rs CompoundStyle::set_bg
//@spec
    ensures *final(self) == old(self).with(old(self).fg(), Some(color), old(self).attributes()),
//@endfn
//@fn src/compound_style.rs CompoundStyle::set_fgbg
//@spec
    ensures *final(self) == old(self).with(Some(fg), Some(bg), old(self).attributes()),
//@endfn
//@fn src/compound_style.rs CompoundStyle::add_attr
//@spec
    ensures *final(self) == old(self).with(old(self).fg(), old(self).bg(), old(self).attributes() | abits(attr)),
//@endfn
//@fn src/compound_style.rs CompoundStyle::has_attr
//@ret r
//@spec
    ensures r == (self.attributes() & abits(attr) != 0),
//@endfn
//@fn src/compound_style.rs CompoundStyle::remove_attr
//@spec
    ensures *final(self) == old(self).with(old(self).fg(), old(self).bg(), old(self).attributes() & !abits(attr)),
//@endfn
//@fn src/compound_style.rs CompoundStyle::overwrite_with
//@spec
    ensures *final(self) == old(self).overwritten(other),
//@endfn
//@fn src/compound_style.rs CompoundStyle::get_fg
//@ret r
//@spec
    ensures r == self.fg(),
//@endfn
//@fn src/compound_style.rs CompoundStyle::get_bg
//@ret r
//@spec
    ensures r == self.bg(),
//@endfn
//@fn src/compound_style.rs CompoundStyle::attrs
//@ret r
//@spec
    ensures r.0 == self.attributes(),
//@endfn
//@fn src/compound_style.rs CompoundStyle::apply_to
//@ret r
//@spec
    ensures r.style == self.object_style, r.content == val,
//@endfn
//@fn src/compound_style.rs CompoundStyle::queue
//@sig <W, D>(&self, w: &mut W, val: D) -> (r: Result<()>) where D: Clone + Display + Shown, W: Write,
//@spec
    ensures r.is_ok() ==> final(w).out() == old(w).out().push(Out::Styled(self.object_style, val.chars())),
//@endfn
pub trait VrtIntoString: Sized { spec fn text(self) -> Seq<char>; fn vrt_into_string(self) -> (r: String) ensures r@ == self.text(); }
impl VrtIntoString for String { open spec fn text(self) -> Seq<char> { self@ } fn vrt_into_string(self) -> (r: String) { self } }
impl<'a> VrtIntoString for &'a str { open spec fn text(self) -> Seq<char> { self@ } fn vrt_into_string(self) -> (r: String) { self.to_string() } }
//@fn src/compound_style.rs CompoundStyle::queue_str
//@sig <W, S: VrtIntoString>(&self, w: &mut W, s: S) -> (r: Result<()>) where W: Write,
//@rule method into vrt_into_string
//@spec
    ensures r.is_ok() ==> final(w).out() == old(w).out().push(Out::Styled(self.object_style, s.text())),
//@endfn
pub open spec fn rep(c: char, n: int) -> Seq<char> { Seq::new(n as nat, |i: int| c) }
pub open spec fn repstr(s: Seq<char>, n: int) -> Seq<char> decreases n { if n <= 0 { Seq::empty() } else { repstr(s, n - 1) + s } }
pub fn vrt_repeat_char(c: char, n: usize) -> (r: String)
    ensures r@ == rep(c, n as int),
{
    let mut s = String::new();
    let mut i = 0;
    while i < n
        invariant s@ == rep(c, i as int), i <= n,
        decreases n - i,
    {
        s.push(c);
        i += 1;
        proof { assert(rep(c, i - 1).push(c) =~= rep(c, i as int)); }
    }
    s
}
pub trait VrtRepeat { spec fn text0(&self) -> Seq<char>; fn vrt_repeat(&self, n: usize) -> (r: String) ensures r@ == repstr(self.text0(), n as int); }
impl VrtRepeat for str {
    open spec fn text0(&self) -> Seq<char> { self@ }
    fn vrt_repeat(&self, n: usize) -> (r: String)
    {
        let mut s = String::new();
        let mut i = 0;
        while i < n
            invariant s@ == repstr(self@, i as int), i <= n,
            decreases n - i,
        {
            s.push_str(self);
            i += 1;
        }
        s
    }
}
pub proof fn repstr_one(c: char, n: int)
    requires 0 <= n,
    ensures repstr(seq![c], n) == rep(c, n),
    decreases n,
{
    if n > 0 { repstr_one(c, n - 1); assert(rep(c, n - 1) + seq![c] =~= rep(c, n)); }
    else { assert(rep(c, n) =~= Seq::<char>::empty()); }
}
//@fn src/compound_style.rs CompoundStyle::repeat_char
//@ret r
//@rule write
//@spec
    ensures r.is_ok() ==> final(f).out() == old(f).out() + styled(self.object_style, rep(c, count as int)),
//@at body-start
    proof { assert(old(f).out() + styled(self.object_style, rep(c, 0)) =~= old(f).out()); }
//@endfn
//@fn src/compound_style.rs CompoundStyle::repeat_string
//@ret r
//@rule write
//@rule method repeat vrt_repeat
//@spec
    ensures r.is_ok() ==> final(f).out() == old(f).out() + styled(self.object_style, repstr(s@, count as int)),
//@at body-start
    proof { assert(old(f).out() + styled(self.object_style, repstr(s@, 0)) =~= old(f).out()); }
//@endfn
//@fn src/compound_style.rs CompoundStyle::repeat_space
//@ret r
//@spec
    ensures r.is_ok() ==> final(f).out() == old(f).out() + styled(self.object_style, rep(' ', count as int)),
//@at body-start
    proof { reveal_strlit(" "); assert(" "@ =~= seq![' ']); repstr_one(' ', count as int); }
//@endfn
//@fn src/compound_style.rs CompoundStyle::queue_fg
//@ret r
//@spec
    ensures r.is_ok() ==> final(w).out() == (match self.fg() { Some(c) => old(w).out().push(Out::Fg(c)), None => old(w).out() }),
//@endfn
//@fn src/compound_style.rs CompoundStyle::queue_bg
//@ret r
//@spec
    ensures r.is_ok() ==> final(w).out() == (match self.bg() { Some(c) => old(w).out().push(Out::Bg(c)), None => old(w).out() }),
//@endfn
//@fn src/compound_style.rs CompoundStyle::style_char
//@ret r
//@spec
    ensures r.wf(), r.compound_style == *self, r.nude_char == nude_char,
//@endfn
impl StyledChar {
    // what is printed is the current char in the current style
    pub open spec fn wf(&self) -> bool {
        self.styled_char.style == self.compound_style.object_style && self.styled_char.content == self.nude_char
    }
}
impl VrtSpecials {
    pub open spec fn all_wf(&self) -> bool { forall|i: int| 0 <= i < self.renders@.len() ==> (#[trigger] self.renders@[i]).wf() }
}
//@fn src/styled_char.rs StyledChar::new
//@ret r
//@spec
    ensures r.wf(), r.compound_style == compound_style, r.nude_char == nude_char,
//@endfn
//@fn src/styled_char.rs StyledChar::nude
//@ret r
//@spec
    ensures r.wf(), r.compound_style == plain(), r.nude_char == nude_char,
//@endfn
//@fn src/styled_char.rs StyledChar::nude_char
//@ret r
//@spec
    ensures r == self.nude_char,
//@endfn
//@fn src/styled_char.rs StyledChar::get_char
//@ret r
//@spec
    ensures r == self.nude_char,
//@endfn
//@fn src/styled_char.rs StyledChar::from_fg_char
//@ret r
//@spec
    ensures r.wf(), r.compound_style == sty(Some(fg), None, 0), r.nude_char == nude_char,
//@endfn
//@fn src/styled_char.rs StyledChar::set_char
//@spec
    ensures final(self).wf(), final(self).nude_char == nude_char, final(self).compound_style == old(self).compound_style,
//@endfn
//@fn src/styled_char.rs StyledChar::set_fg
//@spec
    ensures final(self).wf(), final(self).nude_char == old(self).nude_char,
        final(self).compound_style == old(self).compound_style.with(Some(color), old(self).compound_style.bg(), old(self).compound_style.attributes()),
//@endfn
//@fn src/styled_char.rs StyledChar::get_fg
//@ret r
//@spec
    ensures r == self.compound_style.fg(),
//@endfn
//@fn src/styled_char.rs StyledChar::set_bg
//@spec
    ensures final(self).wf(), final(self).nude_char == old(self).nude_char,
        final(self).compound_style == old(self).compound_style.with(old(self).compound_style.fg(), Some(color), old(self).compound_style.attributes()),
//@endfn
//@fn src/styled_char.rs StyledChar::get_bg
//@ret r
//@spec
    ensures r == self.compound_style.bg(),
//@endfn
//@fn src/styled_char.rs StyledChar::set_compound_style
//@spec
    ensures final(self).wf(), final(self).nude_char == old(self).nude_char, final(self).compound_style == compound_style,
//@endfn
//@fn src/styled_char.rs StyledChar::compound_style
//@ret r
//@spec
    ensures *r == self.compound_style,
//@endfn
//@fn src/styled_char.rs StyledChar::repeated
//@ret r
//@spec
    ensures r.style == self.compound_style.object_style, r.content@ == rep(self.nude_char, count as int),
//@loop 0 it
    invariant s@ == rep(self.nude_char, it.index@ as int),
//@at loop 0 end
    proof { assert(rep(self.nude_char, it.index@ as int).push(self.nude_char) =~= rep(self.nude_char, it.index@ as int + 1)); }
//@endfn
//@fn src/styled_char.rs StyledChar::queue_repeat
//@ret r
//@spec
    ensures r.is_ok() ==> final(w).out() == old(w).out().push(Out::Styled(self.compound_style.object_style, rep(self.nude_char, count as int))),
//@loop 0 it
    invariant s@ == rep(self.nude_char, it.index@ as int),
//@at loop 0 end
    proof { assert(rep(self.nude_char, it.index@ as int).push(self.nude_char) =~= rep(self.nude_char, it.index@ as int + 1)); }
//@endfn
//@fn src/styled_char.rs StyledChar::queue
//@ret r
//@spec
    requires self.wf(),
    ensures r.is_ok() ==> final(w).out() == old(w).out().push(Out::Styled(self.compound_style.object_style, seq![self.nude_char])),
//@endfn
impl MadSkin {
    pub open spec fn chars_wf(&self) -> bool {
        self.bullet.wf() && self.quote_mark.wf() && self.horizontal_rule.wf() && self.scrollbar.track.wf() && self.scrollbar.thumb.wf()
    }
}
pub open spec fn bg_set(a: CompoundStyle, c: Color) -> CompoundStyle { a.with(a.fg(), Some(c), a.attributes()) }
//@fn src/scrollbar_style.rs ScrollBarStyle::set_bg
//@spec
    ensures final(self).track.wf(), final(self).thumb.wf(),
        final(self).track.nude_char == old(self).track.nude_char, final(self).thumb.nude_char == old(self).thumb.nude_char,
        final(self).track.compound_style == bg_set(old(self).track.compound_style, bg),
        final(self).thumb.compound_style == bg_set(old(self).thumb.compound_style, bg),
//@endfn
}
