// drawing of the scrollable views
verus! {
// a line of text, printed by crossterm: what its Display implementation gives (see line_specs.vrs)
#[verifier::external]
impl<'s, 'l, 'p> Display for DisplayableLine<'s, 'l, 'p> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() } }
impl<'s, 'l, 'p, 'x> Shown for &'x DisplayableLine<'s, 'l, 'p> {
    uninterp spec fn chars(&self) -> Seq<char>;
    open spec fn printed(&self) -> Out { Out::Cells(self.skin.line_cells(self.line, self.width, true)) }
    open spec fn printable(&self) -> bool { self.skin.line_sizes_ok(self.line, self.width) }
}
// a displayed view: the lines of a text from a position, and a scrollbar
pub struct Shot<'t> { pub skin: &'t MadSkin, pub lines: Seq<FmtLine<'t>>, pub area: Area, pub scroll: int, pub show_scrollbar: bool }
impl<'t> Shot<'t> {
    pub open spec fn count(&self) -> int { self.lines.len() as int }
    pub open spec fn height(&self) -> int { self.area.height as int }
    pub open spec fn has_bar(&self) -> bool { self.show_scrollbar && self.area.width > 0 && self.height() > 0 && self.count() > self.height() }
    pub open spec fn text_width(&self) -> usize { (self.area.width - if self.has_bar() { 1int } else { 0 }) as usize }
    // the text of the row j of the area: a line, or spaces
    pub open spec fn text_row(&self, j: int) -> Seq<Cell> {
        if self.scroll + j < self.count() { self.skin.line_cells(&self.lines[self.scroll + j], Some(self.text_width()), true) }
        else { styled(self.skin.paragraph.compound_style.object_style, rep(' ', self.text_width() as int)) }
    }
    pub open spec fn bar_row(&self, j: int) -> Seq<Cell> {
        let s = self.skin.scrollbar;
        if !self.has_bar() { Seq::empty() }
        else if thumb_top(self.scroll, self.count(), self.height()) <= j <= thumb_bottom(self.scroll, self.count(), self.height()) { sccell(s.thumb) }
        else { sccell(s.track) }
    }
    pub open spec fn row(&self, j: int) -> Seq<Cell> { self.text_row(j) + self.bar_row(j) }
    pub open spec fn rows(&self, k: int) -> Seq<Seq<Cell>> { Seq::new(k as nat, |j: int| self.row(j)) }
    pub open spec fn drawable(&self) -> bool {
        &&& 0 <= self.scroll <= 0x7fff_ffff_ffff && self.count() <= 0x7fff_ffff_ffff
        &&& self.area.top as int + self.area.height as int <= 0xffff
        &&& self.skin.scrollbar.thumb.wf() && self.skin.scrollbar.track.wf()
        &&& forall|i: int| self.scroll <= i < self.count() ==> self.skin.line_sizes_ok(#[trigger] &self.lines[i], Some(self.text_width()))
    }
    // from a to b: each row of the area, once, from its first column
    pub open spec fn shown(&self, a: Seq<Out>, b: Seq<Out>) -> bool { drew(a, b, self.area.left as int, self.area.top as int, self.rows(self.height())) }
    // the line fits the width of the text (what's needed by line_cols)
    pub open spec fn fits(&self, i: int) -> bool { cols(self.skin.line_cells(&self.lines[i], Some(self.text_width()), true)) == self.text_width() }
    // then the row covers exactly the width of the area
    pub proof fn row_cols(&self, j: int)
        requires 0 <= j < self.height(), self.scroll >= 0, self.scroll + j < self.count() ==> self.fits(self.scroll + j),
            self.has_bar() ==> chw(self.skin.scrollbar.thumb.styled_char.content) == 1 && chw(self.skin.scrollbar.track.styled_char.content) == 1,
        ensures cols(self.row(j)) == self.area.width,
    {
        uwidth_ascii(' ');
        cols_rep(self.skin.paragraph.compound_style.object_style, ' ', self.text_width() as int);
        cols_add(self.text_row(j), self.bar_row(j));
        let s = self.skin.scrollbar;
        cols_one(s.thumb.styled_char.style, s.thumb.styled_char.content);
        cols_one(s.track.styled_char.style, s.track.styled_char.content);
    }
}
impl<'a, 't> TextView<'a, 't> {
    pub open spec fn shot(&self) -> Shot<'t> { Shot { skin: self.text.skin, lines: self.text.lines@, area: *self.area, scroll: self.scroll as int, show_scrollbar: self.show_scrollbar } }
}
// a styled char after something
pub proof fn styled_char_next(a: Seq<Out>, c: Seq<Out>, pre: Seq<Cell>, sc: StyledChar)
    requires sc.wf(), exists|b: Seq<Out>| #[trigger] wrote(a, b, pre) && c == b.push(Out::Styled(sc.compound_style.object_style, seq![sc.nude_char])),
    ensures wrote(a, c, pre + sccell(sc)),
{
    let o = Out::Styled(sc.compound_style.object_style, seq![sc.nude_char]);
    let b = choose|b: Seq<Out>| #[trigger] wrote(a, b, pre) && c == b.push(o);
    wrote_one(b, o);
    wrote_then(a, b, c, pre, out_cells(o));
}
//@fn src/views/text_view.rs TextView::write_on
//@ret r
//@spec
    requires self.shot().drawable(),
    ensures r.is_ok() ==> self.shot().shown(old(w).out(), final(w).out()),
//@at body-start
    let ghost out0 = w.out();
    let ghost sh = self.shot();
    let ghost (l, t) = (self.area.left as int, self.area.top as int);
    proof { vrt_vec_len(&self.text.lines); assert(sh.rows(0) =~= Seq::<Seq<Cell>>::empty()); }
//@loop 0 it
    invariant
        sh == self.shot(), sh.drawable(), width == sh.text_width(), l == self.area.left, t == self.area.top,
        self.count() <= 0x7fff_ffff_ffff_ffff,
        (scrollbar is Some) == sh.has_bar(),
        scrollbar matches Some((a, b)) ==> a as int == t + thumb_top(self.scroll as int, self.count(), self.height())
            && b as int == t + thumb_bottom(self.scroll as int, self.count(), self.height()),
        *__src_lines == self.text.lines,
        lines as int == if self.scroll + it.index@ < self.count() { self.scroll + it.index@ } else if self.scroll < self.count() { self.count() } else { self.scroll as int },
        drew(out0, w.out(), l, t, sh.rows(it.index@ as int)),
//@at loop 0 start
    let ghost k = it.index@ as int;
    let ghost m0 = w.out();
    let ghost m1 = m0.push(Out::Move(l, t + k));
    proof { if self.scroll + k < self.count() { assert(self.text.skin.line_sizes_ok(&self.text.lines@[self.scroll + k], Some(sh.text_width()))); } }
//@at loop 0 end
    proof {
        let tx = sh.text_row(k);
        let br = sh.bar_row(k);
        wrote_nothing(m1);
        if self.scroll + k < self.count() { wrote_one(m1, Out::Cells(tx)); }
        if sh.has_bar() {
            let sc = if thumb_top(self.scroll as int, self.count(), self.height()) <= k <= thumb_bottom(self.scroll as int, self.count(), self.height()) { self.text.skin.scrollbar.thumb } else { self.text.skin.scrollbar.track };
            styled_char_next(m1, w.out(), tx, sc);
        } else {
            assert(tx + br =~= tx);
        }
        drew_row(out0, m0, w.out(), l, t, sh.rows(k), sh.row(k));
        assert(sh.rows(k).push(sh.row(k)) =~= sh.rows(k + 1));
    }
//@endfn
// ------------------------------------------------------------ from the markdown to the screen
// what minimad reads
pub uninterp spec fn parsed<'s>(src: Seq<char>) -> Seq<Line<'s>>;
#[verifier::external_body]
pub struct Options { _p: core::marker::PhantomData<()> }
impl Options { #[verifier::external_body] pub fn default() -> Options { unimplemented!() } }
#[verifier::external_body]
pub fn parse_text<'s>(src: &'s str, o: Options) -> (r: Text<'s>) ensures r.lines@ == parsed(src@) { unimplemented!() }
//@fn src/text.rs FmtText::from
//@ret r
//@spec
    requires skin_ok(skin), text_ok(parsed(src@), skin),
    ensures r.skin == skin, r.width == width, formatted(parsed(src@), r.lines@, width, skin),
//@endfn
pub open spec fn bar_less(area: &Area) -> usize { if area.width == 0 { 0 } else { (area.width - 1) as usize } }
//@fn src/skin.rs MadSkin::area_text
//@ret r
//@spec
    requires skin_ok(self), text_ok(parsed(src@), self),
    ensures r.skin == self, formatted(parsed(src@), r.lines@, Some(bar_less(area)), self),
//@endfn
// a text formatted for an area can be displayed in it (no overflow of sizes)
pub open spec fn displayable(skin: &MadSkin, src: Seq<char>, area: Area, scroll: int) -> bool {
    &&& skin_ok(skin) && text_ok(parsed(src), skin) && skin.chars_wf() && 0 <= scroll <= 0x7fff_ffff_ffff && area.top as int + area.height as int <= 0xffff
    &&& forall|l: Seq<FmtLine<'_>>, b: bool| #[trigger] shot_of(skin, src, area, scroll, b, l) ==> (Shot { skin, lines: l, area, scroll, show_scrollbar: b }).drawable()
}
pub open spec fn shot_of(skin: &MadSkin, src: Seq<char>, area: Area, scroll: int, b: bool, l: Seq<FmtLine<'_>>) -> bool { formatted(parsed(src), l, Some(bar_less(&area)), skin) }
// the markdown text is displayed in the area, from this position
pub open spec fn text_shown(skin: &MadSkin, src: Seq<char>, area: Area, scroll: int, b: bool, o1: Seq<Out>, o2: Seq<Out>) -> bool {
    exists|l: Seq<FmtLine<'_>>| #[trigger] shot_of(skin, src, area, scroll, b, l) && (Shot { skin, lines: l, area, scroll, show_scrollbar: b }).shown(o1, o2)
}
//@fn src/skin.rs MadSkin::write_in_area_on
//@ret r
//@spec
    requires displayable(self, markdown@, *area, 0),
    ensures r.is_ok() ==> text_shown(self, markdown@, *area, 0, false, old(w).out(), final(w).out()),
//@at after call area_text 0
    proof { assert(shot_of(self, markdown@, *area, 0, false, text.lines@)); }
//@endfn
//@type src/views/mad_view.rs MadView
//@fn src/views/mad_view.rs MadView::write_on
//@ret r
//@spec
    requires displayable(&self.skin, self.markdown@, self.area, self.scroll as int),
    ensures r.is_ok() ==> text_shown(&self.skin, self.markdown@, self.area, self.scroll as int, true, old(w).out(), final(w).out()),
//@at after call area_text 0
    proof { assert(shot_of(&self.skin, self.markdown@, self.area, self.scroll as int, true, text.lines@)); }
//@endfn
// ------------------------------------------------------------ and the whole area is covered
// the skin's chars are one column wide, and each line of the text leaves room for its widest char
pub open spec fn roomy_text(skin: &MadSkin, src: Seq<Line<'_>>, width: usize) -> bool {
    &&& skin_ok(skin) && text_ok(src, skin) && 5 <= width < BIG() && skin.marks_ok() && skin.borders_ok() && skin.chars_wf() && chw(skin.horizontal_rule.nude_char) == 1
    &&& chw(skin.scrollbar.thumb.styled_char.content) == 1 && chw(skin.scrollbar.track.styled_char.content) == 1
    &&& forall|i: int| 0 <= i < src.len() ==> src_roomy(#[trigger] src[i], width, skin)
}
// margins aren't larger in the area than they were when the text was formatted (that's when their sum isn't the width minus 3)
pub open spec fn same_margins(l: FmtLine<'_>, skin: &MadSkin, a: usize, b: usize) -> bool {
    l matches FmtLine::Normal(fc) ==> margins(skin.line_style_of(fc.kind), Some(a)) == margins(skin.line_style_of(fc.kind), Some(b))
}
pub proof fn roomy_displayable(skin: &MadSkin, src: Seq<char>, area: Area, scroll: int)
    requires roomy_text(skin, parsed(src), bar_less(&area)), 0 <= scroll <= 0x7fff_ffff_ffff, area.top as int + area.height as int <= 0xffff,
        forall|l: Seq<FmtLine<'_>>, b: bool| #[trigger] shot_of(skin, src, area, scroll, b, l) ==> l.len() <= 0x7fff_ffff_ffff,
    ensures displayable(skin, src, area, scroll),
{
    assert forall|l: Seq<FmtLine<'_>>, b: bool| #[trigger] shot_of(skin, src, area, scroll, b, l) implies (Shot { skin, lines: l, area, scroll, show_scrollbar: b }).drawable() by {
        let sh = Shot { skin, lines: l, area, scroll, show_scrollbar: b };
        text_in(parsed(src), l, bar_less(&area), skin);
        assert forall|i: int| sh.scroll <= i < sh.count() implies sh.skin.line_sizes_ok(#[trigger] &sh.lines[i], Some(sh.text_width())) by {
            assert(line_in(l[i], bar_less(&area), skin));
            line_in_sizes(l[i], bar_less(&area), skin, Some(sh.text_width()));
        }
    }
}
pub proof fn area_covered(skin: &MadSkin, src: Seq<char>, area: Area, scroll: int, b: bool, l: Seq<FmtLine<'_>>, j: int)
    requires roomy_text(skin, parsed(src), bar_less(&area)), shot_of(skin, src, area, scroll, b, l), scroll >= 0, 0 <= j < area.height,
        scroll + j < l.len() ==> line_specials(l[scroll + j], skin) && same_margins(l[scroll + j], skin, bar_less(&area), area.width as usize),
    ensures cols((Shot { skin, lines: l, area, scroll, show_scrollbar: b }).row(j)) == area.width,
{
    let sh = Shot { skin, lines: l, area, scroll, show_scrollbar: b };
    if scroll + j < l.len() {
        text_in(parsed(src), l, bar_less(&area), skin);
        let x = l[scroll + j];
        assert(line_in(x, bar_less(&area), skin));
        assert(line_in(x, sh.text_width(), skin));
        line_in_cols(x, sh.text_width(), skin);
    }
    sh.row_cols(j);
}
// ------------------------------------------------------------ texts printed without area
#[verifier::external]
impl<'k, 's> Display for FmtText<'k, 's> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() } }
impl<'k, 's> Shown for FmtText<'k, 's> {
    uninterp spec fn chars(&self) -> Seq<char>;
    open spec fn printed(&self) -> Out { Out::Cells(self.cells_of(self.lines@.len() as int)) }
    open spec fn printable(&self) -> bool { forall|i: int| 0 <= i < self.lines@.len() ==> self.skin.line_sizes_ok(#[trigger] &self.lines@[i], self.width) }
}
// whatever the size of the terminal
#[verifier::external_body]
pub fn terminal_size() -> (r: (u16, u16)) { unimplemented!() }
pub open spec fn text_of(t: FmtText<'_, '_>, skin: &MadSkin, src: Seq<char>, width: Option<usize>) -> bool { *t.skin == *skin && t.width == width && formatted(parsed(src), t.lines@, width, skin) }
//@fn src/skin.rs MadSkin::text
//@ret r
//@spec
    requires skin_ok(self), text_ok(parsed(src@), self),
    ensures text_of(r, self, src@, width),
//@endfn
//@fn src/skin.rs MadSkin::term_text
//@ret r
//@spec
    requires skin_ok(self), text_ok(parsed(src@), self),
    ensures r.width is Some && r.width.unwrap() <= 0xffff && text_of(r, self, src@, r.width),
//@endfn
// the text, formatted for some width of the terminal, is written
pub open spec fn term_shown(skin: &MadSkin, src: Seq<char>, a: Seq<Out>, b: Seq<Out>) -> bool {
    exists|t: FmtText<'_, '_>, w: usize| w <= 0xffff && #[trigger] text_of(t, skin, src, Some(w)) && wrote(a, b, t.cells_of(t.lines@.len() as int))
}
//@fn src/skin.rs MadSkin::write_text_on
//@ret r
//@spec
    requires skin_ok(self), text_ok(parsed(src@), self),
        forall|t: FmtText<'_, '_>, w: usize| w <= 0xffff && #[trigger] text_of(t, self, src@, Some(w)) ==> t.printable(),
    ensures r.is_ok() ==> term_shown(self, src@, old(w).out(), final(w).out()),
//@at body-start
    let ghost a = w.out();
    proof {
        assert forall|t: FmtText<'_, '_>| true implies wrote(a, #[trigger] a.push(t.printed()), t.cells_of(t.lines@.len() as int)) by { wrote_one(a, t.printed()); }
    }
//@endfn
}
