//@include prelude.vrs
//@include types.vrs
//@include keys.vrs
verus! {
pub assume_specification [i32::unsigned_abs] (x: i32) -> (r: u32)
    ensures r as int == (if x < 0 { -(x as int) } else { x as int });
pub assume_specification [f64::floor] (x: f64) -> f64;
pub assume_specification [f64::ceil] (x: f64) -> f64;
// a multiplication of floats never panics
pub broadcast axiom fn f64_mul_req(a: f64, b: f64)
    ensures #[trigger] vstd::std_specs::ops::MulSpec::mul_req(a, b);
//@include area_specs.vrs
//@include tview_specs.vrs
//@type src/views/mad_view.rs MadView
//@fn src/views/text_view.rs TextView::set_scroll
//@ret r
//@spec
    ensures
        final(self).wf(),
        r == final(self).scroll,
        final(self).scroll as int == scrolled(scroll as int, 0, old(self).max()),
        final(self).area == old(self).area, final(self).text == old(self).text, final(self).show_scrollbar == old(self).show_scrollbar,
//@endfn
//@fn src/views/text_view.rs TextView::try_scroll_lines
//@spec
    // (a non negative scrolling also brings back a scroll which is too big)
    requires old(self).scroll <= 0x7fff_ffff_ffff_ffff,
    ensures
        lines_count >= 0 || old(self).wf() ==> final(self).wf() && final(self).moved(old(self), lines_count as int),
        final(self).area == old(self).area && final(self).text == old(self).text && final(self).show_scrollbar == old(self).show_scrollbar,
//@at body-start
    proof { vrt_vec_len(&self.text.lines); }
//@endfn
//@fn src/views/text_view.rs TextView::line_up
//@ret r
//@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).moved(old(self), -1), r == (final(self).scroll != old(self).scroll),
//@endfn
//@fn src/views/text_view.rs TextView::line_down
//@ret r
//@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).moved(old(self), 1), r == (final(self).scroll != old(self).scroll),
//@at body-start
    proof { vrt_vec_len(&self.text.lines); }
//@endfn
//@fn src/views/text_view.rs TextView::page_up
//@ret r
//@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).moved(old(self), -old(self).height()),
        old(self).height() > 0 ==> r == (final(self).scroll != old(self).scroll),
        !r ==> final(self).scroll == old(self).scroll,
//@endfn
//@fn src/views/text_view.rs TextView::page_down
//@ret r
//@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).moved(old(self), old(self).height()),
        old(self).height() > 0 ==> r == (final(self).scroll != old(self).scroll),
        !r ==> final(self).scroll == old(self).scroll,
//@at body-start
    proof { vrt_vec_len(&self.text.lines); }
//@endfn
// what a key does
pub open spec fn key_delta(key: KeyCombination, height: int) -> int {
    if key.modifiers != (KeyModifiers { bits: 0 }) { 0 } else {
        match key.codes {
            OneToThree::One(KeyCode::Up) => -1,
            OneToThree::One(KeyCode::Down) => 1,
            OneToThree::One(KeyCode::PageUp) => -height,
            OneToThree::One(KeyCode::PageDown) => height,
            _ => 0,
        }
    }
}
//@fn src/views/text_view.rs TextView::apply_key_combination
//@sig (&mut self, key: KeyCombination) -> (r: bool)
//@rule into_id key
//@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).moved(old(self), key_delta(key, old(self).height())),
        old(self).height() > 0 ==> r == (final(self).scroll != old(self).scroll),
        !r ==> final(self).scroll == old(self).scroll,
//@endfn

//@fn src/views/text_view.rs TextView::try_scroll_pages
//@sig (&mut self, pages_count: f64)
//@rule into_id pages_count
//@at body-start
    broadcast use f64_mul_req;
    proof { vrt_vec_len(&self.text.lines); }
//@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).area == old(self).area, final(self).text == old(self).text, final(self).show_scrollbar == old(self).show_scrollbar,
//@endfn

// ------------------------------------------------------------------ MadView
// the number of lines of the markdown formatted with the skin for a width
pub uninterp spec fn text_height(skin: MadSkin, markdown: Seq<char>, width: u16) -> nat;
// (it's the length of a Vec)
pub broadcast axiom fn text_height_bound(skin: MadSkin, markdown: Seq<char>, width: u16)
    ensures #[trigger] text_height(skin, markdown, width) <= 0x7fff_ffff_ffff_ffff;
impl MadSkin {
    #[verifier::external_body]
    pub fn area_text<'k, 's>(&'k self, src: &'s str, area: &Area) -> (r: FmtText<'k, 's>)
        ensures r.lines@.len() == text_height(*self, src@, area.width), r.skin == self,
    { unimplemented!() }
}
pub assume_specification [i32::saturating_mul] (a: i32, b: i32) -> (r: i32)
    ensures r as int == (if a * b > i32::MAX { i32::MAX as int } else if a * b < i32::MIN { i32::MIN as int } else { a * b });
impl MadView {
    pub open spec fn height(&self) -> int { self.area.height as int }
    pub open spec fn max(&self) -> int { max_scroll(text_height(self.skin, self.markdown@, self.area.width) as int, self.height()) }
    pub open spec fn wf(&self) -> bool { 0 <= self.scroll <= self.max() }
    pub open spec fn moved(&self, was: &Self, delta: int) -> bool {
        &&& self.scroll as int == scrolled(was.scroll as int, delta, was.max())
        &&& self.area == was.area && self.markdown == was.markdown && self.skin == was.skin
    }
}
//@fn src/views/mad_view.rs MadView::from
//@ret r
//@spec
    ensures r.markdown == markdown, r.area == area, r.skin == skin, r.scroll == 0, r.wf(),
//@endfn
//@fn src/views/mad_view.rs MadView::resize
//@at body-start
    broadcast use text_height_bound;
//@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).area == *area, final(self).markdown == old(self).markdown, final(self).skin == old(self).skin,
        // the scroll is kept when possible
        area.width == old(self).area.width ==> final(self).scroll as int == scrolled(old(self).scroll as int, 0, final(self).max()),
//@endfn
//@fn src/views/mad_view.rs MadView::try_scroll_lines
//@spec
    // (also used when the scroll is too big for a new height)
    requires old(self).scroll <= 0x7fff_ffff_ffff_ffff,
    ensures
        lines_count >= 0 || old(self).wf() ==> final(self).wf() && final(self).moved(old(self), lines_count as int),
        final(self).area == old(self).area && final(self).markdown == old(self).markdown && final(self).skin == old(self).skin,
//@endfn
//@fn src/views/mad_view.rs MadView::try_scroll_pages
//@rule call i32::from vrt_i32_from_u16
//@at body-start
    broadcast use text_height_bound;
//@spec
    requires old(self).wf(),
    ensures final(self).wf(), 
        // (the number of lines saturates on 32 bits)
        i32::MIN <= pages_count * old(self).height() <= i32::MAX ==> final(self).moved(old(self), pages_count * old(self).height()),
//@endfn
//@fn src/views/mad_view.rs MadView::apply_key_combination
//@sig (&mut self, key: KeyCombination) -> (r: bool)
//@rule into_id key
//@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).moved(old(self), key_delta(key, old(self).height())),
        old(self).height() > 0 ==> r == (final(self).scroll != old(self).scroll),
        !r ==> final(self).scroll == old(self).scroll,
//@endfn
}
fn main() {}
