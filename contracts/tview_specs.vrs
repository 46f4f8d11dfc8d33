// the state of a text view, and its scrollbar
//@type src/views/text_view.rs TextView

// the greatest scroll position: the last line is at the bottom of the area
pub open spec fn max_scroll(content: int, height: int) -> int { if content > height { content - height } else { 0 } }
// what a scrolling by a signed number of lines must give
pub open spec fn scrolled(scroll: int, delta: int, max: int) -> int {
    if scroll + delta < 0 { 0 } else if scroll + delta > max { max } else { scroll + delta }
}
pub proof fn scrolled_in_bounds(scroll: int, delta: int, max: int)
    requires 0 <= max,
    ensures 0 <= scrolled(scroll, delta, max) <= max, 
{}

impl<'a, 't> TextView<'a, 't> {
    pub open spec fn height(&self) -> int { self.area.height as int }
    pub open spec fn count(&self) -> int { self.text.lines@.len() as int }
    pub open spec fn max(&self) -> int { max_scroll(self.count(), self.height()) }
    // the invariant of C12
    pub open spec fn wf(&self) -> bool { 0 <= self.scroll <= self.max() }
    // the operation moved by delta, unless a bound stopped it, and left the rest unchanged
    pub open spec fn moved(&self, was: &Self, delta: int) -> bool {
        &&& self.scroll as int == scrolled(was.scroll as int, delta, was.max())
        &&& self.area == was.area && self.text == was.text && self.show_scrollbar == was.show_scrollbar
    }
    pub open spec fn small(&self) -> bool { self.count() <= 0x7fff_ffff_ffff }
}

//@fn src/views/text_view.rs TextView::from
//@sig (area: &'a Area, text: &'t FmtText<'t, 't>) -> (r: TextView<'a, 't>)
//@spec
    ensures r.area == area, r.text == text, r.scroll == 0, r.show_scrollbar, r.wf(),
//@endfn
//@fn src/views/text_view.rs TextView::content_height
//@ret r
//@spec
    ensures r as int == self.count(),
//@endfn
//@fn src/views/text_view.rs TextView::scrollbar
//@ret r
//@spec
    requires self.scroll <= 0x7fff_ffff_ffff, self.small(), self.area.top as int + self.area.height as int <= 0xffff,
    ensures
        self.show_scrollbar ==> thumb_ok(self.scroll as int, self.count(), self.height(), self.area.top as int, r),
        r matches Some((a, b)) ==> a as int == self.area.top + thumb_top(self.scroll as int, self.count(), self.height())
            && b as int == self.area.top + thumb_bottom(self.scroll as int, self.count(), self.height()),
        !self.show_scrollbar ==> r.is_none(),
//@endfn
