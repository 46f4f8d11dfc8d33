// input fields: content, scroll and focus
verus! {
//@type crossterm:src/event.rs KeyEventKind derive=Structural,PartialEq,Eq,Clone,Copy
// crossterm's bitflags
#[derive(Structural, PartialEq, Eq, Clone, Copy)]
pub struct KeyEventState { pub bits: u8 }
//@type crossterm:src/event.rs KeyEvent derive=Structural,PartialEq,Eq,Clone,Copy
//@type crossterm:src/event.rs MouseButton derive=Structural,PartialEq,Eq,Clone,Copy
//@type crossterm:src/event.rs MouseEventKind derive=Structural,PartialEq,Eq,Clone,Copy
//@type crossterm:src/event.rs MouseEvent derive=Structural,PartialEq,Eq,Clone,Copy
//@type crossterm:src/event.rs Event
//@type src/events/timed_event.rs TimedEvent drop=time
//@type src/views/input_field.rs InputField
pub type Mod = KeyModifiers;
impl KeyModifiers {
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.bits == 0) { self.bits == 0 }
}
// crokey: the key combination of a key event (unspecified), and the comparison of combinations
pub trait VrtHasKey { fn vrt_has_key(&self, key: &KeyCombination) -> (r: bool); }
impl VrtHasKey for Vec<KeyCombination> {
    #[verifier::external_body]
    fn vrt_has_key(&self, key: &KeyCombination) -> (r: bool) { unimplemented!() }
}

impl InputField {
    pub open spec fn h(&self) -> int { self.area.height as int }
    pub open spec fn n(&self) -> int { self.content.lines@.len() as int }
    // (an area of at least one cell, on the screen)
    pub open spec fn geom(&self) -> bool {
        self.area.width >= 1 && self.area.height >= 1
        && self.area.left + self.area.width <= 0xffff && self.area.top + self.area.height <= 0xffff
    }
    // no blank row below the text when it's longer than the area
    pub open spec fn noblank(&self) -> bool {
        self.scroll.y + self.h() <= (if self.n() > self.h() { self.n() } else { self.h() })
    }
    // the line of the cursor is displayed
    pub open spec fn in_view(&self) -> bool { self.scroll.y <= self.content.pos.y < self.scroll.y + self.h() }
    pub open spec fn sane(&self) -> bool { self.scroll.y <= 0x7fff_ffff_ffff_ffff && self.scroll.x <= 0x4fff_ffff_ffff_ffff }
    // the invariant of C11
    pub open spec fn ok(&self) -> bool { self.content.wf() && self.geom() && self.sane() && self.noblank() }
    // the same settings (only the content and the scroll may have changed)
    pub open spec fn set_as(&self, was: &Self) -> bool {
        &&& self.area == was.area && self.focused == was.focused && self.password_mode == was.password_mode
        &&& self.focused_style == was.focused_style && self.unfocused_style == was.unfocused_style && self.cursor_style == was.cursor_style
        &&& self.new_line_keys == was.new_line_keys
    }
    // after an operation, telling whether it did something: the cursor, if it may have moved, is in view
    pub open spec fn after(&self, was: &Self, done: bool) -> bool {
        &&& self.ok() && self.set_as(was)
        &&& done && self.focused ==> self.in_view()
        &&& was.content.pos != self.content.pos && self.focused ==> self.in_view()
    }
}
//@fn src/views/input_field_content.rs InputFieldContent::lines
//@ret r
//@spec
    ensures r@ == self.lines@,
//@endfn
//@fn src/views/input_field.rs InputField::fix_scroll
//@attrs #[verifier::spinoff_prover]
//@spec
    requires old(self).content.wf(), old(self).geom(), old(self).sane(),
    ensures final(self).ok(), final(self).set_as(old(self)), final(self).content == old(self).content,
        final(self).focused ==> final(self).in_view(),
        // nothing is scrolled for nothing
        old(self).in_view() && old(self).noblank() ==> final(self).scroll.y == old(self).scroll.y,
//@at body-start
    proof {
        self.content.bounds();
        let l = self.content.lines@[self.content.pos.y as int].chars;
        vrt_vec_char_len(&l); cols_max(l@);
        vrt_vec_len(&self.content.lines);
        assert(self.content.lv()[self.content.pos.y as int] == l@);
        cols_max(l@.take(self.content.pos.x as int));
    }
//@endfn
pub proof fn cols_max(s: Seq<char>)
    ensures 0 <= cols(s) <= 2 * s.len(),
    decreases s.len(),
{
    if s.len() > 0 {
        cols_max(s.drop_last()); uwidth_max(s.last());
        tab_cols();
    }
}
pub proof fn tab_cols()
    ensures TAB_REPLACEMENT@ =~= seq![' ', ' '],
{ reveal_strlit("  "); }
//@fn src/views/input_field.rs InputField::scroll_up
//@ret r
//@spec
    requires old(self).ok(),
    ensures final(self).ok(), final(self).set_as(old(self)), final(self).content == old(self).content, final(self).scroll.x == old(self).scroll.x,
        final(self).scroll.y as int == (if old(self).scroll.y > 0 { old(self).scroll.y - 1 } else { 0 }), r == (final(self).scroll != old(self).scroll),
//@endfn
//@fn src/views/input_field.rs InputField::scroll_down
//@ret r
//@spec
    requires old(self).ok(),
    ensures final(self).ok(), final(self).set_as(old(self)), final(self).content == old(self).content, final(self).scroll.x == old(self).scroll.x,
        final(self).scroll.y as int == (if old(self).scroll.y + old(self).h() < old(self).n() { old(self).scroll.y + 1 } else { old(self).scroll.y as int }),
        r == (final(self).scroll != old(self).scroll),
//@at body-start
    proof { vrt_vec_len(&self.content.lines); }
//@endfn
//@fn src/views/input_field.rs InputField::new
//@ret r
//@spec
    requires area.width >= 1, area.height >= 1, area.left + area.width <= 0xffff, area.top + area.height <= 0xffff,
    ensures r.ok(), r.area == area, r.focused, !r.password_mode, r.in_view(), r.content.pos == (Pos { y: 0, x: 0 }), r.new_line_keys@.len() == 0,
        r.content.string() =~= Seq::<char>::empty(), r.content.selection_tail is None,
//@at body-start
    proof { cat_one(Seq::<char>::empty()); assert(cat(seq![Seq::<char>::empty()]).drop_last() =~= Seq::<char>::empty()); }
//@endfn
//@fn src/views/input_field.rs InputField::set_mono_line
//@spec
    ensures final(self).new_line_keys@.len() == 0, final(self).content == old(self).content, final(self).scroll == old(self).scroll, final(self).area == old(self).area, final(self).focused == old(self).focused,
//@endfn
//@fn src/views/input_field.rs InputField::change_area
//@spec
    requires old(self).ok(), w >= 1, x + w <= 0xffff, y + old(self).area.height <= 0xffff,
    ensures final(self).ok(), final(self).content == old(self).content, final(self).focused == old(self).focused,
        final(self).area == (Area { left: x, top: y, width: w, height: old(self).area.height }),
        final(self).focused && old(self).in_view() ==> final(self).in_view(),
        final(self).area != old(self).area && final(self).focused ==> final(self).in_view(),
//@endfn
//@fn src/views/input_field.rs InputField::set_area
//@spec
    requires old(self).ok(), area.width >= 1, area.height >= 1, area.left + area.width <= 0xffff, area.top + area.height <= 0xffff,
    ensures final(self).ok(), final(self).content == old(self).content, final(self).focused == old(self).focused, final(self).area == area,
        final(self).focused && old(self).in_view() ==> final(self).in_view(),
        final(self).area != old(self).area && final(self).focused ==> final(self).in_view(),
//@endfn
//@fn src/views/input_field.rs InputField::area
//@ret r
//@spec
    ensures *r == self.area,
//@endfn
//@fn src/views/input_field.rs InputField::scroll
//@ret r
//@spec
    ensures r == self.scroll,
//@endfn
//@fn src/views/input_field.rs InputField::set_focus
//@spec
    requires old(self).ok(),
    ensures final(self).ok(), final(self).content == old(self).content, final(self).area == old(self).area, final(self).focused == b,
        final(self).focused && (!old(self).focused || old(self).in_view()) ==> final(self).in_view(),
//@endfn
//@fn src/views/input_field.rs InputField::focused
//@ret r
//@spec
    ensures r == self.focused,
//@endfn
//@fn src/views/input_field.rs InputField::content
//@ret r
//@spec
    ensures *r == self.content,
//@endfn
//@fn src/views/input_field.rs InputField::can_move_left
//@ret r
//@spec
    requires self.ok(),
    ensures r == (self.content.pos != (Pos { y: 0, x: 0 })),
//@endfn
//@fn src/views/input_field.rs InputField::can_move_right
//@ret r
//@spec
    requires self.ok(),
    ensures r == (self.content.pos != end_of(self.content.lv())),
//@endfn
//@fn src/views/input_field.rs InputField::is_empty
//@ret r
//@spec
    requires self.ok(),
    ensures r == (self.content.string().len() == 0),
//@endfn
//@fn src/views/input_field.rs InputField::is_content
//@ret r
//@spec
    requires self.ok(),
    ensures r == (self.content.string() == s@),
//@endfn
//@fn src/views/input_field.rs InputField::copy_selection
//@ret r
//@spec
    requires old(self).ok(),
    ensures *final(self) == *old(self),
        r@ == old(self).content.string().subrange(old(self).content.sel_from(), old(self).content.sel_to()),
//@endfn
// what del_selection does on a content
pub open spec fn sel_deleted(was: InputFieldContent, now: InputFieldContent) -> bool {
    &&& was.sel_min() != was.sel_max() ==> now.string() == was.string().take(was.sel_from()) + was.string().skip(was.sel_to())
            && now.at() == was.sel_from() && now.pos == was.sel_min() && now.selection_tail is None
    &&& was.sel_min() == was.sel_max() ==> {
        let r = was.at() < was.string().len() || (was.lv().len() > 1 && was.lv()[was.pos.y as int].len() == 0);
        &&& (r ==> now.text() == was.text().remove(was.at()))
        &&& (!r ==> now == was)
    }
}
//@fn src/views/input_field.rs InputField::cut_selection
//@ret r
//@spec
    requires old(self).ok(),
    ensures final(self).after(old(self), true), sel_deleted(old(self).content, final(self).content),
        r@ == old(self).content.string().subrange(old(self).content.sel_from(), old(self).content.sel_to()),
//@endfn
pub proof fn replaced_selection(c0: InputFieldContent, c1: InputFieldContent, c2: InputFieldContent, k: Seq<char>)
    requires c0.wf(), c1.wf(), c2.wf(),
        c2.text() == c1.text().take(c1.at()) + k + c1.text().skip(c1.at()), c2.at() == c1.at() + k.len(),
        c0.sel_min() != c0.sel_max() ==> sel_deleted(c0, c1),
    ensures c0.sel_min() != c0.sel_max() ==> c2.string() == c0.string().take(c0.sel_from()) + k + c0.string().skip(c0.sel_to()) && c2.at() == c0.sel_from() + k.len(),
{
    if c0.sel_min() != c0.sel_max() {
        c0.bounds(); c1.bounds(); c2.bounds();
        text_string(c0.lv()); text_string(c1.lv()); text_string(c2.lv());
        at_pos(c0.lv(), c0.sel_min()); at_pos(c0.lv(), c0.sel_max()); off_mono(c0.lv(), c0.sel_min(), c0.sel_max()); end_off(c0.lv());
        let (a, b) = (c0.sel_from(), c0.sel_to());
        let s1 = c1.string();
        assert(s1.take(a) =~= c0.string().take(a));
        assert(s1.skip(a) =~= c0.string().skip(b));
        assert(c1.text() =~= s1.push('\n'));
        assert(c1.text().take(a) =~= s1.take(a));
        assert(c1.text().skip(a) =~= s1.skip(a).push('\n'));
        assert(c2.text() =~= (s1.take(a) + k + s1.skip(a)).push('\n'));
        assert(c2.string() =~= s1.take(a) + k + s1.skip(a));
    }
}
//@fn src/views/input_field.rs InputField::replace_selection
//@sig (&mut self, s: &str)
//@spec
    requires old(self).ok(),
    ensures final(self).after(old(self), true),
        ({
            let was = old(self).content; let now = final(self).content;
            let wide = was.selection_tail is Some && was.selection_tail != Some(was.pos);
            &&& (wide ==> now.string() == was.string().take(was.sel_from()) + kept(s@) + was.string().skip(was.sel_to()) && now.at() == was.sel_from() + kept(s@).len())
            &&& (!wide ==> now.text() == was.text().take(was.at()) + kept(s@) + was.text().skip(was.at()) && now.at() == was.at() + kept(s@).len())
        }),
//@at body-start
    let ghost c0 = self.content;
    proof { self.content.bounds(); }
//@at before call insert_str 0
    let ghost c1 = self.content;
//@at after call insert_str 0
    proof { replaced_selection(c0, c1, self.content, kept(s@)); }
//@endfn
//@fn src/views/input_field.rs InputField::set_str
//@sig (&mut self, s: &str)
//@spec
    requires old(self).ok(),
    ensures final(self).after(old(self), true), final(self).content.string() == kept(s@),
        old(self).content.string() != s@ ==> final(self).content.at() == kept(s@).len(),
        old(self).content.string() == s@ ==> final(self).content.pos == old(self).content.pos,
//@endfn
//@fn src/views/input_field.rs InputField::insert_new_line
//@ret r
//@spec
    requires old(self).ok(),
    ensures r, final(self).after(old(self), true), final(self).content.text() == old(self).content.text().insert(old(self).content.at(), '\n'),
        final(self).content.at() == old(self).content.at() + 1,
//@endfn
//@fn src/views/input_field.rs InputField::put_char
//@ret r
//@spec
    requires old(self).content.wf(), old(self).geom(), old(self).sane(),
    ensures r, final(self).after(old(self), true),
        !keep(c) ==> final(self).content.text() == old(self).content.text() && final(self).content.at() == old(self).content.at(),
        keep(c) ==> final(self).content.text() == old(self).content.text().insert(old(self).content.at(), c) && final(self).content.at() == old(self).content.at() + 1,
//@endfn
//@fn src/views/input_field.rs InputField::clear
//@spec
    requires old(self).ok(),
    ensures final(self).after(old(self), true), final(self).content.lv() =~~= seq![Seq::<char>::empty()], final(self).content.pos == (Pos { y: 0, x: 0 }), final(self).content.selection_tail is None,
//@endfn
//@fn src/views/input_field.rs InputField::insert_str
//@sig (&mut self, s: &str)
//@spec
    requires old(self).ok(),
    ensures final(self).after(old(self), true),
        final(self).content.text() == old(self).content.text().take(old(self).content.at()) + kept(s@) + old(self).content.text().skip(old(self).content.at()),
        final(self).content.at() == old(self).content.at() + kept(s@).len(),
//@endfn
//@fn src/views/input_field.rs InputField::move_up
//@ret r
//@spec
    requires old(self).ok(),
    ensures final(self).after(old(self), r),
        final(self).content.wf(), final(self).content.lines == old(self).content.lines, final(self).content.selection_tail == old(self).content.selection_tail,
        r == (final(self).content.pos != old(self).content.pos),
//@at body-start
    proof { self.content.bounds(); }
//@endfn
//@fn src/views/input_field.rs InputField::move_down
//@ret r
//@spec
    requires old(self).ok(),
    ensures final(self).after(old(self), r),
        final(self).content.wf(), final(self).content.lines == old(self).content.lines, final(self).content.selection_tail == old(self).content.selection_tail,
        r == (final(self).content.pos != old(self).content.pos),
//@at body-start
    proof { self.content.bounds(); }
//@endfn
//@fn src/views/input_field.rs InputField::move_left
//@ret r
//@spec
    requires old(self).ok(),
    ensures final(self).after(old(self), r),
        final(self).content.wf(), final(self).content.lines == old(self).content.lines, final(self).content.selection_tail == old(self).content.selection_tail,
        r == (final(self).content.pos != old(self).content.pos),
        r == (old(self).content.pos != (Pos { y: 0, x: 0 })), r ==> plt(final(self).content.pos, old(self).content.pos),
//@at body-start
    proof { self.content.bounds(); }
//@endfn
//@fn src/views/input_field.rs InputField::move_right
//@ret r
//@spec
    requires old(self).ok(),
    ensures final(self).after(old(self), r),
        final(self).content.wf(), final(self).content.lines == old(self).content.lines, final(self).content.selection_tail == old(self).content.selection_tail,
        r == (final(self).content.pos != old(self).content.pos),
        r == (old(self).content.pos != end_of(old(self).content.lv())), r ==> plt(old(self).content.pos, final(self).content.pos),
//@at body-start
    proof { self.content.bounds(); }
//@endfn
//@fn src/views/input_field.rs InputField::move_to_start
//@ret r
//@spec
    requires old(self).ok(),
    ensures final(self).after(old(self), r),
        final(self).content.wf(), final(self).content.lines == old(self).content.lines, final(self).content.selection_tail == old(self).content.selection_tail,
        r == (final(self).content.pos != old(self).content.pos),
        final(self).content.pos == (Pos { y: 0, x: 0 }),
//@at body-start
    proof { self.content.bounds(); }
//@endfn
//@fn src/views/input_field.rs InputField::move_to_end
//@ret r
//@spec
    requires old(self).ok(),
    ensures final(self).after(old(self), r),
        final(self).content.wf(), final(self).content.lines == old(self).content.lines, final(self).content.selection_tail == old(self).content.selection_tail,
        r == (final(self).content.pos != old(self).content.pos),
        final(self).content.pos == end_of(old(self).content.lv()),
//@at body-start
    proof { self.content.bounds(); }
//@endfn
//@fn src/views/input_field.rs InputField::move_to_line_start
//@ret r
//@spec
    requires old(self).ok(),
    ensures final(self).after(old(self), r),
        final(self).content.wf(), final(self).content.lines == old(self).content.lines, final(self).content.selection_tail == old(self).content.selection_tail,
        r == (final(self).content.pos != old(self).content.pos),
        final(self).content.pos.y == old(self).content.pos.y, final(self).content.pos.x == 0,
//@at body-start
    proof { self.content.bounds(); }
//@endfn
//@fn src/views/input_field.rs InputField::move_to_line_end
//@ret r
//@spec
    requires old(self).ok(),
    ensures final(self).after(old(self), r),
        final(self).content.wf(), final(self).content.lines == old(self).content.lines, final(self).content.selection_tail == old(self).content.selection_tail,
        r == (final(self).content.pos != old(self).content.pos),
        final(self).content.pos.y == old(self).content.pos.y, final(self).content.pos.x == old(self).content.lv()[old(self).content.pos.y as int].len(),
//@at body-start
    proof { self.content.bounds(); }
//@endfn
//@fn src/views/input_field.rs InputField::move_word_left
//@ret r
//@spec
    requires old(self).ok(),
    ensures final(self).after(old(self), r),
        final(self).content.wf(), final(self).content.lines == old(self).content.lines, final(self).content.selection_tail == old(self).content.selection_tail,
        r == (final(self).content.pos != old(self).content.pos),
        final(self).content.pos.y == old(self).content.pos.y, final(self).content.pos.x <= old(self).content.pos.x,
//@at body-start
    proof { self.content.bounds(); }
//@endfn
//@fn src/views/input_field.rs InputField::move_word_right
//@ret r
//@spec
    requires old(self).ok(),
    ensures final(self).after(old(self), r),
        final(self).content.wf(), final(self).content.lines == old(self).content.lines, final(self).content.selection_tail == old(self).content.selection_tail,
        r == (final(self).content.pos != old(self).content.pos),
        final(self).content.pos.y == old(self).content.pos.y, final(self).content.pos.x >= old(self).content.pos.x,
//@at body-start
    proof { self.content.bounds(); }
//@endfn
//@fn src/views/input_field.rs InputField::del_char_below
//@ret r
//@spec
    requires old(self).ok(),
    ensures final(self).after(old(self), r),
        final(self).content.wf(),
        r == (old(self).content.at() < old(self).content.string().len() || (old(self).content.lv().len() > 1 && old(self).content.lv()[old(self).content.pos.y as int].len() == 0)),
        // the character or line break under the cursor (on an empty last line, this line)
        r ==> final(self).content.text() == old(self).content.text().remove(old(self).content.at()),
        r && old(self).content.at() < old(self).content.string().len() ==> final(self).content.at() == old(self).content.at() && final(self).content.pos == old(self).content.pos,
        r && old(self).content.at() == old(self).content.string().len() ==> final(self).content.at() == old(self).content.at() - 1,
        !r ==> final(self).content == old(self).content,
//@at body-start
    proof { self.content.bounds(); }
//@endfn
//@fn src/views/input_field.rs InputField::del_selection
//@ret r
//@spec
    requires old(self).ok(),
    ensures final(self).after(old(self), r),
        final(self).content.wf(),
        // exactly what selection_string returns is removed, and the cursor is put where it was
        old(self).content.sel_min() != old(self).content.sel_max() ==> r && final(self).content.string() == old(self).content.string().take(old(self).content.sel_from()) + old(self).content.string().skip(old(self).content.sel_to())
            && final(self).content.at() == old(self).content.sel_from() && final(self).content.pos == old(self).content.sel_min() && final(self).content.selection_tail is None,
        // a selection which is just the cursor: the character under it
        old(self).content.sel_min() == old(self).content.sel_max() ==> {
            &&& r == (old(self).content.at() < old(self).content.string().len() || (old(self).content.lv().len() > 1 && old(self).content.lv()[old(self).content.pos.y as int].len() == 0))
            &&& (r ==> final(self).content.text() == old(self).content.text().remove(old(self).content.at()))
            &&& (!r ==> final(self).content == old(self).content)
        },
//@at body-start
    proof { self.content.bounds(); }
//@endfn
//@fn src/views/input_field.rs InputField::del_char_left
//@ret r
//@spec
    requires old(self).ok(),
    ensures final(self).after(old(self), r),
        final(self).content.wf(), r == (old(self).content.at() > 0),
        r ==> final(self).content.text() == old(self).content.text().remove(old(self).content.at() - 1) && final(self).content.at() == old(self).content.at() - 1,
        !r ==> final(self).content == old(self).content,
//@at body-start
    proof { self.content.bounds(); }
//@endfn
//@fn src/views/input_field.rs InputField::del_word_left
//@ret r
//@spec
    requires old(self).ok(),
    ensures final(self).after(old(self), r),
        final(self).content.wf(), r == (old(self).content.pos.x > 0),
        // removes one run of the line, ending at the cursor
        final(self).content.pos.y == old(self).content.pos.y, r ==> final(self).content.pos.x < old(self).content.pos.x,
        final(self).content.lv() =~= cut_line(old(self).content.lv(), old(self).content.pos.y as int, final(self).content.pos.x as int, old(self).content.pos.x as int),
        final(self).content.text() == old(self).content.text().take(final(self).content.at()) + old(self).content.text().skip(old(self).content.at()),
        final(self).content.at() == old(self).content.at() - (old(self).content.pos.x - final(self).content.pos.x),
        !r ==> final(self).content == old(self).content,
//@at body-start
    proof { self.content.bounds(); }
//@endfn
//@fn src/views/input_field.rs InputField::del_word_right
//@ret r
//@spec
    requires old(self).ok(),
    ensures final(self).after(old(self), r),
        final(self).content.wf(), final(self).content.pos.y == old(self).content.pos.y,
        r == (old(self).content.lv()[old(self).content.pos.y as int].len() > 0),
        ({
            let l = old(self).content.lv()[old(self).content.pos.y as int];
            let k = l.len() - final(self).content.lv()[old(self).content.pos.y as int].len();
            // removes one run of the line, starting at the cursor, empty only when the cursor is at the end of the line
            &&& 0 <= k &&& old(self).content.pos.x + k <= l.len()
            &&& (old(self).content.pos.x < l.len() ==> k > 0)
            &&& final(self).content.lv() =~= cut_line(old(self).content.lv(), old(self).content.pos.y as int, old(self).content.pos.x as int, old(self).content.pos.x + k)
            &&& final(self).content.text() == old(self).content.text().take(old(self).content.at()) + old(self).content.text().skip(old(self).content.at() + k)
            // the cursor doesn't move, except to stay on a character at the end of the line
            &&& (final(self).content.pos.x == old(self).content.pos.x || (old(self).content.pos.x + k == l.len() && final(self).content.pos.x == old(self).content.pos.x - 1))
        }),
//@at body-start
    proof { self.content.bounds(); }
//@endfn
//@fn src/views/input_field.rs InputField::move_current_line_up
//@ret r
//@spec
    requires old(self).ok(),
    ensures final(self).after(old(self), r),
        final(self).content.wf(), r == (old(self).content.pos.y > 0),
        r ==> final(self).content.lv() =~= old(self).content.lv().update(old(self).content.pos.y - 1, old(self).content.lv()[old(self).content.pos.y as int]).update(old(self).content.pos.y as int, old(self).content.lv()[old(self).content.pos.y - 1]) && final(self).content.pos.y == old(self).content.pos.y - 1,
        !r ==> final(self).content == old(self).content,
//@at body-start
    proof { self.content.bounds(); }
//@endfn
//@fn src/views/input_field.rs InputField::move_current_line_down
//@ret r
//@spec
    requires old(self).ok(),
    ensures final(self).after(old(self), r),
        final(self).content.wf(), r == (old(self).content.pos.y + 1 < old(self).content.lv().len()),
        r ==> final(self).content.lv() =~= old(self).content.lv().update(old(self).content.pos.y + 1, old(self).content.lv()[old(self).content.pos.y as int]).update(old(self).content.pos.y as int, old(self).content.lv()[old(self).content.pos.y + 1]) && final(self).content.pos.y == old(self).content.pos.y + 1,
        !r ==> final(self).content == old(self).content,
//@at body-start
    proof { self.content.bounds(); }
//@endfn
//@fn src/views/input_field.rs InputField::select_word_around
//@ret r
//@spec
    requires old(self).ok(),
    ensures final(self).after(old(self), r),
        final(self).content.wf(), final(self).content.lines == old(self).content.lines, final(self).content.pos.y == old(self).content.pos.y,
        !r ==> final(self).content == old(self).content,
        r ==> final(self).content.selection_tail is Some && final(self).content.selection_tail->0.y == old(self).content.pos.y
            && final(self).content.selection_tail->0.x <= old(self).content.pos.x <= final(self).content.pos.x < old(self).content.lv()[old(self).content.pos.y as int].len(),
//@at body-start
    proof { self.content.bounds(); }
//@endfn

//@fn src/views/input_field.rs InputField::page_up
//@ret r
//@spec
    requires old(self).ok(),
    ensures final(self).after(old(self), r), r == (final(self).content.pos != old(self).content.pos), final(self).content.lines == old(self).content.lines,
        r ==> final(self).content.pos.y as int == (if old(self).h() < old(self).content.pos.y { old(self).content.pos.y - old(self).h() } else { 0 }),
//@endfn
//@fn src/views/input_field.rs InputField::page_down
//@ret r
//@spec
    requires old(self).ok(),
    ensures final(self).after(old(self), r), r == (final(self).content.pos != old(self).content.pos), final(self).content.lines == old(self).content.lines,
        r ==> final(self).content.pos.y as int == (if old(self).h() + old(self).content.pos.y < old(self).n() { old(self).content.pos.y + old(self).h() } else { old(self).n() - 1 }),
//@endfn
// ------------------------------------------------------------- events
//@fn src/views/input_field.rs InputField::apply_keycode_event
//@ret r
//@spec
    requires old(self).ok(),
    ensures final(self).after(old(self), r),
//@at body-start
    proof { self.content.bounds(); }
//@endfn
//@fn src/views/input_field.rs InputField::apply_key_combination
//@sig (&mut self, key: KeyCombination) -> (r: bool)
//@rule into_id key
//@rule method contains vrt_has_key
//@spec
    requires old(self).ok(),
    ensures final(self).after(old(self), r),
        !old(self).focused ==> !r && *final(self) == *old(self),
//@endfn
//@fn src/views/input_field.rs InputField::apply_click_event
//@ret r
//@spec
    requires old(self).ok(),
    ensures final(self).ok(), final(self).area == old(self).area, final(self).content.lines == old(self).content.lines, final(self).content.selection_tail == old(self).content.selection_tail,
        r == old(self).has_cell(x, y), final(self).focused == (old(self).focused || r),
        !r ==> *final(self) == *old(self),
        r ==> final(self).in_view(),
        // the clicked char, or the end of the clicked line
        r && old(self).focused ==> final(self).scroll == old(self).scroll && old(self).at_cell(final(self).content.pos, x, y),
//@at body-start
    proof { self.content.bounds(); vrt_vec_len(&self.content.lines); }
//@endfn
impl InputField {
    pub open spec fn has_cell(&self, x: u16, y: u16) -> bool {
        self.area.left <= x < self.area.left + self.area.width && self.area.top <= y < self.area.top + self.area.height
    }
    // p is the position of the char displayed in this cell
    pub open spec fn at_cell(&self, p: Pos, x: u16, y: u16) -> bool {
        let row = y - self.area.top + self.scroll.y;
        let col = x - self.area.left + self.scroll.x;
        let s = self.content.lv();
        &&& p.y as int == (if row < s.len() { row } else { s.len() - 1 })
        &&& p.x <= s[p.y as int].len()
        &&& (p.x < s[p.y as int].len() ==> cols(s[p.y as int].take(p.x as int)) >= col)
        &&& (forall|j: int| 0 <= j < p.x ==> #[trigger] cols(s[p.y as int].take(j)) < col)
    }
}
//@fn src/views/input_field.rs InputField::apply_mouse_event
//@ret r
//@spec
    requires old(self).ok(),
    ensures final(self).ok(), final(self).area == old(self).area, final(self).content.lines == old(self).content.lines,
        r == old(self).has_cell(mouse_event.column, mouse_event.row),
        !r ==> *final(self) == *old(self),
        final(self).focused && final(self).content.pos != old(self).content.pos ==> final(self).in_view(),
        !old(self).focused && final(self).focused ==> final(self).in_view(),
//@at body-start
    proof { self.content.bounds(); vrt_vec_len(&self.content.lines); }
//@endfn
//@fn src/views/input_field.rs InputField::apply_event
//@ret r
//@spec
    requires old(self).ok(),
    ensures final(self).ok(), final(self).area == old(self).area,
        final(self).focused && final(self).content.pos != old(self).content.pos ==> final(self).in_view(),
        !old(self).focused && final(self).focused ==> final(self).in_view(),
//@endfn
//@fn src/views/input_field.rs InputField::apply_timed_event
//@ret r
//@spec
    requires old(self).ok(),
    ensures final(self).ok(), final(self).area == old(self).area,
        final(self).focused && final(self).content.pos != old(self).content.pos ==> final(self).in_view(),
        !old(self).focused && final(self).focused ==> final(self).in_view(),
//@endfn
}

// ------------------------------------------------------------- drawing
verus! {
//@const src/fit/composite_fit.rs ELLIPSIS
// unicode-width
pub axiom fn ellipsis_col()
    ensures chw('…') == 1;
pub open spec fn ccols(s: Seq<Cell>) -> int decreases s.len() { if s.len() == 0 { 0 } else { ccols(s.drop_last()) + chw(s.last().1) } }
pub proof fn ccols_add(a: Seq<Cell>, b: Seq<Cell>)
    ensures ccols(a + b) == ccols(a) + ccols(b),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); } else { ccols_add(a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); }
}
pub proof fn ccols_rep(st: ContentStyle, c: char, n: int)
    requires 0 <= n,
    ensures ccols(styled(st, rep(c, n))) == n * chw(c),
    decreases n,
{
    if n > 0 {
        ccols_rep(st, c, n - 1);
        assert(styled(st, rep(c, n)).drop_last() =~= styled(st, rep(c, n - 1)));
        assert(n * chw(c) == (n - 1) * chw(c) + chw(c)) by (nonlinear_arith);
    } else { assert(n * chw(c) == 0) by (nonlinear_arith) requires n == 0; }
}
pub proof fn ccols_spaces(st: ContentStyle, n: int)
    requires 0 <= n,
    ensures ccols(styled(st, rep(' ', n))) == n,
{
    ccols_rep(st, ' ', n);
    uwidth_ascii(' ');
    let w = chw(' ');
    assert(w == 1);
    assert(n * w == n) by (nonlinear_arith) requires w == 1;
}
pub proof fn ccols_one(st: ContentStyle, c: char)
    ensures ccols(styled(st, seq![c])) == chw(c),
{
    assert(styled(st, seq![c]).drop_last() =~= Seq::<Cell>::empty());
    assert(ccols(styled(st, seq![c]).drop_last()) == 0);
}
impl Range {
    // the positions from min to max, both included
    pub open spec fn has(&self, x: int, y: int) -> bool {
        let p = Pos { y: y as usize, x: x as usize };
        !plt(p, self.min) && !plt(self.max, p)
    }
}
//@fn src/views/pos.rs Range::contains
//@ret r
//@spec
    requires !plt(self.max, self.min),
    ensures r == self.has(x as int, y as int),
//@endfn
//@fn src/views/pos.rs Range::contains_pos
//@ret r
//@spec
    requires !plt(self.max, self.min),
    ensures r == self.has(pos.x as int, pos.y as int),
//@endfn
// the default skin: valid styled chars (see C18), one column wide for the scrollbar
#[verifier::external_body]
pub fn get_default_skin() -> (r: &'static MadSkin)
    ensures r.chars_wf(), chw(r.scrollbar.thumb.nude_char) == 1, chw(r.scrollbar.track.nude_char) == 1,
{ unimplemented!() }

impl InputField {
    pub open spec fn base(&self) -> CompoundStyle { if self.focused { self.focused_style } else { self.unfocused_style } }
    pub open spec fn sel(&self) -> Range { Range { min: self.content.sel_min(), max: self.content.sel_max() } }
    // the style of the char x of the line y
    pub open spec fn st(&self, x: int, y: int) -> ContentStyle {
        if self.focused && self.sel().has(x, y) { self.cursor_style.object_style } else { self.base().object_style }
    }
    // the chars shown for the line y
    pub open spec fn row_chars(&self, y: int) -> Seq<char> {
        let s = self.content.lv()[y];
        if self.password_mode { rep('*', s.len() as int) } else { s }
    }
    // the chars a..b of the line y
    pub open spec fn body(&self, y: int, a: int, b: int) -> Seq<Cell> decreases b - a {
        if b <= a { Seq::empty() } else { self.body(y, a, b - 1) + styled(self.st(b - 1, y), ctext(self.row_chars(y)[b - 1])) }
    }
    // the number of columns for the text
    pub open spec fn text_width(&self) -> int { if self.n() > self.h() { self.area.width - 1 } else { self.area.width as int } }
    pub open spec fn left_ellipsis(&self) -> bool { self.scroll.x > 0 && self.text_width() > 4 }
    pub open spec fn at_end(&self, y: int) -> bool { self.focused && self.content.pos.y == y && self.content.pos.x == self.content.lv()[y].len() }
    // the part of a row for the line y, made of: the ellipsis for what is hidden on the left,
    // the chars from the first one at or after the scroll, an ellipsis when they don't all fit,
    // the cursor when it's after the last char, and spaces
    pub open spec fn is_line_row(&self, y: int, row: Seq<Cell>) -> bool {
        exists|a: int, b: int, mark: bool| self.is_line_row_of(y, a, b, mark) && row == #[trigger] self.line_row(y, a, b, mark)
    }
    pub open spec fn avail(&self) -> int { self.text_width() - (if self.left_ellipsis() { 1int } else { 0 }) }
    pub open spec fn to_skip(&self) -> int { self.scroll.x + (if self.left_ellipsis() { 1int } else { 0 }) }
    pub open spec fn is_line_row_of(&self, y: int, a: int, b: int, mark: bool) -> bool {
        let s = self.row_chars(y);
        let d = cols(s.subrange(a, b));
        &&& is_skip(s, self.to_skip(), a)
        &&& a <= b <= s.len()
        &&& (mark ==> b < s.len() && d < self.avail() && d + cw(s[b]) >= self.avail() && (b + 1 < s.len() || d + cw(s[b]) > self.avail()))
        &&& (!mark ==> b == s.len() || self.avail() == 0)
        &&& d + (if mark { 1int } else { 0 }) <= self.avail()
    }
    pub open spec fn line_start(&self, y: int, a: int, b: int, mark: bool) -> Seq<Cell> {
        (if self.left_ellipsis() { styled(self.base().object_style, seq!['…']) } else { Seq::empty() })
        + (self.body(y, a, b) + (if mark { styled(self.st(b, y), seq!['…']) } else { Seq::empty() }))
    }
    pub open spec fn line_row(&self, y: int, a: int, b: int, mark: bool) -> Seq<Cell> {
        let d = cols(self.row_chars(y).subrange(a, b)) + (if mark { 1int } else { 0 });
        let cur = self.at_end(y) && d < self.avail();
        let n = self.avail() - d - (if cur { 1int } else { 0 });
        self.line_start(y, a, b, mark)
        + ((if cur { styled(self.cursor_style.object_style, seq![' ']) } else { Seq::empty() }) + styled(self.base().object_style, rep(' ', n)))
    }
    // the row j of the area: the text and the scrollbar
    pub open spec fn is_row(&self, j: int, row: Seq<Cell>) -> bool {
        let y = self.scroll.y + j;
        exists|text: Seq<Cell>, bar: Seq<Cell>| row == #[trigger] (text + bar)
            && (y < self.n() ==> self.is_line_row(y, text))
            && (y >= self.n() ==> text == styled(self.base().object_style, rep(' ', self.text_width())))
            && (self.n() > self.h() ==> bar.len() == 1 && ccols(bar) == 1)
            && (self.n() <= self.h() ==> bar.len() == 0)
    }
}
pub open spec fn ctext(c: char) -> Seq<char> { if c == '\t' { TAB_REPLACEMENT@ } else { seq![c] } }
// a is the number of chars before the column col
pub open spec fn is_skip(s: Seq<char>, col: int, a: int) -> bool {
    &&& 0 <= a <= s.len()
    &&& (forall|j: int| 0 <= j < a ==> #[trigger] cols(s.take(j)) < col)
    &&& (a < s.len() ==> cols(s.take(a)) >= col)
}
pub proof fn ctext_cols(st: ContentStyle, c: char)
    ensures ccols(styled(st, ctext(c))) == cw(c), 0 <= cw(c) <= 2,
{
    tab_cols(); uwidth_ascii(' '); uwidth_max(c);
    if c == '\t' {
        assert(rep(' ', 2) =~= TAB_REPLACEMENT@);
        ccols_rep(st, ' ', 2);
    } else { ccols_one(st, c); }
}
pub proof fn sub_cols(s: Seq<char>, a: int, b: int)
    requires 0 <= a <= b < s.len(),
    ensures cols(s.subrange(a, b + 1)) == cols(s.subrange(a, b)) + cw(s[b]),
{ assert(s.subrange(a, b + 1).drop_last() =~= s.subrange(a, b)); }
impl InputField {
    pub proof fn body_cols(&self, y: int, a: int, b: int)
        requires 0 <= a <= b <= self.row_chars(y).len(),
        ensures ccols(self.body(y, a, b)) == cols(self.row_chars(y).subrange(a, b)),
        decreases b - a,
    {
        if a < b {
            self.body_cols(y, a, b - 1);
            sub_cols(self.row_chars(y), a, b - 1);
            ctext_cols(self.st(b - 1, y), self.row_chars(y)[b - 1]);
            ccols_add(self.body(y, a, b - 1), styled(self.st(b - 1, y), ctext(self.row_chars(y)[b - 1])));
        }
    }
    // every row covers exactly the width of the area
    pub proof fn row_width(&self, j: int, row: Seq<Cell>)
        requires self.ok(), 0 <= j, self.is_row(j, row),
        ensures ccols(row) == self.area.width,
    {
        let y = self.scroll.y + j;
        let (text, bar) = choose|text: Seq<Cell>, bar: Seq<Cell>| row == #[trigger] (text + bar)
            && (y < self.n() ==> self.is_line_row(y, text))
            && (y >= self.n() ==> text == styled(self.base().object_style, rep(' ', self.text_width())))
            && (self.n() > self.h() ==> bar.len() == 1 && ccols(bar) == 1)
            && (self.n() <= self.h() ==> bar.len() == 0);
        ccols_add(text, bar);
        assert(row == text + bar);
        if self.n() <= self.h() { assert(ccols(bar) == 0); }
        uwidth_ascii(' '); ellipsis_col();
        if y < self.n() { self.line_row_width(y, text); } else { ccols_spaces(self.base().object_style, self.text_width()); }
        assert(ccols(text) == self.text_width());
    }
    pub proof fn line_row_width(&self, y: int, text: Seq<Cell>)
        requires self.ok(), 0 <= y < self.n(), self.is_line_row(y, text),
        ensures ccols(text) == self.text_width(),
    {
        uwidth_ascii(' '); ellipsis_col();
        let st = self.base().object_style;
            let (a, b, mark) = choose|a: int, b: int, mark: bool| self.is_line_row_of(y, a, b, mark) && text == #[trigger] self.line_row(y, a, b, mark);
            let d = cols(self.row_chars(y).subrange(a, b)) + (if mark { 1int } else { 0 });
            let cur = self.at_end(y) && d < self.avail();
            let n = self.avail() - d - (if cur { 1int } else { 0 });
            self.body_cols(y, a, b);
            let e = if self.left_ellipsis() { styled(st, seq!['…']) } else { Seq::empty() };
            let m = if mark { styled(self.st(b, y), seq!['…']) } else { Seq::empty() };
            let k = if cur { styled(self.cursor_style.object_style, seq![' ']) } else { Seq::empty() };
            ccols_one(st, '…'); ccols_one(self.st(b, y), '…'); ccols_one(self.cursor_style.object_style, ' '); ccols_spaces(st, n);
            ccols_add(self.body(y, a, b), m);
            ccols_add(e, self.body(y, a, b) + m);
            ccols_add(k, styled(st, rep(' ', n)));
            ccols_add(self.line_start(y, a, b, mark), k + styled(st, rep(' ', n)));
            assert(ccols(e) == (if self.left_ellipsis() { 1int } else { 0 }));
            assert(ccols(m) == (if mark { 1int } else { 0 }));
            assert(ccols(k) == (if cur { 1int } else { 0 }));
            assert(ccols(styled(st, rep(' ', n))) == n);
            assert(ccols(self.body(y, a, b) + m) == d);
            assert(text == self.line_start(y, a, b, mark) + (k + styled(st, rep(' ', n))));
    }
}
pub proof fn line_row_done(f: InputField, y: int, a: int, b: int, mark: bool, m1: Seq<Out>, g0: Seq<Out>, g1: Seq<Out>, g2: Seq<Out>, g3: Seq<Out>)
    requires f.is_line_row_of(y, a, b, mark), y < f.n(),
        wrote(m1, g0, if f.left_ellipsis() { styled(f.base().object_style, seq!['…']) } else { Seq::empty() }),
        wrote(g0, g1, f.body(y, a, b) + (if mark { styled(f.st(b, y), seq!['…']) } else { Seq::empty() })),
        ({
            let d = cols(f.row_chars(y).subrange(a, b)) + (if mark { 1int } else { 0 });
            let cur = f.at_end(y) && d < f.avail();
            &&& wrote(g1, g2, if cur { styled(f.cursor_style.object_style, seq![' ']) } else { Seq::empty() })
            &&& wrote(g2, g3, styled(f.base().object_style, rep(' ', f.avail() - d - (if cur { 1int } else { 0 }))))
        }),
    ensures wrote(m1, g3, f.line_row(y, a, b, mark)), f.is_line_row(y, f.line_row(y, a, b, mark)),
{
    let d = cols(f.row_chars(y).subrange(a, b)) + (if mark { 1int } else { 0 });
    let cur = f.at_end(y) && d < f.avail();
    let e = if f.left_ellipsis() { styled(f.base().object_style, seq!['…']) } else { Seq::empty() };
    let x = f.body(y, a, b) + (if mark { styled(f.st(b, y), seq!['…']) } else { Seq::empty() });
    let k = if cur { styled(f.cursor_style.object_style, seq![' ']) } else { Seq::empty() };
    let z = styled(f.base().object_style, rep(' ', f.avail() - d - (if cur { 1int } else { 0 })));
    wrote_then(m1, g0, g1, e, x);
    wrote_then(g1, g2, g3, k, z);
    wrote_then(m1, g1, g3, e + x, k + z);
}
impl InputField {
    pub open spec fn cursor_ok(&self, c: Option<(u16, u16)>) -> bool {
        c matches Some((x, y)) ==> self.has_cell(x, y) && x < self.area.left + self.text_width()
    }
    pub open spec fn drawn(&self, rows: Seq<Seq<Cell>>) -> bool { forall|j: int| 0 <= j < rows.len() ==> self.is_row(j, #[trigger] rows[j]) }
}
//@fn src/views/input_field.rs InputField::display_on
//@ret r
//@attrs #[verifier::rlimit(60)] #[verifier::spinoff_prover]
//@spec
    requires self.ok(), self.n() <= 0x7fff_ffff_ffff,
    ensures r matches Ok(c) ==> {
        &&& (exists|rows: Seq<Seq<Cell>>| rows.len() == self.h() && self.drawn(rows)
            && #[trigger] drew(old(w).out().push(Out::Bg(Color::Reset)), final(w).out(), self.area.left as int, self.area.top as int, rows))
        // the returned cursor is in the text part of the area
        &&& self.cursor_ok(c)
    },
//@at body-start
    let ghost base = w.out().push(Out::Bg(Color::Reset));
    let ghost mut rows: Seq<Seq<Cell>> = Seq::empty();
    proof { self.content.bounds(); vrt_vec_len(&self.content.lines); reveal_strlit("…"); assert(ELLIPSIS@ =~= seq!['…']); tab_cols(); }
//@loop 0 it
    invariant
        self.ok(), self.n() <= 0x7fff_ffff_ffff, self.drawn(rows), rows.len() == j, ELLIPSIS@ == seq!['…'],
        drew(base, w.out(), self.area.left as int, self.area.top as int, rows),
        width == self.text_width(), scrollbar is Some <==> self.n() > self.h(), pos == self.content.pos,
        numbered_lines == (if self.scroll.y + j <= self.n() { self.scroll.y + j } else { self.n() }),
        __src_numbered_lines@ == self.content.lines@, selection == self.sel(), *normal_style == self.base(),
        scrollbar_style.thumb.wf(), scrollbar_style.track.wf(), chw(scrollbar_style.thumb.nude_char) == 1, chw(scrollbar_style.track.nude_char) == 1,
        self.cursor_ok(terminal_cursor_pos),
//@at loop 0 start
    let ghost m0 = w.out();
    let ghost m1 = m0.push(Out::Move(self.area.left as int, self.area.top + j));
    let ghost mut text: Seq<Cell> = Seq::empty();
    let ghost mut gt: Seq<Out> = Seq::empty();
    let ghost st = self.base().object_style;
    proof { wrote_nothing(m1); }
//@at loop 1 before
    let ghost g0 = w.out();
    let ghost (mut a, mut b, mut mark) = (0int, 0int, false);
    let ghost s = self.row_chars(y as int);
    proof {
        if self.left_ellipsis() { wrote_one(m1, Out::Styled(st, seq!['…'])); }
        wrote_nothing(g0);
        assert(self.body(y as int, 0, 0) + Seq::<Cell>::empty() =~= Seq::<Cell>::empty());
        assert(s.take(0) =~= Seq::<char>::empty()); assert(s.subrange(0, 0) =~= Seq::<char>::empty());
        vrt_vec_char_len(&self.content.lines@[y as int].chars);
        assert(self.content.lv()[y as int] == self.content.lines@[y as int].chars@);
    }
//@loop 1
    invariant_except_break
        !mark, b == i, displayed_width >= width ==> i == s.len() || width == 0,
        skipped_width < width_to_skip ==> a == i && skipped_width == cols(s.take(i as int)) && (forall|k: int| 0 <= k <= i ==> #[trigger] cols(s.take(k)) < width_to_skip),
        skipped_width >= width_to_skip ==> is_skip(s, width_to_skip as int, a) && (a < s.len() ==> true),
    invariant
        self.ok(), y == self.scroll.y + j, y < self.n(), j < self.h(), s == self.row_chars(y as int), chars@ == self.content.lv()[y as int], s.len() == chars@.len(), ELLIPSIS@ == seq!['…'],
        selection == self.sel(), *normal_style == self.base(),
        width == self.avail(), width_to_skip == self.to_skip(), left == self.area.left + (if self.left_ellipsis() { 1int } else { 0 }), 
        0 <= a <= b <= s.len(), displayed_width == cols(s.subrange(a, b)) + (if mark { 1int } else { 0 }), displayed_width <= width,
        wrote(g0, w.out(), self.body(y as int, a, b) + (if mark { styled(self.st(b, y as int), seq!['…']) } else { Seq::empty() })),
        mark ==> b < s.len() && cols(s.subrange(a, b)) < width && cols(s.subrange(a, b)) + cw(s[b]) >= width && (b + 1 < s.len() || cols(s.subrange(a, b)) + cw(s[b]) > width),
        self.cursor_ok(terminal_cursor_pos),
    ensures
        is_skip(s, width_to_skip as int, a), !mark ==> b == s.len() || width == 0,
//@at loop 1 start
    let ghost sk = skipped_width < width_to_skip;
    let ghost out1 = w.out();
    proof { cols_bound(s, i as int); uwidth_max(s[i as int]); ctext_cols(st, s[i as int]); }
//@at after assign displayed_width 0
    proof {
        mark = true;
        let m = styled(self.st(i as int, y as int), seq!['…']);
        assert(self.body(y as int, a, b) + Seq::<Cell>::empty() =~= self.body(y as int, a, b));
        wrote_one(out1, Out::Styled(self.st(i as int, y as int), seq!['…']));
        wrote_then(g0, out1, w.out(), self.body(y as int, a, b), m);
    }
//@at loop 1 end
    proof {
        assert(self.body(y as int, a, b) + Seq::<Cell>::empty() =~= self.body(y as int, a, b));
        if sk {
            a = i + 1; b = i + 1;
            assert(s.subrange(a, b) =~= Seq::<char>::empty());
            assert(self.body(y as int, a, b) + Seq::<Cell>::empty() =~= Seq::<Cell>::empty());
        } else {
            b = i + 1;
            sub_cols(s, a, i as int);
            let c1 = styled(self.st(i as int, y as int), ctext(s[i as int]));
            wrote_one(out1, Out::Styled(self.st(i as int, y as int), ctext(s[i as int])));
            wrote_then(g0, out1, w.out(), self.body(y as int, a, i as int), c1);
            assert(self.body(y as int, a, b) + Seq::<Cell>::empty() =~= self.body(y as int, a, b));
        }
    }
//@at loop 1 after
    let ghost g1 = w.out();
    proof { wrote_nothing(g1); wrote_one(g1, Out::Styled(self.cursor_style.object_style, seq![' '])); }
//@at loop 2 before
    let ghost g2 = w.out();
    let ghost d2 = displayed_width as int;
    proof { wrote_nothing(g2); assert(styled(st, rep(' ', 0)) =~= Seq::<Cell>::empty()); }
//@loop 2
    invariant d2 <= displayed_width <= width, wrote(g2, w.out(), styled(st, rep(' ', displayed_width - d2))), *normal_style == self.base(), st == self.base().object_style,
    decreases width - displayed_width,
//@at loop 2 start
    let ghost w0 = w.out();
//@at loop 2 end
    proof {
        wrote_one(w0, Out::Styled(st, seq![' ']));
        wrote_then(g2, w0, w.out(), styled(st, rep(' ', displayed_width - 1 - d2)), styled(st, seq![' ']));
        assert(styled(st, rep(' ', displayed_width - 1 - d2)) + styled(st, seq![' ']) =~= styled(st, rep(' ', displayed_width - d2)));
    }
//@at loop 2 after
    proof {
        line_row_done(*self, y as int, a, b, mark, m1, g0, g1, g2, w.out());
        text = self.line_row(y as int, a, b, mark); gt = w.out();
    }
//@at after call queue_styled 0
    proof { text = styled(st, rep(' ', self.text_width())); gt = w.out(); }
//@at loop 0 end
    proof {
        let bar: Seq<Cell>;
        if scrollbar is Some {
            bar = out_cells(w.out().last());
            wrote_one(gt, w.out().last());
            ccols_one(w.out().last()->Styled_0, w.out().last()->Styled_1[0]);
        } else { bar = Seq::empty(); wrote_nothing(gt); }
        wrote_then(m1, gt, w.out(), text, bar);
        assert(self.is_row(j as int, text + bar));
        drew_row(base, m0, w.out(), self.area.left as int, self.area.top as int, rows, text + bar);
        rows = rows.push(text + bar);
    }
//@endfn
// ------------------------------------------------------------- reading
pub proof fn unstyled_add(a: Seq<char>, b: Seq<char>)
    ensures unstyled(a) + unstyled(b) == unstyled(a + b),
{ assert(unstyled(a) + unstyled(b) =~= unstyled(a + b)); }
pub proof fn cat_next(s: Seq<Seq<char>>, k: int)
    requires 0 <= k < s.len(),
    ensures cat(s.take(k + 1)) == cat(s.take(k)) + s[k].push('\n'),
{ assert(s.take(k + 1).drop_last() =~= s.take(k)); }
//@fn src/views/input_field_content.rs <fmt::Display for InputFieldContent>::fmt
//@header impl InputFieldContent
//@as vrt_show
//@ret r
//@spec
    requires self.wf(),
    ensures r.is_ok() ==> final(f).out() == old(f).out() + unstyled(self.string()),
//@at body-start
    let ghost o = f.out(); let ghost s = self.lv();
    proof { vrt_vec_len(&self.lines); assert(s.take(0) =~= Seq::<Seq<char>>::empty()); assert(o + unstyled(Seq::<char>::empty()) =~= o); }
//@loop 0
    invariant
        self.wf(), s == self.lv(), lines <= s.len(), __src_lines@ == self.lines@, s.len() < usize::MAX,
        f.out() == o + unstyled(if lines < s.len() { cat(s.take(lines as int)) } else { cat(s).drop_last() }),
    decreases s.len() - lines,
//@at loop 0 start
    let ghost k = lines as int; let ghost f0 = f.out();
    proof { cat_next(s, k); assert(s.take(s.len() as int) =~= s); assert(f0 + unstyled(Seq::<char>::empty()) =~= f0); assert(s[k].take(0) =~= Seq::<char>::empty()); }
//@loop 1 it
    invariant
        it.seq().map_values(|c: &char| *c) == s[k], f.out() == f0 + unstyled(s[k].take(it.index@)),
//@at loop 1 end
    proof { let i = it.index@; assert(s[k].take(i + 1) =~= s[k].take(i) + seq![s[k][i]]); unstyled_add(s[k].take(i), seq![s[k][i]]); }
//@at loop 0 end
    proof {
        assert(s[k].take(s[k].len() as int) =~= s[k]);
        let a = cat(s.take(k));
        unstyled_add(a, s[k]); unstyled_add(a + s[k], seq!['\n']);
        assert(a + s[k].push('\n') =~= a + s[k] + seq!['\n']);
        assert((a + s[k].push('\n')).drop_last() =~= a + s[k]);
    }
//@endfn
impl InputFieldContent {
    // std's ToString: what fmt writes (see the contract of vrt_show)
    #[verifier::external_body]
    pub fn vrt_to_string(&self) -> (r: String)
        requires self.wf(),
        ensures r@ == self.string(),
    { unimplemented!() }
}
//@fn src/views/input_field.rs InputField::get_content
//@rule method to_string vrt_to_string
//@ret r
//@spec
    requires self.content.wf(),
    ensures r@ == self.content.string(),
//@endfn
}
