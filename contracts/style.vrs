//@include prelude.vrs
//@include types.vrs
//@include output.vrs
//@include style_specs.vrs
//@include skin_specs.vrs
verus! {
//@fn src/line_style.rs LineStyle::new
//@ret r
//@spec
    ensures r.compound_style == compound_style, r.align == align, r.left_margin == 0, r.right_margin == 0,
//@endfn
//@fn src/line_style.rs LineStyle::set_fg
//@spec
    ensures final(self).compound_style == old(self).compound_style.with(Some(color), old(self).compound_style.bg(), old(self).compound_style.attributes()),
        final(self).align == old(self).align, final(self).left_margin == old(self).left_margin, final(self).right_margin == old(self).right_margin,
//@endfn
//@fn src/line_style.rs LineStyle::set_bg
//@spec
    ensures final(self).compound_style == old(self).compound_style.with(old(self).compound_style.fg(), Some(color), old(self).compound_style.attributes()),
        final(self).align == old(self).align, final(self).left_margin == old(self).left_margin, final(self).right_margin == old(self).right_margin,
//@endfn
//@fn src/line_style.rs LineStyle::set_fgbg
//@spec
    ensures final(self).compound_style == old(self).compound_style.with(Some(fg), Some(bg), old(self).compound_style.attributes()),
        final(self).align == old(self).align, final(self).left_margin == old(self).left_margin, final(self).right_margin == old(self).right_margin,
//@endfn
//@fn src/line_style.rs LineStyle::add_attr
//@spec
    ensures final(self).compound_style == old(self).compound_style.with(old(self).compound_style.fg(), old(self).compound_style.bg(), old(self).compound_style.attributes() | abits(attr)),
        final(self).align == old(self).align, final(self).left_margin == old(self).left_margin, final(self).right_margin == old(self).right_margin,
//@endfn

// ---------------------------------------------------------------- blending
#[verifier::external_body]
pub struct CoolorColor { _p: core::marker::PhantomData<()> }
impl Clone for CoolorColor { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for CoolorColor {}
pub uninterp spec fn to_coolor(c: Color) -> CoolorColor;
pub uninterp spec fn to_color(c: CoolorColor) -> Color;
pub uninterp spec fn blending(a: CoolorColor, b: CoolorColor, w: f32) -> CoolorColor;
// the conversions and the mix of the coolor crate: pure functions of their arguments
pub trait VrtInto<T>: Sized { spec fn conv(self) -> T; fn vrt_into(self) -> (r: T) ensures r == self.conv(); }
impl VrtInto<CoolorColor> for Color {
    open spec fn conv(self) -> CoolorColor { to_coolor(self) }
    #[verifier::external_body]
    fn vrt_into(self) -> (r: CoolorColor) { unimplemented!() }
}
impl VrtInto<Color> for CoolorColor {
    open spec fn conv(self) -> Color { to_color(self) }
    #[verifier::external_body]
    fn vrt_into(self) -> (r: Color) { unimplemented!() }
}
impl CoolorColor {
    #[verifier::external_body]
    pub fn blend(a: CoolorColor, wa: f32, b: CoolorColor, wb: f32) -> (r: CoolorColor)
        ensures r == blending(a, b, wb),
    { unimplemented!() }
}
pub broadcast axiom fn f32_sub_req(a: f32, b: f32)
    ensures #[trigger] vstd::std_specs::ops::SubSpec::sub_req(a, b);
pub open spec fn blended_color(o: Option<Color>, dest: CoolorColor, w: f32) -> Option<Color> {
    match o { Some(c) => Some(to_color(blending(to_coolor(c), dest, w))), None => None }
}
impl CompoundStyle {
    pub open spec fn blended(&self, dest: CoolorColor, w: f32) -> CompoundStyle {
        self.with(blended_color(self.fg(), dest, w), blended_color(self.bg(), dest, w), self.attributes())
    }
}
//@fn src/compound_style.rs CompoundStyle::blend_with
//@sig <C: VrtInto<CoolorColor>>(&mut self, dest: C, weight: f32)
//@rule method into vrt_into
//@rule drop_debug_assert
//@spec
    ensures *final(self) == old(self).blended(dest.conv(), weight),
//@at body-start
    broadcast use f32_sub_req;
//@endfn
//@fn src/line_style.rs LineStyle::blend_with
//@sig <C: VrtInto<CoolorColor>>(&mut self, color: C, weight: f32)
//@spec
    ensures final(self).compound_style == old(self).compound_style.blended(color.conv(), weight),
        final(self).align == old(self).align, final(self).left_margin == old(self).left_margin, final(self).right_margin == old(self).right_margin,
//@endfn
//@fn src/styled_char.rs StyledChar::blend_with
//@sig <C: VrtInto<CoolorColor>>(&mut self, color: C, weight: f32)
//@spec
    ensures final(self).wf(), final(self).nude_char == old(self).nude_char,
        final(self).compound_style == old(self).compound_style.blended(color.conv(), weight),
//@endfn

// ---------------------------------------------------------------- the whole skin
pub open spec fn fg_set(a: CompoundStyle, c: Color) -> CompoundStyle { a.with(Some(c), a.bg(), a.attributes()) }
pub open spec fn same_layout(a: LineStyle, b: LineStyle) -> bool { a.align == b.align && a.left_margin == b.left_margin && a.right_margin == b.right_margin }
//@fn src/skin.rs MadSkin::set_headers_fg
//@rule iter_mut_index
//@spec
    requires old(self).chars_wf(),
    ensures
        final(self).chars_wf(),
        forall|i: int| 0 <= i < MAX_HEADER_DEPTH ==> same_layout(#[trigger] final(self).headers[i], old(self).headers[i])
            && final(self).headers[i].compound_style == fg_set(old(self).headers[i].compound_style, c),
        *final(self) == (MadSkin { headers: final(self).headers, ..*old(self) }),
//@loop 0
    invariant
        __hi2 == MAX_HEADER_DEPTH,
        forall|k: int| 0 <= k < __i0 ==> same_layout(#[trigger] self.headers[k], old(self).headers[k])
            && self.headers[k].compound_style == fg_set(old(self).headers[k].compound_style, c),
        forall|k: int| __i0 <= k < MAX_HEADER_DEPTH ==> #[trigger] self.headers[k] == old(self).headers[k],
        *self == (MadSkin { headers: self.headers, ..*old(self) }),
//@endfn
//@fn src/skin.rs MadSkin::set_headers_bg
//@rule iter_mut_index
//@spec
    requires old(self).chars_wf(),
    ensures
        final(self).chars_wf(),
        forall|i: int| 0 <= i < MAX_HEADER_DEPTH ==> same_layout(#[trigger] final(self).headers[i], old(self).headers[i])
            && final(self).headers[i].compound_style == bg_set(old(self).headers[i].compound_style, c),
        *final(self) == (MadSkin { headers: final(self).headers, ..*old(self) }),
//@loop 0
    invariant
        __hi2 == MAX_HEADER_DEPTH,
        forall|k: int| 0 <= k < __i0 ==> same_layout(#[trigger] self.headers[k], old(self).headers[k])
            && self.headers[k].compound_style == bg_set(old(self).headers[k].compound_style, c),
        forall|k: int| __i0 <= k < MAX_HEADER_DEPTH ==> #[trigger] self.headers[k] == old(self).headers[k],
        *self == (MadSkin { headers: self.headers, ..*old(self) }),
//@endfn
//@fn src/skin.rs MadSkin::set_global_bg
//@spec
    requires old(self).chars_wf(),
    ensures final(self).chars_wf(),
        final(self).horizontal_rule.compound_style == bg_set(old(self).horizontal_rule.compound_style, c),
        final(self).paragraph.compound_style == bg_set(old(self).paragraph.compound_style, c),
//@endfn
//@const src/table_border_chars.rs ASCII_TABLE_BORDER_CHARS
//@fn src/skin.rs MadSkin::limit_to_ascii
//@spec
    requires old(self).chars_wf(),
    ensures final(self).chars_wf(),
        final(self).bullet.compound_style == old(self).bullet.compound_style, final(self).bullet.nude_char == '*',
        final(self).quote_mark.compound_style == old(self).quote_mark.compound_style, final(self).quote_mark.nude_char == '>',
        final(self).horizontal_rule.compound_style == old(self).horizontal_rule.compound_style, final(self).horizontal_rule.nude_char == '-',
//@endfn
//@fn src/skin.rs MadSkin::set_fg
//@rule map_values
//@spec
    requires old(self).chars_wf(), old(self).special_chars.all_wf(),
    ensures final(self).chars_wf(), final(self).special_chars.all_wf(),
        final(self).special_chars.renders@.len() == old(self).special_chars.renders@.len(),
        forall|i: int| 0 <= i < old(self).special_chars.renders@.len() ==> (#[trigger] final(self).special_chars.renders@[i]).nude_char == old(self).special_chars.renders@[i].nude_char
            && final(self).special_chars.renders@[i].compound_style == old(self).special_chars.renders@[i].compound_style.with(Some(fg), old(self).special_chars.renders@[i].compound_style.bg(), old(self).special_chars.renders@[i].compound_style.attributes()),
        final(self).bullet.nude_char == old(self).bullet.nude_char, final(self).quote_mark.nude_char == old(self).quote_mark.nude_char,
        final(self).horizontal_rule.nude_char == old(self).horizontal_rule.nude_char, final(self).scrollbar == old(self).scrollbar,
//@at body-start
    let ghost s0 = self.special_chars.renders@;
//@loop 0
    invariant
        self.chars_wf(),
        __hi2 == s0.len(), self.special_chars.renders@.len() == s0.len(),
        self.bullet.nude_char == old(self).bullet.nude_char, self.quote_mark.nude_char == old(self).quote_mark.nude_char,
        self.horizontal_rule.nude_char == old(self).horizontal_rule.nude_char, self.scrollbar == old(self).scrollbar,
        forall|i: int| 0 <= i < __i0 ==> (#[trigger] self.special_chars.renders@[i]).wf() && self.special_chars.renders@[i].nude_char == s0[i].nude_char
            && self.special_chars.renders@[i].compound_style == s0[i].compound_style.with(Some(fg), s0[i].compound_style.bg(), s0[i].compound_style.attributes()),
        forall|i: int| __i0 <= i < s0.len() ==> self.special_chars.renders@[i] == s0[i],
//@endfn
//@fn src/skin.rs MadSkin::set_bg
//@rule map_values
//@spec
    requires old(self).chars_wf(), old(self).special_chars.all_wf(),
    ensures final(self).chars_wf(), final(self).special_chars.all_wf(),
        final(self).special_chars.renders@.len() == old(self).special_chars.renders@.len(),
        forall|i: int| 0 <= i < old(self).special_chars.renders@.len() ==> (#[trigger] final(self).special_chars.renders@[i]).nude_char == old(self).special_chars.renders@[i].nude_char
            && final(self).special_chars.renders@[i].compound_style == old(self).special_chars.renders@[i].compound_style.with(old(self).special_chars.renders@[i].compound_style.fg(), Some(bg), old(self).special_chars.renders@[i].compound_style.attributes()),
        final(self).bullet.nude_char == old(self).bullet.nude_char, final(self).quote_mark.nude_char == old(self).quote_mark.nude_char,
        final(self).horizontal_rule.nude_char == old(self).horizontal_rule.nude_char,
//@at body-start
    let ghost s0 = self.special_chars.renders@;
//@loop 0
    invariant
        self.chars_wf(),
        __hi2 == s0.len(), self.special_chars.renders@.len() == s0.len(),
        self.bullet.nude_char == old(self).bullet.nude_char, self.quote_mark.nude_char == old(self).quote_mark.nude_char,
        self.horizontal_rule.nude_char == old(self).horizontal_rule.nude_char,
        forall|i: int| 0 <= i < __i0 ==> (#[trigger] self.special_chars.renders@[i]).wf() && self.special_chars.renders@[i].nude_char == s0[i].nude_char
            && self.special_chars.renders@[i].compound_style == s0[i].compound_style.with(s0[i].compound_style.fg(), Some(bg), s0[i].compound_style.attributes()),
        forall|i: int| __i0 <= i < s0.len() ==> self.special_chars.renders@[i] == s0[i],
//@endfn
//@fn src/skin.rs MadSkin::blend_with
//@sig <C: VrtInto<CoolorColor> + Copy>(&mut self, color: C, weight: f32)
//@rule iter_mut_index
//@spec
    requires old(self).chars_wf(),
    ensures final(self).chars_wf(),
        ({
            let d = color.conv();
            let o = *old(self);
            let n = *final(self);
            &&& n.paragraph.compound_style == o.paragraph.compound_style.blended(d, weight)
            &&& n.bold == o.bold.blended(d, weight)
            &&& n.italic == o.italic.blended(d, weight)
            &&& n.strikeout == o.strikeout.blended(d, weight)
            &&& n.inline_code == o.inline_code.blended(d, weight)
            &&& n.code_block.compound_style == o.code_block.compound_style.blended(d, weight)
            &&& n.table.compound_style == o.table.compound_style.blended(d, weight)
            &&& n.ellipsis == o.ellipsis.blended(d, weight)
            &&& n.bullet.compound_style == o.bullet.compound_style.blended(d, weight)
            &&& n.quote_mark.compound_style == o.quote_mark.compound_style.blended(d, weight)
            &&& n.horizontal_rule.compound_style == o.horizontal_rule.compound_style.blended(d, weight)
            &&& n.bullet.nude_char == o.bullet.nude_char && n.quote_mark.nude_char == o.quote_mark.nude_char && n.horizontal_rule.nude_char == o.horizontal_rule.nude_char
            &&& forall|i: int| 0 <= i < MAX_HEADER_DEPTH ==> (#[trigger] n.headers[i]).compound_style == o.headers[i].compound_style.blended(d, weight)
        }),
//@at loop 0 before
    let ghost was = *self;
//@loop 0
    invariant
        __hi2 == MAX_HEADER_DEPTH,
        forall|k: int| 0 <= k < __i0 ==> (#[trigger] self.headers[k]).compound_style == was.headers[k].compound_style.blended(color.conv(), weight),
        forall|k: int| __i0 <= k < MAX_HEADER_DEPTH ==> #[trigger] self.headers[k] == was.headers[k],
        *self == (MadSkin { headers: self.headers, ..was }),
//@endfn
}
fn main() {}
