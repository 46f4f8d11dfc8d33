// formatted composites: their characters and their columns
verus! {
// no overflow on columns: all widths stay below this bound
pub open spec fn BIG() -> int { 0x1000_0000_0000_0000 }
// columns of the compounds
pub open spec fn ccw(s: Seq<Compound<'_>>) -> int decreases s.len() { if s.len() == 0 { 0 } else { ccw(s.drop_last()) + sw(s.last().src@) } }
pub proof fn ccw_push(s: Seq<Compound<'_>>, c: Compound<'_>)
    ensures ccw(s.push(c)) == ccw(s) + sw(c.src@),
{ assert(s.push(c).drop_last() =~= s); }
pub proof fn ccw_take(s: Seq<Compound<'_>>, k: int)
    requires 0 <= k < s.len(),
    ensures ccw(s.take(k + 1)) == ccw(s.take(k)) + sw(s[k].src@),
{ assert(s.take(k + 1).drop_last() =~= s.take(k)); }
pub proof fn ccw_add(a: Seq<Compound<'_>>, b: Seq<Compound<'_>>)
    ensures ccw(a + b) == ccw(a) + ccw(b),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); } else {
        ccw_add(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
    }
}
pub proof fn ccw_pos(s: Seq<Compound<'_>>)
    ensures ccw(s) >= 0,
    decreases s.len(),
{ if s.len() > 0 { ccw_pos(s.drop_last()); sw_max(s.last().src@); } }
pub proof fn ccw_mono(s: Seq<Compound<'_>>, i: int, j: int)
    requires 0 <= i <= j <= s.len(),
    ensures 0 <= ccw(s.take(i)) <= ccw(s.take(j)),
{
    assert(s.take(j) =~= s.take(i) + s.subrange(i, j));
    ccw_add(s.take(i), s.subrange(i, j));
    ccw_pos(s.subrange(i, j)); ccw_pos(s.take(i));
}
impl MadSkin {
    // columns of what is displayed before the content of a line of this kind
    pub open spec fn prefix_len(&self, kind: CompositeKind) -> int {
        match kind {
            CompositeKind::ListItem(depth) => 2 + depth as int,
            CompositeKind::ListItemFollowUp(depth) => if self.list_items_indentation_mode == ListItemsIndentationMode::Block { 2 + depth as int } else { 0 },
            CompositeKind::Quote => 2,
            _ => 0,
        }
    }
    pub open spec fn vlen(&self, kind: CompositeKind, compounds: Seq<Compound<'_>>) -> int { self.prefix_len(kind) + ccw(compounds) }
}
//@fn src/skin.rs MadSkin::visible_composite_length
//@ret r
//@rule sum_type usize
//@rule width
//@spec
    requires ccw(compounds@) < BIG(),
    ensures r == self.vlen(kind, compounds@),
//@at body-start
    proof { assert(compounds@.take(compounds@.len() as int) =~= compounds@); assert(compounds@.take(0) =~= Seq::<Compound<'_>>::empty()); }
//@loop 0 it
    invariant __acc1 == ccw(compounds@.take(it.index@ as int)), ccw(compounds@) < BIG(), compounds@.take(compounds@.len() as int) =~= compounds@, it.seq().len() == compounds@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *it.seq()[i] == compounds@[i],
//@at loop 0 start
    proof { ccw_take(compounds@, it.index@ as int); ccw_mono(compounds@, it.index@ as int + 1, compounds@.len() as int); }
//@endfn

// ---------------------------------------------------------------- spacing
pub open spec fn pads(align: Alignment, inner: int, outer: int) -> (int, int) {
    if inner >= outer { (0, 0) } else { match align {
        Alignment::Left | Alignment::Unspecified => (0, outer - inner),
        Alignment::Right => (outer - inner, 0),
        Alignment::Center => ((outer - inner) / 2, outer - inner - (outer - inner) / 2),
    } }
}
pub open spec fn opads(align: Alignment, inner: int, outer: Option<usize>) -> (int, int) {
    match outer { Some(w) => pads(align, inner, w as int), None => (0, 0) }
}
//@fn src/spacing.rs Spacing::completions
//@ret r
//@spec
    ensures r.0 == pads(align, inner_width as int, outer_width as int).0, r.1 == pads(align, inner_width as int, outer_width as int).1,
        inner_width < outer_width ==> inner_width + r.0 + r.1 == outer_width,
//@endfn
//@fn src/spacing.rs Spacing::optional_completions
//@ret r
//@spec
    ensures r.0 == opads(align, inner_width as int, outer_width).0, r.1 == opads(align, inner_width as int, outer_width).1,
//@endfn
//@fn src/spacing.rs Spacing::completions_for
//@ret r
//@spec
    ensures r.0 == pads(self.align, inner_width as int, self.width as int).0, r.1 == pads(self.align, inner_width as int, self.width as int).1,
//@endfn
//@fn src/spacing.rs truncate
//@ret r
//@rule str_slice
//@rule method nth vrt_nth
//@spec
    ensures r@ == (if s@.len() <= max_chars { s@ } else { s@.take(max_chars as int) }),
//@at body-start
    proof { if max_chars < s@.len() { idx_at(s@, max_chars as int); idx_ends(s@); assert(s@.subrange(0, max_chars as int) =~= s@.take(max_chars as int)); } }
//@endfn
// a text put in its column
impl Spacing {
    pub open spec fn fitted(&self, s: Seq<char>, width: int) -> Seq<char> {
        if width >= self.width { if s.len() <= self.width { s } else { s.take(self.width as int) } }
        else { rep(' ', pads(self.align, width, self.width as int).0) + s + rep(' ', pads(self.align, width, self.width as int).1) }
    }
}
//@fn src/spacing.rs Spacing::write_counted_str
//@ret r
//@spec
    ensures r.is_ok() ==> wrote(old(w).out(), final(w).out(), styled(style.object_style, self.fitted(s@, str_width as int))),
//@at body-start
    let ghost w0 = w.out();
    proof { wrote_one(w0, Out::Styled(style.object_style, self.fitted(s@, str_width as int))); }
//@loop 0 it
    invariant con@ == rep(' ', it.index@ as int),
//@at loop 0 start
    proof { assert(rep(' ', it.index@ as int).push(' ') =~= rep(' ', it.index@ as int + 1)); }
//@at loop 0 after
    let ghost c0 = con@ + s@;
    proof { assert(c0 + rep(' ', 0) =~= c0); }
//@loop 1 it
    invariant con@ == c0 + rep(' ', it.index@ as int),
//@at loop 1 start
    proof { assert((c0 + rep(' ', it.index@ as int)).push(' ') =~= c0 + rep(' ', it.index@ as int + 1)); }
//@endfn
//@fn src/spacing.rs Spacing::write_str
//@ret r
//@spec
    ensures r.is_ok() ==> wrote(old(w).out(), final(w).out(), styled(style.object_style, self.fitted(s@, s@.len() as int))),
//@endfn
// one column chars in a column: exactly its width
pub proof fn fitted_cols(sp: Spacing, s: Seq<char>)
    requires forall|i: int| 0 <= i < s.len() ==> chw(#[trigger] s[i]) == 1,
    ensures sw(sp.fitted(s, s.len() as int)) == sp.width,
{
    let f = sp.fitted(s, s.len() as int);
    uwidth_ascii(' ');
    assert(forall|i: int| 0 <= i < f.len() ==> chw(#[trigger] f[i]) == 1);
    sw_ones(f);
}
pub proof fn sw_ones(s: Seq<char>)
    requires forall|i: int| 0 <= i < s.len() ==> chw(#[trigger] s[i]) == 1,
    ensures sw(s) == s.len(),
    decreases s.len(),
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.drop_last().len() implies chw(#[trigger] s.drop_last()[i]) == 1 by { assert(chw(s[i]) == 1); }
        sw_ones(s.drop_last());
        assert(chw(s[s.len() - 1]) == 1);
    }
}
pub open spec fn margins(ls: LineStyle, width: Option<usize>) -> (int, int) {
    if width matches Some(w) && w < ls.left_margin + ls.right_margin + 3 { (0, 0) } else { (ls.left_margin as int, ls.right_margin as int) }
}
//@fn src/line_style.rs LineStyle::margins_in
//@ret r
//@spec
    requires self.left_margin < BIG(), self.right_margin < BIG(),
    ensures r.0 == margins(*self, available_width).0, r.1 == margins(*self, available_width).1,
//@endfn

// ---------------------------------------------------------------- composites
impl<'s> FmtComposite<'s> {
    // the cached length is the real one
    pub open spec fn wf(&self, skin: &MadSkin) -> bool { self.visible_length == skin.vlen(self.kind, self.compounds@) }
    pub open spec fn inner_pads(&self) -> (int, int) {
        match self.spacing { Some(sp) => pads(sp.align, self.visible_length as int, sp.width as int), None => (0, 0) }
    }
    pub open spec fn inner_width(&self) -> int { match self.spacing { Some(sp) => sp.width as int, None => self.visible_length as int } }
}
//@fn src/composite_kind.rs <From<CompositeStyle> for CompositeKind>::from
//@header impl CompositeKind
//@ret r
//@spec
    ensures r == kind_of(ty),
//@endfn
pub open spec fn kind_of(ty: CompositeStyle) -> CompositeKind {
    match ty {
        CompositeStyle::Paragraph => CompositeKind::Paragraph,
        CompositeStyle::Header(l) => CompositeKind::Header(l),
        CompositeStyle::ListItem(l) => CompositeKind::ListItem(l),
        CompositeStyle::Code => CompositeKind::Code,
        CompositeStyle::Quote => CompositeKind::Quote,
    }
}
// core: Into of a type which implements From
pub trait VrtIntoKind: Sized { spec fn k(self) -> CompositeKind; fn vrt_into_kind(self) -> (r: CompositeKind) ensures r == self.k(); }
impl VrtIntoKind for CompositeStyle { open spec fn k(self) -> CompositeKind { kind_of(self) } fn vrt_into_kind(self) -> (r: CompositeKind) { CompositeKind::from(self) } }
//@fn src/composite.rs FmtComposite::new
//@ret r
//@spec
    ensures r.kind == CompositeKind::Paragraph, r.compounds@ == Seq::<Compound<'_>>::empty(), r.visible_length == 0, r.spacing is None,
//@endfn
//@fn src/composite.rs FmtComposite::from
//@ret r
//@rule method into vrt_into_kind
//@spec
    requires ccw(composite.compounds@) < BIG(),
    ensures r.kind == kind_of(composite.style), r.compounds@ == composite.compounds@, r.wf(skin), r.spacing is None,
//@endfn
//@fn src/composite.rs FmtComposite::completions
//@ret r
//@spec
    ensures r.0 == self.inner_pads().0, r.1 == self.inner_pads().1,
//@endfn
//@fn src/composite.rs FmtComposite::add_compound
//@rule width
//@spec
    requires old(self).visible_length + sw(compound.src@) <= usize::MAX,
    ensures final(self).visible_length == old(self).visible_length + sw(compound.src@), final(self).compounds@ == old(self).compounds@.push(compound),
        final(self).kind == old(self).kind, final(self).spacing == old(self).spacing,
        forall|skin: &MadSkin| old(self).wf(skin) ==> final(self).wf(skin),
//@at body-end
    proof { ccw_push(old(self).compounds@, compound); }
//@endfn
//@fn src/composite.rs FmtComposite::from_compound
//@ret r
//@spec
    ensures r.kind == CompositeKind::Paragraph, r.compounds@ == seq![compound], r.spacing is None, forall|skin: &MadSkin| r.wf(skin),
//@at body-start
    proof { sw_max(compound.src@); str_max(compound.src); blen_zero(compound.src@); }
//@at body-end
    proof { reveal_with_fuel(ccw, 2); }
//@endfn
//@fn src/composite.rs FmtComposite::recompute_width
//@spec
    requires ccw(old(self).compounds@) < BIG(),
    ensures final(self).wf(skin), final(self).kind == old(self).kind, final(self).compounds == old(self).compounds, final(self).spacing == old(self).spacing,
//@endfn
//@fn src/composite.rs FmtComposite::extend_width
//@spec
    ensures final(self).kind == old(self).kind, final(self).compounds == old(self).compounds, final(self).visible_length == old(self).visible_length,
        // no space is added when the content is already as wide
        old(self).spacing is None && old(self).visible_length >= width ==> final(self).spacing is None,
        old(self).spacing is None && old(self).visible_length < width ==> final(self).spacing == Some(Spacing { width, align }),
        old(self).spacing matches Some(sp) ==> final(self).spacing == Some(Spacing { width: if sp.width < width { width } else { sp.width }, align }),
//@endfn
}
