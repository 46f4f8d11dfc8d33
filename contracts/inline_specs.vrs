// printing of composites
verus! {
// what crossterm prints of them: what their Display implementations give (see line_specs.vrs)
#[verifier::external]
impl<'s, 'l, 'p> Display for DisplayableLine<'s, 'l, 'p> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() } }
impl<'s, 'l, 'p, 'x> Shown for DisplayableLine<'s, 'l, 'p> {
    uninterp spec fn chars(&self) -> Seq<char>;
    open spec fn printed(&self) -> Out { Out::Cells(self.skin.line_cells(self.line, self.width, true)) }
    open spec fn printable(&self) -> bool { self.skin.line_sizes_ok(self.line, self.width) }
}
#[verifier::external]
impl<'k, 's> Display for FmtInline<'k, 's> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() } }
impl<'k, 's> Shown for FmtInline<'k, 's> {
    uninterp spec fn chars(&self) -> Seq<char>;
    open spec fn printed(&self) -> Out { Out::Cells(self.skin.composite_cells(&self.composite, None, false, true)) }
    open spec fn printable(&self) -> bool { self.skin.sizes_ok(&self.composite, None) }
}
impl MadSkin {
    // the composite, once formatted
    pub open spec fn formed(&self, c: Composite<'_>, fc: FmtComposite<'_>) -> bool {
        fc.kind == kind_of(c.style) && fc.compounds@ == c.compounds@ && fc.wf(self) && fc.spacing is None
    }
    pub open spec fn writable(&self, c: Composite<'_>) -> bool {
        let ls = self.line_style_of(kind_of(c.style));
        &&& ccw(c.compounds@) + 300 < BIG() - 8
        &&& kind_of(c.style) matches CompositeKind::Header(l) ==> l > 0
        &&& kind_of(c.style) matches CompositeKind::ListItemFollowUp(d) ==> d < 255
        &&& ls.left_margin < BIG() && ls.right_margin < BIG()
    }
    pub open spec fn inline_shown(&self, c: Composite<'_>, a: Seq<Out>, b: Seq<Out>) -> bool {
        exists|fc: FmtComposite<'_>| #[trigger] self.formed(c, fc) && wrote(a, b, self.composite_cells(&fc, None, false, true))
    }
    // the columns left by the margins
    pub open spec fn room(&self, k: CompositeKind, width: usize) -> int { width - margins(self.line_style_of(k), Some(width)).0 - margins(self.line_style_of(k), Some(width)).1 }
    // o shortened or extended to the width, then written
    pub open spec fn filled(&self, o: FmtComposite<'_>, n: FmtComposite<'_>, width: usize, align: Alignment) -> bool {
        let room = self.room(o.kind, width);
        &&& n.kind == o.kind && fit_result(o, n, room, align, self) && n.inner_width() == room
        &&& n.spacing matches Some(sp) ==> sp.align == align
        &&& o.visible_length <= room ==> n.compounds@ == o.compounds@
    }
    pub open spec fn fill_shown(&self, c: Composite<'_>, width: usize, align: Alignment, a: Seq<Out>, b: Seq<Out>) -> bool {
        exists|o: FmtComposite<'_>, n: FmtComposite<'_>| self.formed(c, o) && #[trigger] self.filled(o, n, width, align) && wrote(a, b, self.line_cells(&FmtLine::Normal(n), Some(width), true))
    }
    // which covers exactly the width
    pub proof fn filled_cols(&self, o: FmtComposite<'_>, n: FmtComposite<'_>, width: usize, align: Alignment)
        requires self.filled(o, n, width, align), self.sizes_ok(&n, Some(width)), self.marks_ok(), self.borders_ok(), self.specials_ok(n.compounds@),
        ensures cols(self.line_cells(&FmtLine::Normal(n), Some(width), true)) == width,
    {
        line_cols(self, &FmtLine::Normal(n), width);
    }
}
pub proof fn inlines_shown(sk: &MadSkin, c: Composite<'_>, a: Seq<Out>)
    ensures forall|fc: FmtComposite<'_>| sk.formed(c, fc) ==> sk.inline_shown(c, a, #[trigger] a.push(Out::Cells(sk.composite_cells(&fc, None, false, true)))),
{
    assert forall|fc: FmtComposite<'_>| sk.formed(c, fc) implies sk.inline_shown(c, a, #[trigger] a.push(Out::Cells(sk.composite_cells(&fc, None, false, true)))) by {
        wrote_one(a, Out::Cells(sk.composite_cells(&fc, None, false, true)));
    }
}
//@fn src/skin.rs MadSkin::write_composite
//@ret r
//@spec
    requires self.writable(composite),
    ensures r.is_ok() ==> self.inline_shown(composite, old(w).out(), final(w).out()),
//@at body-start
    let ghost o1 = w.out();
    let ghost c = composite;
    proof { inlines_shown(self, c, o1); }
//@endfn
// what minimad reads in a snippet
pub uninterp spec fn inlined<'s>(src: Seq<char>) -> Composite<'s>;
#[verifier::external_body]
pub fn vrt_from_inline<'s>(src: &'s str) -> (r: Composite<'s>) ensures r == inlined::<'s>(src@) { unimplemented!() }
//@fn src/skin.rs MadSkin::inline
//@ret r
//@rule call Composite::from_inline vrt_from_inline
//@spec
    requires self.writable(inlined(src@)),
    ensures r.skin == self, self.formed(inlined(src@), r.composite),
//@endfn
//@fn src/skin.rs MadSkin::write_inline_on
//@ret r
//@spec
    requires self.writable(inlined(src@)),
    ensures r.is_ok() ==> self.inline_shown(inlined(src@), old(w).out(), final(w).out()),
//@at body-start
    proof { inlines_shown(self, inlined(src@), w.out()); }
//@endfn
//@fn src/skin.rs MadSkin::write_composite_fill
//@ret r
//@spec
    requires self.writable(composite), width < BIG(),
        // no prefix, or everything fits
        self.prefix_len(kind_of(composite.style)) == 0 || self.prefix_len(kind_of(composite.style)) + ccw(composite.compounds@) <= self.room(kind_of(composite.style), width),
    ensures r.is_ok() ==> self.fill_shown(composite, width, align, old(w).out(), final(w).out()),
//@at body-start
    let ghost o1 = w.out();
    let ghost c = composite;
//@at after let fc 0
    let ghost fc0 = fc;
    proof { assert(self.formed(c, fc0)); }
//@at after call fill_width 0
    let ghost fc1 = fc;
    proof {
        assert(self.filled(fc0, fc1, width, align));
        wrote_one(o1, Out::Cells(self.line_cells(&FmtLine::Normal(fc1), Some(width), true)));
    }
//@endfn
}
