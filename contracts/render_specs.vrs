// what is displayed for a formatted line: the cells, then how many columns they cover
verus! {
pub open spec fn ob(cs: CompoundStyle) -> ContentStyle { cs.object_style }
pub open spec fn sp(cs: CompoundStyle, n: int) -> Seq<Cell> { styled(cs.object_style, rep(' ', n)) }
pub open spec fn chcell(cs: CompoundStyle, c: char) -> Seq<Cell> { styled(cs.object_style, seq![c]) }
pub open spec fn sccell(sc: StyledChar) -> Seq<Cell> { styled(sc.styled_char.style, seq![sc.styled_char.content]) }
pub proof fn sp_add(cs: CompoundStyle, a: int, b: int)
    requires 0 <= a, 0 <= b,
    ensures sp(cs, a) + sp(cs, b) == sp(cs, a + b),
{ assert(sp(cs, a) + sp(cs, b) =~= sp(cs, a + b)); }
pub proof fn sp_one(cs: CompoundStyle)
    ensures chcell(cs, ' ') == sp(cs, 1),
{ assert(chcell(cs, ' ') =~= sp(cs, 1)); }
//@fn src/styled_char.rs <Display for StyledChar>::fmt
//@header impl StyledChar
//@as vrt_show
//@rule method fmt vrt_display
//@ret r
//@spec
    ensures r.is_ok() ==> final(f).out() == old(f).out() + sccell(*self),
//@endfn
impl VrtDisplay for StyledChar {
    open spec fn shown(&self) -> Seq<Cell> { sccell(*self) }
    fn vrt_display(&self, f: &mut Formatter<'_>) -> (r: FmtResult) { self.vrt_show(f) }
}
//@fn minimad:src/markdown/compound.rs Compound::as_str
//@ret r
//@spec
    ensures r@ == self.src@,
//@endfn
//@fn src/line_style.rs LineStyle::repeat_char
//@ret r
//@spec
    ensures r.is_ok() ==> final(f).out() == old(f).out() + styled(self.compound_style.object_style, rep(c, count as int)),
//@endfn
//@fn src/line_style.rs LineStyle::repeat_string
//@ret r
//@spec
    ensures r.is_ok() ==> final(f).out() == old(f).out() + styled(self.compound_style.object_style, repstr(s@, count as int)),
//@endfn
//@fn src/line_style.rs LineStyle::repeat_space
//@ret r
//@spec
    ensures r.is_ok() ==> final(f).out() == old(f).out() + sp(self.compound_style, count as int),
//@endfn
impl MadSkin {
    pub open spec fn prefix_cells(&self, kind: CompositeKind) -> Seq<Cell> {
        let p = self.paragraph.compound_style;
        match kind {
            CompositeKind::ListItem(d) => sp(p, d as int) + sccell(self.bullet) + sp(p, 1),
            CompositeKind::ListItemFollowUp(d) => if self.list_items_indentation_mode == ListItemsIndentationMode::Block { sp(p, d as int + 2) } else { Seq::empty() },
            CompositeKind::Quote => sccell(self.quote_mark) + sp(p, 1),
            _ => Seq::empty(),
        }
    }
    // a fragment with its style, or its special render
    pub open spec fn fragment_cells(&self, ls: LineStyle, c: Compound<'_>) -> Seq<Cell> {
        match self.special_chars.of(c) { Some(sc) => sccell(sc), None => styled(self.style_of(ls, c).object_style, c.src@) }
    }
    pub open spec fn content_cells(&self, ls: LineStyle, s: Seq<Compound<'_>>) -> Seq<Cell> decreases s.len() {
        if s.len() == 0 { Seq::empty() } else { self.content_cells(ls, s.drop_last()) + self.fragment_cells(ls, s.last()) }
    }
    // (left, right) spaces and margins out of the line
    pub open spec fn outer_pads(&self, fc: &FmtComposite<'_>, outer: Option<usize>, with_margins: bool) -> (int, int) {
        let ls = self.line_style_of(fc.kind);
        let m = if with_margins { margins(ls, outer) } else { (0, 0) };
        let p = opads(ls.align, fc.inner_width() + m.0 + m.1, outer);
        (p.0 + m.0, p.1 + m.1)
    }
    pub open spec fn composite_cells(&self, fc: &FmtComposite<'_>, outer: Option<usize>, completion: bool, with_margins: bool) -> Seq<Cell> {
        let ls = self.line_style_of(fc.kind);
        let o = self.outer_pads(fc, outer, with_margins);
        sp(self.paragraph.compound_style, o.0)
            + sp(ls.compound_style, fc.inner_pads().0)
            + self.prefix_cells(fc.kind)
            + self.content_cells(ls, fc.compounds@)
            + sp(ls.compound_style, fc.inner_pads().1)
            + (if completion { sp(self.paragraph.compound_style, o.1) } else { Seq::empty() })
    }
    pub open spec fn sizes_ok(&self, fc: &FmtComposite<'_>, outer: Option<usize>) -> bool {
        let ls = self.line_style_of(fc.kind);
        &&& fc.kind matches CompositeKind::Header(l) ==> l > 0
        &&& fc.kind matches CompositeKind::ListItemFollowUp(d) ==> d < 255
        &&& fc.visible_length < BIG() && (fc.spacing matches Some(s) ==> s.width < BIG())
        &&& ls.left_margin < BIG() && ls.right_margin < BIG()
    }
}
pub proof fn assoc(f: Seq<Cell>, a: Seq<Cell>, b: Seq<Cell>, c: Seq<Cell>, d: Seq<Cell>, e: Seq<Cell>, g: Seq<Cell>)
    ensures f + a + b + c + d + e + g == f + (a + b + c + d + e + g),
{ assert(f + a + b + c + d + e + g =~= f + (a + b + c + d + e + g)); }
pub proof fn assoc3(f: Seq<Cell>, a: Seq<Cell>, b: Seq<Cell>, c: Seq<Cell>)
    ensures f + a + b + c == f + (a + b + c), f + a + b == f + (a + b),
{ assert(f + a + b + c =~= f + (a + b + c)); assert(f + a + b =~= f + (a + b)); }
pub proof fn plus_nothing(f: Seq<Cell>)
    ensures f + Seq::<Cell>::empty() == f, Seq::<Cell>::empty() + f == f,
{ assert(f + Seq::<Cell>::empty() =~= f); assert(Seq::<Cell>::empty() + f =~= f); }
pub proof fn sp_next(f: Seq<Cell>, cs: CompoundStyle, k: int)
    requires 0 <= k,
    ensures f + sp(cs, k) + chcell(cs, ' ') == f + sp(cs, k + 1),
{ sp_one(cs); sp_add(cs, k, 1); assert(f + sp(cs, k) + sp(cs, 1) =~= f + (sp(cs, k) + sp(cs, 1))); }
pub proof fn sp_zero(f: Seq<Cell>, cs: CompoundStyle)
    ensures f + sp(cs, 0) == f,
{ assert(f + sp(cs, 0) =~= f); }
pub proof fn content_next(sk: &MadSkin, f: Seq<Cell>, ls: LineStyle, s: Seq<Compound<'_>>, k: int)
    requires 0 <= k < s.len(),
    ensures f + sk.content_cells(ls, s.take(k)) + sk.fragment_cells(ls, s[k]) == f + sk.content_cells(ls, s.take(k + 1)),
{
    assert(s.take(k + 1).drop_last() =~= s.take(k));
    assert(f + sk.content_cells(ls, s.take(k)) + sk.fragment_cells(ls, s[k]) =~= f + (sk.content_cells(ls, s.take(k)) + sk.fragment_cells(ls, s[k])));
}
//@fn src/skin.rs MadSkin::write_fmt_composite
//@attrs #[verifier::rlimit(60)]
//@ret r
//@rule write
//@spec
    requires self.sizes_ok(fc, outer_width),
    ensures r.is_ok() ==> final(f).out() == old(f).out() + self.composite_cells(fc, outer_width, with_right_completion, with_margins),
//@at body-start
    let ghost p = self.paragraph.compound_style;
    let ghost f0 = f.out();
//@at after call repeat_space 1
    let ghost f1 = f.out();
    let ghost pre = self.prefix_cells(fc.kind);
    let ghost op = self.outer_pads(fc, outer_width, with_margins);
    proof {
        assert(f1 == f0 + sp(p, op.0) + sp(ls.compound_style, lpi as int));
        sp_zero(f1, p); sp_one(p); plus_nothing(f1);
    }
//@loop 0 it
    invariant f.out() == f1 + sp(p, it.index@ as int), p == self.paragraph.compound_style,
//@at loop 0 end
    proof { sp_next(f1, p, it.index@ as int); }
//@at loop 0 after
    proof { assoc3(f1, sp(p, depth as int), sccell(self.bullet), sp(p, 1)); }
//@loop 1 it
    invariant f.out() == f1 + sp(p, it.index@ as int), p == self.paragraph.compound_style,
//@at loop 1 end
    proof { sp_next(f1, p, it.index@ as int); }
//@at loop 1 after
    proof { sp_next(f1, p, depth as int + 1); }
//@at loop 2 before
    let ghost f2 = f.out();
    proof {
        assoc3(f1, sccell(self.quote_mark), sp(p, 1), Seq::empty());
        assert(f2 == f1 + pre);
        assert(fc.compounds@.take(0) =~= Seq::<Compound<'_>>::empty());
        assert(fc.compounds@.take(fc.compounds@.len() as int) =~= fc.compounds@);
        plus_nothing(f2);
    }
//@loop 2 it
    invariant
        f.out() == f2 + self.content_cells(*ls, fc.compounds@.take(it.index@ as int)),
        it.seq().len() == fc.compounds@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *it.seq()[i] == fc.compounds@[i],
//@at loop 2 end
    proof { content_next(self, f2, *ls, fc.compounds@, it.index@ as int); }
//@at loop 2 after
    let ghost f3 = f.out();
    proof { assert(f3 == f2 + self.content_cells(*ls, fc.compounds@)); }
//@at body-end
    proof {
        let z = Seq::<Cell>::empty();
        let d = self.content_cells(*ls, fc.compounds@);
        let a = sp(p, op.0);
        let b = sp(ls.compound_style, lpi as int);
        let e = sp(ls.compound_style, rpi as int);
        plus_nothing(f0 + a + b + pre + d + e);
        assoc(f0, a, b, pre, d, e, if with_right_completion { sp(p, op.1) } else { z });
    }
//@endfn
}
