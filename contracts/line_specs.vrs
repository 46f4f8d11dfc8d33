// table rows and rules, lines, texts
verus! {
pub open spec fn tblw(cells: Seq<FmtComposite<'_>>) -> int decreases cells.len() { if cells.len() == 0 { 0 } else { tblw(cells.drop_last()) + cells.last().inner_width() + 1 } }
pub open spec fn rulew(ws: Seq<usize>) -> int decreases ws.len() { if ws.len() == 0 { 0 } else { rulew(ws.drop_last()) + ws.last() + 1 } }
// both corners, and the junctions
pub open spec fn rule_width(ws: Seq<usize>) -> int { if ws.len() == 0 { 2 } else { 1 + rulew(ws) } }
pub proof fn tblw_next(c: Seq<FmtComposite<'_>>, k: int)
    requires 0 <= k < c.len(),
    ensures tblw(c.take(k + 1)) == tblw(c.take(k)) + c[k].inner_width() + 1, 0 <= tblw(c.take(k)) <= tblw(c.take(k + 1)) <= tblw(c),
    decreases c.len(),
{
    assert(c.take(k + 1).drop_last() =~= c.take(k));
    tblw_mono(c, k); tblw_mono(c, k + 1);
}
pub proof fn tblw_mono(c: Seq<FmtComposite<'_>>, k: int)
    requires 0 <= k <= c.len(),
    ensures 0 <= tblw(c.take(k)) <= tblw(c), k == c.len() ==> tblw(c.take(k)) == tblw(c),
    decreases c.len(),
{
    if k == c.len() {
        assert(c.take(k) =~= c);
        if k > 0 { tblw_mono(c.drop_last(), k - 1); assert(c.drop_last().take(k - 1) =~= c.drop_last()); }
    } else {
        tblw_mono(c.drop_last(), k);
        assert(c.drop_last().take(k) =~= c.take(k));
    }
}
pub proof fn rulew_mono(c: Seq<usize>, k: int)
    requires 0 <= k <= c.len(),
    ensures 0 <= rulew(c.take(k)) <= rulew(c), k == c.len() ==> rulew(c.take(k)) == rulew(c),
    decreases c.len(),
{
    if k == c.len() {
        assert(c.take(k) =~= c);
        if k > 0 { rulew_mono(c.drop_last(), k - 1); assert(c.drop_last().take(k - 1) =~= c.drop_last()); }
    } else {
        rulew_mono(c.drop_last(), k);
        assert(c.drop_last().take(k) =~= c.take(k));
    }
}
pub proof fn rulew_next(c: Seq<usize>, k: int)
    requires 0 <= k < c.len(),
    ensures rulew(c.take(k + 1)) == rulew(c.take(k)) + c[k] + 1, 0 <= rulew(c.take(k)) <= rulew(c.take(k + 1)) <= rulew(c),
{
    assert(c.take(k + 1).drop_last() =~= c.take(k));
    rulew_mono(c, k); rulew_mono(c, k + 1);
}
impl MadSkin {
    pub open spec fn bar(&self, c: char) -> Seq<Cell> { chcell(self.table.compound_style, c) }
    pub open spec fn row_cells(&self, cells: Seq<FmtComposite<'_>>) -> Seq<Cell> decreases cells.len() {
        if cells.len() == 0 { Seq::empty() } else {
            self.row_cells(cells.drop_last()) + self.bar(self.table_border_chars.vertical) + self.composite_cells(&cells.last(), None, false, false)
        }
    }
    pub open spec fn rule_cells(&self, ws: Seq<usize>, junction: char) -> Seq<Cell> decreases ws.len() {
        if ws.len() == 0 { Seq::empty() } else {
            self.rule_cells(ws.drop_last(), junction)
                + (if ws.len() > 1 { self.bar(junction) } else { Seq::empty() })
                + styled(self.table.compound_style.object_style, rep(self.table_border_chars.horizontal, ws.last() as int))
        }
    }
    pub open spec fn line_cells(&self, line: &FmtLine<'_>, width: Option<usize>, completion: bool) -> Seq<Cell> {
        let tbc = self.table_border_chars;
        let par = self.paragraph.compound_style;
        match line {
            FmtLine::Normal(fc) => self.composite_cells(fc, width, completion, true),
            FmtLine::TableRow(row) => {
                let o = opads(self.table.align, 1 + tblw(row.cells@), width);
                sp(par, o.0) + self.row_cells(row.cells@) + self.bar(tbc.vertical)
                    + (if completion { sp(par, o.1) } else { Seq::empty() })
            }
            FmtLine::TableRule(rule) => {
                let o = opads(self.table.align, rule_width(rule.widths@), width);
                let (a, b, c) = match rule.position {
                    RelativePosition::Top => (tbc.top_left_corner, tbc.top_junction, tbc.top_right_corner),
                    RelativePosition::Other => (tbc.left_junction, tbc.cross, tbc.right_junction),
                    RelativePosition::Bottom => (tbc.bottom_left_corner, tbc.bottom_junction, tbc.bottom_right_corner),
                };
                sp(par, o.0) + self.bar(a) + self.rule_cells(rule.widths@, b) + self.bar(c)
                    + (if completion { sp(par, o.1) } else { Seq::empty() })
            }
            FmtLine::HorizontalRule => match width { Some(w) => styled(self.horizontal_rule.compound_style.object_style, rep(self.horizontal_rule.nude_char, w as int)), None => Seq::empty() },
        }
    }
    pub open spec fn line_sizes_ok(&self, line: &FmtLine<'_>, width: Option<usize>) -> bool {
        match line {
            FmtLine::Normal(fc) => self.sizes_ok(fc, width),
            FmtLine::TableRow(row) => tblw(row.cells@) < BIG() && forall|i: int| 0 <= i < row.cells@.len() ==> #[trigger] self.sizes_ok(&row.cells@[i], None),
            FmtLine::TableRule(rule) => rulew(rule.widths@) < BIG(),
            FmtLine::HorizontalRule => true,
        }
    }
}
pub proof fn row_next(sk: &MadSkin, f: Seq<Cell>, c: Seq<FmtComposite<'_>>, k: int)
    requires 0 <= k < c.len(),
    ensures f + sk.row_cells(c.take(k)) + sk.bar(sk.table_border_chars.vertical) + sk.composite_cells(&c[k], None, false, false) == f + sk.row_cells(c.take(k + 1)),
{
    assert(c.take(k + 1).drop_last() =~= c.take(k));
    assoc3(f, sk.row_cells(c.take(k)), sk.bar(sk.table_border_chars.vertical), sk.composite_cells(&c[k], None, false, false));
}
pub proof fn rule_next(sk: &MadSkin, f: Seq<Cell>, c: Seq<usize>, j: char, k: int)
    requires 0 <= k < c.len(),
    ensures f + sk.rule_cells(c.take(k), j) + (if k > 0 { sk.bar(j) } else { Seq::empty() }) + styled(sk.table.compound_style.object_style, rep(sk.table_border_chars.horizontal, c[k] as int)) == f + sk.rule_cells(c.take(k + 1), j),
{
    assert(c.take(k + 1).drop_last() =~= c.take(k));
    assoc3(f, sk.rule_cells(c.take(k), j), if k > 0 { sk.bar(j) } else { Seq::empty() }, styled(sk.table.compound_style.object_style, rep(sk.table_border_chars.horizontal, c[k] as int)));
}
//@fn src/skin.rs MadSkin::write_fmt_line
//@attrs #[verifier::rlimit(60)]
//@ret r
//@rule write
//@rule fold_type usize
//@spec
    requires self.line_sizes_ok(line, width),
    ensures r.is_ok() ==> final(f).out() == old(f).out() + self.line_cells(line, width, with_right_completion),
//@at body-start
    let ghost f0 = f.out();
    let ghost par = self.paragraph.compound_style;
    let ghost w0 = width;
    let ghost comp = with_right_completion;
    let ghost tb = self.table_border_chars;
    proof { plus_nothing(f0); }
//@loop 0 it
    invariant
        __acc1 == tblw(cells@.take(it.index@ as int)), tblw(cells@) < BIG(),
        it.seq().len() == cells@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *it.seq()[i] == cells@[i],
//@at loop 0 start
    proof { tblw_next(cells@, it.index@ as int); }
//@at loop 0 after
    proof { assert(cells@.take(cells@.len() as int) =~= cells@); }
//@at after call repeat_space 0
    let ghost f1 = f.out();
    proof { assert(cells@.take(0) =~= Seq::<FmtComposite<'_>>::empty()); plus_nothing(f1); }
//@loop 1 it
    invariant
        f.out() == f1 + self.row_cells(cells@.take(it.index@ as int)),
        *tbc == self.table_border_chars,
        forall|i: int| 0 <= i < cells@.len() ==> #[trigger] self.sizes_ok(&cells@[i], None),
        it.seq().len() == cells@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *it.seq()[i] == cells@[i],
//@at loop 1 start
    proof { assert(self.sizes_ok(&cells@[it.index@ as int], None)); }
//@at loop 1 end
    proof { row_next(self, f1, cells@, it.index@ as int); }
//@at before call repeat_space 1
    proof { plus_nothing(f0); }
//@at after call repeat_space 1
    proof { assert(f.out() == f0 + sp(par, lpo as int) + self.row_cells(cells@) + self.bar(tb.vertical) + sp(par, rpo as int)); }
//@loop 2 it
    invariant
        __acc3 == rulew(rule.widths@.take(it.index@ as int)), rulew(rule.widths@) < BIG(),
        it.seq().len() == rule.widths@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *it.seq()[i] == rule.widths@[i],
//@at loop 2 start
    proof { rulew_next(rule.widths@, it.index@ as int); }
//@at loop 2 after
    proof { let ws = rule.widths@; assert(ws.take(ws.len() as int) =~= ws); rulew_mono(ws, 0); if ws.len() > 0 { rulew_next(ws, ws.len() - 1); assert(rulew(ws) >= 1); } }
//@at before call optional_completions 1
    let ghost (ja, jb, jc) = match rule.position {
                    RelativePosition::Top => (tb.top_left_corner, tb.top_junction, tb.top_right_corner),
                    RelativePosition::Other => (tb.left_junction, tb.cross, tb.right_junction),
                    RelativePosition::Bottom => (tb.bottom_left_corner, tb.bottom_junction, tb.bottom_right_corner),
                };
//@at loop 3 before
    let ghost f1 = f.out();
    proof {
        assert(f1 == f0 + sp(par, lpo as int) + self.bar(ja));
        assert(rule.widths@.take(0) =~= Seq::<usize>::empty()); plus_nothing(f1);
    }
//@loop 3 it
    invariant
        f.out() == f1 + self.rule_cells(rule.widths@.take(it.index@ as int), jb),
        *tbc == self.table_border_chars,
        (rule.position is Top ==> jb == self.table_border_chars.top_junction) && (rule.position is Other ==> jb == self.table_border_chars.cross) && (rule.position is Bottom ==> jb == self.table_border_chars.bottom_junction),
//@at loop 3 start
    proof { plus_nothing(f.out()); }
//@at loop 3 end
    proof { rule_next(self, f1, rule.widths@, jb, it.index@ as int); }
//@at body-end
    proof {
        let z = Seq::<Cell>::empty();
        let o = match line { FmtLine::TableRow(row) => opads(self.table.align, 1 + tblw(row.cells@), w0), FmtLine::TableRule(rule) => opads(self.table.align, rule_width(rule.widths@), w0), _ => (0, 0) };
        let e = if comp { sp(par, o.1) } else { z };
        match line {
            FmtLine::TableRow(row) => {
                plus_nothing(f0 + sp(par, o.0) + self.row_cells(row.cells@) + self.bar(tb.vertical));
                assoc(f0, sp(par, o.0), self.row_cells(row.cells@), self.bar(tb.vertical), e, z, z);
            }
            FmtLine::TableRule(rule) => {
                let (a, b, c) = match rule.position {
                    RelativePosition::Top => (tb.top_left_corner, tb.top_junction, tb.top_right_corner),
                    RelativePosition::Other => (tb.left_junction, tb.cross, tb.right_junction),
                    RelativePosition::Bottom => (tb.bottom_left_corner, tb.bottom_junction, tb.bottom_right_corner),
                };
                assoc(f0, sp(par, o.0), self.bar(a), self.rule_cells(rule.widths@, b), self.bar(c), e, z);
                assert(rule.widths@.take(rule.widths@.len() as int) =~= rule.widths@);
            }
            _ => {}
        }
    }
//@endfn
}
// ---------------------------------------------------------------- columns covered
verus! {
pub open spec fn cols(c: Seq<Cell>) -> int decreases c.len() { if c.len() == 0 { 0 } else { cols(c.drop_last()) + chw(c.last().1) } }
pub proof fn cols_add(a: Seq<Cell>, b: Seq<Cell>)
    ensures cols(a + b) == cols(a) + cols(b),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); } else {
        cols_add(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
    }
}
pub proof fn cols_styled(st: ContentStyle, s: Seq<char>)
    ensures cols(styled(st, s)) == sw(s),
    decreases s.len(),
{
    if s.len() > 0 { cols_styled(st, s.drop_last()); assert(styled(st, s).drop_last() =~= styled(st, s.drop_last())); }
}
pub proof fn cols_rep(st: ContentStyle, c: char, n: int)
    requires chw(c) == 1, 0 <= n,
    ensures cols(styled(st, rep(c, n))) == n,
{ cols_styled(st, rep(c, n)); assert(forall|i: int| 0 <= i < n ==> rep(c, n)[i] == c); sw_ones(rep(c, n)); }
pub proof fn cols_one(st: ContentStyle, c: char)
    ensures cols(styled(st, seq![c])) == chw(c),
{ cols_styled(st, seq![c]); reveal_with_fuel(sw, 2); assert(seq![c].drop_last() =~= Seq::<char>::empty()); }
pub proof fn cols_sp(cs: CompoundStyle, n: int)
    requires 0 <= n,
    ensures cols(sp(cs, n)) == n,
{ uwidth_ascii(' '); cols_rep(cs.object_style, ' ', n); }
impl MadSkin {
    // the bullet and the quote mark are one column wide
    pub open spec fn marks_ok(&self) -> bool { chw(self.bullet.styled_char.content) == 1 && chw(self.quote_mark.styled_char.content) == 1 }
    // special renders are as wide as what they replace
    pub open spec fn specials_ok(&self, s: Seq<Compound<'_>>) -> bool {
        forall|i: int| 0 <= i < s.len() ==> (self.special_chars.of(#[trigger] s[i]) matches Some(sc) ==> chw(sc.styled_char.content) == sw(s[i].src@))
    }
    pub open spec fn borders_ok(&self) -> bool {
        let t = self.table_border_chars;
        chw(t.vertical) == 1 && chw(t.horizontal) == 1 && chw(t.cross) == 1
            && chw(t.top_left_corner) == 1 && chw(t.top_junction) == 1 && chw(t.top_right_corner) == 1
            && chw(t.bottom_left_corner) == 1 && chw(t.bottom_junction) == 1 && chw(t.bottom_right_corner) == 1
            && chw(t.left_junction) == 1 && chw(t.right_junction) == 1
    }
}
pub proof fn prefix_cols(sk: &MadSkin, kind: CompositeKind)
    requires sk.marks_ok(),
    ensures cols(sk.prefix_cells(kind)) == sk.prefix_len(kind),
{
    let p = sk.paragraph.compound_style;
    match kind {
        CompositeKind::ListItem(d) => {
            cols_sp(p, d as int); cols_sp(p, 1); cols_one(sk.bullet.styled_char.style, sk.bullet.styled_char.content);
            cols_add(sp(p, d as int), sccell(sk.bullet)); cols_add(sp(p, d as int) + sccell(sk.bullet), sp(p, 1));
        }
        CompositeKind::ListItemFollowUp(d) => { cols_sp(p, d as int + 2); }
        CompositeKind::Quote => {
            cols_sp(p, 1); cols_one(sk.quote_mark.styled_char.style, sk.quote_mark.styled_char.content);
            cols_add(sccell(sk.quote_mark), sp(p, 1));
        }
        _ => {}
    }
}
pub proof fn content_cols(sk: &MadSkin, ls: LineStyle, s: Seq<Compound<'_>>)
    requires sk.specials_ok(s),
    ensures cols(sk.content_cells(ls, s)) == ccw(s),
    decreases s.len(),
{
    if s.len() > 0 {
        let c = s.last();
        assert(s[s.len() - 1] == c);
        assert forall|i: int| 0 <= i < s.drop_last().len() implies (sk.special_chars.of(#[trigger] s.drop_last()[i]) matches Some(sc) ==> chw(sc.styled_char.content) == sw(s.drop_last()[i].src@)) by { assert(s.drop_last()[i] == s[i]); }
        content_cols(sk, ls, s.drop_last());
        cols_add(sk.content_cells(ls, s.drop_last()), sk.fragment_cells(ls, c));
        match sk.special_chars.of(c) {
            Some(sc) => cols_one(sc.styled_char.style, sc.styled_char.content),
            None => cols_styled(sk.style_of(ls, c).object_style, c.src@),
        }
    }
}
pub proof fn pads_facts(a: Alignment, inner: int, outer: int)
    requires 0 <= inner,
    ensures pads(a, inner, outer).0 >= 0, pads(a, inner, outer).1 >= 0,
        inner <= outer ==> inner + pads(a, inner, outer).0 + pads(a, inner, outer).1 == outer,
        inner > outer ==> pads(a, inner, outer) == (0int, 0int),
        a == Alignment::Left || a == Alignment::Unspecified ==> pads(a, inner, outer).0 == 0,
        a == Alignment::Right ==> pads(a, inner, outer).1 == 0,
        a == Alignment::Center ==> pads(a, inner, outer).0 == pads(a, inner, outer).1 || pads(a, inner, outer).0 + 1 == pads(a, inner, outer).1,
{}
// what a rendered composite covers, and where its content is
pub proof fn composite_cols(sk: &MadSkin, fc: &FmtComposite<'_>, outer: Option<usize>, completion: bool, wm: bool)
    requires fc.wf(sk), sk.marks_ok(), sk.specials_ok(fc.compounds@), sk.sizes_ok(fc, outer),
    ensures
        cols(sk.composite_cells(fc, outer, completion, wm)) == sk.outer_pads(fc, outer, wm).0 + fc.inner_pads().0 + fc.visible_length + fc.inner_pads().1 + (if completion { sk.outer_pads(fc, outer, wm).1 } else { 0 }),
        // a cell with a column width covers it when its content fits
        fc.visible_length <= fc.inner_width() ==> fc.inner_pads().0 + fc.visible_length + fc.inner_pads().1 == fc.inner_width(),
        // with completion, the whole width is covered
        completion && outer is Some && fc.visible_length <= fc.inner_width()
            && fc.inner_width() + (if wm { margins(sk.line_style_of(fc.kind), outer).0 + margins(sk.line_style_of(fc.kind), outer).1 } else { 0 }) <= outer.unwrap()
            ==> cols(sk.composite_cells(fc, outer, completion, wm)) == outer.unwrap(),
{
    let ls = sk.line_style_of(fc.kind);
    let par = sk.paragraph.compound_style;
    let o = sk.outer_pads(fc, outer, wm);
    let (l, r) = fc.inner_pads();
    let m = if wm { margins(ls, outer) } else { (0, 0) };
    pads_facts(ls.align, fc.inner_width() + m.0 + m.1, match outer { Some(w) => w as int, None => 0 });
    if let Some(s) = fc.spacing { pads_facts(s.align, fc.visible_length as int, s.width as int); }
    let a = sp(par, o.0); let b = sp(ls.compound_style, l); let c = sk.prefix_cells(fc.kind); let d = sk.content_cells(ls, fc.compounds@); let e = sp(ls.compound_style, r);
    let g = if completion { sp(par, o.1) } else { Seq::<Cell>::empty() };
    cols_sp(par, o.0); cols_sp(par, o.1); cols_sp(ls.compound_style, l); cols_sp(ls.compound_style, r);
    prefix_cols(sk, fc.kind); content_cols(sk, ls, fc.compounds@);
    cols_add(a, b); cols_add(a + b, c); cols_add(a + b + c, d); cols_add(a + b + c + d, e); cols_add(a + b + c + d + e, g);
}
// table rows whose cells fit their column, and rules, are as wide as their columns plus the borders
pub proof fn row_cols(sk: &MadSkin, cells: Seq<FmtComposite<'_>>)
    requires sk.marks_ok(), sk.borders_ok(),
        forall|i: int| 0 <= i < cells.len() ==> (#[trigger] cells[i]).wf(sk) && sk.specials_ok(cells[i].compounds@) && sk.sizes_ok(&cells[i], None) && cells[i].visible_length <= cells[i].inner_width(),
    ensures cols(sk.row_cells(cells)) == tblw(cells),
    decreases cells.len(),
{
    if cells.len() > 0 {
        let k = cells.len() - 1;
        let c = cells[k];
        assert(cells.last() == c);
        row_cols(sk, cells.drop_last());
        composite_cols(sk, &c, None, false, false);
        let v = sk.bar(sk.table_border_chars.vertical);
        cols_one(sk.table.compound_style.object_style, sk.table_border_chars.vertical);
        cols_add(sk.row_cells(cells.drop_last()), v);
        cols_add(sk.row_cells(cells.drop_last()) + v, sk.composite_cells(&c, None, false, false));
    }
}
pub proof fn rule_cols(sk: &MadSkin, ws: Seq<usize>, j: char)
    requires sk.borders_ok(), chw(j) == 1,
    ensures cols(sk.rule_cells(ws, j)) == (if ws.len() == 0 { 0 } else { rulew(ws) - 1 }),
    decreases ws.len(),
{
    if ws.len() > 0 {
        let p = ws.drop_last();
        rule_cols(sk, p, j);
        let b = if ws.len() > 1 { sk.bar(j) } else { Seq::<Cell>::empty() };
        let h = styled(sk.table.compound_style.object_style, rep(sk.table_border_chars.horizontal, ws.last() as int));
        cols_one(sk.table.compound_style.object_style, j);
        cols_rep(sk.table.compound_style.object_style, sk.table_border_chars.horizontal, ws.last() as int);
        cols_add(sk.rule_cells(p, j), b);
        cols_add(sk.rule_cells(p, j) + b, h);
        if p.len() == 0 { assert(rulew(p) == 0); }
    }
}
// the columns covered by a displayed line
pub proof fn line_cols(sk: &MadSkin, line: &FmtLine<'_>, w: usize)
    requires sk.marks_ok(), sk.borders_ok(), sk.line_sizes_ok(line, Some(w)),
    ensures match line {
        FmtLine::Normal(fc) => {
            fc.wf(sk) && sk.specials_ok(fc.compounds@) && fc.visible_length <= fc.inner_width()
                && fc.inner_width() + margins(sk.line_style_of(fc.kind), Some(w)).0 + margins(sk.line_style_of(fc.kind), Some(w)).1 <= w
                ==> cols(sk.line_cells(line, Some(w), true)) == w && cols(sk.line_cells(line, Some(w), false)) <= w
        }
        FmtLine::TableRow(row) => {
            (forall|i: int| 0 <= i < row.cells@.len() ==> (#[trigger] row.cells@[i]).wf(sk) && sk.specials_ok(row.cells@[i].compounds@) && row.cells@[i].visible_length <= row.cells@[i].inner_width())
                ==> cols(sk.line_cells(line, None, false)) == 1 + tblw(row.cells@)
                    && (1 + tblw(row.cells@) <= w ==> cols(sk.line_cells(line, Some(w), true)) == w && cols(sk.line_cells(line, Some(w), false)) <= w)
        }
        FmtLine::TableRule(rule) => {
            cols(sk.line_cells(line, None, false)) == rule_width(rule.widths@)
                && (rule_width(rule.widths@) <= w ==> cols(sk.line_cells(line, Some(w), true)) == w && cols(sk.line_cells(line, Some(w), false)) <= w)
        }
        FmtLine::HorizontalRule => chw(sk.horizontal_rule.nude_char) == 1 ==> cols(sk.line_cells(line, Some(w), true)) == w,
    },
{
    let par = sk.paragraph.compound_style;
    let tb = sk.table_border_chars;
    let st = sk.table.compound_style.object_style;
    match line {
        FmtLine::Normal(fc) => {
            if fc.wf(sk) && sk.specials_ok(fc.compounds@) {
                composite_cols(sk, fc, Some(w), true, true);
                composite_cols(sk, fc, Some(w), false, true);
                let m = margins(sk.line_style_of(fc.kind), Some(w));
                pads_facts(sk.line_style_of(fc.kind).align, fc.inner_width() + m.0 + m.1, w as int);
            }
        }
        FmtLine::TableRow(row) => {
            let n = 1 + tblw(row.cells@);
            let o = opads(sk.table.align, n, Some(w));
            tblw_mono(row.cells@, 0);
            pads_facts(sk.table.align, n, w as int);
            if forall|i: int| 0 <= i < row.cells@.len() ==> (#[trigger] row.cells@[i]).wf(sk) && sk.specials_ok(row.cells@[i].compounds@) && row.cells@[i].visible_length <= row.cells@[i].inner_width() {
                row_cols(sk, row.cells@);
                let r = sk.row_cells(row.cells@); let v = sk.bar(tb.vertical); let z = Seq::<Cell>::empty();
                cols_one(st, tb.vertical);
                cols_sp(par, 0); cols_sp(par, o.0); cols_sp(par, o.1);
                cols_add(sp(par, 0), r); cols_add(sp(par, 0) + r, v); cols_add(sp(par, 0) + r + v, z);
                cols_add(sp(par, o.0), r); cols_add(sp(par, o.0) + r, v); cols_add(sp(par, o.0) + r + v, z); cols_add(sp(par, o.0) + r + v, sp(par, o.1));
            }
        }
        FmtLine::TableRule(rule) => {
            let n = rule_width(rule.widths@);
            let o = opads(sk.table.align, n, Some(w));
            rulew_mono(rule.widths@, 0);
            pads_facts(sk.table.align, n, w as int);
            let (a, b, c) = match rule.position {
                RelativePosition::Top => (tb.top_left_corner, tb.top_junction, tb.top_right_corner),
                RelativePosition::Other => (tb.left_junction, tb.cross, tb.right_junction),
                RelativePosition::Bottom => (tb.bottom_left_corner, tb.bottom_junction, tb.bottom_right_corner),
            };
            rule_cols(sk, rule.widths@, b);
            let r = sk.rule_cells(rule.widths@, b); let z = Seq::<Cell>::empty();
            let x = sk.bar(a); let y = sk.bar(c);
            cols_one(st, a); cols_one(st, c);
            cols_sp(par, 0); cols_sp(par, o.0); cols_sp(par, o.1);
            cols_add(sp(par, 0), x); cols_add(sp(par, 0) + x, r); cols_add(sp(par, 0) + x + r, y); cols_add(sp(par, 0) + x + r + y, z);
            cols_add(sp(par, o.0), x); cols_add(sp(par, o.0) + x, r); cols_add(sp(par, o.0) + x + r, y); cols_add(sp(par, o.0) + x + r + y, z); cols_add(sp(par, o.0) + x + r + y, sp(par, o.1));
        }
        FmtLine::HorizontalRule => { if chw(sk.horizontal_rule.nude_char) == 1 { cols_rep(sk.horizontal_rule.compound_style.object_style, sk.horizontal_rule.nude_char, w as int); } }
    }
}
}

// ---------------------------------------------------------------- Display
verus! {
//@type src/inline.rs FmtInline
//@type src/displayable_line.rs DisplayableLine
//@fn src/inline.rs <fmt::Display for FmtInline>::fmt
//@header impl<'k, 's> FmtInline<'k, 's>
//@ret r
//@spec
    requires self.skin.sizes_ok(&self.composite, None),
    ensures r.is_ok() ==> final(f).out() == old(f).out() + self.skin.composite_cells(&self.composite, None, false, true),
//@endfn
//@fn src/displayable_line.rs DisplayableLine::new
//@ret r
//@spec
    ensures r.skin == skin, r.line == line, r.width == width,
//@endfn
//@fn src/displayable_line.rs <fmt::Display for DisplayableLine>::fmt
//@header impl<'s, 'l, 'p> DisplayableLine<'s, 'l, 'p>
//@ret r
//@spec
    requires self.skin.line_sizes_ok(self.line, self.width),
    ensures r.is_ok() ==> final(f).out() == old(f).out() + self.skin.line_cells(self.line, self.width, true),
//@endfn
impl<'k, 's> FmtText<'k, 's> {
    pub open spec fn cells_of(&self, k: int) -> Seq<Cell> decreases k {
        if k <= 0 { Seq::empty() } else { self.cells_of(k - 1) + self.skin.line_cells(&self.lines@[k - 1], self.width, false) + unstyled(seq!['\n']) }
    }
}
//@fn src/text.rs <fmt::Display for FmtText>::fmt
//@header impl<'k, 's> FmtText<'k, 's>
//@rule write
//@ret r
//@spec
    requires forall|i: int| 0 <= i < self.lines@.len() ==> self.skin.line_sizes_ok(#[trigger] &self.lines@[i], self.width),
    ensures r.is_ok() ==> final(f).out() == old(f).out() + self.cells_of(self.lines@.len() as int),
//@at body-start
    let ghost f0 = f.out();
    proof { plus_nothing(f0); reveal_strlit("\n"); assert("\n"@ =~= seq!['\n']); }
//@loop 0 it
    invariant
        f.out() == f0 + self.cells_of(it.index@ as int), "\n"@ == seq!['\n'],
        forall|i: int| 0 <= i < self.lines@.len() ==> self.skin.line_sizes_ok(#[trigger] &self.lines@[i], self.width),
        it.seq().len() == self.lines@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *it.seq()[i] == self.lines@[i],
//@at loop 0 start
    proof { assert(self.skin.line_sizes_ok(&self.lines@[it.index@ as int], self.width)); }
//@at loop 0 end
    proof { assoc3(f0, self.cells_of(it.index@ as int), self.skin.line_cells(&self.lines@[it.index@ as int], self.width, false), unstyled(seq!['\n'])); }
//@endfn
}
