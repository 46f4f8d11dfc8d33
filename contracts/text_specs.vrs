// a whole text: from the parsed lines to the displayed ones
verus! {
//@type minimad:src/markdown/tbl.rs TableRow
//@type minimad:src/markdown/tbl.rs TableRule
//@type minimad:src/markdown/line.rs Line
//@type minimad:src/markdown/text.rs Text
pub open spec fn src_ok(c: Composite<'_>) -> bool { ccw(c.compounds@) < BIG() && kind_ok(kind_of(c.style)) }
pub open spec fn line_src_ok(l: Line<'_>) -> bool {
    match l {
        Line::Normal(c) => src_ok(c),
        Line::TableRow(r) => forall|i: int| 0 <= i < r.cells@.len() ==> src_ok(#[trigger] r.cells@[i]),
        _ => true,
    }
}
// the composite with its displayed length
pub open spec fn measured(c: Composite<'_>, f: FmtComposite<'_>, skin: &MadSkin) -> bool { f.kind == kind_of(c.style) && f.compounds@ == c.compounds@ && f.wf(skin) && f.spacing is None }
pub open spec fn built(l: Line<'_>, f: FmtLine<'_>, skin: &MadSkin) -> bool {
    match l {
        Line::Normal(c) => f matches FmtLine::Normal(fc) && measured(c, fc, skin),
        Line::TableRow(r) => f is TableRow && cells_of(f).len() == r.cells@.len() && forall|i: int| 0 <= i < r.cells@.len() ==> measured(r.cells@[i], #[trigger] cells_of(f)[i], skin),
        Line::TableRule(r) => f is TableRule && aligns_of(f) == r.cells@ && f->TableRule_0.widths@.len() == 0,
        _ => f is HorizontalRule,
    }
}
//@fn src/tbl.rs FmtTableRow::from
//@ret r
//@rule collect
//@spec
    requires forall|i: int| 0 <= i < table_row.cells@.len() ==> src_ok(#[trigger] table_row.cells@[i]),
    ensures r.cells@.len() == table_row.cells@.len(), forall|i: int| 0 <= i < r.cells@.len() ==> measured(table_row.cells@[i], #[trigger] r.cells@[i], skin),
//@at body-start
    let ghost c0 = table_row.cells@;
//@loop 0 it
    invariant
        it.seq() == c0, forall|i: int| 0 <= i < c0.len() ==> src_ok(#[trigger] c0[i]),
        measured_to(c0, __acc1@, it.index@ as int, skin),
//@at loop 0 start
    proof { assert(src_ok(c0[it.index@ as int])); }
//@endfn
pub open spec fn measured_to(c: Seq<Composite<'_>>, f: Seq<FmtComposite<'_>>, n: int, skin: &MadSkin) -> bool {
    f.len() == n && forall|i: int| 0 <= i < n ==> measured(c[i], #[trigger] f[i], skin)
}
//@fn src/line.rs FmtLine::from
//@ret r
//@spec
    requires line_src_ok(mline),
    ensures built(mline, r, skin),
//@endfn
pub open spec fn contentw(c: Seq<FmtComposite<'_>>) -> int decreases c.len() { if c.len() == 0 { 0 } else { contentw(c.drop_last()) + c.last().visible_length } }
pub proof fn contentw_mono(c: Seq<FmtComposite<'_>>, k: int)
    requires 0 <= k <= c.len(),
    ensures 0 <= contentw(c.take(k)) <= contentw(c), k < c.len() ==> contentw(c.take(k + 1)) == contentw(c.take(k)) + c[k].visible_length,
    decreases c.len() - k,
{
    if k == c.len() { assert(c.take(k) =~= c); contentw_pos(c); } else {
        contentw_mono(c, k + 1); assert(c.take(k + 1).drop_last() =~= c.take(k)); contentw_pos(c.take(k));
    }
}
pub proof fn contentw_pos(c: Seq<FmtComposite<'_>>)
    ensures contentw(c) >= 0,
    decreases c.len(),
{ if c.len() > 0 { contentw_pos(c.drop_last()); } }
// width of the content of a line
pub open spec fn linew(l: FmtLine<'_>) -> int {
    match l { FmtLine::Normal(fc) => fc.visible_length as int, FmtLine::TableRow(r) => contentw(r.cells@), FmtLine::TableRule(r) => 1 + rulew(r.widths@), FmtLine::HorizontalRule => 0 }
}
//@fn src/line.rs FmtLine::visible_length
//@ret r
//@rule fold_type usize
//@spec
    requires linew(*self) < BIG(),
    ensures r == linew(*self),
//@loop 0 it
    invariant
        self is TableRow, it.seq().len() == self->TableRow_0.cells@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *it.seq()[i] == self->TableRow_0.cells@[i],
        __acc1 == contentw(self->TableRow_0.cells@.take(it.index@ as int)), linew(*self) < BIG(),
        it.index@ == it.seq().len() ==> self->TableRow_0.cells@.take(it.index@ as int) == self->TableRow_0.cells@,
//@at loop 0 start
    proof { let c = self->TableRow_0.cells@; contentw_mono(c, it.index@ as int); contentw_mono(c, it.index@ + 1); assert(c.take(c.len() as int) =~= c); }
//@loop 1 it
    invariant
        self is TableRule, it.seq().len() == self->TableRule_0.widths@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *it.seq()[i] == self->TableRule_0.widths@[i],
        __acc3 == rulew(self->TableRule_0.widths@.take(it.index@ as int)), linew(*self) < BIG(),
        it.index@ == it.seq().len() ==> self->TableRule_0.widths@.take(it.index@ as int) == self->TableRule_0.widths@,
//@at loop 1 start
    proof { let c = self->TableRule_0.widths@; rulew_next(c, it.index@ as int); assert(c.take(c.len() as int) =~= c); }
//@at body-start
    proof {
        if self is TableRow { let c = self->TableRow_0.cells@; assert(c.take(0) =~= Seq::empty()); assert(c.take(c.len() as int) =~= c); }
        if self is TableRule { let c = self->TableRule_0.widths@; assert(c.take(0) =~= Seq::empty()); assert(c.take(c.len() as int) =~= c); }
    }
//@endfn
pub open spec fn all_built(src: Seq<Line<'_>>, l: Seq<FmtLine<'_>>, skin: &MadSkin) -> bool { l.len() == src.len() && built_to(src, l, l.len() as int, skin) }
pub open spec fn built_to(src: Seq<Line<'_>>, l: Seq<FmtLine<'_>>, n: int, skin: &MadSkin) -> bool {
    l.len() == n && forall|i: int| 0 <= i < n ==> built(src[i], #[trigger] l[i], skin)
}
// the tables of the text are less than 2^31 wide, high, and in number of columns
pub open spec fn text_small(src: Seq<Line<'_>>, skin: &MadSkin) -> bool { forall|l: Seq<FmtLine<'_>>| #[trigger] all_built(src, l, skin) ==> tables_small(l) }
pub open spec fn text_ok(src: Seq<Line<'_>>, skin: &MadSkin) -> bool { text_small(src, skin) && forall|i: int| 0 <= i < src.len() ==> line_src_ok(#[trigger] src[i]) }
// the steps from the parsed lines to the displayed ones
pub open spec fn steps(src: Seq<Line<'_>>, l1: Seq<FmtLine<'_>>, l2: Seq<FmtLine<'_>>, l3: Seq<FmtLine<'_>>, r: Seq<FmtLine<'_>>, width: Option<usize>, skin: &MadSkin) -> bool {
    &&& all_built(src, l1, skin)
    &&& tables_fixed(l1, l2, match width { Some(w) => w, None => usize::MAX }, skin)
    &&& justified(l2, l3)
    &&& if width matches Some(w) && w >= 3 { wrapped(l3, r, skin, width.unwrap()) } else { r == l3 }
}
pub open spec fn formatted(src: Seq<Line<'_>>, r: Seq<FmtLine<'_>>, width: Option<usize>, skin: &MadSkin) -> bool {
    exists|l1: Seq<FmtLine<'_>>, l2: Seq<FmtLine<'_>>, l3: Seq<FmtLine<'_>>| #[trigger] steps(src, l1, l2, l3, r, width, skin)
}
// the lines out of tables go through the table layout unchanged
pub open spec fn from_lines(l: Seq<FmtLine<'_>>, x: FmtLine<'_>) -> bool { exists|j: int| 0 <= j < l.len() && #[trigger] l[j] == x }
pub proof fn table_lines_out(src: Seq<FmtLine<'_>>, fin: Seq<FmtLine<'_>>, width: usize, skin: &MadSkin)
    requires fixed_part(src, fin, width, skin), tbl_lines(src, 0, src.len() as int),
    ensures forall|i: int| 0 <= i < fin.len() ==> is_tbl(#[trigger] fin[i]),
{
    let nb = maxc(src, 0, src.len() as int);
    if nb == 0 || width == 0 { } else {
        let ws = choose|ws: Seq<usize>| widths_ok(ws, natws(src, 0, src.len() as int, nb), width as int) && #[trigger] laid_out(src, fin, ws, skin);
        let p = choose|p: Seq<Seq<FmtLine<'_>>>| #[trigger] split(src, p, ws, skin) && placed(cat(p), fin, ws);
        assert forall|i: int| 0 <= i < fin.len() implies is_tbl(#[trigger] fin[i]) by { assert(placed_line(cat(p), i, fin[i], ws)); }
    }
}
pub proof fn others_kept(l: Seq<FmtLine<'_>>, from: int, m: Seq<FmtLine<'_>>, t: Seq<Table>, k: int, width: usize, skin: &MadSkin)
    requires all_fixed(l, from, m, t, k, width, skin), tables_of(l, t), 0 <= k <= t.len(), 0 <= from <= l.len(), k < t.len() ==> from <= t[k].start,
    ensures forall|i: int| 0 <= i < m.len() && !is_tbl(#[trigger] m[i]) ==> from_lines(l, m[i]),
    decreases t.len() - k,
{
    if k >= t.len() {
        assert forall|i: int| 0 <= i < m.len() && !is_tbl(#[trigger] m[i]) implies from_lines(l, m[i]) by { assert(l[from + i] == m[i]); }
    } else {
        let (f, e) = choose|f: Seq<FmtLine<'_>>, e: Seq<FmtLine<'_>>| #[trigger] joined(m, l.subrange(from, t[k].start as int), f, e)
            && fixed_part(l.subrange(t[k].start as int, t[k].end()), f, width, skin) && all_fixed(l, t[k].end(), e, t, k + 1, width, skin);
        assert(t[k].is_found(l));
        let s = l.subrange(t[k].start as int, t[k].end());
        assert forall|i: int| 0 <= i < s.len() implies is_tbl(#[trigger] s[i]) by { assert(is_tbl(l[t[k].start + i])); }
        table_lines_out(s, f, width, skin);
        if k + 1 < t.len() { assert(t[k].end() <= t[k + 1].start); }
        others_kept(l, t[k].end(), e, t, k + 1, width, skin);
        let a = l.subrange(from, t[k].start as int);
        assert forall|i: int| 0 <= i < m.len() && !is_tbl(#[trigger] m[i]) implies from_lines(l, m[i]) by {
            if i < a.len() { assert(m[i] == a[i]); assert(l[from + i] == m[i]); }
            else if i < a.len() + f.len() { assert(m[i] == f[i - a.len()]); }
            else { assert(m[i] == e[i - a.len() - f.len()]); }
        }
    }
}
pub proof fn steps_ready(src: Seq<Line<'_>>, l1: Seq<FmtLine<'_>>, l2: Seq<FmtLine<'_>>, width: usize, skin: &MadSkin)
    requires all_built(src, l1, skin), text_ok(src, skin), tables_fixed(l1, l2, width, skin),
    ensures forall|i: int| 0 <= i < l2.len() ==> (#[trigger] l2[i] matches FmtLine::Normal(fc) ==> fc.ready(skin)),
{
    let t = choose|t: Seq<Table>| tables_of(l1, t) && #[trigger] all_fixed(l1, 0, l2, t, 0, width, skin);
    others_kept(l1, 0, l2, t, 0, width, skin);
    assert forall|i: int| 0 <= i < l2.len() implies (#[trigger] l2[i] matches FmtLine::Normal(fc) ==> fc.ready(skin)) by {
        if l2[i] is Normal { assert(!is_tbl(l2[i])); let j = choose|j: int| 0 <= j < l1.len() && #[trigger] l1[j] == l2[i]; assert(built(src[j], l1[j], skin)); assert(line_src_ok(src[j])); }
    }
}
pub proof fn just_ready(l2: Seq<FmtLine<'_>>, l3: Seq<FmtLine<'_>>, skin: &MadSkin)
    requires justified(l2, l3), forall|i: int| 0 <= i < l2.len() ==> (#[trigger] l2[i] matches FmtLine::Normal(fc) ==> fc.ready(skin)),
    ensures forall|i: int| 0 <= i < l3.len() ==> (#[trigger] l3[i] matches FmtLine::Normal(fc) ==> fc.ready(skin)),
{ assert forall|i: int| 0 <= i < l3.len() implies (#[trigger] l3[i] matches FmtLine::Normal(fc) ==> fc.ready(skin)) by { assert(respaced(l2[i], l3[i])); assert(l2[i] == l2[i]); } }
pub proof fn built_ready(src: Seq<Line<'_>>, l: Seq<FmtLine<'_>>, skin: &MadSkin)
    requires all_built(src, l, skin), text_ok(src, skin),
    ensures tables_small(l), forall|i: int| 0 <= i < l.len() ==> cells_ready(#[trigger] l[i], skin),
{
    assert forall|i: int| 0 <= i < l.len() implies cells_ready(#[trigger] l[i], skin) by {
        assert(built(src[i], l[i], skin)); assert(line_src_ok(src[i]));
        if let Line::TableRow(r) = src[i] { assert forall|ic: int| 0 <= ic < cells_of(l[i]).len() implies (#[trigger] cells_of(l[i])[ic]).ready(skin) by { assert(src_ok(r.cells@[ic])); assert(measured(r.cells@[ic], cells_of(l[i])[ic], skin)); } }
    }
}
//@fn src/text.rs FmtText::from_text
//@ret r
//@rule collect
//@spec
    requires skin_ok(skin), text_ok(text.lines@, skin),
    ensures r.skin == skin, r.width == width, formatted(text.lines@, r.lines@, width, skin),
//@at body-start
    let ghost src = text.lines@;
//@loop 0 it
    invariant
        it.seq() == src, text_ok(src, skin), built_to(src, __acc1@, it.index@ as int, skin),
//@at loop 0 start
    proof { assert(line_src_ok(src[it.index@ as int])); }
//@at before call fix_all_tables 0
    let ghost l1 = lines@;
    proof { built_ready(src, l1, skin); }
//@at after call fix_all_tables 0
    let ghost l2 = lines@;
    proof { steps_ready(src, l1, l2, match width { Some(w) => w, None => usize::MAX }, skin); }
//@at after call justify_blocks 0
    let ghost l3 = lines@;
    proof { just_ready(l2, l3, skin); }
//@at body-end
    proof { assert(steps(src, l1, l2, l3, lines@, width, skin)); }
//@endfn
//@fn src/text.rs FmtText::set_rendering_width
//@spec
    ensures final(self).width == Some(width), final(self).skin == old(self).skin, final(self).lines == old(self).lines,
//@endfn
pub open spec fn maxlw(l: Seq<FmtLine<'_>>, k: int) -> int decreases k { if k <= 0 { 0 } else if maxlw(l, k - 1) >= linew(l[k - 1]) { maxlw(l, k - 1) } else { linew(l[k - 1]) } }
//@fn src/text.rs FmtText::content_width
//@ret r
//@rule fold_type usize
//@spec
    requires forall|i: int| 0 <= i < self.lines@.len() ==> linew(#[trigger] self.lines@[i]) < BIG(),
    ensures r == maxlw(self.lines@, self.lines@.len() as int),
//@loop 0 it
    invariant
        it.seq().len() == self.lines@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *it.seq()[i] == self.lines@[i],
        __acc1 == maxlw(self.lines@, it.index@ as int), forall|i: int| 0 <= i < self.lines@.len() ==> linew(#[trigger] self.lines@[i]) < BIG(),
//@at loop 0 start
    proof { assert(linew(self.lines@[it.index@ as int]) < BIG()); }
//@endfn

// ---------------------------------------------------------------- C01: no displayed line is wider than the available width
// no word breaker is needed for a char wider than its place: what's needed by the widest char is available
pub open spec fn src_roomy(l: Line<'_>, width: usize, sk: &MadSkin) -> bool {
    match l {
        Line::Normal(c) => narrow(flat(c.compounds@), avail(kind_of(c.style), sk, width) - sk.prefix_len(kind_of(c.style))) && sk.prefix_len(kind_of(c.style)) <= avail(kind_of(c.style), sk, width) && kind_fine(kind_of(c.style)),
        Line::TableRow(r) => forall|i: int| 0 <= i < r.cells@.len() ==> narrow(flat((#[trigger] r.cells@[i]).compounds@), 3 - sk.prefix_len(kind_of(r.cells@[i].style))) && sk.prefix_len(kind_of(r.cells@[i].style)) <= 3 && kind_fine(kind_of(r.cells@[i].style)),
        _ => true,
    }
}
pub open spec fn cell_in(c: FmtComposite<'_>, sk: &MadSkin) -> bool { c.wf(sk) && c.visible_length <= c.inner_width() && kind_fine(c.kind) }
pub open spec fn tbl_in(l: FmtLine<'_>, width: int, sk: &MadSkin) -> bool {
    match l {
        FmtLine::TableRow(row) => (forall|i: int| 0 <= i < row.cells@.len() ==> cell_in(#[trigger] row.cells@[i], sk)) && 1 + tblw(row.cells@) <= width,
        FmtLine::TableRule(rule) => rule_width(rule.widths@) <= width,
        _ => false,
    }
}
pub open spec fn line_in(l: FmtLine<'_>, width: usize, sk: &MadSkin) -> bool {
    match l {
        FmtLine::Normal(fc) => cell_in(fc, sk) && fc.inner_width() + margins(sk.line_style_of(fc.kind), Some(width)).0 + margins(sk.line_style_of(fc.kind), Some(width)).1 <= width,
        FmtLine::HorizontalRule => true,
        _ => tbl_in(l, width as int, sk),
    }
}
pub proof fn ncols_max(l: Seq<FmtLine<'_>>, a: int, b: int)
    requires a <= b,
    ensures maxc(l, a, b) >= 0,
    decreases b - a,
{ if a < b { ncols_max(l, a, b - 1); } }
pub proof fn table_in(src: Seq<FmtLine<'_>>, fin: Seq<FmtLine<'_>>, width: usize, sk: &MadSkin)
    requires
        fixed_part(src, fin, width, sk), tbl_lines(src, 0, src.len() as int), width >= 5,
        forall|i: int| 0 <= i < src.len() ==> cells_ready(#[trigger] src[i], sk) && tbl_roomy(src[i], sk),
    ensures forall|i: int| 0 <= i < fin.len() ==> tbl_in(#[trigger] fin[i], width as int, sk),
{
    let nb = maxc(src, 0, src.len() as int);
    ncols_max(src, 0, src.len() as int);
    if nb == 0 {
        assert forall|i: int| 0 <= i < fin.len() implies tbl_in(#[trigger] fin[i], width as int, sk) by {
            maxc_all(src, 0, src.len() as int, i);
            assert(is_tbl(src[i])); assert(tbl_roomy(src[i], sk));
            if let FmtLine::TableRow(row) = fin[i] { assert(row.cells@.len() == 0); }
        }
    } else {
        let nt = natws(src, 0, src.len() as int, nb);
        let ws = choose|ws: Seq<usize>| widths_ok(ws, nt, width as int) && #[trigger] laid_out(src, fin, ws, sk);
        assert(nt.len() == nb);
        if width < nt.len() * 4 + 1 { all_three(ws); }
        let p = choose|p: Seq<Seq<FmtLine<'_>>>| #[trigger] split(src, p, ws, sk) && placed(cat(p), fin, ws);
        let mid = cat(p);
        assert forall|i: int| 0 <= i < src.len() implies is_tbl(#[trigger] src[i]) && cells_ready(src[i], sk) && row_roomy(src[i], ws, sk) by {
            assert(tbl_roomy(src[i], sk));
            assert forall|ic: int| 0 <= ic < ws.len() implies (#[trigger] cell_at(src[i], ic) matches Some(c) ==> cell_roomy(c, ws[ic] as int, sk)) by {
                if ic < cells_of(src[i]).len() { let c = cells_of(src[i])[ic]; assert(cell_roomy(c, 3, sk)); assert(ws[ic] >= 3); let f = flat(c.compounds@); assert forall|j: int| 0 <= j < f.len() implies chw(#[trigger] f[j].0) <= ws[ic] - sk.prefix_len(c.kind) by { assert(chw(f[j].0) <= 3 - sk.prefix_len(c.kind)); } }
            }
        }
        mid_fits(src, p, ws, sk);
        widths_sum(ws);
        assert forall|i: int| 0 <= i < fin.len() implies tbl_in(#[trigger] fin[i], width as int, sk) by {
            let l = fin[i];
            assert(placed_line(mid, i, l, ws)); assert(is_tbl(mid[i])); assert(row_fits(mid[i], ws, sk));
            if mid[i] is TableRow {
                let c = cells_of(l);
                assert forall|ic: int| 0 <= ic < ws.len() implies cell_in(#[trigger] c[ic], sk) && c[ic].inner_width() == ws[ic] by { assert(same_cell(mid_cell(mid, i, ic), c[ic])); assert(cell_fits(cells_of(mid[i])[ic], ws[ic] as int, sk)); }
                spaced_sum(c, ws);
            }
        }
    }
}
pub open spec fn tbl_roomy(l: FmtLine<'_>, sk: &MadSkin) -> bool {
    (forall|ic: int| 0 <= ic < cells_of(l).len() ==> cell_roomy(#[trigger] cells_of(l)[ic], 3, sk)) && (l matches FmtLine::TableRule(r) ==> r.widths@.len() == 0)
}
// lines of tables are in the width, other ones are lines of l
pub open spec fn tbl_or(l: Seq<FmtLine<'_>>, x: FmtLine<'_>, width: usize, sk: &MadSkin) -> bool { if is_tbl(x) { tbl_in(x, width as int, sk) } else { from_lines(l, x) } }
pub proof fn tables_order(l: Seq<FmtLine<'_>>, t: Seq<Table>, k: int, j: int)
    requires tables_of(l, t), 0 <= k < j < t.len(),
    ensures t[k].end() <= t[j].start,
{
    hide(is_table); hide(maxc); hide(in_table);
}
pub proof fn tables_all(l: Seq<FmtLine<'_>>, t: Seq<Table>, i: int)
    requires tables_of(l, t), 0 <= i < l.len(), is_tbl(l[i]),
    ensures in_table(t, i),
{
    hide(is_table); hide(maxc); hide(in_table);
}
pub proof fn table_found(l: Seq<FmtLine<'_>>, t: Seq<Table>, k: int)
    requires tables_of(l, t), 0 <= k < t.len(),
    ensures tbl_lines(l.subrange(t[k].start as int, t[k].end()), 0, t[k].height as int), t[k].end() <= l.len(), t[k].height >= 1,
{
    hide(maxc); hide(in_table);
    assert(t[k].is_found(l));
    let s = l.subrange(t[k].start as int, t[k].end());
    assert forall|i: int| 0 <= i < s.len() implies is_tbl(#[trigger] s[i]) by { assert(s[i] == l[t[k].start + i]); }
}
pub proof fn tables_in(l: Seq<FmtLine<'_>>, from: int, m: Seq<FmtLine<'_>>, t: Seq<Table>, k: int, width: usize, sk: &MadSkin)
    requires all_fixed(l, from, m, t, k, width, sk), tables_of(l, t), 0 <= k <= t.len(), 0 <= from <= l.len(), k < t.len() ==> from <= t[k].start, width >= 5,
        k > 0 ==> from == t[k - 1].end(), k == 0 ==> from == 0,
        forall|i: int| 0 <= i < l.len() ==> cells_ready(#[trigger] l[i], sk) && tbl_roomy(l[i], sk),
    ensures forall|i: int| 0 <= i < m.len() ==> tbl_or(l, #[trigger] m[i], width, sk),
    decreases t.len() - k,
{
    hide(tbl_or); hide(tbl_in); hide(cells_ready); hide(tbl_roomy); hide(tables_of); hide(fixed_part);
    if k >= t.len() {
        between_tables(l, t, k, from, l.len() as int, width, sk);
        assert(m =~= l.subrange(from, l.len() as int));
    } else {
        let (f, e) = choose|f: Seq<FmtLine<'_>>, e: Seq<FmtLine<'_>>| #[trigger] joined(m, l.subrange(from, t[k].start as int), f, e)
            && fixed_part(l.subrange(t[k].start as int, t[k].end()), f, width, sk) && all_fixed(l, t[k].end(), e, t, k + 1, width, sk);
        table_found(l, t, k);
        let s = l.subrange(t[k].start as int, t[k].end());
        assert forall|i: int| 0 <= i < s.len() implies cells_ready(#[trigger] s[i], sk) && tbl_roomy(s[i], sk) by { assert(tbl_roomy(l[t[k].start + i], sk)); }
        table_in(s, f, width, sk);
        if k + 1 < t.len() { tables_order(l, t, k, k + 1); }
        tables_in(l, t[k].end(), e, t, k + 1, width, sk);
        let a = l.subrange(from, t[k].start as int);
        between_tables(l, t, k, from, t[k].start as int, width, sk);
        three_in(l, m, a, f, e, width, sk);
    }
}
pub proof fn three_in(l: Seq<FmtLine<'_>>, m: Seq<FmtLine<'_>>, a: Seq<FmtLine<'_>>, f: Seq<FmtLine<'_>>, e: Seq<FmtLine<'_>>, width: usize, sk: &MadSkin)
    requires joined(m, a, f, e), forall|i: int| 0 <= i < a.len() ==> tbl_or(l, #[trigger] a[i], width, sk), forall|i: int| 0 <= i < f.len() ==> tbl_in(#[trigger] f[i], width as int, sk), forall|i: int| 0 <= i < e.len() ==> tbl_or(l, #[trigger] e[i], width, sk),
    ensures forall|i: int| 0 <= i < m.len() ==> tbl_or(l, #[trigger] m[i], width, sk),
{
    assert forall|i: int| 0 <= i < m.len() implies tbl_or(l, #[trigger] m[i], width, sk) by {
        if i < a.len() { assert(m[i] == a[i]); }
        else if i < a.len() + f.len() { assert(m[i] == f[i - a.len()]); assert(tbl_in(m[i], width as int, sk)); }
        else { assert(m[i] == e[i - a.len() - f.len()]); }
    }
}
pub proof fn between_tables(l: Seq<FmtLine<'_>>, t: Seq<Table>, k: int, from: int, to: int, width: usize, sk: &MadSkin)
    requires tables_of(l, t), 0 <= k <= t.len(), 0 <= from <= to <= l.len(), k > 0 ==> from >= t[k - 1].end(), k < t.len() ==> to <= t[k].start,
    ensures forall|i: int| 0 <= i < to - from ==> tbl_or(l, #[trigger] l.subrange(from, to)[i], width, sk),
{
    let a = l.subrange(from, to);
    assert forall|i: int| 0 <= i < a.len() implies tbl_or(l, #[trigger] a[i], width, sk) by { assert(l[from + i] == a[i]); not_in_next(l, t, k, from + i); }
}
// a line between two tables isn't a table line
pub proof fn not_in_next(l: Seq<FmtLine<'_>>, t: Seq<Table>, k: int, i: int)
    requires tables_of(l, t), 0 <= k <= t.len(), 0 <= i < l.len(), k > 0 ==> i >= t[k - 1].end(), k < t.len() ==> i < t[k].start,
    ensures !is_tbl(l[i]),
{
    hide(tables_of);
    if is_tbl(l[i]) {
        tables_all(l, t, i);
        let j = choose|j: int| 0 <= j < t.len() && (#[trigger] t[j]).has(i);
        if k > 0 { table_found(l, t, k - 1); }
        if k < t.len() { table_found(l, t, k); }
        if j < k - 1 { tables_order(l, t, j, k - 1); }
        if j > k { tables_order(l, t, k, j); }
    }
}
pub open spec fn normal_roomy(x: FmtLine<'_>, width: usize, sk: &MadSkin) -> bool {
    x matches FmtLine::Normal(fc) ==> fc.ready(sk) && roomy(fc, sk, width) && (fc.spacing is None || (is_code(x) && fc.spacing->Some_0.width >= fc.visible_length))
}
pub proof fn wrap_in(fc: FmtComposite<'_>, l: Seq<FmtComposite<'_>>, width: usize, sk: &MadSkin)
    requires wrapped_in(fc, l, sk, width), normal_roomy(FmtLine::Normal(fc), width, sk), width >= 3,
    ensures forall|i: int| 0 <= i < l.len() ==> line_in(FmtLine::Normal(#[trigger] l[i]), width, sk),
{
    wrapped_width(fc, l, sk, width);
    let a = avail(fc.kind, sk, width);
    assert(sk.line_style_of(follow(fc.kind)) == sk.line_style_of(fc.kind));
    assert forall|i: int| 0 <= i < l.len() implies line_in(FmtLine::Normal(#[trigger] l[i]), width, sk) by {
        assert(l[i].wf(sk)); reveal(lines_ok); reveal(lines_fit);
        assert(margins(sk.line_style_of(l[i].kind), Some(width)) == margins(sk.line_style_of(fc.kind), Some(width)));
        if fc.visible_length <= a { assert(l[i] == limited(fc, a)); }
        else { assert(l[i].spacing == limited(fc, a).spacing); assert(l[i].visible_length <= a); }
    }
}
pub proof fn maxw_all(l: Seq<FmtLine<'_>>, a: int, b: int, i: int)
    requires a <= i < b,
    ensures vlen_of(l[i]) <= maxw(l, a, b),
    decreases b - a,
{ if i < b - 1 { maxw_all(l, a, b - 1, i); } }
pub proof fn cat_in(src: Seq<FmtLine<'_>>, p: Seq<Seq<FmtLine<'_>>>, width: usize, sk: &MadSkin)
    requires p.len() == src.len(), forall|i: int| 0 <= i < src.len() ==> wrapped_line(src[i], #[trigger] p[i], sk, width), width >= 3,
        forall|i: int| 0 <= i < src.len() ==> normal_roomy(#[trigger] src[i], width, sk) && (is_tbl(src[i]) ==> tbl_in(src[i], width as int, sk)),
    ensures forall|i: int| 0 <= i < cat(p).len() ==> line_in(#[trigger] cat(p)[i], width, sk),
    decreases p.len(),
{
    if p.len() > 0 {
        let (p1, s1) = (p.drop_last(), src.drop_last());
        assert forall|i: int| 0 <= i < s1.len() implies wrapped_line(s1[i], #[trigger] p1[i], sk, width) by { assert(wrapped_line(src[i], p[i], sk, width)); }
        assert forall|i: int| 0 <= i < s1.len() implies normal_roomy(#[trigger] s1[i], width, sk) && (is_tbl(s1[i]) ==> tbl_in(s1[i], width as int, sk)) by { assert(normal_roomy(src[i], width, sk)); }
        cat_in(s1, p1, width, sk);
        let (k, q) = (p.len() - 1, p.last());
        assert(wrapped_line(src[k], p[k], sk, width)); assert(normal_roomy(src[k], width, sk));
        if let FmtLine::Normal(fc) = src[k] {
            let l = choose|l: Seq<FmtComposite<'_>>| q == normals(l) && #[trigger] wrapped_in(fc, l, sk, width);
            wrap_in(fc, l, width, sk);
            assert forall|i: int| 0 <= i < q.len() implies line_in(#[trigger] q[i], width, sk) by { assert(q[i] == FmtLine::Normal(l[i])); }
        }
        let (c, c1) = (cat(p), cat(p1));
        assert forall|i: int| 0 <= i < c.len() implies line_in(#[trigger] c[i], width, sk) by { if i < c1.len() { assert(c[i] == c1[i]); } else { assert(c[i] == q[i - c1.len()]); } }
    }
}
pub proof fn text_cells_in(src: Seq<Line<'_>>, l1: Seq<FmtLine<'_>>, width: usize, sk: &MadSkin)
    requires all_built(src, l1, sk), text_ok(src, sk), forall|i: int| 0 <= i < src.len() ==> src_roomy(#[trigger] src[i], width, sk),
    ensures forall|i: int| 0 <= i < l1.len() ==> cells_ready(#[trigger] l1[i], sk) && tbl_roomy(l1[i], sk),
{
    built_ready(src, l1, sk);
    assert forall|i: int| 0 <= i < l1.len() implies cells_ready(#[trigger] l1[i], sk) && tbl_roomy(l1[i], sk) by {
        assert(built(src[i], l1[i], sk)); assert(src_roomy(src[i], width, sk));
        if let Line::TableRow(r) = src[i] { assert forall|ic: int| 0 <= ic < cells_of(l1[i]).len() implies cell_roomy(#[trigger] cells_of(l1[i])[ic], 3, sk) by { assert(measured(r.cells@[ic], cells_of(l1[i])[ic], sk)); } }
    }
}
pub proof fn text_line_in(src: Seq<Line<'_>>, l1: Seq<FmtLine<'_>>, l2: Seq<FmtLine<'_>>, l3: Seq<FmtLine<'_>>, i: int, width: usize, sk: &MadSkin)
    requires
        all_built(src, l1, sk), text_ok(src, sk), justified(l2, l3), forall|i: int| 0 <= i < src.len() ==> src_roomy(#[trigger] src[i], width, sk),
        0 <= i < l3.len(), tbl_or(l1, l2[i], width, sk),
    ensures normal_roomy(l3[i], width, sk) && (is_tbl(l3[i]) ==> tbl_in(l3[i], width as int, sk)),
{
    built_ready(src, l1, sk);
        assert(respaced(l2[i], l3[i]));
        if l3[i] is Normal {
            let j = choose|j: int| 0 <= j < l1.len() && #[trigger] l1[j] == l2[i];
            assert(built(src[j], l1[j], sk)); assert(src_roomy(src[j], width, sk)); assert(line_src_ok(src[j]));
            if is_code(l2[i]) {
                let (a, b) = choose|a: int, b: int| #[trigger] is_run(l2, a, b) && a <= i < b && spacing_of(l3[i]) == Some(Spacing { width: maxw(l2, a, b), align: Alignment::Left });
                maxw_all(l2, a, b, i);
            } else { assert(l3[i] == l2[i]); }
        } else { assert(l3[i] == l2[i]); }
}
pub proof fn text_in(src: Seq<Line<'_>>, r: Seq<FmtLine<'_>>, width: usize, sk: &MadSkin)
    requires formatted(src, r, Some(width), sk), text_ok(src, sk), width >= 5,
        forall|i: int| 0 <= i < src.len() ==> src_roomy(#[trigger] src[i], width, sk),
    ensures forall|i: int| 0 <= i < r.len() ==> line_in(#[trigger] r[i], width, sk),
{
    let (l1, l2, l3) = choose|l1: Seq<FmtLine<'_>>, l2: Seq<FmtLine<'_>>, l3: Seq<FmtLine<'_>>| #[trigger] steps(src, l1, l2, l3, r, Some(width), sk);
    built_ready(src, l1, sk);
    text_cells_in(src, l1, width, sk);
    let t = choose|t: Seq<Table>| tables_of(l1, t) && #[trigger] all_fixed(l1, 0, l2, t, 0, width, sk);
    tables_in(l1, 0, l2, t, 0, width, sk);
    assert forall|i: int| 0 <= i < l3.len() implies normal_roomy(#[trigger] l3[i], width, sk) && (is_tbl(l3[i]) ==> tbl_in(l3[i], width as int, sk)) by {
        assert(tbl_or(l1, l2[i], width, sk));
        text_line_in(src, l1, l2, l3, i, width, sk);
    }
    let p = choose|p: Seq<Seq<FmtLine<'_>>>| r == cat(p) && #[trigger] wrapped_with(l3, p, sk, width);
    reveal(wrapped_with);
    cat_in(l3, p, width, sk);
}
pub open spec fn line_specials(l: FmtLine<'_>, sk: &MadSkin) -> bool {
    match l { FmtLine::Normal(fc) => sk.specials_ok(fc.compounds@), FmtLine::TableRow(row) => forall|i: int| 0 <= i < row.cells@.len() ==> sk.specials_ok(#[trigger] row.cells@[i].compounds@), _ => true }
}
// what is written for a line of a text formatted for this width: never more columns, and exactly the width with completion
pub proof fn text_cols(src: Seq<Line<'_>>, r: Seq<FmtLine<'_>>, width: usize, sk: &MadSkin, i: int)
    requires formatted(src, r, Some(width), sk), text_ok(src, sk), width >= 5,
        forall|i: int| 0 <= i < src.len() ==> src_roomy(#[trigger] src[i], width, sk),
        sk.marks_ok(), sk.borders_ok(), chw(sk.horizontal_rule.nude_char) == 1,
        0 <= i < r.len(), line_specials(r[i], sk), skin_ok(sk), width < BIG(),
    ensures cols(sk.line_cells(&r[i], Some(width), false)) <= width, cols(sk.line_cells(&r[i], Some(width), true)) == width,
{
    text_in(src, r, width, sk);
    line_in_cols(r[i], width, sk);
}
// a line of a text which fits some width: no size overflows when it's rendered
pub proof fn line_in_sizes(l: FmtLine<'_>, width: usize, sk: &MadSkin, w: Option<usize>)
    requires line_in(l, width, sk), skin_ok(sk), width < BIG(),
    ensures sk.line_sizes_ok(&l, w),
{
    match l {
        FmtLine::TableRow(row) => {
            let c = row.cells@;
            assert forall|i: int| 0 <= i < c.len() implies #[trigger] sk.sizes_ok(&c[i], None) by { assert(cell_in(c[i], sk)); cell_of_row(c, i); assert(kind_ok(c[i].kind)); assert(sk.line_style_of(c[i].kind).left_margin < BIG()); }
        }
        FmtLine::Normal(fc) => { assert(kind_ok(fc.kind)); assert(sk.line_style_of(fc.kind).left_margin < BIG()); }
        _ => {}
    }
}
pub proof fn cell_of_row(c: Seq<FmtComposite<'_>>, i: int)
    requires 0 <= i < c.len(),
    ensures c[i].inner_width() <= tblw(c),
    decreases c.len(),
{ tblw_pos(c.drop_last()); if i < c.len() - 1 { cell_of_row(c.drop_last(), i); } }
pub proof fn tblw_pos(c: Seq<FmtComposite<'_>>)
    ensures tblw(c) >= 0,
    decreases c.len(),
{ if c.len() > 0 { tblw_pos(c.drop_last()); } }
pub proof fn line_in_cols(l: FmtLine<'_>, width: usize, sk: &MadSkin)
    requires line_in(l, width, sk), line_specials(l, sk), skin_ok(sk), width < BIG(), sk.marks_ok(), sk.borders_ok(), chw(sk.horizontal_rule.nude_char) == 1,
    ensures cols(sk.line_cells(&l, Some(width), false)) <= width, cols(sk.line_cells(&l, Some(width), true)) == width,
{
    line_in_sizes(l, width, sk, Some(width));
    match l {
        FmtLine::TableRow(row) => { assert forall|i: int| 0 <= i < row.cells@.len() implies (#[trigger] row.cells@[i]).wf(sk) && sk.specials_ok(row.cells@[i].compounds@) && row.cells@[i].visible_length <= row.cells@[i].inner_width() by { assert(cell_in(row.cells@[i], sk)); } }
        _ => {}
    }
    line_cols(sk, &l, width);
}
}
