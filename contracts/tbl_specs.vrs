// layout of the tables
verus! {
//@type src/tbl.rs Table
pub open spec fn is_tbl(l: FmtLine<'_>) -> bool { l is TableRow || l is TableRule }
pub open spec fn cells_of(l: FmtLine<'_>) -> Seq<FmtComposite<'_>> { match l { FmtLine::TableRow(r) => r.cells@, _ => Seq::empty() } }
pub open spec fn aligns_of(l: FmtLine<'_>) -> Seq<Alignment> { match l { FmtLine::TableRule(r) => r.aligns@, _ => Seq::empty() } }
pub open spec fn ncols(l: FmtLine<'_>) -> int { if l is TableRow { cells_of(l).len() as int } else { aligns_of(l).len() as int } }
pub open spec fn cell_at(l: FmtLine<'_>, ic: int) -> Option<FmtComposite<'_>> { if ic < cells_of(l).len() { Some(cells_of(l)[ic]) } else { None } }
pub open spec fn align_at(l: FmtLine<'_>, ic: int) -> Alignment { if ic < aligns_of(l).len() { aligns_of(l)[ic] } else { Alignment::Unspecified } }
pub open spec fn empty_cell(c: FmtComposite<'_>) -> bool { c.kind == CompositeKind::Paragraph && c.compounds@.len() == 0 && c.visible_length == 0 }
pub open spec fn same_cell(a: FmtComposite<'_>, b: FmtComposite<'_>) -> bool { a.kind == b.kind && a.compounds == b.compounds && a.visible_length == b.visible_length }
// width of a cell, natural width of a column
pub open spec fn cw(l: FmtLine<'_>, ic: int) -> usize { match cell_at(l, ic) { Some(c) => c.visible_length, None => 0 } }
pub open spec fn natw(l: Seq<FmtLine<'_>>, ic: int, a: int, b: int) -> usize decreases b - a {
    if b <= a { 3 } else if natw(l, ic, a, b - 1) >= cw(l[b - 1], ic) { natw(l, ic, a, b - 1) } else { cw(l[b - 1], ic) }
}
pub open spec fn natws(l: Seq<FmtLine<'_>>, a: int, b: int, n: int) -> Seq<usize> { Seq::new(n as nat, |ic: int| natw(l, ic, a, b)) }
pub proof fn natw_all(l: Seq<FmtLine<'_>>, ic: int, a: int, b: int, i: int)
    requires a <= i < b,
    ensures cw(l[i], ic) <= natw(l, ic, a, b), natw(l, ic, a, i) <= natw(l, ic, a, b),
    decreases b - a,
{ if i < b - 1 { natw_all(l, ic, a, b - 1, i); } }
pub proof fn sumw_item(s: Seq<usize>, i: int)
    requires 0 <= i < s.len(),
    ensures s[i] <= sumw(s),
{ sumw_take(s, i); sumw_mono(s, i + 1); sumw_pos(s.take(i)); }
// widths of the displayed columns
pub open spec fn widths_ok(ws: Seq<usize>, nt: Seq<usize>, width: int) -> bool {
    if width < nt.len() * 4 + 1 {
        ws.len() == (width - 1) / 4 && forall|i: int| 0 <= i < ws.len() ==> ws[i] == 3
    } else {
        &&& ws.len() == nt.len()
        &&& forall|i: int| 0 <= i < ws.len() ==> 3 <= #[trigger] ws[i] <= nt[i]
        &&& sumw(nt) + nt.len() + 1 <= width ==> ws == nt
        &&& sumw(nt) + nt.len() + 1 > width ==> sumw(ws) + ws.len() + 1 == width
    }
}
// a cell cut in pieces for the width of its column
pub open spec fn cell_pieces(c: Option<FmtComposite<'_>>, q: Seq<FmtComposite<'_>>, w: int, skin: &MadSkin) -> bool {
    match c {
        None => q.len() == 1 && empty_cell(q[0]),
        Some(c) => if c.visible_length <= w { q.len() == 1 && same_cell(q[0], c) } else {
            &&& is_cut(flat(c.compounds@), q)
            &&& lines_ok(c, q, skin)
            &&& narrow(flat(c.compounds@), w - skin.prefix_len(c.kind)) && skin.prefix_len(c.kind) <= w ==> lines_fit(q, w)
        },
    }
}
pub open spec fn pieces<'s>(p: Seq<FmtLine<'s>>, ic: int, k: int) -> Seq<FmtComposite<'s>> { Seq::new(k as nat, |j: int| cells_of(p[j])[ic]) }
pub open spec fn col_split(c: Option<FmtComposite<'_>>, p: Seq<FmtLine<'_>>, ic: int, w: int, skin: &MadSkin) -> bool {
    exists|k: int| 1 <= k <= p.len() && #[trigger] cell_pieces(c, pieces(p, ic, k), w, skin) && forall|j: int| k <= j < p.len() ==> empty_cell(#[trigger] cells_of(p[j])[ic])
}
pub open spec fn row_like(l: FmtLine<'_>, n: int) -> bool { l is TableRow && cells_of(l).len() == n }
pub open spec fn rule_like(src: FmtLine<'_>, l: FmtLine<'_>, n: int) -> bool {
    l is TableRule && l->TableRule_0.position == src->TableRule_0.position && forall|ic: int| 0 <= ic < n ==> #[trigger] align_at(l, ic) == align_at(src, ic)
}
// what a line of the table becomes: a row is a group of rows, a rule is a rule
pub open spec fn row_split(src: FmtLine<'_>, p: Seq<FmtLine<'_>>, ws: Seq<usize>, skin: &MadSkin) -> bool {
    if src is TableRow {
        &&& p.len() >= 1
        &&& forall|j: int| 0 <= j < p.len() ==> row_like(#[trigger] p[j], ws.len() as int)
        &&& forall|ic: int| 0 <= ic < ws.len() ==> #[trigger] col_split(cell_at(src, ic), p, ic, ws[ic] as int, skin)
    } else { p.len() == 1 && rule_like(src, p[0], ws.len() as int) }
}
// alignment of the cells of a line: the one of the last rule before
pub open spec fn align_before(l: Seq<FmtLine<'_>>, i: int, ic: int) -> Alignment decreases i {
    if i <= 0 { Alignment::Center } else if l[i - 1] is TableRule { align_at(l[i - 1], ic) } else { align_before(l, i - 1, ic) }
}
pub open spec fn placed_line(mid: Seq<FmtLine<'_>>, i: int, l: FmtLine<'_>, ws: Seq<usize>) -> bool {
    if mid[i] is TableRow {
        row_like(l, ws.len() as int) && forall|ic: int| 0 <= ic < ws.len() ==> same_cell(mid_cell(mid, i, ic), #[trigger] cells_of(l)[ic])
            && cells_of(l)[ic].spacing == Some(Spacing { width: ws[ic], align: align_before(mid, i, ic) })
    } else {
        &&& l is TableRule && l->TableRule_0.widths@ == ws && aligns_of(l).len() == ws.len()
        &&& forall|ic: int| 0 <= ic < ws.len() ==> #[trigger] align_at(l, ic) == align_at(mid[i], ic)
        &&& l->TableRule_0.position == (if i == 0 { RelativePosition::Top } else if i == mid.len() - 1 { RelativePosition::Bottom } else { mid[i]->TableRule_0.position })
    }
}
pub open spec fn mid_cell<'s>(mid: Seq<FmtLine<'s>>, i: int, ic: int) -> FmtComposite<'s> { cells_of(mid[i])[ic] }
pub open spec fn placed(mid: Seq<FmtLine<'_>>, fin: Seq<FmtLine<'_>>, ws: Seq<usize>) -> bool {
    mid.len() == fin.len() && forall|i: int| 0 <= i < fin.len() ==> #[trigger] placed_line(mid, i, fin[i], ws)
}
pub open spec fn split(src: Seq<FmtLine<'_>>, p: Seq<Seq<FmtLine<'_>>>, ws: Seq<usize>, skin: &MadSkin) -> bool {
    p.len() == src.len() && forall|i: int| 0 <= i < src.len() ==> row_split(src[i], #[trigger] p[i], ws, skin)
}
pub open spec fn laid_out(src: Seq<FmtLine<'_>>, fin: Seq<FmtLine<'_>>, ws: Seq<usize>, skin: &MadSkin) -> bool {
    exists|p: Seq<Seq<FmtLine<'_>>>| #[trigger] split(src, p, ws, skin) && placed(cat(p), fin, ws)
}
pub open spec fn tbl_lines(l: Seq<FmtLine<'_>>, a: int, b: int) -> bool { forall|i: int| a <= i < b ==> is_tbl(#[trigger] l[i]) }
pub open spec fn cells_ready(l: FmtLine<'_>, skin: &MadSkin) -> bool { forall|ic: int| 0 <= ic < cells_of(l).len() ==> (#[trigger] cells_of(l)[ic]).ready(skin) }
// what becomes of the lines of a table, the other ones being left unchanged
pub open spec fn fixed(l: Seq<FmtLine<'_>>, m: Seq<FmtLine<'_>>, t: Table, width: usize, skin: &MadSkin) -> bool {
    exists|fin: Seq<FmtLine<'_>>| m == l.take(t.start as int) + fin + l.skip(t.end()) && #[trigger] fixed_lines(l.subrange(t.start as int, t.end()), fin, t.nbcols as int, width, skin)
}
pub open spec fn fixed_lines(src: Seq<FmtLine<'_>>, fin: Seq<FmtLine<'_>>, nbcols: int, width: usize, skin: &MadSkin) -> bool {
    exists|ws: Seq<usize>| widths_ok(ws, natws(src, 0, src.len() as int, nbcols), width as int) && #[trigger] laid_out(src, fin, ws, skin)
}
impl Table {
    pub open spec fn end(&self) -> int { self.start + self.height }
    pub open spec fn covers(&self, l: Seq<FmtLine<'_>>) -> bool {
        &&& self.end() <= l.len()
        &&& tbl_lines(l, self.start as int, self.end())
        &&& forall|i: int| self.start <= i < self.end() ==> ncols(#[trigger] l[i]) <= self.nbcols
    }
    pub open spec fn small(&self, l: Seq<FmtLine<'_>>) -> bool { self.height < LIM() && self.nbcols < LIM() && sumw(natws(l, self.start as int, self.end(), self.nbcols as int)) < LIM() }
}
pub trait VrtNextIn<T> { spec fn nx(&self) -> Seq<T>; fn vrt_next(&mut self) -> (r: Option<T>) ensures old(self).nx().len() == 0 ==> r is None && final(self).nx() == old(self).nx(), old(self).nx().len() > 0 ==> r == Some(old(self).nx()[0]) && final(self).nx() == old(self).nx().skip(1); }
impl<T> VrtNextIn<T> for Vec<T> {
    open spec fn nx(&self) -> Seq<T> { self@ }
    fn vrt_next(&mut self) -> (r: Option<T>) {
        if self.len() == 0 { None } else {
            let ghost s = self@;
            let r = self.remove(0);
            proof { assert(self@ =~= s.skip(1)); }
            Some(r)
        }
    }
}
pub fn vrt_clone_prefix<T: Copy>(a: &mut Vec<T>, n: usize, b: &Vec<T>, k: usize)
    requires n == k, n <= old(a)@.len(), k <= b@.len(),
    ensures final(a)@ == b@.take(n as int) + old(a)@.skip(n as int),
{
    let ghost a0 = a@;
    for i in 0..n
        invariant a@.len() == a0.len(), n <= a0.len(), n <= b@.len(), forall|j: int| 0 <= j < a0.len() ==> #[trigger] a@[j] == (if j < i { b@[j] } else { a0[j] }),
    { let x = b[i]; a[i] = x; }
    proof { assert(a@ =~= b@.take(n as int) + a0.skip(n as int)); }
}
//@fn src/tbl.rs FmtTableRule::set_nbcols
//@spec
    ensures final(self).position == old(self).position, final(self).widths@.len() == nbcols, final(self).aligns@.len() == nbcols,
        forall|i: int| 0 <= i < nbcols ==> #[trigger] final(self).aligns@[i] == (if i < old(self).aligns@.len() { old(self).aligns@[i] } else { Alignment::Unspecified }),
//@loop 0
    invariant
        self.position == old(self).position,
        self.widths@.len() <= nbcols, self.aligns@.len() <= nbcols, self.widths@.len() >= ic, self.aligns@.len() >= ic,
        self.aligns@.len() >= (if old(self).aligns@.len() < nbcols { old(self).aligns@.len() } else { nbcols as nat }),
        forall|i: int| 0 <= i < self.aligns@.len() ==> #[trigger] self.aligns@[i] == (if i < old(self).aligns@.len() { old(self).aligns@[i] } else { Alignment::Unspecified }),
//@endfn

// a line once the missing cells are added, or the rule has its columns
pub open spec fn completed(a: FmtLine<'_>, b: FmtLine<'_>, n: int) -> bool {
    if a is TableRow {
        &&& row_like(b, n)
        &&& forall|ic: int| 0 <= ic < n ==> #[trigger] done_cell(a, cells_of(b)[ic], ic)
    } else { rule_like(a, b, n) && aligns_of(b).len() == n && b->TableRule_0.widths@.len() == n }
}
pub open spec fn done_cell(a: FmtLine<'_>, c: FmtComposite<'_>, ic: int) -> bool { match cell_at(a, ic) { Some(x) => c == x, None => empty_cell(c) } }
pub proof fn cat_cons(g: Seq<FmtLine<'_>>, p: Seq<Seq<FmtLine<'_>>>)
    ensures cat(seq![g] + p) == g + cat(p),
    decreases p.len(),
{
    if p.len() == 0 {
        assert((seq![g] + p).drop_last() =~= Seq::<Seq<FmtLine<'_>>>::empty());
        assert((seq![g] + p).last() == g); assert(cat(Seq::<Seq<FmtLine<'_>>>::empty()) =~= Seq::<FmtLine<'_>>::empty());
        assert(cat(seq![g] + p) =~= g + cat(p));
    } else {
        assert((seq![g] + p).last() == p.last());
        cat_cons(g, p.drop_last());
        assert((seq![g] + p).drop_last() =~= seq![g] + p.drop_last());
        assert(cat(seq![g] + p) =~= g + cat(p));
    }
}
// a row made of the k-th remaining pieces of each column
pub open spec fn nth_cell(c: FmtComposite<'_>, a: Seq<FmtComposite<'_>>, k: int) -> bool { if k < a.len() { c == a[k] } else { empty_cell(c) } }
pub open spec fn nth_row(l: FmtLine<'_>, add: Seq<Seq<FmtComposite<'_>>>, k: int) -> bool {
    row_like(l, add.len() as int) && forall|ic: int| 0 <= ic < add.len() ==> nth_cell(#[trigger] cells_of(l)[ic], add[ic], k)
}
pub open spec fn left<'s>(a: Seq<FmtComposite<'s>>, k: int) -> Seq<FmtComposite<'s>> { if a.len() <= k { a } else { a.take(k) } }
pub open spec fn lefts(m: Seq<Vec<FmtComposite<'_>>>, a: Seq<Seq<FmtComposite<'_>>>, k: int) -> bool { m.len() == a.len() && forall|ic: int| 0 <= ic < a.len() ==> #[trigger] m[ic]@ == left(a[ic], k) }
// the row and the rows added after it
pub proof fn group(src: FmtLine<'_>, first: FmtLine<'_>, news: Seq<FmtLine<'_>>, add: Seq<Seq<FmtComposite<'_>>>, ws: Seq<usize>, skin: &MadSkin)
    requires
        src is TableRow, row_like(first, ws.len() as int), add.len() == ws.len(),
        forall|j: int| 0 <= j < news.len() ==> nth_row(#[trigger] news[j], add, j),
        forall|ic: int| 0 <= ic < ws.len() ==> #[trigger] add[ic].len() <= news.len() && cell_pieces(cell_at(src, ic), seq![cells_of(first)[ic]] + add[ic], ws[ic] as int, skin),
    ensures row_split(src, seq![first] + news, ws, skin),
{
    let p = seq![first] + news;
    assert forall|j: int| 0 <= j < p.len() implies row_like(#[trigger] p[j], ws.len() as int) by { if j > 0 { assert(nth_row(news[j - 1], add, j - 1)); } }
    assert forall|ic: int| 0 <= ic < ws.len() implies #[trigger] col_split(cell_at(src, ic), p, ic, ws[ic] as int, skin) by {
        let k = 1 + add[ic].len() as int;
        assert(pieces(p, ic, k) =~= seq![cells_of(first)[ic]] + add[ic]) by {
            assert forall|j: int| 0 < j < k implies cells_of(p[j])[ic] == add[ic][j - 1] by { assert(nth_row(news[j - 1], add, j - 1)); assert(nth_cell(cells_of(news[j - 1])[ic], add[ic], j - 1)); }
        }
        assert(cell_pieces(cell_at(src, ic), pieces(p, ic, k), ws[ic] as int, skin));
        assert forall|j: int| k <= j < p.len() implies empty_cell(#[trigger] cells_of(p[j])[ic]) by { assert(nth_row(news[j - 1], add, j - 1)); assert(nth_cell(cells_of(news[j - 1])[ic], add[ic], j - 1)); }
    }
}
// what was added to complete the lines doesn't matter
pub proof fn uncompleted(a: FmtLine<'_>, b: FmtLine<'_>, n: int, p: Seq<FmtLine<'_>>, ws: Seq<usize>, skin: &MadSkin)
    requires is_tbl(a), completed(a, b, n), row_split(b, p, ws, skin), ws.len() == n, forall|i: int| 0 <= i < ws.len() ==> ws[i] >= 3,
    ensures row_split(a, p, ws, skin),
{
    if a is TableRow {
        assert forall|ic: int| 0 <= ic < ws.len() implies #[trigger] col_split(cell_at(a, ic), p, ic, ws[ic] as int, skin) by {
            assert(col_split(cell_at(b, ic), p, ic, ws[ic] as int, skin));
            assert(done_cell(a, cells_of(b)[ic], ic));
            let k = choose|k: int| 1 <= k <= p.len() && #[trigger] cell_pieces(cell_at(b, ic), pieces(p, ic, k), ws[ic] as int, skin) && forall|j: int| k <= j < p.len() ==> empty_cell(#[trigger] cells_of(p[j])[ic]);
            if cell_at(a, ic) is None {
                let q = pieces(p, ic, k);
                assert(same_cell(q[0], cells_of(b)[ic]));
                assert(cell_pieces(cell_at(a, ic), q, ws[ic] as int, skin));
            }
        }
    } else {
        assert forall|ic: int| 0 <= ic < n implies #[trigger] align_at(p[0], ic) == align_at(a, ic) by { assert(align_at(b, ic) == align_at(a, ic)); }
    }
}
pub open spec fn mid_ok(l: FmtLine<'_>, n: int, removed: bool) -> bool {
    if l is TableRow { cells_of(l).len() == n } else { l is TableRule && (!removed ==> aligns_of(l).len() == n && l->TableRule_0.widths@.len() == n) }
}
pub proof fn natw_sub(l: Seq<FmtLine<'_>>, s: Seq<FmtLine<'_>>, ic: int, a: int, b: int)
    requires 0 <= a <= b <= l.len(), s.len() >= b - a, forall|i: int| 0 <= i < b - a ==> s[i] == #[trigger] l[a + i],
    ensures natw(s, ic, 0, b - a) == natw(l, ic, a, b),
    decreases b - a,
{ if a < b { natw_sub(l, s, ic, a, b - 1); assert(l[a + (b - a - 1)] == s[b - a - 1]); } }
pub proof fn split_lines(src: Seq<FmtLine<'_>>, p: Seq<Seq<FmtLine<'_>>>, ws: Seq<usize>, skin: &MadSkin, removed: bool)
    requires split(src, p, ws, skin), forall|i: int| 0 <= i < src.len() ==> is_tbl(#[trigger] src[i]) && (src[i] is TableRule ==> p[i] == seq![src[i]] && mid_ok(src[i], ws.len() as int, removed)),
    ensures forall|i: int| 0 <= i < cat(p).len() ==> mid_ok(#[trigger] cat(p)[i], ws.len() as int, removed),
    decreases p.len(),
{
    if p.len() > 0 {
        let (p1, s1) = (p.drop_last(), src.drop_last());
        assert forall|i: int| 0 <= i < s1.len() implies row_split(s1[i], #[trigger] p1[i], ws, skin) by { assert(row_split(src[i], p[i], ws, skin)); }
        assert forall|i: int| 0 <= i < s1.len() implies is_tbl(#[trigger] s1[i]) && (s1[i] is TableRule ==> p1[i] == seq![s1[i]] && mid_ok(s1[i], ws.len() as int, removed)) by { assert(is_tbl(src[i])); }
        split_lines(s1, p1, ws, skin, removed);
        let (k, q) = (p.len() - 1, p.last());
        assert(row_split(src[k], p[k], ws, skin)); assert(is_tbl(src[k]));
        assert forall|i: int| 0 <= i < q.len() implies mid_ok(#[trigger] q[i], ws.len() as int, removed) by { if src[k] is TableRow { assert(row_like(q[i], ws.len() as int)); } }
        let (c, c1) = (cat(p), cat(p1));
        assert(c == c1 + q);
        assert forall|i: int| 0 <= i < c.len() implies mid_ok(#[trigger] c[i], ws.len() as int, removed) by { if i < c1.len() { assert(c[i] == c1[i]); } else { assert(c[i] == q[i - c1.len()]); } }
    }
}
pub proof fn done_ready(a: FmtLine<'_>, b: FmtLine<'_>, n: int, skin: &MadSkin)
    requires a is TableRow, completed(a, b, n), cells_ready(a, skin),
    ensures cells_ready(b, skin),
{
    assert forall|ic: int| 0 <= ic < cells_of(b).len() implies (#[trigger] cells_of(b)[ic]).ready(skin) by {
        assert(done_cell(a, cells_of(b)[ic], ic));
        if cell_at(a, ic) is Some { assert(cells_of(a)[ic].ready(skin)); }
    }
}
//@fn src/tbl.rs Table::fix_columns
//@attrs #[verifier::rlimit(100)]
//@rule iter_mut_index
//@rule method next vrt_next
//@rule fold_type usize
//@spec
    requires
        old(self).covers(old(lines)@), old(self).small(old(lines)@),
        forall|i: int| old(self).start <= i < old(self).end() ==> cells_ready(#[trigger] old(lines)@[i], skin),
    ensures
        old(self).nbcols == 0 || width == 0 ==> final(lines)@ == old(lines)@,
        old(self).nbcols > 0 && width > 0 ==> fixed(old(lines)@, final(lines)@, *old(self), width, skin),
//@at body-start
    let ghost l0 = lines@;
    let ghost t0 = *self;
    let ghost a0 = self.start as int;
    let ghost e0 = self.end();
    let ghost nt = natws(l0, a0, e0, self.nbcols as int);
    let ghost nb0 = self.nbcols as int;
    proof { assert(nb0 * 4 + 1 < usize::MAX); }
//@loop 0
    invariant
        *self == t0, t0.covers(l0), t0.small(l0), a0 == t0.start, e0 == t0.end(), nb0 == nbcols, nbcols == t0.nbcols, lines@.len() == l0.len(), __hi2 == e0,
        nt == natws(l0, a0, e0, nb0),
        tbl_fit.ok(), tbl_fit.cols@.len() == nbcols, tbl_fit.available_sum_width == width - 1 - nbcols,
        forall|i: int| 0 <= i < nbcols ==> (#[trigger] tbl_fit.cols@[i]).width == natw(l0, i, a0, __i0 as int) && tbl_fit.cols@[i].count <= __i0 - a0,
        forall|i: int| a0 <= i < __i0 ==> completed(l0[i], #[trigger] lines@[i], nb0),
        forall|i: int| 0 <= i < l0.len() && !(a0 <= i < __i0) ==> #[trigger] lines@[i] == l0[i],
//@at loop 0 start
    let ghost s = l0[__i0 as int];
    let ghost c0 = cells_of(s);
    let ghost f0 = tbl_fit.cols@;
    proof { assert(lines@[__i0 as int] == s); assert(is_tbl(s) && ncols(s) <= nb0); }
//@loop 1
    invariant
        c0 == cells_of(s), nb0 == nbcols, c0.len() <= nb0, s is TableRow, s == l0[__i0 as int], a0 <= __i0 < e0,
        t0.covers(l0), t0.small(l0), a0 == t0.start, e0 == t0.end(), nb0 == t0.nbcols, nt == natws(l0, a0, e0, nb0),
        cells@.len() == (if c0.len() >= ic { c0.len() } else { ic as nat }),
        forall|i: int| 0 <= i < cells@.len() ==> done_cell(s, #[trigger] cells@[i], i),
        tbl_fit.ok(), tbl_fit.cols@.len() == nbcols, tbl_fit.available_sum_width == width - 1 - nbcols,
        f0.len() == nb0, forall|i: int| 0 <= i < nb0 ==> (#[trigger] f0[i]).width == natw(l0, i, a0, __i0 as int) && f0[i].count <= __i0 - a0,
        forall|i: int| 0 <= i < ic ==> (#[trigger] tbl_fit.cols@[i]).width == natw(l0, i, a0, __i0 + 1) && tbl_fit.cols@[i].count <= __i0 + 1 - a0,
        forall|i: int| ic <= i < nb0 ==> #[trigger] tbl_fit.cols@[i] == f0[i],
//@at loop 1 start
    proof {
        natw_all(l0, ic as int, a0, e0, __i0 as int);
        sumw_item(nt, ic as int);
        assert(nt[ic as int] == natw(l0, ic as int, a0, e0));
        if ic < cells@.len() { assert(done_cell(s, cells@[ic as int], ic as int)); }
    }
//@at loop 0 after
    proof {
        assert(tbl_fit.natural() =~= nt);
    }
//@at after let widths
    let ghost m1 = lines@;
    let ghost ws = widths@;
    let ghost n = nbcols as int;
    proof {
        assert forall|i: int| a0 <= i < e0 implies is_tbl(#[trigger] m1[i]) && ncols(m1[i]) <= nb0 by { assert(is_tbl(l0[i]) && ncols(l0[i]) <= nb0); }
    }
    let ghost mut p: Seq<Seq<FmtLine<'_>>> = Seq::empty();
    proof {
        assert forall|i: int| a0 <= i < e0 implies cells_ready(#[trigger] m1[i], skin) by {
            assert(cells_ready(l0[i], skin));
            if m1[i] != l0[i] { assert(completed(l0[i], m1[i], nb0)); if l0[i] is TableRow { done_ready(l0[i], m1[i], nb0, skin); } }
        }
        assert(m1.take(e0) + cat(p) + m1.skip(e0) =~= m1);
        vrt_vec_len(&*lines);
    }
//@loop 2
    invariant
        __lo3 == a0, a0 <= __k4 <= e0 <= m1.len(), self.start == a0, self.start + self.height == __k4 + cat(p).len(),
        lines@ == m1.take(__k4 as int) + cat(p) + m1.skip(e0), p.len() == e0 - __k4,
        forall|i: int| 0 <= i < p.len() ==> row_split(m1[__k4 + i], #[trigger] p[i], ws, skin) && (m1[__k4 + i] is TableRule ==> p[i] == seq![m1[__k4 + i]]),
        forall|i: int| a0 <= i < e0 ==> cells_ready(#[trigger] m1[i], skin),
        forall|i: int| a0 <= i < e0 ==> is_tbl(#[trigger] m1[i]),
        ws == widths@, n == nbcols, ws.len() == n, forall|i: int| 0 <= i < n ==> ws[i] >= 3,
    decreases __k4,
//@at loop 2 start
    let ghost k = __k4 - 1;
    let ghost src = m1[k];
    let ghost h0 = self.height;
    let ghost b0 = lines@;
    let ghost mut g: Seq<FmtLine<'_>> = seq![src];
    proof { assert(b0[k] == src); assert(cells_ready(src, skin)); assert(is_tbl(src)); }
//@at before let cells_to_add
    let ghost c0 = cells_of(src);
//@loop 3
    invariant
        c0 == cells_of(src), src is TableRow, cells_ready(src, skin), ws == widths@, n == nbcols, ws.len() == n, forall|i: int| 0 <= i < n ==> ws[i] >= 3,
        cells_to_add@.len() == ic,
        c0.len() <= n ==> cells@.len() == (if c0.len() >= ic { c0.len() } else { ic as nat }),
        c0.len() > n ==> cells@.len() == n,
        forall|i: int| ic <= i < cells@.len() ==> #[trigger] cells@[i] == c0[i],
        forall|i: int| 0 <= i < ic ==> cell_pieces(cell_at(src, i), seq![#[trigger] cells@[i]] + cells_to_add@[i]@, ws[i] as int, skin),
//@at loop 3 start
    let ghost q0 = cells@;
    let ghost mut all: Seq<FmtComposite<'_>> = Seq::empty();
    let ghost d0 = cells_to_add@;
//@at after let composites
    proof { all = composites@; }
//@loop 4 id
    invariant
        cells_to_add@.len() == ic + 1, forall|i: int| 0 <= i < ic ==> #[trigger] cells_to_add@[i] == d0[i], cells_to_add@[ic as int]@ == id.seq().take(id.index@ as int), d0.len() == ic,
//@at loop 4 end
    proof { assert(id.seq().take(id.index@ + 1) =~= id.seq().take(id.index@ as int).push(id.seq()[id.index@ as int])); }
//@at loop 3 end
    proof {
        let q = seq![cells@[ic as int]] + cells_to_add@[ic as int]@;
        if ic < q0.len() && q0[ic as int].visible_length > ws[ic as int] { assert(q =~= all); }
        assert(cell_pieces(cell_at(src, ic as int), q, ws[ic as int] as int, skin));
        assert forall|i: int| 0 <= i < ic + 1 implies cell_pieces(cell_at(src, i), seq![#[trigger] cells@[i]] + cells_to_add@[i]@, ws[i] as int, skin) by {
            if i < ic { assert(cells@[i] == q0[i]); assert(cells_to_add@[i] == d0[i]); }
        }
    }
//@at before let nb_new_lines
    let ghost add = Seq::new(cells_to_add@.len(), |i: int| cells_to_add@[i]@);
    let ghost first = FmtLine::TableRow(FmtTableRow { cells: *cells });
//@loop 5 i5
    invariant
        i5.seq().len() == n, forall|i: int| 0 <= i < n ==> *i5.seq()[i] == cells_to_add@[i], cells_to_add@.len() == n,
        forall|i: int| 0 <= i < i5.index@ ==> (#[trigger] cells_to_add@[i])@.len() <= __acc6,
//@at after let nb_new_lines
    let ghost b1 = lines@;
    let ghost mut news: Seq<FmtLine<'_>> = Seq::empty();
    proof {
        assert(b1 =~= b0.update(k, first));
        assert forall|i: int| 0 <= i < add.len() implies left(#[trigger] add[i], nb_new_lines as int) == add[i] by { assert(cells_to_add@[i]@.len() <= nb_new_lines); }
        assert(b1.take(k + 1) + news + b1.skip(k + 1) =~= b1);
    }
//@loop 6
    invariant
        __lo8 == 0, 0 <= __k9 <= nb_new_lines, ir == k, 0 <= k < b1.len(), add.len() == n, n == nbcols, lefts(cells_to_add@, add, __k9 as int),
        news.len() == nb_new_lines - __k9, lines@ == b1.take(k + 1) + news + b1.skip(k + 1),
        forall|j: int| 0 <= j < news.len() ==> nth_row(#[trigger] news[j], add, __k9 + j),
        self.height == h0 + news.len(), self.start == a0, a0 + h0 <= b1.len(),
    decreases __k9,
//@at loop 6 start
    let ghost kk = __k9 - 1;
    let ghost m0 = cells_to_add@;
    let ghost l1 = lines@;
//@loop 7
    invariant
        __hi11 == n, inl == kk, 0 <= kk, add.len() == n, cells_to_add@.len() == n, lefts(m0, add, kk + 1), new_cells@.len() == __i9,
        forall|i: int| 0 <= i < __i9 ==> nth_cell(#[trigger] new_cells@[i], add[i], kk),
        forall|i: int| 0 <= i < __i9 ==> (#[trigger] cells_to_add@[i])@ == left(add[i], kk),
        forall|i: int| __i9 <= i < n ==> #[trigger] cells_to_add@[i] == m0[i],
//@at loop 7 start
    let ghost i = __i9 as int;
    proof { assert(m0[i]@ == left(add[i], kk + 1)); }
//@at loop 7 end
    proof { assert(cells_to_add@[i]@ =~= left(add[i], kk)); assert(nth_cell(new_cells@[i], add[i], kk)); }
//@at before call insert 0
    let ghost nl = new_line;
    proof { assert(nth_row(nl, add, kk)); vrt_vec_len(&*lines); }
//@at after call insert 0
    proof { vrt_vec_len(&*lines); }
//@at loop 6 end
    proof {
        let n1 = seq![nl] + news;
        assert(lines@ =~= b1.take(k + 1) + n1 + b1.skip(k + 1));
        assert forall|j: int| 0 <= j < n1.len() implies nth_row(#[trigger] n1[j], add, kk + j) by { if j > 0 { assert(nth_row(news[j - 1], add, kk + 1 + (j - 1))); } }
        news = n1;
    }
//@at loop 6 after
    proof {
        assert forall|ic: int| 0 <= ic < n implies #[trigger] add[ic].len() <= news.len() && cell_pieces(cell_at(src, ic), seq![cells_of(first)[ic]] + add[ic], ws[ic] as int, skin) by { }
        group(src, first, news, add, ws, skin);
        g = seq![first] + news;
    }
//@at loop 2 end
    proof {
        cat_cons(g, p);
        let p1 = seq![g] + p;
        assert(lines@ =~= m1.take(k) + cat(p1) + m1.skip(e0));
        assert forall|i: int| 0 <= i < p1.len() implies row_split(m1[k + i], #[trigger] p1[i], ws, skin) && (m1[k + i] is TableRule ==> p1[i] == seq![m1[k + i]]) by { if i > 0 { assert(row_split(m1[k + 1 + (i - 1)], p[i - 1], ws, skin)); } }
        p = p1;
    }
//@at before let current_aligns
    let ghost mid = cat(p);
    let ghost l2 = lines@;
    let ghost z0 = m1.skip(e0);
    proof {
        vrt_vec_len(&*lines);
        let m = m1.subrange(a0, e0);
        assert forall|i: int| 0 <= i < m.len() implies is_tbl(#[trigger] m[i]) && (m[i] is TableRule ==> p[i] == seq![m[i]] && mid_ok(m[i], ws.len() as int, cols_removed)) by {
            assert(is_tbl(m1[a0 + i])); assert(row_split(m1[a0 + i], p[i], ws, skin));
            if !cols_removed { assert(completed(l0[a0 + i], m1[a0 + i], nb0)); }
        }
        assert(split(m1.subrange(a0, e0), p, ws, skin)) by { assert forall|i: int| 0 <= i < e0 - a0 implies row_split(m1.subrange(a0, e0)[i], #[trigger] p[i], ws, skin) by { assert(row_split(m1[a0 + i], p[i], ws, skin)); } }
        split_lines(m1.subrange(a0, e0), p, ws, skin, cols_removed);
        assert forall|i: int| 0 <= i < mid.len() implies #[trigger] l2[a0 + i] == mid[i] by {}
    }
//@loop 8
    invariant
        self.start == a0, self.start + self.height == a0 + mid.len(), l2.len() >= a0 + mid.len(), lines@.len() == l2.len(), nbcols == n, ws == widths@, ws.len() == n,
        forall|i: int| 0 <= i < mid.len() ==> #[trigger] l2[a0 + i] == mid[i],
        forall|i: int| 0 <= i < mid.len() ==> mid_ok(#[trigger] mid[i], n, cols_removed),
        forall|i: int| 0 <= i < l2.len() && !(a0 <= i < ir) ==> #[trigger] lines@[i] == l2[i],
        forall|i: int| 0 <= i < ir - a0 ==> placed_line(mid, i, #[trigger] lines@[a0 + i], ws),
        current_aligns@.len() == n, forall|ic: int| 0 <= ic < n ==> #[trigger] current_aligns@[ic] == align_before(mid, ir - a0, ic),
//@at loop 8 start
    let ghost i = ir - a0;
    let ghost s = mid[i];
    let ghost ca = current_aligns@;
    proof { assert(l2[a0 + i] == s); assert(mid_ok(s, n, cols_removed)); reveal_with_fuel(align_before, 2); }
//@loop 9
    invariant
        nbcols == n, ws == widths@, ws.len() == n, cells@.len() == n, n == cells_of(s).len(), current_aligns@ == ca, ca.len() == n,
        forall|j: int| 0 <= j < n ==> same_cell(cells_of(s)[j], #[trigger] cells@[j]),
        forall|j: int| 0 <= j < ic ==> (#[trigger] cells@[j]).spacing == Some(Spacing { width: ws[j], align: ca[j] }),
//@at loop 8 end
    proof {
        let l = lines@[ir as int];
        if s is TableRow {
            assert(row_like(l, n));
            assert forall|ic: int| 0 <= ic < n implies same_cell(mid_cell(mid, i, ic), #[trigger] cells_of(l)[ic]) && cells_of(l)[ic].spacing == Some(Spacing { width: ws[ic], align: align_before(mid, i, ic) }) by { assert(ca[ic] == align_before(mid, i, ic)); }
        } else {
            assert(l is TableRule);
            assert(l->TableRule_0.widths@ =~= ws);
            assert(aligns_of(l).len() == n);
            assert forall|ic: int| 0 <= ic < n implies #[trigger] align_at(l, ic) == align_at(s, ic) by {}
            assert(l->TableRule_0.position == (if i == 0 { RelativePosition::Top } else if i == mid.len() - 1 { RelativePosition::Bottom } else { s->TableRule_0.position }));
        }
        assert(placed_line(mid, i, l, ws));
        assert forall|j: int| 0 <= j < i + 1 implies placed_line(mid, j, #[trigger] lines@[a0 + j], ws) by { }
    }
//@at body-end
    proof {
        let fin = lines@.subrange(a0, a0 + mid.len());
        let src = l0.subrange(a0, e0);
        assert forall|i: int| 0 <= i < fin.len() implies #[trigger] placed_line(mid, i, fin[i], ws) by { assert(fin[i] == lines@[a0 + i]); }
        assert(placed(mid, fin, ws));
        assert forall|i: int| 0 <= i < src.len() implies row_split(src[i], #[trigger] p[i], ws, skin) by {
            if cols_removed { } else { uncompleted(l0[a0 + i], m1[a0 + i], nb0, p[i], ws, skin); }
        }
        assert(split(src, p, ws, skin));
        assert(laid_out(src, fin, ws, skin));
        assert forall|ic: int| 0 <= ic < nb0 implies #[trigger] natw(src, ic, 0, src.len() as int) == natw(l0, ic, a0, e0) by { natw_sub(l0, src, ic, a0, e0); }
        assert(natws(src, 0, src.len() as int, nb0) =~= nt);
        assert(widths_ok(ws, nt, width as int));
        assert(fixed_lines(src, fin, nb0, width, skin));
        assert(lines@ =~= l0.take(a0) + fin + l0.skip(e0));
    }
//@endfn

// ---------------------------------------------------------------- all the tables of a text
pub open spec fn is_table(l: Seq<FmtLine<'_>>, a: int, b: int) -> bool {
    0 <= a < b <= l.len() && tbl_lines(l, a, b) && (a == 0 || !is_tbl(l[a - 1])) && (b == l.len() || !is_tbl(l[b]))
}
pub open spec fn maxc(l: Seq<FmtLine<'_>>, a: int, b: int) -> int decreases b - a { if b <= a { 0 } else if maxc(l, a, b - 1) >= ncols(l[b - 1]) { maxc(l, a, b - 1) } else { ncols(l[b - 1]) } }
pub proof fn maxc_all(l: Seq<FmtLine<'_>>, a: int, b: int, i: int)
    requires a <= i < b,
    ensures ncols(l[i]) <= maxc(l, a, b),
    decreases b - a,
{ if i < b - 1 { maxc_all(l, a, b - 1, i); } }
impl Table {
    pub open spec fn is_found(&self, l: Seq<FmtLine<'_>>) -> bool { is_table(l, self.start as int, self.end()) && self.nbcols == maxc(l, self.start as int, self.end()) }
    pub open spec fn has(&self, i: int) -> bool { self.start <= i < self.end() }
}
pub open spec fn in_table(t: Seq<Table>, i: int) -> bool { exists|k: int| 0 <= k < t.len() && (#[trigger] t[k]).has(i) }
pub open spec fn tables_of(l: Seq<FmtLine<'_>>, t: Seq<Table>) -> bool {
    &&& forall|k: int| 0 <= k < t.len() ==> (#[trigger] t[k]).is_found(l)
    &&& forall|k: int, j: int| 0 <= k < j < t.len() ==> (#[trigger] t[k]).end() <= (#[trigger] t[j]).start
    &&& forall|i: int| 0 <= i < l.len() && is_tbl(#[trigger] l[i]) ==> in_table(t, i)
}
//@fn src/tbl.rs find_tables
//@ret r
//@spec
    ensures tables_of(lines@, r@),
//@loop 0 it
    invariant
        forall|k: int| 0 <= k < tables@.len() ==> (#[trigger] tables@[k]).is_found(lines@) && tables@[k].end() < it.index@ + 1,
        forall|k: int, j: int| 0 <= k < j < tables@.len() ==> (#[trigger] tables@[k]).end() <= (#[trigger] tables@[j]).start,
        current matches Some(c) ==> c.end() == it.index@ && c.height >= 1 && tbl_lines(lines@, c.start as int, it.index@ as int)
            && (c.start == 0 || !is_tbl(lines@[c.start - 1])) && c.nbcols == maxc(lines@, c.start as int, it.index@ as int)
            && (forall|k: int| 0 <= k < tables@.len() ==> (#[trigger] tables@[k]).end() <= c.start),
        current is None ==> it.index@ == 0 || !is_tbl(lines@[it.index@ - 1]),
        forall|i: int| 0 <= i < it.index@ && is_tbl(#[trigger] lines@[i]) ==> in_table(tables@, i) || (current matches Some(c) && c.has(i)),
//@at loop 0 start
    let ghost n = it.index@ as int;
    let ghost b0 = tables@;
    let ghost c0 = current;
    proof { reveal_with_fuel(maxc, 2); }
//@at loop 0 end
    proof {
        if tables@.len() > b0.len() {
            assert(tables@[b0.len() as int] == c0.unwrap());
            assert forall|i: int| 0 <= i < n && is_tbl(#[trigger] lines@[i]) implies in_table(tables@, i) by {
                if in_table(b0, i) { let k = choose|k: int| 0 <= k < b0.len() && (#[trigger] b0[k]).has(i); assert(tables@[k].has(i)); }
                else { assert(tables@[b0.len() as int].has(i)); }
            }
        }
    }
//@at loop 0 after
    let ghost b0 = tables@;
    let ghost c0 = current;
//@at body-end
    proof {
        if tables@.len() > b0.len() {
            assert(tables@[b0.len() as int] == c0.unwrap());
            assert forall|i: int| 0 <= i < lines@.len() && is_tbl(#[trigger] lines@[i]) implies in_table(tables@, i) by {
                if in_table(b0, i) { let k = choose|k: int| 0 <= k < b0.len() && (#[trigger] b0[k]).has(i); assert(tables@[k].has(i)); }
                else { assert(tables@[b0.len() as int].has(i)); }
            }
        }
    }
//@endfn
pub open spec fn fixed_part(src: Seq<FmtLine<'_>>, fin: Seq<FmtLine<'_>>, width: usize, skin: &MadSkin) -> bool {
    let nb = maxc(src, 0, src.len() as int);
    if nb == 0 || width == 0 { fin == src } else { fixed_lines(src, fin, nb, width, skin) }
}
pub open spec fn joined(m: Seq<FmtLine<'_>>, a: Seq<FmtLine<'_>>, f: Seq<FmtLine<'_>>, e: Seq<FmtLine<'_>>) -> bool { m == a + f + e }
// from the line `from` and the k-th table, what the lines become
pub open spec fn all_fixed(l: Seq<FmtLine<'_>>, from: int, m: Seq<FmtLine<'_>>, t: Seq<Table>, k: int, width: usize, skin: &MadSkin) -> bool decreases t.len() - k {
    if k >= t.len() { m == l.skip(from) } else {
        exists|f: Seq<FmtLine<'_>>, e: Seq<FmtLine<'_>>| #[trigger] joined(m, l.subrange(from, t[k].start as int), f, e)
            && fixed_part(l.subrange(t[k].start as int, t[k].end()), f, width, skin) && all_fixed(l, t[k].end(), e, t, k + 1, width, skin)
    }
}
pub open spec fn tables_fixed(l: Seq<FmtLine<'_>>, m: Seq<FmtLine<'_>>, width: usize, skin: &MadSkin) -> bool {
    exists|t: Seq<Table>| tables_of(l, t) && #[trigger] all_fixed(l, 0, m, t, 0, width, skin)
}
pub proof fn fixed_shift(l: Seq<FmtLine<'_>>, from: int, c: int, m: Seq<FmtLine<'_>>, t: Seq<Table>, k: int, width: usize, skin: &MadSkin)
    requires all_fixed(l, c, m, t, k, width, skin), 0 <= from <= c <= l.len(), k < t.len() ==> c == t[k].start,
    ensures all_fixed(l, from, l.subrange(from, c) + m, t, k, width, skin),
{
    if k >= t.len() { assert(l.subrange(from, c) + m =~= l.skip(from)); } else {
        let (f, e) = choose|f: Seq<FmtLine<'_>>, e: Seq<FmtLine<'_>>| #[trigger] joined(m, l.subrange(c, t[k].start as int), f, e)
            && fixed_part(l.subrange(t[k].start as int, t[k].end()), f, width, skin) && all_fixed(l, t[k].end(), e, t, k + 1, width, skin);
        assert(l.subrange(from, c) + m =~= l.subrange(from, t[k].start as int) + f + e);
        assert(joined(l.subrange(from, c) + m, l.subrange(from, t[k].start as int), f, e));
    }
}
pub proof fn natws_sub(l: Seq<FmtLine<'_>>, s: Seq<FmtLine<'_>>, a: int, b: int, n: int)
    requires 0 <= n, 0 <= a <= b <= l.len(), s.len() >= b - a, forall|i: int| 0 <= i < b - a ==> s[i] == #[trigger] l[a + i],
    ensures natws(s, 0, b - a, n) == natws(l, a, b, n),
{
    assert forall|ic: int| 0 <= ic < n implies #[trigger] natws(s, 0, b - a, n)[ic] == natws(l, a, b, n)[ic] by { natw_sub(l, s, ic, a, b); }
    assert(natws(s, 0, b - a, n) =~= natws(l, a, b, n));
}
pub proof fn maxc_sub(l: Seq<FmtLine<'_>>, s: Seq<FmtLine<'_>>, a: int, b: int)
    requires 0 <= a <= b <= l.len(), s.len() >= b - a, forall|i: int| 0 <= i < b - a ==> s[i] == #[trigger] l[a + i],
    ensures maxc(s, 0, b - a) == maxc(l, a, b),
    decreases b - a,
{ if a < b { maxc_sub(l, s, a, b - 1); assert(l[a + (b - a - 1)] == s[b - a - 1]); } }
// tables less than 2^31 wide, high, and in number of columns
pub open spec fn tables_small(l: Seq<FmtLine<'_>>) -> bool {
    forall|a: int, b: int| #[trigger] is_table(l, a, b) ==> b - a < LIM() && maxc(l, a, b) < LIM() && sumw(natws(l, a, b, maxc(l, a, b))) < LIM()
}
pub proof fn before_fix(l0: Seq<FmtLine<'_>>, m0: Seq<FmtLine<'_>>, c: int, t: Seq<FmtLine<'_>>, b: Table, skin: &MadSkin)
    requires b.is_found(l0), b.end() <= c <= l0.len(), m0 == l0.take(c) + t, tables_small(l0), forall|i: int| 0 <= i < l0.len() ==> cells_ready(#[trigger] l0[i], skin),
    ensures b.covers(m0), b.small(m0), forall|i: int| b.start <= i < b.end() ==> cells_ready(#[trigger] m0[i], skin),
{
    let src = l0.subrange(b.start as int, b.end());
    assert forall|i: int| 0 <= i < c implies m0[i] == l0[i] by {}
    assert forall|i: int| b.start <= i < b.end() implies is_tbl(#[trigger] m0[i]) && ncols(m0[i]) <= b.nbcols by { assert(is_tbl(l0[i])); maxc_all(l0, b.start as int, b.end(), i); }
    assert forall|i: int| b.start <= i < b.end() implies cells_ready(#[trigger] m0[i], skin) by { assert(cells_ready(l0[i], skin)); }
    natws_sub(l0, src, b.start as int, b.end(), b.nbcols as int);
    natws_sub(m0, src, b.start as int, b.end(), b.nbcols as int);
    assert(is_table(l0, b.start as int, b.end()));
}
pub proof fn after_fix(l0: Seq<FmtLine<'_>>, m0: Seq<FmtLine<'_>>, m: Seq<FmtLine<'_>>, c: int, t: Seq<FmtLine<'_>>, bs: Seq<Table>, k: int, width: usize, skin: &MadSkin)
    requires
        0 <= k < bs.len(), bs[k].is_found(l0), bs[k].end() <= c <= l0.len(), c == (if k + 1 == bs.len() { l0.len() as int } else { bs[k + 1].start as int }), m0 == l0.take(c) + t, all_fixed(l0, c, t, bs, k + 1, width, skin),
        bs[k].nbcols == 0 || width == 0 ==> m == m0,
        bs[k].nbcols > 0 && width > 0 ==> fixed(m0, m, bs[k], width, skin),
    ensures all_fixed(l0, bs[k].start as int, m.skip(bs[k].start as int), bs, k, width, skin), m == l0.take(bs[k].start as int) + m.skip(bs[k].start as int),
{
    let b = bs[k];
    let (a, e) = (b.start as int, b.end());
    let src = l0.subrange(a, e);
    maxc_sub(l0, src, a, e);
    let t1 = l0.subrange(e, c) + t;
    fixed_shift(l0, e, c, t, bs, k + 1, width, skin);
    assert(m0.skip(e) =~= t1);
    assert(m0.subrange(a, e) =~= src);
    assert(m0.take(a) =~= l0.take(a));
    let mut fin = src;
    if b.nbcols > 0 && width > 0 {
        fin = choose|fin: Seq<FmtLine<'_>>| m == m0.take(a) + fin + m0.skip(e) && #[trigger] fixed_lines(m0.subrange(a, e), fin, b.nbcols as int, width, skin);
    } else { assert(m =~= m0.take(a) + src + m0.skip(e)); }
    assert(fixed_part(src, fin, width, skin));
    let t2 = fin + t1;
    assert(m.skip(a) =~= t2);
    assert(t2 =~= l0.subrange(a, a) + fin + t1);
    assert(joined(t2, l0.subrange(a, a), fin, t1));
    assert(m =~= l0.take(a) + t2);
}
//@fn src/tbl.rs fix_all_tables
//@spec
    requires tables_small(old(lines)@), forall|i: int| 0 <= i < old(lines)@.len() ==> cells_ready(#[trigger] old(lines)@[i], skin),
    ensures tables_fixed(old(lines)@, final(lines)@, width, skin),
//@at body-start
    let ghost l0 = lines@;
    let ghost mut t = Seq::<FmtLine<'_>>::empty();
    let ghost mut c = l0.len() as int;
//@at loop 0 before
    let ghost bs = __v1@;
    proof { assert(l0.skip(c) =~= t); assert(l0.take(c) + t =~= l0); }
//@loop 0
    invariant
        __k2 <= bs.len(), __v1@.len() == bs.len(), forall|i: int| 0 <= i < __k2 ==> #[trigger] __v1@[i] == bs[i], tables_of(l0, bs), tables_small(l0),
        forall|i: int| 0 <= i < l0.len() ==> cells_ready(#[trigger] l0[i], skin),
        0 <= c <= l0.len(), c == (if __k2 == bs.len() { l0.len() as int } else { bs[__k2 as int].start as int }),
        lines@ == l0.take(c) + t, all_fixed(l0, c, t, bs, __k2 as int, width, skin),
    decreases __k2,
//@at loop 0 start
    let ghost k = __k2 - 1;
    let ghost b = bs[k];
    let ghost m0 = lines@;
    let ghost src = l0.subrange(b.start as int, b.end());
    proof { assert(b.is_found(l0)); assert(b.end() <= c) by { if k + 1 < bs.len() { assert(bs[k].end() <= bs[k + 1].start); } } before_fix(l0, m0, c, t, b, skin); }
//@at loop 0 end
    proof {
        after_fix(l0, m0, lines@, c, t, bs, k, width, skin);
        t = lines@.skip(b.start as int); c = b.start as int;
    }
//@at loop 0 after
    proof { fixed_shift(l0, 0, c, t, bs, 0, width, skin); assert(lines@ =~= l0.subrange(0, c) + t); }
//@endfn
// ---------------------------------------------------------------- C04
// the column leaves room after the bullet or quote mark of the cell for its widest char
pub open spec fn cell_roomy(c: FmtComposite<'_>, w: int, skin: &MadSkin) -> bool { narrow(flat(c.compounds@), w - skin.prefix_len(c.kind)) && skin.prefix_len(c.kind) <= w && kind_fine(c.kind) }
pub open spec fn row_roomy(l: FmtLine<'_>, ws: Seq<usize>, skin: &MadSkin) -> bool { forall|ic: int| 0 <= ic < ws.len() ==> (#[trigger] cell_at(l, ic) matches Some(c) ==> cell_roomy(c, ws[ic] as int, skin)) }
pub open spec fn cell_fits(c: FmtComposite<'_>, w: int, skin: &MadSkin) -> bool { c.wf(skin) && c.visible_length <= w && kind_fine(c.kind) }
pub open spec fn row_fits(l: FmtLine<'_>, ws: Seq<usize>, skin: &MadSkin) -> bool {
    l is TableRow ==> cells_of(l).len() == ws.len() && forall|ic: int| 0 <= ic < ws.len() ==> cell_fits(#[trigger] cells_of(l)[ic], ws[ic] as int, skin)
}
pub proof fn group_fits(src: FmtLine<'_>, p: Seq<FmtLine<'_>>, ws: Seq<usize>, skin: &MadSkin)
    requires is_tbl(src), row_split(src, p, ws, skin), cells_ready(src, skin), row_roomy(src, ws, skin),
    ensures forall|j: int| 0 <= j < p.len() ==> is_tbl(#[trigger] p[j]) && row_fits(p[j], ws, skin),
{
    assert forall|j: int| 0 <= j < p.len() implies is_tbl(#[trigger] p[j]) && row_fits(p[j], ws, skin) by {
        if src is TableRow {
            assert(row_like(p[j], ws.len() as int));
            assert forall|ic: int| 0 <= ic < ws.len() implies cell_fits(#[trigger] cells_of(p[j])[ic], ws[ic] as int, skin) by {
                let w = ws[ic] as int;
                let c = cell_at(src, ic);
                assert(col_split(c, p, ic, w, skin));
                let k = choose|k: int| 1 <= k <= p.len() && #[trigger] cell_pieces(c, pieces(p, ic, k), w, skin) && forall|j: int| k <= j < p.len() ==> empty_cell(#[trigger] cells_of(p[j])[ic]);
                let q = pieces(p, ic, k);
                let d = cells_of(p[j])[ic];
                if j >= k { assert(empty_cell(d)); } else {
                    assert(q[j] == d);
                    if let Some(c) = c {
                        assert(cells_of(src)[ic].ready(skin));
                        assert(cell_roomy(c, w, skin));
                        reveal(lines_ok); reveal(lines_fit);
                    }
                }
            }
        }
    }
}
pub proof fn mid_fits(src: Seq<FmtLine<'_>>, p: Seq<Seq<FmtLine<'_>>>, ws: Seq<usize>, skin: &MadSkin)
    requires split(src, p, ws, skin), forall|i: int| 0 <= i < src.len() ==> is_tbl(#[trigger] src[i]) && cells_ready(src[i], skin) && row_roomy(src[i], ws, skin),
    ensures forall|i: int| 0 <= i < cat(p).len() ==> is_tbl(#[trigger] cat(p)[i]) && row_fits(cat(p)[i], ws, skin),
    decreases p.len(),
{
    if p.len() > 0 {
        let (p1, s1) = (p.drop_last(), src.drop_last());
        assert forall|i: int| 0 <= i < s1.len() implies row_split(s1[i], #[trigger] p1[i], ws, skin) by { assert(row_split(src[i], p[i], ws, skin)); }
        assert forall|i: int| 0 <= i < s1.len() implies is_tbl(#[trigger] s1[i]) && cells_ready(s1[i], skin) && row_roomy(s1[i], ws, skin) by { assert(is_tbl(src[i])); }
        mid_fits(s1, p1, ws, skin);
        let (k, q) = (p.len() - 1, p.last());
        assert(row_split(src[k], p[k], ws, skin)); assert(is_tbl(src[k]));
        group_fits(src[k], q, ws, skin);
        let (c, c1) = (cat(p), cat(p1));
        assert(c == c1 + q);
        assert forall|i: int| 0 <= i < c.len() implies is_tbl(#[trigger] c[i]) && row_fits(c[i], ws, skin) by { if i < c1.len() { assert(c[i] == c1[i]); } else { assert(c[i] == q[i - c1.len()]); } }
    }
}
pub proof fn widths_sum(ws: Seq<usize>)
    ensures rulew(ws) == sumw(ws) + ws.len(),
    decreases ws.len(),
{ if ws.len() > 0 { widths_sum(ws.drop_last()); } }
pub proof fn spaced_sum(c: Seq<FmtComposite<'_>>, ws: Seq<usize>)
    requires c.len() == ws.len(), forall|i: int| 0 <= i < ws.len() ==> (#[trigger] c[i]).inner_width() == ws[i],
    ensures tblw(c) == sumw(ws) + ws.len(),
    decreases ws.len(),
{
    if ws.len() > 0 {
        let (d, v) = (c.drop_last(), ws.drop_last());
        assert forall|i: int| 0 <= i < v.len() implies (#[trigger] d[i]).inner_width() == v[i] by { assert(c[i].inner_width() == ws[i]); }
        spaced_sum(d, v);
        assert(c[ws.len() - 1].inner_width() == ws[ws.len() - 1]);
    }
}
pub proof fn all_three(ws: Seq<usize>)
    requires forall|i: int| 0 <= i < ws.len() ==> ws[i] == 3,
    ensures sumw(ws) == 3 * ws.len(),
    decreases ws.len(),
{ if ws.len() > 0 { all_three(ws.drop_last()); } }
// the line covers exactly `w` columns when rendered
pub open spec fn covers_cols(l: FmtLine<'_>, w: int, sk: &MadSkin) -> bool {
    match l {
        FmtLine::TableRow(row) => (forall|i: int| 0 <= i < row.cells@.len() ==> sk.specials_ok(#[trigger] row.cells@[i].compounds@) && sk.sizes_ok(&row.cells@[i], None)) ==> cols(sk.line_cells(&l, None, false)) == w,
        FmtLine::TableRule(rule) => cols(sk.line_cells(&l, None, false)) == w,
        _ => false,
    }
}
// rows and rules of a table all have the same columns and the same width, at most the asked one; contents fit their columns
pub proof fn table_rectangular(src: Seq<FmtLine<'_>>, fin: Seq<FmtLine<'_>>, ws: Seq<usize>, nbcols: int, width: usize, sk: &MadSkin)
    requires
        laid_out(src, fin, ws, sk), nbcols > 0, width >= 5, widths_ok(ws, natws(src, 0, src.len() as int, nbcols), width as int),
        forall|i: int| 0 <= i < src.len() ==> is_tbl(#[trigger] src[i]) && cells_ready(src[i], sk) && row_roomy(src[i], ws, sk),
        sk.marks_ok(), sk.borders_ok(), width < BIG(),
    ensures
        ws.len() > 0, forall|i: int| 0 <= i < ws.len() ==> ws[i] >= 3,
        sumw(ws) + ws.len() + 1 <= width,
        forall|i: int| 0 <= i < fin.len() ==> is_tbl(#[trigger] fin[i]) && row_fits(fin[i], ws, sk) && (fin[i] matches FmtLine::TableRule(rule) ==> rule.widths@ == ws),
        forall|i: int| 0 <= i < fin.len() ==> covers_cols(#[trigger] fin[i], sumw(ws) + ws.len() + 1, sk),
{
    let nt = natws(src, 0, src.len() as int, nbcols);
    assert(nt.len() == nbcols);
    if width < nt.len() * 4 + 1 { all_three(ws); }
    let p = choose|p: Seq<Seq<FmtLine<'_>>>| #[trigger] split(src, p, ws, sk) && placed(cat(p), fin, ws);
    let mid = cat(p);
    mid_fits(src, p, ws, sk);
    widths_sum(ws);
    let w = sumw(ws) + ws.len() + 1;
    assert forall|i: int| 0 <= i < fin.len() implies is_tbl(#[trigger] fin[i]) && row_fits(fin[i], ws, sk) && covers_cols(fin[i], w, sk) && (fin[i] matches FmtLine::TableRule(rule) ==> rule.widths@ == ws) by {
        let l = fin[i];
        assert(placed_line(mid, i, l, ws)); assert(is_tbl(mid[i])); assert(row_fits(mid[i], ws, sk));
        if mid[i] is TableRow {
            let c = cells_of(l);
            assert forall|ic: int| 0 <= ic < ws.len() implies cell_fits(#[trigger] c[ic], ws[ic] as int, sk) && c[ic].inner_width() == ws[ic] by { assert(same_cell(mid_cell(mid, i, ic), c[ic])); assert(cell_fits(cells_of(mid[i])[ic], ws[ic] as int, sk)); }
            spaced_sum(c, ws);
            if forall|i: int| 0 <= i < c.len() ==> sk.specials_ok(#[trigger] c[i].compounds@) && sk.sizes_ok(&c[i], None) {
                assert forall|ic: int| 0 <= ic < c.len() implies #[trigger] sk.sizes_ok(&c[ic], None) by { assert(sk.specials_ok(c[ic].compounds@)); }
                assert forall|ic: int| 0 <= ic < c.len() implies (#[trigger] c[ic]).wf(sk) && sk.specials_ok(c[ic].compounds@) && c[ic].visible_length <= c[ic].inner_width() by { assert(cell_fits(c[ic], ws[ic] as int, sk)); assert(c[ic].inner_width() == ws[ic]); }
                line_cols(sk, &l, width);
            }
        } else { line_cols(sk, &l, width); }
    }
}
}
