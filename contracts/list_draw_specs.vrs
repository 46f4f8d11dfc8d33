// creation and drawing of a list
verus! {
impl<'t, T> ListView<'t, T> {
    // ------------------------------------------------------------ the titles
    pub open spec fn name(&self, k: int) -> Seq<char> { self.columns@[k].title@ }
}
// the columns of the titles: all columns, in order, grouped by equal neighbours
pub open spec fn under<'t, T>(x: Title, c: Seq<ListViewColumn<'t, T>>, n: int) -> bool {
    &&& 0 < x.columns@.len() && x.columns@[0] + x.columns@.len() <= n
    &&& forall|j: int| 0 <= j < x.columns@.len() ==> (#[trigger] x.columns@[j]) == x.columns@[0] + j && c[x.columns@[0] + j].title@ == c[x.columns@[0] as int].title@
}
pub open spec fn next_title<'t, T>(x: Title, y: Title, c: Seq<ListViewColumn<'t, T>>) -> bool {
    y.columns@[0] == x.columns@[0] + x.columns@.len() && c[y.columns@[0] as int].title@ != c[x.columns@[0] as int].title@
}
pub open spec fn title_starts<'t, T>(t: Seq<Title>, c: Seq<ListViewColumn<'t, T>>, n: int) -> bool {
    &&& forall|i: int| 0 <= i < t.len() ==> #[trigger] under(t[i], c, n)
    &&& forall|i: int, j: int| 0 <= i && j < t.len() && j == i + 1 ==> #[trigger] next_title(t[i], t[j], c)
    &&& (t.len() == 0) == (n == 0)
    &&& t.len() > 0 ==> t[0].columns@[0] == 0 && t.last().columns@[0] + t.last().columns@.len() == n
}
pub fn vrt_eq(a: &String, b: &String) -> (r: bool) ensures r == (a@ == b@) { vrt_str_eq(a, b) }
#[verifier::external_body]
pub fn vrt_str_eq(a: &String, b: &String) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
//@fn src/color.rs gray
//@ret r
//@spec
    ensures r == Color::AnsiValue((0xE8 + if level < 23 { level as int } else { 23int }) as u8),
//@endfn
// one more column, under the last title or under a new one
pub proof fn title_more<'t, T>(t0: Seq<Title>, t: Seq<Title>, c: Seq<ListViewColumn<'t, T>>, n: int)
    requires
        title_starts(t0, c, n), 0 < t0.len() == t.len(), forall|i: int| 0 <= i < t0.len() - 1 ==> t[i] == t0[i],
        t.last().columns@ == t0.last().columns@.push(n as usize), 0 <= n < c.len() <= usize::MAX,
        c[t0.last().columns@[0] as int].title@ == c[n].title@,
    ensures title_starts(t, c, n + 1),
{
    let k = t.len() - 1;
    assert(under(t0[k], c, n));
    assert(under(t[k], c, n + 1)) by {
        let (l, l0) = (t[k].columns@, t0[k].columns@);
        assert(l[0] == l0[0]);
        assert forall|j: int| 0 <= j < l.len() implies (#[trigger] l[j]) == l[0] + j && c[l[0] + j].title@ == c[l[0] as int].title@ by {
            if j < l0.len() { assert(l[j] == l0[j]); }
        }
    }
    assert forall|i: int| 0 <= i < t.len() implies #[trigger] under(t[i], c, n + 1) by {
        if i < k { assert(under(t0[i], c, n)); }
    }
    assert forall|i: int, j: int| 0 <= i && j < t.len() && j == i + 1 implies #[trigger] next_title(t[i], t[j], c) by {
        assert(next_title(t0[i], t0[j], c));
        if j == k { assert(t[k].columns@[0] == t0[k].columns@[0]); }
    }
    assert(t[0].columns@[0] == t0[0].columns@[0]);
}
pub proof fn title_new<'t, T>(t0: Seq<Title>, t: Seq<Title>, c: Seq<ListViewColumn<'t, T>>, n: int)
    requires
        title_starts(t0, c, n), t.len() == t0.len() + 1, forall|i: int| 0 <= i < t0.len() ==> t[i] == t0[i],
        t.last().columns@ == seq![n as usize], 0 <= n < c.len() <= usize::MAX,
        t0.len() > 0 ==> c[t0.last().columns@[0] as int].title@ != c[n].title@,
    ensures title_starts(t, c, n + 1),
{
    let k = t.len() - 1;
    assert(under(t[k], c, n + 1));
    assert forall|i: int| 0 <= i < t.len() implies #[trigger] under(t[i], c, n + 1) by {
        if i < k { assert(under(t0[i], c, n)); }
    }
    assert forall|i: int, j: int| 0 <= i && j < t.len() && j == i + 1 implies #[trigger] next_title(t[i], t[j], c) by {
        if j < k { assert(next_title(t0[i], t0[j], c)); }
    }
}
//@fn src/views/list_view.rs ListView::new
//@ret r
//@rule eq
//@spec
    requires area.height >= 1,
    ensures r.wf(), r.area == area, r.columns == columns, r.skin == skin, r.rows@.len() == 0, r.selection is None, r.filter is None, r.row_order is None, r.scroll == 0,
        title_starts(r.titles@, columns@, columns@.len() as int),
//@loop 0 it
    invariant
        title_starts(titles@, columns@, it.index@ as int),
//@at loop 0 start
    let ghost t0 = titles@;
    proof {
        vrt_vec_len(&columns);
        if t0.len() > 0 { assert(under(t0[t0.len() - 1], columns@, it.index@ as int)); }
    }
//@at loop 0 after
    proof {
        assert forall|i: int| 0 <= i < titles@.len() implies #[trigger] title_in(titles@[i], columns@.len() as int) by { assert(under(titles@[i], columns@, columns@.len() as int)); }
    }
//@at loop 0 end
    proof {
        let n = it.index@ as int;
        if t0.len() > 0 && columns@[t0.last().columns@[0] as int].title@ == columns@[n].title@ { title_more(t0, titles@, columns@, n); }
        else { assert(titles@.last().columns@ =~= seq![n as usize]); title_new(t0, titles@, columns@, n); }
    }
//@endfn
//@type src/views/list_view.rs ListViewCell
impl<'t> ListViewCell<'t> {
    pub open spec fn wf(&self) -> bool { self.width == self.con@.len() }
}
//@fn src/views/list_view.rs ListViewCell::new
//@ret r
//@spec
    ensures r.wf(), r.con == con, r.style == style,
//@endfn
//@fn src/views/list_view.rs ListViewColumn::new
//@sig (title: &str, min_width: usize, max_width: usize, extract: VrtExtract<'t, T>) -> (r: Self)
//@rule method to_owned to_string
//@spec
    ensures r.title@ == title@, r.min_width == min_width, r.max_width == max_width, r.extract == extract,
        r.spacing.width == min_width, r.spacing.align == Alignment::Center,
//@endfn
//@fn src/views/list_view.rs ListViewColumn::with_align
//@ret r
//@spec
    ensures same_col(r, (ListViewColumn { spacing: Spacing { width: self.spacing.width, align }, ..self })), r.spacing.width == self.spacing.width,
//@endfn
// the cell extracted from a row: a pure total function of the row, which builds its cell with ListViewCell::new
pub uninterp spec fn extracted<'t, T>(f: VrtExtract<'t, T>, t: T) -> ListViewCell<'t>;
impl<'t, T> VrtExtract<'t, T> {
    #[verifier::external_body]
    pub fn vrt_apply1(&self, t: &T) -> (r: ListViewCell<'t>) ensures r == extracted(*self, *t), r.wf() { unimplemented!() }
}

// ------------------------------------------------------------ drawing
// the sum of the widths of these columns
pub open spec fn under_width<'t, T>(c: Seq<ListViewColumn<'t, T>>, ci: Seq<usize>) -> int decreases ci.len() {
    if ci.len() == 0 { 0 } else { under_width(c, ci.drop_last()) + c[ci.last() as int].spacing.width as int }
}
impl<'t, T> ListView<'t, T> {
    pub open spec fn bar_char(&self, c: char) -> Seq<Cell> { styled(self.skin.table.compound_style.object_style, seq![c]) }
    // with the separators between its columns
    pub open spec fn title_width(&self, i: int) -> int { under_width(self.columns@, self.titles@[i].columns@) + self.titles@[i].columns@.len() - 1 }
    pub open spec fn title_cells(&self, i: int) -> Seq<Cell> {
        let name = self.name(self.titles@[i].columns@[0] as int);
        styled(self.skin.headers[0].compound_style.object_style, (Spacing { width: self.title_width(i) as usize, align: Alignment::Center }).fitted(name, name.len() as int))
    }
    pub open spec fn sep(&self, k: int, c: char) -> Seq<Cell> { if k > 0 { self.bar_char(c) } else { Seq::empty() } }
    // the titles before k
    pub open spec fn titles_row(&self, k: int) -> Seq<Cell> decreases k {
        if k <= 0 { Seq::empty() } else { self.titles_row(k - 1) + self.sep(k - 1, '│') + self.title_cells(k - 1) }
    }
    // the columns before j under the title i
    pub open spec fn rule_under(&self, i: int, j: int) -> Seq<Cell> decreases j {
        if j <= 0 { Seq::empty() } else {
            self.rule_under(i, j - 1) + self.sep(j - 1, '┬')
            + styled(self.skin.table.compound_style.object_style, rep('─', self.columns@[self.titles@[i].columns@[j - 1] as int].spacing.width as int))
        }
    }
    pub open spec fn rule_row(&self, k: int) -> Seq<Cell> decreases k {
        if k <= 0 { Seq::empty() } else { self.rule_row(k - 1) + self.sep(k - 1, '┼') + self.rule_under(k - 1, self.titles@[k - 1].columns@.len() as int) }
    }
    // a data row
    pub open spec fn is_selected(&self, r: int) -> bool { self.selection matches Some(s) && s as int == r }
    pub open spec fn cell_cells(&self, r: int, k: int) -> Seq<Cell> {
        let c = extracted(self.columns@[k].extract, self.rows@[r].data);
        let st = if self.is_selected(r) { bg_set(*c.style, self.selection_background) } else { *c.style };
        styled(st.object_style, self.columns@[k].spacing.fitted(c.con@, c.con@.len() as int))
    }
    // what's before the column k of a row
    pub open spec fn before_cell(&self, m: Seq<Out>, r: int, k: int) -> Seq<Out> {
        if k == 0 { m } else {
            let m = if self.is_selected(r) { m.push(Out::Bg(self.selection_background)) } else { m };
            m.push(Out::Styled(self.skin.table.compound_style.object_style, seq!['│']))
        }
    }
    pub open spec fn row_drawn(&self, a: Seq<Out>, b: Seq<Out>, r: int, k: int) -> bool decreases k {
        if k <= 0 { b == a } else {
            exists|m: Seq<Out>| self.row_drawn(a, m, r, k - 1) && #[trigger] wrote(self.before_cell(m, r, k - 1), b, self.cell_cells(r, k - 1))
        }
    }
    // the first displayed row from p
    pub open spec fn next_shown(&self, p: int) -> int decreases self.n() - p {
        if p >= self.n() { self.n() } else if self.is_shown(p) { p } else { self.next_shown(p + 1) }
    }
    // where to look for the row of the line k of the body
    pub open spec fn from_row(&self, k: int) -> int decreases k {
        if k <= 0 { self.scroll as int } else {
            let r = self.next_shown(self.from_row(k - 1));
            if r < self.n() { r + 1 } else { r }
        }
    }
    pub open spec fn line_drawn(&self, a: Seq<Out>, b: Seq<Out>, k: int) -> bool {
        let r = self.next_shown(self.from_row(k));
        if r < self.n() { self.row_drawn(a, b, r, self.columns@.len() as int) } else { b == a.push(Out::Clear) }
    }
    pub open spec fn has_bar(&self) -> bool { self.body() > 0 && shown_count(self.rows@) > self.body() }
    pub open spec fn bar_x(&self) -> int { self.area.left + if self.area.width > 0 { self.area.width - 1 } else { 0 } }
    pub open spec fn bar_drawn(&self, a: Seq<Out>, b: Seq<Out>, k: int) -> bool {
        let c = shown_count(self.rows@) as int;
        let s = if thumb_top(self.scroll as int, c, self.body()) <= k <= thumb_bottom(self.scroll as int, c, self.body()) { self.skin.scrollbar.thumb } else { self.skin.scrollbar.track };
        if self.has_bar() { b == a.push(Out::Move(self.bar_x(), self.area.top + 2 + k)).push(Out::Styled(s.compound_style.object_style, seq![s.nude_char])) } else { b == a }
    }
    pub open spec fn lines_drawn(&self, a: Seq<Out>, b: Seq<Out>, k: int) -> bool decreases k {
        if k <= 0 { b == a } else {
            exists|m: Seq<Out>, c: Seq<Out>| self.lines_drawn(a, m, k - 1)
                && #[trigger] self.line_drawn(m.push(Out::Move(self.area.left as int, self.area.top + 1 + k)), c, k - 1) && #[trigger] self.bar_drawn(c, b, k - 1)
        }
    }
    pub open spec fn head_drawn(&self, a: Seq<Out>, b: Seq<Out>) -> bool {
        exists|m: Seq<Out>| #[trigger] wrote(a.push(Out::Move(self.area.left as int, self.area.top as int)), m, self.titles_row(self.titles@.len() as int))
            && wrote(m.push(Out::Move(self.area.left as int, self.area.top + 1)), b, self.rule_row(self.titles@.len() as int))
    }
    pub open spec fn drawn(&self, a: Seq<Out>, b: Seq<Out>) -> bool {
        exists|m: Seq<Out>| #[trigger] self.head_drawn(a, m) && self.lines_drawn(m, b, if self.area.height > 2 { self.area.height - 2 } else { 0 })
    }
    pub open spec fn drawable(&self) -> bool {
        &&& self.wf() && self.n() <= 0x7fff_ffff_ffff
        &&& self.area.top as int + self.area.height as int <= 0xffff && self.area.top < 0xffff && self.area.left as int + self.area.width as int <= 0xffff
        &&& self.skin.scrollbar.thumb.wf() && self.skin.scrollbar.track.wf()
        &&& forall|i: int| 0 <= i < self.titles@.len() ==> under_width(self.columns@, (#[trigger] self.titles@[i]).columns@) + self.titles@[i].columns@.len() <= 0xffff_ffff
    }
}
pub proof fn under_part<'t, T>(c: Seq<ListViewColumn<'t, T>>, ci: Seq<usize>, k: int)
    requires 0 <= k <= ci.len(),
    ensures 0 <= under_width(c, ci.take(k)) <= under_width(c, ci), k < ci.len() ==> under_width(c, ci.take(k + 1)) == under_width(c, ci.take(k)) + c[ci[k] as int].spacing.width,
    decreases ci.len() - k,
{
    if k < ci.len() {
        assert(ci.take(k + 1).drop_last() =~= ci.take(k));
        under_part(c, ci, k + 1);
        under_pos(c, ci.take(k));
    } else { assert(ci.take(k) =~= ci); under_pos(c, ci); }
}
pub proof fn under_pos<'t, T>(c: Seq<ListViewColumn<'t, T>>, ci: Seq<usize>)
    ensures 0 <= under_width(c, ci),
    decreases ci.len(),
{ if ci.len() > 0 { under_pos(c, ci.drop_last()); } }
impl<'t, T> ListView<'t, T> {
    pub proof fn then_sep(&self, a: Seq<Out>, m0: Seq<Out>, m1: Seq<Out>, b: Seq<Out>, pre: Seq<Cell>, k: int, c: char, x: Seq<Cell>)
        requires
            wrote(a, m0, pre), wrote(m1, b, x),
            m1 == if k > 0 { m0.push(Out::Styled(self.skin.table.compound_style.object_style, seq![c])) } else { m0 },
        ensures wrote(a, m1, pre + self.sep(k, c)), wrote(a, b, pre + self.sep(k, c) + x),
    {
        if k > 0 {
            wrote_one(m0, Out::Styled(self.skin.table.compound_style.object_style, seq![c]));
            wrote_then(a, m0, m1, pre, self.bar_char(c));
        } else { assert(pre + Seq::<Cell>::empty() =~= pre); }
        wrote_then(a, m1, b, pre + self.sep(k, c), x);
    }
    pub proof fn row_more(&self, a: Seq<Out>, m: Seq<Out>, b: Seq<Out>, r: int, k: int)
        requires k >= 0, self.row_drawn(a, m, r, k), wrote(self.before_cell(m, r, k), b, self.cell_cells(r, k)),
        ensures self.row_drawn(a, b, r, k + 1),
    {
        let k1 = k + 1;
        assert(self.row_drawn(a, m, r, k1 - 1) && wrote(self.before_cell(m, r, k1 - 1), b, self.cell_cells(r, k1 - 1)));
    }
    pub proof fn next_facts(&self, p: int)
        requires 0 <= p <= self.n(),
        ensures p <= self.next_shown(p) <= self.n(), self.next_shown(p) < self.n() ==> self.is_shown(self.next_shown(p)),
            forall|i: int| p <= i < self.next_shown(p) ==> !self.is_shown(i),
        decreases self.n() - p,
    { if p < self.n() && !self.is_shown(p) { self.next_facts(p + 1); } }
}
//@fn src/views/list_view.rs ListView::write_on
//@ret r
//@rule callvars
//@rule sum_type usize
//@spec
    requires self.drawable(),
    ensures r.is_ok() ==> self.drawn(old(w).out(), final(w).out()),
//@at body-start
    let ghost o0 = w.out();
    let ghost s0 = o0.push(Out::Move(self.area.left as int, self.area.top as int));
    let ghost tn = self.titles@.len() as int;
    let ghost ts = self.skin.table.compound_style.object_style;
    proof { wrote_nothing(s0); vrt_vec_len(&self.rows); vrt_vec_len(&self.columns); }
//@loop 0 it
    invariant
        self.drawable(), vbar.wf(), vbar.nude_char == '│', vbar.compound_style == self.skin.table.compound_style, 
        wrote(s0, w.out(), self.titles_row(it.index@ as int)), tn == self.titles@.len(),
//@at loop 0 start
    let ghost ti = it.index@ as int;
    let ghost m0 = w.out();
    proof { assert(title_in(self.titles@[ti], self.columns@.len() as int)); }
//@at before let width 0
    let ghost m1 = w.out();
    let ghost cl = title.columns@;
//@loop 1 jt
    invariant
        self.drawable(), 0 <= ti < tn == self.titles@.len(), cl == self.titles@[ti].columns@, title_in(self.titles@[ti], self.columns@.len() as int),
        under_width(self.columns@, cl) + cl.len() <= 0xffff_ffff,
        jt.seq().len() == cl.len(), forall|i: int| 0 <= i < cl.len() ==> *(#[trigger] jt.seq()[i]) == cl[i],
        __acc1 == under_width(self.columns@, cl.take(jt.index@ as int)),
//@at loop 1 start
    proof { assert(self.titles@[ti].columns@[jt.index@ as int] < self.columns@.len()); under_part(self.columns@, cl, jt.index@ as int); under_part(self.columns@, cl, jt.index@ as int + 1); }
//@at loop 1 after
    proof { assert(cl.take(cl.len() as int) =~= cl); under_pos(self.columns@, cl); }
//@at loop 0 end
    proof {
        self.then_sep(s0, m0, m1, w.out(), self.titles_row(ti), ti, '│', self.title_cells(ti));
    }
//@at loop 0 after
    let ghost h1 = w.out();
    let ghost s1 = h1.push(Out::Move(self.area.left as int, self.area.top + 1));
    proof { wrote_nothing(s1); }
//@loop 2 it
    invariant
        self.drawable(), cross.wf(), cross.nude_char == '┼', cross.compound_style == self.skin.table.compound_style, tn == self.titles@.len(),
        tee.wf(), tee.nude_char == '┬', tee.compound_style == self.skin.table.compound_style,
        hbar.wf(), hbar.nude_char == '─', hbar.compound_style == self.skin.table.compound_style, ts == self.skin.table.compound_style.object_style,
        wrote(s1, w.out(), self.rule_row(it.index@ as int)),
//@at loop 2 start
    let ghost ti = it.index@ as int;
    let ghost m0 = w.out();
    proof { assert(title_in(self.titles@[ti], self.columns@.len() as int)); }
//@at loop 3 before
    let ghost m1 = w.out();
    proof { wrote_nothing(m1); }
//@loop 3 jt
    invariant
        self.drawable(), 0 <= ti < tn == self.titles@.len(), title_in(self.titles@[ti], self.columns@.len() as int), *title == self.titles@[ti],
        tee.wf(), tee.nude_char == '┬', tee.compound_style == self.skin.table.compound_style,
        hbar.wf(), hbar.nude_char == '─', hbar.compound_style == self.skin.table.compound_style, ts == self.skin.table.compound_style.object_style,
        wrote(m1, w.out(), self.rule_under(ti, jt.index@ as int)),
//@at loop 3 start
    let ghost ci = jt.index@ as int;
    let ghost q0 = w.out();
    proof { assert(self.titles@[ti].columns@[ci] < self.columns@.len()); }
//@at loop 4 before
    let ghost q1 = w.out();
    proof { wrote_nothing(q1); assert(styled(ts, rep('─', 0)) =~= Seq::<Cell>::empty()); }
//@loop 4 kt
    invariant
        hbar.wf(), hbar.nude_char == '─', hbar.compound_style == self.skin.table.compound_style, ts == self.skin.table.compound_style.object_style,
        wrote(q1, w.out(), styled(ts, rep('─', kt.index@ as int))),
//@at loop 4 start
    let ghost k0 = w.out();
//@at loop 4 end
    proof {
        let o = Out::Styled(ts, seq!['─']);
        wrote_one(k0, o);
        wrote_then(q1, k0, w.out(), styled(ts, rep('─', kt.index@ as int)), out_cells(o));
        assert(styled(ts, rep('─', kt.index@ as int)) + out_cells(o) =~= styled(ts, rep('─', kt.index@ as int + 1)));
    }
//@at loop 3 end
    proof {
        self.then_sep(m1, q0, q1, w.out(), self.rule_under(ti, ci), ci, '┬', styled(ts, rep('─', self.columns@[self.titles@[ti].columns@[ci] as int].spacing.width as int)));
    }
//@at loop 2 end
    proof {
        self.then_sep(s1, m0, m1, w.out(), self.rule_row(ti), ti, '┼', self.rule_under(ti, self.titles@[ti].columns@.len() as int));
    }
//@at loop 2 after
    let ghost h2 = w.out();
    proof { assert(self.head_drawn(o0, h2)); }
//@loop 5 it
    invariant
        self.drawable(), vbar.wf(), vbar.nude_char == '│', vbar.compound_style == self.skin.table.compound_style, 
        sx as int == self.bar_x(), (scrollbar is Some) == self.has_bar(),
        scrollbar matches Some((a, b)) ==> a as int == self.area.top + thumb_top(self.scroll as int, shown_count(self.rows@) as int, self.body())
            && b as int == self.area.top + thumb_bottom(self.scroll as int, shown_count(self.rows@) as int, self.body()),
        row_idx <= self.rows@.len() <= 0x7fff_ffff_ffff, row_idx == self.from_row(it.index@ as int),
        self.lines_drawn(h2, w.out(), it.index@ as int),
//@at loop 5 start
    let ghost k = it.index@ as int;
    let ghost m0 = w.out();
//@at loop 6 before
    let ghost m1 = w.out();
    let ghost f0 = row_idx as int;
//@loop 6
    invariant_except_break
        row_idx <= self.rows@.len(), self.next_shown(row_idx as int) == self.next_shown(f0), w.out() == m1,
    invariant
        self.drawable(), self.rows@.len() <= 0x7fff_ffff_ffff, vbar.wf(), vbar.nude_char == '│', vbar.compound_style == self.skin.table.compound_style,
        k >= 0, f0 == self.from_row(k),
    ensures
        self.line_drawn(m1, w.out(), k), row_idx == self.from_row(k + 1), row_idx <= self.rows@.len(),
    decreases self.rows@.len() - row_idx,
//@loop 7 jt
    invariant
        self.drawable(), row_idx < self.rows@.len(), vbar.wf(), vbar.nude_char == '│', vbar.compound_style == self.skin.table.compound_style,
        selected == self.is_selected(row_idx as int),
        self.row_drawn(m1, w.out(), row_idx as int, jt.index@ as int),
//@at loop 7 start
    let ghost c = jt.index@ as int;
    let ghost q0 = w.out();
//@at after let cell 0
    let ghost q1 = w.out();
//@at loop 7 end
    proof {
        assert(q1 == self.before_cell(q0, row_idx as int, c));
        assert(cell == extracted(self.columns@[c].extract, self.rows@[row_idx as int].data));
        self.row_more(m1, q0, w.out(), row_idx as int, c);
    }
//@at loop 6 after
    let ghost c0 = w.out();
//@at loop 5 end
    proof {
        assert(self.line_drawn(m0.push(Out::Move(self.area.left as int, self.area.top + 1 + (k + 1))), c0, k));
        assert(self.bar_drawn(c0, w.out(), k));
    }
//@at body-end
    proof { assert(self.head_drawn(o0, h2)); }
//@endfn
// ------------------------------------------------------------ what's seen
// between a and b, no move nor clear, and these cells
pub open spec fn in_line(o: Out) -> bool { is_text(o) || o is Bg }
pub open spec fn put_cells(a: Seq<Out>, b: Seq<Out>, c: Seq<Cell>) -> bool {
    &&& a.len() <= b.len() && b.take(a.len() as int) == a
    &&& forall|i: int| a.len() <= i < b.len() ==> in_line(#[trigger] b[i])
    &&& cells(b.skip(a.len() as int)) == c
}
pub proof fn put_nothing(a: Seq<Out>)
    ensures put_cells(a, a, Seq::empty()),
{ wrote_nothing(a); }
pub proof fn put_one(a: Seq<Out>, b: Seq<Out>, o: Out, c: Seq<Cell>)
    requires put_cells(a, b, c), in_line(o),
    ensures put_cells(a, b.push(o), c + out_cells(o)),
{
    let d = b.push(o);
    assert(d.take(a.len() as int) =~= b.take(a.len() as int));
    assert(d.skip(a.len() as int) =~= b.skip(a.len() as int).push(o));
    assert(d.skip(a.len() as int).drop_last() =~= b.skip(a.len() as int));
}
pub proof fn put_then(a: Seq<Out>, b: Seq<Out>, d: Seq<Out>, c: Seq<Cell>, x: Seq<Cell>)
    requires put_cells(a, b, c), wrote(b, d, x),
    ensures put_cells(a, d, c + x),
{
    assert(d.take(a.len() as int) =~= d.take(b.len() as int).take(a.len() as int));
    assert(d.skip(a.len() as int) =~= b.skip(a.len() as int) + d.skip(b.len() as int));
    cells_add(b.skip(a.len() as int), d.skip(b.len() as int));
    assert forall|i: int| a.len() <= i < d.len() implies in_line(#[trigger] d[i]) by {
        if i < b.len() { assert(d[i] == d.take(b.len() as int)[i]); assert(in_line(b[i])); } else { assert(is_text(d[i])); }
    }
}
impl<'t, T> ListView<'t, T> {
    pub open spec fn row_cells(&self, r: int, k: int) -> Seq<Cell> decreases k {
        if k <= 0 { Seq::empty() } else { self.row_cells(r, k - 1) + self.sep(k - 1, '│') + self.cell_cells(r, k - 1) }
    }
    // a drawn row is made of its cells, in order, with separators
    pub proof fn row_seen(&self, a: Seq<Out>, b: Seq<Out>, r: int, k: int)
        requires 0 <= k, self.row_drawn(a, b, r, k),
        ensures put_cells(a, b, self.row_cells(r, k)),
        decreases k,
    {
        if k == 0 { put_nothing(a); } else {
            let m = choose|m: Seq<Out>| self.row_drawn(a, m, r, k - 1) && #[trigger] wrote(self.before_cell(m, r, k - 1), b, self.cell_cells(r, k - 1));
            self.row_seen(a, m, r, k - 1);
            let c = self.row_cells(r, k - 1);
            let o = Out::Bg(self.selection_background);
            let v = Out::Styled(self.skin.table.compound_style.object_style, seq!['│']);
            put_one(a, m, o, c);
            assert(c + out_cells(o) =~= c);
            put_one(a, m, v, c);
            put_one(a, m.push(o), v, c);
            assert(c + self.sep(0, '│') =~= c);
            put_then(a, self.before_cell(m, r, k - 1), b, c + self.sep(k - 1, '│'), self.cell_cells(r, k - 1));
        }
    }
    // one column chars
    pub open spec fn one_col(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> chw(#[trigger] s[i]) == 1 }
    pub open spec fn cells_narrow(&self, r: int) -> bool { forall|k: int| 0 <= k < self.columns@.len() ==> Self::one_col((#[trigger] extracted(self.columns@[k].extract, self.rows@[r].data)).con@) }
    pub open spec fn bars_narrow() -> bool { chw('│') == 1 && chw('┬') == 1 && chw('┼') == 1 && chw('─') == 1 }
    // the columns of the list, with their separators
    pub open spec fn total(&self, k: int) -> int { width_sum(self.columns@.take(k)) + if k > 0 { k - 1 } else { 0 } }
    pub proof fn total_more(&self, k: int)
        requires 0 <= k < self.columns@.len(),
        ensures self.total(k + 1) == self.total(k) + self.columns@[k].spacing.width + if k > 0 { 1int } else { 0 },
    { assert(self.columns@.take(k + 1).drop_last() =~= self.columns@.take(k)); }
    pub proof fn sep_cols(&self, k: int, c: char)
        requires chw(c) == 1,
        ensures cols(self.sep(k, c)) == if k > 0 { 1int } else { 0 },
    { cols_one(self.skin.table.compound_style.object_style, c); }
    // each column of a row is at the columns of its spacing
    pub proof fn row_cols(&self, r: int, k: int)
        requires 0 <= k <= self.columns@.len(), self.cells_narrow(r), Self::bars_narrow(),
        ensures cols(self.row_cells(r, k)) == self.total(k),
        decreases k,
    {
        if k > 0 {
            self.row_cols(r, k - 1);
            self.total_more(k - 1);
            self.sep_cols(k - 1, '│');
            let (p, s, x) = (self.row_cells(r, k - 1), self.sep(k - 1, '│'), self.cell_cells(r, k - 1));
            cols_add(p, s);
            cols_add(p + s, x);
            let c = extracted(self.columns@[k - 1].extract, self.rows@[r].data);
            assert(Self::one_col(c.con@));
            let st = if self.is_selected(r) { bg_set(*c.style, self.selection_background) } else { *c.style };
            fitted_cols(self.columns@[k - 1].spacing, c.con@);
            cols_styled(st.object_style, self.columns@[k - 1].spacing.fitted(c.con@, c.con@.len() as int));
        } else { assert(self.columns@.take(0) =~= Seq::<ListViewColumn<'t, T>>::empty()); }
    }
    // the columns of the titles before k
    pub open spec fn title_end(&self, k: int) -> int { if k <= 0 { 0 } else { self.titles@[k - 1].columns@[0] + self.titles@[k - 1].columns@.len() } }
    pub proof fn title_sum(&self, i: int, j: int)
        requires 0 <= i < self.titles@.len(), under(self.titles@[i], self.columns@, self.columns@.len() as int), 0 <= j <= self.titles@[i].columns@.len(),
        ensures under_width(self.columns@, self.titles@[i].columns@.take(j)) == width_sum(self.columns@.take(self.titles@[i].columns@[0] + j)) - width_sum(self.columns@.take(self.titles@[i].columns@[0] as int)),
        decreases j,
    {
        let ci = self.titles@[i].columns@;
        if j > 0 {
            self.title_sum(i, j - 1);
            assert(ci.take(j).drop_last() =~= ci.take(j - 1));
            assert(ci[j - 1] == ci[0] + (j - 1));
            assert(self.columns@.take(ci[0] + j).drop_last() =~= self.columns@.take(ci[0] + j - 1));
        }
    }
    // the titles and the line below are over the columns of the rows
    pub proof fn head_cols(&self, k: int)
        requires
            0 <= k <= self.titles@.len(), title_starts(self.titles@, self.columns@, self.columns@.len() as int), Self::bars_narrow(), self.drawable(),
            forall|i: int| 0 <= i < self.columns@.len() ==> Self::one_col((#[trigger] self.columns@[i]).title@),
        ensures cols(self.titles_row(k)) == self.total(self.title_end(k)), cols(self.rule_row(k)) == self.total(self.title_end(k)),
        decreases k,
    {
        if k > 0 {
            self.head_cols(k - 1);
            let t = self.titles@[k - 1];
            let ci = t.columns@;
            assert(under(t, self.columns@, self.columns@.len() as int));
            if k > 1 { assert(next_title(self.titles@[k - 2], t, self.columns@)); }
            assert(ci[0] == self.title_end(k - 1));
            if k > 1 { assert(under(self.titles@[k - 2], self.columns@, self.columns@.len() as int)); }
            self.title_sum(k - 1, ci.len() as int);
            assert(ci.take(ci.len() as int) =~= ci);
            under_pos(self.columns@, ci);
            // titles
            self.sep_cols(k - 1, '│');
            let (p, s, x) = (self.titles_row(k - 1), self.sep(k - 1, '│'), self.title_cells(k - 1));
            cols_add(p, s);
            cols_add(p + s, x);
            let name = self.name(ci[0] as int);
            assert(Self::one_col(self.columns@[ci[0] as int].title@));
            let sp = Spacing { width: self.title_width(k - 1) as usize, align: Alignment::Center };
            fitted_cols(sp, name);
            cols_styled(self.skin.headers[0].compound_style.object_style, sp.fitted(name, name.len() as int));
            // rule
            self.sep_cols(k - 1, '┼');
            let (p, s, x) = (self.rule_row(k - 1), self.sep(k - 1, '┼'), self.rule_under(k - 1, ci.len() as int));
            cols_add(p, s);
            cols_add(p + s, x);
            self.rule_cols(k - 1, ci.len() as int);
        } else { assert(self.columns@.take(0) =~= Seq::<ListViewColumn<'t, T>>::empty()); }
    }
    pub proof fn rule_cols(&self, i: int, j: int)
        requires 0 <= i < self.titles@.len(), 0 <= j <= self.titles@[i].columns@.len(), Self::bars_narrow(),
        ensures cols(self.rule_under(i, j)) == under_width(self.columns@, self.titles@[i].columns@.take(j)) + if j > 0 { j - 1 } else { 0 },
        decreases j,
    {
        let ci = self.titles@[i].columns@;
        if j > 0 {
            self.rule_cols(i, j - 1);
            self.sep_cols(j - 1, '┬');
            let st = self.skin.table.compound_style.object_style;
            let w = self.columns@[ci[j - 1] as int].spacing.width as int;
            let (p, s, x) = (self.rule_under(i, j - 1), self.sep(j - 1, '┬'), styled(st, rep('─', w)));
            cols_add(p, s);
            cols_add(p + s, x);
            cols_rep(st, '─', w);
            assert(ci.take(j).drop_last() =~= ci.take(j - 1));
        } else { assert(ci.take(0) =~= Seq::<usize>::empty()); }
    }
    // all lines have the columns of the list and their separators
    pub proof fn list_aligned(&self, r: int)
        requires
            title_starts(self.titles@, self.columns@, self.columns@.len() as int), Self::bars_narrow(), self.drawable(), self.columns@.len() > 0,
            forall|i: int| 0 <= i < self.columns@.len() ==> Self::one_col((#[trigger] self.columns@[i]).title@), self.cells_narrow(r),
        ensures
            cols(self.titles_row(self.titles@.len() as int)) == width_sum(self.columns@) + self.columns@.len() - 1,
            cols(self.rule_row(self.titles@.len() as int)) == width_sum(self.columns@) + self.columns@.len() - 1,
            cols(self.row_cells(r, self.columns@.len() as int)) == width_sum(self.columns@) + self.columns@.len() - 1,
    {
        let n = self.columns@.len() as int;
        assert(self.columns@.take(n) =~= self.columns@);
        self.head_cols(self.titles@.len() as int);
        self.row_cols(r, n);
    }
    // the rows of the lines: displayed ones, in order, without hole
    pub proof fn rows_in_order(&self, k: int)
        requires self.wf(), 0 <= k,
        ensures ({
            let (f, r) = (self.from_row(k), self.next_shown(self.from_row(k)));
            &&& 0 <= f <= r <= self.n()
            &&& r < self.n() ==> self.is_shown(r)
            &&& forall|i: int| f <= i < r ==> !self.is_shown(i)
            &&& k == 0 ==> f == self.scroll
            &&& k > 0 && f < self.n() ==> f == self.next_shown(self.from_row(k - 1)) + 1
        }),
        decreases k,
    {
        if k > 0 { self.rows_in_order(k - 1); }
        self.next_facts(self.from_row(k));
    }
}
}
