// computation of the widths of the columns of a table
verus! {
//@type src/fit/tbl_fit.rs ColData derive=Copy clone
//@type src/fit/tbl_fit.rs TblFit
//@type src/fit/tbl_fit.rs TblFitResult
//@type src/fit/tbl_fit.rs ColFit
pub open spec fn LIM() -> int { 0x8000_0000 }
pub open spec fn sumw(s: Seq<usize>) -> int decreases s.len() { if s.len() == 0 { 0 } else { sumw(s.drop_last()) + s.last() } }
impl ColData {
    pub open spec fn ok(&self) -> bool { 3 <= self.width < LIM() && self.sum_widths <= self.count * self.width && self.count <= LIM() }
    pub open spec fn with(&self, w: usize) -> ColData { ColData { sum_widths: (self.sum_widths + w) as usize, width: if self.width >= w { self.width } else { w }, count: (self.count + 1) as usize } }
}
impl TblFit {
    pub open spec fn natural(&self) -> Seq<usize> { self.cols@.map_values(|c: ColData| c.width) }
    pub open spec fn ok(&self) -> bool {
        &&& forall|i: int| 0 <= i < self.cols@.len() ==> (#[trigger] self.cols@[i]).ok()
        &&& self.available_sum_width >= 3 * self.cols@.len()
    }
}
//@fn src/fit/tbl_fit.rs div_ceil
//@ret res
//@spec
    requires r > 0, q < 0x7fff_ffff_ffff_ffff,
    ensures res == q as int / r as int + (if q as int % r as int != 0 { 1int } else { 0 }),
//@at body-start
    proof { assert(q as int / r as int <= q) by (nonlinear_arith) requires r > 0, q >= 0; }
//@endfn
//@fn src/fit/tbl_fit.rs <Default for ColData>::default
//@header impl ColData
//@ret r
//@spec
    ensures r.width == 3, r.count == 0, r.ok(),
//@endfn
//@fn src/fit/tbl_fit.rs ColData::avg_width
//@ret r
//@spec
    requires self.ok(),
    ensures r <= self.width,
//@at body-start
    proof {
        let (s, c, w) = (self.sum_widths as int, self.count as int, self.width as int);
        assert(s <= 0x4000_0000_0000_0000) by (nonlinear_arith) requires s <= c * w, 0 <= c <= 0x8000_0000, 0 <= w <= 0x8000_0000;
        if c > 0 { assert(s / c + (if s % c != 0 { 1int } else { 0 }) <= w) by (nonlinear_arith) requires 0 <= s <= c * w, c > 0; }
    }
//@endfn
//@fn src/fit/tbl_fit.rs ColData::see_cell
//@spec
    requires old(self).ok(), old(self).count < LIM(), cell_width < LIM(),
    ensures final(self).ok(), *final(self) == old(self).with(cell_width),
//@at body-start
    proof {
        let (s, c, w, w2) = (self.sum_widths as int, self.count as int, self.width as int, if self.width >= cell_width { self.width as int } else { cell_width as int });
        assert(s <= 0x4000_0000_0000_0000) by (nonlinear_arith) requires s <= c * w, 0 <= c <= 0x8000_0000, 0 <= w <= 0x8000_0000;
        assert(s + cell_width <= (c + 1) * w2) by (nonlinear_arith) requires s <= c * w, w <= w2, cell_width <= w2, c >= 0;
    }
//@endfn
//@fn src/fit/tbl_fit.rs TblFit::new
//@ret r
//@spec
    requires cols_count < LIM(),
    ensures
        r is Err <==> available_width < cols_count * 4 + 1,
        r matches Ok(f) ==> f.ok() && f.cols@.len() == cols_count && f.available_sum_width == available_width - 1 - cols_count
            && forall|i: int| 0 <= i < cols_count ==> (#[trigger] f.cols@[i]).width == 3 && f.cols@[i].count == 0,
//@endfn
//@fn src/fit/tbl_fit.rs TblFit::see_cell
//@spec
    requires old(self).ok(), cell_width < LIM(), col_idx < old(self).cols@.len(), old(self).cols@[col_idx as int].count < LIM(),
    ensures final(self).ok(), final(self).available_sum_width == old(self).available_sum_width,
        final(self).cols@ == old(self).cols@.update(col_idx as int, old(self).cols@[col_idx as int].with(cell_width)),
//@endfn
#[verifier::external_body]
pub fn vrt_sort_by_key<T>(v: &mut Vec<T>, Ghost(k): Ghost<spec_fn(T) -> int>)
    ensures final(v)@.to_multiset() == old(v)@.to_multiset(), forall|i: int, j: int| 0 <= i <= j < final(v)@.len() ==> k(final(v)@[i]) <= k(final(v)@[j]),
{ unimplemented!() }
pub proof fn sumw_push(s: Seq<usize>, w: usize)
    ensures sumw(s.push(w)) == sumw(s) + w,
{ assert(s.push(w).drop_last() =~= s); }
pub proof fn sumw_take(s: Seq<usize>, k: int)
    requires 0 <= k < s.len(),
    ensures sumw(s.take(k + 1)) == sumw(s.take(k)) + s[k],
{ assert(s.take(k + 1).drop_last() =~= s.take(k)); }
pub proof fn sumw_mono(s: Seq<usize>, i: int)
    requires 0 <= i <= s.len(),
    ensures 0 <= sumw(s.take(i)) <= sumw(s),
    decreases s.len() - i,
{
    if i == s.len() { assert(s.take(i) =~= s); sumw_pos(s); } else { sumw_mono(s, i + 1); sumw_take(s, i); }
    sumw_pos(s.take(i));
}
pub proof fn sumw_pos(s: Seq<usize>)
    ensures sumw(s) >= 0,
    decreases s.len(),
{ if s.len() > 0 { sumw_pos(s.drop_last()); } }
// at least 3 columns each
pub proof fn sumw_min(s: Seq<usize>)
    requires forall|i: int| 0 <= i < s.len() ==> s[i] >= 3,
    ensures sumw(s) >= 3 * s.len(),
    decreases s.len(),
{ if s.len() > 0 { sumw_min(s.drop_last()); } }
pub open spec fn ws(s: Seq<ColFit>) -> Seq<usize> { s.map_values(|c: ColFit| c.width) }
// sums don't depend on the order
pub proof fn sumw_remove(s: Seq<usize>, j: int)
    requires 0 <= j < s.len(),
    ensures sumw(s.remove(j)) == sumw(s) - s[j],
    decreases s.len(),
{
    if j == s.len() - 1 { assert(s.remove(j) =~= s.drop_last()); } else {
        sumw_remove(s.drop_last(), j);
        assert(s.remove(j).drop_last() =~= s.drop_last().remove(j));
    }
}
pub proof fn sumw_update(s: Seq<usize>, j: int, w: usize)
    requires 0 <= j < s.len(),
    ensures sumw(s.update(j, w)) == sumw(s) - s[j] + w,
    decreases s.len(),
{
    if j == s.len() - 1 { assert(s.update(j, w).drop_last() =~= s.drop_last()); } else {
        sumw_update(s.drop_last(), j, w);
        assert(s.update(j, w).drop_last() =~= s.drop_last().update(j, w));
    }
}
pub proof fn perm_sum(a: Seq<ColFit>, b: Seq<ColFit>)
    requires a.to_multiset() == b.to_multiset(),
    ensures sumw(ws(a)) == sumw(ws(b)), a.len() == b.len(),
    decreases a.len(),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(a.len() == a.to_multiset().len() && b.len() == b.to_multiset().len());
    if a.len() > 0 {
        let x = a.last();
        assert(a.to_multiset().contains(x)) by { assert(a.contains(x)); }
        assert(b.contains(x));
        let j = choose|j: int| 0 <= j < b.len() && b[j] == x;
        assert(a.drop_last() =~= a.remove(a.len() - 1));
        assert(a.remove(a.len() - 1).to_multiset() =~= a.to_multiset().remove(x));
        assert(b.remove(j).to_multiset() =~= b.to_multiset().remove(x));
        perm_sum(a.drop_last(), b.remove(j));
        sumw_remove(ws(b), j);
        assert(ws(b).remove(j) =~= ws(b.remove(j)));
        assert(ws(a).drop_last() =~= ws(a.drop_last()));
    }
}
// the columns are all there, once each
pub open spec fn distinct(s: Seq<ColFit>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).idx != (#[trigger] s[j]).idx }
pub open spec fn fit_ok(c: ColFit, cols: Seq<ColData>) -> bool { c.idx < cols.len() && c.std_width == cols[c.idx as int].width && c.avg_width <= c.std_width && 3 <= c.width <= c.std_width }
pub open spec fn fits_ok(s: Seq<ColFit>, cols: Seq<ColData>) -> bool { s.len() == cols.len() && distinct(s) && forall|i: int| 0 <= i < s.len() ==> fit_ok(#[trigger] s[i], cols) }
pub open spec fn uncut(s: Seq<ColFit>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).width == s[i].std_width }
pub proof fn perm_fits(a: Seq<ColFit>, b: Seq<ColFit>, cols: Seq<ColData>)
    requires a.to_multiset() == b.to_multiset(), fits_ok(a, cols),
    ensures fits_ok(b, cols), uncut(a) ==> uncut(b),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    perm_sum(a, b);
    assert(a.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < a.len() && i != j implies a[i] != a[j] by { if i < j { assert(a[i].idx != a[j].idx); } else { assert(a[j].idx != a[i].idx); } } }
    a.lemma_multiset_has_no_duplicates();
    b.lemma_multiset_has_no_duplicates_conv();
    assert forall|i: int| 0 <= i < b.len() implies a.contains(#[trigger] b[i]) by { assert(b.contains(b[i])); assert(b.to_multiset().contains(b[i])); }
    assert forall|i: int, j: int| 0 <= i < j < b.len() implies (#[trigger] b[i]).idx != (#[trigger] b[j]).idx by {
        assert(a.contains(b[i]) && a.contains(b[j]));
        let k = choose|k: int| 0 <= k < a.len() && a[k] == b[i];
        let l = choose|l: int| 0 <= l < a.len() && a[l] == b[j];
        assert(b[i] != b[j]);
        if k < l { assert(a[k].idx != a[l].idx); } else if l < k { assert(a[l].idx != a[k].idx); }
    }
    assert forall|i: int| 0 <= i < b.len() implies fit_ok(#[trigger] b[i], cols) by { assert(a.contains(b[i])); }
    if uncut(a) { assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]).width == b[i].std_width by { assert(a.contains(b[i])); } }
}
// sorted again by index: each column at its place
pub proof fn in_place(s: Seq<ColFit>, cols: Seq<ColData>, i: int)
    requires fits_ok(s, cols), forall|i: int, j: int| 0 <= i <= j < s.len() ==> (s[i].idx as int) <= (s[j].idx as int), 0 <= i < s.len(),
    ensures s[i].idx == i,
{ low(s, cols, i); high(s, cols, i); }
proof fn low(s: Seq<ColFit>, cols: Seq<ColData>, i: int)
    requires fits_ok(s, cols), forall|i: int, j: int| 0 <= i <= j < s.len() ==> (s[i].idx as int) <= (s[j].idx as int), 0 <= i < s.len(),
    ensures s[i].idx >= i,
    decreases i,
{ if i > 0 { low(s, cols, i - 1); assert(s[i - 1].idx != s[i].idx); } }
proof fn high(s: Seq<ColFit>, cols: Seq<ColData>, i: int)
    requires fits_ok(s, cols), forall|i: int, j: int| 0 <= i <= j < s.len() ==> (s[i].idx as int) <= (s[j].idx as int), 0 <= i < s.len(),
    ensures s[i].idx <= i,
    decreases s.len() - i,
{ assert(fit_ok(s[i], cols)); if i + 1 < s.len() { high(s, cols, i + 1); assert(s[i].idx != s[i + 1].idx); } }
pub open spec fn seen(s: Seq<ColFit>, cols: Seq<ColData>, k: int) -> bool {
    s.len() == k && forall|i: int| 0 <= i < k ==> (#[trigger] s[i]).idx == i && fit_ok(s[i], cols) && s[i].width == s[i].std_width
}
pub proof fn small_product(a: int, b: int)
    requires 0 <= a < LIM(), 0 <= b < LIM(),
    ensures 0 <= a * b < 0x4000_0000_0000_0000,
{ assert(0 <= a * b <= 0x7fff_ffff * 0x7fff_ffff) by (nonlinear_arith) requires 0 <= a <= 0x7fff_ffff, 0 <= b <= 0x7fff_ffff; }
pub proof fn exact_ratio(a: int, e: int)
    requires e > 0, a >= 0,
    ensures a * e / e == a, (a * e) % e == 0,
{ vstd::arithmetic::div_mod::lemma_div_multiples_vanish(a, e); vstd::arithmetic::div_mod::lemma_mod_multiples_basic(a, e); vstd::arithmetic::mul::lemma_mul_is_commutative(a, e); }
// one column made smaller
pub proof fn cut_col(s: Seq<ColFit>, t: Seq<ColFit>, cols: Seq<ColData>, j: int, g: int)
    requires fits_ok(s, cols), 0 <= j < s.len(), t.len() == s.len(), forall|i: int| 0 <= i < s.len() && i != j ==> t[i] == s[i], t[j] == (ColFit { width: t[j].width, ..s[j] }), t[j].width == s[j].width - g, 0 <= g <= s[j].width - 3,
    ensures fits_ok(t, cols), sumw(ws(t)) == sumw(ws(s)) - g,
{
    assert forall|i: int, k: int| 0 <= i < k < t.len() implies (#[trigger] t[i]).idx != (#[trigger] t[k]).idx by { assert(s[i].idx != s[k].idx); }
    assert forall|i: int| 0 <= i < t.len() implies fit_ok(#[trigger] t[i], cols) by { assert(fit_ok(s[i], cols)); }
    assert(ws(t) =~= ws(s).update(j, t[j].width));
    sumw_update(ws(s), j, t[j].width);
}
//@fn src/fit/tbl_fit.rs TblFit::fit
//@ret r
//@rule sum_type usize
//@rule sort_key ColFit
//@rule collect
//@rule iter_mut_index
//@spec
    requires self.ok(), sumw(self.natural()) < LIM(),
    ensures
        r.col_widths@.len() == self.cols@.len(), forall|i: int| 0 <= i < r.col_widths@.len() ==> r.col_widths@[i] >= 3,
        sumw(self.natural()) <= self.available_sum_width ==> r.col_widths@ == self.natural(),
        sumw(self.natural()) > self.available_sum_width ==> sumw(r.col_widths@) == self.available_sum_width,
        forall|i: int| 0 <= i < r.col_widths@.len() ==> r.col_widths@[i] <= self.natural()[i],
//@at body-start
    let ghost nt = self.natural();
    let ghost n = self.cols@.len() as int;
    proof {
        assert(nt.take(n) =~= nt);
        assert forall|i: int| 0 <= i < n implies nt[i] >= 3 by { assert(self.cols@[i].ok()); }
        sumw_min(nt); reveal_with_fuel(sumw, 2);
    }
//@loop 0 i0
    invariant
        i0.seq().len() == n, forall|i: int| 0 <= i < n ==> *i0.seq()[i] == self.cols@[i], n == self.cols@.len(), nt == self.natural(), sumw(nt) < LIM(),
        __acc1 == sumw(nt.take(i0.index@ as int)),
//@at loop 0 start
    proof { sumw_take(nt, i0.index@ as int); sumw_mono(nt, i0.index@ as int + 1); }
//@loop 1 i1
    invariant
        i1.seq().len() == n, forall|i: int| 0 <= i < n ==> *i1.seq()[i] == self.cols@[i], n == self.cols@.len(), nt == self.natural(),
        __acc4@ == nt.take(i1.index@ as int),
//@at loop 1 end
    proof { assert(nt.take(i1.index@ as int + 1) =~= nt.take(i1.index@ as int).push(nt[i1.index@ as int])); }
//@loop 2 i2
    invariant
        n == self.cols@.len(), self.ok(), seen(__acc7@, self.cols@, i2.index@ as int),

//@at loop 2 start
    proof { assert(self.cols@[i2.index@ as int].ok()); }
//@at after let fits
    let ghost f0 = fits@;
    proof {
        assert(ws(f0) =~= nt) by { assert forall|i: int| 0 <= i < n implies ws(f0)[i] == nt[i] by { assert(fit_ok(f0[i], self.cols@)); } }
        assert(fits_ok(f0, self.cols@) && uncut(f0));
    }
//@at before let potential_uncut_gain_1
    let ghost f1 = fits@;
    proof { perm_fits(f0, f1, self.cols@); perm_sum(f0, f1); }
//@loop 3 i3
    invariant
        i3.seq().len() == n, forall|i: int| 0 <= i < n ==> *i3.seq()[i] == self.cols@[i], n == self.cols@.len(), nt == self.natural(),
        __acc10@ == nt.take(i3.index@ as int),
//@at loop 3 end
    proof { assert(nt.take(i3.index@ as int + 1) =~= nt.take(i3.index@ as int).push(nt[i3.index@ as int])); }
//@loop 4 i4
    invariant
        i4.seq().len() == n, forall|i: int| 0 <= i < n ==> *i4.seq()[i] == f1[i], fits_ok(f1, self.cols@), n == self.cols@.len(), 3 * n < LIM(), self.ok(),
        0 <= __acc13 <= 4 * i4.index@,
//@at loop 4 start
    proof { assert(fit_ok(f1[i4.index@ as int], self.cols@)); assert(self.cols@[f1[i4.index@ as int].idx as int].ok()); }
//@loop 5
    invariant
        __hi18 == n, n == self.cols@.len(), fits_ok(fits@, self.cols@), fits_ok(f1, self.cols@), uncut(f1), sumw(ws(fits@)) == self.available_sum_width + excess,
        forall|i: int| __i16 <= i < n ==> fits@[i] == f1[i], 0 < potential_cut_gain_1 < LIM(), potential_uncut_gain_1 > 0, excess < LIM(), sumw(ws(f1)) < LIM(), sumw(ws(fits@)) <= sumw(ws(f1)),
//@at loop 5 start
    let ghost g0 = fits@;
    let ghost e0 = excess;
    proof {
        let j = __i16 as int;
        assert(fit_ok(g0[j], self.cols@)); assert(g0[j] == f1[j]); assert(f1[j].width == f1[j].std_width);
        sumw_mono(ws(f1), j + 1); sumw_take(ws(f1), j); sumw_pos(ws(f1).take(j));
        small_product(g0[j].width - g0[j].avg_width, potential_cut_gain_1 as int);
    }
//@at loop 5 end
    proof { if excess >= e0 { assert(fits@ =~= g0); } }
//@at after assign excess 0
    proof { cut_col(g0, fits@, self.cols@, __i16 as int, e0 - excess); }
//@loop 6 i6
    invariant
        i6.seq().len() == n, forall|i: int| 0 <= i < n ==> *i6.seq()[i] == fits@[i], fits_ok(fits@, self.cols@), n == self.cols@.len(),
        __acc19 == sumw(ws(fits@).take(i6.index@ as int)) - 3 * i6.index@, sumw(ws(fits@)) < LIM(),
//@at loop 6 start
    proof { assert(fit_ok(fits@[i6.index@ as int], self.cols@)); sumw_take(ws(fits@), i6.index@ as int); sumw_mono(ws(fits@), i6.index@ as int + 1); }
//@at before let potential_total_gain_2
    proof { assert(ws(fits@).take(n) =~= ws(fits@)); }
//@loop 7
    invariant_except_break
        sumw(ws(fits@)) - sumw(ws(fits@).take(__i21 as int)) - 3 * (n - __i21) >= excess,
        excess > 0,
    invariant
        ws(fits@).take(n) == ws(fits@), __hi23 == n, n == self.cols@.len(), fits_ok(fits@, self.cols@), sumw(ws(fits@)) == self.available_sum_width + excess, sumw(ws(fits@)) < LIM(),
        excess_before_2 == potential_total_gain_2, excess <= excess_before_2 < LIM(), excess_before_2 > 0,
    ensures excess == 0,
//@at loop 7 start
    let ghost g0 = fits@;
    let ghost e0 = excess;
    let ghost j = __i21 as int;
    proof {
        assert(fit_ok(g0[j], self.cols@));
        sumw_mono(ws(g0), j + 1); sumw_take(ws(g0), j); sumw_pos(ws(g0).take(j));
        small_product(g0[j].width - 3, excess_before_2 as int);
        exact_ratio(g0[j].width - 3, excess_before_2 as int);
    }
//@at loop 7 end
    proof { assert(ws(fits@).take(n) =~= ws(fits@)); }
//@at after assign excess 1
    proof {
        cut_col(g0, fits@, self.cols@, j, e0 - excess);
        assert(ws(fits@).take(j) =~= ws(g0).take(j));
        sumw_take(ws(fits@), j);
    }
//@loop 8 i8
    invariant
        i8.seq().len() == n, forall|i: int| 0 <= i < n ==> *i8.seq()[i] == f3[i], n == f3.len(),
        __acc24@ == ws(f3).take(i8.index@ as int),
//@at loop 8 end
    proof { assert(ws(f3).take(i8.index@ as int + 1) =~= ws(f3).take(i8.index@ as int).push(ws(f3)[i8.index@ as int])); }
//@at after call vrt_sort_by_key 1
    let ghost f3 = fits@;
    proof {
        perm_fits(f2, f3, self.cols@); perm_sum(f2, f3);
        assert forall|i: int| 0 <= i < n implies ws(f3)[i] >= 3 && ws(f3)[i] <= nt[i] by { in_place(f3, self.cols@, i); assert(fit_ok(f3[i], self.cols@)); }
        assert(ws(f3).take(n) =~= ws(f3));
    }
//@at before call vrt_sort_by_key 1
    let ghost f2 = fits@;
//@endfn
}
