verus! {
// the boxed closures of a list: pure total functions of the row
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct VrtFilter<T> { _p: core::marker::PhantomData<T> }
pub uninterp spec fn accepts<T>(f: VrtFilter<T>, t: T) -> bool;
impl<T> VrtFilter<T> {
    #[verifier::external_body]
    pub fn vrt_apply1(&self, t: &T) -> (r: bool) ensures r == accepts(*self, *t) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct VrtOrder<T> { _p: core::marker::PhantomData<T> }
pub uninterp spec fn compared<T>(f: VrtOrder<T>, a: T, b: T) -> core::cmp::Ordering;
impl<T> VrtOrder<T> {
    #[verifier::external_body]
    pub fn vrt_apply2(&self, a: &T, b: &T) -> (r: core::cmp::Ordering) ensures r == compared(*self, *a, *b) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct VrtExtract<'t, T> { _p: core::marker::PhantomData<&'t T> }

//@type src/views/list_view.rs Title
//@type src/views/list_view.rs ListViewColumn retype=extract:VrtExtract<'t,T>
//@type src/views/list_view.rs Row
//@type src/views/list_view.rs ListView retype=filter:Option<VrtFilter<T>>;row_order:Option<VrtOrder<T>>

// ------------------------------------------------------------------ the invariant
pub open spec fn shown_count<T>(rows: Seq<Row<T>>) -> nat
    decreases rows.len(),
{
    if rows.len() == 0 { 0 } else { shown_count(rows.drop_last()) + if rows.last().displayed { 1nat } else { 0 } }
}
pub open spec fn accepted<T>(f: Option<VrtFilter<T>>, t: T) -> bool {
    match f { Some(f) => accepts(f, t), None => true }
}
pub open spec fn filtered<T>(f: Option<VrtFilter<T>>, rows: Seq<Row<T>>) -> bool {
    forall|i: int| 0 <= i < rows.len() ==> (#[trigger] rows[i]).displayed == accepted(f, rows[i].data)
}
pub proof fn shown_bound<T>(rows: Seq<Row<T>>)
    ensures shown_count(rows) <= rows.len(),
    decreases rows.len(),
{ if rows.len() > 0 { shown_bound(rows.drop_last()); } }
pub proof fn shown_none<T>(rows: Seq<Row<T>>)
    ensures shown_count(rows) == 0 <==> (forall|i: int| 0 <= i < rows.len() ==> !(#[trigger] rows[i]).displayed),
    decreases rows.len(),
{
    if rows.len() > 0 {
        shown_none(rows.drop_last());
        if forall|i: int| 0 <= i < rows.len() ==> !(#[trigger] rows[i]).displayed {
            assert forall|i: int| 0 <= i < rows.len() - 1 implies !(#[trigger] rows.drop_last()[i]).displayed by { assert(rows.drop_last()[i] == rows[i]); }
        }
        if shown_count(rows) == 0 {
            assert forall|i: int| 0 <= i < rows.len() implies !(#[trigger] rows[i]).displayed by {
                if i < rows.len() - 1 { assert(rows.drop_last()[i] == rows[i]); }
            }
        }
    }
}
pub proof fn shown_all<T>(rows: Seq<Row<T>>)
    ensures shown_count(rows) == rows.len() <==> (forall|i: int| 0 <= i < rows.len() ==> (#[trigger] rows[i]).displayed),
    decreases rows.len(),
{
    shown_bound(rows);
    if rows.len() > 0 {
        shown_bound(rows.drop_last());
        shown_all(rows.drop_last());
        if forall|i: int| 0 <= i < rows.len() ==> (#[trigger] rows[i]).displayed {
            assert forall|i: int| 0 <= i < rows.len() - 1 implies (#[trigger] rows.drop_last()[i]).displayed by { assert(rows.drop_last()[i] == rows[i]); }
        }
        if shown_count(rows) == rows.len() {
            assert forall|i: int| 0 <= i < rows.len() implies (#[trigger] rows[i]).displayed by {
                if i < rows.len() - 1 { assert(rows.drop_last()[i] == rows[i]); }
            }
        }
    }
}
// the count doesn't depend on the order of the rows
pub proof fn shown_order<T>(a: Seq<Row<T>>, b: Seq<Row<T>>)
    requires a.to_multiset() == b.to_multiset(),
    ensures shown_count(a) == shown_count(b), a.len() == b.len(),
    decreases a.len(),
{
    a.to_multiset_ensures();
    b.to_multiset_ensures();
    if a.len() > 0 {
        let x = a.last();
        assert(a.to_multiset().count(x) > 0);
        assert(b.contains(x));
        let k = b.index_of(x);
        assert(b[k] == x);
        let b1 = b.remove(k);
        assert(a.remove(a.len() - 1) =~= a.drop_last());
        shown_order(a.drop_last(), b1);
        shown_remove(b, k);
    }
}
pub proof fn shown_remove<T>(b: Seq<Row<T>>, k: int)
    requires 0 <= k < b.len(),
    ensures shown_count(b) == shown_count(b.remove(k)) + if b[k].displayed { 1nat } else { 0 },
    decreases b.len(),
{
    let c = b.remove(k);
    if k == b.len() - 1 { assert(c =~= b.drop_last()); }
    else {
        shown_remove(b.drop_last(), k);
        assert(c.drop_last() =~= b.drop_last().remove(k));
        assert(c.last() == b.last());
    }
}
pub proof fn filtered_order<T>(f: Option<VrtFilter<T>>, a: Seq<Row<T>>, b: Seq<Row<T>>)
    requires a.to_multiset() == b.to_multiset(), filtered(f, a),
    ensures filtered(f, b),
{
    a.to_multiset_ensures();
    b.to_multiset_ensures();
    assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]).displayed == accepted(f, b[i].data) by {
        assert(b.contains(b[i]));
        assert(a.to_multiset().count(b[i]) > 0);
        assert(a.contains(b[i]));
    }
}
// sort_by: a permutation (the comparator being a total order)
pub trait VrtSort<T>: Sized {
    spec fn vrt_seq(&self) -> Seq<T>;
    fn vrt_sort_by<F: Fn(&T, &T) -> core::cmp::Ordering>(&mut self, f: F)
        requires forall|a: &T, b: &T| f.requires((a, b)),
        ensures final(self).vrt_seq().to_multiset() == old(self).vrt_seq().to_multiset();
}
impl<T> VrtSort<T> for Vec<T> {
    open spec fn vrt_seq(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vrt_sort_by<F: Fn(&T, &T) -> core::cmp::Ordering>(&mut self, f: F) { unimplemented!() }
}
// the columns of the titles are columns of the list
pub open spec fn title_in(t: Title, n: int) -> bool { t.columns@.len() > 0 && forall|j: int| 0 <= j < t.columns@.len() ==> (#[trigger] t.columns@[j]) < n }
pub open spec fn titles_in(t: Seq<Title>, n: int) -> bool { forall|i: int| 0 <= i < t.len() ==> #[trigger] title_in(t[i], n) }
impl<'t, T> ListView<'t, T> {
    pub open spec fn n(&self) -> int { self.rows@.len() as int }
    pub open spec fn body(&self) -> int { if self.area.height > 2 { self.area.height - 2 } else { self.area.height as int } }
    // the clauses of C15 about counts, selection and scroll
    pub open spec fn wf(&self) -> bool {
        &&& self.area.height >= 1
        &&& self.displayed_rows_count == shown_count(self.rows@)
        &&& filtered(self.filter, self.rows@)
        &&& (self.selection matches Some(i) ==> i < self.rows@.len())
        &&& self.scroll <= self.rows@.len()
        &&& titles_in(self.titles@, self.columns@.len() as int)
    }
    // nothing but the scroll and the selection changed
    pub open spec fn same_rows(&self, o: &Self) -> bool {
        self.rows == o.rows && self.area == o.area && self.filter == o.filter && self.displayed_rows_count == o.displayed_rows_count
        && self.columns == o.columns && self.row_order == o.row_order && self.titles == o.titles
    }
    // the selected row is among the shown ones, when no row is filtered out and
    // at least 3 but not all can be shown
    pub open spec fn sel_shown(&self) -> bool {
        self.displayed_rows_count == self.n() && 3 <= self.body() < self.n() ==>
            (self.selection matches Some(i) ==> self.scroll <= i < self.scroll + self.body())
    }
    pub open spec fn is_shown(&self, i: int) -> bool { 0 <= i < self.n() && self.rows@[i].displayed }
}

//@fn src/views/list_view.rs ListView::tbody_height
//@ret r
//@spec
    ensures r as int == self.body(),
//@endfn
//@fn src/views/list_view.rs ListView::scrollbar
//@ret r
//@spec
    requires self.wf(), self.n() <= 0x7fff_ffff_ffff, self.area.top as int + self.area.height as int <= 0xffff,
    ensures thumb_ok(self.scroll as int, shown_count(self.rows@) as int, self.body(), self.area.top as int, r),
        r matches Some((a, b)) ==> a as int == self.area.top + thumb_top(self.scroll as int, shown_count(self.rows@) as int, self.body())
            && b as int == self.area.top + thumb_bottom(self.scroll as int, shown_count(self.rows@) as int, self.body()),
//@at body-start
    proof { shown_bound(self.rows@); }
//@endfn
//@fn src/views/list_view.rs ListView::sort
//@sig (&mut self, sort: VrtOrder<T>)
//@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).row_order == Some(sort), final(self).rows == old(self).rows,
        final(self).titles == old(self).titles, final(self).columns == old(self).columns,
//@endfn
//@fn src/views/list_view.rs ListView::row_counts
//@ret r
//@spec
    requires self.wf(),
    ensures r.0 == shown_count(self.rows@), r.1 as int == self.n(),
//@endfn
//@fn src/views/list_view.rs ListView::do_scroll_show_bottom
//@ret r
//@spec
    requires self.wf(),
    ensures r == (self.scroll + self.body() >= self.displayed_rows_count),
//@at body-start
    proof { vrt_vec_len(&self.rows); }
//@endfn
//@fn src/views/list_view.rs ListView::scroll_to_bottom
//@spec
    ensures
        final(self).same_rows(old(self)), final(self).selection == old(self).selection,
        final(self).scroll as int == if old(self).displayed_rows_count > old(self).body() { old(self).displayed_rows_count - old(self).body() } else { 0 },
//@endfn
//@fn src/views/list_view.rs ListView::add_row
//@rule callvars
//@rule method sort_by vrt_sort_by
//@spec
    requires old(self).wf(),
    ensures
        old(self).row_order is None ==> final(self).rows@ == old(self).rows@.push(Row { data, displayed: accepted(old(self).filter, data) }),
        final(self).row_order == old(self).row_order,
        final(self).titles == old(self).titles, final(self).columns == old(self).columns,
        final(self).wf(), final(self).area == old(self).area, final(self).filter == old(self).filter, final(self).selection == old(self).selection,
        final(self).rows@.to_multiset() == old(self).rows@.push(Row { data, displayed: accepted(old(self).filter, data) }).to_multiset(),
//@at body-start
    proof { vrt_vec_len(&self.rows); shown_bound(self.rows@); }
    let ghost pushed = self.rows@.push(Row { data, displayed: accepted(self.filter, data) });
    proof {
        assert(pushed.drop_last() =~= self.rows@);
        shown_bound(pushed);
    }
//@at body-end
    proof {
        shown_order(pushed, self.rows@);
        filtered_order(self.filter, pushed, self.rows@);
    }
//@endfn
//@fn src/views/list_view.rs ListView::clear_rows
//@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).rows@.len() == 0, final(self).selection.is_none(), final(self).filter == old(self).filter,
        final(self).titles == old(self).titles, final(self).columns == old(self).columns,
        final(self).area == old(self).area, final(self).row_order == old(self).row_order, final(self).columns == old(self).columns,
//@endfn
//@fn src/views/list_view.rs ListView::make_selection_visible
//@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).same_rows(old(self)), final(self).selection == old(self).selection, final(self).sel_shown(),
        old(self).selection.is_none() ==> final(self).scroll == old(self).scroll,
//@at body-start
    proof { vrt_vec_len(&self.rows); shown_bound(self.rows@); }
//@endfn
//@fn src/views/list_view.rs ListView::try_scroll_lines
//@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).same_rows(old(self)), final(self).selection == old(self).selection, final(self).sel_shown(),
        // by the asked amount when there's no selection to keep visible
        old(self).selection.is_none() && lines_count < 0 ==>
            final(self).scroll as int == if old(self).scroll + lines_count < 0 { 0int } else { old(self).scroll + lines_count },
        old(self).selection.is_none() && lines_count >= 0 ==> final(self).scroll <= old(self).scroll + lines_count,
//@at body-start
    proof { vrt_vec_len(&self.rows); shown_bound(self.rows@); }
//@endfn
//@fn src/views/list_view.rs ListView::try_scroll_pages
//@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).same_rows(old(self)), final(self).selection == old(self).selection, final(self).sel_shown(),
//@endfn
//@fn src/views/list_view.rs ListView::unselect
//@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).same_rows(old(self)), final(self).selection.is_none(), final(self).scroll == old(self).scroll,
//@endfn
//@fn src/views/list_view.rs ListView::has_selection
//@ret r
//@spec
    ensures r == self.selection.is_some(),
//@endfn
//@fn src/views/list_view.rs ListView::get_selection
//@rule opt_map
//@ret r
//@spec
    requires self.wf(),
    ensures r.is_some() == self.selection.is_some(),
        self.selection matches Some(i) ==> r == Some(&self.rows@[i as int].data),
//@endfn

//@fn src/views/list_view.rs ListView::set_filter
//@sig (&mut self, filter: VrtFilter<T>)
//@rule callvars
//@rule iter_mut_index
//@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).filter == Some(filter), final(self).selection == old(self).selection, final(self).area == old(self).area,
        final(self).titles == old(self).titles, final(self).columns == old(self).columns,
        final(self).scroll == 0,
        final(self).rows@.len() == old(self).rows@.len(),
        forall|i: int| 0 <= i < final(self).rows@.len() ==> (#[trigger] final(self).rows@[i]).data == old(self).rows@[i].data,
//@at body-start
    proof { vrt_vec_len(&self.rows); }
//@loop 0
    invariant
        self.area == old(self).area, self.selection == old(self).selection, self.scroll == old(self).scroll,
        self.titles == old(self).titles, self.columns == old(self).columns,
        self.rows@.len() == old(self).rows@.len(), __hi2 == self.rows@.len(),
        self.rows@.len() <= 0x7fff_ffff_ffff_ffff,
        forall|i: int| 0 <= i < self.rows@.len() ==> (#[trigger] self.rows@[i]).data == old(self).rows@[i].data,
        forall|i: int| 0 <= i < __i0 ==> (#[trigger] self.rows@[i]).displayed == accepts(filter, self.rows@[i].data),
        count <= __i0,
        count == shown_count(self.rows@.take(__i0 as int)),
//@at loop 0 end
    proof {
        let t = self.rows@.take(__i0 as int + 1);
        assert(self.rows@.len() == was.len());
        assert forall|k: int| 0 <= k < __i0 implies self.rows@[k] == was[k] by {}
        assert(t.drop_last() =~= was.take(__i0 as int));
        assert(t.last() == self.rows@[__i0 as int]);
    }
//@at loop 0 start
    let ghost was = self.rows@;
//@at loop 0 after
    proof { assert(self.rows@.take(self.rows@.len() as int) =~= self.rows@); }
//@endfn
//@fn src/views/list_view.rs ListView::remove_filter
//@rule iter_mut_index
//@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).filter.is_none(), final(self).selection == old(self).selection, final(self).area == old(self).area,
        final(self).titles == old(self).titles, final(self).columns == old(self).columns,
        final(self).rows@.len() == old(self).rows@.len(),
        forall|i: int| 0 <= i < final(self).rows@.len() ==> (#[trigger] final(self).rows@[i]).data == old(self).rows@[i].data,
//@loop 0
    invariant
        self.area == old(self).area, self.selection == old(self).selection, self.scroll == old(self).scroll,
        self.titles == old(self).titles, self.columns == old(self).columns,
        self.rows@.len() == old(self).rows@.len(), __hi2 == self.rows@.len(),
        forall|i: int| 0 <= i < self.rows@.len() ==> (#[trigger] self.rows@[i]).data == old(self).rows@[i].data,
        forall|i: int| 0 <= i < __i0 ==> (#[trigger] self.rows@[i]).displayed,
//@at loop 0 after
    proof { shown_all(self.rows@); }
//@endfn
// the row found from a start in a direction: the first displayed one
pub open spec fn probe(s: int, k: int, up: bool, n: int) -> int { if up { (s + n - 1 - k) % n } else { (s + 1 + k) % n } }
impl<'t, T> ListView<'t, T> {
    pub open spec fn nearest(&self, s: int, up: bool, k: int) -> bool {
        0 <= k < self.n() && self.is_shown(probe(s, k, up, self.n()))
        && forall|j: int| 0 <= j < k ==> !self.is_shown(#[trigger] probe(s, j, up, self.n()))
    }
}
pub proof fn probe_covers(s: int, up: bool, n: int, x: int)
    requires 0 <= s < n, 0 <= x < n,
    ensures exists|k: int| 0 <= k < n && #[trigger] probe(s, k, up, n) == x,
{
    if up {
        let k = (s - 1 - x) % n;
        let k = if s - 1 - x >= 0 { s - 1 - x } else { s - 1 - x + n };
        if s - 1 - x >= 0 {
            assert(s + n - 1 - k == x + n);
            assert((x + n) % n == x) by (nonlinear_arith) requires 0 <= x < n;
        } else {
            assert(s + n - 1 - k == x);
            assert(x % n == x) by (nonlinear_arith) requires 0 <= x < n;
        }
        assert(probe(s, k, up, n) == x);
    } else {
        let k = if x - s - 1 >= 0 { x - s - 1 } else { x - s - 1 + n };
        if x - s - 1 >= 0 {
            assert(s + 1 + k == x);
            assert(x % n == x) by (nonlinear_arith) requires 0 <= x < n;
        } else {
            assert(s + 1 + k == x + n);
            assert((x + n) % n == x) by (nonlinear_arith) requires 0 <= x < n;
        }
        assert(probe(s, k, up, n) == x);
    }
}
//@fn src/views/list_view.rs ListView::try_select_next
//@attrs
#[verifier::loop_isolation(false)]
//@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).same_rows(old(self)),
        shown_count(old(self).rows@) == 0 ==> final(self).selection == old(self).selection && final(self).scroll == old(self).scroll,
        shown_count(old(self).rows@) > 0 ==> final(self).sel_shown()
            && (final(self).selection matches Some(j) && old(self).is_shown(j as int)),
        shown_count(old(self).rows@) > 1 ==> (old(self).selection matches Some(s) ==>
            exists|k: int| old(self).nearest(s as int, up, k) && final(self).selection == Some(probe(s as int, k, up, old(self).n()) as usize)),
//@at body-start
    proof { vrt_vec_len(&self.rows); shown_bound(self.rows@); shown_none(self.rows@); }
//@loop 0 it
    invariant
        *self == *old(self), self.wf(), self.rows@.len() <= 0x7fff_ffff_ffff_ffff,
        forall|k: int| 0 <= k < i ==> !self.is_shown(#[trigger] ((k + self.scroll as int) % self.n())),
//@at loop 0 after
    proof {
        // one displayed row would have been found
        assert forall|x: int| 0 <= x < self.n() implies !(#[trigger] self.rows@[x]).displayed by {
            let n = self.n();
            let s = self.scroll as int;
            let k = if x - s >= 0 { x - s } else { x - s + n };
            if x - s >= 0 { assert(x % n == x) by (nonlinear_arith) requires 0 <= x < n; }
            else { assert((x + n) % n == x) by (nonlinear_arith) requires 0 <= x < n; }
            assert((k + s) % n == x);
            if k < n { assert(!self.is_shown((k + s) % n)); }
            else { assert(k == n && s == 0); }
        }
        assert(false);
    }
//@loop 1
    invariant
        *self == *old(self), self.wf(), self.rows@.len() <= 0x7fff_ffff_ffff_ffff, self.selection.is_some(),
        forall|k: int| 0 <= k < i ==> !self.is_shown(#[trigger] probe(self.selection.unwrap() as int, k, up, self.n())),
//@at loop 1 start
    proof { 
        let s = self.selection.unwrap() as int;
        assert(self.n() - 1 - i + s == s + self.n() - 1 - i);
    }
//@at before call make_selection_visible 1
    proof { 
        let s = old(self).selection.unwrap() as int;
        assert(row_idx == probe(s, i as int, up, old(self).n()));
        assert(old(self).is_shown(row_idx as int));
        assert(old(self).nearest(s, up, i as int));
    }
//@at loop 1 after
    proof {
        assert forall|x: int| 0 <= x < self.n() implies !(#[trigger] self.rows@[x]).displayed by {
            probe_covers(self.selection.unwrap() as int, up, self.n(), x);
        }
        assert(false);
    }
//@endfn
//@fn src/views/list_view.rs ListView::select_first_line
//@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).same_rows(old(self)), final(self).sel_shown(),
        match final(self).selection {
            Some(j) => old(self).is_shown(j as int) && forall|i: int| 0 <= i < j ==> !old(self).is_shown(i),
            None => shown_count(old(self).rows@) == 0,
        },
//@loop 0
    invariant *self == *old(self), self.wf(), forall|k: int| 0 <= k < i ==> !self.is_shown(k),
//@at loop 0 after
    proof { 
        assert forall|x: int| 0 <= x < self.n() implies !(#[trigger] self.rows@[x]).displayed by { assert(!self.is_shown(x)); }
        shown_none(self.rows@);
    }
//@endfn
//@fn src/views/list_view.rs ListView::select_last_line
//@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).same_rows(old(self)), final(self).sel_shown(),
        match final(self).selection {
            Some(j) => old(self).is_shown(j as int) && forall|i: int| j < i < old(self).n() ==> !old(self).is_shown(i),
            None => shown_count(old(self).rows@) == 0,
        },
//@loop 0
    invariant *self == *old(self), self.wf(), __lo1 == 0, __k2 <= self.rows@.len(), forall|k: int| __k2 <= k < self.n() ==> !self.is_shown(k),
    decreases __k2,
//@at loop 0 after
    proof { 
        assert forall|x: int| 0 <= x < self.n() implies !(#[trigger] self.rows@[x]).displayed by { assert(!self.is_shown(x)); }
        shown_none(self.rows@);
    }
//@endfn
pub open spec fn min_sum<'t, T>(c: Seq<ListViewColumn<'t, T>>) -> int
    decreases c.len(),
{ if c.len() == 0 { 0 } else { min_sum(c.drop_last()) + c.last().min_width as int } }
pub open spec fn width_sum<'t, T>(c: Seq<ListViewColumn<'t, T>>) -> int
    decreases c.len(),
{ if c.len() == 0 { 0 } else { width_sum(c.drop_last()) + c.last().spacing.width as int } }
pub proof fn min_sum_mono<'t, T>(c: Seq<ListViewColumn<'t, T>>, k: int)
    requires 0 <= k <= c.len(),
    ensures 0 <= min_sum(c.take(k)) <= min_sum(c),
        k < c.len() ==> min_sum(c.take(k + 1)) == min_sum(c.take(k)) + c[k].min_width,
    decreases c.len() - k,
{
    if k < c.len() {
        assert(c.take(k + 1).drop_last() =~= c.take(k));
        min_sum_mono(c, k + 1);
        min_sum_pos(c.take(k));
    } else {
        assert(c.take(k) =~= c);
        min_sum_pos(c);
    }
}
pub proof fn min_sum_pos<'t, T>(c: Seq<ListViewColumn<'t, T>>)
    ensures 0 <= min_sum(c),
    decreases c.len(),
{ if c.len() > 0 { min_sum_pos(c.drop_last()); } }
pub open spec fn same_col<'t, T>(a: ListViewColumn<'t, T>, b: ListViewColumn<'t, T>) -> bool {
    a.min_width == b.min_width && a.max_width == b.max_width && a.title == b.title && a.extract == b.extract
    && a.spacing.align == b.spacing.align
}
//@fn src/views/list_view.rs ListView::update_dimensions
//@rule sum_type i32
//@rule call i32::from vrt_i32_from_u16
//@spec
    requires
        old(self).wf(), old(self).columns@.len() < 0x1000_0000,
        forall|i: int| 0 <= i < old(self).columns@.len() ==> (#[trigger] old(self).columns@[i]).min_width <= old(self).columns@[i].max_width,
        min_sum(old(self).columns@) < 0x4000_0000,
    ensures
        final(self).titles == old(self).titles,
        final(self).wf(), final(self).rows == old(self).rows, final(self).selection == old(self).selection, final(self).scroll == old(self).scroll,
        final(self).area == old(self).area, final(self).filter == old(self).filter,
        final(self).columns@.len() == old(self).columns@.len(),
        forall|i: int| 0 <= i < old(self).columns@.len() ==> same_col(#[trigger] final(self).columns@[i], old(self).columns@[i]),
        // with the separators and the scrollbar, when there's room for the minimal widths
        min_sum(old(self).columns@) + old(self).columns@.len() <= old(self).area.width ==>
            width_sum(final(self).columns@) + old(self).columns@.len() <= old(self).area.width
            && forall|i: int| 0 <= i < old(self).columns@.len() ==>
                (#[trigger] final(self).columns@[i]).min_width <= final(self).columns@[i].spacing.width <= final(self).columns@[i].max_width,
//@loop 0 it
    invariant
        *self == *old(self), min_sum(self.columns@) < 0x4000_0000,
        __acc1 == min_sum(self.columns@.take(it.index@ as int)),
        it.seq().len() == self.columns@.len(), 
        forall|i: int| 0 <= i < self.columns@.len() ==> *(#[trigger] it.seq()[i]) == self.columns@[i],
//@at loop 0 start
    proof { min_sum_mono(self.columns@, it.index@ as int); min_sum_mono(self.columns@, it.index@ as int + 1); }
//@at loop 0 after
    proof { assert(self.columns@.take(self.columns@.len() as int) =~= self.columns@); min_sum_pos(self.columns@); }
//@loop 1
    invariant
        self.titles == old(self).titles,
        self.wf(), self.rows == old(self).rows, self.selection == old(self).selection, self.scroll == old(self).scroll,
        self.area == old(self).area, self.filter == old(self).filter,
        self.columns@.len() == old(self).columns@.len(),
        forall|k: int| 0 <= k < self.columns@.len() ==> same_col(#[trigger] self.columns@[k], old(self).columns@[k]),
        forall|k: int| 0 <= k < i ==> (#[trigger] self.columns@[k]).spacing.width == old(self).columns@[k].min_width,
        width_sum(self.columns@.take(i as int)) == min_sum(old(self).columns@.take(i as int)),
//@at loop 1 start
    let ghost was = self.columns@;
    proof { min_sum_mono(old(self).columns@, i as int); }
//@at loop 1 end
    proof {
        let t = self.columns@.take(i as int + 1);
        assert forall|k: int| 0 <= k < i implies self.columns@[k] == was[k] by {}
        assert(t.drop_last() =~= was.take(i as int));
        assert(t.last() == self.columns@[i as int]);
    }
//@at loop 1 after
    proof {
        assert(self.columns@.take(self.columns@.len() as int) =~= self.columns@);
        assert(old(self).columns@.take(self.columns@.len() as int) =~= old(self).columns@);
        assert forall|i: int| 0 <= i < old(self).columns@.len() implies (#[trigger] self.columns@[i]).min_width <= self.columns@[i].spacing.width <= self.columns@[i].max_width by {
            assert(same_col(self.columns@[i], old(self).columns@[i]));
            assert(old(self).columns@[i].min_width <= old(self).columns@[i].max_width);
        }
    }
//@loop 2
    invariant
        self.titles == old(self).titles,
        self.wf(), self.rows == old(self).rows, self.selection == old(self).selection, self.scroll == old(self).scroll,
        self.area == old(self).area, self.filter == old(self).filter,
        self.columns@.len() == old(self).columns@.len(),
        forall|i: int| 0 <= i < old(self).columns@.len() ==> (#[trigger] old(self).columns@[i]).min_width <= old(self).columns@[i].max_width,
        forall|k: int| 0 <= k < self.columns@.len() ==> same_col(#[trigger] self.columns@[k], old(self).columns@[k]),
        forall|k: int| 0 <= k < i ==> old(self).columns@[k].min_width <= (#[trigger] self.columns@[k]).spacing.width <= old(self).columns@[k].max_width,
        width_sum(self.columns@.take(i as int)) + excess + (sum_min_widths - min_sum(old(self).columns@.take(i as int))) == available_width,
        sum_min_widths == min_sum(old(self).columns@), available_width <= 0xffff, 
//@at loop 2 start
    let ghost was = self.columns@;
    proof {
        min_sum_mono(old(self).columns@, i as int);
        assert(same_col(self.columns@[i as int], old(self).columns@[i as int]));
        assert(old(self).columns@[i as int].min_width <= old(self).columns@[i as int].max_width);
    }
//@at loop 2 end
    proof {
        let t = self.columns@.take(i as int + 1);
        assert forall|k: int| 0 <= k < i implies self.columns@[k] == was[k] by {}
        assert(t.drop_last() =~= was.take(i as int));
        assert(t.last() == self.columns@[i as int]);
    }
//@at loop 2 after
    proof {
        assert(self.columns@.take(self.columns@.len() as int) =~= self.columns@);
        assert(old(self).columns@.take(self.columns@.len() as int) =~= old(self).columns@);
        assert forall|i: int| 0 <= i < old(self).columns@.len() implies (#[trigger] self.columns@[i]).min_width <= self.columns@[i].spacing.width <= self.columns@[i].max_width by {
            assert(same_col(self.columns@[i], old(self).columns@[i]));
        }
    }
//@endfn
}
