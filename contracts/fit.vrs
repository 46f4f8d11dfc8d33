//@include prelude.vrs
//@include types.vrs
//@include strs.vrs
//@include output.vrs
//@include style_specs.vrs
verus! {
//@const src/fit/str_fit.rs TAB_REPLACEMENT
//@const src/fit/mod.rs DEFAULT_TAB_REPLACEMENT
//@type src/fit/str_fit.rs StrFit
//@type src/fit/crop_writer.rs CropWriter

pub open spec fn tab2() -> Seq<char> { seq![' ', ' '] }
pub proof fn tab_is_two_spaces()
    ensures TAB_REPLACEMENT@ == tab2(), DEFAULT_TAB_REPLACEMENT@ == tab2(), blen(tab2()) == 2,
{
    reveal_strlit("  ");
    assert(TAB_REPLACEMENT@ =~= tab2());
    assert(DEFAULT_TAB_REPLACEMENT@ =~= tab2());
    let s = tab2();
    assert(s.drop_last() =~= seq![' ']);
    assert(s.drop_last().drop_last() =~= Seq::<char>::empty());
    assert(clen(' ') == 1) by (compute);
    reveal_with_fuel(blen, 3);
}
// columns taken by a displayed char (a backspace goes one column back), and by a char of
// a source, whose tabs are replaced
pub open spec fn dcw(c: char) -> int { if c == '\x08' { -1 } else { chw(c) } }
pub open spec fn fcw(c: char) -> int { if c == '\t' { 2 } else { dcw(c) } }
pub open spec fn dsum(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 { 0 } else { dsum(s.drop_last()) + dcw(s.last()) } }
pub open spec fn fsum(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 { 0 } else { fsum(s.drop_last()) + fcw(s.last()) } }
pub proof fn fsum_take(s: Seq<char>, k: int)
    requires 0 <= k < s.len(),
    ensures fsum(s.take(k + 1)) == fsum(s.take(k)) + fcw(s[k]), -1 <= fcw(s[k]) <= 2,
{
    assert(s.take(k + 1).drop_last() =~= s.take(k));
    uwidth_max(s[k]);
}
pub proof fn fsum_bounds(s: Seq<char>)
    ensures -s.len() <= fsum(s) <= 2 * s.len(),
    decreases s.len(),
{
    if s.len() > 0 { fsum_bounds(s.drop_last()); uwidth_max(s.last()); }
}
pub proof fn dsum_push(s: Seq<char>, c: char)
    ensures dsum(s.push(c)) == dsum(s) + dcw(c),
{ assert(s.push(c).drop_last() =~= s); }
pub open spec fn untab(s: Seq<char>) -> Seq<char> { replaced(s, '\t', tab2()) }
pub proof fn untab_cols(s: Seq<char>)
    ensures dsum(untab(s)) == fsum(s),
    decreases s.len(),
{
    if s.len() > 0 {
        untab_cols(s.drop_last());
        let u = untab(s.drop_last());
        if s.last() == '\t' {
            assert(untab(s) =~= u.push(' ').push(' '));
            dsum_push(u, ' '); dsum_push(u.push(' '), ' ');
            uwidth_ascii(' ');
        } else {
            assert(untab(s) =~= u.push(s.last()));
            dsum_push(u, s.last());
        }
    }
}
// the prefix of k chars fits: none of its own prefixes is too wide, and it's the longest one
pub open spec fn fits(s: Seq<char>, k: int, cols: int) -> bool {
    &&& 0 <= k <= s.len()
    &&& forall|j: int| 0 <= j <= k ==> #[trigger] fsum(s.take(j)) <= cols
    &&& k < s.len() ==> fsum(s.take(k + 1)) > cols
}
pub proof fn fits_or_not(s: Seq<char>, k: int, cols: int)
    requires 0 <= k < s.len(), forall|j: int| 0 <= j <= k ==> #[trigger] fsum(s.take(j)) <= cols,
    ensures fsum(s.take(k + 1)) > cols ==> fits(s, k, cols),
{}
// there's only one such prefix
pub proof fn fits_unique(s: Seq<char>, a: int, b: int, cols: int)
    requires fits(s, a, cols), fits(s, b, cols),
    ensures a == b,
{
    if a < b { assert(fsum(s.take(a + 1)) <= cols); }
    if b < a { assert(fsum(s.take(b + 1)) <= cols); }
}
pub open spec fn max0(x: int) -> int { if x < 0 { 0 } else { x } }
//@fn src/fit/str_fit.rs StrFit::from
//@attrs #[verifier::loop_isolation(false)] #[verifier::rlimit(100)]
//@ret r
//@rule call i32::from vrt_i32_from_u16
//@rule opt_map
//@spec
    requires blen(s@) <= 0x3000_0000,
    ensures exists|k: int| #[trigger] fits(s@, k, cols_max as int) && r.bytes_count == blen(s@.take(k)) && r.cols_count == max0(fsum(s@.take(k)))
        && (!r.has_tab ==> forall|i: int| 0 <= i < k ==> s@[i] != '\t'),
//@at body-start
    proof { tab_is_two_spaces(); blen_zero(s@); assert(s@.take(0) =~= Seq::<char>::empty()); }
    broadcast use str_blen;
//@loop 0 it
    invariant_except_break
        cols_count == fsum(s@.take(it.index@ as int)),
        bytes_count == blen(s@.take(it.index@ as int)),
        forall|j: int| 0 <= j <= it.index@ ==> #[trigger] fsum(s@.take(j)) <= cols_max,
        !has_tab ==> forall|i: int| 0 <= i < it.index@ ==> s@[i] != '\t',
        it.index@ == s@.len() ==> fits(s@, it.index@ as int, cols_max as int),
    invariant
        indexed(s@, it.seq()),
        blen(s@) <= 0x3000_0000,
        blen(TAB_REPLACEMENT@) == 2,
    ensures
        exists|k: int| #[trigger] fits(s@, k, cols_max as int) && bytes_count == blen(s@.take(k)) && cols_count == fsum(s@.take(k))
            && (!has_tab ==> forall|i: int| 0 <= i < k ==> s@[i] != '\t'),
//@at loop 0 start
    proof {
        let k = it.index@ as int;
        uwidth_max(s@[k]); str_blen(TAB_REPLACEMENT);
        fsum_take(s@, k); blen_take(s@, k); fsum_bounds(s@.take(k));
        blen_mono(s@, k + 1, s@.len() as int); blen_zero(s@); blen_zero(s@.take(k));
        assert(s@.take(s@.len() as int) =~= s@);
        fits_or_not(s@, k, cols_max as int);
    }
//@at before let next_str_width
    assert(c == s@[it.index@ as int]);
    assert(char_width == fcw(c));
//@at loop 0 end
    proof {
        let k = it.index@ as int;
        if k + 1 == s@.len() { assert(fits(s@, k + 1, cols_max as int)); }
    }
//@endfn

pub open spec fn fitting(s: Seq<char>, cols: int) -> int { choose|k: int| fits(s, k, cols) }
pub proof fn fitting_is(s: Seq<char>, k: int, cols: int)
    requires fits(s, k, cols),
    ensures fitting(s, cols) == k,
{ fits_unique(s, k, fitting(s, cols), cols); }
// the longest fitting prefix, and the columns it takes
pub open spec fn cropped(s: Seq<char>, cols: int) -> Seq<char> { s.take(fitting(s, cols)) }
//@fn src/fit/str_fit.rs StrFit::count_fitting
//@ret r
//@spec
    requires blen(s@) <= 0x3000_0000,
    ensures fits(s@, fitting(s@, cols_max as int), cols_max as int),
        r.0 == blen(cropped(s@, cols_max as int)), r.1 == max0(fsum(cropped(s@, cols_max as int))),
//@at after let fit
    proof {
        let k = choose|k: int| #[trigger] fits(s@, k, cols_max as int) && fit.bytes_count == blen(s@.take(k)) && fit.cols_count == max0(fsum(s@.take(k)));
        fitting_is(s@, k, cols_max as int);
    }
//@endfn
//@fn src/fit/str_fit.rs StrFit::make_string
//@ret r
//@rule str_slice
//@rule method replace vrt_replace
//@spec
    requires blen(s@) <= 0x3000_0000,
    ensures fits(s@, fitting(s@, cols_max as int), cols_max as int),
        r.0@ == untab(cropped(s@, cols_max as int)), r.1 == max0(fsum(cropped(s@, cols_max as int))), r.1 <= cols_max,
//@at after let fit
    proof {
        let k = choose|k: int| #[trigger] fits(s@, k, cols_max as int) && fit.bytes_count == blen(s@.take(k)) && fit.cols_count == max0(fsum(s@.take(k)))
            && (!fit.has_tab ==> forall|i: int| 0 <= i < k ==> s@[i] != '\t');
        fitting_is(s@, k, cols_max as int);
        idx_at(s@, k); idx_ends(s@); tab_is_two_spaces();
        if !fit.has_tab { replaced_none(s@.take(k), '\t', tab2()); }
    }
//@endfn
//@fn src/fit/str_fit.rs StrFit::make_cow
//@sig (s: &str, cols_max: usize) -> (r: (Cow<'_, str>, usize))
//@rule str_slice
//@rule method replace vrt_replace
//@spec
    requires blen(s@) <= 0x3000_0000,
    ensures fits(s@, fitting(s@, cols_max as int), cols_max as int),
        r.0.text() == untab(cropped(s@, cols_max as int)), r.1 == max0(fsum(cropped(s@, cols_max as int))), r.1 <= cols_max,
//@at after let fit
    proof {
        let k = choose|k: int| #[trigger] fits(s@, k, cols_max as int) && fit.bytes_count == blen(s@.take(k)) && fit.cols_count == max0(fsum(s@.take(k)))
            && (!fit.has_tab ==> forall|i: int| 0 <= i < k ==> s@[i] != '\t');
        fitting_is(s@, k, cols_max as int);
        idx_at(s@, k); idx_ends(s@); tab_is_two_spaces();
        if !fit.has_tab { replaced_none(s@.take(k), '\t', tab2()); }
    }
//@endfn

}
//@include filling_specs.vrs
verus! {
// ---------------------------------------------------------------- the cropping writer
pub open spec fn ccols(s: Seq<Cell>) -> int decreases s.len() { if s.len() == 0 { 0 } else { ccols(s.drop_last()) + dcw(s.last().1) } }
// from a to b, only text was written, and the allowance decreased accordingly (a written
// backspace frees nothing)
pub open spec fn spent(allowed0: usize, allowed1: usize, c: Seq<Cell>) -> bool {
    &&& allowed1 <= allowed0
    &&& ccols(c) <= allowed0 - allowed1
    &&& (forall|i: int| 0 <= i < c.len() ==> (#[trigger] c[i]).1 != '\x08') ==> ccols(c) == allowed0 - allowed1
}
pub open spec fn raw(st: Option<ContentStyle>, s: Seq<char>) -> Seq<Cell> { Seq::new(s.len(), |i: int| (st, s[i])) }
pub proof fn ccols_text(st: Option<ContentStyle>, s: Seq<char>)
    ensures ccols(raw(st, s)) == dsum(s),
    decreases s.len(),
{
    if s.len() > 0 {
        ccols_text(st, s.drop_last());
        assert(raw(st, s).drop_last() =~= raw(st, s.drop_last()));
    }
}
pub proof fn untab_bs(s: Seq<char>)
    requires forall|i: int| 0 <= i < untab(s).len() ==> untab(s)[i] != '\x08',
    ensures fsum(s) >= 0,
    decreases s.len(),
{
    untab_cols(s);
    dsum_pos(untab(s));
}
pub proof fn dsum_pos(s: Seq<char>)
    requires forall|i: int| 0 <= i < s.len() ==> s[i] != '\x08',
    ensures dsum(s) >= 0, dsum(s) == sw(s),
    decreases s.len(),
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.drop_last().len() implies s.drop_last()[i] != '\x08' by { assert(s[i] != '\x08'); }
        dsum_pos(s.drop_last());
        assert(s[s.len() - 1] != '\x08');
    }
}
pub proof fn crop_spent(s: Seq<char>, st: Option<ContentStyle>, allowed0: usize, allowed1: usize)
    requires fits(s, fitting(s, allowed0 as int), allowed0 as int),
        allowed1 == allowed0 - max0(fsum(cropped(s, allowed0 as int))),
    ensures spent(allowed0, allowed1, raw(st, untab(cropped(s, allowed0 as int)))),
{
    let p = cropped(s, allowed0 as int);
    untab_cols(p);
    ccols_text(st, untab(p));
    let c = raw(st, untab(p));
    if forall|i: int| 0 <= i < c.len() ==> (#[trigger] c[i]).1 != '\x08' {
        assert forall|i: int| 0 <= i < untab(p).len() implies untab(p)[i] != '\x08' by { assert(c[i].1 != '\x08'); }
        untab_bs(p);
    }
}
pub proof fn rep_spent(c: char, st: Option<ContentStyle>, n: int, allowed0: usize, allowed1: usize)
    requires chw(c) == 1, c != '\x08', allowed1 == allowed0 - n, 0 <= n <= allowed0,
    ensures spent(allowed0, allowed1, raw(st, rep(c, n))),
{
    ccols_text(st, rep(c, n));
    dsum_rep(c, n);
}
pub proof fn dsum_rep(c: char, n: int)
    requires 0 <= n, chw(c) == 1, c != '\x08',
    ensures dsum(rep(c, n)) == n,
    decreases n,
{
    if n > 0 {
        dsum_rep(c, n - 1);
        assert(rep(c, n).drop_last() =~= rep(c, n - 1));
        assert(rep(c, n).last() == c);
    }
}
//@fn src/fit/crop_writer.rs CropWriter::new
//@ret r
//@spec
    ensures r.allowed == limit, *r.w == *old(w), *final(r.w) == *final(w), r.tab_replacement@ == tab2(),
//@at body-start
    proof { tab_is_two_spaces(); }
//@endfn
//@fn src/fit/crop_writer.rs CropWriter::is_full
//@ret r
//@spec
    ensures r == (self.allowed == 0),
//@endfn
//@fn src/fit/crop_writer.rs CropWriter::cropped_str
//@ret r
//@spec
    requires blen(s@) <= 0x3000_0000,
    ensures fits(s@, fitting(s@, self.allowed as int), self.allowed as int),
        r.0.text() == untab(cropped(s@, self.allowed as int)), r.1 == max0(fsum(cropped(s@, self.allowed as int))), r.1 <= self.allowed,
//@endfn
// the cells written for a string
pub open spec fn str_cells(st: Option<ContentStyle>, s: Seq<char>, allowed: usize) -> Seq<Cell> {
    if allowed == 0 { Seq::empty() } else { raw(st, untab(cropped(s, allowed as int))) }
}
// ... and for a char (when there's no column after it, it may be written or not)
pub open spec fn char_written(st: Option<ContentStyle>, ch: char, tab: Seq<char>, o0: Seq<Out>, o1: Seq<Out>, allowed0: usize, allowed1: usize) -> bool {
    if ch == '\t' { wrote(o0, o1, str_cells(st, tab, allowed0)) && spent(allowed0, allowed1, str_cells(st, tab, allowed0)) }
    else {
        ||| wrote(o0, o1, raw(st, seq![ch])) && spent(allowed0, allowed1, raw(st, seq![ch]))
        ||| chw(ch) >= allowed0 && wrote(o0, o1, Seq::empty()) && allowed1 == allowed0
    }
}
pub open spec fn g_cells(st: Option<ContentStyle>, s: Seq<char>, allowed: usize) -> Seq<Cell> {
    raw(st, if s.len() <= allowed { s } else { s.take(allowed as int) })
}
pub open spec fn fill_cells(st: Option<ContentStyle>, c: char, n: usize, allowed: usize) -> Seq<Cell> {
    raw(st, rep(c, if n <= allowed { n as int } else { allowed as int }))
}
pub proof fn raw_is(st: ContentStyle, s: Seq<char>)
    ensures styled(st, s) == raw(Some(st), s), unstyled(s) == raw(None, s),
{
    assert(styled(st, s) =~= raw(Some(st), s));
    assert(unstyled(s) =~= raw(None, s));
}
pub proof fn nothing_spent(o: Seq<Out>, allowed: usize)
    ensures wrote(o, o, Seq::empty()), spent(allowed, allowed, Seq::<Cell>::empty()),
{ wrote_nothing(o); }
pub proof fn char_spent(st: Option<ContentStyle>, c: char, allowed0: usize, allowed1: usize)
    requires chw(c) <= allowed0, allowed1 == allowed0 - chw(c),
    ensures spent(allowed0, allowed1, raw(st, seq![c])),
{
    ccols_text(st, seq![c]);
    reveal_with_fuel(dsum, 2);
    assert(seq![c].drop_last() =~= Seq::<char>::empty());
    uwidth_max(c);
    assert(raw(st, seq![c])[0].1 == c);
}
pub proof fn g_spent(s: Seq<char>, st: Option<ContentStyle>, allowed0: usize)
    requires forall|i: int| 0 <= i < s.len() ==> chw(#[trigger] s[i]) == 1 && s[i] != '\x08',
    ensures s.len() <= allowed0 ==> ccols(g_cells(st, s, allowed0)) == s.len(),
        s.len() > allowed0 ==> ccols(g_cells(st, s, allowed0)) == allowed0,
{
    let t = if s.len() <= allowed0 { s } else { s.take(allowed0 as int) };
    ccols_text(st, t);
    dsum_ones(t);
}
pub proof fn dsum_ones(s: Seq<char>)
    requires forall|i: int| 0 <= i < s.len() ==> chw(#[trigger] s[i]) == 1 && s[i] != '\x08',
    ensures dsum(s) == s.len(),
    decreases s.len(),
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.drop_last().len() implies chw(#[trigger] s.drop_last()[i]) == 1 && s.drop_last()[i] != '\x08' by { assert(chw(s[i]) == 1); }
        dsum_ones(s.drop_last());
        assert(chw(s[s.len() - 1]) == 1);
    }
}
//@fn src/fit/crop_writer.rs CropWriter::queue_unstyled_str
//@ret r
//@spec
    requires blen(s@) <= 0x3000_0000,
    ensures
        r.is_ok() ==> wrote(old(self).w.out(), final(self).w.out(), str_cells(None, s@, old(self).allowed)) && spent(old(self).allowed, final(self).allowed, str_cells(None, s@, old(self).allowed)),
        final(self).allowed <= old(self).allowed, final(self).tab_replacement == old(self).tab_replacement,
//@at body-start
    let ghost w0 = self.w.out();
    proof {
        nothing_spent(w0, self.allowed);
        let t = untab(cropped(s@, self.allowed as int));
        raw_is(plain().object_style, t);
        wrote_one(w0, Out::Plain(t));
        if exists|k: int| fits(s@, k, self.allowed as int) {
            let a1 = (self.allowed - max0(fsum(cropped(s@, self.allowed as int)))) as usize;
            if 0 <= self.allowed - max0(fsum(cropped(s@, self.allowed as int))) { crop_spent(s@, None, self.allowed, a1); }
        }
    }
//@endfn
//@fn src/fit/crop_writer.rs CropWriter::queue_str
//@ret r
//@spec
    requires blen(s@) <= 0x3000_0000,
    ensures
        r.is_ok() ==> wrote(old(self).w.out(), final(self).w.out(), str_cells(Some(cs.object_style), s@, old(self).allowed)) && spent(old(self).allowed, final(self).allowed, str_cells(Some(cs.object_style), s@, old(self).allowed)),
        final(self).allowed <= old(self).allowed, final(self).tab_replacement == old(self).tab_replacement,
//@at body-start
    let ghost w0 = self.w.out();
    proof {
        nothing_spent(w0, self.allowed);
        let t = untab(cropped(s@, self.allowed as int));
        raw_is(cs.object_style, t);
        wrote_one(w0, Out::Styled(cs.object_style, t));
        if exists|k: int| fits(s@, k, self.allowed as int) {
            let a1 = (self.allowed - max0(fsum(cropped(s@, self.allowed as int)))) as usize;
            if 0 <= self.allowed - max0(fsum(cropped(s@, self.allowed as int))) { crop_spent(s@, Some(cs.object_style), self.allowed, a1); }
        }
    }
//@endfn
//@fn src/fit/crop_writer.rs CropWriter::queue_unstyled_char
//@ret r
//@spec
    requires blen(old(self).tab_replacement@) <= 0x3000_0000,
    ensures
        r.is_ok() ==> char_written(None, c, old(self).tab_replacement@, old(self).w.out(), final(self).w.out(), old(self).allowed, final(self).allowed),
        final(self).allowed <= old(self).allowed, final(self).tab_replacement == old(self).tab_replacement,
//@at body-start
    let ghost w0 = self.w.out();
    proof {
        nothing_spent(w0, self.allowed);
        let t = seq![c];
        raw_is(plain().object_style, t);
        wrote_one(w0, Out::Plain(t));
        uwidth_max(c);
        if chw(c) <= self.allowed { char_spent(None, c, self.allowed, (self.allowed - chw(c)) as usize); }
    }
//@endfn
//@fn src/fit/crop_writer.rs CropWriter::queue_char
//@ret r
//@spec
    requires blen(old(self).tab_replacement@) <= 0x3000_0000,
    ensures
        r.is_ok() ==> char_written(Some(cs.object_style), c, old(self).tab_replacement@, old(self).w.out(), final(self).w.out(), old(self).allowed, final(self).allowed),
        final(self).allowed <= old(self).allowed, final(self).tab_replacement == old(self).tab_replacement,
//@at body-start
    let ghost w0 = self.w.out();
    proof {
        nothing_spent(w0, self.allowed);
        let t = seq![c];
        raw_is(cs.object_style, t);
        wrote_one(w0, Out::Styled(cs.object_style, t));
        uwidth_max(c);
        if chw(c) <= self.allowed { char_spent(Some(cs.object_style), c, self.allowed, (self.allowed - chw(c)) as usize); }
    }
//@endfn
//@fn src/fit/crop_writer.rs CropWriter::queue_unstyled_g_string
//@ret r
//@attrs #[verifier::loop_isolation(false)]
//@spec
    ensures
        r.is_ok() ==> wrote(old(self).w.out(), final(self).w.out(), g_cells(None, s@, old(self).allowed)),
        r.is_ok() ==> final(self).allowed == (if s@.len() <= old(self).allowed { old(self).allowed - s@.len() } else { 0 }),
        final(self).allowed <= old(self).allowed, final(self).tab_replacement == old(self).tab_replacement,
//@at body-start
    let ghost w0 = self.w.out();
    let ghost s0 = s@;
    let ghost a0 = self.allowed;
    proof {
        nothing_spent(w0, self.allowed);
        raw_is(plain().object_style, s0);
        wrote_one(w0, Out::Plain(s0));
        assert(raw(None, s0.take(0)) =~= Seq::<Cell>::empty());
        string_max(&s); blen_zero(s0);
        if s0.len() == 0 { assert(s0 =~= s0.take(0)); }
        if s0.len() > a0 {
            let t = s0.take(a0 as int);
            raw_is(plain().object_style, t);
            wrote_one(w0, Out::Plain(t));
            idx_at(s0, a0 as int);
        }
    }
//@loop 0 it
    invariant
        len == it.index@, len <= a0, self.allowed == a0, self.w.out() == w0, s@ == s0, indexed(s0, it.seq()), 
        old(self).w.out() == w0, old(self).allowed == a0, self.tab_replacement == old(self).tab_replacement,
//@at loop 0 start
    assert(it.index@ < s0.len());
    assert(idx == blen(s0.take(it.index@ as int)));
//@endfn
//@fn src/fit/crop_writer.rs CropWriter::queue_g_string
//@ret r
//@attrs #[verifier::loop_isolation(false)]
//@spec
    ensures
        r.is_ok() ==> wrote(old(self).w.out(), final(self).w.out(), g_cells(Some(cs.object_style), s@, old(self).allowed)),
        r.is_ok() ==> final(self).allowed == (if s@.len() <= old(self).allowed { old(self).allowed - s@.len() } else { 0 }),
        final(self).allowed <= old(self).allowed, final(self).tab_replacement == old(self).tab_replacement,
//@at body-start
    let ghost w0 = self.w.out();
    let ghost s0 = s@;
    let ghost a0 = self.allowed;
    proof {
        nothing_spent(w0, self.allowed);
        raw_is(cs.object_style, s0);
        wrote_one(w0, Out::Styled(cs.object_style, s0));
        assert(raw(Some(cs.object_style), s0.take(0)) =~= Seq::<Cell>::empty());
        string_max(&s); blen_zero(s0);
        if s0.len() == 0 { assert(s0 =~= s0.take(0)); }
        if s0.len() > a0 {
            let t = s0.take(a0 as int);
            raw_is(cs.object_style, t);
            wrote_one(w0, Out::Styled(cs.object_style, t));
            idx_at(s0, a0 as int);
        }
    }
//@loop 0 it
    invariant
        len == it.index@, len <= a0, self.allowed == a0, self.w.out() == w0, s@ == s0, indexed(s0, it.seq()), 
        old(self).w.out() == w0, old(self).allowed == a0, self.tab_replacement == old(self).tab_replacement,
//@at loop 0 start
    assert(it.index@ < s0.len());
    assert(idx == blen(s0.take(it.index@ as int)));
//@endfn
// no text
//@fn src/fit/crop_writer.rs CropWriter::queue_fg
//@ret r
//@spec
    ensures r.is_ok() ==> cells(final(self).w.out()) == cells(old(self).w.out()), final(self).allowed == old(self).allowed,
//@at body-start
    proof { cells_no_text(self.w.out()); }
//@endfn
//@fn src/fit/crop_writer.rs CropWriter::queue_bg
//@ret r
//@spec
    ensures r.is_ok() ==> cells(final(self).w.out()) == cells(old(self).w.out()), final(self).allowed == old(self).allowed,
//@at body-start
    proof { cells_no_text(self.w.out()); }
//@endfn
pub proof fn cells_no_text(a: Seq<Out>)
    ensures forall|c: Color| #[trigger] cells(a.push(Out::Fg(c))) == cells(a), forall|c: Color| #[trigger] cells(a.push(Out::Bg(c))) == cells(a),
{
    assert forall|c: Color| #[trigger] cells(a.push(Out::Fg(c))) == cells(a) by { assert(a.push(Out::Fg(c)).drop_last() =~= a); assert(cells(a) + Seq::<Cell>::empty() =~= cells(a)); }
    assert forall|c: Color| #[trigger] cells(a.push(Out::Bg(c))) == cells(a) by { assert(a.push(Out::Bg(c)).drop_last() =~= a); assert(cells(a) + Seq::<Cell>::empty() =~= cells(a)); }
}
//@fn src/fit/crop_writer.rs CropWriter::repeat
//@ret r
//@spec
    requires filling.wf(),
    ensures
        r.is_ok() ==> wrote(old(self).w.out(), final(self).w.out(), fill_cells(Some(cs.object_style), filling.c(), len, old(self).allowed)),
        r.is_ok() ==> final(self).allowed == (if len <= old(self).allowed { old(self).allowed - len } else { 0 }),
        final(self).allowed <= old(self).allowed, final(self).tab_replacement == old(self).tab_replacement,
//@at body-start
    let ghost k = if len <= self.allowed { len as int } else { self.allowed as int };
    proof { raw_is(cs.object_style, rep(filling.c(), k)); }
//@endfn
//@fn src/fit/crop_writer.rs CropWriter::repeat_unstyled
//@ret r
//@spec
    requires filling.wf(),
    ensures
        r.is_ok() ==> wrote(old(self).w.out(), final(self).w.out(), fill_cells(None, filling.c(), len, old(self).allowed)),
        r.is_ok() ==> final(self).allowed == (if len <= old(self).allowed { old(self).allowed - len } else { 0 }),
        final(self).allowed <= old(self).allowed, final(self).tab_replacement == old(self).tab_replacement,
//@at body-start
    let ghost k = if len <= self.allowed { len as int } else { self.allowed as int };
    proof { raw_is(plain().object_style, rep(filling.c(), k)); }
//@endfn
//@fn src/fit/crop_writer.rs CropWriter::fill
//@ret r
//@spec
    requires filling.wf(),
    ensures
        r.is_ok() ==> wrote(old(self).w.out(), final(self).w.out(), fill_cells(Some(cs.object_style), filling.c(), old(self).allowed, old(self).allowed)),
        r.is_ok() ==> final(self).allowed == (if old(self).allowed <= old(self).allowed { old(self).allowed - old(self).allowed } else { 0 }),
        final(self).allowed <= old(self).allowed, final(self).tab_replacement == old(self).tab_replacement,
//@at body-start
//@endfn
//@fn src/fit/crop_writer.rs CropWriter::fill_unstyled
//@ret r
//@spec
    requires filling.wf(),
    ensures
        r.is_ok() ==> wrote(old(self).w.out(), final(self).w.out(), fill_cells(None, filling.c(), old(self).allowed, old(self).allowed)),
        r.is_ok() ==> final(self).allowed == (if old(self).allowed <= old(self).allowed { old(self).allowed - old(self).allowed } else { 0 }),
        final(self).allowed <= old(self).allowed, final(self).tab_replacement == old(self).tab_replacement,
//@at body-start
//@endfn
//@fn src/fit/crop_writer.rs CropWriter::fill_with_space
//@ret r
//@spec
    ensures
        r.is_ok() ==> wrote(old(self).w.out(), final(self).w.out(), fill_cells(Some(cs.object_style), ' ', old(self).allowed, old(self).allowed)),
        r.is_ok() ==> final(self).allowed == (if old(self).allowed <= old(self).allowed { old(self).allowed - old(self).allowed } else { 0 }),
        final(self).allowed <= old(self).allowed, final(self).tab_replacement == old(self).tab_replacement,
//@at body-start
    proof { let f = choose|f: Filling| f.is_for(' '); assert(rep(' ', 1000)[0] == ' '); }
//@endfn
}
fn main() {}
