// shortening with ellipsis
verus! {
//@type src/fit/composite_fit.rs Fitter
//@type src/fit/composite_fit.rs CharInfo derive=Clone,Copy
//@type src/fit/composite_fit.rs Zone
// unicode-width: the ellipsis takes one column
pub axiom fn ellipsis_width()
    ensures chw('…') == 1;
pub open spec fn dots() -> SCh { ('…', false, false, false, false) }
pub proof fn flat_add(a: Seq<Compound<'_>>, b: Seq<Compound<'_>>)
    ensures flat(a + b) == flat(a) + flat(b),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); assert(flat(a) + flat(b) =~= flat(a)); } else {
        flat_add(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert(flat(a) + flat(b.drop_last()) + flat1(b.last()) =~= flat(a) + flat(b));
    }
}
pub proof fn flat_one(c: Compound<'_>)
    ensures flat(seq![c]) == flat1(c),
{ reveal_with_fuel(flat, 2); assert(seq![c].drop_last() =~= Seq::<Compound<'_>>::empty()); assert(Seq::<SCh>::empty() + flat1(c) =~= flat1(c)); }
// where a compound is in the chars of all of them
pub proof fn flat_at(s: Seq<Compound<'_>>, i: int)
    requires 0 <= i < s.len(),
    ensures flat(s) == flat(s.take(i)) + flat1(s[i]) + flat(s.skip(i + 1)),
{
    flat_take(s, i);
    flat_add(s.take(i + 1), s.skip(i + 1));
    assert(s =~= s.take(i + 1) + s.skip(i + 1));
}
// out is src with runs of chars replaced by ellipsis: m gives the place in src of each of its chars
pub open spec fn kept(src: Seq<SCh>, out: Seq<SCh>, m: Seq<int>, j: int) -> bool {
    m[j] < m[j + 1] && (out[j] == dots() || m[j + 1] == m[j] + 1 && out[j] == src[m[j]])
}
pub open spec fn elided(src: Seq<SCh>, out: Seq<SCh>, m: Seq<int>) -> bool {
    &&& m.len() == out.len() + 1 && m[0] == 0 && m.last() == src.len()
    &&& forall|j: int| 0 <= j < out.len() ==> #[trigger] kept(src, out, m, j)
}
pub open spec fn shortened(src: Seq<SCh>, out: Seq<SCh>) -> bool { exists|m: Seq<int>| elided(src, out, m) }
pub proof fn elided_mono(src: Seq<SCh>, out: Seq<SCh>, m: Seq<int>, i: int, j: int)
    requires elided(src, out, m), 0 <= i <= j <= out.len(),
    ensures m[i] + (j - i) <= m[j], 0 <= m[i], m[j] <= src.len(),
    decreases out.len() - (j - i),
{
    if i > 0 { assert(kept(src, out, m, i - 1)); elided_mono(src, out, m, i - 1, j); assert(m[i - 1] < m[i]); }
    elided_step(src, out, m, i, j);
    elided_step(src, out, m, 0, i);
    elided_step(src, out, m, j, out.len() as int);
}
pub proof fn elided_step(src: Seq<SCh>, out: Seq<SCh>, m: Seq<int>, i: int, j: int)
    requires elided(src, out, m), 0 <= i <= j <= out.len(),
    ensures m[i] + (j - i) <= m[j],
    decreases j - i,
{
    if i < j { elided_step(src, out, m, i, j - 1); assert(kept(src, out, m, j - 1)); }
}
pub proof fn shortened_self(src: Seq<SCh>)
    ensures shortened(src, src),
{
    let m = Seq::new(src.len() + 1, |i: int| i);
    assert forall|j: int| 0 <= j < src.len() implies #[trigger] kept(src, src, m, j) by {}
    assert(elided(src, src, m));
}
pub proof fn shortened_more(src: Seq<SCh>, out: Seq<SCh>, a: int, b: int)
    requires shortened(src, out), 0 <= a < b <= out.len(),
    ensures shortened(src, out.take(a) + seq![dots()] + out.skip(b)),
{
    let m = choose|m: Seq<int>| elided(src, out, m);
    let o = out.take(a) + seq![dots()] + out.skip(b);
    let n = m.take(a + 1) + m.skip(b);
    elided_step(src, out, m, a, b);
    assert forall|j: int| 0 <= j < o.len() implies #[trigger] kept(src, o, n, j) by {
        if j < a { assert(kept(src, out, m, j)); }
        else if j == a { assert(n[a] == m[a] && n[a + 1] == m[b]); assert(o[a] == dots()); }
        else { assert(kept(src, out, m, j - a - 1 + b)); assert(o[j] == out[j - a - 1 + b]); assert(n[j] == m[j - a - 1 + b]); assert(n[j + 1] == m[j - a + b]); }
    }
    assert(n.last() == m.last());
    assert(elided(src, o, n));
}
// the chars and their places
pub open spec fn infos_of(s: Seq<char>, v: Seq<CharInfo>) -> bool {
    v.len() == s.len() && forall|k: int| 0 <= k < v.len() ==> (#[trigger] v[k]).byte_idx == blen(s.take(k)) && v[k].width == chw(s[k])
}
pub open spec fn infos_to(s: Seq<char>, v: Seq<CharInfo>, n: int) -> bool {
    v.len() == n && forall|k: int| 0 <= k < n ==> (#[trigger] v[k]).byte_idx == blen(s.take(k)) && v[k].width == chw(s[k])
}
//@fn src/fit/composite_fit.rs str_char_infos
//@ret r
//@rule collect
//@rule width
//@spec
    ensures infos_of(s@, r@),
//@loop 0 it
    invariant indexed(s@, it.seq()), infos_to(s@, __acc1@, it.index@ as int),
//@endfn
//@fn minimad:src/markdown/compound.rs Compound::raw_str
//@ret r
//@spec
    ensures r == (Compound { src: src, bold: false, italic: false, code: false, strikeout: false }),
//@endfn
//@fn minimad:src/markdown/compound.rs Compound::sub
//@ret r
//@rule str_slice
//@spec
    requires boundary(self.src@, r_start as int), boundary(self.src@, r_end as int), r_start <= r_end,
    ensures r.src@ == self.src@.subrange(idx(self.src@, r_start as int), idx(self.src@, r_end as int)),
        flat1(r) == flat1(*self).subrange(idx(self.src@, r_start as int), idx(self.src@, r_end as int)),
//@at body-start
    proof { blen_idx_mono(self.src@, r_start as int, r_end as int); assert forall|c: Compound<'_>| c.bold == self.bold && c.italic == self.italic && c.code == self.code && c.strikeout == self.strikeout && c.src@ == self.src@.subrange(idx(self.src@, r_start as int), idx(self.src@, r_end as int)) implies #[trigger] flat1(c) == flat1(*self).subrange(idx(self.src@, r_start as int), idx(self.src@, r_end as int)) by { assert(flat1(c) =~= flat1(*self).subrange(idx(self.src@, r_start as int), idx(self.src@, r_end as int))); } }
//@endfn
//@fn minimad:src/markdown/compound.rs Compound::tail
//@ret r
//@rule str_slice
//@spec
    requires boundary(self.src@, r_start as int),
    ensures r.src@ == self.src@.skip(idx(self.src@, r_start as int)),
        flat1(r) == flat1(*self).skip(idx(self.src@, r_start as int)),
//@at body-start
    proof { assert forall|c: Compound<'_>| c.bold == self.bold && c.italic == self.italic && c.code == self.code && c.strikeout == self.strikeout && c.src@ == self.src@.skip(idx(self.src@, r_start as int)) implies #[trigger] flat1(c) == flat1(*self).skip(idx(self.src@, r_start as int)) by { assert(flat1(c) =~= flat1(*self).skip(idx(self.src@, r_start as int))); } }
//@endfn
pub proof fn blen_idx_mono(s: Seq<char>, a: int, b: int)
    requires boundary(s, a), boundary(s, b), a <= b,
    ensures 0 <= idx(s, a) <= idx(s, b) <= s.len(),
{ boundary_idx(s, a); boundary_idx(s, b); if idx(s, b) < idx(s, a) { blen_mono(s, idx(s, b), idx(s, a)); } }
// a zone is made of chars of its compound, from the k-th one
pub open spec fn zone_at(z: Zone, src: Seq<char>, k: int) -> bool {
    &&& 0 <= k && k + z.char_infos@.len() <= src.len()
    &&& forall|j: int| 0 <= j < z.char_infos@.len() ==> z.byte_start_idx + (#[trigger] z.char_infos@[j]).byte_idx == blen(src.take(k + j))
}
pub open spec fn zone_in(z: Zone, src: Seq<char>) -> bool { exists|k: int| #[trigger] zone_at(z, src, k) }
pub open spec fn zone_ok(z: Zone, c: Seq<Compound<'_>>) -> bool { z.compound_idx < c.len() && zone_in(z, c[z.compound_idx as int].src@) }
pub open spec fn zones_ok(z: Seq<Zone>, c: Seq<Compound<'_>>) -> bool { forall|i: int| 0 <= i < z.len() ==> zone_ok(#[trigger] z[i], c) }
pub proof fn zone_sub(z: Zone, src: Seq<char>, a: int, b: int)
    requires 0 <= a <= b <= src.len(), z.byte_start_idx == blen(src.take(a)), infos_of(src.subrange(a, b), z.char_infos@),
    ensures zone_in(z, src),
{
    let s = src.subrange(a, b);
    assert forall|j: int| 0 <= j < z.char_infos@.len() implies z.byte_start_idx + (#[trigger] z.char_infos@[j]).byte_idx == blen(src.take(a + j)) by {
        assert(src.take(a + j) =~= src.take(a) + s.take(j)); blen_add(src.take(a), s.take(j));
    }
    assert(zone_at(z, src, a));
}
//@fn src/fit/composite_fit.rs Zone::token
//@ret r
//@rule str_slice
//@rule width
//@rule method is_whitespace vrt_is_blank
//@spec
    requires min_removable_width + 2 <= usize::MAX,
    ensures zones_ok(r@, compounds@),
//@loop 0
    invariant min_removable_width + 2 <= usize::MAX, zones_ok(zones@, compounds@),
//@loop 1 ic
    invariant
        min_removable_width + 2 <= usize::MAX, compound_idx < compounds@.len(), s@ == compounds@[compound_idx as int].src@,
        zones_ok(zones@, compounds@),
        indexed(s@, ic.seq()),
        byte_start matches Some(b) ==> started(s@, b as int, ic.index@ as int),
//@at loop 1 start
    proof {
        let k = ic.index@ as int;
        idx_at(s@, k); str_max(s); blen_take(s@, k);
        if let Some(b) = byte_start { let a = idx(s@, b as int); boundary_idx(s@, b as int); blen_mono(s@, a, k); token_zone(s, compound_idx, b, k, compounds@); }
        started_mono(s@, k);
    }
//@at loop 1 after
    proof {
        idx_ends(s@); assert(s@.take(s@.len() as int) =~= s@); str_max(s); str_blen(s);
        if let Some(b) = byte_start { let a = idx(s@, b as int); boundary_idx(s@, b as int); blen_mono(s@, a, s@.len() as int); token_zone(s, compound_idx, b, s@.len() as int, compounds@); assert(s@.skip(a) =~= s@.subrange(a, s@.len() as int)); }
    }
//@endfn
pub open spec fn started(s: Seq<char>, b: int, k: int) -> bool { boundary(s, b) && idx(s, b) <= k }
pub proof fn started_mono(s: Seq<char>, k: int)
    ensures forall|b: int| #[trigger] started(s, b, k) ==> started(s, b, k + 1),
{}
pub proof fn token_zone(s: &str, ci: usize, b: usize, k: int, c: Seq<Compound<'_>>)
    requires ci < c.len(), s@ == c[ci as int].src@, boundary(s@, b as int), idx(s@, b as int) <= k <= s@.len(),
    ensures forall|z: Zone| z.compound_idx == ci && z.byte_start_idx == b && infos_of(s@.subrange(idx(s@, b as int), k), z.char_infos@) ==> #[trigger] zone_ok(z, c),
{
    let a = idx(s@, b as int);
    boundary_idx(s@, b as int);
    assert forall|z: Zone| z.compound_idx == ci && z.byte_start_idx == b && infos_of(s@.subrange(a, k), z.char_infos@) implies #[trigger] zone_ok(z, c) by { zone_sub(z, s@, a, k); }
}
//@fn src/fit/composite_fit.rs Zone::biggest_token
//@ret r
//@rule max_type Zone
//@spec
    requires min_removable_width + 2 <= usize::MAX,
    ensures r matches Some(z) ==> zone_ok(z, compounds@),
//@loop 0 it
    invariant zones_ok(it.seq(), compounds@), __acc1 matches Some(z) ==> zone_ok(z, compounds@),
//@endfn
//@fn src/fit/composite_fit.rs Zone::compounds
//@ret r
//@rule collect
//@rule str_slice
//@rule width
//@spec
    requires min_removable_width + 2 <= usize::MAX,
    ensures zones_ok(r@, compounds@),
//@loop 0
    invariant min_removable_width + 2 <= usize::MAX, zones_ok(__acc1@, compounds@),
//@at after let char_infos
    proof {
        let s = compound.src;
        let n = s@.len() as int;
        if n >= 2 { idx_at(s@, 1); idx_at(s@, n - 1); blen_mono(s@, 1, n - 1); }
        idx_ends(s@);
        assert(s@.subrange(0, n) =~= s@);
        token_zone(s, compound_idx, 0, n, compounds@);
    }
//@endfn
//@fn src/fit/composite_fit.rs Zone::biggest_compound
//@ret r
//@rule max_type Zone
//@spec
    requires min_removable_width + 2 <= usize::MAX,
    ensures r matches Some(z) ==> zone_ok(z, compounds@),
//@loop 0 it
    invariant zones_ok(it.seq(), compounds@), __acc1 matches Some(z) ==> zone_ok(z, compounds@),
//@endfn
// chars a to b replaced by an ellipsis, for a gain of g columns
pub open spec fn cut_at(old: Seq<SCh>, new: Seq<SCh>, a: int, b: int, g: int) -> bool {
    0 <= a < b <= old.len() && new == old.take(a) + seq![dots()] + old.skip(b) && fw(new) == fw(old) - g
}
pub proof fn cut_zone(c: Seq<Compound<'_>>, n: Seq<Compound<'_>>, i: int, a: int, b: int)
    requires
        0 <= i < c.len(), 0 <= a < b <= c[i].src@.len(), n.len() == c.len() + 2,
        forall|j: int| 0 <= j < i ==> n[j] == #[trigger] c[j],
        forall|j: int| i < j < c.len() ==> n[j + 2] == #[trigger] c[j],
        flat1(n[i]) == flat1(c[i]).subrange(0, a), flat1(n[i + 1]) == seq![dots()], flat1(n[i + 2]) == flat1(c[i]).skip(b),
    ensures exists|x: int, y: int| #[trigger] cut_at(flat(c), flat(n), x, y, sw(c[i].src@.subrange(a, b)) - 1),
{
    let p = flat(c.take(i)).len() as int;
    let f = flat1(c[i]);
    let (h, tl) = (flat(c.take(i)), flat(c.skip(i + 1)));
    flat_at(c, i);
    flat_at3(n, i);
    assert(n.take(i) =~= c.take(i));
    assert(n.skip(i + 3) =~= c.skip(i + 1)) by { assert forall|j: int| 0 <= j < c.len() - i - 1 implies #[trigger] n.skip(i + 3)[j] == c.skip(i + 1)[j] by { assert(n[i + 1 + j + 2] == c[i + 1 + j]); } }
    seq_cut(h, f, tl, a, b);
    fw_flat1(c[i], a, b);
    cut_cols(flat(c), p + a, p + b);
    assert(cut_at(flat(c), flat(n), p + a, p + b, sw(c[i].src@.subrange(a, b)) - 1));
}
pub proof fn flat_at3(n: Seq<Compound<'_>>, i: int)
    requires 0 <= i, i + 3 <= n.len(),
    ensures flat(n) == flat(n.take(i)) + flat1(n[i]) + flat1(n[i + 1]) + flat1(n[i + 2]) + flat(n.skip(i + 3)),
{
    flat_take(n, i); flat_take(n, i + 1); flat_take(n, i + 2);
    flat_add(n.take(i + 3), n.skip(i + 3));
    assert(n =~= n.take(i + 3) + n.skip(i + 3));
}
pub proof fn seq_cut(h: Seq<SCh>, f: Seq<SCh>, t: Seq<SCh>, a: int, b: int)
    requires 0 <= a < b <= f.len(),
    ensures
        h + f.subrange(0, a) + seq![dots()] + f.skip(b) + t == (h + f + t).take(h.len() + a) + seq![dots()] + (h + f + t).skip(h.len() + b),
        (h + f + t).subrange(h.len() + a, h.len() + b) == f.subrange(a, b),
{
    let s = h + f + t;
    assert(s.take(h.len() + a) =~= h + f.subrange(0, a));
    assert(s.skip(h.len() + b) =~= f.skip(b) + t);
    assert(h + f.subrange(0, a) + seq![dots()] + f.skip(b) + t =~= s.take(h.len() + a) + seq![dots()] + s.skip(h.len() + b));
    assert(s.subrange(h.len() + a, h.len() + b) =~= f.subrange(a, b));
}
pub proof fn cut_cols(s: Seq<SCh>, a: int, b: int)
    requires 0 <= a <= b <= s.len(),
    ensures fw(s.take(a) + seq![dots()] + s.skip(b)) == fw(s) - fw(s.subrange(a, b)) + 1, fw(s) == fw(s.take(a)) + fw(s.subrange(a, b)) + fw(s.skip(b)),
{
    fw_dots();
    assert(s =~= s.take(a) + s.subrange(a, b) + s.skip(b));
    fw_add(s.take(a) + s.subrange(a, b), s.skip(b)); fw_add(s.take(a), s.subrange(a, b));
    fw_add(s.take(a) + seq![dots()], s.skip(b)); fw_add(s.take(a), seq![dots()]);
}
pub proof fn fw_dots()
    ensures fw(seq![dots()]) == 1,
{ ellipsis_width(); reveal_with_fuel(fw, 2); assert(seq![dots()].drop_last() =~= Seq::<SCh>::empty()); }
pub proof fn raw_dots(c: Compound<'_>)
    requires c == (Compound { src: ELLIPSIS, bold: false, italic: false, code: false, strikeout: false }),
    ensures flat1(c) == seq![dots()],
{ reveal_strlit("…"); assert(ELLIPSIS@ =~= seq!['…']); assert(flat1(c) =~= seq![dots()]); }
//@fn src/fit/composite_fit.rs Zone::cut
//@ret r
//@rule str_slice
//@rule width
//@spec
    requires zone_ok(*self, old(compounds)@), old(compounds)@.len() + 2 <= usize::MAX,
    ensures (final(compounds)@ == old(compounds)@ && r == 0) || exists|a: int, b: int| #[trigger] cut_at(flat(old(compounds)@), flat(final(compounds)@), a, b, r as int),
//@at after let compound
    let ghost src = compound.src@;
    let ghost k0 = choose|k: int| #[trigger] zone_at(*self, src, k);
    proof { str_max(compound.src); vrt_vec_len(&self.char_infos); }
//@loop 0
    invariant_except_break
        removed_width == 0 || removed_width < to_remove,
    invariant
        zone_at(*self, src, k0), src == compound.src@, blen(src) <= 0x7fff_ffff_ffff_ffff,
        len == self.char_infos@.len(), len <= 0x7fff_ffff_ffff_ffff, start_char_idx <= end_char_idx, end_char_idx < len || len == 0 && end_char_idx == 0,
        removed_width == 0 || removed_width == sw(src.subrange(k0 + start_char_idx, k0 + end_char_idx)),
        end_char_idx > start_char_idx || removed_width == 0,
    decreases len - (end_char_idx - start_char_idx),
//@at before let start_byte_idx 0
    proof { zone_bytes(*self, src, k0, start_char_idx as int, end_char_idx as int); }
//@at before let start_byte_idx 1
    proof { zone_bytes(*self, src, k0, start_char_idx as int, end_char_idx as int); idx_ends(src); }
//@at after call insert 1
    proof {
        let o = old(compounds)@;
        raw_dots(compounds@[self.compound_idx as int + 1]);
        cut_zone(o, compounds@, self.compound_idx as int, k0 + start_char_idx, k0 + end_char_idx);
    }
//@endfn
pub proof fn zone_bytes(z: Zone, src: Seq<char>, k: int, a: int, b: int)
    requires zone_at(z, src, k), 0 <= a <= b < z.char_infos@.len(), blen(src) <= 0x7fff_ffff_ffff_ffff,
    ensures
        boundary(src, z.byte_start_idx + z.char_infos@[a].byte_idx), idx(src, z.byte_start_idx + z.char_infos@[a].byte_idx) == k + a,
        boundary(src, z.byte_start_idx + z.char_infos@[b].byte_idx), idx(src, z.byte_start_idx + z.char_infos@[b].byte_idx) == k + b,
        z.byte_start_idx + z.char_infos@[a].byte_idx <= z.byte_start_idx + z.char_infos@[b].byte_idx <= 0x7fff_ffff_ffff_ffff,
{
    idx_at(src, k + a); idx_at(src, k + b); blen_mono(src, k + a, k + b); blen_mono(src, k + b, src.len() as int); assert(src.take(src.len() as int) =~= src);
}
//@fn src/fit/composite_fit.rs Fitter::for_align
//@ret r
//@spec
    ensures r.align == align, r.mid_token_ellision == (align == Alignment::Unspecified), r.mid_compound_ellision == (align == Alignment::Unspecified),
//@endfn
//@fn src/fit/composite_fit.rs <Default for Fitter>::default
//@header impl Fitter
//@ret r
//@spec
    ensures r.align == Alignment::Unspecified,
//@endfn
// only the end, or the start, is removed
pub open spec fn end_cut(src: Seq<SCh>, out: Seq<SCh>) -> bool { exists|k: int| 0 <= k < src.len() && out == #[trigger] src.take(k) + seq![dots()] }
pub open spec fn start_cut(src: Seq<SCh>, out: Seq<SCh>) -> bool { exists|k: int| 0 < k <= src.len() && out == seq![dots()] + #[trigger] src.skip(k) }
// what's got by shortening a plain line to max columns
pub open spec fn fitted_in(f: Fitter, src: Seq<SCh>, out: Seq<SCh>, max: int) -> bool {
    &&& fw(out) <= max
    &&& shortened(src, out)
    &&& !f.mid_token_ellision && !f.mid_compound_ellision ==> match f.align {
        Alignment::Left | Alignment::Unspecified => end_cut(src, out),
        Alignment::Right => start_cut(src, out),
        Alignment::Center => true,
    }
}
}
verus! {
// the loops of the cuttings inside of the line
pub open spec fn mid_ok(src: Seq<SCh>, c: Seq<Compound<'_>>, ex: int, max: int, prefix: int) -> bool {
    &&& ccw(c) < BIG() - 8 && 0 <= prefix <= 0x1000 && 0 <= max
    &&& shortened(src, flat(c))
    &&& prefix + ccw(c) <= max + ex
    &&& ex > 0 ==> prefix + ccw(c) == max + ex
}
pub proof fn mid_next(src: Seq<SCh>, c: Seq<Compound<'_>>, n: Seq<Compound<'_>>, ex: int, max: int, prefix: int, gain: int)
    requires mid_ok(src, c, ex, max, prefix), gain >= 0, c == n && gain == 0 || exists|a: int, b: int| #[trigger] cut_at(flat(c), flat(n), a, b, gain),
    ensures mid_ok(src, n, if gain >= ex { 0 } else { ex - gain }, max, prefix) || gain == 0, gain == 0 ==> mid_ok(src, n, ex, max, prefix),
{
    fw_flat(c); fw_flat(n);
    if !(c == n) {
        let (a, b) = choose|a: int, b: int| #[trigger] cut_at(flat(c), flat(n), a, b, gain);
        shortened_more(src, flat(c), a, b);
    }
}
// the left truncation: the k first chars are removed
pub open spec fn left_ok(c0: Seq<Compound<'_>>, c: Seq<Compound<'_>>, e0: int, e: int) -> bool {
    exists|k: int| #[trigger] left_at(c0, c, e0, e, k)
}
pub open spec fn left_at(c0: Seq<Compound<'_>>, c: Seq<Compound<'_>>, e0: int, e: int, k: int) -> bool {
    0 <= k <= flat(c0).len() && flat(c) == flat(c0).skip(k) && fw(flat(c0).take(k)) + e >= e0 && (c.len() == 0 ==> k == flat(c0).len())
}
pub proof fn seq_left(f0: Seq<SCh>, f: Seq<SCh>, t: Seq<SCh>, k: int, j: int)
    requires 0 <= k <= f0.len(), f0.skip(k) == f + t, 0 <= j <= f.len(),
    ensures f0.skip(k + j) == f.skip(j) + t, f0.take(k + j) == f0.take(k) + f.take(j), k + j <= f0.len(),
{
    let s = f0.skip(k);
    assert(s.len() == f.len() + t.len());
    assert(f0.skip(k + j) =~= s.skip(j));
    assert(s.skip(j) =~= f.skip(j) + t);
    assert(f0.take(k + j) =~= f0.take(k) + s.take(j));
    assert(s.take(j) =~= f.take(j));
}
pub proof fn seq_right(f0: Seq<SCh>, h: Seq<SCh>, f: Seq<SCh>, k: int, j: int)
    requires 0 <= k <= f0.len(), f0.take(k) == h + f, 0 <= j <= f.len(),
    ensures f0.take(k - f.len() + j) == h + f.take(j), f0.skip(k - f.len() + j) == f.skip(j) + f0.skip(k), 0 <= k - f.len() + j <= k,
{
    let s = f0.take(k);
    let m = k - f.len() + j;
    assert(s.len() == h.len() + f.len());
    assert(f0.take(m) =~= s.take(m));
    assert(s.take(m) =~= h + f.take(j));
    assert(f0.skip(m) =~= s.skip(m) + f0.skip(k));
    assert(s.skip(m) =~= f.skip(j));
}
pub proof fn left_drop(c0: Seq<Compound<'_>>, c: Seq<Compound<'_>>, e0: int, e: int, e2: int)
    requires left_ok(c0, c, e0, e), c.len() > 0, sw(c[0].src@) + e2 >= e, 0 <= e2,
    ensures left_ok(c0, c.skip(1), e0, e2),
{
    let k = choose|k: int| #[trigger] left_at(c0, c, e0, e, k);
    let (f0, f) = (flat(c0), flat1(c[0]));
    flat_at(c, 0); assert(c.take(0) =~= Seq::<Compound<'_>>::empty());
    let n = k + f.len();
    assert(flat(c) =~= f + flat(c.skip(1)));
    seq_left(f0, f, flat(c.skip(1)), k, f.len() as int);
    assert(f.skip(f.len() as int) + flat(c.skip(1)) =~= flat(c.skip(1)));
    assert(f.take(f.len() as int) =~= f);
    fw_add(f0.take(k), f);
    fw_flat1(c[0], 0, f.len() as int); assert(f.subrange(0, f.len() as int) =~= f); assert(c[0].src@.subrange(0, f.len() as int) =~= c[0].src@);
    if c.skip(1).len() == 0 { assert(flat(c.skip(1)).len() == 0); assert(f0.skip(n).len() == 0); }
    assert(left_at(c0, c.skip(1), e0, e2, n));
}
pub proof fn left_cut(c0: Seq<Compound<'_>>, c: Seq<Compound<'_>>, n: Seq<Compound<'_>>, e0: int, e: int, j: int)
    requires left_ok(c0, c, e0, e), c.len() > 0, n.len() == c.len(), n.skip(1) == c.skip(1), 0 <= j <= c[0].src@.len(), flat1(n[0]) == flat1(c[0]).skip(j), sw(c[0].src@.take(j)) >= e,
    ensures left_ok(c0, n, e0, 0),
{
    let k = choose|k: int| #[trigger] left_at(c0, c, e0, e, k);
    let (f0, f) = (flat(c0), flat1(c[0]));
    flat_at(c, 0); assert(c.take(0) =~= Seq::<Compound<'_>>::empty());
    flat_at(n, 0); assert(n.take(0) =~= Seq::<Compound<'_>>::empty());
    assert(flat(c) =~= f + flat(c.skip(1)));
    assert(flat(n) =~= f.skip(j) + flat(c.skip(1)));
    seq_left(f0, f, flat(c.skip(1)), k, j);
    fw_add(f0.take(k), f.take(j));
    fw_flat1(c[0], 0, j); assert(f.subrange(0, j) =~= f.take(j)); assert(c[0].src@.subrange(0, j) =~= c[0].src@.take(j));
    assert(left_at(c0, n, e0, 0, k + j));
}
// the right one: only the k first chars are kept
pub open spec fn right_ok(c0: Seq<Compound<'_>>, c: Seq<Compound<'_>>, e0: int, e: int) -> bool {
    exists|k: int| #[trigger] right_at(c0, c, e0, e, k)
}
pub open spec fn right_at(c0: Seq<Compound<'_>>, c: Seq<Compound<'_>>, e0: int, e: int, k: int) -> bool {
    0 <= k <= flat(c0).len() && flat(c) == flat(c0).take(k) && fw(flat(c0).skip(k)) + e >= e0 && (c.len() == 0 ==> k == 0)
}
pub proof fn right_drop(c0: Seq<Compound<'_>>, c: Seq<Compound<'_>>, e0: int, e: int, e2: int)
    requires right_ok(c0, c, e0, e), c.len() > 0, sw(c.last().src@) + e2 >= e, 0 <= e2,
    ensures right_ok(c0, c.drop_last(), e0, e2),
{
    let k = choose|k: int| #[trigger] right_at(c0, c, e0, e, k);
    let (f0, f) = (flat(c0), flat1(c.last()));
    let n = k - f.len();
    assert(flat(c) == flat(c.drop_last()) + f);
    seq_right(f0, flat(c.drop_last()), f, k, 0);
    assert(flat(c.drop_last()) + f.take(0) =~= flat(c.drop_last())); assert(f.skip(0) =~= f);
    fw_add(f, f0.skip(k));
    fw_flat1(c.last(), 0, f.len() as int); assert(f.subrange(0, f.len() as int) =~= f); assert(c.last().src@.subrange(0, f.len() as int) =~= c.last().src@);
    assert(right_at(c0, c.drop_last(), e0, e2, n));
}
pub proof fn right_cut(c0: Seq<Compound<'_>>, c: Seq<Compound<'_>>, n: Seq<Compound<'_>>, e0: int, e: int, j: int)
    requires right_ok(c0, c, e0, e), c.len() > 0, n.len() == c.len(), n.drop_last() == c.drop_last(), 0 <= j <= c.last().src@.len(), flat1(n.last()) == flat1(c.last()).take(j),
        sw(c.last().src@) - sw(c.last().src@.take(j)) >= e,
    ensures right_ok(c0, n, e0, 0),
{
    let k = choose|k: int| #[trigger] right_at(c0, c, e0, e, k);
    let (f0, f) = (flat(c0), flat1(c.last()));
    let m = k - f.len() + j;
    let s = c.last().src@;
    assert(flat(c) == flat(c.drop_last()) + f);
    assert(flat(n) == flat(c.drop_last()) + f.take(j));
    seq_right(f0, flat(c.drop_last()), f, k, j);
    fw_add(f.skip(j), f0.skip(k));
    fw_flat1(c.last(), j, f.len() as int); assert(f.subrange(j, f.len() as int) =~= f.skip(j)); sw_mono(s, j, s.len() as int); assert(s.take(s.len() as int) =~= s);
    assert(right_at(c0, n, e0, 0, m));
}
pub proof fn sw_empty(s: Seq<char>) requires s.len() == 0, ensures sw(s) == 0, {}
pub proof fn left_cut_any(c0: Seq<Compound<'_>>, c: Seq<Compound<'_>>, e0: int, e: int, j: int)
    requires left_ok(c0, c, e0, e), c.len() > 0, 0 <= j <= c[0].src@.len(), sw(c[0].src@.take(j)) >= e,
    ensures forall|d: Compound<'_>| same_style(d, c[0]) && d.src@ == c[0].src@.skip(j) ==> left_ok(c0, #[trigger] c.update(0, d), e0, 0),
{
    assert forall|d: Compound<'_>| same_style(d, c[0]) && d.src@ == c[0].src@.skip(j) implies left_ok(c0, #[trigger] c.update(0, d), e0, 0) by {
        let n = c.update(0, d);
        assert(n.skip(1) =~= c.skip(1)); assert(flat1(d) =~= flat1(c[0]).skip(j));
        left_cut(c0, c, n, e0, e, j);
    }
}
pub proof fn right_cut_any(c0: Seq<Compound<'_>>, c: Seq<Compound<'_>>, e0: int, e: int, j: int)
    requires right_ok(c0, c, e0, e), c.len() > 0, 0 <= j <= c.last().src@.len(), sw(c.last().src@) - sw(c.last().src@.take(j)) >= e,
    ensures forall|d: Compound<'_>| same_style(d, c.last()) && d.src@ == c.last().src@.take(j) ==> right_ok(c0, #[trigger] c.update(c.len() - 1, d), e0, 0),
{
    assert forall|d: Compound<'_>| same_style(d, c.last()) && d.src@ == c.last().src@.take(j) implies right_ok(c0, #[trigger] c.update(c.len() - 1, d), e0, 0) by {
        let n = c.update(c.len() - 1, d);
        assert(n.drop_last() =~= c.drop_last()); assert(flat1(d) =~= flat1(c.last()).take(j));
        right_cut(c0, c, n, e0, e, j);
    }
}
pub open spec fn same_style(a: Compound<'_>, b: Compound<'_>) -> bool { a.bold == b.bold && a.italic == b.italic && a.strikeout == b.strikeout && a.code == b.code }
// both truncations
pub open spec fn left_done(c0: Seq<Compound<'_>>, c1: Seq<Compound<'_>>, el: int, k: int) -> bool {
    0 < k <= flat(c0).len() && flat(c1) == seq![dots()] + flat(c0).skip(k) && (fw(flat(c1)) <= fw(flat(c0)) - el + 1 || flat(c1) == seq![dots()])
}
pub proof fn left_end(c0: Seq<Compound<'_>>, c: Seq<Compound<'_>>, d: Compound<'_>, el: int, e: int) -> (k: int)
    requires left_ok(c0, c, el, e), lempty(c, e), el > 0, flat1(d) == seq![dots()], flat(c0).len() > 0,
    ensures left_done(c0, seq![d] + c, el, k),
{
    let k = choose|k: int| #[trigger] left_at(c0, c, el, e, k);
    let f0 = flat(c0);
    fw_dots(); fw_empty();
    flat_add(seq![d], c); flat_one(d);
    assert(f0 =~= f0.take(k) + f0.skip(k)); fw_add(f0.take(k), f0.skip(k));
    fw_add(seq![dots()], f0.skip(k));
    if k == 0 { assert(f0.take(0) =~= Seq::<SCh>::empty()); assert(false); }
    if e > 0 { assert(f0.skip(k) =~= Seq::<SCh>::empty()); assert(seq![dots()] + f0.skip(k) =~= seq![dots()]); }
    k
}
pub proof fn left_wide(c0: Seq<Compound<'_>>, c: Seq<Compound<'_>>, d: Compound<'_>, el: int, e: int)
    requires left_ok(c0, c, el, e), flat1(d) == seq![dots()],
    ensures ccw(seq![d] + c) <= ccw(c0) + 1,
{
    let k = choose|k: int| #[trigger] left_at(c0, c, el, e, k);
    let f0 = flat(c0);
    fw_dots(); fw_flat(c0); fw_flat(seq![d] + c);
    flat_add(seq![d], c); flat_one(d);
    assert(f0 =~= f0.take(k) + f0.skip(k)); fw_add(f0.take(k), f0.skip(k)); fw_pos(f0.take(k));
    fw_add(seq![dots()], f0.skip(k));
}
pub proof fn right_wide(c0: Seq<Compound<'_>>, c: Seq<Compound<'_>>, d: Compound<'_>, er: int, e: int)
    requires right_ok(c0, c, er, e), flat1(d) == seq![dots()],
    ensures ccw(c.push(d)) <= ccw(c0) + 1,
{
    let k = choose|k: int| #[trigger] right_at(c0, c, er, e, k);
    let f0 = flat(c0);
    fw_dots(); fw_flat(c0); fw_flat(c.push(d));
    flat_push(c, d);
    assert(f0 =~= f0.take(k) + f0.skip(k)); fw_add(f0.take(k), f0.skip(k)); fw_pos(f0.skip(k));
    fw_add(f0.take(k), seq![dots()]);
}
pub open spec fn right_done(c0: Seq<Compound<'_>>, c1: Seq<Compound<'_>>, er: int, k: int) -> bool {
    0 <= k < flat(c0).len() && flat(c1) == flat(c0).take(k) + seq![dots()] && (fw(flat(c1)) <= fw(flat(c0)) - er + 1 || flat(c1) == seq![dots()])
}
pub proof fn right_end(c0: Seq<Compound<'_>>, c: Seq<Compound<'_>>, d: Compound<'_>, er: int, e: int) -> (k: int)
    requires right_ok(c0, c, er, e), lempty(c, e), er > 0, flat1(d) == seq![dots()], flat(c0).len() > 0,
    ensures right_done(c0, c.push(d), er, k),
{
    let k = choose|k: int| #[trigger] right_at(c0, c, er, e, k);
    let f0 = flat(c0);
    fw_dots(); fw_empty();
    flat_push(c, d);
    assert(f0 =~= f0.take(k) + f0.skip(k)); fw_add(f0.take(k), f0.skip(k));
    fw_add(f0.take(k), seq![dots()]);
    if k == f0.len() { assert(f0.skip(k) =~= Seq::<SCh>::empty()); assert(false); }
    if e > 0 { assert(f0.take(k) =~= Seq::<SCh>::empty()); assert(f0.take(k) + seq![dots()] =~= seq![dots()]); }
    k
}
pub proof fn truncated(src: Seq<SCh>, c0: Seq<Compound<'_>>, c1: Seq<Compound<'_>>, c2: Seq<Compound<'_>>, ex: int, max: int, el: int, er: int, kl: int, kr: int)
    requires
        mid_ok(src, c0, ex, max, 0), ex > 0, max >= 2, el >= 0, er >= 0, el == 0 || er == 0 ==> el + er == ex + 1, el > 0 && er > 0 ==> el + er == ex + 2,
        el == 0 ==> c1 == c0, el > 0 ==> left_done(c0, c1, el, kl),
        er == 0 ==> c2 == c1, er > 0 ==> right_done(c1, c2, er, kr),
    ensures fw(flat(c2)) <= max, shortened(src, flat(c2)), ccw(c2) < BIG(),
{
    let (f0, f1, f2) = (flat(c0), flat(c1), flat(c2));
    fw_flat(c0); fw_flat(c2); fw_dots();
    if el > 0 {
        shortened_more(src, f0, 0, kl);
        assert(f0.take(0) + seq![dots()] + f0.skip(kl) =~= f1);
    }
    if er > 0 {
        shortened_more(src, f1, kr, f1.len() as int);
        assert(f1.take(kr) + seq![dots()] + f1.skip(f1.len() as int) =~= f2);
    }
}
pub proof fn some_chars(c: Seq<Compound<'_>>)
    requires ccw(c) > 0,
    ensures flat(c).len() > 0,
{ fw_flat(c); if flat(c).len() == 0 { fw_empty(); assert(flat(c) =~= Seq::<SCh>::empty()); } }
pub proof fn fw_empty() ensures fw(Seq::<SCh>::empty()) == 0, {}
pub open spec fn lempty(c: Seq<Compound<'_>>, e: int) -> bool { e == 0 || e > 0 && c.len() == 0 }
//@fn src/fit/composite_fit.rs Fitter::fit
//@rule str_slice
//@spec
    requires old(fc).wf(skin), ccw(old(fc).compounds@) < BIG() - 8,
    ensures
        final(fc).kind == old(fc).kind, final(fc).spacing == old(fc).spacing,
        old(fc).visible_length <= max_width ==> *final(fc) == *old(fc),
        max_width == 0 && old(fc).visible_length > 0 ==> final(fc).compounds@.len() == 0 && final(fc).visible_length == 0,
        skin.prefix_len(old(fc).kind) == 0 || max_width >= 2 ==> final(fc).wf(skin),
        // a plain line
        skin.prefix_len(old(fc).kind) == 0 ==> final(fc).visible_length <= max_width
            && (0 < max_width < old(fc).visible_length ==> fitted_in(self, flat(old(fc).compounds@), flat(final(fc).compounds@), max_width as int)),
//@at body-start
    let ghost src = flat(fc.compounds@);
    let ghost prefix = skin.prefix_len(fc.kind);
    let ghost max = max_width as int;
    proof { fw_flat(fc.compounds@); shortened_self(src); }
//@loop 0
    invariant mid_ok(src, fc.compounds@, excess as int, max, prefix),
    decreases excess,
//@at loop 0 start
    let ghost c0 = fc.compounds@;
    proof { vrt_vec_len(&fc.compounds); fw_flat(c0); }
//@at after call cut 0
    proof { mid_next(src, c0, fc.compounds@, excess as int, max, prefix, gain as int); }
//@loop 1
    invariant mid_ok(src, fc.compounds@, excess as int, max, prefix),
    decreases excess,
//@at loop 1 start
    let ghost c0 = fc.compounds@;
    proof { vrt_vec_len(&fc.compounds); fw_flat(c0); }
//@at after call cut 1
    proof { mid_next(src, c0, fc.compounds@, excess as int, max, prefix, gain as int); }
//@at after let compounds
    let ghost c0 = compounds@;
    let ghost ex = excess as int;
    let ghost mut c1 = compounds@;
    let ghost mut el = 0int;
    let ghost mut er = 0int;
    let ghost mut kl = 0int;
    let ghost mut kr = 0int;
    proof { assert(flat(c0).skip(0) =~= flat(c0)); assert(flat(c0).take(0) =~= Seq::<SCh>::empty()); }
//@loop 2
    invariant left_ok(c0, compounds@, el, excess_left as int), ccw(c0) < BIG() - 8, ex > 0,
    decreases compounds@.len(), excess_left,
//@at loop 2 start
    let ghost c = compounds@;
    let ghost e = excess_left as int;
    proof { fw_flat(c0); assert(c == compounds@); }
//@at after let char_infos 0
    let ghost s = compound.src@;
    let ghost d0 = *compound;
    proof { str_max(compound.src); assert(flat1(c[0]) == flat1(d0)); if s.len() == 0 { sw_empty(s); left_drop(c0, c, el, e, e); assert(c.remove(0) =~= c.skip(1)); } assert(s.take(0) =~= Seq::<char>::empty()); }
//@at loop 2 before
    proof { el = excess_left as int; assert(left_at(c0, compounds@, el, el, 0)); fw_empty(); }
//@at loop 2 after
    let ghost cl = compounds@;
//@at after call insert 0
    proof {
        raw_dots(compounds@[0]);
        assert(compounds@ =~= seq![compounds@[0]] + cl);
        left_wide(c0, cl, compounds@[0], el, excess_left as int);
        if prefix == 0 { some_chars(c0); kl = left_end(c0, cl, compounds@[0], el, excess_left as int); }
        c1 = compounds@;
    }
//@loop 3
    invariant_except_break
        removed_width == sw(s.take(last_removed_char_idx as int)),
    invariant
        infos_of(s, char_infos@), last_removed_char_idx < char_infos@.len(), blen(s) <= 0x7fff_ffff_ffff_ffff,
    ensures
        removed_width == sw(s.take(last_removed_char_idx + 1)), removed_width >= excess_left || last_removed_char_idx + 1 == s.len(),
    decreases char_infos@.len() - last_removed_char_idx,
//@at loop 3 start
    proof { let k = last_removed_char_idx as int; sw_take(s, k); sw_max(s.take(k)); uwidth_max(s[k]); blen_zero(s); sw_max(s.take(k + 1)); }
//@at loop 3 after
    proof { blen_zero(s); assert(s == c[0].src@);
        let k = last_removed_char_idx + 1;
        if k == s.len() {
            assert(s.take(k) =~= s);
            left_drop(c0, c, el, e, if removed_width >= e { 0 } else { e - removed_width });
            assert(c.remove(0) =~= c.skip(1));
        } else {
            idx_at(s, k);
            left_cut_any(c0, c, el, e, k);
        }
    }
//@at loop 4 before
    proof { er = excess_right as int; fw_empty(); assert(c1.take(c1.len() as int) =~= c1); assert(flat(c1).take(flat(c1).len() as int) =~= flat(c1)); assert(flat(c1).skip(flat(c1).len() as int) =~= Seq::<SCh>::empty()); assert(right_at(c1, compounds@, er, er, flat(c1).len() as int)); }
//@at loop 4 after
    let ghost cr = compounds@;
//@at after call push 1
    proof {
        let d = compounds@.last();
        raw_dots(d);
        assert(compounds@ =~= cr.push(d));
        right_wide(c1, cr, d, er, excess_right as int);
        if prefix == 0 { if el == 0 { some_chars(c0); } kr = right_end(c1, cr, d, er, excess_right as int); }
    }
//@at before call remove 0
    proof { assert(compounds@ =~= c); }
//@at before call remove 1
    proof { assert(compounds@ =~= c); }
//@at before call pop 0
    proof { assert(compounds@ =~= c); }
//@at loop 2 end
    proof { if compounds@.len() == c.len() { assert(compounds@ =~= c.update(0, compounds@[0])); } }
//@at loop 4 end
    proof { if compounds@.len() == c.len() { assert(compounds@ =~= c.update(c.len() - 1, compounds@.last())); } }
//@at after call push 0
    proof {
        raw_dots(fc.compounds@[0]);
        assert(fc.compounds@ =~= seq![fc.compounds@[0]]); flat_one(fc.compounds@[0]);
        let c0 = old(fc).compounds@;
        if prefix == 0 {
            some_chars(c0); fw_dots(); shortened_more(src, src, 0, src.len() as int);
            assert(src.take(0) + seq![dots()] + src.skip(src.len() as int) =~= seq![dots()]);
            assert(src.take(0) + seq![dots()] =~= seq![dots()]);
            assert(seq![dots()] + src.skip(src.len() as int) =~= seq![dots()]);
        }
        fw_flat(fc.compounds@);
    }
//@at before call recompute_width 0
    proof { fw_flat(fc.compounds@); }
//@at body-end
    proof { fw_flat(fc.compounds@); }
//@at before call recompute_width 1
    proof {
        if prefix == 0 { truncated(src, c0, c1, fc.compounds@, ex, max, el, er, kl, kr); }
    }
//@loop 4
    invariant right_ok(c1, compounds@, er, excess_right as int), ex > 0,
    decreases compounds@.len(), excess_right,
//@at loop 4 start
    let ghost c = compounds@;
    let ghost e = excess_right as int;
//@at after let char_infos 1
    let ghost s = compound.src@;
    proof { str_max(compound.src); str_blen(compound.src); assert(s.take(s.len() as int) =~= s); sw_max(s); blen_zero(s); assert(s == c.last().src@); }
//@at loop 5 start
    proof { let k = __k2 as int; sw_max(s); blen_zero(s); sw_take(s, k - 1); sw_max(s.take(k - 1)); uwidth_max(s[k - 1]); }
//@at loop 5 after
    proof {
        let k = __k2 as int;
        blen_zero(s.take(k));
        if end_byte_idx == 0 {
            assert(s.take(0) =~= Seq::<char>::empty());
            right_drop(c1, c, er, e, if removed_width >= e { 0 } else { e - removed_width });
        } else {
            idx_at(s, k); idx_ends(s);
            right_cut_any(c1, c, er, e, k);
        }
    }
//@loop 5
    invariant_except_break
        removed_width < excess_right || __k2 == s.len(),
    invariant
        infos_of(s, char_infos@), __k2 <= s.len(), blen(s) <= 0x7fff_ffff_ffff_ffff, end_byte_idx == blen(s.take(__k2 as int)), removed_width == sw(s) - sw(s.take(__k2 as int)),
    ensures
        removed_width >= excess_right || __k2 == 0,
    decreases __k2,
//@endfn
//@fn src/composite.rs FmtComposite::fit_width
//@spec
    requires old(self).wf(skin), ccw(old(self).compounds@) < BIG() - 8,
    ensures
        final(self).kind == old(self).kind, final(self).spacing == old(self).spacing,
        old(self).visible_length <= width ==> *final(self) == *old(self),
        skin.prefix_len(old(self).kind) == 0 ==> fit_result(*old(self), *final(self), width as int, align, skin),
//@endfn
// a plain line shortened to some columns
pub open spec fn fit_result(o: FmtComposite<'_>, n: FmtComposite<'_>, max: int, align: Alignment, skin: &MadSkin) -> bool {
    let (src, out) = (flat(o.compounds@), flat(n.compounds@));
    &&& n.wf(skin) && n.visible_length <= max
    &&& max == 0 && o.visible_length > 0 ==> n.compounds@.len() == 0
    &&& 0 < max < o.visible_length ==> shortened(src, out) && match align {
        Alignment::Left => end_cut(src, out),
        Alignment::Right => start_cut(src, out),
        _ => true,
    }
}
//@fn src/composite.rs FmtComposite::fill_width
//@spec
    requires old(self).wf(skin), ccw(old(self).compounds@) < BIG() - 8,
    ensures
        final(self).kind == old(self).kind,
        old(self).visible_length <= width ==> final(self).compounds@ == old(self).compounds@ && final(self).visible_length == old(self).visible_length,
        skin.prefix_len(old(self).kind) == 0 || old(self).visible_length <= width ==> fit_result(*old(self), *final(self), width as int, align, skin)
            // exactly as wide as asked
            && (old(self).spacing is None ==> final(self).inner_width() == width && (final(self).spacing matches Some(sp) ==> sp.align == align)),
//@endfn
}
