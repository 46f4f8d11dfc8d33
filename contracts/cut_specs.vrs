// how composites are cut in lines
verus! {
pub open spec fn follow(kind: CompositeKind) -> CompositeKind { match kind { CompositeKind::ListItem(l) => CompositeKind::ListItemFollowUp(l), k => k } }
// a line made of the chars between two marks
pub open spec fn part(src: Seq<SCh>, c: Seq<Compound<'_>>, m: (int, int)) -> bool { 0 <= m.0 <= m.1 <= src.len() && flat(c) == src.subrange(m.0, m.1) }
// the lines are, in order, parts of the source with only blanks dropped at the cuts
#[verifier::opaque]
pub open spec fn cut_with(src: Seq<SCh>, lines: Seq<FmtComposite<'_>>, marks: Seq<(int, int)>) -> bool {
    &&& marks.len() == lines.len()
    &&& forall|i: int| 0 <= i < lines.len() ==> part(src, #[trigger] lines[i].compounds@, marks[i])
    &&& lines.len() > 0 ==> marks[0].0 == 0
    &&& forall|i: int| 0 <= i && i + 1 < lines.len() ==> (#[trigger] marks[i]).1 <= marks[i + 1].0 && blanks(src, marks[i].1, marks[i + 1].0)
}
pub open spec fn done_at(lines: Seq<FmtComposite<'_>>, marks: Seq<(int, int)>) -> int { if marks.len() == 0 { 0 } else { marks.last().1 } }
pub open spec fn is_cut(src: Seq<SCh>, lines: Seq<FmtComposite<'_>>) -> bool {
    lines.len() > 0 && exists|marks: Seq<(int, int)>| #[trigger] cut_with(src, lines, marks) && blanks(src, marks.last().1, src.len() as int)
}
// the first line is of the source's kind, the other ones are continuations
#[verifier::opaque]
pub open spec fn lines_ok(src: FmtComposite<'_>, lines: Seq<FmtComposite<'_>>, skin: &MadSkin) -> bool {
    &&& forall|i: int| 0 <= i < lines.len() ==> (#[trigger] lines[i]).wf(skin) && lines[i].spacing == src.spacing
        && lines[i].kind == (if i == 0 { src.kind } else { follow(src.kind) })
}
#[verifier::opaque]
pub open spec fn lines_fit(lines: Seq<FmtComposite<'_>>, width: int) -> bool { forall|i: int| 0 <= i < lines.len() ==> (#[trigger] lines[i]).visible_length <= width }
pub proof fn cut_extend(src: Seq<SCh>, lines: Seq<FmtComposite<'_>>, marks: Seq<(int, int)>, d: FmtComposite<'_>, e: FmtComposite<'_>, a: int, b: int, b2: int)
    requires cut_with(src, lines.push(d), marks.push((a, b))), part(src, e.compounds@, (a, b2)),
    ensures cut_with(src, lines.push(e), marks.push((a, b2))),
{
    reveal(cut_with);
    let (l0, m0, l, m) = (lines.push(d), marks.push((a, b)), lines.push(e), marks.push((a, b2)));
    assert forall|i: int| 0 <= i < l.len() implies part(src, #[trigger] l[i].compounds@, m[i]) by { if i < lines.len() { assert(l0[i] == l[i] && m0[i] == m[i]); } }
    assert(m[0].0 == m0[0].0);
    assert forall|i: int| 0 <= i && i + 1 < l.len() implies (#[trigger] m[i]).1 <= m[i + 1].0 && blanks(src, m[i].1, m[i + 1].0) by { assert(m0[i] == m[i] && m0[i + 1].0 == m[i + 1].0); }
}
pub proof fn cut_part(src: Seq<SCh>, l: Seq<FmtComposite>, marks: Seq<(int, int)>, d: FmtComposite, m: (int, int))
    requires cut_with(src, l.push(d), marks.push(m)),
    ensures part(src, d.compounds@, m),
{
    reveal(cut_with);
    let (l1, m1) = (l.push(d), marks.push(m));
    assert(l1.len() == m1.len());
    assert(l1[l.len() as int] == d && m1[marks.len() as int] == m);
}
pub proof fn cut_next(src: Seq<SCh>, lines: Seq<FmtComposite<'_>>, marks: Seq<(int, int)>, e: FmtComposite<'_>, a: int, b: int)
    requires cut_with(src, lines, marks), lines.len() > 0, part(src, e.compounds@, (a, b)), marks.last().1 <= a, blanks(src, marks.last().1, a),
    ensures cut_with(src, lines.push(e), marks.push((a, b))),
{
    reveal(cut_with);
    let (l, m) = (lines.push(e), marks.push((a, b)));
    assert forall|i: int| 0 <= i < l.len() implies part(src, #[trigger] l[i].compounds@, m[i]) by { if i < lines.len() { assert(lines[i] == l[i] && marks[i] == m[i]); } }
    assert(m[0].0 == marks[0].0);
    assert forall|i: int| 0 <= i && i + 1 < l.len() implies (#[trigger] m[i]).1 <= m[i + 1].0 && blanks(src, m[i].1, m[i + 1].0) by {
        assert(marks[i] == m[i]); if i + 1 < lines.len() { assert(marks[i + 1] == m[i + 1]); }
    }
}
pub open spec fn line_ok(src: FmtComposite<'_>, i: int, d: FmtComposite<'_>, skin: &MadSkin) -> bool { d.wf(skin) && d.spacing == src.spacing && d.kind == (if i == 0 { src.kind } else { follow(src.kind) }) }
pub proof fn ok_push(src: FmtComposite<'_>, lines: Seq<FmtComposite<'_>>, d: FmtComposite<'_>, skin: &MadSkin)
    requires lines_ok(src, lines, skin), line_ok(src, lines.len() as int, d, skin),
    ensures lines_ok(src, lines.push(d), skin),
{ reveal(lines_ok); let l = lines.push(d); assert forall|i: int| 0 <= i < l.len() implies line_ok(src, i, #[trigger] l[i], skin) by { if i < lines.len() { assert(l[i] == lines[i]); } } }
pub proof fn ok_last(src: FmtComposite<'_>, lines: Seq<FmtComposite<'_>>, d: FmtComposite<'_>, skin: &MadSkin)
    requires lines_ok(src, lines.push(d), skin),
    ensures lines_ok(src, lines, skin), line_ok(src, lines.len() as int, d, skin),
{ reveal(lines_ok); let l = lines.push(d); assert(l[lines.len() as int] == d); assert forall|i: int| 0 <= i < lines.len() implies line_ok(src, i, #[trigger] lines[i], skin) by { assert(l[i] == lines[i]); } }
pub proof fn fit_push(lines: Seq<FmtComposite<'_>>, d: FmtComposite<'_>, width: int)
    requires lines_fit(lines, width), d.visible_length <= width,
    ensures lines_fit(lines.push(d), width),
{ reveal(lines_fit); }
pub proof fn fit_last(lines: Seq<FmtComposite<'_>>, d: FmtComposite<'_>, width: int)
    requires lines_fit(lines.push(d), width),
    ensures lines_fit(lines, width), d.visible_length <= width,
{ reveal(lines_fit); let l = lines.push(d); assert(l[lines.len() as int] == d); assert forall|i: int| 0 <= i < lines.len() implies #[trigger] lines[i].visible_length <= width by { assert(l[i] == lines[i]); } }
// the whole composite cut between its fragments, or at its blank second one
pub proof fn clean_cut(fc: FmtComposite<'_>, d: FmtComposite<'_>, e: FmtComposite<'_>, skin: &MadSkin, width: int)
    requires
        fc.compounds@.len() == 2 || fc.compounds@.len() == 3 && all_blank(fc.compounds@[1].src@),
        d.compounds@.len() == 1, d.compounds@[0] == fc.compounds@[0], e.compounds@.len() == 1, e.compounds@[0] == fc.compounds@.last(),
        line_ok(fc, 0, d, skin), line_ok(fc, 1, e, skin), d.visible_length <= width, e.visible_length <= width,
    ensures is_cut(flat(fc.compounds@), seq![d, e]), lines_ok(fc, seq![d, e], skin), lines_fit(seq![d, e], width),
{
    let c = fc.compounds@;
    let n = c.len() as int;
    let src = flat(c);
    let (c0, c1) = (c[0], c[n - 1]);
    let l = seq![d, e];
    flat_push(Seq::empty(), c0); flat_push(Seq::empty(), c1);
    assert(d.compounds@ =~= Seq::empty().push(c0)); assert(e.compounds@ =~= Seq::empty().push(c1));
    flat_take(c, 0); flat_take(c, 1); if n == 3 { flat_take(c, 2); }
    assert(c.take(0) =~= Seq::<Compound<'_>>::empty()); assert(c.take(n) =~= c);
    let (x, y) = (c0.src@.len() as int, src.len() - c1.src@.len());
    assert(flat(d.compounds@) =~= src.subrange(0, x));
    assert(flat(e.compounds@) =~= src.subrange(y, src.len() as int));
    assert forall|i: int| x <= i < y implies blank(#[trigger] src[i].0) by { assert(n == 3); assert(src[i] == flat1(c[1])[i - x]); assert(blank(c[1].src@[i - x])); }
    let marks = seq![(0int, x), (y, src.len() as int)];
    reveal(cut_with); reveal(lines_ok); reveal(lines_fit);
    assert(cut_with(src, l, marks));
    assert(marks.last() == (y, src.len() as int));
}
// the k-th token in the chars of all of them
pub proof fn token_at(t: Seq<Token<'_>>, k: int, max: int)
    requires 0 <= k < t.len(), t[k].ok(max),
    ensures ({
        let (p, q, n) = (tflat(t.take(k)).len() as int, tflat(t.take(k + 1)).len() as int, t[k].flat());
        &&& 0 <= p < q <= tflat(t).len() && q == p + n.len()
        &&& tflat(t).subrange(p, q) == n
        &&& fw(n) == t[k].width
        &&& fw(tflat(t).take(q)) == fw(tflat(t).take(p)) + t[k].width
        &&& fw(tflat(t).take(q)) <= fw(tflat(t))
        &&& t[k].blank ==> blanks(tflat(t), p, q)
        &&& forall|w: int| #[trigger] narrow(tflat(t), w) && max <= w ==> t[k].width <= w
    }),
{
    let (p, q, n) = (tflat(t.take(k)).len() as int, tflat(t.take(k + 1)).len() as int, t[k].flat());
    let s = tflat(t);
    let tk = t[k];
    tflat_take(t, k); tflat_prefix(t, k); tflat_prefix(t, k + 1);
    assert(n.len() == tk.b() - tk.a());
    assert(s.subrange(p, q) =~= s.take(q).subrange(p, q));
    assert(s.take(q) =~= s.take(p) + n);
    assert(s.subrange(p, q) =~= n);
    fw_add(s.take(p), n);
    fw_flat1(tk.compound, tk.a(), tk.b());
    assert(s =~= s.take(q) + s.skip(q)); fw_add(s.take(q), s.skip(q)); fw_pos(s.skip(q));
    if tk.blank { assert forall|i: int| p <= i < q implies blank(#[trigger] s[i].0) by { assert(s[i] == n[i - p]); assert(tk.chars()[i - p] == n[i - p].0); } }
    assert forall|w: int| #[trigger] narrow(s, w) && max <= w implies tk.width <= w by {
        if tk.chars().len() == 1 { reveal_with_fuel(sw, 2); assert(tk.chars().drop_last() =~= Seq::<char>::empty()); assert(s[p] == n[0]); assert(n[0].0 == tk.chars()[0]); }
    }
}
//@type src/errors.rs InsufficientWidthError derive=Debug
//@fn src/fit/wrap.rs follow_up_composite
//@ret r
//@spec
    ensures r.kind == follow(fc.kind), r.compounds@ == Seq::<Compound<'_>>::empty(), r.spacing == fc.spacing, r.wf(skin), r.visible_length == skin.prefix_len(follow(fc.kind)),
//@endfn
//@fn src/fit/wrap.rs composite_kind_widths
//@ret r
//@spec
    ensures r.0 == skin.prefix_len(composite_kind), r.1 == skin.prefix_len(follow(composite_kind)), r.1 <= r.0,
//@endfn
//@fn src/fit/wrap.rs hard_wrap_composite
//@ret r
//@rule width
//@spec
    requires src_composite.visible_length > width, ccw(src_composite.compounds@) < BIG(),
    ensures
        width < 3 ==> r is Err,
        width >= 3 ==> r is Ok,
        r matches Ok(l) ==> is_cut(flat(src_composite.compounds@), l@) && lines_ok(*src_composite, l@, skin)
            && (narrow(flat(src_composite.compounds@), width - skin.prefix_len(src_composite.kind)) && skin.prefix_len(src_composite.kind) <= width ==> lines_fit(l@, width as int)),
//@at after let compounds
    let ghost src = flat(compounds@);
    let ghost d1 = dst_composite;
    proof {
        fw_flat(compounds@);
        if compounds@.len() >= 1 { ccw_take(compounds@, 0); ccw_mono(compounds@, 1, compounds@.len() as int); }
        if compounds@.len() >= 2 { ccw_take(compounds@, 1); ccw_mono(compounds@, 2, compounds@.len() as int); }
        if compounds@.len() >= 3 { ccw_take(compounds@, 2); ccw_mono(compounds@, 3, compounds@.len() as int); }
        assert(compounds@.take(0) =~= Seq::<Compound<'_>>::empty());
        assert(compounds@.take(compounds@.len() as int) =~= compounds@);
    }
//@at after call push 1
    proof {
        clean_cut(*src_composite, composites@[0], composites@[1], skin, width as int);
        assert(composites@ =~= seq![composites@[0], composites@[1]]);
    }
//@at after let tokens
    let ghost toks = tokens@;
    let ghost max = (if width >= first_width { width - first_width } else { 0 }) as int;
    let ghost mut marks: Seq<(int, int)> = Seq::empty();
    let ghost mut a = 0int;
    let ghost mut b = 0int;
    proof {
        assert(flat(dst_composite.compounds@) =~= src.subrange(0, 0));
        assert(cut_with(src, composites@.push(dst_composite), marks.push((a, b)))) by { reveal(cut_with); assert(composites@.push(dst_composite)[0] == dst_composite); assert(part(src, dst_composite.compounds@, (0, 0))); }
        assert(lines_ok(*src_composite, composites@, skin)) by { reveal(lines_ok); }
        ok_push(*src_composite, composites@, dst_composite, skin);
        if first_width <= width { assert(lines_fit(composites@, width as int)) by { reveal(lines_fit); } fit_push(composites@, dst_composite, width as int); }
        assert(toks.take(0) =~= Seq::empty());
    }
//@loop 0 it
    invariant
        it.seq() == toks, tflat(toks) == src, forall|i: int| 0 <= i < toks.len() ==> (#[trigger] toks[i]).ok(max),
        max == (if width >= first_width { width - first_width } else { 0 }),
        first_width == skin.prefix_len(src_composite.kind), other_widths <= first_width <= 0x1000,
        fw(src) < BIG(),
        cut_with(src, composites@.push(dst_composite), marks.push((a, b))),
        b <= tflat(toks.take(it.index@ as int)).len(), blanks(src, b, tflat(toks.take(it.index@ as int)).len() as int),
        !cut ==> b == tflat(toks.take(it.index@ as int)).len(),
        lines_ok(*src_composite, composites@.push(dst_composite), skin),
        narrow(src, width - first_width) && first_width <= width ==> lines_fit(composites@.push(dst_composite), width as int),
        dst_composite.visible_length <= first_width + fw(src.take(tflat(toks.take(it.index@ as int)).len() as int)),
//@at loop 0 start
    let ghost k = it.index@ as int;
    let ghost p = tflat(toks.take(k)).len() as int;
    let ghost q = tflat(toks.take(k + 1)).len() as int;
    let ghost l0 = composites@;
    let ghost d0 = dst_composite;
    let ghost fits = narrow(src, width - first_width) && first_width <= width;
    proof { ok_last(*src_composite, l0, d0, skin); if fits { fit_last(l0, d0, width as int); } token_at(toks, k, max); assert(toks[k].ok(max)); fw_pos(src.take(p)); }
//@at loop 0 end
    proof {
        let e = dst_composite;
        if composites@.len() > l0.len() {
            let m1 = marks.push((a, b));
            assert(composites@ =~= l0.push(d0));
            assert(e.compounds@ =~= Seq::empty().push(e.compounds@[0])); flat_push(Seq::empty(), e.compounds@[0]);
            assert(flat(e.compounds@) =~= toks[k].flat());
            cut_next(src, composites@, m1, e, p, q);
            marks = m1; a = p; b = q;
        } else if e.compounds@.len() > d0.compounds@.len() {
            cut_part(src, l0, marks, d0, (a, b));
            flat_push(d0.compounds@, e.compounds@.last());
            assert(src.subrange(a, b) + src.subrange(p, q) =~= src.subrange(a, q));
            cut_extend(src, l0, marks, d0, e, a, b, q);
            b = q;
        }
        ok_push(*src_composite, composites@, e, skin);
        if fits { fit_push(composites@, e, width as int); }
    }
//@at loop 0 after
    let ghost l1 = composites@;
    let ghost d1 = dst_composite;
    proof { assert(toks.take(toks.len() as int) =~= toks); }
//@at body-end
    proof {
        assert(composites@ =~= l1.push(d1));
        assert(marks.push((a, b)).last() == (a, b));
    }
//@endfn

// ---------------------------------------------------------------- lines of a text
impl<'s> FmtComposite<'s> {
    pub open spec fn ready(&self, skin: &MadSkin) -> bool { self.wf(skin) && ccw(self.compounds@) < BIG() && kind_ok(self.kind) }
    // columns displayed, with the spacing and the margins
    pub open spec fn shown_width(&self, skin: &MadSkin, width: usize) -> int {
        let m = margins(skin.line_style_of(self.kind), Some(width));
        m.0 + m.1 + match self.spacing { Some(sp) => if sp.width > self.visible_length { sp.width } else { self.visible_length }, None => self.visible_length }
    }
}
pub open spec fn avail(kind: CompositeKind, skin: &MadSkin, width: usize) -> int { let m = margins(skin.line_style_of(kind), Some(width)); width - m.0 - m.1 }
pub open spec fn kind_ok(kind: CompositeKind) -> bool { kind matches CompositeKind::Header(l) ==> l > 0 }
// what minimad may produce (its list items aren't deeper than 3)
pub open spec fn kind_fine(kind: CompositeKind) -> bool {
    kind_ok(kind) && (kind matches CompositeKind::ListItem(d) ==> d < 255) && (kind matches CompositeKind::ListItemFollowUp(d) ==> d < 255)
}
pub open spec fn skin_ok(skin: &MadSkin) -> bool { forall|kind: CompositeKind| kind_ok(kind) ==> (#[trigger] skin.line_style_of(kind)).left_margin < BIG() && skin.line_style_of(kind).right_margin < BIG() }
// a justified line can't be wider than what's available
pub open spec fn limited(fc: FmtComposite<'_>, a: int) -> FmtComposite<'_> {
    match fc.spacing { Some(sp) => FmtComposite { spacing: Some(Spacing { width: if sp.width <= a { sp.width } else { a as usize }, align: sp.align }), ..fc }, None => fc }
}
pub open spec fn normals<'s>(l: Seq<FmtComposite<'s>>) -> Seq<FmtLine<'s>> { l.map_values(|fc: FmtComposite<'s>| FmtLine::Normal(fc)) }
pub open spec fn wrapped_in(fc: FmtComposite<'_>, l: Seq<FmtComposite<'_>>, skin: &MadSkin, width: usize) -> bool {
    let a = avail(fc.kind, skin, width);
    if fc.visible_length <= a { l == seq![limited(fc, a)] } else {
        &&& is_cut(flat(fc.compounds@), l)
        &&& lines_ok(limited(fc, a), l, skin)
        &&& narrow(flat(fc.compounds@), a - skin.prefix_len(fc.kind)) && skin.prefix_len(fc.kind) <= a ==> lines_fit(l, a)
    }
}
pub open spec fn wrapped_line(src: FmtLine<'_>, p: Seq<FmtLine<'_>>, skin: &MadSkin, width: usize) -> bool {
    match src {
        FmtLine::Normal(fc) => exists|l: Seq<FmtComposite<'_>>| p == normals(l) && #[trigger] wrapped_in(fc, l, skin, width),
        _ => p == seq![src],
    }
}
pub open spec fn cat(p: Seq<Seq<FmtLine<'_>>>) -> Seq<FmtLine<'_>> decreases p.len() { if p.len() == 0 { Seq::empty() } else { cat(p.drop_last()) + p.last() } }
#[verifier::opaque]
pub open spec fn wrapped_with(src: Seq<FmtLine<'_>>, p: Seq<Seq<FmtLine<'_>>>, skin: &MadSkin, width: usize) -> bool {
    p.len() == src.len() && forall|i: int| 0 <= i < src.len() ==> wrapped_line(src[i], #[trigger] p[i], skin, width)
}
pub open spec fn wrapped(src: Seq<FmtLine<'_>>, r: Seq<FmtLine<'_>>, skin: &MadSkin, width: usize) -> bool {
    exists|p: Seq<Seq<FmtLine<'_>>>| r == cat(p) && #[trigger] wrapped_with(src, p, skin, width)
}
pub proof fn wrapped_next(src: Seq<FmtLine<'_>>, p: Seq<Seq<FmtLine<'_>>>, k: int, q: Seq<FmtLine<'_>>, skin: &MadSkin, width: usize)
    requires 0 <= k < src.len(), wrapped_with(src.take(k), p, skin, width), wrapped_line(src[k], q, skin, width),
    ensures wrapped_with(src.take(k + 1), p.push(q), skin, width), cat(p.push(q)) == cat(p) + q,
{
    reveal(wrapped_with);
    let (s, r) = (src.take(k + 1), p.push(q));
    assert(r.drop_last() =~= p);
    assert forall|i: int| 0 <= i < s.len() implies wrapped_line(s[i], #[trigger] r[i], skin, width) by { if i < k { assert(src.take(k)[i] == s[i]); assert(p[i] == r[i]); } }
}
//@fn src/fit/wrap.rs hard_wrap_lines
//@ret r
//@spec
    requires skin_ok(skin), forall|i: int| 0 <= i < src_lines@.len() ==> (#[trigger] src_lines@[i] matches FmtLine::Normal(fc) ==> fc.ready(skin)),
    ensures
        width >= 3 ==> r is Ok,
        r matches Ok(l) ==> wrapped(src_lines@, l@, skin, width),
//@at after let lines
    let ghost mut p: Seq<Seq<FmtLine<'_>>> = Seq::empty();
    let ghost s0 = src_lines@;
    proof { reveal(wrapped_with); assert(wrapped_with(s0.take(0), p, skin, width)); }
//@loop 0 it
    invariant
        it.seq() == s0, skin_ok(skin), forall|i: int| 0 <= i < s0.len() ==> (#[trigger] s0[i] matches FmtLine::Normal(fc) ==> fc.ready(skin)),
        lines@ == cat(p), wrapped_with(s0.take(it.index@ as int), p, skin, width),
//@at loop 0 start
    let ghost k = it.index@ as int;
    let ghost sl = src_line;
    let ghost base = lines@;
    let ghost mut q: Seq<FmtLine<'_>> = seq![sl];
    proof { assert(s0[k] == sl); if let FmtLine::Normal(fc) = sl { let st = skin.line_style_of(fc.kind); assert(st.left_margin < BIG() && st.right_margin < BIG()); } }
//@at loop 0 end
    proof {
        if let FmtLine::Normal(fc) = sl { q = lines@.skip(base.len() as int); }
        assert(wrapped_line(sl, q, skin, width));
        assert(lines@ =~= base + q);
        wrapped_next(s0, p, k, q, skin, width);
        p = p.push(q);
    }
//@at after call push 0
    proof {
        let f0 = sl->Normal_0;
        let l = seq![limited(f0, avail(f0.kind, skin, width))];
        assert(wrapped_in(f0, l, skin, width));
        assert(lines@.skip(base.len() as int) =~= normals(l));
    }
//@loop 1 ic
    invariant
        sl is Normal, wrapped_in(sl->Normal_0, ic.seq(), skin, width),
        lines@ == base + normals(ic.seq().take(ic.index@ as int)), base == cat(p),
        ic.index@ == ic.seq().len() ==> lines@ == base + normals(ic.seq()), ic.seq().len() > 0,
//@at loop 1 end
    proof {
        let j = ic.index@ as int;
        assert(lines@ =~= base + normals(ic.seq().take(j + 1)));
        assert(j + 1 == ic.seq().len() ==> ic.seq().take(j + 1) =~= ic.seq());
    }
//@at loop 1 after
    proof {
        assert forall|l: Seq<FmtLine<'_>>| (#[trigger] (base + l)).skip(base.len() as int) == l by { assert((base + l).skip(base.len() as int) =~= l); }
    }
//@at body-end
    proof { assert(s0.take(s0.len() as int) =~= s0); }
//@endfn
// C01: every line got from a source line is at most as wide as what's available, and its cached length is the real one
pub open spec fn roomy(fc: FmtComposite<'_>, skin: &MadSkin, width: usize) -> bool {
    let a = avail(fc.kind, skin, width);
    narrow(flat(fc.compounds@), a - skin.prefix_len(fc.kind)) && skin.prefix_len(fc.kind) <= a && kind_fine(fc.kind)
}
pub proof fn wrapped_width(fc: FmtComposite<'_>, l: Seq<FmtComposite<'_>>, skin: &MadSkin, width: usize)
    requires wrapped_in(fc, l, skin, width), fc.ready(skin), width >= 3,
    ensures forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]).wf(skin) && l[i].kind == (if i == 0 { fc.kind } else { follow(fc.kind) }),
        roomy(fc, skin, width) ==> forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]).shown_width(skin, width) <= width,
{
    reveal(lines_ok); reveal(lines_fit);
    assert(skin.line_style_of(follow(fc.kind)) == skin.line_style_of(fc.kind));
}
}
