use vstd::std_specs::iter::IteratorSpec;
verus! {
pub assume_specification<T> [<[T]>::swap] (s: &mut [T], a: usize, b: usize)
    requires a < old(s)@.len(), b < old(s)@.len(),
    ensures final(s)@ == old(s)@.update(a as int, old(s)@[b as int]).update(b as int, old(s)@[a as int]);
pub uninterp spec fn alnum(c: char) -> bool;
pub assume_specification [char::is_alphanumeric] (c: char) -> (r: bool) ensures r == alnum(c);
// unicode-width
#[verifier::external_body]
pub fn vrt_char_width(c: char) -> (r: Option<usize>)
    ensures r == uwidth(c), r matches Some(w) ==> w <= 2,
{ unimplemented!() }

//@type src/views/pos.rs Pos derive=Structural,PartialEq,Eq,Clone,Copy ord default
//@type src/views/pos.rs Range derive=Clone,Copy
//@type src/views/input_field_content.rs Line default
//@type src/views/input_field_content.rs InputFieldContent
//@type src/views/input_field_content.rs Chars

// ------------------------------------------------------------- the abstract content
pub open spec fn lvs(lines: Seq<Line>) -> Seq<Seq<char>> { lines.map_values(|l: Line| l.chars@) }
pub open spec fn is_brk(c: char) -> bool { c == '\n' || c == '\r' || c == '\x08' }
pub open spec fn no_brk(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> !is_brk(#[trigger] s[i]) }
pub open spec fn valid(s: Seq<Seq<char>>, p: Pos) -> bool { p.y < s.len() && p.x <= s[p.y as int].len() }
pub open spec fn lines_ok(s: Seq<Seq<char>>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> no_brk(#[trigger] s[i]) }
pub open spec fn end_of(s: Seq<Seq<char>>) -> Pos { Pos { y: (s.len() - 1) as usize, x: s[s.len() - 1].len() as usize } }
// where a position is brought back
pub open spec fn clamped(s: Seq<Seq<char>>, p: Pos) -> Pos {
    if p.y >= s.len() { end_of(s) } else { Pos { y: p.y, x: if p.x < s[p.y as int].len() { p.x } else { s[p.y as int].len() as usize } } }
}
pub open spec fn plt(a: Pos, b: Pos) -> bool { a.y < b.y || (a.y == b.y && a.x < b.x) }
impl InputFieldContent {
    pub open spec fn lv(&self) -> Seq<Seq<char>> { lvs(self.lines@) }
    // the invariant of C08
    pub open spec fn wf(&self) -> bool {
        lines_ok(self.lv()) && valid(self.lv(), self.pos)
        && (self.selection_tail matches Some(t) ==> valid(self.lv(), t))
    }
    // the content as one string, every line being followed by a line break
    pub open spec fn text(&self) -> Seq<char> { cat(self.lv()) }
    // the content as one string with line breaks
    pub open spec fn string(&self) -> Seq<char> { cat(self.lv()).drop_last() }
    pub open spec fn at(&self) -> int { off(self.lv(), self.pos) }
    pub open spec fn sel_min(&self) -> Pos { match self.selection_tail { Some(t) => if plt(t, self.pos) { t } else { self.pos }, None => self.pos } }
    pub open spec fn sel_max(&self) -> Pos { match self.selection_tail { Some(t) => if plt(t, self.pos) { self.pos } else { t }, None => self.pos } }
    // what reading the selection gives: from its first to its last position, both included
    pub open spec fn sel_from(&self) -> int { off(self.lv(), self.sel_min()) }
    pub open spec fn sel_to(&self) -> int {
        let e = off(self.lv(), self.sel_max()) + 1;
        if e < self.string().len() { e } else { self.string().len() as int }
    }
}
pub open spec fn small(s: Seq<Seq<char>>) -> bool {
    s.len() <= 0x7fff_ffff_ffff_ffff && forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i].len() <= 0x7fff_ffff_ffff_ffff
}
impl InputFieldContent {
    pub proof fn bounds(&self)
        ensures small(self.lv()),
    {
        vrt_vec_len(&self.lines);
        assert forall|i: int| 0 <= i < self.lv().len() implies #[trigger] self.lv()[i].len() <= 0x7fff_ffff_ffff_ffff by {
            vrt_vec_len(&self.lines@[i].chars);
        }
    }
}
pub open spec fn cat(s: Seq<Seq<char>>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { cat(s.drop_last()) + s.last().push('\n') }
}
pub open spec fn off(s: Seq<Seq<char>>, p: Pos) -> int { cat(s.take(p.y as int)).len() + p.x }

pub proof fn cat_app(a: Seq<Seq<char>>, b: Seq<Seq<char>>)
    ensures cat(a + b) == cat(a) + cat(b)
    decreases b.len()
{
    if b.len() == 0 {
        assert(a + b =~= a);
        assert(cat(b) =~= Seq::<char>::empty());
        assert(cat(a) + cat(b) =~= cat(a));
    } else {
        cat_app(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
        assert(cat(a) + (cat(b.drop_last()) + b.last().push('\n')) =~= (cat(a) + cat(b.drop_last())) + b.last().push('\n'));
    }
}
pub proof fn cat_one(l: Seq<char>)
    ensures cat(seq![l]) == l.push('\n')
{
    assert(seq![l].drop_last() =~= Seq::<Seq<char>>::empty());
    assert(cat(seq![l].drop_last()) =~= Seq::<char>::empty());
    assert(cat(seq![l]) =~= l.push('\n'));
}
// around line y
pub proof fn cat_split(s: Seq<Seq<char>>, y: int)
    requires 0 <= y < s.len(),
    ensures cat(s) == cat(s.take(y)) + (s[y].push('\n') + cat(s.skip(y + 1))),
        cat(s).len() == cat(s.take(y)).len() + s[y].len() + 1 + cat(s.skip(y + 1)).len(),
{
    assert(s =~= s.take(y) + (seq![s[y]] + s.skip(y + 1)));
    cat_app(s.take(y), seq![s[y]] + s.skip(y + 1));
    cat_app(seq![s[y]], s.skip(y + 1));
    cat_one(s[y]);
}
// around lines y and y+1
pub proof fn cat_split2(s: Seq<Seq<char>>, y: int)
    requires 0 <= y, y + 1 < s.len(),
    ensures cat(s) == cat(s.take(y)) + (s[y].push('\n') + (s[y + 1].push('\n') + cat(s.skip(y + 2)))),
        cat(s.take(y + 1)) == cat(s.take(y)) + s[y].push('\n'),
{
    cat_split(s, y);
    assert(s.skip(y + 1)[0] == s[y + 1]);
    cat_split(s.skip(y + 1), 0);
    assert(s.skip(y + 1).take(0) =~= Seq::<Seq<char>>::empty());
    assert(cat(Seq::<Seq<char>>::empty()) =~= Seq::<char>::empty());
    assert(s.skip(y + 1).skip(1) =~= s.skip(y + 2));
    assert(Seq::<char>::empty() + (s[y + 1].push('\n') + cat(s.skip(y + 2))) =~= s[y + 1].push('\n') + cat(s.skip(y + 2)));
    assert(s.take(y + 1) =~= s.take(y) + seq![s[y]]);
    cat_app(s.take(y), seq![s[y]]);
    cat_one(s[y]);
}
// replacing line y
pub proof fn cat_update(s: Seq<Seq<char>>, y: int, l: Seq<char>)
    requires 0 <= y < s.len(),
    ensures cat(s.update(y, l)) == cat(s.take(y)) + (l.push('\n') + cat(s.skip(y + 1))),
        s.update(y, l).take(y) == s.take(y),
{
    cat_split(s.update(y, l), y);
    assert(s.update(y, l).take(y) =~= s.take(y));
    assert(s.update(y, l).skip(y + 1) =~= s.skip(y + 1));
}
// the text around a position
pub proof fn at_pos(s: Seq<Seq<char>>, p: Pos)
    requires valid(s, p),
    ensures 0 <= off(s, p) < cat(s).len(),
        cat(s).take(off(s, p)) == cat(s.take(p.y as int)) + s[p.y as int].take(p.x as int),
        cat(s).skip(off(s, p)) == s[p.y as int].skip(p.x as int).push('\n') + cat(s.skip(p.y as int + 1)),
        cat(s)[off(s, p)] == if p.x < s[p.y as int].len() { s[p.y as int][p.x as int] } else { '\n' },
{
    let y = p.y as int;
    cat_split(s, y);
    assert(cat(s).take(off(s, p)) =~= cat(s.take(y)) + s[y].take(p.x as int));
    assert(cat(s).skip(off(s, p)) =~= s[y].skip(p.x as int).push('\n') + cat(s.skip(y + 1)));
    assert(cat(s)[off(s, p)] == cat(s).skip(off(s, p))[0]);
}
pub proof fn off_mono(s: Seq<Seq<char>>, a: Pos, b: Pos)
    requires valid(s, a), valid(s, b), plt(a, b),
    ensures off(s, a) < off(s, b),
{
    if a.y < b.y {
        let (ya, yb) = (a.y as int, b.y as int);
        cat_split(s.take(yb), ya);
        assert(s.take(yb).take(ya) =~= s.take(ya));
        assert(s.take(yb)[ya] == s[ya]);
    }
}
pub proof fn end_off(s: Seq<Seq<char>>)
    requires s.len() > 0, s.len() <= usize::MAX, s[s.len() - 1].len() <= usize::MAX,
    ensures off(s, end_of(s)) == cat(s).len() - 1, valid(s, end_of(s)),
{
    let y = s.len() - 1;
    cat_split(s, y);
    assert(s.skip(y + 1) =~= Seq::<Seq<char>>::empty());
    assert(cat(s.skip(y + 1)).len() == 0);
}
pub open spec fn keep(c: char) -> bool { c != '\r' && c != '\x08' }
pub open spec fn kept(s: Seq<char>) -> Seq<char> { s.filter(|c: char| keep(c)) }

// ------------------------------------------------------------- positions
//@fn src/views/pos.rs Pos::new
//@ret r
//@spec
    ensures r.x == x, r.y == y,
//@endfn
//@fn src/views/input_field_content.rs <Default for InputFieldContent>::default
//@header impl InputFieldContent
//@ret r
//@spec
    ensures r.wf(), r.pos == (Pos { y: 0, x: 0 }), r.selection_tail is None, r.lv() =~~= seq![Seq::<char>::empty()],
//@endfn

//@const src/fit/str_fit.rs TAB_REPLACEMENT
pub open spec fn cw(c: char) -> int { if c == '\t' { TAB_REPLACEMENT@.len() as int } else { match uwidth(c) { Some(w) => w as int, None => 0 } } }
pub open spec fn cols(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 { 0 } else { cols(s.drop_last()) + cw(s.last()) } }
//@fn src/views/input_field_content.rs InputFieldContent::line_count
//@ret r
//@spec
    ensures r == self.lv().len(),
//@endfn
//@fn src/views/input_field_content.rs InputFieldContent::line_saturating
//@ret r
//@spec
    requires self.lines@.len() > 0,
    ensures r.chars@ == self.lv()[if y < self.lv().len() { y as int } else { self.lv().len() - 1 }],
//@endfn
//@fn src/views/input_field_content.rs InputFieldContent::current_line
//@ret r
//@spec
    requires self.pos.y < self.lines@.len(),
    ensures *r == self.lines@[self.pos.y as int],
//@endfn
//@fn src/views/input_field_content.rs InputFieldContent::cursor_pos
//@ret r
//@spec
    ensures r == self.pos,
//@endfn
//@fn src/views/input_field_content.rs InputFieldContent::end
//@ret r
//@spec
    requires self.lines@.len() > 0,
    ensures r == end_of(self.lv()), valid(self.lv(), r),
//@endfn
//@fn src/views/input_field_content.rs InputFieldContent::make_valid_pos
//@ret r
//@spec
    requires self.lines@.len() > 0,
    ensures r == clamped(self.lv(), pos), valid(self.lv(), r),
//@endfn
//@fn src/views/input_field_content.rs InputFieldContent::set_cursor_pos
//@spec
    requires old(self).lines@.len() > 0,
    ensures old(self).wf() ==> final(self).wf(), valid(final(self).lv(), final(self).pos), final(self).lines == old(self).lines, final(self).selection_tail == old(self).selection_tail, final(self).pos == clamped(old(self).lv(), new_pos),
//@endfn
//@fn src/views/input_field_content.rs InputFieldContent::make_selection
//@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).lines == old(self).lines, final(self).pos == old(self).pos, final(self).selection_tail == (if old(self).selection_tail is None { Some(old(self).pos) } else { old(self).selection_tail }),
//@endfn
//@fn src/views/input_field_content.rs InputFieldContent::unselect
//@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).lines == old(self).lines, final(self).pos == old(self).pos, final(self).selection_tail is None,
//@endfn
//@fn src/views/input_field_content.rs InputFieldContent::set_selection_tail
//@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).lines == old(self).lines, final(self).pos == old(self).pos, final(self).selection_tail == Some(clamped(old(self).lv(), sel_tail)),
//@endfn
//@fn src/views/input_field_content.rs InputFieldContent::fix_pos
//@spec
    requires old(self).lines@.len() > 0,
    ensures final(self).lines == old(self).lines, final(self).pos == clamped(old(self).lv(), old(self).pos), final(self).selection_tail == old(self).selection_tail, valid(final(self).lv(), final(self).pos),
//@endfn
//@fn src/views/input_field_content.rs InputFieldContent::fix_selection_tail
//@spec
    requires old(self).lines@.len() > 0,
    ensures final(self).lines == old(self).lines, final(self).pos == old(self).pos, final(self).selection_tail == (match old(self).selection_tail { Some(t) => Some(clamped(old(self).lv(), t)), None => None }),
        final(self).selection_tail matches Some(t) ==> valid(final(self).lv(), t),
//@endfn
//@fn src/views/input_field_content.rs InputFieldContent::fix_selection
//@spec
    requires old(self).lines@.len() > 0,
    ensures final(self).lines == old(self).lines, final(self).pos == clamped(old(self).lv(), old(self).pos), final(self).selection_tail == (match old(self).selection_tail { Some(t) => Some(clamped(old(self).lv(), t)), None => None }),
        valid(final(self).lv(), final(self).pos), final(self).selection_tail matches Some(t) ==> valid(final(self).lv(), t),
//@endfn
//@fn src/views/input_field_content.rs InputFieldContent::selection
//@ret r
//@spec
    ensures r.min == self.sel_min(), r.max == self.sel_max(),
//@endfn
//@fn src/views/input_field_content.rs InputFieldContent::is_empty
//@ret r
//@spec
    requires self.wf(),
    ensures r == (self.string().len() == 0),
//@at body-start
    proof { self.bounds(); end_off(self.lv()); at_pos(self.lv(), Pos { y: 0, x: 0 }); assert(self.lv().take(0) =~= Seq::<Seq<char>>::empty());
        if self.lines@.len() == 1 { assert(self.lv() =~= seq![self.lines@[0].chars@]); cat_one(self.lines@[0].chars@); }
        else { cat_split2(self.lv(), 0); } }
//@endfn
//@fn src/views/input_field_content.rs InputFieldContent::has_selection
//@ret r
//@spec
    ensures r == self.selection_tail is Some,
//@endfn
//@fn src/views/input_field_content.rs InputFieldContent::has_wide_selection
//@ret r
//@spec
    ensures r == (self.selection_tail is Some && self.selection_tail != Some(self.pos)),
//@endfn
//@fn src/views/input_field_content.rs InputFieldContent::clear
//@spec
    ensures final(self).wf(), final(self).lv() =~~= seq![Seq::<char>::empty()], final(self).pos == (Pos { y: 0, x: 0 }), final(self).selection_tail is None,
//@endfn

// ------------------------------------------------------------- edits
// no line break appears in a line of an edited content
pub proof fn brk_of(s: Seq<Seq<char>>, y: int)
    requires lines_ok(s), 0 <= y < s.len(),
    ensures no_brk(s[y]), forall|i: int| 0 <= i < s[y].len() ==> !is_brk(#[trigger] s[y][i]),
{}
//@fn src/views/input_field_content.rs InputFieldContent::insert_new_line
//@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).text() == old(self).text().insert(old(self).at(), '\n'),
        final(self).at() == old(self).at() + 1,
//@at body-start
    let ghost s = self.lv(); let ghost p = self.pos; let ghost l = s[p.y as int];
    proof { self.bounds(); at_pos(s, p); brk_of(s, p.y as int); }
//@at before call fix_selection 0
    proof {
        let f = self.lv(); let y = p.y as int;
        assert(f =~= s.update(y, l.take(p.x as int)).insert(y + 1, l.skip(p.x as int)));
        cat_split(s, y); cat_split2(f, y);
        assert(f.take(y) =~= s.take(y)); assert(f.skip(y + 2) =~= s.skip(y + 1));
        assert(l =~= l.take(p.x as int) + l.skip(p.x as int));
        assert(cat(f) =~= cat(s).insert(off(s, p), '\n'));
        assert(lines_ok(f)) by { assert forall|i: int| 0 <= i < f.len() implies no_brk(#[trigger] f[i]) by {
            if i < y { assert(f[i] == s[i]); } else if i > y + 1 { assert(f[i] == s[i - 1]); } } }
        assert(valid(f, self.pos));
    }
//@endfn
//@fn src/views/input_field_content.rs InputFieldContent::insert_char
//@spec
    requires old(self).wf(),
    ensures final(self).wf(),
        !keep(c) ==> final(self).text() == old(self).text() && final(self).at() == old(self).at(),
        keep(c) ==> final(self).text() == old(self).text().insert(old(self).at(), c) && final(self).at() == old(self).at() + 1,
//@at body-start
    let ghost s = self.lv(); let ghost p = self.pos; let ghost l = s[p.y as int];
    proof { self.bounds(); at_pos(s, p); brk_of(s, p.y as int); }
//@at after call insert 0
    proof {
        let f = self.lv(); let y = p.y as int;
        self.bounds();
        assert(f =~= s.update(y, l.insert(p.x as int, c)));
        assert(f[y] =~= l.insert(p.x as int, c));
        cat_split(s, y); cat_split(f, y);
        assert(f.take(y) =~= s.take(y)); assert(f.skip(y + 1) =~= s.skip(y + 1));
        assert(cat(f) =~= cat(s).insert(off(s, p), c));
        assert(lines_ok(f)) by { assert forall|i: int| 0 <= i < f.len() implies no_brk(#[trigger] f[i]) by {
            if i != y { assert(f[i] == s[i]); } } }
    }
//@endfn

pub proof fn kept_push(s: Seq<char>, i: int)
    requires 0 <= i < s.len(),
    ensures kept(s.take(i + 1)) == if keep(s[i]) { kept(s.take(i)).push(s[i]) } else { kept(s.take(i)) },
{
    assert(s.take(i + 1).drop_last() =~= s.take(i));
    reveal(Seq::filter);
}
//@fn src/views/input_field_content.rs InputFieldContent::insert_str
//@sig (&mut self, s: &str)
//@rule into_id s
//@spec
    requires old(self).wf(),
    ensures final(self).wf(),
        final(self).text() == old(self).text().take(old(self).at()) + kept(s@) + old(self).text().skip(old(self).at()),
        final(self).at() == old(self).at() + kept(s@).len(),
//@loop 0 it
    invariant self.wf(),
        t0 == old(self).text(), a0 == old(self).at(), 0 <= a0 < t0.len(), it.seq() == s@,
        self.text() == t0.take(a0) + kept(s@.take(it.index@ as int)) + t0.skip(a0),
        self.at() == a0 + kept(s@.take(it.index@ as int)).len(),
//@at body-start
    let ghost t0 = self.text(); let ghost a0 = self.at();
    proof { at_pos(self.lv(), self.pos); assert(s@.take(0) =~= Seq::<char>::empty()); reveal(Seq::filter); assert(kept(s@.take(0)) =~= Seq::<char>::empty());
       assert(t0.take(a0) + Seq::<char>::empty() + t0.skip(a0) =~= t0); }
//@at loop 0 start
    let ghost k0 = kept(s@.take(it.index@ as int));
    proof { kept_push(s@, it.index@ as int); at_pos(self.lv(), self.pos); }
//@at loop 0 end
    proof { if keep(c) { assert((t0.take(a0) + k0 + t0.skip(a0)).insert(a0 + k0.len(), c) =~= t0.take(a0) + k0.push(c) + t0.skip(a0)); } }
//@at loop 0 after
    proof { assert(s@.take(s@.len() as int) =~= s@); }
//@endfn
//@fn src/views/input_field_content.rs InputFieldContent::from
//@ret r
//@sig (s: &str) -> (r: InputFieldContent)
//@rule into_id s
//@spec
    ensures r.wf(), r.string() == kept(s@), r.at() == kept(s@).len(), r.selection_tail is None || true,
//@at after let content
    proof { cat_one(Seq::<char>::empty()); content.bounds(); assert(content.lv() == seq![Seq::<char>::empty()]); assert(content.lv().take(0) =~= Seq::<Seq<char>>::empty());
       assert(content.text() =~= seq!['\n']); }
//@at after call insert_str 0
    proof { assert(seq!['\n'].take(0) + kept(s@) + seq!['\n'].skip(0) =~= kept(s@).push('\n')); assert(content.string() =~= kept(s@)); }
//@endfn
//@fn src/views/input_field_content.rs InputFieldContent::last_line
//@ret r
//@spec
    requires old(self).lines@.len() > 0,
    ensures *r == old(self).lines@[old(self).lines@.len() - 1],
        final(self).lines@ == old(self).lines@.update(old(self).lines@.len() - 1, *final(r)),
        final(self).pos == old(self).pos, final(self).selection_tail == old(self).selection_tail,
//@endfn
//@fn src/views/input_field_content.rs InputFieldContent::push_char
//@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).pos == old(self).pos, final(self).selection_tail == old(self).selection_tail,
        final(self).string() =~= if keep(c) { old(self).string().push(c) } else { old(self).string() },
//@at body-start
    let ghost s = self.lv(); let ghost y = s.len() - 1;
    proof { self.bounds(); end_off(s); brk_of(s, y); at_pos(s, end_of(s)); }
//@at body-end
    proof {
        let f = self.lv();
        if c == '\n' { assert(f[y + 1] =~= Seq::<char>::empty()); assert(f =~= s.push(Seq::<char>::empty())); cat_split2(f, y); cat_split(s, y); assert(f.take(y) =~= s.take(y));
            assert(f.skip(y + 2) =~= Seq::<Seq<char>>::empty()); assert(cat(f.skip(y + 2)) =~= Seq::<char>::empty());
            assert(s.skip(y + 1) =~= Seq::<Seq<char>>::empty()); assert(cat(s.skip(y + 1)) =~= Seq::<char>::empty()); }
        else if keep(c) { assert(f =~= s.update(y, s[y].push(c))); cat_update(s, y, s[y].push(c)); cat_split(s, y);
            assert(s.skip(y + 1) =~= Seq::<Seq<char>>::empty()); assert(cat(s.skip(y + 1)) =~= Seq::<char>::empty()); }
        assert(lines_ok(f)) by { assert forall|i: int| 0 <= i < f.len() implies no_brk(#[trigger] f[i]) by {
            if i < y { assert(f[i] == s[i]); } } }
        if valid(s, self.pos) { assert(valid(f, self.pos)); }
    }
//@endfn

// ------------------------------------------------------------- reading
pub proof fn seq_heads()
    ensures forall|a: char, x: Seq<char>| (#[trigger] (seq![a] + x)).drop_first() == x && (seq![a] + x)[0] == a && (seq![a] + x).len() == 1 + x.len(),
        forall|u: Seq<char>, v: Seq<char>| u.len() > 0 && v.len() > 0 && u[0] == v[0] && #[trigger] u.drop_first() == #[trigger] v.drop_first() ==> u == v,
        forall|u: Seq<char>, v: Seq<char>| #[trigger] u.len() == 0 && #[trigger] v.len() == 0 ==> u == v,
{
    assert forall|a: char, x: Seq<char>| (#[trigger] (seq![a] + x)).drop_first() == x && (seq![a] + x)[0] == a && (seq![a] + x).len() == 1 + x.len() by {
        assert((seq![a] + x).drop_first() =~= x);
    }
    assert forall|u: Seq<char>, v: Seq<char>| u.len() > 0 && v.len() > 0 && u[0] == v[0] && #[trigger] u.drop_first() == #[trigger] v.drop_first() implies u == v by {
        assert(u =~= seq![u[0]] + u.drop_first()); assert(v =~= seq![v[0]] + v.drop_first());
    }
    assert forall|u: Seq<char>, v: Seq<char>| #[trigger] u.len() == 0 && #[trigger] v.len() == 0 implies u == v by { assert(u =~= v); }
}
pub proof fn cat_keeps(s: Seq<Seq<char>>)
    requires forall|i: int| 0 <= i < s.len() ==> no_brk(#[trigger] s[i]),
    ensures forall|i: int| 0 <= i < cat(s).len() ==> keep(#[trigger] cat(s)[i]),
    decreases s.len(),
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.drop_last().len() implies no_brk(#[trigger] s.drop_last()[i]) by { assert(s.drop_last()[i] == s[i]); }
        cat_keeps(s.drop_last());
        assert(no_brk(s[s.len() - 1]));
        let a = cat(s.drop_last());
        assert forall|i: int| 0 <= i < cat(s).len() implies keep(#[trigger] cat(s)[i]) by {
            if i < a.len() { assert(cat(s)[i] == a[i]); }
            else if i < a.len() + s.last().len() { let k = i - a.len(); assert(cat(s)[i] == s.last()[k]); assert(!is_brk(s.last()[k])); }
            else { assert(cat(s)[i] == '\n'); }
        }
    }
}
pub proof fn kept_id(s: Seq<char>)
    requires forall|i: int| 0 <= i < s.len() ==> keep(#[trigger] s[i]),
    ensures kept(s) == s,
    decreases s.len(),
{
    reveal(Seq::filter);
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.drop_last().len() implies keep(#[trigger] s.drop_last()[i]) by { assert(s.drop_last()[i] == s[i]); }
        kept_id(s.drop_last());
        assert(keep(s[s.len() - 1]));
        assert(s.drop_last().push(s.last()) =~= s);
    } else { assert(kept(s) =~= s); }
}
impl<'c> Chars<'c> {
    pub open spec fn ok(&self) -> bool { self.content.wf() && valid(self.content.lv(), self.pos) && valid(self.content.lv(), self.end) }
    pub open spec fn hi(&self) -> int {
        let e = off(self.content.lv(), self.end) + 1;
        if e < self.content.string().len() { e } else { self.content.string().len() as int }
    }
    // what's still to be read
    pub open spec fn rest(&self) -> Seq<char> {
        let a = off(self.content.lv(), self.pos);
        if a < self.hi() { self.content.string().subrange(a, self.hi()) } else { Seq::empty() }
    }
    // String: FromIterator<char> calls next until it returns None
    pub fn vrt_collect_string(self) -> (r: String)
        requires self.ok(),
        ensures r@ == self.rest(),
    {
        let mut it = self;
        let mut s = String::new();
        proof { assert(s@ + it.rest() =~= self.rest()); }
        loop
            invariant it.ok(), s@ + it.rest() == self.rest(),
            ensures it.rest().len() == 0, s@ + it.rest() == self.rest(),
            decreases it.rest().len(),
        {
            let ghost r0 = it.rest();
            let ghost s0 = s@;
            match it.next() {
                Some(c) => { s.push(c); proof { assert(s0.push(c) + it.rest() =~= s0 + r0); } }
                None => break,
            }
        }
        proof { assert(s@ + it.rest() =~= s@); }
        s
    }
}
//@fn src/views/input_field_content.rs <Iterator for Chars>::next
//@ret r
//@header impl<'c> Chars<'c>
//@sig (&mut self) -> (r: Option<char>)
//@spec
    requires old(self).ok(),
    ensures final(self).ok(), final(self).content == old(self).content, final(self).end == old(self).end,
        match r { Some(c) => old(self).rest() == seq![c] + final(self).rest(), None => old(self).rest().len() == 0 && final(self).rest().len() == 0 },
//@at body-start
    let ghost s = self.content.lv(); let ghost p = self.pos;
    proof { self.content.bounds(); at_pos(s, p); at_pos(s, self.end);
        if plt(self.end, p) { off_mono(s, self.end, p); } else if plt(p, self.end) { off_mono(s, p, self.end); }
        end_off(s);
        if p.x == s[p.y as int].len() && p.y + 1 < s.len() { cat_split2(s, p.y as int); }
        if p.x == s[p.y as int].len() && p.y + 1 == s.len() { assert(p == end_of(s)); }
        if p.x < s[p.y as int].len() || p.y + 1 < s.len() {
            assert(off(s, p) < cat(s).len() - 1) by { if p != end_of(s) { assert(plt(p, end_of(s))); off_mono(s, p, end_of(s)); } }
            assert(self.content.string()[off(s, p)] == cat(s)[off(s, p)]);
        }
    }
//@at after assign self.pos.x 0
    proof { assert(off(s, self.pos) == off(s, p) + 1);
        assert(old(self).rest() =~= seq![s[p.y as int][p.x as int]] + self.rest()); }
//@at after assign self.pos.x 1
    proof { assert(off(s, self.pos) == off(s, p) + 1);
        assert(old(self).rest() =~= seq!['\n'] + self.rest()); }
//@endfn
//@fn src/views/input_field_content.rs <IntoIterator for InputFieldContent>::into_iter
//@ret r
//@header impl InputFieldContent
//@sig <'c>(&'c self) -> (r: Chars<'c>)
//@spec
    requires self.wf(),
    ensures r.ok(), r.content == self, r.rest() == self.string(),
//@at body-start
    proof { self.bounds(); end_off(self.lv()); assert(self.lv().take(0) =~= Seq::<Seq<char>>::empty()); assert(self.string().subrange(0, self.string().len() as int) =~= self.string()); 
      assert(off(self.lv(), Pos { y: 0, x: 0 }) == 0); }
//@endfn
//@fn src/views/input_field_content.rs InputFieldContent::selection_chars
//@ret r
//@spec
    requires self.wf(),
    ensures r.ok(), r.content == self, r.pos == self.sel_min(), r.end == self.sel_max(),
//@endfn
//@fn src/views/input_field_content.rs InputFieldContent::selection_string
//@ret r
//@rule method collect vrt_collect_string
//@spec
    requires self.wf(),
    ensures self.sel_from() <= self.sel_to(), r@ == self.string().subrange(self.sel_from(), self.sel_to()),
//@at body-start
    proof { self.bounds(); at_pos(self.lv(), self.sel_min()); at_pos(self.lv(), self.sel_max()); end_off(self.lv());
       if plt(self.sel_min(), self.sel_max()) { off_mono(self.lv(), self.sel_min(), self.sel_max()); }
       assert(self.string().subrange(self.sel_from(), self.sel_from()) =~= Seq::<char>::empty()); }
//@endfn
//@fn src/views/input_field_content.rs InputFieldContent::is_str
//@ret r
//@spec
    requires self.wf(),
    ensures r == (self.string() == s@),
//@loop 0
    invariant ia.ok(), (self.string() == s@) <==> (ia.rest() == ib.remaining()),
    decreases ia.rest().len(),
//@at loop 0 start
    proof { seq_heads(); }
//@endfn
//@fn src/views/input_field_content.rs InputFieldContent::set_str
//@sig (&mut self, s: &str)
//@rule into_id s
//@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).string() == kept(s@),
        old(self).string() != s@ ==> final(self).at() == kept(s@).len(),
        old(self).string() == s@ ==> final(self).pos == old(self).pos,
//@at body-start
    proof { cat_keeps(self.lv()); self.bounds(); end_off(self.lv()); if self.string() == s@ {
        assert forall|i: int| 0 <= i < s@.len() implies keep(#[trigger] s@[i]) by { assert(s@[i] == self.text()[i]); }
        kept_id(s@); } }
//@at after call clear 0
    proof { cat_one(Seq::<char>::empty()); assert(self.lv().take(0) =~= Seq::<Seq<char>>::empty()); assert(self.text() =~= seq!['\n']); }
//@at after call insert_str 0
    proof { assert(seq!['\n'].take(0) + kept(s@) + seq!['\n'].skip(0) =~= kept(s@).push('\n')); assert(self.string() =~= kept(s@)); }
//@endfn

// ------------------------------------------------------------- deletions
// lines y+1 appended to line y
pub open spec fn joined(s: Seq<Seq<char>>, y: int) -> Seq<Seq<char>> { s.update(y, s[y] + s[y + 1]).remove(y + 1) }
pub proof fn cat_joined(s: Seq<Seq<char>>, y: int)
    requires lines_ok(s), 0 <= y, y + 1 < s.len(),
    ensures cat(joined(s, y)) == cat(s).remove(off_xy(s, y, s[y].len() as int)), lines_ok(joined(s, y)),
        joined(s, y).take(y) == s.take(y), joined(s, y)[y] == s[y] + s[y + 1],
{
    let f = joined(s, y);
    cat_split2(s, y); cat_split(f, y);
    assert(f.take(y) =~= s.take(y)); assert(f.skip(y + 1) =~= s.skip(y + 2));
    assert(cat(f) =~= cat(s).remove(off_xy(s, y, s[y].len() as int)));
    assert forall|i: int| 0 <= i < f.len() implies no_brk(#[trigger] f[i]) by {
        if i < y { assert(f[i] == s[i]); } else if i > y { assert(f[i] == s[i + 1]); }
        else { assert forall|k: int| 0 <= k < f[y].len() implies !is_brk(#[trigger] f[y][k]) by {
            brk_of(s, y); brk_of(s, y + 1);
            if k < s[y].len() { assert(f[y][k] == s[y][k]); } else { assert(f[y][k] == s[y + 1][k - s[y].len()]); } } }
    }
}
pub open spec fn off_xy(s: Seq<Seq<char>>, y: int, x: int) -> int { cat(s.take(y)).len() + x }
// line y without its characters in a..b
pub open spec fn cut_line(s: Seq<Seq<char>>, y: int, a: int, b: int) -> Seq<Seq<char>> { s.update(y, s[y].take(a) + s[y].skip(b)) }
#[verifier::rlimit(40)]
pub proof fn cat_cut_line(s: Seq<Seq<char>>, y: int, a: int, b: int)
    requires lines_ok(s), 0 <= y < s.len(), 0 <= a <= b <= s[y].len(),
    ensures cat(cut_line(s, y, a, b)) == cat(s).take(off_xy(s, y, a)) + cat(s).skip(off_xy(s, y, b)), lines_ok(cut_line(s, y, a, b)),
        cut_line(s, y, a, b).take(y) == s.take(y),
{
    let f = cut_line(s, y, a, b);
    cat_update(s, y, s[y].take(a) + s[y].skip(b)); cat_split(s, y);
    assert(cat(f) =~= cat(s).take(off_xy(s, y, a)) + cat(s).skip(off_xy(s, y, b)));
    assert forall|i: int| 0 <= i < f.len() implies no_brk(#[trigger] f[i]) by {
        if i != y { assert(f[i] == s[i]); }
        else { assert forall|k: int| 0 <= k < f[y].len() implies !is_brk(#[trigger] f[y][k]) by {
            brk_of(s, y); if k < a { assert(f[y][k] == s[y][k]); } else { assert(f[y][k] == s[y][k - a + b]); } } }
    }
}
//@fn src/views/input_field_content.rs InputFieldContent::del_char_left
//@ret r
//@spec
    requires old(self).wf(),
    ensures final(self).wf(), r == (old(self).at() > 0),
        r ==> final(self).text() == old(self).text().remove(old(self).at() - 1) && final(self).at() == old(self).at() - 1,
        !r ==> *final(self) == *old(self),
//@at body-start
    let ghost s = self.lv(); let ghost p = self.pos;
    proof { self.bounds(); at_pos(s, p); assert(s.take(0) =~= Seq::<Seq<char>>::empty());
        if p.y > 0 { cat_split2(s, p.y - 1); if p.x == 0 { cat_joined(s, p.y - 1); } }
        if p.x > 0 { cat_cut_line(s, p.y as int, p.x - 1, p.x as int); } }
//@at before call fix_selection 0
    proof { let f = self.lv(); let y = p.y as int;
        assert(f[y] =~= s[y].take(p.x - 1) + s[y].skip(p.x as int));
        assert(f =~= cut_line(s, y, p.x - 1, p.x as int));
        assert(cat(f) =~= cat(s).remove(off(s, p) - 1)); assert(off(f, self.pos) == off(s, p) - 1); }
//@at before call fix_selection 1
    proof { let f = self.lv(); let y = p.y - 1;
        assert(f[y] =~= s[y] + s[y + 1]);
        assert(f =~= joined(s, y)); assert(off(f, self.pos) == off(s, p) - 1); }
//@endfn
//@fn src/views/input_field_content.rs InputFieldContent::del_char_below
//@ret r
//@spec
    requires old(self).wf(),
    ensures final(self).wf(),
        r == (old(self).at() < old(self).string().len() || (old(self).lv().len() > 1 && old(self).lv()[old(self).pos.y as int].len() == 0)),
        // the character or line break under the cursor (on an empty last line, this line)
        r ==> final(self).text() == old(self).text().remove(old(self).at()),
        r && old(self).at() < old(self).string().len() ==> final(self).at() == old(self).at() && final(self).pos == old(self).pos,
        r && old(self).at() == old(self).string().len() ==> final(self).at() == old(self).at() - 1,
        !r ==> *final(self) == *old(self),
//@at body-start
    let ghost s = self.lv(); let ghost p = self.pos; let ghost y = p.y as int;
    proof { self.bounds(); at_pos(s, p); end_off(s);
        if plt(p, end_of(s)) { off_mono(s, p, end_of(s)); }
        if p.x < s[y].len() { cat_cut_line(s, y, p.x as int, p.x + 1); }
        else if y + 1 < s.len() { cat_joined(s, y); if s[y].len() == 0 { assert(s[y] + s[y + 1] =~= s[y + 1]); assert(joined(s, y) =~= s.remove(y)); } }
        else if s[y].len() == 0 && y > 0 {
            cat_split2(s, y - 1); cat_split(s, y); assert(s.skip(y + 1) =~= Seq::<Seq<char>>::empty());
            assert(cat(s.skip(y + 1)) =~= Seq::<char>::empty());
            assert(s.remove(y) =~= s.take(y)); assert(cat(s.remove(y)) =~= cat(s).remove(off(s, p)));
            assert(lines_ok(s.remove(y))) by { assert forall|i: int| 0 <= i < s.remove(y).len() implies no_brk(#[trigger] s.remove(y)[i]) by { assert(s.remove(y)[i] == s[i]); } }
        } }
//@at before call fix_selection 0
    proof { let f = self.lv(); assert(f =~= s.remove(y)); self.bounds(); end_off(f); if y < f.len() { assert(f.take(y) =~= s.take(y)); } }
//@at before call fix_selection 1
    proof { let f = self.lv(); assert(f[y] =~= s[y].take(p.x as int) + s[y].skip(p.x + 1)); assert(f =~= cut_line(s, y, p.x as int, p.x + 1));
        assert(cat(f) =~= cat(s).remove(off(s, p))); }
//@at before call fix_selection 2
    proof { let f = self.lv(); assert(f[y] =~= s[y] + s[y + 1]); assert(f =~= joined(s, y)); }
//@endfn

// ------------------------------------------------------------- cutting
pub open spec fn cut(s: Seq<Seq<char>>, a: Pos, tail: Seq<char>, next: int) -> Seq<Seq<char>> {
    s.take(a.y as int).push(s[a.y as int].take(a.x as int) + tail) + s.skip(next)
}
pub proof fn assoc(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    ensures (a + b) + c == a + (b + c),
{ assert((a + b) + c =~= a + (b + c)); }
// what is kept after the last position of a selection
pub open spec fn kept_tail(s: Seq<Seq<char>>, b: Pos) -> Seq<char> {
    if b.x < s[b.y as int].len() { s[b.y as int].skip(b.x + 1) } else if b.y + 1 < s.len() { s[b.y + 1] } else { Seq::empty() }
}
pub open spec fn kept_next(s: Seq<Seq<char>>, b: Pos) -> int {
    if b.x < s[b.y as int].len() || b.y + 1 == s.len() { b.y + 1 } else { b.y + 2 }
}
pub proof fn cut_text(s: Seq<Seq<char>>, a: Pos, b: Pos)
    requires lines_ok(s), small(s), valid(s, a), valid(s, b), plt(a, b),
    ensures ({
        let f = cut(s, a, kept_tail(s, b), kept_next(s, b));
        let st = cat(s).drop_last();
        let e = if off(s, b) + 1 < st.len() { off(s, b) + 1 } else { st.len() as int };
        &&& cat(f).drop_last() == st.take(off(s, a)) + st.skip(e)
        &&& lines_ok(f) &&& valid(f, a) &&& off(f, a) == off(s, a)
    }),
{
    let tl = kept_tail(s, b); let next = kept_next(s, b); let y = b.y as int; let n = s.len() as int;
    let f = cut(s, a, tl, next);
    let st = cat(s).drop_last();
    let e = if off(s, b) + 1 < st.len() { off(s, b) + 1 } else { st.len() as int };
    at_pos(s, a); at_pos(s, b); end_off(s); brk_of(s, y); off_mono(s, a, b);
    if y + 1 < n { brk_of(s, y + 1); }
    assert forall|k: int| 0 <= k < tl.len() implies !is_brk(#[trigger] tl[k]) by { if b.x < s[y].len() { assert(tl[k] == s[y][k + b.x + 1]); } }
    cat_cut(s, a, tl, next);
    let r = cat(s.skip(next));
    if b.x < s[y].len() || y + 1 < n {
        if b.x < s[y].len() {
            assert(cat(s).skip(off(s, b) + 1) =~= cat(s).skip(off(s, b)).skip(1));
            assert(s[y].skip(b.x as int).push('\n').skip(1) =~= tl.push('\n'));
            assert((s[y].skip(b.x as int).push('\n') + r).skip(1) =~= s[y].skip(b.x as int).push('\n').skip(1) + r);
        } else {
            cat_split(s.skip(y + 1), 0);
            assert(s.skip(y + 1).take(0) =~= Seq::<Seq<char>>::empty());
            assert(s.skip(y + 1).skip(1) =~= s.skip(y + 2));
            assert(cat(s.skip(y + 1)) =~= tl.push('\n') + r);
            assert(cat(s).skip(off(s, b) + 1) =~= cat(s).skip(off(s, b)).skip(1));
            assert((s[y].skip(b.x as int).push('\n') + cat(s.skip(y + 1))).skip(1) =~= cat(s.skip(y + 1)));
        }
        assert(cat(s).skip(off(s, b) + 1) == tl.push('\n') + r);
        assert((cat(s).take(off(s, a)) + cat(s).skip(off(s, b) + 1)).drop_last() =~= st.take(off(s, a)) + st.skip(e));
    } else {
        assert(s.skip(next) =~= Seq::<Seq<char>>::empty()); assert(r =~= Seq::<char>::empty());
        assert(tl.push('\n') + r =~= seq!['\n']);
        assert(s.skip(y + 1) =~= Seq::<Seq<char>>::empty());
        assert(b == end_of(s));
        assert((cat(s).take(off(s, a)) + seq!['\n']).drop_last() =~= st.take(off(s, a)) + st.skip(e));
    }
}
pub proof fn cat_cut(s: Seq<Seq<char>>, a: Pos, tail: Seq<char>, next: int)
    requires lines_ok(s), valid(s, a), a.y < next <= s.len(), no_brk(tail),
    ensures cat(cut(s, a, tail, next)) == cat(s).take(off(s, a)) + (tail.push('\n') + cat(s.skip(next))),
        lines_ok(cut(s, a, tail, next)), valid(cut(s, a, tail, next), a), off(cut(s, a, tail, next), a) == off(s, a),
{
    let f = cut(s, a, tail, next); let y = a.y as int; let l = s[y].take(a.x as int) + tail;
    let h = s[y].take(a.x as int); let r = cat(s.skip(next));
    at_pos(s, a);
    cat_split(f, y);
    assert(f[y] == l); assert(f.take(y) =~= s.take(y)); assert(f.skip(y + 1) =~= s.skip(next));
    assert(l.push('\n') + r =~= h + (tail.push('\n') + r));
    assoc(cat(s.take(y)), h, tail.push('\n') + r);
    assert forall|i: int| 0 <= i < f.len() implies no_brk(#[trigger] f[i]) by {
        if i < y { assert(f[i] == s[i]); } else if i > y { assert(f[i] == s[next + i - y - 1]); }
        else { assert forall|k: int| 0 <= k < l.len() implies !is_brk(#[trigger] l[k]) by { brk_of(s, y); if k < a.x { assert(l[k] == s[y][k]); } else { assert(l[k] == tail[k - a.x]); } } }
    }
}
//@fn src/views/input_field_content.rs InputFieldContent::del_selection
//@ret r
//@spec
    requires old(self).wf(),
    ensures final(self).wf(),
        // exactly what selection_string returns is removed, and the cursor is put where it was
        old(self).sel_min() != old(self).sel_max() ==> r && final(self).string() == old(self).string().take(old(self).sel_from()) + old(self).string().skip(old(self).sel_to())
            && final(self).at() == old(self).sel_from() && final(self).pos == old(self).sel_min() && final(self).selection_tail is None,
        // a selection which is just the cursor: the character under it
        old(self).sel_min() == old(self).sel_max() ==> {
            &&& r == (old(self).at() < old(self).string().len() || (old(self).lv().len() > 1 && old(self).lv()[old(self).pos.y as int].len() == 0))
            &&& (r ==> final(self).text() == old(self).text().remove(old(self).at()))
            &&& (!r ==> *final(self) == *old(self))
        },
//@at body-start
    let ghost s = self.lv(); let ghost a = self.sel_min(); let ghost b = self.sel_max(); let ghost n = s.len() as int;
    proof { self.bounds(); if plt(a, b) { cut_text(s, a, b); } }
//@at after let kept
    let ghost tl = kept@; let ghost s1 = self.lv();
    proof {
        assert(tl =~= kept_tail(s, b));
        if b.x < s[b.y as int].len() { assert(s1 =~= s.update(b.y as int, s[b.y as int].take(b.x + 1))); }
        else if b.y + 1 < n { assert(s1 =~= s.remove(b.y + 1)); }
        else { assert(s1 =~= s); }
    }
//@at after call append 0
    proof {
        let f = self.lv(); let next = kept_next(s, b);
        assert(f[a.y as int] =~= s[a.y as int].take(a.x as int) + tl);
        assert forall|i: int| 0 <= i < f.len() && i != a.y implies f[i] == #[trigger] cut(s, a, tl, next)[i] by {}
        assert(f =~= cut(s, a, tl, next));
    }
//@endfn
//@fn src/views/input_field_content.rs InputFieldContent::swap_lines
//@ret r
//@spec
    requires old(self).wf(),
    ensures final(self).wf(), r == (ya != yb && ya < old(self).lv().len() && yb < old(self).lv().len()),
        r ==> final(self).lv() =~= old(self).lv().update(ya as int, old(self).lv()[yb as int]).update(yb as int, old(self).lv()[ya as int]) && final(self).pos.y == old(self).pos.y,
        !r ==> *final(self) == *old(self),
//@at before call fix_selection 0
    proof { let f = self.lv(); let s = old(self).lv(); assert(f =~= s.update(ya as int, s[yb as int]).update(yb as int, s[ya as int]));
       assert forall|i: int| 0 <= i < f.len() implies no_brk(#[trigger] f[i]) by { brk_of(s, ya as int); brk_of(s, yb as int); brk_of(s, i); } }
//@endfn
//@fn src/views/input_field_content.rs InputFieldContent::move_current_line_up
//@ret r
//@spec
    requires old(self).wf(),
    ensures final(self).wf(), r == (old(self).pos.y > 0),
        r ==> final(self).lv() =~= old(self).lv().update(old(self).pos.y - 1, old(self).lv()[old(self).pos.y as int]).update(old(self).pos.y as int, old(self).lv()[old(self).pos.y - 1]) && final(self).pos.y == old(self).pos.y - 1,
        !r ==> *final(self) == *old(self),
//@endfn
//@fn src/views/input_field_content.rs InputFieldContent::move_current_line_down
//@ret r
//@spec
    requires old(self).wf(),
    ensures final(self).wf(), r == (old(self).pos.y + 1 < old(self).lv().len()),
        r ==> final(self).lv() =~= old(self).lv().update(old(self).pos.y + 1, old(self).lv()[old(self).pos.y as int]).update(old(self).pos.y as int, old(self).lv()[old(self).pos.y + 1]) && final(self).pos.y == old(self).pos.y + 1,
        !r ==> *final(self) == *old(self),
//@at body-start
    proof { self.bounds(); }
//@endfn

// ------------------------------------------------------------- moves
pub proof fn cols_bound(s: Seq<char>, i: int)
    requires 0 <= i < s.len(),
    ensures cols(s.take(i + 1)) == cols(s.take(i)) + cw(s[i]),
{ assert(s.take(i + 1).drop_last() =~= s.take(i)); }
//@fn src/views/input_field_content.rs InputFieldContent::char_width
//@ret r
//@rule call UnicodeWidthChar::width vrt_char_width
//@spec
    ensures r == cw(c), r <= 2,
//@at body-start
    proof { reveal_strlit("  "); assert("  ".is_ascii()); }
//@endfn
//@fn src/views/input_field_content.rs Line::char_idx_to_col
//@ret r
//@spec
    requires idx <= self.chars@.len(),
    ensures r == cols(self.chars@.take(idx as int)),
//@loop 0 it
    invariant __acc1 == cols(self.chars@.take(it.index@ as int)), __acc1 <= 2 * it.index@, it.seq().len() == idx, self.chars@.len() <= 0x1fff_ffff_ffff_ffff,
        idx <= self.chars@.len(), forall|i: int| 0 <= i < idx ==> *#[trigger] it.seq()[i] == self.chars@[i],
//@at body-start
    proof { vrt_vec_char_len(&self.chars); assert(self.chars@.take(0) =~= Seq::<char>::empty()); assert(cols(self.chars@.take(0)) == 0); }
//@at loop 0 start
    proof { cols_bound(self.chars@, it.index@ as int); }
//@endfn
//@fn src/views/input_field_content.rs Line::width
//@ret r
//@spec
    ensures r == cols(self.chars@),
//@loop 0 it
    invariant __acc1 == cols(self.chars@.take(it.index@ as int)), __acc1 <= 2 * it.index@, it.seq().len() == self.chars@.len(), self.chars@.len() <= 0x1fff_ffff_ffff_ffff,
        forall|i: int| 0 <= i < self.chars@.len() ==> *#[trigger] it.seq()[i] == self.chars@[i],
//@at body-start
    proof { vrt_vec_char_len(&self.chars); assert(self.chars@.take(0) =~= Seq::<char>::empty()); assert(cols(self.chars@.take(0)) == 0);
        assert(self.chars@.take(self.chars@.len() as int) =~= self.chars@); }
//@at loop 0 start
    proof { cols_bound(self.chars@, it.index@ as int); }
//@endfn
//@fn src/views/input_field_content.rs Line::col_to_char_idx
//@ret r
//@spec
    ensures r matches Some(i) ==> i < self.chars@.len() && cols(self.chars@.take(i as int)) >= col
            && (forall|j: int| 0 <= j < i ==> #[trigger] cols(self.chars@.take(j)) < col),
        r is None ==> (forall|j: int| 0 <= j < self.chars@.len() ==> #[trigger] cols(self.chars@.take(j)) < col),
//@loop 0
    invariant sum_widths == cols(self.chars@.take(idx as int)), sum_widths <= 2 * idx, self.chars@.len() <= 0x1fff_ffff_ffff_ffff,
        forall|j: int| 0 <= j < idx ==> #[trigger] cols(self.chars@.take(j)) < col,
//@at body-start
    proof { vrt_vec_char_len(&self.chars); assert(self.chars@.take(0) =~= Seq::<char>::empty()); assert(cols(self.chars@.take(0)) == 0); }
//@at loop 0 start
    proof { cols_bound(self.chars@, idx as int); }
//@endfn
//@fn src/views/input_field_content.rs InputFieldContent::can_move_right
//@ret r
//@spec
    requires self.wf(),
    ensures r == (self.pos != end_of(self.lv())),
//@at body-start
    proof { self.bounds(); }
//@endfn
//@fn src/views/input_field_content.rs InputFieldContent::can_move_left
//@ret r
//@spec
    requires self.wf(),
    ensures r == (self.pos != (Pos { y: 0, x: 0 })),
//@endfn
//@fn src/views/input_field_content.rs InputFieldContent::move_right
//@ret r
//@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).lines == old(self).lines, final(self).selection_tail == old(self).selection_tail,
        r == (final(self).pos != old(self).pos),
        r == (old(self).pos != end_of(old(self).lv())), r ==> plt(old(self).pos, final(self).pos),
//@at body-start
    proof { self.bounds(); }
//@endfn
//@fn src/views/input_field_content.rs InputFieldContent::move_left
//@ret r
//@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).lines == old(self).lines, final(self).selection_tail == old(self).selection_tail,
        r == (final(self).pos != old(self).pos),
        r == (old(self).pos != (Pos { y: 0, x: 0 })), r ==> plt(final(self).pos, old(self).pos),
//@at body-start
    proof { self.bounds(); }
//@endfn
//@fn src/views/input_field_content.rs InputFieldContent::move_lines_up
//@ret r
//@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).lines == old(self).lines, final(self).selection_tail == old(self).selection_tail,
        r == (final(self).pos != old(self).pos),
        r ==> final(self).pos.y == (if lines < old(self).pos.y { old(self).pos.y - lines } else { 0 }),
        r == (lines > 0 && old(self).pos.y > 0),
//@at body-start
    proof { self.bounds(); }
//@endfn
//@fn src/views/input_field_content.rs InputFieldContent::move_lines_down
//@ret r
//@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).lines == old(self).lines, final(self).selection_tail == old(self).selection_tail,
        r == (final(self).pos != old(self).pos),
        r ==> final(self).pos.y == (if lines + old(self).pos.y < old(self).lv().len() { old(self).pos.y + lines } else { old(self).lv().len() - 1 }),
        r == (lines > 0 && old(self).pos.y + 1 < old(self).lv().len()),
//@at body-start
    proof { self.bounds(); }
//@endfn
//@fn src/views/input_field_content.rs InputFieldContent::move_up
//@ret r
//@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).lines == old(self).lines, final(self).selection_tail == old(self).selection_tail,
        r == (final(self).pos != old(self).pos),
//@endfn
//@fn src/views/input_field_content.rs InputFieldContent::move_down
//@ret r
//@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).lines == old(self).lines, final(self).selection_tail == old(self).selection_tail,
        r == (final(self).pos != old(self).pos),
//@endfn
//@fn src/views/input_field_content.rs InputFieldContent::move_to_end
//@ret r
//@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).lines == old(self).lines, final(self).selection_tail == old(self).selection_tail,
        r == (final(self).pos != old(self).pos),
        final(self).pos == end_of(old(self).lv()),
//@endfn
//@fn src/views/input_field_content.rs InputFieldContent::move_to_start
//@ret r
//@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).lines == old(self).lines, final(self).selection_tail == old(self).selection_tail,
        r == (final(self).pos != old(self).pos),
        final(self).pos == (Pos { y: 0, x: 0 }),
//@endfn
//@fn src/views/input_field_content.rs InputFieldContent::move_to_line_end
//@ret r
//@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).lines == old(self).lines, final(self).selection_tail == old(self).selection_tail,
        r == (final(self).pos != old(self).pos),
        final(self).pos.y == old(self).pos.y, final(self).pos.x == old(self).lv()[old(self).pos.y as int].len(),
//@endfn
//@fn src/views/input_field_content.rs InputFieldContent::move_to_line_start
//@ret r
//@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).lines == old(self).lines, final(self).selection_tail == old(self).selection_tail,
        r == (final(self).pos != old(self).pos),
        final(self).pos.y == old(self).pos.y, final(self).pos.x == 0,
//@endfn
//@fn src/views/input_field_content.rs InputFieldContent::move_word_left
//@ret r
//@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).lines == old(self).lines, final(self).selection_tail == old(self).selection_tail,
        r == (final(self).pos != old(self).pos),
        final(self).pos.y == old(self).pos.y, final(self).pos.x <= old(self).pos.x,
//@loop 0
    invariant_except_break self.wf(), self.lines == old(self).lines, self.selection_tail == old(self).selection_tail, self.pos.y == old(self).pos.y,
        0 < self.pos.x <= old(self).pos.x, chars == self.lines@[self.pos.y as int].chars,
    ensures self.wf(), self.lines == old(self).lines, self.selection_tail == old(self).selection_tail, self.pos.y == old(self).pos.y, self.pos.x < old(self).pos.x,
    decreases self.pos.x,
//@endfn
//@fn src/views/input_field_content.rs InputFieldContent::move_word_right
//@ret r
//@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).lines == old(self).lines, final(self).selection_tail == old(self).selection_tail,
        r == (final(self).pos != old(self).pos),
        final(self).pos.y == old(self).pos.y, final(self).pos.x >= old(self).pos.x,
//@at body-start
    proof { self.bounds(); }
//@loop 0
    invariant_except_break self.wf(), self.lines == old(self).lines, self.selection_tail == old(self).selection_tail, self.pos.y == old(self).pos.y,
        old(self).pos.x <= self.pos.x < chars@.len(), chars == self.lines@[self.pos.y as int].chars, small(self.lv()), chars@.len() <= 0x7fff_ffff_ffff_ffff,
    ensures self.wf(), self.lines == old(self).lines, self.selection_tail == old(self).selection_tail, self.pos.y == old(self).pos.y, self.pos.x > old(self).pos.x,
    decreases chars@.len() - self.pos.x,
//@endfn
// ------------------------------------------------------------- words
//@fn src/views/input_field_content.rs is_word_char
//@ret r
//@spec
    ensures r == (alnum(c) || c == '_'),
//@endfn
//@fn src/views/input_field_content.rs InputFieldContent::select_word_around
//@ret r
//@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).lines == old(self).lines, final(self).pos.y == old(self).pos.y,
        !r ==> *final(self) == *old(self),
        r ==> final(self).selection_tail is Some && final(self).selection_tail->0.y == old(self).pos.y
            && final(self).selection_tail->0.x <= old(self).pos.x <= final(self).pos.x < old(self).lv()[old(self).pos.y as int].len(),
//@at body-start
    proof { self.bounds(); }
//@loop 0
    invariant start <= self.pos.x < chars@.len(), chars == self.lines@[self.pos.y as int].chars,
    decreases start,
//@loop 1
    invariant start <= self.pos.x <= end < chars@.len(), chars == self.lines@[self.pos.y as int].chars, chars@.len() <= 0x7fff_ffff_ffff_ffff,
    decreases chars@.len() - end,
//@endfn
//@fn src/views/input_field_content.rs InputFieldContent::del_word_left
//@ret r
//@spec
    requires old(self).wf(),
    ensures final(self).wf(), r == (old(self).pos.x > 0),
        // removes one run of the line, ending at the cursor
        final(self).pos.y == old(self).pos.y, r ==> final(self).pos.x < old(self).pos.x,
        final(self).lv() =~= cut_line(old(self).lv(), old(self).pos.y as int, final(self).pos.x as int, old(self).pos.x as int),
        final(self).text() == old(self).text().take(final(self).at()) + old(self).text().skip(old(self).at()),
        final(self).at() == old(self).at() - (old(self).pos.x - final(self).pos.x),
        !r ==> *final(self) == *old(self),
//@at body-start
    let ghost s = self.lv(); let ghost p = self.pos; let ghost y = p.y as int; let ghost l = s[y];
    proof { self.bounds(); cat_cut_line(s, y, p.x as int, p.x as int); assert(l.take(p.x as int) + l.skip(p.x as int) =~= l); assert(cut_line(s, y, p.x as int, p.x as int) =~= s); }
//@loop 0
    invariant_except_break self.pos.y == p.y, 0 < self.pos.x <= p.x, p.x <= l.len(), self.selection_tail == old(self).selection_tail,
        chars@ =~= l.take(self.pos.x as int) + l.skip(p.x as int),
    ensures self.pos.y == p.y, self.pos.x < p.x, self.selection_tail == old(self).selection_tail,
        chars@ =~= l.take(self.pos.x as int) + l.skip(p.x as int),
    decreases self.pos.x,
//@at before call fix_selection 0
    proof { let f = self.lv(); assert(f =~= cut_line(s, y, self.pos.x as int, p.x as int)); cat_cut_line(s, y, self.pos.x as int, p.x as int); 
        assert(f[y].len() >= self.pos.x); }
//@endfn
//@fn src/views/input_field_content.rs InputFieldContent::del_word_right
//@ret r
//@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).pos.y == old(self).pos.y,
        r == (old(self).lv()[old(self).pos.y as int].len() > 0),
        ({
            let l = old(self).lv()[old(self).pos.y as int];
            let k = l.len() - final(self).lv()[old(self).pos.y as int].len();
            // removes one run of the line, starting at the cursor, empty only when the cursor is at the end of the line
            &&& 0 <= k &&& old(self).pos.x + k <= l.len()
            &&& (old(self).pos.x < l.len() ==> k > 0)
            &&& final(self).lv() =~= cut_line(old(self).lv(), old(self).pos.y as int, old(self).pos.x as int, old(self).pos.x + k)
            &&& final(self).text() == old(self).text().take(old(self).at()) + old(self).text().skip(old(self).at() + k)
            // the cursor doesn't move, except to stay on a character at the end of the line
            &&& (final(self).pos.x == old(self).pos.x || (old(self).pos.x + k == l.len() && final(self).pos.x == old(self).pos.x - 1))
        }),
//@at body-start
    let ghost s = self.lv(); let ghost p = self.pos; let ghost y = p.y as int; let ghost l = s[y]; let ghost mut k: int = 0;
    proof { self.bounds(); cat_cut_line(s, y, p.x as int, p.x as int); assert(l.take(p.x as int) + l.skip(p.x as int) =~= l); assert(cut_line(s, y, p.x as int, p.x as int) =~= s); }
//@loop 0
    invariant_except_break self.pos == p, self.selection_tail == old(self).selection_tail,
        0 <= k, p.x < chars@.len(), p.x + k <= l.len(), chars@ =~= l.take(p.x as int) + l.skip(p.x + k),
    ensures self.pos.y == p.y, self.selection_tail == old(self).selection_tail,
        0 < k, p.x + k <= l.len(), chars@ =~= l.take(p.x as int) + l.skip(p.x + k),
        self.pos.x == p.x || (p.x + k == l.len() && self.pos.x == p.x - 1),
    decreases chars@.len(),
//@at after call remove 0
    proof { k = k + 1; }
//@at before call fix_selection 0
    proof { let f = self.lv(); assert(f =~= cut_line(s, y, p.x as int, p.x + k)); cat_cut_line(s, y, p.x as int, p.x + k); }
//@at before assign self.pos.x 1
    proof { assert(self.lv() =~= s); }
//@at else 4 start
    proof { assert(self.lv() =~= s); }
//@endfn

// ------------------------------------------------------------- cutting then inserting
pub proof fn text_string(s: Seq<Seq<char>>)
    requires s.len() > 0,
    ensures cat(s) == cat(s).drop_last().push('\n'),
{ assert(cat(s).last() == '\n'); assert(cat(s) =~= cat(s).drop_last().push('\n')); }
// with the contracts of selection_string, del_selection and insert_str: before, cut and after
// are the contents before the cut, after it, and after the insertion of the cut string
pub proof fn cut_then_insert(before: InputFieldContent, cut: InputFieldContent, after: InputFieldContent, copied: Seq<char>)
    requires before.wf(), cut.wf(), after.wf(), before.sel_min() != before.sel_max(),
        copied == before.string().subrange(before.sel_from(), before.sel_to()),
        cut.string() == before.string().take(before.sel_from()) + before.string().skip(before.sel_to()), cut.at() == before.sel_from(),
        after.text() == cut.text().take(cut.at()) + kept(copied) + cut.text().skip(cut.at()),
    ensures after.string() == before.string(),
{
    before.bounds(); cut.bounds();
    let (a, b) = (before.sel_from(), before.sel_to());
    at_pos(before.lv(), before.sel_min()); at_pos(before.lv(), before.sel_max()); off_mono(before.lv(), before.sel_min(), before.sel_max());
    end_off(before.lv());
    text_string(before.lv()); text_string(cut.lv()); text_string(after.lv());
    cat_keeps(before.lv());
    assert forall|i: int| 0 <= i < copied.len() implies keep(#[trigger] copied[i]) by { assert(copied[i] == before.text()[a + i]); }
    kept_id(copied);
    assert(cut.text().take(a) =~= before.string().take(a));
    assert(cut.text().skip(a) =~= before.string().skip(b).push('\n'));
    assert(after.text() =~= before.text());
}
}
