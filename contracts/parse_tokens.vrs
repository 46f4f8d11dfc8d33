// style texts: their tokens
verus! {
pub open spec fn word_char(c: char) -> bool { !rx_space(c) && c != '(' && c != ')' }
pub open spec fn arg_char(c: char) -> bool { rx_word(c) || c == ',' || rx_space(c) }
// the regex of a token: a word, maybe followed by arguments
pub open spec fn tok_items(items: Seq<Rx>) -> bool {
    &&& items.len() == 5
    &&& items[0] is C && items[0]->C_1 == 1 && items[0]->C_2 is None && (forall|c: char| #[trigger] rx_in(c, items[0]->C_0) == word_char(c))
    &&& items[1] == Rx::O(3)
    &&& items[2] == Rx::W(Seq::empty().push('('), false)
    &&& items[3] is C && items[3]->C_1 == 1 && items[3]->C_2 is None && (forall|c: char| #[trigger] rx_in(c, items[3]->C_0) == arg_char(c))
    &&& items[4] == Rx::W(Seq::empty().push(')'), false)
}
pub open spec fn all_word(x: Seq<char>) -> bool { forall|i: int| 0 <= i < x.len() ==> word_char(#[trigger] x[i]) }
pub open spec fn all_arg(x: Seq<char>) -> bool { forall|i: int| 0 <= i < x.len() ==> arg_char(#[trigger] x[i]) }
pub open spec fn ends(r: Seq<char>) -> bool { r.len() == 0 || r[0] == ' ' }
pub open spec fn matches_len(items: Seq<Rx>, s: Seq<char>, n: int) -> bool { rx(items, s) matches Some(l) && total(l) == n }
pub proof fn total_zeros(n: int)
    requires 0 <= n,
    ensures total(zeros(n)) == 0,
    decreases n,
{ if n > 0 { assert(zeros(n).drop_last() =~= zeros(n - 1)); total_zeros(n - 1); } }
pub proof fn total_app(a: Seq<int>, b: Seq<int>)
    ensures total(a + b) == total(a) + total(b),
    decreases b.len(),
{ if b.len() == 0 { assert(a + b =~= a); } else { assert((a + b).drop_last() =~= a + b.drop_last()); total_app(a, b.drop_last()); } }
pub proof fn simple_token(items: Seq<Rx>, x: Seq<char>, r: Seq<char>)
    requires tok_items(items), all_word(x), x.len() > 0, ends(r),
    ensures matches_len(items, x + r, x.len() as int),
{
    broadcast use {rx_ascii, fold_ascii};
    let i1 = items.skip(1); let i2 = i1.skip(1); let i5 = i1.skip(4);
    assert(i5 =~= Seq::<Rx>::empty()); rx_nil(r);
    assert(i2[0] == items[2]);
    assert(!rx_at(r, Seq::empty().push('('), false)) by { if r.len() > 0 { assert(rx_ch(r[0], false) == ' '); assert(Seq::<char>::empty().push('(')[0] == '('); } }
    assert(rx(i2, r) is None);
    assert(i1[0] == Rx::O(3));
    assert(rx(i1, r) == Some(zeros(4) + Seq::<int>::empty()));
    assert forall|i: int| 0 <= i < x.len() implies rx_in(#[trigger] x[i], items[0]->C_0) by { assert(word_char(x[i])); }
    if r.len() > 0 { assert(!word_char(r[0])); assert(!rx_in(r[0], items[0]->C_0)); }
    rx_step_c(items, x, r);
    assert(zeros(4) + Seq::<int>::empty() =~= zeros(4));
    total_zeros(4); total1(x.len() as int); total_app(seq![x.len() as int], zeros(4));
}
pub proof fn call_token(items: Seq<Rx>, x: Seq<char>, y: Seq<char>, r: Seq<char>)
    requires tok_items(items), all_word(x), x.len() > 0, all_arg(y), y.len() > 0,
    ensures matches_len(items, x + (seq!['('] + (y + (seq![')'] + r))), (x.len() + y.len() + 2) as int),
{
    broadcast use {rx_ascii, fold_ascii};
    let a = seq!['(']; let b = seq![')'];
    assert(a =~= Seq::empty().push('(')); assert(b =~= Seq::empty().push(')'));
    let i1 = items.skip(1); let i2 = i1.skip(1); let i3 = i2.skip(1); let i4 = i3.skip(1); let i5 = i4.skip(1);
    assert(i1[0] == items[1]); assert(i2[0] == items[2]); assert(i3[0] == items[3]); assert(i4[0] == items[4]);
    assert(i5 =~= Seq::<Rx>::empty()); rx_nil(r);
    rx_step_w(i4, b, r);
    let r4 = b + r;
    assert(r4[0] == ')'); assert(!arg_char(')')); assert(!rx_in(r4[0], i3[0]->C_0));
    assert forall|i: int| 0 <= i < y.len() implies rx_in(#[trigger] y[i], i3[0]->C_0) by { assert(arg_char(y[i])); }
    rx_step_c(i3, y, r4);
    let r3 = y + r4;
    rx_step_w(i2, a, r3);
    let r2 = a + r3;
    assert(r2[0] == '('); assert(!word_char('(')); assert(!rx_in(r2[0], items[0]->C_0));
    assert(rx(i1, r2) == Some(seq![0int] + rx(i2, r2)->0));
    assert forall|i: int| 0 <= i < x.len() implies rx_in(#[trigger] x[i], items[0]->C_0) by { assert(word_char(x[i])); }
    rx_step_c(items, x, r2);
    let l = rx(items, x + r2)->0;
    let l0 = seq![x.len() as int]; 
    assert(l =~= l0.push(0).push(1).push(y.len() as int).push(1));
    total1(x.len() as int); total_add(l0, 0); total_add(l0.push(0), 1); total_add(l0.push(0).push(1), y.len() as int); total_add(l0.push(0).push(1).push(y.len() as int), 1);
}
pub proof fn digits_word(d: Seq<char>)
    requires all_digits(d),
    ensures all_word(d), all_arg(d),
{
    broadcast use {rx_ascii, fold_ascii};
    assert forall|i: int| 0 <= i < d.len() implies word_char(#[trigger] d[i]) && arg_char(d[i]) by { assert(is_digit(d[i])); }
}
pub proof fn letters_word(s: Seq<char>)
    requires letters(low(s)), ascii(s),
    ensures all_word(s),
{
    broadcast use {rx_ascii, fold_ascii};
    assert forall|i: int| 0 <= i < s.len() implies word_char(#[trigger] s[i]) by { assert(low(s)[i] == fold(s[i])); }
}
pub proof fn token_match(items: Seq<Rx>, t: StyleToken, r: Seq<char>)
    requires tok_items(items), ok_token(t), text(t).len() > 0, ends(r),
    ensures matches_len(items, text(t) + r, text(t).len() as int),
{
    let s = text(t);
    match t {
        StyleToken::Char(c) => { simple_token(items, s, r); }
        StyleToken::Color(Color::AnsiValue(v)) => {
            broadcast use {rx_ascii, fold_ascii};
            reveal_strlit("ansi("); reveal_strlit(")");
            let x = seq!['a', 'n', 's', 'i']; let y = dec(v as int);
            dec_back(v as int); digits_word(y);
            call_token(items, x, y, r);
            assert(s + r =~= x + (seq!['('] + (y + (seq![')'] + r))));
        }
        StyleToken::Color(Color::Rgb { r: cr, g, b }) => { rgb_token(items, cr, g, b, r); }
        StyleToken::Color(c) => { color_words(c); letters_word(s); simple_token(items, s, r); }
        StyleToken::Attribute(a) => { attr_words(a); letters_word(s); simple_token(items, s, r); }
        StyleToken::Align(a) => { align_words(a); letters_word(s); simple_token(items, s, r); }
        StyleToken::Dimension(n) => { dec_back(n as int); digits_word(s); simple_token(items, s, r); }
        StyleToken::None => { 
            broadcast use {rx_ascii, fold_ascii};
            reveal_strlit("none"); simple_token(items, s, r); }
    }
}
pub proof fn rgb_token(items: Seq<Rx>, cr: u8, cg: u8, cb: u8, r: Seq<char>)
    requires tok_items(items),
    ensures matches_len(items, rgb_text(cr, cg, cb) + r, rgb_text(cr, cg, cb).len() as int),
{
    broadcast use {rx_ascii, fold_ascii};
    reveal_strlit("rgb("); reveal_strlit(")"); reveal_strlit(", ");
    let s = rgb_text(cr, cg, cb);
    let (a, b, c) = (dec(cr as int), dec(cg as int), dec(cb as int));
    dec_back(cr as int); digits_word(a);
    dec_back(cg as int); digits_word(b);
    dec_back(cb as int); digits_word(c);
    let x = seq!['r', 'g', 'b'];
    let cs = seq![',', ' '];
    assert(all_arg(cs));
    let y = a + cs + b + cs + c;
    assert forall|i: int| 0 <= i < y.len() implies arg_char(#[trigger] y[i]) by {
        let (la, lb) = (a.len() as int, b.len() as int);
        if i < la { assert(y[i] == a[i]); }
        else if i < la + 2 { assert(y[i] == cs[i - la]); }
        else if i < la + 2 + lb { assert(y[i] == b[i - la - 2]); }
        else if i < la + 4 + lb { assert(y[i] == cs[i - la - 2 - lb]); }
        else { assert(y[i] == c[i - la - 4 - lb]); }
    }
    call_token(items, x, y, r);
    assert(", "@ =~= cs);
    assert(s + r =~= x + (seq!['('] + (y + (seq![')'] + r))));
}
// ------------------------------------------------------------- all the tokens of a text
pub open spec fn all_ok(t: Seq<StyleToken>) -> bool { forall|i: int| 0 <= i < t.len() ==> ok_token(#[trigger] t[i]) }
// the tokens from k which aren't written as nothing
pub open spec fn ne(t: Seq<StyleToken>, k: int) -> Seq<StyleToken> decreases t.len() - k {
    if k < 0 || k >= t.len() { Seq::empty() } else if text(t[k]).len() == 0 { ne(t, k + 1) } else { seq![t[k]] + ne(t, k + 1) }
}
pub proof fn joined_prefix(t: Seq<StyleToken>, k: int)
    requires 0 <= k <= t.len(),
    ensures joined(t).len() >= joined(t.take(k)).len(), joined(t).take(joined(t.take(k)).len() as int) == joined(t.take(k)),
    decreases t.len(),
{
    let p = joined(t.take(k));
    if k == t.len() { assert(t.take(k) =~= t); assert(joined(t).take(p.len() as int) =~= p); } else {
        let d = t.drop_last();
        assert(d.take(k) =~= t.take(k));
        joined_prefix(d, k);
        if joined(d).len() == 0 { assert(p.len() == 0); assert(joined(t).take(0) =~= p); } else {
            assert forall|i: int| 0 <= i < p.len() implies joined(t)[i] == #[trigger] p[i] by { assert(joined(t)[i] == joined(d)[i]); assert(joined(d).take(p.len() as int)[i] == joined(d)[i]); }
            assert(joined(t).take(p.len() as int) =~= p);
        }
    }
}
pub open spec fn at(t: Seq<StyleToken>, k: int) -> int { joined(t.take(k)).len() as int }
// what's between two tokens' ends
pub proof fn joined_step(t: Seq<StyleToken>, k: int)
    requires 0 <= k < t.len(),
    ensures at(t, k + 1) <= joined(t).len(), at(t, k) <= at(t, k + 1),
        joined(t).subrange(at(t, k), at(t, k + 1)) == (if at(t, k) == 0 { text(t[k]) } else { seq![' '] + text(t[k]) }),
{
    joined_prefix(t, k); joined_prefix(t, k + 1); joined_next(t, k);
    let s = joined(t); let (a, b) = (at(t, k), at(t, k + 1));
    let x = if a == 0 { text(t[k]) } else { seq![' '] + text(t[k]) };
    let p = joined(t.take(k)); let q = joined(t.take(k + 1));
    assert(q =~= p + x);
    assert forall|i: int| 0 <= i < x.len() implies s.subrange(a, b)[i] == #[trigger] x[i] by { assert(s.take(b)[a + i] == q[a + i]); }
    assert(s.subrange(a, b) =~= x);
}
pub open spec fn found(s: Seq<char>, f: Seq<(int, int)>, t: Seq<StyleToken>) -> bool {
    &&& f.len() == t.len()
    &&& forall|i: int| 0 <= i < f.len() ==> s.subrange((#[trigger] f[i]).0, f[i].1) == text(t[i])
}
pub proof fn blank_no_match(items: Seq<Rx>, s: Seq<char>)
    requires tok_items(items), s.len() > 0, s[0] == ' ',
    ensures rx(items, s) is None,
{
    broadcast use {rx_ascii, fold_ascii};
    assert(!word_char(s[0])); assert(!rx_in(s[0], items[0]->C_0));
    assert(rx_run(s, items[0]->C_0) == 0);
    assert(rx_try(items, s, 1, 0) is None);
}
pub proof fn finds_from(items: Seq<Rx>, t: Seq<StyleToken>, k: int)
    requires tok_items(items), all_ok(t), 0 <= k <= t.len(),
    ensures found(joined(t), rx_finds(items, joined(t), at(t, k)), ne(t, k)),
    decreases t.len() - k,
{
    let s = joined(t); let p = at(t, k);
    if k == t.len() { assert(t.take(k) =~= t); assert(p == s.len()); } else {
        joined_step(t, k);
        finds_from(items, t, k + 1);
        let e = at(t, k + 1);
        let seg = s.subrange(p, e);
        let x = text(t[k]);
        let f2 = rx_finds(items, s, e);
        let q = if p > 0 { p + 1 } else { p };
        if p > 0 {
            assert(s[p] == seg[0]); assert(s.skip(p)[0] == ' ');
            blank_no_match(items, s.skip(p));
            assert(rx_finds(items, s, p) == rx_finds(items, s, q));
        }
        assert(q + x.len() == e);
        if x.len() > 0 {
            let r = s.skip(e);
            if k + 1 < t.len() { joined_step(t, k + 1); if r.len() > 0 { 
                let e2 = at(t, k + 2);
                let g = s.subrange(e, e2); assert(g[0] == ' '); assert(s[e] == g[0]); assert(r[0] == s[e]); } }
            else { assert(t.take(k + 1) =~= t); assert(r.len() == 0); }
            assert forall|i: int| 0 <= i < x.len() implies s[q + i] == #[trigger] x[i] by { assert(seg[q - p + i] == s[q + i]); }
            assert(s.skip(q) =~= x + r);
            token_match(items, t[k], r);
            let f = rx_finds(items, s, q);
            assert(f == seq![(q, e)] + f2);
            assert(s.subrange(q, e) =~= x);
            assert forall|i: int| 0 <= i < f.len() implies s.subrange((#[trigger] f[i]).0, f[i].1) == text(ne(t, k)[i]) by {
                if i > 0 { assert(f[i] == f2[i - 1]); assert(ne(t, k)[i] == ne(t, k + 1)[i - 1]); }
            }
        }
    }
}
pub proof fn ne_ok(t: Seq<StyleToken>, k: int)
    requires all_ok(t), 0 <= k <= t.len(),
    ensures forall|i: int| 0 <= i < ne(t, k).len() ==> ok_token(#[trigger] ne(t, k)[i]) && text(ne(t, k)[i]).len() > 0,
    decreases t.len() - k,
{
    if k < t.len() {
        ne_ok(t, k + 1);
        let (a, b) = (ne(t, k), ne(t, k + 1));
        assert forall|i: int| 0 <= i < a.len() implies ok_token(#[trigger] a[i]) && text(a[i]).len() > 0 by { if text(t[k]).len() == 0 { assert(a[i] == b[i]); } else if i > 0 { assert(a[i] == b[i - 1]); } else { assert(a[i] == t[k]); } }
    }
}
pub open spec fn is_text_of(t: Seq<StyleToken>, s: Seq<char>) -> bool { all_ok(t) && joined(t) == s }
pub proof fn any3()
    ensures forall|c: char, ci: bool, a: Rc, b: Rc, d: Rc| #[trigger] rx_any(c, ci, Seq::empty().push(a).push(b).push(d)) == (rc_has(a, c, ci) || rc_has(b, c, ci) || rc_has(d, c, ci)),
{
    assert forall|c: char, ci: bool, a: Rc, b: Rc, d: Rc| #[trigger] rx_any(c, ci, Seq::empty().push(a).push(b).push(d)) == (rc_has(a, c, ci) || rc_has(b, c, ci) || rc_has(d, c, ci)) by {
        let s = Seq::empty().push(a).push(b).push(d);
        assert(s[0] == a && s[1] == b && s[2] == d);
    }
}
pub proof fn all_finds(s: Seq<char>)
    ensures forall|items: Seq<Rx>, t: Seq<StyleToken>| tok_items(items) && #[trigger] is_text_of(t, s) ==> found(s, #[trigger] rx_finds(items, s, 0), ne(t, 0)),
        forall|t: Seq<StyleToken>, i: int| #[trigger] is_text_of(t, s) && 0 <= i < ne(t, 0).len() ==> ok_token(#[trigger] ne(t, 0)[i]) && text(ne(t, 0)[i]).len() > 0,
{
    assert forall|items: Seq<Rx>, t: Seq<StyleToken>| tok_items(items) && #[trigger] is_text_of(t, s) implies found(s, #[trigger] rx_finds(items, s, 0), ne(t, 0)) by {
        assert(t.take(0) =~= Seq::<StyleToken>::empty());
        finds_from(items, t, 0);
    }
    assert forall|t: Seq<StyleToken>, i: int| #[trigger] is_text_of(t, s) && 0 <= i < ne(t, 0).len() implies ok_token(#[trigger] ne(t, 0)[i]) && text(ne(t, 0)[i]).len() > 0 by { ne_ok(t, 0); }
}
//@fn src/parse/mod.rs parse_style_tokens
//@ret r
//@spec
    ensures forall|t: Seq<StyleToken>| #[trigger] is_text_of(t, s@) ==> (r matches Ok(v) && v@ == ne(t, 0)),
//@at loop 0 before
    proof { broadcast use {rx_ascii, fold_ascii}; all_finds(s@); any3(); }
    let ghost gm = __matches1@;
    assert(forall|t: Seq<StyleToken>| #[trigger] is_text_of(t, s@) ==> gm.len() == ne(t, 0).len());
//@loop 0 it
    invariant it.seq().map_values(|x: &VrtMatch| *x) == gm,
        forall|t: Seq<StyleToken>, i: int| #[trigger] is_text_of(t, s@) && 0 <= i < ne(t, 0).len() ==> ok_token(#[trigger] ne(t, 0)[i]) && text(ne(t, 0)[i]).len() > 0,
        forall|t: Seq<StyleToken>| #[trigger] is_text_of(t, s@) ==> gm.len() == ne(t, 0).len(),
        forall|t: Seq<StyleToken>, i: int| #[trigger] is_text_of(t, s@) && 0 <= i < gm.len() ==> (#[trigger] gm[i]).text() == text(ne(t, 0)[i]),
        forall|t: Seq<StyleToken>| #[trigger] is_text_of(t, s@) ==> tokens@ == ne(t, 0).take(it.index@),
//@at loop 0 start
    proof { assert(*m == gm[it.index@]); assert forall|t: Seq<StyleToken>| #[trigger] is_text_of(t, s@) implies ok_token(ne(t, 0)[it.index@]) && text(ne(t, 0)[it.index@]) == m.text() && m.text().len() > 0 by {} }
//@at loop 0 end
    proof { assert forall|t: Seq<StyleToken>| #[trigger] is_text_of(t, s@) implies tokens@ == ne(t, 0).take(it.index@ + 1) by {
        let k = it.index@; assert(*m == gm[k]); assert(text(ne(t, 0)[k]) == gm[k].text()); assert(ok_token(ne(t, 0)[k]));
        assert(tokens@ =~= ne(t, 0).take(k + 1));
    } }
//@at loop 0 after
    proof { assert forall|t: Seq<StyleToken>| #[trigger] is_text_of(t, s@) implies tokens@ == ne(t, 0) by { assert(ne(t, 0).take(ne(t, 0).len() as int) =~= ne(t, 0)); } }
//@endfn
// ------------------------------------------------------------- written and read
pub open spec fn ok_style(c: CompoundStyle) -> bool {
    plain_style(c) && (c.fg() matches Some(x) ==> ok_color(x)) && (c.bg() matches Some(x) ==> ok_color(x))
}
pub open spec fn ok_line(s: LineStyle) -> bool { ok_style(s.compound_style) && s.left_margin < 65536 && s.right_margin < 65536 }
pub open spec fn ok_styled_char(s: StyledChar) -> bool { ok_style(s.compound_style) && ok_char(s.nude_char) }
pub proof fn ne_shift(a: Seq<StyleToken>, b: Seq<StyleToken>, j: int)
    requires 0 <= j <= b.len(),
    ensures ne(a + b, a.len() + j) == ne(b, j),
    decreases b.len() - j,
{ if j < b.len() { ne_shift(a, b, j + 1); assert((a + b)[a.len() + j] == b[j]); } }
pub proof fn ne_app(a: Seq<StyleToken>, b: Seq<StyleToken>, k: int)
    requires 0 <= k <= a.len(),
    ensures ne(a + b, k) == ne(a, k) + ne(b, 0),
    decreases a.len() - k,
{
    if k == a.len() { ne_shift(a, b, 0); assert(ne(a, k) + ne(b, 0) =~= ne(b, 0)); } else {
        ne_app(a, b, k + 1); assert((a + b)[k] == a[k]);
        assert(ne(a + b, k) =~= ne(a, k) + ne(b, 0));
    }
}
pub proof fn ne_all(t: Seq<StyleToken>, k: int)
    requires 0 <= k <= t.len(), forall|i: int| 0 <= i < t.len() ==> text(#[trigger] t[i]).len() > 0,
    ensures ne(t, k) == t.skip(k),
    decreases t.len() - k,
{ if k < t.len() { ne_all(t, k + 1); assert(ne(t, k) =~= t.skip(k)); } else { assert(t.skip(k) =~= Seq::<StyleToken>::empty()); } }
// only an unspecified alignment is written as nothing
pub proof fn text_some(t: StyleToken)
    requires ok_token(t), t != StyleToken::Align(Alignment::Unspecified),
    ensures text(t).len() > 0,
{
    match t {
        StyleToken::Color(c) => { if named(c) { color_words(c); } else { reveal_strlit("ansi("); reveal_strlit("rgb("); } }
        StyleToken::Attribute(a) => { attr_words(a); }
        StyleToken::Align(a) => { align_words(a); }
        StyleToken::Dimension(n) => { dec_back(n as int); }
        StyleToken::None => { reveal_strlit("none"); }
        _ => {}
    }
}
pub proof fn ne_same(t: Seq<StyleToken>)
    requires all_ok(t), forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] != StyleToken::Align(Alignment::Unspecified),
    ensures ne(t, 0) == t,
{
    assert forall|i: int| 0 <= i < t.len() implies text(#[trigger] t[i]).len() > 0 by { text_some(t[i]); }
    ne_all(t, 0); assert(t.skip(0) =~= t);
}
pub proof fn style_tokens_ok(s: CompoundStyle)
    requires ok_style(s),
    ensures all_ok(style_tokens(s)), ne(style_tokens(s), 0) == style_tokens(s),
{
    attr_tokens_known(s.attributes(), 8); style_tokens_kinds(s);
    let (a, b) = (color_tokens(s), attr_tokens(s.attributes(), 8));
    let t = style_tokens(s);
    assert forall|i: int| 0 <= i < t.len() implies ok_token(#[trigger] t[i]) by {
        if i < a.len() { assert(t[i] == a[i]); } else { assert(t[i] == b[i - a.len()]); }
    }
    ne_same(t);
}
pub proof fn style_round(c: CompoundStyle)
    requires ok_style(c),
    ensures is_text_of(style_tokens(c), joined(style_tokens(c))), style_of(ne(style_tokens(c), 0)) == c,
{ style_tokens_ok(c); style_back(c); }
pub proof fn char_round(s: StyledChar)
    requires ok_styled_char(s),
    ensures is_text_of(char_tokens(s), joined(char_tokens(s))), style_of(ne(char_tokens(s), 0)) == s.compound_style, char_of(ne(char_tokens(s), 0)) == Some(s.nude_char),
{
    let t = char_tokens(s); let a = style_tokens(s.compound_style);
    style_tokens_ok(s.compound_style); style_tokens_kinds(s.compound_style);
    assert forall|i: int| 0 <= i < t.len() implies ok_token(#[trigger] t[i]) && t[i] != StyleToken::Align(Alignment::Unspecified) by { if i > 0 { assert(t[i] == a[i - 1]); } }
    ne_same(t);
    char_back(s);
}
pub proof fn line_round(s: LineStyle)
    requires ok_line(s),
    ensures is_text_of(line_tokens(s), joined(line_tokens(s))), LineStyle::from_tokens(ne(line_tokens(s), 0), s),
{
    let c = s.compound_style;
    style_tokens_ok(c); style_tokens_kinds(c); line_back(s);
    let a = style_tokens(c);
    let al = seq![StyleToken::Align(s.align)];
    let d = if s.left_margin > 0 || s.right_margin > 0 { seq![dim(s.left_margin), dim(s.right_margin)] } else { Seq::empty() };
    let t = a + (al + d);
    assert forall|i: int| 0 <= i < t.len() implies ok_token(#[trigger] t[i]) by { if i < a.len() { assert(t[i] == a[i]); } }
    if !(s.align is Unspecified) {
        assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] != StyleToken::Align(Alignment::Unspecified) by { if i < a.len() { assert(t[i] == a[i]); } }
        ne_same(t);
    } else {
        ne_app(a, al + d, 0); ne_app(al, d, 0); ne_same(d);
        assert(text(al[0]).len() == 0); assert(ne(al, 1) == Seq::<StyleToken>::empty()); assert(ne(al, 0) =~= Seq::<StyleToken>::empty());
        assert(ne(t, 0) =~= a + d);
        let u = a + d;
        style_back(c);
        cols_tail(a, d); attrs_app(a, d); no_attr(d); no_dim(a); dims_app(a, d); two_dims(d);
        let x = c.attributes(); assert(x | 0u32 == x) by (bit_vector);
        let e = Seq::<StyleToken>::empty();
        no_align(a, d); no_align(e, a); assert(e + a =~= a);
        if d.len() > 0 { assert(d[0] == dim(s.left_margin) && d[1] == dim(s.right_margin)); assert(dims_of(u) =~= seq![s.left_margin as int, s.right_margin as int]); }
        else { assert(dims_of(u) =~= Seq::<int>::empty()); }
    }
}
//@fn src/parse/parse_compound_style.rs parse_compound_style
//@rule method into vrt_into
//@ret r
//@spec
    ensures
        forall|t: Seq<StyleToken>| #[trigger] is_text_of(t, s@) ==> (r matches Ok(c) && c == style_of(ne(t, 0))),
        forall|c: CompoundStyle| ok_style(c) && #[trigger] joined(style_tokens(c)) == s@ ==> (r matches Ok(x) && x == c),
//@at body-start
    proof { assert forall|c: CompoundStyle| ok_style(c) && #[trigger] joined(style_tokens(c)) == s@ implies is_text_of(style_tokens(c), s@) && style_of(ne(style_tokens(c), 0)) == c by { style_round(c); } }
//@endfn
//@fn src/parse/parse_line_style.rs parse_line_style
//@rule method into vrt_into
//@ret r
//@spec
    ensures
        forall|t: Seq<StyleToken>| #[trigger] is_text_of(t, s@) ==> (r matches Ok(c) && LineStyle::from_tokens(ne(t, 0), c)),
        forall|c: LineStyle| ok_line(c) && #[trigger] joined(line_tokens(c)) == s@ ==> (r matches Ok(x) && x == c),
//@at body-start
    proof { assert forall|c: LineStyle| ok_line(c) && #[trigger] joined(line_tokens(c)) == s@ implies is_text_of(line_tokens(c), s@) && LineStyle::from_tokens(ne(line_tokens(c), 0), c) by { line_round(c); } }
//@endfn
//@fn src/parse/parse_styled_char.rs parse_styled_char
//@rule method into vrt_into
//@ret r
//@spec
    ensures
        forall|t: Seq<StyleToken>| #[trigger] is_text_of(t, s@) ==> (r matches Ok(c) && c.wf() && c.compound_style == style_of(ne(t, 0)) && c.nude_char == (match char_of(ne(t, 0)) { Some(x) => x, None => default_nude_char })),
        forall|c: StyledChar| ok_styled_char(c) && #[trigger] joined(char_tokens(c)) == s@ ==> (r matches Ok(x) && x.compound_style == c.compound_style && x.nude_char == c.nude_char && x.wf()),
//@at body-start
    proof { assert forall|c: StyledChar| ok_styled_char(c) && #[trigger] joined(char_tokens(c)) == s@ implies is_text_of(char_tokens(c), s@) && style_of(ne(char_tokens(c), 0)) == c.compound_style && char_of(ne(char_tokens(c), 0)) == Some(c.nude_char) by { char_round(c); } }
//@loop 0 it
    invariant it.seq().map_values(|t: &StyleToken| *t) == tokens@, __acc1 == char_of(tokens@.take(it.index@)),
//@at loop 0 start
    proof { has_col_next(tokens@, it.index@); assert(tokens@[it.index@] == *__x2); }
//@at loop 0 after
    proof { assert(tokens@.take(tokens@.len() as int) =~= tokens@); }
//@endfn
}
