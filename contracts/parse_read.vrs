// style texts: reading them
#[allow(unused_macros)]
macro_rules! sq { ($($x:expr),* $(,)?) => { Seq::empty()$(.push($x))* } }
verus! {
// in lower case
pub open spec fn low(s: Seq<char>) -> Seq<char> { s.map_values(|c: char| fold(c)) }
pub proof fn rx_nil(s: Seq<char>) ensures rx(Seq::<Rx>::empty(), s) == Some(Seq::<int>::empty()) {}
// a word and the end
pub proof fn rx_word_end(w: Seq<char>, s: Seq<char>)
    ensures rx(sq![Rx::W(w, true), Rx::E], s).is_some() == (low(s) == w),
{
    let items = sq![Rx::W(w, true), Rx::E];
    let i1 = items.skip(1);
    assert(i1[0] == Rx::E); assert(i1.skip(1) =~= Seq::<Rx>::empty());
    if rx_at(s, w, true) {
        let r = s.skip(w.len() as int);
        rx_nil(r);
        assert(rx(i1, r).is_some() == (r.len() == 0));
        if r.len() == 0 { assert(low(s) =~= w); } else { assert(low(s).len() != w.len()); }
    } else if low(s) == w {
        assert forall|i: int| 0 <= i < w.len() implies rx_ch(s[i], true) == #[trigger] w[i] by { assert(low(s)[i] == w[i]); }
    }
}
pub open spec fn w_of(r: Rx) -> Seq<char> { match r { Rx::W(w, _) => w, _ => Seq::empty() } }
pub proof fn rx_prefix(items: Seq<Rx>, s: Seq<char>)
    requires items.len() > 0, items[0] is W, items[0]->W_1, rx(items, s).is_some(),
    ensures s.len() >= w_of(items[0]).len(), forall|i: int| 0 <= i < w_of(items[0]).len() ==> low(s)[i] == #[trigger] w_of(items[0])[i],
{
    let w = w_of(items[0]);
    assert(rx_at(s, w, true));
    assert forall|i: int| 0 <= i < w.len() implies low(s)[i] == #[trigger] w[i] by { assert(rx_ch(s[i], true) == w[i]); }
}
// c is needed by the regex
pub open spec fn needs(items: Seq<Rx>, c: char) -> bool decreases items.len() {
    items.len() > 0 && match items[0] {
        Rx::W(w, ci) => (w.len() > 0 && w.last() == c) || needs(items.skip(1), c),
        Rx::O(k) => needs(items.skip(1), c) && 0 <= k < items.len() && needs(items.skip(k + 1), c),
        _ => needs(items.skip(1), c),
    }
}
pub open spec fn no(s: Seq<char>, c: char) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) != c && fold(s[i]) != c }
pub proof fn no_skip(s: Seq<char>, c: char, n: int)
    requires no(s, c), 0 <= n <= s.len(),
    ensures no(s.skip(n), c),
{ assert forall|i: int| 0 <= i < s.skip(n).len() implies (#[trigger] s.skip(n)[i]) != c && fold(s.skip(n)[i]) != c by { assert(s.skip(n)[i] == s[i + n]); } }
pub proof fn rx_needs(items: Seq<Rx>, s: Seq<char>, c: char)
    requires needs(items, c), no(s, c),
    ensures rx(items, s) is None,
    decreases items.len(), s.len() + 2,
{
    match items[0] {
        Rx::E => { if s.len() == 0 { rx_needs(items.skip(1), s, c); } }
        Rx::W(w, ci) => {
            if rx_at(s, w, ci) {
                if w.len() > 0 && w.last() == c { assert(rx_ch(s[w.len() - 1], ci) == w[w.len() - 1]); assert(s[w.len() - 1] != c); }
                else { no_skip(s, c, w.len() as int); rx_needs(items.skip(1), s.skip(w.len() as int), c); }
            }
        }
        Rx::O(k) => { rx_needs(items.skip(1), s, c); if 0 <= k < items.len() { rx_needs(items.skip(k + 1), s, c); } }
        Rx::C(set, min, max) => {
            let n = if rx_run(s, set) < s.len() { rx_run(s, set) as int } else { s.len() as int };
            rx_needs_try(items, s, c, min, match max { Some(m) => if 0 <= m < n { m } else { n }, None => n });
        }
    }
}
pub proof fn rx_needs_try(items: Seq<Rx>, s: Seq<char>, c: char, min: int, n: int)
    requires items.len() > 0, needs(items.skip(1), c), no(s, c), n <= s.len(),
    ensures rx_try(items, s, min, n) is None,
    decreases items.len(), n + 1,
{
    if !(n < min || n < 0) { no_skip(s, c, n); rx_needs(items.skip(1), s.skip(n), c); rx_needs_try(items, s, c, min, n - 1); }
}
// steps of a match
pub proof fn rx_run_is(x: Seq<char>, r: Seq<char>, set: Rs)
    requires forall|i: int| 0 <= i < x.len() ==> rx_in(#[trigger] x[i], set), r.len() == 0 || !rx_in(r[0], set),
    ensures rx_run(x + r, set) == x.len(),
    decreases x.len(),
{
    let s = x + r;
    if x.len() > 0 {
        assert(s[0] == x[0]); assert(s.skip(1) =~= x.skip(1) + r);
        assert forall|i: int| 0 <= i < x.skip(1).len() implies rx_in(#[trigger] x.skip(1)[i], set) by { assert(x.skip(1)[i] == x[i + 1]); }
        rx_run_is(x.skip(1), r, set);
    } else { assert(s =~= r); }
}
pub proof fn rx_step_c(items: Seq<Rx>, x: Seq<char>, r: Seq<char>)
    requires items.len() > 0, items[0] is C, items[0]->C_2 is None, x.len() >= items[0]->C_1,
        forall|i: int| 0 <= i < x.len() ==> rx_in(#[trigger] x[i], items[0]->C_0), r.len() == 0 || !rx_in(r[0], items[0]->C_0),
        rx(items.skip(1), r) is Some,
    ensures rx(items, x + r) == Some(seq![x.len() as int] + rx(items.skip(1), r)->0),
{
    let s = x + r; let set = items[0]->C_0;
    rx_run_is(x, r, set);
    assert(s.skip(x.len() as int) =~= r);
    assert(rx_try(items, s, items[0]->C_1, x.len() as int) == Some(seq![x.len() as int] + rx(items.skip(1), r)->0));
}
pub proof fn rx_step_w(items: Seq<Rx>, x: Seq<char>, r: Seq<char>)
    requires items.len() > 0, items[0] == Rx::W(low(x), true) || items[0] == Rx::W(x, false),
        rx(items.skip(1), r) is Some,
    ensures rx(items, x + r) == Some(seq![x.len() as int] + rx(items.skip(1), r)->0),
{
    let s = x + r;
    let w = items[0]->W_0; let ci = items[0]->W_1;
    assert(w.len() == x.len());
    assert forall|i: int| 0 <= i < w.len() implies rx_ch(s[i], ci) == #[trigger] w[i] by { assert(s[i] == x[i]); }
    assert(s.skip(w.len() as int) =~= r);
}
// ------------------------------------------------------------- numbers
pub open spec fn is_digit(c: char) -> bool { '0' <= c && c <= '9' }
pub open spec fn all_digits(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_digit(#[trigger] s[i]) }
pub open spec fn val(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 { 0 } else { val(s.drop_last()) * 10 + (s.last() as u32 - 48) } }
pub open spec fn unsigned(s: Seq<char>) -> Seq<char> { if s.len() > 0 && s[0] == '+' { s.skip(1) } else { s } }
pub open spec fn number(s: Seq<char>, max: int) -> bool { unsigned(s).len() > 0 && all_digits(unsigned(s)) && val(unsigned(s)) <= max }
pub proof fn dec_back(n: int)
    requires 0 <= n,
    ensures all_digits(dec(n)), dec(n).len() > 0, val(dec(n)) == n, unsigned(dec(n)) == dec(n), dec(n).len() == 1 <==> n < 10,
    decreases n,
{
    let d = dec(n);
    if n < 10 {
        assert(d.drop_last() =~= Seq::<char>::empty());
        reveal_with_fuel(val, 2);
        assert(is_digit(d[0]));
    } else {
        dec_back(n / 10);
        let p = dec(n / 10);
        assert(d.drop_last() =~= p);
        assert(is_digit(digit(n % 10)));
        assert forall|i: int| 0 <= i < d.len() implies is_digit(#[trigger] d[i]) by { if i < p.len() { assert(d[i] == p[i]); } }
        assert(is_digit(d[0]));
    }
}
#[verifier::external_body]
pub struct ParseIntError { _p: core::marker::PhantomData<()> }
pub trait VrtNum: Sized { spec fn max() -> int; spec fn int(&self) -> int; }
impl VrtNum for u8 { open spec fn max() -> int { 255 } open spec fn int(&self) -> int { *self as int } }
impl VrtNum for u16 { open spec fn max() -> int { 65535 } open spec fn int(&self) -> int { *self as int } }
pub trait VrtParse { 
    spec fn sv(&self) -> Seq<char>;
    fn vrt_parse<N: VrtNum>(&self) -> (r: core::result::Result<N, ParseIntError>)
        ensures r.is_ok() == number(self.sv(), N::max()), r matches Ok(n) ==> n.int() == val(unsigned(self.sv()));
}
impl VrtParse for str {
    open spec fn sv(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vrt_parse<N: VrtNum>(&self) -> (r: core::result::Result<N, ParseIntError>) { unimplemented!() }
}
// (nested function of parse_color: nothing is said of the short hexadecimal texts)
#[verifier::external_body]
pub fn hex(s: &str) -> (r: core::result::Result<u8, ParseIntError>) { unimplemented!() }
// ------------------------------------------------------------- attributes and alignments
// (in lower case)
pub open spec fn attr_word(l: Seq<char>) -> Option<Attribute> {
    if l == sq!['b', 'o', 'l', 'd'] { Some(Attribute::Bold) }
    else if l == sq!['c', 'r', 'o', 's', 's', 'e', 'd', 'o', 'u', 't'] { Some(Attribute::CrossedOut) }
    else if l == sq!['d', 'i', 'm'] { Some(Attribute::Dim) }
    else if l == sq!['i', 't', 'a', 'l', 'i', 'c'] { Some(Attribute::Italic) }
    else if l == sq!['u', 'n', 'd', 'e', 'r', 'l', 'i', 'n', 'e', 'd'] { Some(Attribute::Underlined) }
    else if l == sq!['o', 'v', 'e', 'r', 'l', 'i', 'n', 'e', 'd'] { Some(Attribute::OverLined) }
    else if l == sq!['r', 'e', 'v', 'e', 'r', 's', 'e'] { Some(Attribute::Reverse) }
    else if l == sq!['e', 'n', 'c', 'i', 'r', 'c', 'l', 'e', 'd'] { Some(Attribute::Encircled) }
    else { None }
}
pub open spec fn align_word(l: Seq<char>) -> Option<Alignment> {
    if l == sq!['l', 'e', 'f', 't'] { Some(Alignment::Left) }
    else if l == sq!['c', 'e', 'n', 't', 'e', 'r'] { Some(Alignment::Center) }
    else if l == sq!['r', 'i', 'g', 'h', 't'] { Some(Alignment::Right) }
    else { None }
}
pub open spec fn color_word(l: Seq<char>) -> Option<Color> {
    if l == sq!['b', 'l', 'u', 'e'] { Some(Color::Blue) }
    else if l == sq!['c', 'y', 'a', 'n'] { Some(Color::Cyan) }
    else if l == sq!['d', 'a', 'r', 'k', 'b', 'l', 'u', 'e'] { Some(Color::DarkBlue) }
    else if l == sq!['d', 'a', 'r', 'k', 'c', 'y', 'a', 'n'] { Some(Color::DarkCyan) }
    else if l == sq!['d', 'a', 'r', 'k', 'g', 'r', 'e', 'e', 'n'] { Some(Color::DarkGreen) }
    else if l == sq!['d', 'a', 'r', 'k', 'g', 'r', 'e', 'y'] { Some(Color::DarkGrey) }
    else if l == sq!['d', 'a', 'r', 'k', 'm', 'a', 'g', 'e', 'n', 't', 'a'] { Some(Color::DarkMagenta) }
    else if l == sq!['d', 'a', 'r', 'k', 'r', 'e', 'd'] { Some(Color::DarkRed) }
    else if l == sq!['g', 'r', 'e', 'e', 'n'] { Some(Color::Green) }
    else if l == sq!['g', 'r', 'e', 'y'] { Some(Color::Grey) }
    else if l == sq!['m', 'a', 'g', 'e', 'n', 't', 'a'] { Some(Color::Magenta) }
    else if l == sq!['r', 'e', 'd'] { Some(Color::Red) }
    else if l == sq!['y', 'e', 'l', 'l', 'o', 'w'] { Some(Color::Yellow) }
    else if l == sq!['d', 'a', 'r', 'k', 'y', 'e', 'l', 'l', 'o', 'w'] { Some(Color::DarkYellow) }
    else { None }
}
pub proof fn all_words_end(s: Seq<char>)
    ensures forall|w: Seq<char>| #[trigger] rx(sq![Rx::W(w, true), Rx::E], s).is_some() == (low(s) == w),
{ assert forall|w: Seq<char>| #[trigger] rx(sq![Rx::W(w, true), Rx::E], s).is_some() == (low(s) == w) by { rx_word_end(w, s); } }
//@fn src/parse/parse_align.rs parse_align
//@ret r
//@spec
    ensures align_word(low(s@)) matches Some(a) ==> r == Ok::<Alignment, ParseAlignError>(a),
        low(s@).len() == 1 ==> r is Err,
//@at body-start
    proof { all_words_end(s@); let l = low(s@); assert(l.len() > 4 ==> l[0] == l[0] && l[1] == l[1] && l[4] == l[4]); }
//@endfn
// an optional char in the middle
pub proof fn rx_word_opt_word(a: Seq<char>, set: Rs, b: Seq<char>, s: Seq<char>)
    requires low(s) == a + b, b.len() > 0, a.len() < s.len(), !rx_in(s[a.len() as int], set),
    ensures rx(Seq::empty().push(Rx::W(a, true)).push(Rx::C(set, 0, Some(1))).push(Rx::W(b, true)).push(Rx::E), s) is Some,
{
    let items = Seq::empty().push(Rx::W(a, true)).push(Rx::C(set, 0, Some(1))).push(Rx::W(b, true)).push(Rx::E);
    assert(low(s).len() == a.len() + b.len());
    let x = s.take(a.len() as int); let r = s.skip(a.len() as int);
    assert(low(x) =~= a) by { assert forall|i: int| 0 <= i < a.len() implies low(x)[i] == #[trigger] a[i] by { assert(low(s)[i] == (a + b)[i]); } }
    assert(low(r) =~= b) by { assert forall|i: int| 0 <= i < b.len() implies low(r)[i] == #[trigger] b[i] by { assert(low(s)[a.len() + i] == (a + b)[a.len() + i]); assert(r[i] == s[a.len() + i]);  } }
    let e = Seq::<char>::empty();
    let i1 = items.skip(1); let i2 = i1.skip(1); let i3 = i2.skip(1);
    assert(i3[0] == Rx::E); assert(i3.skip(1) =~= Seq::<Rx>::empty()); rx_nil(e); assert(rx(i3, e) is Some);
    assert(r + e =~= r);
    rx_step_w(i2, r, e);
    assert(i1[0] == Rx::C(set, 0 as int, Some(1 as int)));
    assert(rx_run(r, set) == 0);
    assert(r.skip(0) =~= r);
    assert(rx_try(i1, r, 0, 0) is Some);
    assert(x + r =~= s);
    rx_step_w(items, x, r);
}
//@fn src/parse/parse_attribute.rs parse_attribute
//@ret r
//@spec
    ensures attr_word(low(s@)) matches Some(a) ==> r == Ok::<Attribute, ParseAttributeError>(a),
        low(s@).len() == 1 || align_word(low(s@)) is Some ==> r is Err,
//@at body-start
    proof {
        broadcast use {rx_ascii, fold_ascii};
        all_words_end(s@); all_prefixes(s@);
        let l = low(s@); assert(l.len() > 4 ==> l[0] == l[0] && l[1] == l[1] && l[4] == l[4]);
        assert forall|i: int| 0 <= i < s@.len() implies fold(#[trigger] s@[i]) == l[i] by {}
        assert forall|a: Seq<char>, set: Rs, b: Seq<char>| 0 < b.len() && a.len() < s@.len() && low(s@) =~= a + b && !rx_in(s@[a.len() as int], set) implies
            (#[trigger] rx(Seq::empty().push(Rx::W(a, true)).push(Rx::C(set, 0, Some(1))).push(Rx::W(b, true)).push(Rx::E), s@)) is Some by { rx_word_opt_word(a, set, b, s@); }
    }
//@endfn
// (enough chars to tell the words apart)
pub open spec fn starts(l: Seq<char>, w: Seq<char>) -> bool {
    &&& l.len() >= w.len()
    &&& w.len() > 0 ==> l[0] == w[0]
    &&& w.len() > 1 ==> l[1] == w[1]
    &&& w.len() > 4 ==> l[4] == w[4]
}
pub proof fn all_prefixes(s: Seq<char>)
    ensures forall|items: Seq<Rx>| items.len() > 0 && items[0] is W && items[0]->W_1 && (#[trigger] rx(items, s)).is_some() ==>
        starts(low(s), w_of(items[0])),
{
    assert forall|items: Seq<Rx>| items.len() > 0 && items[0] is W && items[0]->W_1 && (#[trigger] rx(items, s)).is_some() implies
        starts(low(s), w_of(items[0])) by { rx_prefix(items, s); }
}
// ------------------------------------------------------------- colors
//@fn src/color.rs rgb
//@ret c
//@spec
    ensures c == (Color::Rgb { r, g, b }),
//@endfn
//@fn src/color.rs ansi
//@ret c
//@spec
    ensures c == Color::AnsiValue(level),
//@endfn
//@fn src/color.rs gray
//@ret c
//@spec
    ensures c == Color::AnsiValue((0xE8 + (if level < 23 { level as int } else { 23 })) as u8),
//@endfn
pub open spec fn ds(min: int) -> Rx { Rx::C(Rs { neg: false, ci: true, set: Seq::empty().push(Rc::Digit) }, min, None) }
pub open spec fn sps(min: int) -> Rx { Rx::C(Rs { neg: false, ci: true, set: Seq::empty().push(Rc::Space) }, min, None) }
// prefix( digits )
pub open spec fn call1(items: Seq<Rx>) -> bool {
    items.len() == 4 && items[0] is W && items[1] == ds(1) && items[2] == Rx::W(Seq::empty().push(')'), true) && items[3] == Rx::E
}
pub open spec fn comma() -> Rx { Rx::W(Seq::empty().push(','), true) }
// prefix( digits, digits, digits )
pub open spec fn call3(items: Seq<Rx>) -> bool {
    &&& items.len() == 10 && items[0] is W
    &&& items[1] == ds(1) && items[2] == comma() && items[3] == sps(0)
    &&& items[4] == ds(1) && items[5] == comma() && items[6] == sps(0)
    &&& items[7] == ds(1) && items[8] == Rx::W(Seq::empty().push(')'), true) && items[9] == Rx::E
}
pub proof fn digits_in(d: Seq<char>)
    requires all_digits(d),
    ensures forall|i: int| 0 <= i < d.len() ==> rx_in(#[trigger] d[i], ds(1)->C_0), ds(1)->C_0 == ds(0)->C_0,
{
    broadcast use {rx_ascii, fold_ascii};
    let st = Seq::<Rc>::empty().push(Rc::Digit);
    assert forall|i: int| 0 <= i < d.len() implies rx_in(#[trigger] d[i], ds(1)->C_0) by { assert(is_digit(d[i])); assert(rc_has(st[0], d[i], true)); }
}
pub open spec fn one(n: int, l: Seq<int>) -> Seq<int> { seq![n] + l }
// digits then ")"
pub proof fn rx_end1(items: Seq<Rx>, d: Seq<char>)
    requires items.len() == 3, items[0] == ds(1), items[1] == Rx::W(Seq::empty().push(')'), true), items[2] == Rx::E, all_digits(d), d.len() > 0,
    ensures rx(items, d + seq![')']) == Some(seq![d.len() as int, 1, 0]),
{
    broadcast use {rx_ascii, fold_ascii};
    let e = Seq::<char>::empty(); let p = seq![')'];
    let i1 = items.skip(1); let i2 = i1.skip(1);
    assert(i2.skip(1) =~= Seq::<Rx>::empty()); assert(i2[0] == Rx::E);
    rx_nil(e); assert(rx(i2, e) == Some(seq![0int] + Seq::<int>::empty()));
    assert(low(p) =~= Seq::empty().push(')'));
    assert(p + e =~= p);
    rx_step_w(i1, p, e);
    digits_in(d);
    assert(!rx_digit(')'));
    rx_step_c(items, d, p);
    assert(rx(items, d + p)->0 =~= seq![d.len() as int, 1, 0]);
}
// digits, ", " then what follows
pub proof fn rx_arg(items: Seq<Rx>, d: Seq<char>, r: Seq<char>)
    requires items.len() > 3, items[0] == ds(1), items[1] == comma(), items[2] == sps(0), all_digits(d), d.len() > 0,
        r.len() > 0, is_digit(r[0]), rx(items.skip(3), r) is Some,
    ensures rx(items, d + (seq![',', ' '] + r)) == Some(seq![d.len() as int, 1, 1] + rx(items.skip(3), r)->0),
{
    broadcast use {rx_ascii, fold_ascii};
    let i1 = items.skip(1); let i2 = i1.skip(1); let i3 = i2.skip(1);
    assert(i3 =~= items.skip(3)); assert(i2[0] == sps(0)); assert(i1[0] == comma());
    let sp = seq![' ']; let c = seq![','];
    let ss = Seq::<Rc>::empty().push(Rc::Space);
    assert(rc_has(ss[0], ' ', true));
    assert(!rx_space(r[0]));
    rx_step_c(i2, sp, r);
    assert(low(c) =~= Seq::empty().push(','));
    rx_step_w(i1, c, sp + r);
    digits_in(d);
    assert(!rx_digit(','));
    rx_step_c(items, d, c + (sp + r));
    assert(d + (seq![',', ' '] + r) =~= d + (c + (sp + r)));
    let l = rx(i3, r)->0;
    assert(rx(items, d + (c + (sp + r)))->0 =~= seq![d.len() as int, 1, 1] + l);
}
pub proof fn rx_call1(items: Seq<Rx>, w: Seq<char>, d: Seq<char>)
    requires call1(items), items[0] == Rx::W(low(w), true), all_digits(d), d.len() > 0,
    ensures rx(items, w + d + seq![')']) is Some, rx_part(w + d + seq![')'], rx(items, w + d + seq![')'])->0, 1) == d,
{
    let i1 = items.skip(1);
    rx_end1(i1, d);
    let s = w + d + seq![')'];
    assert(s =~= w + (d + seq![')']));
    rx_step_w(items, w, d + seq![')']);
    let l = seq![w.len() as int] + seq![d.len() as int, 1, 0];
    assert(rx(items, s) == Some(l));
    assert(l.take(1) =~= seq![w.len() as int]); total1(w.len() as int);
    assert(s.subrange(w.len() as int, (w.len() + d.len()) as int) =~= d);
}
pub proof fn total1(a: int) ensures total(seq![a]) == a { assert(seq![a].drop_last() =~= Seq::<int>::empty()); reveal_with_fuel(total, 2); }
pub proof fn total_add(a: Seq<int>, b: int) ensures total(a.push(b)) == total(a) + b { assert(a.push(b).drop_last() =~= a); }
pub proof fn rx_call3(items: Seq<Rx>, w: Seq<char>, a: Seq<char>, b: Seq<char>, c: Seq<char>, s: Seq<char>)
    requires call3(items), items[0] == Rx::W(low(w), true), all_digits(a), a.len() > 0, all_digits(b), b.len() > 0, all_digits(c), c.len() > 0,
        s == w + a + seq![',', ' '] + b + seq![',', ' '] + c + seq![')'],
    ensures rx(items, s) is Some, rx_part(s, rx(items, s)->0, 1) == a, rx_part(s, rx(items, s)->0, 4) == b, rx_part(s, rx(items, s)->0, 7) == c,
{
    let cs = seq![',', ' ']; let p = seq![')'];
    let i1 = items.skip(1); let i4 = i1.skip(3); let i7 = i4.skip(3);
    assert(i7 =~= items.skip(7)); assert(i4 =~= items.skip(4));
    rx_end1(i7, c);
    let r7 = c + p; assert(is_digit(r7[0]));
    rx_arg(i4, b, r7);
    let r4 = b + (cs + r7); assert(is_digit(r4[0]));
    rx_arg(i1, a, r4);
    let r1 = a + (cs + r4);
    rx_step_w(items, w, r1);
    assert(s =~= w + r1);
    let l = seq![w.len() as int] + (seq![a.len() as int, 1, 1] + (seq![b.len() as int, 1, 1] + seq![c.len() as int, 1, 0]));
    assert(rx(items, s) == Some(l));
    let (x, y, z, v) = (w.len() as int, a.len() as int, b.len() as int, c.len() as int);
    total1(x);
    assert(l.take(1) =~= seq![x]);
    total_add(l.take(1), y); assert(l.take(2) =~= l.take(1).push(y));
    total_add(l.take(2), 1); assert(l.take(3) =~= l.take(2).push(1));
    total_add(l.take(3), 1); assert(l.take(4) =~= l.take(3).push(1));
    total_add(l.take(4), z); assert(l.take(5) =~= l.take(4).push(z));
    total_add(l.take(5), 1); assert(l.take(6) =~= l.take(5).push(1));
    total_add(l.take(6), 1); assert(l.take(7) =~= l.take(6).push(1));
    assert(s.subrange(x, x + y) =~= a);
    assert(s.subrange(x + y + 2, x + y + 2 + z) =~= b);
    assert(s.subrange(x + y + 2 + z + 2, x + y + 2 + z + 2 + v) =~= c);
}
pub open spec fn plain_word(l: Seq<char>) -> bool { l.len() == 1 || attr_word(l) is Some || align_word(l) is Some }
pub open spec fn ascii(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i] as u32) < 128 }
pub open spec fn letters(l: Seq<char>) -> bool { forall|i: int| 0 <= i < l.len() ==> 'a' <= #[trigger] l[i] && l[i] <= 'z' }
pub proof fn letters_no_paren(s: Seq<char>)
    requires attr_word(low(s)) is Some || align_word(low(s)) is Some || color_word(low(s)) is Some,
    ensures no(s, '('),
{
    broadcast use {rx_ascii, fold_ascii};
    let l = low(s);
    if l == sq!['b', 'o', 'l', 'd'] { assert(letters(l)); }
    if l == sq!['c', 'r', 'o', 's', 's', 'e', 'd', 'o', 'u', 't'] { assert(letters(l)); }
    if l == sq!['d', 'i', 'm'] { assert(letters(l)); }
    if l == sq!['i', 't', 'a', 'l', 'i', 'c'] { assert(letters(l)); }
    if l == sq!['u', 'n', 'd', 'e', 'r', 'l', 'i', 'n', 'e', 'd'] { assert(letters(l)); }
    if l == sq!['o', 'v', 'e', 'r', 'l', 'i', 'n', 'e', 'd'] { assert(letters(l)); }
    if l == sq!['r', 'e', 'v', 'e', 'r', 's', 'e'] { assert(letters(l)); }
    if l == sq!['e', 'n', 'c', 'i', 'r', 'c', 'l', 'e', 'd'] { assert(letters(l)); }
    if l == sq!['l', 'e', 'f', 't'] { assert(letters(l)); }
    if l == sq!['c', 'e', 'n', 't', 'e', 'r'] { assert(letters(l)); }
    if l == sq!['r', 'i', 'g', 'h', 't'] { assert(letters(l)); }
    if l == sq!['b', 'l', 'u', 'e'] { assert(letters(l)); }
    if l == sq!['c', 'y', 'a', 'n'] { assert(letters(l)); }
    if l == sq!['d', 'a', 'r', 'k', 'b', 'l', 'u', 'e'] { assert(letters(l)); }
    if l == sq!['d', 'a', 'r', 'k', 'c', 'y', 'a', 'n'] { assert(letters(l)); }
    if l == sq!['d', 'a', 'r', 'k', 'g', 'r', 'e', 'e', 'n'] { assert(letters(l)); }
    if l == sq!['d', 'a', 'r', 'k', 'g', 'r', 'e', 'y'] { assert(letters(l)); }
    if l == sq!['d', 'a', 'r', 'k', 'm', 'a', 'g', 'e', 'n', 't', 'a'] { assert(letters(l)); }
    if l == sq!['d', 'a', 'r', 'k', 'r', 'e', 'd'] { assert(letters(l)); }
    if l == sq!['g', 'r', 'e', 'e', 'n'] { assert(letters(l)); }
    if l == sq!['g', 'r', 'e', 'y'] { assert(letters(l)); }
    if l == sq!['m', 'a', 'g', 'e', 'n', 't', 'a'] { assert(letters(l)); }
    if l == sq!['r', 'e', 'd'] { assert(letters(l)); }
    if l == sq!['y', 'e', 'l', 'l', 'o', 'w'] { assert(letters(l)); }
    if l == sq!['d', 'a', 'r', 'k', 'y', 'e', 'l', 'l', 'o', 'w'] { assert(letters(l)); }
    assert(letters(l));
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]) != '(' && fold(s[i]) != '(' by { assert(l[i] == fold(s[i])); }
}
pub proof fn rx_short(items: Seq<Rx>, s: Seq<char>)
    requires items.len() > 1, items[0] is W, items[1] is C, items[1]->C_1 > 0, s.len() <= w_of(items[0]).len(),
    ensures rx(items, s) is None,
{
    let i1 = items.skip(1);
    if rx_at(s, w_of(items[0]), items[0]->W_1) { let r = s.skip(w_of(items[0]).len() as int); assert(i1[0] == items[1]); assert(r.len() == 0); assert(rx_try(i1, r, i1[0]->C_1, 0) is None); assert(rx(i1, r) is None); }
}
pub open spec fn ansi_text(v: u8) -> Seq<char> { "ansi("@ + dec(v as int) + ")"@ }
pub open spec fn rgb_text(r: u8, g: u8, b: u8) -> Seq<char> { "rgb("@ + dec(r as int) + ", "@ + dec(g as int) + ", "@ + dec(b as int) + ")"@ }
pub proof fn ansi_match(items: Seq<Rx>, v: u8)
    requires call1(items), items[0] == Rx::W(Seq::empty().push('a').push('n').push('s').push('i').push('('), true),
    ensures ({ let s = ansi_text(v); rx(items, s) is Some && rx_part(s, rx(items, s)->0, 1) == dec(v as int) }),
{
    broadcast use {rx_ascii, fold_ascii};
    reveal_strlit("ansi("); reveal_strlit(")");
    dec_back(v as int);
    assert(")"@ =~= seq![')']);
    assert(low("ansi("@) =~= Seq::empty().push('a').push('n').push('s').push('i').push('('));
    rx_call1(items, "ansi("@, dec(v as int));
}
pub proof fn rgb_match(items: Seq<Rx>, r: u8, g: u8, b: u8)
    requires call3(items), items[0] == Rx::W(Seq::empty().push('r').push('g').push('b').push('('), true),
    ensures ({ let s = rgb_text(r, g, b); rx(items, s) is Some && rx_part(s, rx(items, s)->0, 1) == dec(r as int) && rx_part(s, rx(items, s)->0, 4) == dec(g as int) && rx_part(s, rx(items, s)->0, 7) == dec(b as int) }),
{
    broadcast use {rx_ascii, fold_ascii};
    reveal_strlit("rgb("); reveal_strlit(")"); reveal_strlit(", ");
    dec_back(r as int); dec_back(g as int); dec_back(b as int);
    assert(")"@ =~= seq![')']); assert(", "@ =~= seq![',', ' ']);
    assert(low("rgb("@) =~= Seq::empty().push('r').push('g').push('b').push('('));
    rx_call3(items, "rgb("@, dec(r as int), dec(g as int), dec(b as int), rgb_text(r, g, b));
}
// the first letters
pub proof fn call_heads(s: Seq<char>)
    ensures forall|v: u8| #[trigger] ansi_text(v) == s ==> low(s).len() > 5 && low(s)[0] == 'a',
        forall|r: u8, g: u8, b: u8| #[trigger] rgb_text(r, g, b) == s ==> low(s).len() > 5 && low(s)[0] == 'r' && low(s)[1] == 'g',
{
    broadcast use {rx_ascii, fold_ascii};
    reveal_strlit("rgb("); reveal_strlit("ansi(");
    assert forall|v: u8| #[trigger] ansi_text(v) == s implies low(s).len() > 5 && low(s)[0] == 'a' by { dec_back(v as int); reveal_strlit(")"); assert(s[0] == 'a'); }
    assert forall|r: u8, g: u8, b: u8| #[trigger] rgb_text(r, g, b) == s implies low(s).len() > 5 && low(s)[0] == 'r' && low(s)[1] == 'g' by { dec_back(r as int); reveal_strlit(")"); assert(s[0] == 'r'); assert(s[1] == 'g'); }
}
//@fn src/parse/parse_color.rs parse_color
//@rule method parse vrt_parse
//@ret r
//@spec
    ensures color_word(low(s@)) matches Some(c) ==> r matches Ok(x) && x == c,
        plain_word(low(s@)) ==> r matches Err(ParseColorError::Unrecognized),
        forall|v: u8| #[trigger] ansi_text(v) == s@ ==> (r matches Ok(x) && x == Color::AnsiValue(v)),
        forall|a: u8, b: u8, c: u8| #[trigger] rgb_text(a, b, c) == s@ ==> (r matches Ok(x) && x == (Color::Rgb { r: a, g: b, b: c })),
//@at body-start
    proof {
        broadcast use {rx_ascii, fold_ascii};
        reveal_with_fuel(needs, 10);
        all_words_end(s@); all_prefixes(s@); call_heads(s@);
        let l = low(s@); assert(l.len() > 4 ==> l[0] == l[0] && l[1] == l[1] && l[4] == l[4]);
        if attr_word(l) is Some || align_word(l) is Some || color_word(l) is Some { letters_no_paren(s@); }
        assert forall|items: Seq<Rx>| no(s@, '(') && needs(items, '(') implies (#[trigger] rx(items, s@)) is None by { rx_needs(items, s@, '('); }
        assert forall|items: Seq<Rx>| items.len() > 1 && items[0] is W && items[1] is C && items[1]->C_1 > 0 && s@.len() <= w_of(items[0]).len() implies (#[trigger] rx(items, s@)) is None by { rx_short(items, s@); }
        assert forall|items: Seq<Rx>, v: u8| call1(items) && items[0] == Rx::W(Seq::empty().push('a').push('n').push('s').push('i').push('('), true) && #[trigger] ansi_text(v) == s@ implies
            (#[trigger] rx(items, s@)) is Some && rx_part(s@, rx(items, s@)->0, 1) == dec(v as int) && number(dec(v as int), 255) && val(unsigned(dec(v as int))) == v by { ansi_match(items, v); dec_back(v as int); }
        assert forall|items: Seq<Rx>, a: u8, b: u8, c: u8| call3(items) && items[0] == Rx::W(Seq::empty().push('r').push('g').push('b').push('('), true) && #[trigger] rgb_text(a, b, c) == s@ implies
            (#[trigger] rx(items, s@)) is Some && rx_part(s@, rx(items, s@)->0, 1) == dec(a as int) && rx_part(s@, rx(items, s@)->0, 4) == dec(b as int) && rx_part(s@, rx(items, s@)->0, 7) == dec(c as int)
            && number(dec(a as int), 255) && val(unsigned(dec(a as int))) == a && number(dec(b as int), 255) && val(unsigned(dec(b as int))) == b && number(dec(c as int), 255) && val(unsigned(dec(c as int))) == c by {
            rgb_match(items, a, b, c); dec_back(a as int); dec_back(b as int); dec_back(c as int); }
    }
//@endfn
// ------------------------------------------------------------- tokens
pub open spec fn ok_color(c: Color) -> bool { !(c is Black) && !(c is White) && !(c is Reset) }
pub open spec fn ok_char(c: char) -> bool { !rx_space(c) && c != '(' && c != ')' && !is_digit(c) }
// the tokens which can be written and read
pub open spec fn ok_token(t: StyleToken) -> bool {
    match t {
        StyleToken::Char(c) => ok_char(c),
        StyleToken::Color(c) => ok_color(c),
        StyleToken::Attribute(a) => known().contains(a),
        _ => true,
    }
}
pub open spec fn none_word() -> Seq<char> { Seq::empty().push('n').push('o').push('n').push('e') }
pub open spec fn named(c: Color) -> bool { ok_color(c) && !(c is Rgb) && !(c is AnsiValue) }
pub proof fn color_words(c: Color)
    requires named(c),
    ensures color_word(low(color_text(c))) == Some(c), letters(low(color_text(c))), ascii(color_text(c)), color_text(c).len() > 1, low(color_text(c)) != none_word(),
{
    broadcast use {rx_ascii, fold_ascii};
    let l = low(color_text(c));
    if c == Color::Blue { reveal_strlit("Blue"); assert(ascii(color_text(c))); let w = Seq::empty().push('b').push('l').push('u').push('e'); assert(l =~= w); assert(letters(w)); assert(l[0] == w[0] && l[1] == w[1]); assert(l.len() > 4 ==> l[4] == w[4]); }
    if c == Color::Cyan { reveal_strlit("Cyan"); assert(ascii(color_text(c))); let w = Seq::empty().push('c').push('y').push('a').push('n'); assert(l =~= w); assert(letters(w)); assert(l[0] == w[0] && l[1] == w[1]); assert(l.len() > 4 ==> l[4] == w[4]); }
    if c == Color::DarkBlue { reveal_strlit("DarkBlue"); assert(ascii(color_text(c))); let w = Seq::empty().push('d').push('a').push('r').push('k').push('b').push('l').push('u').push('e'); assert(l =~= w); assert(letters(w)); assert(l[0] == w[0] && l[1] == w[1]); assert(l.len() > 4 ==> l[4] == w[4]); }
    if c == Color::DarkCyan { reveal_strlit("DarkCyan"); assert(ascii(color_text(c))); let w = Seq::empty().push('d').push('a').push('r').push('k').push('c').push('y').push('a').push('n'); assert(l =~= w); assert(letters(w)); assert(l[0] == w[0] && l[1] == w[1]); assert(l.len() > 4 ==> l[4] == w[4]); }
    if c == Color::DarkGreen { reveal_strlit("DarkGreen"); assert(ascii(color_text(c))); let w = Seq::empty().push('d').push('a').push('r').push('k').push('g').push('r').push('e').push('e').push('n'); assert(l =~= w); assert(letters(w)); assert(l[0] == w[0] && l[1] == w[1]); assert(l.len() > 4 ==> l[4] == w[4]); }
    if c == Color::DarkGrey { reveal_strlit("DarkGrey"); assert(ascii(color_text(c))); let w = Seq::empty().push('d').push('a').push('r').push('k').push('g').push('r').push('e').push('y'); assert(l =~= w); assert(letters(w)); assert(l[0] == w[0] && l[1] == w[1]); assert(l.len() > 4 ==> l[4] == w[4]); }
    if c == Color::DarkMagenta { reveal_strlit("DarkMagenta"); assert(ascii(color_text(c))); let w = Seq::empty().push('d').push('a').push('r').push('k').push('m').push('a').push('g').push('e').push('n').push('t').push('a'); assert(l =~= w); assert(letters(w)); assert(l[0] == w[0] && l[1] == w[1]); assert(l.len() > 4 ==> l[4] == w[4]); }
    if c == Color::DarkRed { reveal_strlit("DarkRed"); assert(ascii(color_text(c))); let w = Seq::empty().push('d').push('a').push('r').push('k').push('r').push('e').push('d'); assert(l =~= w); assert(letters(w)); assert(l[0] == w[0] && l[1] == w[1]); assert(l.len() > 4 ==> l[4] == w[4]); }
    if c == Color::Green { reveal_strlit("Green"); assert(ascii(color_text(c))); let w = Seq::empty().push('g').push('r').push('e').push('e').push('n'); assert(l =~= w); assert(letters(w)); assert(l[0] == w[0] && l[1] == w[1]); assert(l.len() > 4 ==> l[4] == w[4]); }
    if c == Color::Grey { reveal_strlit("Grey"); assert(ascii(color_text(c))); let w = Seq::empty().push('g').push('r').push('e').push('y'); assert(l =~= w); assert(letters(w)); assert(l[0] == w[0] && l[1] == w[1]); assert(l.len() > 4 ==> l[4] == w[4]); }
    if c == Color::Magenta { reveal_strlit("Magenta"); assert(ascii(color_text(c))); let w = Seq::empty().push('m').push('a').push('g').push('e').push('n').push('t').push('a'); assert(l =~= w); assert(letters(w)); assert(l[0] == w[0] && l[1] == w[1]); assert(l.len() > 4 ==> l[4] == w[4]); }
    if c == Color::Red { reveal_strlit("Red"); assert(ascii(color_text(c))); let w = Seq::empty().push('r').push('e').push('d'); assert(l =~= w); assert(letters(w)); assert(l[0] == w[0] && l[1] == w[1]); assert(l.len() > 4 ==> l[4] == w[4]); }
    if c == Color::Yellow { reveal_strlit("Yellow"); assert(ascii(color_text(c))); let w = Seq::empty().push('y').push('e').push('l').push('l').push('o').push('w'); assert(l =~= w); assert(letters(w)); assert(l[0] == w[0] && l[1] == w[1]); assert(l.len() > 4 ==> l[4] == w[4]); }
    if c == Color::DarkYellow { reveal_strlit("DarkYellow"); assert(ascii(color_text(c))); let w = Seq::empty().push('d').push('a').push('r').push('k').push('y').push('e').push('l').push('l').push('o').push('w'); assert(l =~= w); assert(letters(w)); assert(l[0] == w[0] && l[1] == w[1]); assert(l.len() > 4 ==> l[4] == w[4]); }
}
pub proof fn attr_words(a: Attribute)
    requires known().contains(a),
    ensures attr_word(low(attr_text(a))) == Some(a), letters(low(attr_text(a))), ascii(attr_text(a)), attr_text(a).len() > 1, low(attr_text(a)) != none_word(),
{
    broadcast use {rx_ascii, fold_ascii};
    let l = low(attr_text(a));
    if a == Attribute::Bold { reveal_strlit("Bold"); assert(ascii(attr_text(a))); let w = Seq::empty().push('b').push('o').push('l').push('d'); assert(l =~= w); assert(letters(w)); assert(l[0] == w[0] && l[1] == w[1]); assert(l.len() > 4 ==> l[4] == w[4]); }
    if a == Attribute::Dim { reveal_strlit("Dim"); assert(ascii(attr_text(a))); let w = Seq::empty().push('d').push('i').push('m'); assert(l =~= w); assert(letters(w)); assert(l[0] == w[0] && l[1] == w[1]); assert(l.len() > 4 ==> l[4] == w[4]); }
    if a == Attribute::Italic { reveal_strlit("Italic"); assert(ascii(attr_text(a))); let w = Seq::empty().push('i').push('t').push('a').push('l').push('i').push('c'); assert(l =~= w); assert(letters(w)); assert(l[0] == w[0] && l[1] == w[1]); assert(l.len() > 4 ==> l[4] == w[4]); }
    if a == Attribute::Underlined { reveal_strlit("Underlined"); assert(ascii(attr_text(a))); let w = Seq::empty().push('u').push('n').push('d').push('e').push('r').push('l').push('i').push('n').push('e').push('d'); assert(l =~= w); assert(letters(w)); assert(l[0] == w[0] && l[1] == w[1]); assert(l.len() > 4 ==> l[4] == w[4]); }
    if a == Attribute::Reverse { reveal_strlit("Reverse"); assert(ascii(attr_text(a))); let w = Seq::empty().push('r').push('e').push('v').push('e').push('r').push('s').push('e'); assert(l =~= w); assert(letters(w)); assert(l[0] == w[0] && l[1] == w[1]); assert(l.len() > 4 ==> l[4] == w[4]); }
    if a == Attribute::CrossedOut { reveal_strlit("CrossedOut"); assert(ascii(attr_text(a))); let w = Seq::empty().push('c').push('r').push('o').push('s').push('s').push('e').push('d').push('o').push('u').push('t'); assert(l =~= w); assert(letters(w)); assert(l[0] == w[0] && l[1] == w[1]); assert(l.len() > 4 ==> l[4] == w[4]); }
    if a == Attribute::Encircled { reveal_strlit("Encircled"); assert(ascii(attr_text(a))); let w = Seq::empty().push('e').push('n').push('c').push('i').push('r').push('c').push('l').push('e').push('d'); assert(l =~= w); assert(letters(w)); assert(l[0] == w[0] && l[1] == w[1]); assert(l.len() > 4 ==> l[4] == w[4]); }
    if a == Attribute::OverLined { reveal_strlit("OverLined"); assert(ascii(attr_text(a))); let w = Seq::empty().push('o').push('v').push('e').push('r').push('l').push('i').push('n').push('e').push('d'); assert(l =~= w); assert(letters(w)); assert(l[0] == w[0] && l[1] == w[1]); assert(l.len() > 4 ==> l[4] == w[4]); }
}
pub proof fn align_words(a: Alignment)
    requires !(a is Unspecified),
    ensures align_word(low(align_text(a))) == Some(a), letters(low(align_text(a))), ascii(align_text(a)), align_text(a).len() > 1, low(align_text(a)) != none_word(),
{
    broadcast use {rx_ascii, fold_ascii};
    let l = low(align_text(a));
    if a == Alignment::Left { reveal_strlit("left"); assert(ascii(align_text(a))); let w = Seq::empty().push('l').push('e').push('f').push('t'); assert(l =~= w); assert(letters(w)); assert(l[0] == w[0] && l[1] == w[1]); assert(l.len() > 4 ==> l[4] == w[4]); }
    if a == Alignment::Center { reveal_strlit("center"); assert(ascii(align_text(a))); let w = Seq::empty().push('c').push('e').push('n').push('t').push('e').push('r'); assert(l =~= w); assert(letters(w)); assert(l[0] == w[0] && l[1] == w[1]); assert(l.len() > 4 ==> l[4] == w[4]); }
    if a == Alignment::Right { reveal_strlit("right"); assert(ascii(align_text(a))); let w = Seq::empty().push('r').push('i').push('g').push('h').push('t'); assert(l =~= w); assert(letters(w)); assert(l[0] == w[0] && l[1] == w[1]); assert(l.len() > 4 ==> l[4] == w[4]); }
}
impl ParseColorError {
    // the derived From
    pub fn vrt_into_err(self) -> (r: ParseStyleTokenError) ensures r == ParseStyleTokenError::InvalidColor(self) { ParseStyleTokenError::InvalidColor(self) }
}
// what's known of the text of a token
pub open spec fn read_facts(t: StyleToken, s: Seq<char>) -> bool {
    &&& (low(s) == none_word()) == (t is None)
    &&& number(s, 65535) == (t is Dimension)
    &&& match t {
        StyleToken::Char(c) => low(s).len() == 1 && s == seq![c],
        StyleToken::Color(c) => match c { Color::AnsiValue(v) => s == ansi_text(v), Color::Rgb { r, g, b } => s == rgb_text(r, g, b), _ => color_word(low(s)) == Some(c) },
        StyleToken::Attribute(a) => attr_word(low(s)) == Some(a),
        StyleToken::Align(a) => align_word(low(s)) == Some(a),
        StyleToken::Dimension(n) => val(unsigned(s)) == n,
        StyleToken::None => true,
    }
}
pub proof fn letter_no_number(s: Seq<char>)
    requires s.len() > 0, 'a' <= low(s)[0] && low(s)[0] <= 'z',
    ensures !number(s, 65535),
{
    broadcast use fold_ascii;
    assert(low(s)[0] == fold(s[0]));
    assert(!is_digit(s[0])); assert(s[0] != '+');
}
pub proof fn all_read_facts(t: StyleToken)
    requires ok_token(t), text(t).len() > 0,
    ensures read_facts(t, text(t)),
{
    broadcast use {rx_ascii, fold_ascii};
    let s = text(t); let l = low(s);
    assert(none_word().len() == 4 && none_word()[0] == 'n');
    match t {
        StyleToken::Char(c) => {
            assert(l.len() == 1);
            assert(s[0] == c);
            if c == '+' { assert(unsigned(s).len() == 0); } else { assert(unsigned(s) == s); assert(!is_digit(s[0])); }
        }
        StyleToken::Color(c) => {
            call_heads(s);
            match c {
                Color::AnsiValue(v) => { assert(s == ansi_text(v)); letter_no_number(s); }
                Color::Rgb { r, g, b } => { assert(s == rgb_text(r, g, b)); letter_no_number(s); }
                _ => { color_words(c); assert('a' <= l[0] && l[0] <= 'z'); letter_no_number(s); }
            }
        }
        StyleToken::Attribute(a) => { attr_words(a); assert('a' <= l[0] && l[0] <= 'z'); letter_no_number(s); }
        StyleToken::Align(a) => { align_words(a); assert('a' <= l[0] && l[0] <= 'z'); letter_no_number(s); }
        StyleToken::Dimension(n) => { dec_back(n as int); assert(is_digit(s[0])); assert(l[0] == fold(s[0])); }
        StyleToken::None => { reveal_strlit("none"); assert(l =~= none_word()); assert(l[0] == 'n'); letter_no_number(s); }
    }
}
//@fn src/parse/mod.rs parse_style_token
//@rule method parse vrt_parse
//@rule method into vrt_into_err
//@ret r
//@spec
    ensures forall|t: StyleToken| ok_token(t) && text(t).len() > 0 && #[trigger] text(t) == s@ ==> (r matches Ok(x) && x == t),
//@at body-start
    proof {
        all_words_end(s@);
        assert forall|t: StyleToken| ok_token(t) && text(t).len() > 0 && #[trigger] text(t) == s@ implies read_facts(t, s@) by { all_read_facts(t); }
    }
//@endfn
}
