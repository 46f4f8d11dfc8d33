// regexes: the items of a parsed regex and the backtracking (leftmost-first) matcher on them
verus! {
pub ghost enum Rc { Range(char, char), Digit, Space, Word }
pub ghost struct Rs { pub neg: bool, pub ci: bool, pub set: Seq<Rc> }
pub ghost enum Rx {
    W(Seq<char>, bool),            // these chars (in lower case when case doesn't matter)
    C(Rs, int, Option<int>),       // from min to max chars of a set, as many as possible
    O(int),                        // the next n items, if possible
    E,                             // end of the text
}
// unicode classes: only known on ASCII
pub uninterp spec fn rx_digit(c: char) -> bool;
pub uninterp spec fn rx_space(c: char) -> bool;
pub uninterp spec fn rx_word(c: char) -> bool;
pub broadcast axiom fn rx_ascii_digit(c: char)
    requires (c as u32) < 128,
    ensures #[trigger] rx_digit(c) == ('0' <= c && c <= '9');
pub broadcast axiom fn rx_ascii_space(c: char)
    requires (c as u32) < 128,
    ensures #[trigger] rx_space(c) == (c == ' ' || ('\t' <= c && c <= '\r'));
pub broadcast axiom fn rx_ascii_word(c: char)
    requires (c as u32) < 128,
    ensures #[trigger] rx_word(c) == (('0' <= c && c <= '9') || ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') || c == '_');
pub broadcast group rx_ascii { rx_ascii_digit, rx_ascii_space, rx_ascii_word }
// case folding of a char: only known on ASCII
pub uninterp spec fn fold(c: char) -> char;
pub broadcast axiom fn fold_ascii(c: char)
    requires (c as u32) < 128,
    ensures #[trigger] fold(c) == (if 'A' <= c && c <= 'Z' { ((c as u32 + 32) as u8) as char } else { c });
pub open spec fn rx_ch(c: char, ci: bool) -> char { if ci { fold(c) } else { c } }
pub open spec fn rx_in(c: char, s: Rs) -> bool { s.neg != rx_any(c, s.ci, s.set) }
pub open spec fn rx_any(c: char, ci: bool, set: Seq<Rc>) -> bool { exists|i: int| 0 <= i < set.len() && #[trigger] rc_has(set[i], c, ci) }
pub open spec fn rc_has(r: Rc, c: char, ci: bool) -> bool {
    match r {
        Rc::Range(a, b) => a <= rx_ch(c, ci) && rx_ch(c, ci) <= b,
        Rc::Digit => rx_digit(c),
        Rc::Space => rx_space(c),
        Rc::Word => rx_word(c),
    }
}
// s starts with w
pub open spec fn rx_at(s: Seq<char>, w: Seq<char>, ci: bool) -> bool {
    s.len() >= w.len() && forall|i: int| 0 <= i < w.len() ==> rx_ch(s[i], ci) == #[trigger] w[i]
}
// the number of chars of the set at the start
pub open spec fn rx_run(s: Seq<char>, set: Rs) -> nat decreases s.len() {
    if s.len() == 0 || !rx_in(s[0], set) { 0 } else { 1 + rx_run(s.skip(1), set) }
}
pub open spec fn zeros(n: int) -> Seq<int> { Seq::new(n as nat, |i: int| 0int) }
// the number of chars taken by each item
pub open spec fn rx(items: Seq<Rx>, s: Seq<char>) -> Option<Seq<int>> decreases items.len(), s.len() + 2 {
    if items.len() == 0 { Some(Seq::empty()) } else {
        match items[0] {
            Rx::E => if s.len() == 0 { rx_cons(0, rx(items.skip(1), s)) } else { None },
            Rx::W(w, ci) => if rx_at(s, w, ci) { rx_cons(w.len() as int, rx(items.skip(1), s.skip(w.len() as int))) } else { None },
            Rx::O(k) => match rx(items.skip(1), s) {
                Some(l) => Some(seq![0int] + l),
                None => if 0 <= k < items.len() { match rx(items.skip(k + 1), s) { Some(l) => Some(zeros(k + 1) + l), None => None } } else { None },
            },
            Rx::C(set, min, max) => {
                let n = if rx_run(s, set) < s.len() { rx_run(s, set) as int } else { s.len() as int };
                rx_try(items, s, min, match max { Some(m) => if 0 <= m < n { m } else { n }, None => n })
            },
        }
    }
}
pub open spec fn rx_cons(n: int, l: Option<Seq<int>>) -> Option<Seq<int>> { match l { Some(l) => Some(seq![n] + l), None => None } }
// with n chars for the first item, or less
pub open spec fn rx_try(items: Seq<Rx>, s: Seq<char>, min: int, n: int) -> Option<Seq<int>> decreases items.len(), n + 1 {
    if items.len() == 0 || n < min || n < 0 || n > s.len() { None } else {
        match rx(items.skip(1), s.skip(n)) { Some(l) => Some(seq![n] + l), None => rx_try(items, s, min, n - 1) }
    }
}
pub open spec fn total(l: Seq<int>) -> int decreases l.len() { if l.len() == 0 { 0 } else { total(l.drop_last()) + l.last() } }
pub open spec fn rx_part(s: Seq<char>, l: Seq<int>, k: int) -> Seq<char> { s.subrange(total(l.take(k)), total(l.take(k)) + l[k]) }
// the successive matches: their positions
pub open spec fn rx_finds(items: Seq<Rx>, s: Seq<char>, p: int) -> Seq<(int, int)> decreases s.len() - p {
    if p < 0 || p >= s.len() { Seq::empty() } else {
        match rx(items, s.skip(p)) {
            Some(l) => if total(l) > 0 && p + total(l) <= s.len() { seq![(p, p + total(l))] + rx_finds(items, s, p + total(l)) } else { Seq::empty() },
            None => rx_finds(items, s, p + 1),
        }
    }
}
// the regex crate
#[verifier::external_body]
pub fn vrt_rx_is_match(s: &str, items: Ghost<Seq<Rx>>) -> (r: bool)
    ensures r == rx(items@, s@).is_some(),
{ unimplemented!() }
#[verifier::external_body]
pub fn vrt_rx_cap1<'a>(s: &'a str, items: Ghost<Seq<Rx>>, a: Ghost<int>) -> (r: Option<&'a str>)
    ensures r.is_some() == rx(items@, s@).is_some(), r matches Some(x) ==> x@ == rx_part(s@, rx(items@, s@)->0, a@),
{ unimplemented!() }
#[verifier::external_body]
pub fn vrt_rx_cap3<'a>(s: &'a str, items: Ghost<Seq<Rx>>, a: Ghost<int>, b: Ghost<int>, c: Ghost<int>) -> (r: Option<(&'a str, &'a str, &'a str)>)
    ensures r.is_some() == rx(items@, s@).is_some(),
        r matches Some((x, y, z)) ==> x@ == rx_part(s@, rx(items@, s@)->0, a@) && y@ == rx_part(s@, rx(items@, s@)->0, b@) && z@ == rx_part(s@, rx(items@, s@)->0, c@),
{ unimplemented!() }
#[verifier::external_body]
pub struct VrtMatch<'a> { _p: core::marker::PhantomData<&'a ()> }
impl<'a> VrtMatch<'a> {
    pub uninterp spec fn text(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &'a str)
        ensures r@ == self.text(),
    { unimplemented!() }
}
// (the matches of these regexes are never empty)
#[verifier::external_body]
pub fn vrt_rx_find_iter<'a>(s: &'a str, items: Ghost<Seq<Rx>>) -> (r: Vec<VrtMatch<'a>>)
    ensures r@.len() == rx_finds(items@, s@, 0).len(),
        forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).text() == s@.subrange(rx_finds(items@, s@, 0)[i].0, rx_finds(items@, s@, 0)[i].1),
{ unimplemented!() }
}
