// questions
verus! {
//@type src/ask.rs Question
//@type src/ask.rs Answer
// std: == on strings
pub trait VrtEq { spec fn ev(&self, o: &Self) -> bool; fn same(&self, o: &Self) -> (r: bool) ensures r == self.ev(o); }
impl VrtEq for String { open spec fn ev(&self, o: &Self) -> bool { self@ == o@ } #[verifier::external_body] fn same(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl<'a> VrtEq for &'a String { open spec fn ev(&self, o: &Self) -> bool { self@ == o@ } #[verifier::external_body] fn same(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl<'a> VrtEq for &'a str { open spec fn ev(&self, o: &Self) -> bool { self@ == o@ } #[verifier::external_body] fn same(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl<'a> VrtEq for Option<&'a String> {
    open spec fn ev(&self, o: &Self) -> bool { match (self, o) { (Some(a), Some(b)) => a@ == b@, (None, None) => true, _ => false } }
    #[verifier::external_body]
    fn same(&self, o: &Self) -> (r: bool) { unimplemented!() }
}
pub fn vrt_eq<T: VrtEq>(a: &T, b: &T) -> (r: bool) ensures r == a.ev(b) { a.same(b) }
// std: str::trim_end
pub open spec fn trimmed(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && blank(s.last()) { trimmed(s.drop_last()) } else { s } }
pub proof fn trimmed_prefix(s: Seq<char>)
    ensures trimmed(s).len() <= s.len(), trimmed(s) == s.take(trimmed(s).len() as int), trimmed(s).len() > 0 ==> !blank(trimmed(s).last()),
        forall|i: int| trimmed(s).len() <= i < s.len() ==> blank(#[trigger] s[i]),
    decreases s.len(),
{
    if s.len() > 0 && blank(s.last()) {
        trimmed_prefix(s.drop_last());
        assert(s.take(trimmed(s).len() as int) =~= s.drop_last().take(trimmed(s).len() as int));
        assert forall|i: int| trimmed(s).len() <= i < s.len() implies blank(#[trigger] s[i]) by { if i < s.len() - 1 { assert(s.drop_last()[i] == s[i]); } }
    } else { assert(s.take(s.len() as int) =~= s); }
}
pub trait VrtTrim { spec fn tv(&self) -> Seq<char>; fn vrt_trim_end(&self) -> (r: &str) ensures r@ == trimmed(self.tv()); }
impl VrtTrim for String { open spec fn tv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vrt_trim_end(&self) -> (r: &str) { unimplemented!() } }
impl VrtTrim for str { open spec fn tv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vrt_trim_end(&self) -> (r: &str) { unimplemented!() } }
// std: the standard input, as the lines still to be read; at its end, nothing is read
#[verifier::external_body]
pub struct IoError { _p: core::marker::PhantomData<()> }
pub type Result<T> = core::result::Result<T, IoError>;
#[verifier::external_body]
pub struct Stdin { _p: core::marker::PhantomData<()> }
pub open spec fn line_at(l: Seq<Seq<char>>, k: int) -> Seq<char> { if 0 <= k < l.len() { l[k] } else { Seq::empty() } }
impl Stdin {
    // the whole input, and how many lines were read from it
    pub uninterp spec fn input(&self) -> Seq<Seq<char>>;
    pub uninterp spec fn pos(&self) -> int;
    #[verifier::external_body]
    pub fn read_line(&mut self, buf: &mut String) -> (r: Result<usize>)
        ensures final(self).input() == old(self).input(),
            r is Ok ==> final(self).pos() == old(self).pos() + 1 && final(buf)@ == old(buf)@ + line_at(old(self).input(), old(self).pos()),
    { unimplemented!() }
}
// the text of a displayable value
pub trait VrtToString { spec fn text(&self) -> Seq<char>; fn vrt_to_string(&self) -> (r: String) ensures r@ == self.text(); }
impl<T: Display> VrtToString for T { uninterp spec fn text(&self) -> Seq<char>; #[verifier::external_body] fn vrt_to_string(&self) -> (r: String) { unimplemented!() } }
pub trait VrtIntoString: Sized { spec fn itext(self) -> Seq<char>; fn vrt_into_string(self) -> (r: String) ensures r@ == self.itext(); }
impl<T: Into<String>> VrtIntoString for T { uninterp spec fn itext(self) -> Seq<char>; #[verifier::external_body] fn vrt_into_string(self) -> (r: String) { unimplemented!() } }
impl MadSkin {
    // only prints
    #[verifier::external_body]
    pub fn print_text(&self, md: &String) { unimplemented!() }
}
//@fn src/ask.rs Question::new
//@ret r
//@rule method into vrt_into_string
//@spec
    ensures r.md matches Some(m) && m@ == md.itext(), r.answers@.len() == 0, r.default_answer is None,
//@endfn
//@fn src/ask.rs Question::add_answer
//@rule method into vrt_into_string
//@rule method to_string vrt_to_string
//@spec
    ensures final(self).md == old(self).md, final(self).default_answer == old(self).default_answer,
        final(self).answers@.len() == old(self).answers@.len() + 1, final(self).answers@.drop_last() == old(self).answers@,
        final(self).answers@.last().key@ == key.text(), final(self).answers@.last().md@ == md.itext(),
//@endfn
//@fn src/ask.rs Question::set_default
//@rule method to_string vrt_to_string
//@spec
    ensures final(self).md == old(self).md, final(self).answers == old(self).answers, final(self).default_answer matches Some(d) && d@ == default_answer.text(),
//@endfn
impl Question {
    pub open spec fn is_key(&self, s: Seq<char>) -> bool { exists|i: int| 0 <= i < self.answers@.len() && #[trigger] self.answers@[i].key@ == s }
    // what a typed line gives
    pub open spec fn answer(&self, line: Seq<char>) -> Option<Seq<char>> {
        let s = trimmed(line);
        if s.len() == 0 && self.default_answer is Some { Some(self.default_answer->Some_0@) }
        else if self.is_key(s) { Some(s) } else { None }
    }
}
//@fn src/ask.rs Question::has_exotic_default
//@ret r
//@rule eq
//@spec
    ensures r == (self.default_answer is Some && !self.is_key(self.default_answer->Some_0@)),
//@loop 0 it
    invariant self.default_answer is Some, da@ == self.default_answer->Some_0@,
        it.seq().len() == self.answers@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *it.seq()[i] == self.answers@[i],
        forall|i: int| 0 <= i < it.index@ ==> #[trigger] self.answers@[i].key@ != da@,
//@endfn
//@fn src/ask.rs Question::ask
//@rule eq
//@rule drop_print
//@rule stdin __in
//@rule method trim_end vrt_trim_end
//@sig (&self, skin: &MadSkin, __in: &mut Stdin) -> (r: Result<String>)
//@attrs #[verifier::exec_allows_no_decreases_clause]
//@spec
    ensures
        final(__in).input() == old(__in).input(),
        // the answer given by the last of the lines read, the other ones being refused
        r matches Ok(s) ==> final(__in).pos() > old(__in).pos() && self.answer(line_at(old(__in).input(), final(__in).pos() - 1)) == Some(s@)
            && forall|k: int| old(__in).pos() <= k < final(__in).pos() - 1 ==> self.answer(#[trigger] line_at(old(__in).input(), k)) is None,
//@at body-start
    let ghost inp = __in.input();
    let ghost p0 = __in.pos();
//@loop 1
    invariant inp == old(__in).input(), p0 == old(__in).pos(), __in.input() == inp, __in.pos() >= p0, forall|k: int| p0 <= k < __in.pos() ==> self.answer(#[trigger] line_at(inp, k)) is None,
//@at before call truncate 0
    proof { trimmed_prefix(input@); idx_at(input@, trimmed(input@).len() as int); assert forall|x: &str| #[trigger] x.spec_bytes().len() == blen(x@) && blen(x@) <= 0x7fff_ffff_ffff_ffff by { str_blen(x); str_max(x); } }
//@at after call truncate 0
    let ghost line = line_at(inp, __in.pos() - 1);
    proof { assert(input@ == trimmed(line)); }
//@loop 2 it
    invariant
        it.seq().len() == self.answers@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *it.seq()[i] == self.answers@[i],
        forall|i: int| 0 <= i < it.index@ ==> #[trigger] self.answers@[i].key@ != input@,
        input@ == trimmed(line), input@.len() > 0 || self.default_answer is None,
        inp == old(__in).input(), p0 == old(__in).pos(), __in.input() == inp, __in.pos() > p0, line == line_at(inp, __in.pos() - 1), forall|k: int| p0 <= k < __in.pos() - 1 ==> self.answer(#[trigger] line_at(inp, k)) is None,
//@endfn
}
