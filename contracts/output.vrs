// ghost model of what is written: the sequence of what's queued or displayed
verus! {
#[verifier::external_body]
pub struct Error { _p: core::marker::PhantomData<()> }
pub type Result<T, E = Error> = core::result::Result<T, E>;
#[verifier::external_body]
pub struct FmtError { _p: core::marker::PhantomData<()> }
#[verifier::external]
impl core::fmt::Debug for FmtError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() } }
pub type FmtResult = core::result::Result<(), FmtError>;
pub fn vrt_ok() -> (r: FmtResult) ensures r.is_ok() { Ok(()) }

// the visible text of a displayable value
pub trait Shown {
    spec fn chars(&self) -> Seq<char>;
    // what is printed, and when it can be
    open spec fn printed(&self) -> Out { Out::Plain(self.chars()) }
    open spec fn printable(&self) -> bool { true }
}
impl Shown for char { open spec fn chars(&self) -> Seq<char> { seq![*self] } }
impl Shown for String { open spec fn chars(&self) -> Seq<char> { self@ } }
impl<'a> Shown for &'a str { open spec fn chars(&self) -> Seq<char> { self@ } }
// std::borrow::Cow<str> (as it's only used with str)
pub enum Cow<'a, B: ?Sized> { Borrowed(&'a B), Owned(String) }
impl<'a> Cow<'a, str> {
    pub open spec fn text(&self) -> Seq<char> { match self { Cow::Borrowed(s) => s@, Cow::Owned(s) => s@ } }
}
impl<'a> Shown for Cow<'a, str> { open spec fn chars(&self) -> Seq<char> { self.text() } }
#[verifier::external]
impl<'a> Display for Cow<'a, str> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() } }
impl<'a> Clone for Cow<'a, str> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}

pub ghost enum Out {
    Styled(ContentStyle, Seq<char>),
    Plain(Seq<char>),
    Cells(Seq<Cell>),
    Move(int, int),
    Clear,
    Fg(Color),
    Bg(Color),
    Other,
}
// a printed char and its style, if any
pub type Cell = (Option<ContentStyle>, char);
pub open spec fn styled(st: ContentStyle, s: Seq<char>) -> Seq<Cell> { Seq::new(s.len(), |i: int| (Some(st), s[i])) }
pub open spec fn unstyled(s: Seq<char>) -> Seq<Cell> { Seq::new(s.len(), |i: int| (None::<ContentStyle>, s[i])) }
pub open spec fn out_cells(o: Out) -> Seq<Cell> {
    match o { Out::Styled(st, s) => styled(st, s), Out::Plain(s) => unstyled(s), Out::Cells(c) => c, _ => Seq::empty() }
}
pub open spec fn cells(o: Seq<Out>) -> Seq<Cell> decreases o.len() {
    if o.len() == 0 { Seq::empty() } else { cells(o.drop_last()) + out_cells(o.last()) }
}
pub open spec fn is_text(o: Out) -> bool { o is Styled || o is Plain || o is Cells }
// from a to b, only text was written: these cells
pub open spec fn wrote(a: Seq<Out>, b: Seq<Out>, c: Seq<Cell>) -> bool {
    &&& a.len() <= b.len() && b.take(a.len() as int) == a
    &&& forall|i: int| a.len() <= i < b.len() ==> is_text(#[trigger] b[i])
    &&& cells(b.skip(a.len() as int)) == c
}
pub proof fn cells_add(a: Seq<Out>, b: Seq<Out>)
    ensures cells(a + b) == cells(a) + cells(b),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); assert(cells(a) + cells(b) =~= cells(a)); } else {
        cells_add(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert(cells(a) + cells(b) =~= cells(a) + cells(b.drop_last()) + out_cells(b.last()));
    }
}
pub proof fn wrote_nothing(a: Seq<Out>)
    ensures wrote(a, a, Seq::empty()),
{ assert(a.take(a.len() as int) =~= a); assert(a.skip(a.len() as int) =~= Seq::<Out>::empty()); }
pub proof fn wrote_one(a: Seq<Out>, o: Out)
    requires is_text(o),
    ensures wrote(a, a.push(o), out_cells(o)),
{
    assert(a.push(o).take(a.len() as int) =~= a);
    let t = a.push(o).skip(a.len() as int);
    assert(t =~= seq![o]);
    assert(t.drop_last() =~= Seq::<Out>::empty());
    reveal_with_fuel(cells, 2);
    assert(cells(t) =~= out_cells(o));
}
pub proof fn wrote_then(a: Seq<Out>, b: Seq<Out>, c: Seq<Out>, x: Seq<Cell>, y: Seq<Cell>)
    requires wrote(a, b, x), wrote(b, c, y),
    ensures wrote(a, c, x + y),
{
    assert(c.take(a.len() as int) =~= c.take(b.len() as int).take(a.len() as int));
    assert(c.skip(a.len() as int) =~= b.skip(a.len() as int) + c.skip(b.len() as int));
    cells_add(b.skip(a.len() as int), c.skip(b.len() as int));
    assert forall|i: int| a.len() <= i < c.len() implies is_text(#[trigger] c[i]) by {
        if i < b.len() { assert(c[i] == c.take(b.len() as int)[i]); }
    }
}
// crossterm commands
pub trait Command: Sized { spec fn out(&self) -> Out; open spec fn allowed(&self) -> bool { true } }
pub struct PrintStyledContent<D: Display>(pub StyledContent<D>);
impl<D: Display + Shown> Command for PrintStyledContent<D> {
    open spec fn out(&self) -> Out { Out::Styled(self.0.style, self.0.content.chars()) }
}
pub struct Print<D: Display>(pub D);
impl<D: Display + Shown> Command for Print<D> {
    open spec fn out(&self) -> Out { self.0.printed() }
    open spec fn allowed(&self) -> bool { self.0.printable() }
}
pub struct SetForegroundColor(pub Color);
impl Command for SetForegroundColor { open spec fn out(&self) -> Out { Out::Fg(self.0) } }
pub struct SetBackgroundColor(pub Color);
impl Command for SetBackgroundColor { open spec fn out(&self) -> Out { Out::Bg(self.0) } }
pub struct MoveTo(pub u16, pub u16);
impl Command for MoveTo { open spec fn out(&self) -> Out { Out::Move(self.0 as int, self.1 as int) } }
pub enum ClearType { All, Purge, FromCursorDown, FromCursorUp, CurrentLine, UntilNewLine }
pub struct Clear(pub ClearType);
impl Command for Clear { open spec fn out(&self) -> Out { Out::Clear } }

// std::io::Write with crossterm's QueueableCommand: what was queued, in order
pub trait Write: Sized {
    spec fn out(&self) -> Seq<Out>;
    fn queue<C: Command>(&mut self, c: C) -> (r: Result<()>)
        requires c.allowed(),
        ensures r.is_ok() ==> final(self).out() == old(self).out().push(c.out());
}
// std::fmt::Formatter: the printed cells
#[verifier::external_body]
pub struct Formatter<'a> { _p: core::marker::PhantomData<&'a ()> }
impl<'a> Formatter<'a> {
    pub uninterp spec fn out(&self) -> Seq<Cell>;
    #[verifier::external_body]
    pub fn vrt_str(&mut self, s: &str) -> (r: FmtResult)
        ensures r.is_ok() ==> final(self).out() == old(self).out() + unstyled(s@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write_char(&mut self, c: char) -> (r: FmtResult)
        ensures r.is_ok() ==> final(self).out() == old(self).out() + unstyled(seq![c]),
    { unimplemented!() }
}
pub trait VrtDisplay {
    spec fn shown(&self) -> Seq<Cell>;
    fn vrt_display(&self, f: &mut Formatter<'_>) -> (r: FmtResult)
        ensures r.is_ok() ==> final(f).out() == old(f).out() + self.shown();
}
impl<D: Display + Shown> VrtDisplay for StyledContent<D> {
    open spec fn shown(&self) -> Seq<Cell> { styled(self.style, self.content.chars()) }
    #[verifier::external_body]
    fn vrt_display(&self, f: &mut Formatter<'_>) -> (r: FmtResult) { unimplemented!() }
}
}
