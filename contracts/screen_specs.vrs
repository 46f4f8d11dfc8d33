// what's shown by a terminal: a char with its style in each cell, and how many times the cell was written
// (all the written chars are supposed to be one column wide here, and no row to be past the last column of the terminal)
verus! {
pub struct Screen { pub x: int, pub y: int, pub at: spec_fn(int, int) -> (Cell, int) }
// some unknown screen to start with
pub uninterp spec fn screen0() -> Screen;
pub open spec fn put(s: Screen, c: Seq<Cell>) -> Screen {
    Screen { x: s.x + c.len(), y: s.y, at: |x: int, y: int| if y == s.y && s.x <= x < s.x + c.len() { (c[x - s.x], (s.at)(x, y).1 + 1) } else { (s.at)(x, y) } }
}
pub open spec fn shows(s: Screen, o: Out) -> Screen {
    match o {
        Out::Move(x, y) => Screen { x: x, y: y, at: s.at },
        o => put(s, out_cells(o)),
    }
}
pub open spec fn screen(o: Seq<Out>) -> Screen decreases o.len() {
    if o.len() == 0 { screen0() } else { shows(screen(o.drop_last()), o.last()) }
}
pub open spec fn same_screen(a: Screen, b: Screen) -> bool { a.x == b.x && a.y == b.y && forall|x: int, y: int| #[trigger] (a.at)(x, y) == (b.at)(x, y) }
pub proof fn screen_push(a: Seq<Out>, o: Out)
    ensures screen(a.push(o)) == shows(screen(a), o),
{ assert(a.push(o).drop_last() =~= a); }
pub proof fn screen_wrote(a: Seq<Out>, b: Seq<Out>, c: Seq<Cell>)
    requires wrote(a, b, c),
    ensures same_screen(screen(b), put(screen(a), c)),
    decreases b.len(),
{
    let n = a.len() as int;
    if b.len() == n {
        assert(b =~= a);
        assert(b.skip(n) =~= Seq::<Out>::empty());
        assert(c =~= Seq::<Cell>::empty());
    } else {
        let p = b.drop_last();
        let d = b.skip(n);
        assert(d.drop_last() =~= p.skip(n));
        assert(p.take(n) =~= b.take(n));
        let pc = cells(p.skip(n));
        assert forall|i: int| n <= i < p.len() implies is_text(#[trigger] p[i]) by { assert(p[i] == b[i]); }
        screen_wrote(a, p, pc);
        assert(is_text(b[b.len() - 1]));
        assert(d.last() == b.last());
        let oc = out_cells(b.last());
        assert(c == pc + oc);
        let s = screen(p);
        assert(screen(b) == put(s, oc));
    }
}
}
