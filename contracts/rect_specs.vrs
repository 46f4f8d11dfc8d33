// drawing of rectangles
verus! {
//@include area_specs.vrs
//@type src/rect.rs RectBorderStyle
//@const src/rect.rs BORDER_STYLE_HALF_WIDTH_OUTSIDE
//@const src/rect.rs BORDER_STYLE_MIDDLE_SQUARE_LINE
//@const src/rect.rs BORDER_STYLE_MIDDLE_ROUND_LINE
//@const src/rect.rs BORDER_STYLE_BLAND
//@type src/rect.rs Rect
impl<'s> Rect<'s> {
    pub open spec fn l(&self) -> int { self.area.left as int }
    pub open spec fn t(&self) -> int { self.area.top as int }
    pub open spec fn w(&self) -> int { self.area.width as int }
    pub open spec fn h(&self) -> int { self.area.height as int }
    pub open spec fn ok(&self) -> bool { self.w() >= 2 && self.h() >= 2 && self.l() + self.w() <= 0xffff && self.t() + self.h() <= 0xffff }
    pub open spec fn inside(&self, x: int, y: int) -> bool { self.l() <= x < self.l() + self.w() && self.t() <= y < self.t() + self.h() }
    // what must be written in a cell of the area, if something
    pub open spec fn cell(&self, x: int, y: int) -> Option<char> {
        let b = *self.border_style;
        let (r, m) = (self.l() + self.w() - 1, self.t() + self.h() - 1);
        if y == self.t() { Some(if x == self.l() { b.top_left } else if x == r { b.top_right } else { b.top }) }
        else if y == m { Some(if x == self.l() { b.bottom_left } else if x == r { b.bottom_right } else { b.bottom }) }
        else if x == self.l() { Some(b.left) } else if x == r { Some(b.right) }
        else if self.fill { Some(' ') } else { None }
    }
    // what a cell must be once the first k rows are drawn
    pub open spec fn drawn_at(&self, was: (Cell, int), k: int, x: int, y: int) -> (Cell, int) {
        if self.inside(x, y) && y < self.t() + k {
            match self.cell(x, y) { Some(c) => ((Some(self.colors.object_style), c), was.1 + 1), None => was }
        } else { was }
    }
    pub open spec fn drawn(&self, s0: Screen, s1: Screen, k: int) -> bool {
        forall|x: int, y: int| #[trigger] (s1.at)(x, y) == self.drawn_at((s0.at)(x, y), k, x, y)
    }
    // the rows
    pub open spec fn border_row(&self, a: char, b: char, c: char) -> Seq<Cell> {
        let st = self.colors.object_style;
        styled(st, seq![a]) + styled(st, rep(b, self.w() - 2)) + styled(st, seq![c])
    }
    pub proof fn row_drawn(&self, s0: Screen, a: Screen, b: Screen, k: int)
        requires self.ok(), 0 <= k < self.h(), self.drawn(s0, a, k), a.x == self.l(), a.y == self.t() + k,
            same_screen(b, put(a, if k == 0 { self.border_row(self.border_style.top_left, self.border_style.top, self.border_style.top_right) }
                else if k == self.h() - 1 { self.border_row(self.border_style.bottom_left, self.border_style.bottom, self.border_style.bottom_right) }
                else { self.border_row(self.border_style.left, ' ', self.border_style.right) })),
            k == 0 || k == self.h() - 1 || self.fill,
        ensures self.drawn(s0, b, k + 1),
    {}
}
//@fn src/rect.rs Rect::new
//@ret r
//@spec
    ensures r.area == area, r.colors == colors, !r.fill, *r.border_style == *BORDER_STYLE_BLAND,
//@endfn
//@fn src/rect.rs Rect::set_border_style
//@spec
    ensures *final(self) == (Rect { border_style: bs, ..*old(self) }),
//@endfn
//@fn src/rect.rs Rect::set_fill
//@spec
    ensures *final(self) == (Rect { fill, ..*old(self) }),
//@endfn
// one more char after a run of them
pub proof fn run_next(a: Seq<Out>, b: Seq<Out>, c: Seq<Out>, pre: Seq<Cell>, st: ContentStyle, ch: char, k: int)
    requires 0 <= k, wrote(a, b, pre + styled(st, rep(ch, k))), c == b.push(Out::Styled(st, seq![ch])),
    ensures wrote(a, c, pre + styled(st, rep(ch, k + 1))),
{
    wrote_one(b, Out::Styled(st, seq![ch]));
    wrote_then(a, b, c, pre + styled(st, rep(ch, k)), styled(st, seq![ch]));
    assert(pre + styled(st, rep(ch, k)) + styled(st, seq![ch]) =~= pre + styled(st, rep(ch, k + 1)));
}
pub proof fn run_none(a: Seq<Out>, st: ContentStyle, c0: char, ch: char)
    ensures wrote(a, a.push(Out::Styled(st, seq![c0])), styled(st, seq![c0]) + styled(st, rep(ch, 0))),
{
    wrote_one(a, Out::Styled(st, seq![c0]));
    assert(styled(st, seq![c0]) + styled(st, rep(ch, 0)) =~= styled(st, seq![c0]));
}
pub proof fn run_end(a: Seq<Out>, c: Seq<Out>, pre: Seq<Cell>, st: ContentStyle, ch: char)
    requires exists|b: Seq<Out>| #[trigger] wrote(a, b, pre) && c == b.push(Out::Styled(st, seq![ch])),
    ensures wrote(a, c, pre + styled(st, seq![ch])),
{
    let b = choose|b: Seq<Out>| #[trigger] wrote(a, b, pre) && c == b.push(Out::Styled(st, seq![ch]));
    wrote_one(b, Out::Styled(st, seq![ch]));
    wrote_then(a, b, c, pre, styled(st, seq![ch]));
}
// spaces after a char
pub proof fn char_and_spaces(a: Seq<Out>, b: Seq<Out>, st: ContentStyle, ch: char, n: int)
    requires 0 <= n, wrote(a.push(Out::Styled(st, seq![ch])), b, styled(st, rep(' ', n))),
    ensures wrote(a, b, styled(st, seq![ch]) + styled(st, rep(' ', n))),
{
    wrote_one(a, Out::Styled(st, seq![ch]));
    wrote_then(a, a.push(Out::Styled(st, seq![ch])), b, styled(st, seq![ch]), styled(st, rep(' ', n)));
}
//@fn src/rect.rs Rect::draw
//@ret r
//@spec
    requires self.ok(),
    ensures r.is_ok() ==> self.drawn(screen(old(w).out()), screen(final(w).out()), self.h()),
//@at body-start
    let ghost st = self.colors.object_style;
    let ghost s0 = screen(w.out());
    let ghost out0 = w.out();
//@at loop 0 before
    let ghost m = out0.push(Out::Move(self.l(), self.t()));
    proof { run_none(m, st, bs.top_left, bs.top); }
//@loop 0 it
    invariant wrote(m, w.out(), styled(st, seq![bs.top_left]) + styled(st, rep(bs.top, it.index@ as int))),
        st == self.colors.object_style, *cs == self.colors, **bs == *self.border_style,
//@at loop 0 start
    let ghost o1 = w.out();
//@at loop 0 end
    proof { run_next(m, o1, w.out(), styled(st, seq![bs.top_left]), st, bs.top, it.index@ as int); }
//@at before assign y 0
    proof {
        let m = out0.push(Out::Move(self.l(), self.t()));
        if self.w() == 2 { run_none(m, st, bs.top_left, bs.top); }
        run_end(m, w.out(), styled(st, seq![bs.top_left]) + styled(st, rep(bs.top, self.w() - 2)), st, bs.top_right);
        screen_push(out0, Out::Move(self.l(), self.t()));
        screen_wrote(m, w.out(), self.border_row(bs.top_left, bs.top, bs.top_right));
        self.row_drawn(s0, screen(m), screen(w.out()), 0);
    }
//@loop 1
    invariant
        self.ok(), *area == self.area, *cs == self.colors, **bs == *self.border_style, st == self.colors.object_style,
        self.t() + 1 <= y as int <= self.t() + self.h() - 1,
        self.drawn(s0, screen(w.out()), y - self.t()),
    decreases self.t() + self.h() - y,
//@at loop 1 start
    let ghost b0 = w.out();
    let ghost b1 = b0.push(Out::Move(self.l(), y as int));
    let ghost b2 = b1.push(Out::Styled(st, seq![bs.left]));
//@at before assign y 1
    proof {
        screen_push(b0, Out::Move(self.l(), y as int));
        run_none(b1, st, bs.left, ' ');
        if self.fill {
            if self.w() > 2 {
                let z = styled(st, rep(' ', self.w() - 2));
                let o2 = choose|o: Seq<Out>| #[trigger] wrote(b2, o, z) && w.out() == o.push(Out::Styled(st, seq![bs.right]));
                char_and_spaces(b1, o2, st, bs.left, self.w() - 2);
            }
            run_end(b1, w.out(), styled(st, seq![bs.left]) + styled(st, rep(' ', self.w() - 2)), st, bs.right);
            screen_wrote(b1, w.out(), self.border_row(bs.left, ' ', bs.right));
            self.row_drawn(s0, screen(b1), screen(w.out()), y - self.t());
        } else {
            let b3 = b2.push(Out::Move(self.l() + self.w() - 1, y as int));
            screen_push(b1, Out::Styled(st, seq![bs.left]));
            screen_push(b2, Out::Move(self.l() + self.w() - 1, y as int));
            screen_push(b3, Out::Styled(st, seq![bs.right]));
            assert(self.drawn(s0, screen(w.out()), y - self.t() + 1));
        }
    }
//@at loop 1 after
    let ghost c0 = w.out();
    let ghost c1 = c0.push(Out::Move(self.l(), self.t() + self.h() - 1));
//@at loop 2 before
    proof { run_none(c1, st, bs.bottom_left, bs.bottom); }
//@loop 2 it
    invariant wrote(c1, w.out(), styled(st, seq![bs.bottom_left]) + styled(st, rep(bs.bottom, it.index@ as int))),
        st == self.colors.object_style, *cs == self.colors, **bs == *self.border_style,
//@at loop 2 start
    let ghost o1 = w.out();
//@at loop 2 end
    proof { run_next(c1, o1, w.out(), styled(st, seq![bs.bottom_left]), st, bs.bottom, it.index@ as int); }
//@at body-end
    proof {
        if self.w() == 2 { run_none(c1, st, bs.bottom_left, bs.bottom); }
        run_end(c1, w.out(), styled(st, seq![bs.bottom_left]) + styled(st, rep(bs.bottom, self.w() - 2)), st, bs.bottom_right);
        screen_push(c0, Out::Move(self.l(), self.t() + self.h() - 1));
        screen_wrote(c1, w.out(), self.border_row(bs.bottom_left, bs.bottom, bs.bottom_right));
        self.row_drawn(s0, screen(c1), screen(w.out()), self.h() - 1);
    }
//@endfn
// the borders of the crate: the right char at each place
pub open spec fn borders(b: RectBorderStyle, tl: char, t: char, tr: char, l: char, r: char, bl: char, m: char, br: char) -> bool {
    b.top_left == tl && b.top == t && b.top_right == tr && b.left == l && b.right == r && b.bottom_left == bl && b.bottom == m && b.bottom_right == br
}
pub proof fn border_tables()
    ensures
        borders(*BORDER_STYLE_HALF_WIDTH_OUTSIDE, '▛', '▀', '▜', '▌', '▐', '▙', '▄', '▟'),
        borders(*BORDER_STYLE_MIDDLE_SQUARE_LINE, '┌', '─', '┐', '│', '│', '└', '─', '┘'),
        borders(*BORDER_STYLE_MIDDLE_ROUND_LINE, '╭', '─', '╮', '│', '│', '╰', '─', '╯'),
        borders(*BORDER_STYLE_BLAND, ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' '),
{}
}
