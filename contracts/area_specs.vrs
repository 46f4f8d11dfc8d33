//@type src/area.rs Area derive=Structural,PartialEq,Eq,Clone

//@fn src/area.rs Area::new
//@ret r
//@spec
    ensures r.left == left, r.top == top, r.width == width, r.height == height,
//@endfn

//@fn src/area.rs Area::right
//@ret r
//@spec
    requires self.left as int + self.width as int <= 0xffff,
    ensures r as int == self.left as int + self.width as int,
//@endfn
//@fn src/area.rs Area::bottom
//@ret r
//@spec
    requires self.top as int + self.height as int <= 0xffff,
    ensures r as int == self.top as int + self.height as int,
//@endfn
//@fn src/area.rs Area::contains
//@ret r
//@spec
    requires self.left as int + self.width as int <= 0xffff, self.top as int + self.height as int <= 0xffff,
    ensures r == (self.left <= x && (x as int) < self.left as int + self.width as int
        && self.top <= y && (y as int) < self.top as int + self.height as int),
//@endfn
//@fn src/area.rs Area::pad
//@spec
    requires 2 * dx as int <= old(self).width as int, 2 * dy as int <= old(self).height as int,
      old(self).left as int + old(self).width as int <= 0xffff, old(self).top as int + old(self).height as int <= 0xffff,
    ensures
      final(self).left as int == old(self).left as int + dx as int,
      final(self).top as int == old(self).top as int + dy as int,
      final(self).width as int == old(self).width as int - 2 * dx as int,
      final(self).height as int == old(self).height as int - 2 * dy as int,
//@endfn
//@fn src/area.rs Area::pad_for_max_width
//@spec
    requires
      old(self).left as int + old(self).width as int <= 0xffff, 
    ensures
      final(self).top == old(self).top, final(self).height == old(self).height,
      old(self).width <= max_width ==> final(self).left == old(self).left && final(self).width == old(self).width,
      old(self).width > max_width ==> final(self).width == max_width
         && final(self).left as int == old(self).left as int + (old(self).width - max_width) as int / 2,
//@endfn

// the thumb: the clauses of C13
pub open spec fn thumb_ok(scroll: int, content: int, height: int, top: int, r: Option<(u16, u16)>) -> bool {
    // a scrollbar exactly when the content is higher than a non empty area
    &&& (r.is_some() <==> (height > 0 && content > height))
    &&& (r matches Some((a, b)) ==> {
        // non empty and inside
        &&& top <= a <= b < top + height
        &&& (0 <= scroll <= content - height && height >= 2 ==> {
            &&& (a == top <==> scroll == 0)
            &&& (scroll == content - height ==> b == top + height - 1)
            &&& (scroll < content - height && height > 3 ==> (b < top + height - 1 || a == b))
        })
    })
}
// the exact value, from which monotonicity follows
pub open spec fn thumb_top(scroll: int, content: int, height: int) -> int {
    let t = (scroll * height) / content;
    let t = if t == 0 && scroll > 0 { 1 } else { t };
    if t < height - 1 { t } else { height - 1 }
}
pub open spec fn thumb_bottom(scroll: int, content: int, height: int) -> int {
    let b = thumb_top(scroll, content, height) + (height * height) / content;
    let b = if b < height - 1 { b } else { height - 1 };
    if scroll + height < content && height > 3 {
        let b = if b < height - 2 { b } else { height - 2 };
        if b > thumb_top(scroll, content, height) { b } else { thumb_top(scroll, content, height) }
    } else { b }
}
pub proof fn thumb_facts(scroll: int, content: int, height: int)
    requires 0 <= scroll, 0 < height < content,
    ensures
        0 <= scroll * height, 0 <= (scroll * height) / content, 0 <= (height * height) / content < height,
        scroll <= content - height ==> (scroll * height) / content < height,
        scroll == content - height ==> (scroll * height) / content + (height * height) / content >= height - 1,
        scroll < content - height && height > 3 ==> (scroll * height) / content <= height - 1,
{
    assert(0 <= scroll * height) by (nonlinear_arith) requires 0 <= scroll, 0 < height;
    assert(0 <= (scroll * height) / content) by (nonlinear_arith) requires 0 <= scroll * height, 0 < content;
    assert(0 <= (height * height) / content < height) by (nonlinear_arith) requires 0 < height < content;
    if scroll <= content - height {
        assert((scroll * height) / content < height) by (nonlinear_arith) requires 0 <= scroll < content, 0 < height, 0 < content;
    }
    if scroll == content - height {
        let q1 = (scroll * height) / content; let q2 = (height * height) / content;
        assert(q1 + q2 >= height - 1) by (nonlinear_arith)
            requires scroll == content - height, 0 < height < content,
                q1 == (scroll * height) / content, q2 == (height * height) / content;
    }
}
// never moves up when the scroll increases
pub proof fn thumb_monotone(s1: int, s2: int, content: int, height: int)
    requires 0 <= s1 <= s2 <= content - height, 0 < height < content,
    ensures thumb_top(s1, content, height) <= thumb_top(s2, content, height),
        thumb_bottom(s1, content, height) <= thumb_bottom(s2, content, height),
{
    thumb_facts(s1, content, height);
    thumb_facts(s2, content, height);
    assert(s1 * height <= s2 * height) by (nonlinear_arith) requires s1 <= s2, 0 < height;
    assert((s1 * height) / content <= (s2 * height) / content) by (nonlinear_arith)
        requires s1 * height <= s2 * height, 0 < content;
}

//@fn src/area.rs compute_scrollbar
//@sig (scroll: usize, content_height: usize, available_height: u16, top: u16) -> (r: Option<(u16, u16)>)
//@rule into_id scroll content_height
//@spec
    requires
        top as int + available_height as int <= 0xffff,
        // no overflow of the product: an assumption on the size of the contents (2^47 rows)
        scroll <= 0x7fff_ffff_ffff, content_height <= 0x7fff_ffff_ffff,
    ensures
        thumb_ok(scroll as int, content_height as int, available_height as int, top as int, r),
        r matches Some((a, b)) ==> a as int == top + thumb_top(scroll as int, content_height as int, available_height as int)
            && b as int == top + thumb_bottom(scroll as int, content_height as int, available_height as int),
//@at body-start
    proof {
        if (available_height as int) < content_height as int && available_height > 0 {
            thumb_facts(scroll as int, content_height as int, available_height as int);
        }
        assert(scroll as int * available_height as int <= 0x7fff_ffff_ffff * 0xffff) by (nonlinear_arith)
            requires 0 <= scroll as int <= 0x7fff_ffff_ffff, 0 <= available_height as int <= 0xffff;
        assert(available_height as int * available_height as int <= 0xffff * 0xffff) by (nonlinear_arith)
            requires 0 <= available_height as int <= 0xffff;
    }
//@endfn
//@fn src/area.rs Area::scrollbar
//@sig (&self, scroll: usize, content_height: usize) -> (r: Option<(u16, u16)>)
//@spec
    requires
        self.top as int + self.height as int <= 0xffff,
        scroll <= 0x7fff_ffff_ffff, content_height <= 0x7fff_ffff_ffff,
    ensures
        thumb_ok(scroll as int, content_height as int, self.height as int, self.top as int, r),
        r matches Some((a, b)) ==> a as int == self.top + thumb_top(scroll as int, content_height as int, self.height as int)
            && b as int == self.top + thumb_bottom(scroll as int, content_height as int, self.height as int),
//@endfn
