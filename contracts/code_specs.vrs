// blocks of code lines
verus! {
//@type src/code.rs CodeBlock
pub open spec fn is_code(l: FmtLine<'_>) -> bool { l matches FmtLine::Normal(fc) && fc.kind is Code }
pub open spec fn vlen_of(l: FmtLine<'_>) -> usize { match l { FmtLine::Normal(fc) => fc.visible_length, _ => 0 } }
// the width of the longest line
pub open spec fn maxw(l: Seq<FmtLine<'_>>, a: int, b: int) -> usize decreases b - a {
    if b <= a { 0 } else if maxw(l, a, b - 1) > vlen_of(l[b - 1]) { maxw(l, a, b - 1) } else { vlen_of(l[b - 1]) }
}
// a maximal run of code lines
pub open spec fn all_code(l: Seq<FmtLine<'_>>, a: int, b: int) -> bool { forall|i: int| a <= i < b ==> is_code(#[trigger] l[i]) }
pub open spec fn is_run(l: Seq<FmtLine<'_>>, a: int, b: int) -> bool {
    &&& 0 <= a < b <= l.len()
    &&& all_code(l, a, b)
    &&& a == 0 || !is_code(l[a - 1])
    &&& b == l.len() || !is_code(l[b])
}
// the lines are the same ones, except for the spacing of composites
pub open spec fn respaced(a: FmtLine<'_>, b: FmtLine<'_>) -> bool {
    match (a, b) {
        (FmtLine::Normal(x), FmtLine::Normal(y)) => x.kind == y.kind && x.compounds == y.compounds && x.visible_length == y.visible_length,
        _ => a == b,
    }
}
pub open spec fn spacing_of(l: FmtLine<'_>) -> Option<Spacing> { match l { FmtLine::Normal(fc) => fc.spacing, _ => None } }
impl CodeBlock {
    pub open spec fn end(&self) -> int { self.start + self.height }
    pub open spec fn is_block(&self, l: Seq<FmtLine<'_>>) -> bool { is_run(l, self.start as int, self.end()) && self.width == maxw(l, self.start as int, self.end()) }
    pub open spec fn has(&self, i: int) -> bool { self.start <= i < self.end() }
}
// lines which only differ by their spacing have the same runs
pub proof fn runs_same(l: Seq<FmtLine<'_>>, m: Seq<FmtLine<'_>>, a: int, b: int)
    requires l.len() == m.len(), forall|i: int| 0 <= i < l.len() ==> respaced(#[trigger] l[i], m[i]), 0 <= a <= b <= l.len(),
    ensures maxw(l, a, b) == maxw(m, a, b),
    decreases b - a,
{
    if a < b { runs_same(l, m, a, b - 1); assert(respaced(l[b - 1], m[b - 1])); }
}
//@fn src/code.rs code_line_length
//@ret r
//@spec
    ensures r == (if is_code(*line) { Some(vlen_of(*line)) } else { None }),
//@endfn
pub open spec fn in_one(blocks: Seq<CodeBlock>, i: int) -> bool { exists|k: int| 0 <= k < blocks.len() && (#[trigger] blocks[k]).has(i) }
//@fn src/code.rs find_blocks
//@ret r
//@spec
    ensures
        forall|k: int| 0 <= k < r@.len() ==> (#[trigger] r@[k]).is_block(lines@),
        forall|k: int, j: int| 0 <= k < j < r@.len() ==> (#[trigger] r@[k]).end() <= (#[trigger] r@[j]).start,
        forall|i: int| 0 <= i < lines@.len() && is_code(#[trigger] lines@[i]) ==> in_one(r@, i),
//@loop 0 it
    invariant
        forall|k: int| 0 <= k < blocks@.len() ==> (#[trigger] blocks@[k]).is_block(lines@) && blocks@[k].end() < it.index@ + 1,
        forall|k: int, j: int| 0 <= k < j < blocks@.len() ==> (#[trigger] blocks@[k]).end() <= (#[trigger] blocks@[j]).start,
        current matches Some(c) ==> c.end() == it.index@ && c.height >= 1 && all_code(lines@, c.start as int, it.index@ as int)
            && (c.start == 0 || !is_code(lines@[c.start - 1])) && c.width == maxw(lines@, c.start as int, it.index@ as int)
            && (forall|k: int| 0 <= k < blocks@.len() ==> (#[trigger] blocks@[k]).end() <= c.start),
        current is None ==> it.index@ == 0 || !is_code(lines@[it.index@ - 1]),
        forall|i: int| 0 <= i < it.index@ && is_code(#[trigger] lines@[i]) ==> in_one(blocks@, i) || (current matches Some(c) && c.has(i)),
//@at loop 0 start
    let ghost n = it.index@ as int;
    let ghost b0 = blocks@;
    let ghost c0 = current;
    proof { reveal_with_fuel(maxw, 2); }
//@at loop 0 end
    proof {
        if blocks@.len() > b0.len() {
            assert(blocks@[b0.len() as int] == c0.unwrap());
            assert forall|i: int| 0 <= i < n && is_code(#[trigger] lines@[i]) implies in_one(blocks@, i) by {
                if in_one(b0, i) { let k = choose|k: int| 0 <= k < b0.len() && (#[trigger] b0[k]).has(i); assert(blocks@[k].has(i)); }
                else { assert(blocks@[b0.len() as int].has(i)); }
            }
        }
    }
//@at loop 0 after
    let ghost b0 = blocks@;
    let ghost c0 = current;
//@at body-end
    proof {
        if blocks@.len() > b0.len() {
            assert(blocks@[b0.len() as int] == c0.unwrap());
            assert forall|i: int| 0 <= i < lines@.len() && is_code(#[trigger] lines@[i]) implies in_one(blocks@, i) by {
                if in_one(b0, i) { let k = choose|k: int| 0 <= k < b0.len() && (#[trigger] b0[k]).has(i); assert(blocks@[k].has(i)); }
                else { assert(blocks@[b0.len() as int].has(i)); }
            }
        }
    }
//@endfn
//@fn src/code.rs CodeBlock::justify
//@spec
    requires self.end() <= old(lines)@.len(),
    ensures final(lines)@.len() == old(lines)@.len(),
        forall|i: int| 0 <= i < old(lines)@.len() ==> respaced(#[trigger] old(lines)@[i], final(lines)@[i]),
        forall|i: int| 0 <= i < old(lines)@.len() && !self.has(i) ==> #[trigger] final(lines)@[i] == old(lines)@[i],
        forall|i: int| 0 <= i < old(lines)@.len() && self.has(i) && is_code(old(lines)@[i]) ==> spacing_of(#[trigger] final(lines)@[i]) == Some(Spacing { width: self.width, align: Alignment::Left }),
//@loop 0
    invariant
        __hi2 == self.end(), self.end() <= old(lines)@.len(), lines@.len() == old(lines)@.len(),
        forall|i: int| 0 <= i < lines@.len() && (!self.has(i) || i >= __i0) ==> #[trigger] lines@[i] == old(lines)@[i],
        forall|i: int| 0 <= i < lines@.len() ==> respaced(old(lines)@[i], #[trigger] lines@[i]),
        forall|i: int| 0 <= i < __i0 && self.has(i) && is_code(old(lines)@[i]) ==> spacing_of(#[trigger] lines@[i]) == Some(Spacing { width: self.width, align: Alignment::Left }),
//@endfn
// every code line is justified to the width of the longest line of its run, other lines are left unchanged
pub open spec fn justified(l: Seq<FmtLine<'_>>, m: Seq<FmtLine<'_>>) -> bool {
    &&& m.len() == l.len()
    &&& forall|i: int| 0 <= i < l.len() ==> respaced(#[trigger] l[i], m[i])
    &&& forall|i: int| 0 <= i < l.len() && !is_code(l[i]) ==> #[trigger] m[i] == l[i]
    &&& forall|i: int| 0 <= i < l.len() && is_code(l[i]) ==> exists|a: int, b: int| #[trigger] is_run(l, a, b) && a <= i < b && spacing_of(#[trigger] m[i]) == Some(Spacing { width: maxw(l, a, b), align: Alignment::Left })
}
//@fn src/code.rs justify_blocks
//@spec
    ensures justified(old(lines)@, final(lines)@),
//@at after let blocks
    let ghost bs = blocks@;
    let ghost l0 = lines@;
//@loop 0 it
    invariant
        it.seq() == bs, l0 == old(lines)@,
        forall|k: int| 0 <= k < bs.len() ==> (#[trigger] bs[k]).is_block(l0),
        forall|k: int, j: int| 0 <= k < j < bs.len() ==> (#[trigger] bs[k]).end() <= (#[trigger] bs[j]).start,
        forall|i: int| 0 <= i < l0.len() && is_code(#[trigger] l0[i]) ==> in_one(bs, i),
        lines@.len() == l0.len(),
        forall|i: int| 0 <= i < l0.len() ==> respaced(l0[i], #[trigger] lines@[i]),
        forall|i: int| 0 <= i < l0.len() && !is_code(l0[i]) ==> #[trigger] lines@[i] == l0[i],
        forall|k: int, i: int| 0 <= k < it.index@ && #[trigger] bs[k].has(i) ==> spacing_of(#[trigger] lines@[i]) == Some(Spacing { width: bs[k].width, align: Alignment::Left }),
//@at loop 0 start
    assert(b.is_block(l0));
//@at body-end
    proof {
        assert forall|i: int| 0 <= i < l0.len() && is_code(l0[i]) implies exists|a: int, b: int| #[trigger] is_run(l0, a, b) && a <= i < b && spacing_of(#[trigger] lines@[i]) == Some(Spacing { width: maxw(l0, a, b), align: Alignment::Left }) by {
            let k = choose|k: int| 0 <= k < bs.len() && (#[trigger] bs[k]).has(i);
            assert(in_one(bs, i));
            assert(is_run(l0, bs[k].start as int, bs[k].end()));
        }
    }
//@endfn
}
