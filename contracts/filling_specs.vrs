// fillings of any length
verus! {
//@const src/fit/filling.rs FILLING_STRING_CHAR_LEN
//@type src/fit/filling.rs Filling
// ---------------------------------------------------------------- filling
impl Filling {
    pub open spec fn is_for(&self, c: char) -> bool {
        self.filling_string@ == rep(c, FILLING_STRING_CHAR_LEN as int) && self.char_size == clen(c)
    }
    pub open spec fn wf(&self) -> bool { exists|c: char| self.is_for(c) }
    pub open spec fn c(&self) -> char { self.filling_string@[0] }
}
pub proof fn blen_rep(c: char, n: int)
    requires 0 <= n,
    ensures blen(rep(c, n)) == n * clen(c),
    decreases n,
{
    assert(n == 0 ==> n * clen(c) == 0);
    if n > 0 {
        blen_rep(c, n - 1);
        assert(rep(c, n).drop_last() =~= rep(c, n - 1));
        assert(n * clen(c) == (n - 1) * clen(c) + clen(c)) by (nonlinear_arith);
        assert(rep(c, n).last() == c);
    }
}
pub proof fn rep_slice(c: char, n: int, k: int)
    requires 0 <= k <= n,
    ensures boundary(rep(c, n), k * clen(c)), idx(rep(c, n), k * clen(c)) == k,
        boundary(rep(c, n), 0), idx(rep(c, n), 0) == 0,
        rep(c, n).subrange(0, k) == rep(c, k), blen(rep(c, n)) == n * clen(c),
        0 <= k * clen(c) <= 4 * n,
{
    assert(rep(c, n).take(k) =~= rep(c, k));
    blen_rep(c, k);
    blen_rep(c, n);
    idx_at(rep(c, n), k);
    idx_ends(rep(c, n));
    clen_bounds(c);
    assert(0 <= k * clen(c) <= 4 * n) by (nonlinear_arith) requires 0 <= k <= n, 1 <= clen(c) <= 4;
}
//@fn src/fit/filling.rs Filling::from_char
//@ret r
//@rule call String::from vrt_string_of_char
//@spec
    ensures r.is_for(filling_char),
//@at body-start
    proof { blen_one(filling_char); clen_bounds(filling_char); }
//@loop 0 it
    invariant filling_string@ == rep(filling_char, it.index@ as int),
//@at loop 0 end
    proof { assert(rep(filling_char, it.index@ as int).push(filling_char) =~= rep(filling_char, it.index@ as int + 1)); }
//@endfn
//@lazy src/fit/mod.rs SPACE_FILLING Filling | r.is_for(' ')
//@fn src/fit/filling.rs Filling::queue_unstyled
//@ret r
//@rule str_slice
//@spec
    requires self.wf(),
    ensures r.is_ok() ==> wrote(old(w).out(), final(w).out(), unstyled(rep(self.c(), len as int))),
//@at body-start
    let ghost len0 = len as int;
    let ghost c = choose|c: char| self.is_for(c);
    proof { wrote_nothing(w.out()); assert(unstyled(rep(self.c(), 0)) =~= Seq::<Cell>::empty()); assert(self.filling_string@[0] == c); }
//@loop 0
    invariant
        0 <= len <= len0,
        self.is_for(c), self.c() == c,
        wrote(old(w).out(), w.out(), unstyled(rep(c, len0 - len))),
    decreases len,
//@at loop 0 start
    let ghost w0 = w.out();
    let ghost k = if len <= FILLING_STRING_CHAR_LEN { len as int } else { FILLING_STRING_CHAR_LEN as int };
    proof { rep_slice(c, FILLING_STRING_CHAR_LEN as int, k); }
//@at loop 0 end
    proof {
        let o = Out::Plain(rep(c, k));
        assert(w.out() == w0.push(o));
        wrote_one(w0, o);
        wrote_then(old(w).out(), w0, w.out(), unstyled(rep(c, len0 - len - k)), unstyled(rep(c, k)));
        assert(unstyled(rep(c, len0 - len - k)) + unstyled(rep(c, k)) =~= unstyled(rep(c, len0 - len)));
    }
//@endfn
//@fn src/fit/filling.rs Filling::queue_styled
//@ret r
//@rule str_slice
//@spec
    requires self.wf(),
    ensures r.is_ok() ==> wrote(old(w).out(), final(w).out(), styled(cs.object_style, rep(self.c(), len as int))),
//@at body-start
    let ghost len0 = len as int;
    let ghost c = choose|c: char| self.is_for(c);
    proof { wrote_nothing(w.out()); assert(styled(cs.object_style, rep(self.c(), 0)) =~= Seq::<Cell>::empty()); assert(self.filling_string@[0] == c); }
//@loop 0
    invariant
        0 <= len <= len0,
        self.is_for(c), self.c() == c,
        wrote(old(w).out(), w.out(), styled(cs.object_style, rep(c, len0 - len))),
    decreases len,
//@at loop 0 start
    let ghost w0 = w.out();
    let ghost k = if len <= FILLING_STRING_CHAR_LEN { len as int } else { FILLING_STRING_CHAR_LEN as int };
    proof { rep_slice(c, FILLING_STRING_CHAR_LEN as int, k); }
//@at loop 0 end
    proof {
        let o = Out::Styled(cs.object_style, rep(c, k));
        assert(w.out() == w0.push(o));
        wrote_one(w0, o);
        wrote_then(old(w).out(), w0, w.out(), styled(cs.object_style, rep(c, len0 - len - k)), styled(cs.object_style, rep(c, k)));
        assert(styled(cs.object_style, rep(c, len0 - len - k)) + styled(cs.object_style, rep(c, k)) =~= styled(cs.object_style, rep(c, len0 - len)));
    }
//@endfn

}
