// common prelude: shims shared by the units
#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens, unused_assignments, unused_braces, non_snake_case, unreachable_code, irrefutable_let_patterns, non_camel_case_types)]
use vstd::prelude::*;

verus! {
global size_of usize == 8; // the 64 bits platform the crate is built for here

// assert!/debug_assert! become proof obligations
pub fn vrt_assert(b: bool)
    requires b,
{}

// lossless integer conversions (verified shims of the From impls)
pub fn vrt_i32_from_u16(x: u16) -> (r: i32)
    ensures r as int == x as int,
{ x as i32 }

// iterator skip/take bounds (verified shims)
pub fn vrt_skip_take_end(len: usize, skip: usize, take: usize) -> (r: usize)
    ensures r as int == (if skip as int + take as int <= len as int { skip as int + take as int } else { if skip <= len { len as int } else { skip as int } }),
{
    if skip >= len { skip } else if take <= len - skip { skip + take } else { len }
}
pub fn vrt_skip_end(len: usize, skip: usize) -> (r: usize)
    ensures r as int == (if skip <= len { len as int } else { skip as int }),
{
    if skip <= len { len } else { skip }
}

pub trait VrtVec<T>: Sized {
    spec fn vrt_view(&self) -> Seq<T>;
    fn vrt_drain_all(&mut self) -> (r: Vec<T>)
        ensures r@ == old(self).vrt_view(), final(self).vrt_view().len() == 0;
    fn vrt_drain(&mut self, a: usize, b: usize) -> (r: Vec<T>)
        requires a <= b <= old(self).vrt_view().len(),
        ensures r@ == old(self).vrt_view().subrange(a as int, b as int),
            final(self).vrt_view() == old(self).vrt_view().take(a as int) + old(self).vrt_view().skip(b as int);
    fn vrt_drain_from(&mut self, a: usize) -> (r: Vec<T>)
        requires a <= old(self).vrt_view().len(),
        ensures r@ == old(self).vrt_view().skip(a as int), final(self).vrt_view() == old(self).vrt_view().take(a as int);
}
// std: a Vec of a type which isn't zero sized never has more than isize::MAX elements
pub axiom fn vrt_vec_len<T>(v: &Vec<T>)
    ensures v@.len() <= 0x7fff_ffff_ffff_ffff;
// (and not more than isize::MAX bytes, a char taking 4 of them)
pub axiom fn vrt_vec_char_len(v: &Vec<char>)
    ensures v@.len() <= 0x1fff_ffff_ffff_ffff;

impl<T> VrtVec<T> for Vec<T> {
    open spec fn vrt_view(&self) -> Seq<T> { self@ }
    fn vrt_drain_all(&mut self) -> (r: Vec<T>)
    {
        let mut e: Vec<T> = Vec::new();
        std::mem::swap(self, &mut e);
        e
    }
    fn vrt_drain(&mut self, a: usize, b: usize) -> (r: Vec<T>)
    {
        let ghost s0 = self@;
        let mut t = self.split_off(b);
        let r = self.split_off(a);
        self.append(&mut t);
        proof {
            assert(s0.take(b as int).subrange(a as int, b as int) =~= s0.subrange(a as int, b as int));
            assert(s0.take(b as int).take(a as int) =~= s0.take(a as int));
            assert(s0.subrange(b as int, s0.len() as int) =~= s0.skip(b as int));
            assert(r@ =~= s0.subrange(a as int, b as int));
            assert(self@ =~= s0.take(a as int) + s0.skip(b as int));
        }
        r
    }
    fn vrt_drain_from(&mut self, a: usize) -> (r: Vec<T>)
    {
        let ghost s0 = self@;
        let r = self.split_off(a);
        proof {
            assert(r@ =~= s0.skip(a as int));
            assert(self@ =~= s0.take(a as int));
        }
        r
    }
}

} // verus!
