//@include prelude.vrs
verus! {
pub uninterp spec fn uwidth(c: char) -> Option<usize>;
}
//@include content_specs.vrs
fn main() {}
