//@include prelude.vrs
verus! {
//@include area_specs.vrs
}
fn main() {}
