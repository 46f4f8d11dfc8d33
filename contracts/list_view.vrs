//@include prelude.vrs
//@include types.vrs
verus! {
pub assume_specification [i32::unsigned_abs] (x: i32) -> (r: u32)
    ensures r as int == (if x < 0 { -(x as int) } else { x as int });
pub assume_specification [i32::saturating_mul] (a: i32, b: i32) -> (r: i32)
    ensures r as int == (if a * b > i32::MAX { i32::MAX as int } else if a * b < i32::MIN { i32::MIN as int } else { a * b });
//@include area_specs.vrs
}
//@include list_specs.vrs
fn main() {}
