//@include prelude.vrs
//@include types.vrs
//@import strs.vrs
//@import output.vrs
//@import style_specs.vrs
//@import skin_specs.vrs
//@import fmt_specs.vrs
//@import wrap_specs.vrs
//@import render_specs.vrs
//@import line_specs.vrs
verus! {
pub assume_specification [i32::unsigned_abs] (x: i32) -> (r: u32)
    ensures r as int == (if x < 0 { -(x as int) } else { x as int });
pub assume_specification [i32::saturating_mul] (a: i32, b: i32) -> (r: i32)
    ensures r as int == (if a * b > i32::MAX { i32::MAX as int } else if a * b < i32::MIN { i32::MIN as int } else { a * b });
//@import area_specs.vrs
}
//@import list_specs.vrs
//@include list_draw_specs.vrs
fn main() {}
