//@include prelude.vrs
//@include types.vrs
//@include strs.vrs
//@include output.vrs
//@include style_specs.vrs
//@include filling_specs.vrs
//@include draw_specs.vrs
//@include keys.vrs
verus! {
//@include area_specs.vrs
}
//@include content_specs.vrs
//@include field_specs.vrs
fn main() {}
