//@include prelude.vrs
//@include types.vrs
//@include strs.vrs
//@include output.vrs
//@include style_specs.vrs
//@include filling_specs.vrs
//@include screen_specs.vrs
//@include rect_specs.vrs
fn main() {}
