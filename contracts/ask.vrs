//@include prelude.vrs
//@include types.vrs
//@include strs.vrs
//@include ask_specs.vrs
fn main() {}
