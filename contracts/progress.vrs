//@include prelude.vrs
//@include float_specs.vrs
//@include progress_specs.vrs
fn main() {}
