//@include prelude.vrs
//@include source_specs.vrs
fn main() {}
