//@include prelude.vrs
//@include channel_specs.vrs
//@include tick_specs.vrs
fn main() {}
