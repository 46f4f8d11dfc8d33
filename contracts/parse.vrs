//@include prelude.vrs
//@include types.vrs
//@include output.vrs
//@include style_specs.vrs
//@include rx.vrs
//@include parse_specs.vrs
//@include parse_text.vrs
//@include parse_read.vrs
//@include parse_tokens.vrs
fn main() {}
