//@include prelude.vrs
//@include types.vrs
//@import strs.vrs
//@import output.vrs
//@import style_specs.vrs
//@import skin_specs.vrs
//@import fmt_specs.vrs
//@import wrap_specs.vrs
//@import ellip_specs.vrs
//@import render_specs.vrs
//@import line_specs.vrs
//@include inline_specs.vrs
fn main() {}
