//@include prelude.vrs
//@include types.vrs
//@include strs.vrs
//@include output.vrs
//@include style_specs.vrs
//@include skin_specs.vrs
//@include fmt_specs.vrs
//@include wrap_specs.vrs
//@include cut_specs.vrs
//@include tblfit_specs.vrs
//@include render_specs.vrs
//@include line_specs.vrs
//@include tbl_specs.vrs
fn main() {}
