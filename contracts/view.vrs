//@include prelude.vrs
//@include types.vrs
//@import strs.vrs
//@import output.vrs
//@import style_specs.vrs
//@import skin_specs.vrs
//@import fmt_specs.vrs
//@import wrap_specs.vrs
//@import cut_specs.vrs
//@import code_specs.vrs
//@import tblfit_specs.vrs
//@import render_specs.vrs
//@import line_specs.vrs
//@import tbl_specs.vrs
//@import text_specs.vrs
//@import filling_specs.vrs
//@import draw_specs.vrs
verus! {
//@import area_specs.vrs
//@import tview_specs.vrs
}
//@include view_specs.vrs
fn main() {}
