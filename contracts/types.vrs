// data types of the formatted texts (extracted from the crate and its dependencies)
use std::fmt::Display;
verus! {
//@type crossterm:src/style/types/color.rs Color derive=Structural,PartialEq,Eq,Clone,Copy
//@type crossterm:src/style/attributes.rs Attributes derive=Structural,PartialEq,Eq,Clone,Copy
//@type crossterm:src/style/content_style.rs ContentStyle derive=Structural,PartialEq,Eq,Clone,Copy
//@type crossterm:src/style/styled_content.rs StyledContent derive=Clone,Copy
//@type minimad:src/markdown/align.rs Alignment derive=Structural,PartialEq,Eq,Clone,Copy
//@type minimad:src/markdown/compound.rs Compound clone
//@type minimad:src/markdown/composite.rs CompositeStyle derive=Structural,PartialEq,Eq,Clone,Copy
//@type minimad:src/markdown/composite.rs Composite
//@type src/compound_style.rs CompoundStyle derive=Structural,PartialEq,Eq clone
//@type src/line_style.rs LineStyle clone
//@type src/styled_char.rs StyledChar clone
//@type src/scrollbar_style.rs ScrollBarStyle clone
//@type src/table_border_chars.rs TableBorderChars
//@type src/list_indentation.rs ListItemsIndentationMode derive=Structural,PartialEq,Eq,Clone,Copy
//@type src/spacing.rs Spacing derive=Structural,PartialEq,Eq,Clone,Copy
//@type src/composite_kind.rs CompositeKind derive=Structural,PartialEq,Eq,Clone,Copy
//@type src/composite.rs FmtComposite
//@type src/tbl.rs FmtTableRow
//@type src/tbl.rs RelativePosition
//@type src/tbl.rs FmtTableRule
//@type src/line.rs FmtLine
//@const minimad:src/markdown/line.rs MAX_HEADER_DEPTH
// the special renders of a skin: a map from fragments to styled chars
// (opaque keys, and its values in the order of its iteration)
#[verifier::external_body]
pub struct VrtSpecialKeys { _p: core::marker::PhantomData<()> }
pub struct VrtSpecials { pub keys: VrtSpecialKeys, pub renders: Vec<StyledChar> }
impl VrtSpecials {
    pub uninterp spec fn of(&self, c: Compound<'_>) -> Option<StyledChar>;
    #[verifier::external_body]
    pub fn get(&self, c: &Compound<'_>) -> (r: Option<&StyledChar>)
        ensures (r matches Some(s) ==> self.of(*c) == Some(*s)), r is None ==> self.of(*c) is None,
    { unimplemented!() }
}
//@type src/skin.rs MadSkin retype=special_chars:VrtSpecials
//@type src/text.rs FmtText
}
