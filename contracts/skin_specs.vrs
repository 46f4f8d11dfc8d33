verus! {
//@const src/fit/composite_fit.rs ELLIPSIS
impl MadSkin {
    pub open spec fn line_style_of(&self, kind: CompositeKind) -> LineStyle {
        match kind {
            CompositeKind::Code => self.code_block,
            CompositeKind::Header(level) => if level <= MAX_HEADER_DEPTH { self.headers[level - 1] } else { self.paragraph },
            _ => self.paragraph,
        }
    }
    // the style of a fragment: overwritten in turn by italic, strikeout, bold and code
    pub open spec fn style_of(&self, ls: LineStyle, c: Compound<'_>) -> CompoundStyle {
        if c.src@ == ELLIPSIS@ { self.ellipsis } else {
            let s0 = ls.compound_style;
            let s1 = if c.italic { s0.overwritten(&self.italic) } else { s0 };
            let s2 = if c.strikeout { s1.overwritten(&self.strikeout) } else { s1 };
            let s3 = if c.bold { s2.overwritten(&self.bold) } else { s2 };
            if c.code { s3.overwritten(&self.inline_code) } else { s3 }
        }
    }
}
//@fn src/skin.rs MadSkin::line_style
//@ret r
//@spec
    requires kind matches CompositeKind::Header(l) ==> l > 0,
    ensures *r == self.line_style_of(kind),
//@endfn
//@fn src/skin.rs MadSkin::compound_style
//@ret r
//@spec
    ensures r == self.style_of(*line_style, *compound),
//@endfn
}
