//! Generators of texts, styled fragments, skins and markdown sources.
use crate::g::G;
use termimad::crossterm::style::{Attribute, Color};
use termimad::minimad::{Alignment, Compound};
use termimad::*;
use unicode_width::UnicodeWidthChar;

/// No control character, and no pair forming a ligature for which the width of the
/// string isn't the sum of the widths of its characters.
pub const PLAIN: &[char] = &['a', 'b', 'c', 'Z', '0', '.', '(', '-'];
pub const WIDE: &[char] = &['一', '界', '🎉', 'ｗ'];
pub const ZERO: &[char] = &['\u{301}', '\u{200b}', '\u{36f}'];
pub const MULTI: &[char] = &['é', 'ß', '½', 'Ж', '𝒳', '‰'];
pub const BLANK: &[char] = &[' ', ' ', ' ', '\u{a0}', '\u{2003}', '\u{3000}'];

pub fn char(g: &mut G) -> char {
    match g.below(16) {
        0..=5 => *g.pick(PLAIN),
        6..=9 => *g.pick(BLANK),
        10..=11 => *g.pick(WIDE),
        12 => *g.pick(ZERO),
        _ => *g.pick(MULTI),
    }
}
pub fn word_char(g: &mut G) -> char {
    match g.below(8) { 0..=4 => *g.pick(PLAIN), 5 => *g.pick(WIDE), _ => *g.pick(MULTI) }
}
pub fn txt(g: &mut G, max: usize) -> String {
    let n = g.small(max);
    let mode = g.below(6);
    (0..n).map(|_| match mode {
        0 => *g.pick(&['a', 'b', ' ']),
        1 => *g.pick(&['一', 'a']),
        2 => if g.chance(8) { ' ' } else { word_char(g) },
        _ => char(g),
    }).collect()
}
pub fn cw(c: char) -> usize { c.width().unwrap_or(0) }
pub fn sw(s: &str) -> usize { s.chars().map(cw).sum() }
pub fn widest(s: &str) -> usize { s.chars().map(cw).max().unwrap_or(0) }

#[derive(Clone, Debug)]
pub struct Frag { pub s: String, pub flags: usize }
impl Frag {
    pub fn compound(&self) -> Compound<'_> {
        let mut c = Compound::raw_str(&self.s);
        c.bold = self.flags & 1 != 0; c.italic = self.flags & 2 != 0; c.code = self.flags & 4 != 0; c.strikeout = self.flags & 8 != 0;
        c
    }
}
pub fn frags(g: &mut G, max_frags: usize, max_len: usize, allow_empty: bool) -> Vec<Frag> {
    let n = g.small(max_frags);
    let mut v = Vec::new();
    for _ in 0..n {
        let mut s = if g.chance(4) { let n = g.range(1, 3); (0..n).map(|_| *g.pick(BLANK)).collect() } else { txt(g, max_len) };
        if s.is_empty() && !allow_empty { s.push('x'); }
        let flags = if g.bool() { g.below(3) } else { g.below(16) };
        v.push(Frag { s, flags });
    }
    v
}
pub type SC = (char, usize);
pub fn flags_of(c: &Compound) -> usize { c.bold as usize | (c.italic as usize) << 1 | (c.code as usize) << 2 | (c.strikeout as usize) << 3 }
pub fn styled_chars(cs: &[Compound]) -> Vec<SC> {
    cs.iter().flat_map(|c| { let f = flags_of(c); c.src.chars().map(move |ch| (ch, f)) }).collect()
}
pub fn width_of(cs: &[Compound]) -> usize { cs.iter().map(|c| sw(c.src)).sum() }

pub fn align(g: &mut G) -> Alignment {
    *g.pick(&[Alignment::Left, Alignment::Center, Alignment::Right, Alignment::Unspecified])
}
pub fn color(g: &mut G) -> Color {
    match g.below(3) {
        0 => *g.pick(&[Color::Red, Color::DarkRed, Color::Green, Color::DarkGreen, Color::Blue, Color::DarkBlue, Color::Yellow, Color::DarkYellow, Color::Cyan, Color::DarkCyan, Color::Magenta, Color::DarkMagenta, Color::Grey, Color::DarkGrey]),
        1 => Color::AnsiValue(g.below(256) as u8),
        _ => Color::Rgb { r: g.below(256) as u8, g: g.below(256) as u8, b: g.below(256) as u8 },
    }
}
pub const ATTRS: &[Attribute] = &[Attribute::Bold, Attribute::Dim, Attribute::Italic, Attribute::Underlined, Attribute::Reverse, Attribute::CrossedOut, Attribute::Encircled, Attribute::OverLined];
pub fn cstyle(g: &mut G) -> CompoundStyle {
    let mut cs = CompoundStyle::default();
    if g.bool() { cs.set_fg(color(g)); }
    if g.bool() { cs.set_bg(color(g)); }
    while g.chance(3) { cs.add_attr(*g.pick(ATTRS)); }
    cs
}
/// a skin with random margins, alignments and indentation mode. Chars of width 1.
pub fn skin(g: &mut G) -> MadSkin {
    let mut skin = if g.bool() { MadSkin::default() } else { MadSkin::no_style() };
    if g.bool() { skin.list_items_indentation_mode = ListItemsIndentationMode::FirstLineOnly; }
    let margins = g.below(3);
    for ls in [&mut skin.paragraph, &mut skin.code_block].into_iter().chain(skin.headers.iter_mut()) {
        if margins > 0 && g.bool() { ls.left_margin = g.small(12); ls.right_margin = g.small(12); }
        if g.chance(3) { ls.align = align(g); }
    }
    if g.chance(3) { skin.table.align = align(g); }
    if g.chance(4) { skin.limit_to_ascii(); }
    skin
}
pub fn describe_skin(s: &MadSkin) -> String {
    format!("skin: {:?}, margins p({},{}) code({},{}) h1({},{}), aligns p={:?} code={:?} h1={:?} table={:?}",
        s.list_items_indentation_mode, s.paragraph.left_margin, s.paragraph.right_margin,
        s.code_block.left_margin, s.code_block.right_margin, s.headers[0].left_margin, s.headers[0].right_margin,
        s.paragraph.align, s.code_block.align, s.headers[0].align, s.table.align)
}
pub fn kind(g: &mut G) -> CompositeKind {
    match g.below(8) {
        0 => CompositeKind::Header(g.range(1, 8) as u8),
        1 | 2 => { let d = if g.chance(5) { g.below(40) } else { g.below(4) }; CompositeKind::ListItem(d as u8) }
        3 => CompositeKind::ListItemFollowUp(g.below(5) as u8),
        4 => CompositeKind::Quote,
        5 => CompositeKind::Code,
        _ => CompositeKind::Paragraph,
    }
}
/// what's displayed before the content
pub fn prefix(kind: CompositeKind, skin: &MadSkin) -> usize {
    match kind {
        CompositeKind::ListItem(d) => 2 + d as usize,
        CompositeKind::ListItemFollowUp(d) => if skin.list_items_indentation_mode == ListItemsIndentationMode::Block { 2 + d as usize } else { 0 },
        CompositeKind::Quote => 2,
        _ => 0,
    }
}
fn inline_md(g: &mut G, max: usize) -> String {
    let mut s = String::new();
    let n = g.below(4);
    for _ in 0..=n {
        let t = txt(g, max);
        match g.below(8) {
            0 => { s.push_str("**"); s.push_str(&t); s.push_str("**"); }
            1 => { s.push('*'); s.push_str(&t); s.push('*'); }
            2 => { s.push('`'); s.push_str(&t); s.push('`'); }
            3 => { s.push_str("~~"); s.push_str(&t); s.push_str("~~"); }
            _ => s.push_str(&t),
        }
    }
    s
}
pub fn table_md(g: &mut G) -> Vec<String> {
    let ncols = g.range(1, 6);
    let rows = g.range(1, 6);
    let mut v = Vec::new();
    for _ in 0..rows {
        if g.chance(3) {
            let mut s = String::from("|");
            let n = if g.chance(4) { g.range(1, 7) } else { ncols };
            for _ in 0..n { s.push_str(g.pick(&["-", "---", ":-:", "-:", ":-", ":---:", "----:"])); s.push('|'); }
            v.push(s);
        } else {
            let n = if g.chance(4) { g.range(1, 7) } else { ncols };
            let mut s = String::from("|");
            for _ in 0..n {
                let m = if g.chance(4) { 40 } else { 8 };
                let c = inline_md(g, m).replace('|', "");
                if g.chance(10) { s.push_str("* "); }
                s.push_str(&c);
                s.push('|');
            }
            v.push(s);
        }
    }
    v
}
pub fn markdown(g: &mut G, tables: bool) -> String {
    let n = g.range(1, 7);
    let mut lines: Vec<String> = Vec::new();
    for _ in 0..n {
        let m = if g.chance(3) { 40 } else { 10 };
        match g.below(if tables { 12 } else { 10 }) {
            0 => { let h = "#".repeat(g.range(1, 9)); lines.push(format!("{h} {}", inline_md(g, m))); }
            1 => lines.push(format!("* {}", inline_md(g, m))),
            2 => lines.push(format!("{}* {}", " ".repeat(g.below(4)), inline_md(g, m))),
            3 => lines.push(format!("> {}", inline_md(g, m))),
            4 => { for _ in 0..g.range(1, 3) { lines.push(format!("    {}", txt(g, m))); } }
            5 => { lines.push("```".into()); for _ in 0..g.below(4) { lines.push(txt(g, m)); } lines.push("```".into()); }
            6 => lines.push("---".into()),
            10 | 11 => lines.extend(table_md(g)),
            _ => lines.push(inline_md(g, m)),
        }
    }
    lines.join("\n")
}
/// minimad itself isn't the subject: sources it can't parse are skipped
pub fn parses(src: &str) -> bool {
    let s = src.to_string();
    std::panic::catch_unwind(move || { let _ = termimad::minimad::parse_text(&s, termimad::minimad::Options::default()); }).is_ok()
}
