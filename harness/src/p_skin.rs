//! C22: skins serialized and deserialized
use crate::g::G;
use crate::gen;
use crate::p_style::{margin, style_char};
use crate::{Check, Kind, R};
use termimad::crossterm::style::{Attribute, Color};
use termimad::minimad::Alignment;
use termimad::*;

pub fn checks() -> Vec<Check> {
    vec![
        Check { prop: "C22", name: "skin_roundtrip", kind: Kind::Random(roundtrip), weight: 2 },
        Check { prop: "C22", name: "skin_entries", kind: Kind::Random(entries), weight: 2 },
        Check { prop: "C22", name: "scrollbar_roundtrip", kind: Kind::Random(scrollbar), weight: 1 },
    ]
}
fn line(g: &mut G) -> LineStyle {
    let (l, r) = if g.bool() { (margin(g), margin(g)) } else { (0, 0) };
    LineStyle { compound_style: gen::cstyle(g), align: gen::align(g), left_margin: l, right_margin: r }
}
fn schar(g: &mut G) -> StyledChar { StyledChar::new(gen::cstyle(g), style_char(g)) }
fn bar(g: &mut G) -> ScrollBarStyle {
    let mut b = match g.below(4) {
        0 => ScrollBarStyle { track: schar(g), thumb: schar(g) },
        1 => { let c = style_char(g); ScrollBarStyle { track: StyledChar::new(gen::cstyle(g), c), thumb: StyledChar::new(gen::cstyle(g), c) } }
        2 => { let c = style_char(g); ScrollBarStyle { track: StyledChar::from_fg_char(gen::color(g), c), thumb: StyledChar::from_fg_char(gen::color(g), c) } }
        _ => ScrollBarStyle::new(),
    };
    if g.chance(4) { b.thumb.set_char(style_char(g)); }
    if g.chance(4) { b.track.set_fg(gen::color(g)); }
    b
}
const BORDERS: [&str; 3] = ["standard", "ascii", "rounded"];
fn borders(key: &str) -> &'static TableBorderChars {
    match key { "ascii" => ASCII_TABLE_BORDER_CHARS, "rounded" => ROUNDED_TABLE_BORDER_CHARS, _ => STANDARD_TABLE_BORDER_CHARS }
}
fn skin(g: &mut G) -> MadSkin {
    let mut s = MadSkin::default();
    for c in [&mut s.bold, &mut s.italic, &mut s.strikeout, &mut s.inline_code, &mut s.ellipsis] { if g.bool() { *c = gen::cstyle(g); } }
    for c in [&mut s.paragraph, &mut s.code_block, &mut s.table].into_iter().chain(s.headers.iter_mut()) { if g.bool() { *c = line(g); } }
    for c in [&mut s.bullet, &mut s.quote_mark, &mut s.horizontal_rule] { if g.bool() { *c = schar(g); } }
    if g.bool() { s.scrollbar = bar(g); }
    s.table_border_chars = borders(BORDERS[g.below(3)]);
    s
}
/// the parts of a skin which are serialized
fn parts(s: &MadSkin) -> Vec<(&'static str, String)> {
    fn d<T: std::fmt::Debug>(t: &T) -> String { format!("{t:?}") }
    // a styled char is what it draws
    fn c(t: &StyledChar) -> String { format!("{:?} {:?} {}", t.nude_char(), t.compound_style(), t) }
    let mut v = vec![
        ("bold", d(&s.bold)), ("italic", d(&s.italic)), ("strikeout", d(&s.strikeout)), ("inline_code", d(&s.inline_code)), ("ellipsis", d(&s.ellipsis)),
        ("paragraph", d(&s.paragraph)), ("code_block", d(&s.code_block)), ("table", d(&s.table)),
        ("bullet", c(&s.bullet)), ("quote_mark", c(&s.quote_mark)), ("horizontal_rule", c(&s.horizontal_rule)),
        ("scrollbar track", c(&s.scrollbar.track)), ("scrollbar thumb", c(&s.scrollbar.thumb)),
        ("table_border_chars", d(s.table_border_chars)),
    ];
    for h in &s.headers { v.push(("headers", d(h))); }
    v
}
fn same(got: &MadSkin, want: &MadSkin) -> Result<(), String> {
    for (a, b) in parts(got).iter().zip(parts(want)) {
        if *a != b { return Err(format!("{} is {} instead of {}", b.0, a.1, b.1)); }
    }
    if got.list_items_indentation_mode != want.list_items_indentation_mode { return Err("the list indentation changed".to_string()); }
    Ok(())
}
fn roundtrip(g: &mut G) -> R {
    let s = skin(g);
    let t = serde_json::to_string(&s).map_err(|e| format!("{e} when serializing {s:?}"))?;
    g.note(|| format!("skin {t}"));
    let r: MadSkin = serde_json::from_str(&t).map_err(|e| format!("{t} isn't read: {e}"))?;
    same(&r, &s).map_err(|e| format!("skin written {t}: {e}"))?;
    // its order doesn't matter
    let v: serde_json::Value = serde_json::from_str(&t).map_err(|e| e.to_string())?;
    let r: MadSkin = serde_json::from_value(v).map_err(|e| format!("{t} isn't read as a value: {e}"))?;
    same(&r, &s).map_err(|e| format!("skin written {t} read in another order: {e}"))?;
    Ok(true)
}
fn json<T: serde_json_ser::Ser>(t: &T) -> String { t.ser() }
mod serde_json_ser {
    pub trait Ser { fn ser(&self) -> String; }
    macro_rules! ser { ($($t:ty)*) => { $(impl Ser for $t { fn ser(&self) -> String { serde_json::to_string(&self.to_style_tokens_string()).unwrap() } })* } }
    use termimad::PushStyleTokens;
    ser!(termimad::CompoundStyle termimad::LineStyle termimad::StyledChar);
}
fn entries(g: &mut G) -> R {
    let mut want = MadSkin::default();
    let mut items: Vec<String> = vec![];
    for _ in 0..g.below(8) {
        let (k, v) = match g.below(15) {
            0 => { want.bold = gen::cstyle(g); ("bold", json(&want.bold)) }
            1 => { want.italic = gen::cstyle(g); ("italic", json(&want.italic)) }
            2 => { want.strikeout = gen::cstyle(g); ("strikeout", json(&want.strikeout)) }
            3 => { want.inline_code = gen::cstyle(g); (*g.pick(&["inline_code", "inline-code"]), json(&want.inline_code)) }
            4 => { want.ellipsis = gen::cstyle(g); ("ellipsis", json(&want.ellipsis)) }
            5 => { want.paragraph = line(g); ("paragraph", json(&want.paragraph)) }
            6 => { want.code_block = line(g); (*g.pick(&["code_block", "code-block"]), json(&want.code_block)) }
            7 => { want.table = line(g); ("table", json(&want.table)) }
            8 => { want.bullet = schar(g); ("bullet", json(&want.bullet)) }
            9 => { want.quote_mark = schar(g); (*g.pick(&["quote_mark", "quote-mark", "quote"]), json(&want.quote_mark)) }
            10 => { want.horizontal_rule = schar(g); (*g.pick(&["horizontal_rule", "horizontal-rule", "rule"]), json(&want.horizontal_rule)) }
            11 => {
                if g.bool() {
                    want.scrollbar = bar(g);
                    ("scrollbar", format!("{{\"thumb\":{},\"track\":{}}}", json(&want.scrollbar.thumb), json(&want.scrollbar.track)))
                } else {
                    // one char: its foreground is the thumb's one, its background the track's one
                    let (f, b, c) = (gen::color(g), gen::color(g), style_char(g));
                    want.scrollbar = ScrollBarStyle { track: StyledChar::from_fg_char(b, c), thumb: StyledChar::from_fg_char(f, c) };
                    ("scrollbar", json(&StyledChar::new(CompoundStyle::with_fgbg(f, b), c)))
                }
            }
            12 => { let k = *g.pick(&BORDERS); want.table_border_chars = borders(k); (*g.pick(&["table_border_chars", "table-border-chars"]), format!("\"{k}\"")) }
            13 => {
                let n = g.below(10);
                let hs: Vec<LineStyle> = (0..n).map(|_| line(g)).collect();
                for (i, h) in hs.iter().enumerate() { if i < want.headers.len() { want.headers[i] = h.clone(); } }
                ("headers", format!("[{}]", hs.iter().map(json).collect::<Vec<_>>().join(",")))
            }
            _ => {
                let mut ls = LineStyle { compound_style: gen::cstyle(g), align: gen::align(g), left_margin: 0, right_margin: 0 };
                if ls.align == Alignment::Unspecified && g.bool() { ls.align = Alignment::Right; }
                // a written style without any alignment has none
                let t = json(&ls);
                for h in want.headers.iter_mut() {
                    if let Some(c) = fg(&ls) { h.compound_style.object_style.foreground_color = Some(c); }
                    if let Some(c) = ls.compound_style.object_style.background_color { h.compound_style.object_style.background_color = Some(c); }
                    for a in Attribute::iterator() { if ls.compound_style.object_style.attributes.has(a) { h.compound_style.object_style.attributes.set(a); } }
                    if ls.align != Alignment::Unspecified { h.align = ls.align; }
                }
                ("headers", t)
            }
        };
        items.push(format!("\"{k}\":{v}"));
    }
    let t = format!("{{{}}}", items.join(","));
    g.note(|| t.clone());
    let r: MadSkin = serde_json::from_str(&t).map_err(|e| format!("{t} isn't read: {e}"))?;
    same(&r, &want).map_err(|e| format!("{t}: {e}"))?;
    Ok(items.len() > 1)
}
fn fg(ls: &LineStyle) -> Option<Color> { ls.compound_style.object_style.foreground_color }
fn scrollbar(g: &mut G) -> R {
    let mut s = MadSkin::default();
    s.scrollbar = bar(g);
    g.note(|| format!("{:?}", s.scrollbar));
    let t = serde_json::to_string(&s).map_err(|e| e.to_string())?;
    let r: MadSkin = serde_json::from_str(&t).map_err(|e| format!("{t} isn't read: {e}"))?;
    same(&r, &s)?;
    Ok(true)
}
