//! C16: style texts, C18: composition of styles
use crate::g::G;
use crate::gen;
use crate::{Check, Kind, R};
use termimad::crossterm::style::{Attribute, Attributes, Color, ContentStyle};
use termimad::minimad::{Alignment, Compound};
use termimad::*;

pub fn checks() -> Vec<Check> {
    vec![
        Check { prop: "C16", name: "tokens", kind: Kind::Exhaustive(tokens), weight: 0 },
        Check { prop: "C16", name: "roundtrip", kind: Kind::Random(roundtrip), weight: 2 },
        Check { prop: "C16", name: "token_sequences", kind: Kind::Random(sequences), weight: 1 },
        Check { prop: "C18", name: "overwrite_all_fields", kind: Kind::Exhaustive(overwrite_fields), weight: 0 },
        Check { prop: "C18", name: "fragments", kind: Kind::Random(fragments), weight: 2 },
        Check { prop: "C18", name: "blend", kind: Kind::Random(blend), weight: 1 },
        Check { prop: "C18", name: "styled_char", kind: Kind::Random(styled_char), weight: 1 },
    ]
}

/// what the terminal shows for a style
pub fn sgr_of(cs: &termimad::CompoundStyle) -> crate::vt::Sgr {
    use termimad::crossterm::style::Colored;
    let col = |c: Color| -> Option<String> { Some(Colored::ForegroundColor(c).to_string().splitn(2, ';').nth(1).unwrap_or("").to_string()) };
    let mut s = crate::vt::Sgr::default();
    s.fg = cs.object_style.foreground_color.and_then(col);
    s.bg = cs.object_style.background_color.and_then(col);
    for a in Attribute::iterator() { if cs.object_style.attributes.has(a) { s.attrs.insert(a.sgr()); } }
    s
}

const NAMED: &[Color] = &[Color::Red, Color::DarkRed, Color::Green, Color::DarkGreen, Color::Blue, Color::DarkBlue, Color::Yellow, Color::DarkYellow,
    Color::Cyan, Color::DarkCyan, Color::Magenta, Color::DarkMagenta, Color::Grey, Color::DarkGrey];
/// the attributes the syntax supports
const PARSED: &[Attribute] = &[Attribute::Bold, Attribute::Dim, Attribute::Italic, Attribute::Underlined, Attribute::Reverse, Attribute::CrossedOut, Attribute::Encircled, Attribute::OverLined, Attribute::SlowBlink, Attribute::RapidBlink];

fn tok_roundtrip(t: StyleToken) -> Result<(), String> {
    let s = t.to_string();
    match parse_style_token(&s) { Ok(u) if u == t => {} r => return Err(format!("token {t:?} is written {s:?} then read as {r:?}")) }
    for v in [s.to_uppercase(), s.to_lowercase()] {
        if matches!(t, StyleToken::Char(_)) { break; }
        match parse_style_token(&v) { Ok(u) if u == t => {} r => return Err(format!("{v:?} is read as {r:?} instead of {t:?}")) }
    }
    match parse_style_tokens(&s) { Ok(v) if v == vec![t] => {} r => return Err(format!("token {t:?} is written {s:?} then read as {r:?}")) }
    let s = style_tokens_to_string(&[t]);
    match parse_style_tokens(&s) { Ok(v) if v == vec![t] => {} r => return Err(format!("token {t:?} is written {s:?} then read as {r:?}")) }
    Ok(())
}
fn tokens(thorough: bool) -> Result<u64, String> {
    let mut n = 0;
    let mut all: Vec<StyleToken> = Vec::new();
    all.extend(NAMED.iter().map(|c| StyleToken::Color(*c)));
    all.extend((0..=255).map(|c| StyleToken::Color(Color::AnsiValue(c))));
    let step = if thorough { 5 } else { 17 };
    for r in (0..=255u8).step_by(step) { for g in (0..=255u8).step_by(step) { for b in (0..=255u8).step_by(step) {
        all.push(StyleToken::Color(Color::Rgb { r, g, b }));
        for s in [format!("#{r:02x}{g:02x}{b:02x}"), format!("rgb({r},{g},{b})"), format!("RGB({r}, {g},  {b})")] {
            if parse_color(&s).ok() != Some(Color::Rgb { r, g, b }) { return Err(format!("{s:?} is read as {:?}", parse_color(&s))); }
        }
        n += 1;
    } } }
    all.extend(PARSED.iter().map(|a| StyleToken::Attribute(*a)));
    all.extend([Alignment::Left, Alignment::Center, Alignment::Right].map(StyleToken::Align));
    all.push(StyleToken::None);
    all.extend((0..=65535).map(StyleToken::Dimension));
    for c in '\u{21}'..'\u{3000}' { if !c.is_whitespace() && !c.is_ascii_digit() && c != '(' && c != ')' { all.push(StyleToken::Char(c)); } }
    for t in all { tok_roundtrip(t)?; n += 1; }
    for level in 0..24u8 {
        for s in [format!("gray({level})"), format!("grey({level})"), format!("Greyscale({level})")] {
            if parse_color(&s).ok() != Some(gray(level)) { return Err(format!("{s:?} is read as {:?}", parse_color(&s))); }
            n += 1;
        }
    }
    // words which are no tokens, though they contain one
    for w in ["redish", "darkblueish", "xred", "xbold", "bolder", "leftmost", "nonexistent", "nonesuch", "dimmed", "70000", "rgb(1,2)", "rgb(256,0,0)", "ansi(256)", "#12", "#gggggg"] {
        if let Ok(t) = parse_style_token(w) { return Err(format!("{w:?} is read as {t:?}")); }
        n += 1;
    }
    // every pair of colors as foreground and background
    let few: Vec<Option<Color>> = NAMED.iter().map(|c| Some(*c)).chain([None, Some(Color::AnsiValue(3)), Some(Color::Rgb { r: 1, g: 2, b: 3 })]).collect();
    for f in &few { for b in &few { for a in gen::ATTRS {
        let mut at = Attributes::default();
        at.set(*a);
        n += 1;
        compound(&CompoundStyle::new(*f, *b, at))?;
    } } }
    Ok(n)
}
fn compound(cs: &CompoundStyle) -> Result<(), String> {
    let s = cs.to_style_tokens_string();
    match parse_compound_style(&s) {
        Ok(r) if &r == cs => {}
        r => return Err(format!("{cs:?} is written {s:?}, then read as {r:?}")),
    }
    let mut tokens = Vec::new();
    cs.push_style_tokens(&mut tokens);
    let mut w = Vec::new();
    write_style_tokens(&mut w, &tokens).map_err(|e| e.to_string())?;
    for s in [String::from_utf8(w).unwrap(), style_tokens_to_string(&tokens)] {
        match parse_style_tokens(&s) { Ok(r) if r == tokens => {} r => return Err(format!("tokens {tokens:?} are written {s:?}, then read as {r:?}")) }
    }
    Ok(())
}
pub fn style_char(g: &mut G) -> char {
    loop {
        let c = match g.below(4) { 0 => *g.pick(&['a', 'b', '#', '-', '|', 'n', 'r', '"', '\'', ',', '•', '─']), 1 => (0x21 + g.below(0x5e) as u8) as char, _ => char::from_u32(g.below(0x11000) as u32).unwrap_or('x') };
        if !c.is_whitespace() && !c.is_ascii_digit() && c != '(' && c != ')' && !c.is_control() { return c; }
    }
}
pub fn margin(g: &mut G) -> usize { match g.below(4) { 0 => 0, 1 => g.below(65536), 2 => 65535, _ => g.small(20) } }
fn roundtrip(g: &mut G) -> R {
    let cs = gen::cstyle(g);
    compound(&cs)?;
    let ls = LineStyle { compound_style: gen::cstyle(g), align: gen::align(g), left_margin: margin(g), right_margin: margin(g) };
    let s = ls.to_style_tokens_string();
    g.note(|| format!("line style {s:?}"));
    match parse_line_style(&s) { Ok(r) if r == ls => {} r => return Err(format!("{ls:?} is written {s:?}, then read as {r:?}")) }
    let sc = StyledChar::new(gen::cstyle(g), style_char(g));
    let s = sc.to_style_tokens_string();
    match parse_styled_char(&s, '?') { Ok(r) if r == sc => {} r => return Err(format!("{sc:?} is written {s:?}, then read as {r:?}")) }
    Ok(true)
}
fn token(g: &mut G) -> StyleToken {
    match g.below(8) {
        0 | 1 => StyleToken::Color(gen::color(g)),
        2 => StyleToken::None,
        3 => StyleToken::Attribute(*g.pick(PARSED)),
        4 => StyleToken::Align(*g.pick(&[Alignment::Left, Alignment::Center, Alignment::Right])),
        5 | 6 => StyleToken::Dimension(margin(g) as u16),
        _ => StyleToken::Char(style_char(g)),
    }
}
fn sequences(g: &mut G) -> R {
    // at most one background color: more isn't specified
    let mut toks = Vec::new();
    let (mut fg_slot, mut bgs, mut dims) = (false, 0, 0);
    for _ in 0..g.below(10) {
        let t = token(g);
        match t { StyleToken::None => fg_slot = true, StyleToken::Color(_) => { if fg_slot { bgs += 1; if bgs > 1 { continue; } } fg_slot = true; } StyleToken::Dimension(_) => { dims += 1; if dims > 2 { continue; } } _ => {} }
        toks.push(t);
    }
    let mut s = String::new();
    for t in &toks { for _ in 0..g.range(1, 2) { s.push(*g.pick(&[' ', '\t', ' '])); } s.push_str(&t.to_string()); }
    g.note(|| format!("{s:?}"));
    match parse_style_tokens(&s) { Ok(r) if r == toks => {} r => return Err(format!("{s:?}, made from {toks:?}, is read as {r:?}")) }
    let (mut fg, mut bg, mut fg_done) = (None, None, false);
    let mut attrs = Attributes::default();
    let mut margins = Vec::new();
    let mut al = Alignment::Unspecified;
    let mut ch = '?';
    for t in toks.iter().rev() { if let StyleToken::Char(c) = t { ch = *c; } }
    for t in &toks {
        match t {
            StyleToken::Color(c) => { if fg_done { bg = Some(*c); } else { fg = Some(*c); fg_done = true; } }
            StyleToken::None => fg_done = true,
            StyleToken::Attribute(a) => attrs.set(*a),
            StyleToken::Align(a) => al = *a,
            StyleToken::Dimension(d) => margins.push(*d as usize),
            _ => {}
        }
    }
    let cs = CompoundStyle::new(fg, bg, attrs);
    let r = parse_compound_style(&s).map_err(|e| e.to_string())?;
    if r != cs { return Err(format!("{s:?} is read as {r:?} instead of {cs:?}")); }
    let ls = LineStyle { compound_style: cs.clone(), align: al, left_margin: margins.first().copied().unwrap_or(0), right_margin: margins.get(1).copied().unwrap_or(0) };
    let r = parse_line_style(&s).map_err(|e| e.to_string())?;
    if r != ls { return Err(format!("{s:?} is read as {r:?} instead of {ls:?}")); }
    let r = parse_styled_char(&s, '?').map_err(|e| e.to_string())?;
    if r != StyledChar::new(cs, ch) { return Err(format!("{s:?} is read as {r:?}")); }
    Ok(toks.len() > 2)
}

fn overwritten(a: &CompoundStyle, b: &CompoundStyle) -> CompoundStyle {
    let mut at = a.attrs();
    for x in Attribute::iterator() { if b.has_attr(x) { at.set(x); } }
    CompoundStyle { object_style: ContentStyle {
        foreground_color: b.get_fg().or(a.get_fg()), background_color: b.get_bg().or(a.get_bg()), underline_color: a.object_style.underline_color, attributes: at } }
}
fn overwrite_fields(_: bool) -> Result<u64, String> {
    let mut n = 0;
    let opts = [None, Some(Color::Red), Some(Color::AnsiValue(5))];
    let mut attrs = vec![Attributes::default()];
    for a in Attribute::iterator() { if a != Attribute::Reset { let mut x = Attributes::default(); x.set(a); attrs.push(x); } }
    for fa in opts { for ba in opts { for fb in opts { for bb in opts { for aa in &attrs { for ab in &attrs {
        let a = CompoundStyle::new(fa, ba, *aa); let b = CompoundStyle::new(fb, bb, *ab);
        let mut c = a.clone();
        c.overwrite_with(&b);
        let e = overwritten(&a, &b);
        if c != e { return Err(format!("{a:?} overwritten with {b:?} is {c:?}")); }
        n += 1;
    } } } } } }
    Ok(n)
}
fn fragments(g: &mut G) -> R {
    let mut skin = gen::skin(g);
    for s in [&mut skin.italic, &mut skin.strikeout, &mut skin.bold, &mut skin.inline_code, &mut skin.ellipsis] { if g.below(4) > 0 { *s = gen::cstyle(g); } }
    let mut ls = LineStyle::default();
    ls.compound_style = gen::cstyle(g);
    let s = if g.chance(5) { "…".to_string() } else { gen::txt(g, 5) };
    let f = g.below(16);
    let mut c = Compound::raw_str(&s);
    c.bold = f & 1 != 0; c.italic = f & 2 != 0; c.code = f & 4 != 0; c.strikeout = f & 8 != 0;
    g.note(|| format!("fragment {c:?}"));
    let mut e = ls.compound_style.clone();
    if s == "…" { e = skin.ellipsis.clone(); } else {
        if c.italic { e = overwritten(&e, &skin.italic); }
        if c.strikeout { e = overwritten(&e, &skin.strikeout); }
        if c.bold { e = overwritten(&e, &skin.bold); }
        if c.code { e = overwritten(&e, &skin.inline_code); }
    }
    let r = skin.compound_style(&ls, &c);
    if r != e { return Err(format!("the style of {c:?} is {r:?} instead of {e:?}")); }
    // as displayed
    if s != "…" && !s.is_empty() && s.chars().all(|c| gen::cw(c) == 1) {
        skin.paragraph = ls.clone();
        let e2 = e;
        let fc = FmtComposite { kind: CompositeKind::Paragraph, compounds: vec![c], visible_length: gen::sw(&s), spacing: None };
        let out = FmtInline { skin: &skin, composite: fc }.to_string();
        let vt = crate::vt::Vt::run(out.as_bytes());
        for (i, ch) in s.chars().enumerate() {
            let cell = vt.cells.get(&(0, i)).ok_or("nothing displayed")?;
            if cell.c != ch || cell.sgr != sgr_of(&e2) { return Err(format!("{ch:?} is displayed as {cell:?} instead of style {:?}", sgr_of(&e2))); }
        }
    }
    Ok(f != 0)
}
fn blend(g: &mut G) -> R {
    let a = gen::cstyle(g);
    let dest = gen::color(g);
    let weight = match g.below(4) { 0 => 0.0, 1 => 1.0, _ => g.below(1001) as f32 / 1000.0 };
    g.note(|| format!("{a:?} with {dest:?} {weight}"));
    let mut b = a.clone();
    b.blend_with(dest, weight);
    if b.attrs() != a.attrs() || b.object_style.underline_color != a.object_style.underline_color { return Err("the attributes changed".into()); }
    let alone = |c: Option<Color>| c.map(|c| { let mut s = CompoundStyle::with_fg(c); s.blend_with(dest, weight); s.get_fg().unwrap() });
    if b.get_fg().is_some() != a.get_fg().is_some() || b.get_bg().is_some() != a.get_bg().is_some() { return Err(format!("{a:?} blends to {b:?}")); }
    if b.get_fg() != alone(a.get_fg()) { return Err(format!("the foreground of {a:?} blends to {:?}, depending on the background", b.get_fg())); }
    if b.get_bg() != alone(a.get_bg()) { return Err(format!("the background of {a:?} blends to {:?} instead of {:?}", b.get_bg(), alone(a.get_bg()))); }
    let mut ls = LineStyle::new(a.clone(), Alignment::Left);
    ls.blend_with(dest, weight);
    if ls.compound_style != b { return Err("a line style doesn't blend as its compound style".into()); }
    Ok(a.get_fg().is_some() && a.get_bg().is_some())
}
fn styled_char(g: &mut G) -> R {
    let mut style = gen::cstyle(g);
    let mut ch = style_char(g);
    let mut sc = match g.below(3) {
        0 => StyledChar::new(style.clone(), ch),
        1 => { style = CompoundStyle::default(); StyledChar::nude(ch) }
        _ => { let c = gen::color(g); style = CompoundStyle::with_fg(c); StyledChar::from_fg_char(c, ch) }
    };
    let n = g.below(6);
    for i in 0..=n {
        if i > 0 {
            match g.below(5) {
                0 => { ch = style_char(g); sc.set_char(ch); g.note(|| format!("set_char {ch:?}")); }
                1 => { let c = gen::color(g); sc.set_fg(c); style.set_fg(c); g.note(|| format!("set_fg {c:?}")); }
                2 => { let c = gen::color(g); sc.set_bg(c); style.set_bg(c); g.note(|| format!("set_bg {c:?}")); }
                3 => { style = gen::cstyle(g); sc.set_compound_style(style.clone()); g.note(|| format!("set_compound_style {style:?}")); }
                _ => { let c = gen::color(g); sc.blend_with(c, 0.5); style.blend_with(c, 0.5); g.note(|| format!("blend_with {c:?}")); }
            }
        }
        if sc.get_char() != ch || sc.nude_char() != ch || sc.get_fg() != style.get_fg() || sc.get_bg() != style.get_bg() || sc.compound_style() != &style { return Err(format!("{sc:?} isn't {ch:?} with {style:?}")); }
        let mut out: Vec<(String, usize)> = vec![(sc.to_string(), 1)];
        let mut b = Vec::new();
        sc.queue(&mut b).map_err(|e| e.to_string())?;
        out.push((String::from_utf8(b).unwrap(), 1));
        let k = g.below(4);
        out.push((sc.repeated(k).to_string(), k));
        let mut b = Vec::new();
        sc.queue_repeat(&mut b, k).map_err(|e| e.to_string())?;
        out.push((String::from_utf8(b).unwrap(), k));
        for (o, k) in out {
            let vt = crate::vt::Vt::run(o.as_bytes());
            let chars: String = vt.writes.iter().map(|w| w.2).collect();
            if chars != ch.to_string().repeat(k) { return Err(format!("prints {chars:?} instead of {k} {ch:?}")); }
            if gen::cw(ch) == 1 && k > 0 { let cell = &vt.cells[&(0, 0)]; if cell.sgr != sgr_of(&style) { return Err(format!("{ch:?} printed with {:?} instead of {:?}", cell.sgr, sgr_of(&style))); } }
        }
    }
    Ok(n > 1)
}
