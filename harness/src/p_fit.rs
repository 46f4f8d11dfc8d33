//! C06: fitting with ellipsis, C07: cropping
use crate::{g::G, gen::*, p_wrap::{composite, show}, vt::Vt, Check, Kind, R};
use termimad::minimad::{Alignment, Compound};
use termimad::*;

pub fn checks() -> Vec<Check> {
    vec![
        Check { prop: "C06", name: "fit", kind: Kind::Random(c06), weight: 1 },
        Check { prop: "C07", name: "str_fit", kind: Kind::Random(str_fit), weight: 1 },
        Check { prop: "C07", name: "crop_writer", kind: Kind::Random(crop), weight: 1 },
        Check { prop: "C07", name: "filling", kind: Kind::Random(filling), weight: 1 },
        Check { prop: "C07", name: "filling_counts", kind: Kind::Exhaustive(filling_counts), weight: 1 },
    ]
}

/// segments of the source, in order, separated by ellipsis standing for a removed run
fn segments_in_order(src: &[SC], out: &[SC]) -> Result<(), String> {
    let mut pos = 0;
    let segs: Vec<Vec<SC>> = out.split(|c| c.0 == '…').map(|s| s.to_vec()).collect();
    let n = segs.len();
    for (i, s) in segs.iter().enumerate() {
        let found = if i == 0 { if src.starts_with(s) { Some(0) } else { None } }
            else if i + 1 == n { if src.len() >= pos + s.len() && src.ends_with(s) { Some(src.len() - s.len()) } else { None } }
            else { (pos..=src.len().saturating_sub(s.len())).find(|p| src[*p..].starts_with(s)) };
        match found { Some(p) => pos = p + s.len(), None => return Err(format!("the part {:?} isn't found in the source in its order", show(s))) }
    }
    if n == 1 && pos != src.len() { return Err("cut without ellipsis".into()); }
    Ok(())
}
fn c06(g: &mut G) -> R {
    let fs = frags(g, 6, 20, true);
    let skin = MadSkin::default();
    let kind = *g.pick(&[CompositeKind::Paragraph, CompositeKind::Header(2), CompositeKind::Code]);
    let fc0 = composite(&fs, kind, &skin);
    let max = if g.chance(8) { g.small(130) } else { g.below(fc0.visible_length + 2) };
    let al = align(g);
    let default_fitter = g.chance(4);
    g.note(|| format!("fragments {fs:?} kind {kind:?} max width {max} {}", if default_fitter { "default fitter".into() } else { format!("{al:?}") }));
    let mut fc = fc0.clone();
    if default_fitter { Fitter::default().fit(&mut fc, max, &skin); } else { fc.fit_width(max, al, &skin); }
    let al = if default_fitter { Alignment::Unspecified } else { al };
    if fc.kind != kind { return Err("kind changed".into()); }
    let src = styled_chars(&fc0.compounds);
    let out = styled_chars(&fc.compounds);
    let real = width_of(&fc.compounds);
    if real != fc.visible_length { return Err(format!("cached length {} but the real length is {real}", fc.visible_length)); }
    if fc0.visible_length <= max {
        return if fc.compounds == fc0.compounds { Ok(false) } else { Err(format!("changed to {:?} while it fits", show(&out))) };
    }
    if real > max { return Err(format!("{:?} is {real} columns wide for a maximum of {max}", show(&out))); }
    let nb = |v: &[SC]| v.iter().filter(|c| c.0 == '…').count();
    if max == 0 { return if out.is_empty() { Ok(true) } else { Err("not empty for a width of 0".into()) }; }
    if nb(&out) == 0 { return Err(format!("{:?}: removed without any ellipsis", show(&out))); }
    if out.iter().any(|c| c.0 == '…' && c.1 != 0) { return Err("styled ellipsis".into()); }
    segments_in_order(&src, &out)?;
    if max == 1 { return if out == [('…', 0)] { Ok(true) } else { Err("not one ellipsis for a width of 1".into()) }; }
    match al {
        Alignment::Left => if nb(&out) != 1 || out.last().unwrap().0 != '…' { return Err(format!("aligned left but cut to {:?}", show(&out))); },
        Alignment::Right => if nb(&out) != 1 || out[0].0 != '…' { return Err(format!("aligned right but cut to {:?}", show(&out))); },
        Alignment::Center => {
            let l = (out[0].0 == '…') as usize; let r = (out.last().unwrap().0 == '…') as usize;
            if nb(&out) != (if out.len() == 1 { 1 } else { l + r }) { return Err(format!("centered but cut to {:?}", show(&out))); }
        }
        _ => {}
    }
    Ok(true)
}

fn text_with_tabs(g: &mut G, max: usize) -> String {
    let n = g.small(max);
    (0..n).map(|_| if g.chance(7) { '\t' } else { char(g) }).collect()
}
fn tw(c: char) -> usize { if c == '\t' { 2 } else { cw(c) } }
/// reference: (bytes, columns)
fn ref_fit(s: &str, max: usize) -> (usize, usize) {
    let mut b = 0; let mut w = 0;
    for c in s.chars() { if w + tw(c) > max { break; } w += tw(c); b += c.len_utf8(); }
    (b, w)
}
fn str_fit(g: &mut G) -> R {
    let s = text_with_tabs(g, 60);
    let max = g.small(90);
    g.note(|| format!("string {s:?} columns {max}"));
    let (b, w) = ref_fit(&s, max);
    let got = StrFit::count_fitting(&s, max);
    if got != (b, w) { return Err(format!("count_fitting gives {got:?} instead of {:?}", (b, w))); }
    let exp: String = s[..b].replace('\t', "  ");
    let (st, sw_) = StrFit::make_string(&s, max);
    if st != exp || sw_ != w { return Err(format!("make_string gives {:?} instead of {:?}", (st, sw_), (exp, w))); }
    let (st, sw_) = StrFit::make_cow(&s, max);
    if st != exp.as_str() || sw_ != w { return Err(format!("make_cow gives {:?} instead of {:?}", (st, sw_), (exp, w))); }
    if sw(&exp) != w { return Err(format!("{exp:?} is {} wide, not {w}", sw(&exp))); }
    Ok(b > 0 && b < s.len())
}
fn fillings(i: usize) -> (&'static Filling, char) {
    use std::sync::OnceLock;
    static F: OnceLock<Vec<(Filling, char)>> = OnceLock::new();
    let v = F.get_or_init(|| ['.', '─', 'é', ' ', '½'].into_iter().map(|c| (Filling::from_char(c), c)).collect());
    (&v[i].0, v[i].1)
}
fn crop(g: &mut G) -> R {
    let limit = if g.chance(8) { g.range(990, 2200) } else { g.small(60) };
    let cs = if g.bool() { cstyle(g) } else { CompoundStyle::default() };
    let n = g.range(1, 7);
    g.note(|| format!("limit {limit}"));
    let mut out: Vec<u8> = Vec::new();
    let mut allowed = limit;
    let mut nt = false;
    for _ in 0..n {
        let before = out.len();
        let a0 = allowed;
        let op = g.below(11);
        let s = text_with_tabs(g, 20);
        let gs: String = s.chars().map(|c| if tw(c) != 1 || c == '\t' { 'x' } else { c }).collect();
        let c = if g.chance(6) { '\t' } else { char(g) };
        let fi = g.below(5);
        let len = if g.chance(8) { g.range(900, 2100) } else { g.small(70) };
        let res = {
            let mut w = CropWriter::new(&mut out, limit);
            w.allowed = allowed;
            let (filling, fc) = fillings(fi);
            let r = match op {
                0 => { g.note(|| format!("queue_unstyled_str {s:?}")); w.queue_unstyled_str(&s).map(|_| (true, s[..ref_fit(&s, a0).0].replace('\t', "  "))) }
                1 => { g.note(|| format!("queue_str {s:?}")); w.queue_str(&cs, &s).map(|_| (true, s[..ref_fit(&s, a0).0].replace('\t', "  "))) }
                2 => { g.note(|| format!("queue_char {c:?}")); w.queue_char(&cs, c).map(|_| (false, if c == '\t' { "  ".to_string() } else { c.to_string() })) }
                3 => { g.note(|| format!("queue_unstyled_char {c:?}")); w.queue_unstyled_char(c).map(|_| (false, if c == '\t' { "  ".to_string() } else { c.to_string() })) }
                4 => { g.note(|| format!("queue_unstyled_g_string {gs:?}")); w.queue_unstyled_g_string(gs.clone()).map(|_| (true, gs.chars().take(a0).collect())) }
                5 => { g.note(|| format!("queue_g_string {gs:?}")); w.queue_g_string(&cs, gs.clone()).map(|_| (true, gs.chars().take(a0).collect())) }
                6 => { g.note(|| format!("fill {fc:?}")); w.fill(&cs, filling).map(|_| (true, std::iter::repeat(fc).take(a0).collect())) }
                7 => { g.note(|| format!("fill_unstyled {fc:?}")); w.fill_unstyled(filling).map(|_| (true, std::iter::repeat(fc).take(a0).collect())) }
                8 => { g.note(|| "fill_with_space".into()); w.fill_with_space(&cs).map(|_| (true, " ".repeat(a0))) }
                9 => { g.note(|| format!("repeat {fc:?} {len}")); w.repeat(&cs, filling, len).map(|_| (true, std::iter::repeat(fc).take(len.min(a0)).collect())) }
                _ => { g.note(|| format!("repeat_unstyled {fc:?} {len}")); w.repeat_unstyled(filling, len).map(|_| (true, std::iter::repeat(fc).take(len.min(a0)).collect::<String>())) }
            };
            allowed = w.allowed;
            r
        };
        let (exact, exp) = res.map_err(|e| format!("write error {e}"))?;
        let vt = Vt::run(&out[before..]);
        if let Some(e) = vt.errors.first() { return Err(e.clone()); }
        let got: String = vt.writes.iter().map(|w| w.2).collect();
        let w = sw(&got);
        if w > a0 { return Err(format!("{w} columns written while {a0} were allowed: {got:?}")); }
        if allowed + w != a0 { return Err(format!("allowance went from {a0} to {allowed} while {w} columns were written")); }
        let exp = if a0 == 0 && op < 6 { String::new() } else { exp };
        if exact && got != exp && !(a0 == 0 && w == 0) { return Err(format!("{got:?} written instead of {exp:?}")); }
        if !exact && !got.is_empty() && got != exp && op < 4 && c != '\t' { return Err(format!("{got:?} written instead of {exp:?}")); }
        // a char which leaves room is written
        if !exact && c != '\t' && tw(c) < a0 && got != exp { return Err(format!("{got:?} written instead of {exp:?} with {a0} columns left")); }
        if w > 0 { nt = true; }
    }
    Ok(nt)
}
fn filling_case(c: char, len: usize, cs: Option<&CompoundStyle>) -> Result<(), String> {
    let f = Filling::from_char(c);
    let mut out = Vec::new();
    match cs { Some(cs) => f.queue_styled(&mut out, cs, len), None => f.queue_unstyled(&mut out, len) }.map_err(|e| format!("{e}"))?;
    let vt = Vt::run(&out);
    if let Some(e) = vt.errors.first() { return Err(e.clone()); }
    if vt.writes.len() != len || vt.writes.iter().any(|w| w.2 != c) { return Err(format!("filling with {len} {c:?} wrote {} characters", vt.writes.len())); }
    Ok(())
}
fn filling(g: &mut G) -> R {
    let c = char(g);
    let len = if g.bool() { g.range(900, 5200) } else { g.small(80) };
    let cs = cstyle(g);
    let styled = g.bool();
    g.note(|| format!("filling with {len} {c:?} styled={styled}"));
    filling_case(c, len, if styled { Some(&cs) } else { None })?;
    Ok(len > 0)
}
fn filling_counts(_: bool) -> Result<u64, String> {
    let mut n = 0;
    for c in ['a', '½'] { for len in (0..20).chain(990..1010).chain(1990..2010) { filling_case(c, len, None)?; filling_case(c, len, Some(&CompoundStyle::with_fg(crossterm::style::Color::Red)))?; n += 2; } }
    Ok(n)
}
#[allow(dead_code)]
fn _unused(_: Compound) {}
