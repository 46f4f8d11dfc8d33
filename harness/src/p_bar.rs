//! C21: progress bars
use crate::g::G;
use crate::{Check, Kind, R};
use termimad::ProgressBar;

pub fn checks() -> Vec<Check> {
    vec![Check { prop: "C21", name: "bar", kind: Kind::Random(bar), weight: 1 }]
}
const BLOCKS: [char; 8] = ['▏', '▎', '▍', '▌', '▋', '▊', '▉', '█'];
fn part(g: &mut G, len: usize) -> f32 {
    let p = match g.below(6) {
        0 => *g.pick(&[0.0, 1.0, 0.5, -0.0, f32::MIN_POSITIVE, 1e-45, 0.99999994]),
        1 => g.below(1001) as f32 / 1000.0,
        2 | 3 => {
            // near the limits between eighths of chars
            let n = (8 * len).max(1);
            (g.below(n + 1) as f64 / n as f64) as f32
        }
        4 => ((g.below(16 * len.max(1) + 1)) as f64 / (16 * len.max(1)) as f64) as f32,
        _ => f32::from_bits(g.below(0x3f80_0001) as u32),
    };
    let p = match g.below(4) { 0 => f32::from_bits(p.to_bits().wrapping_add(1)), 1 => f32::from_bits(p.to_bits().wrapping_sub(1)), _ => p };
    if p >= 0.0 && p <= 1.0 { p } else { 1.0 }
}
/// the number of eighths of chars, and of chars
fn shown(p: f32, len: usize) -> Result<(usize, usize), String> {
    let s = ProgressBar::new(p, len).to_string();
    let cs: Vec<char> = s.chars().collect();
    let mut n = 0;
    for (i, c) in cs.iter().enumerate() {
        match BLOCKS.iter().position(|b| b == c) {
            Some(7) => n += 8,
            Some(k) if i + 1 == cs.len() => n += k + 1,
            _ => return Err(format!("bar {s:?} for the part {p:?} and the length {len}")),
        }
    }
    Ok((n, cs.len()))
}
fn bar(g: &mut G) -> R {
    let len = match g.below(8) { 0 => g.below(3), 1 => g.below(70_000), 2 => g.below(2_000), _ => g.below(120) };
    let (p, q) = (part(g, len), part(g, len));
    g.note(|| format!("parts {p:?} and {q:?}, length {len}"));
    let mut v = vec![];
    for p in [p, q] {
        let (n, chars) = shown(p, len)?;
        if chars > len { return Err(format!("{chars} chars for the part {p:?} and the length {len}")); }
        if p == 1.0 && n != 8 * len { return Err(format!("a complete bar of length {len} has {n} eighths of chars")); }
        if p == 0.0 && n != 0 { return Err(format!("an empty bar of length {len} has {n} eighths of chars")); }
        if len <= 65536 {
            let want = 8.0 * len as f64 * p as f64;
            if (n as f64 - want).abs() > 0.54 { return Err(format!("{n} eighths of chars for the part {p:?} and the length {len} ({want} is right)")); }
        }
        v.push((p, n));
    }
    v.sort_by(|a, b| a.0.total_cmp(&b.0));
    if v[0].1 > v[1].1 { return Err(format!("the bars of length {len} for {:?} and {:?} have {} and {} eighths of chars", v[0].0, v[1].0, v[0].1, v[1].1)); }
    Ok(len > 1 && p != q)
}
