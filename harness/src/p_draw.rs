//! C05: alignment, C13: scrollbar, C14: geometry
use crate::{g::G, gen::*, p_wrap::composite, vt::Vt, Check, Kind, R};
use termimad::minimad::Alignment;
use termimad::*;

pub fn checks() -> Vec<Check> {
    vec![
        Check { prop: "C05", name: "completions", kind: Kind::Random(completions), weight: 1 },
        Check { prop: "C05", name: "completions_small", kind: Kind::Exhaustive(completions_small), weight: 1 },
        Check { prop: "C05", name: "cells", kind: Kind::Random(cells), weight: 1 },
        Check { prop: "C05", name: "lines", kind: Kind::Random(lines), weight: 3 },
        Check { prop: "C05", name: "tables", kind: Kind::Random(table_lines), weight: 1 },
        Check { prop: "C13", name: "scrollbar", kind: Kind::Random(scrollbar), weight: 1 },
        Check { prop: "C13", name: "scrollbar_small", kind: Kind::Exhaustive(scrollbar_small), weight: 1 },
        Check { prop: "C14", name: "areas", kind: Kind::Random(areas), weight: 1 },
        Check { prop: "C14", name: "rects", kind: Kind::Random(rects), weight: 2 },
    ]
}

pub fn pads(al: Alignment, inner: usize, outer: usize) -> (usize, usize) {
    let d = outer.saturating_sub(inner);
    match al { Alignment::Left | Alignment::Unspecified => (0, d), Alignment::Right => (d, 0), Alignment::Center => (d / 2, d - d / 2) }
}
fn completions_case(al: Alignment, inner: usize, outer: usize) -> Result<(), String> {
    let exp = pads(al, inner, outer);
    let got = Spacing::completions(al, inner, outer);
    if got != exp { return Err(format!("completions({al:?}, {inner}, {outer}) = {got:?} instead of {exp:?}")); }
    if Spacing::optional_completions(al, inner, Some(outer)) != exp { return Err("optional_completions differs".into()); }
    if Spacing::optional_completions(al, inner, None) != (0, 0) { return Err("optional_completions adds spaces without width".into()); }
    let sp = Spacing { width: outer, align: al };
    if sp.completions_for(inner) != exp { return Err("completions_for differs".into()); }
    let mut fc = FmtComposite::new();
    fc.visible_length = inner;
    if fc.completions() != (0, 0) { return Err("completions without spacing".into()); }
    fc.extend_width(outer, al);
    if fc.completions() != exp { return Err(format!("after extend_width: completions {:?} instead of {exp:?}", fc.completions())); }
    if inner >= outer && fc.spacing.is_some() { return Err("extended while already wide enough".into()); }
    fc.spacing = Some(sp);
    if fc.completions() != exp { return Err("composite completions differ".into()); }
    fc.extend_width(outer + 3, Alignment::Right);
    if fc.completions() != pads(Alignment::Right, inner, outer + 3) { return Err("extend_width of a padded composite".into()); }
    fc.extend_width(outer, al);
    if fc.completions() != pads(al, inner, outer + 3) { return Err("extend_width reduced a width".into()); }
    Ok(())
}
fn completions(g: &mut G) -> R {
    let (al, inner, outer) = (align(g), g.small(5000), g.small(5000));
    g.note(|| format!("{al:?} inner {inner} outer {outer}"));
    completions_case(al, inner, outer)?;
    Ok(inner < outer)
}
fn completions_small(_: bool) -> Result<u64, String> {
    let mut n = 0;
    for al in [Alignment::Left, Alignment::Right, Alignment::Center, Alignment::Unspecified] { for i in 0..40 { for o in 0..40 { completions_case(al, i, o)?; n += 1; } } }
    // margins
    for lm in 0..12 { for rm in 0..12 { for w in 0..40usize {
        let mut ls = LineStyle::default();
        ls.left_margin = lm; ls.right_margin = rm;
        let exp = if w < lm + rm + 3 { (0, 0) } else { (lm, rm) };
        if ls.margins_in(Some(w)) != exp { return Err(format!("margins ({lm}, {rm}) in {w}: {:?}", ls.margins_in(Some(w)))); }
        if ls.margins_in(None) != (lm, rm) { return Err("margins without width".into()); }
        n += 1;
    } } }
    Ok(n)
}
fn cells(g: &mut G) -> R {
    let w = g.small(30);
    let al = align(g);
    let narrow = |s: String| -> String { s.chars().map(|c| if cw(c) != 1 { 'x' } else { c }).collect() };
    let any = g.bool();
    let s = txt(g, 30);
    let s = if any && sw(&s) < w { s } else { narrow(s) };
    let cs = if g.bool() { cstyle(g) } else { CompoundStyle::default() };
    let counted = any || g.bool();
    g.note(|| format!("cell {s:?} in {w} {al:?} counted={counted}"));
    let mut out = Vec::new();
    let sp = Spacing { width: w, align: al };
    if counted { sp.write_counted_str(&mut out, &s, sw(&s), &cs) } else { sp.write_str(&mut out, &s, &cs) }.map_err(|e| format!("{e}"))?;
    let vt = Vt::run(&out);
    if let Some(e) = vt.errors.first() { return Err(e.clone()); }
    let got: String = vt.writes.iter().map(|w| w.2).collect();
    let exp = if sw(&s) >= w { s.chars().take(w).collect() } else { let (l, r) = pads(al, sw(&s), w); format!("{}{s}{}", " ".repeat(l), " ".repeat(r)) };
    if vt.col != w { return Err(format!("cell of width {w} covers {} columns", vt.col)); }
    if got != exp && !(sw(&s) == w && got == s) { return Err(format!("{got:?} written instead of {exp:?}")); }
    Ok(w > 0 && !s.is_empty())
}
fn style_margins(skin: &MadSkin, k: CompositeKind) -> (usize, usize, Alignment) {
    let ls = match k {
        CompositeKind::Code => &skin.code_block,
        CompositeKind::Header(l) if l >= 1 && l as usize <= minimad::MAX_HEADER_DEPTH => &skin.headers[l as usize - 1],
        _ => &skin.paragraph,
    };
    (ls.left_margin, ls.right_margin, ls.align)
}
fn lines(g: &mut G) -> R {
    let skin = skin(g);
    let fs = frags(g, 4, 15, true);
    let kind = kind(g);
    let mut fc = composite(&fs, kind, &skin);
    let mut inner_al = Alignment::Left;
    if g.chance(3) {
        inner_al = align(g);
        fc.spacing = Some(Spacing { width: fc.visible_length + g.small(15), align: inner_al });
    }
    let (lm, rm, al) = style_margins(&skin, kind);
    let width = if g.chance(8) { None } else if g.bool() { Some(fc.visible_length + g.small(40)) } else { Some(g.small(120)) };
    let right = g.bool();
    g.note(|| format!("fragments {fs:?} kind {kind:?} spacing {:?} width {width:?} {}", fc.spacing, describe_skin(&skin)));
    let inner = fc.spacing.map_or(fc.visible_length, |s| s.width);
    let (lm, rm) = match width { Some(w) if w < lm + rm + 3 => (0, 0), _ => (lm, rm) };
    let line = FmtLine::Normal(fc.clone());
    let out = if right { DisplayableLine::new(&skin, &line, width).to_string() } else {
        // no right completion: the text itself
        let t = FmtText { skin: &skin, lines: vec![FmtLine::Normal(fc.clone())], width };
        let s = t.to_string();
        s.strip_suffix('\n').map(|s| s.to_string()).unwrap_or(s)
    };
    let vt = Vt::run(out.as_bytes());
    if let Some(e) = vt.errors.first() { return Err(e.clone()); }
    let (lpo, rpo) = width.map_or((0, 0), |w| pads(al, inner + lm + rm, w));
    let (lpi, rpi) = pads(inner_al, fc.visible_length, inner);
    let content: String = vt.writes.iter().map(|w| w.2).collect();
    let mut pre = String::new();
    match kind {
        CompositeKind::ListItem(d) => { pre.push_str(&" ".repeat(d as usize)); pre.push(skin.bullet.get_char()); pre.push(' '); }
        CompositeKind::ListItemFollowUp(d) if skin.list_items_indentation_mode == ListItemsIndentationMode::Block => pre.push_str(&" ".repeat(d as usize + 2)),
        CompositeKind::Quote => { pre.push(skin.quote_mark.get_char()); pre.push(' '); }
        _ => {}
    }
    let exp = format!("{}{pre}{}{}", " ".repeat(lpo + lm + lpi), fs.iter().map(|f| f.s.as_str()).collect::<String>(), " ".repeat(rpi + if right { rpo + rm } else { 0 }));
    if content != exp { return Err(format!("displayed as {content:?} instead of {exp:?}")); }
    if let (Some(w), true) = (width, right) { if inner + lm + rm <= w && vt.col != w { return Err(format!("{} columns covered for a width of {w}", vt.col)); } }
    // writing a composite filling a width
    if matches!(kind, CompositeKind::Paragraph | CompositeKind::Header(_) | CompositeKind::Code) {
        let w = g.small(60);
        let al = align(g);
        let mut fc = composite(&fs, kind, &skin);
        let len0 = fc.visible_length;
        fc.fill_width(w, al, &skin);
        let (l, r) = fc.completions();
        let real = width_of(&fc.compounds);
        if real > w { return Err(format!("fill_width({w}) gives {real} columns")); }
        if l + r + real != w { return Err(format!("fill_width({w}, {al:?}) of {len0} columns gives {l} + {real} + {r}")); }
        if (l, r) != pads(al, real, w) { return Err(format!("fill_width({w}, {al:?}): spaces {l} and {r} around {real}")); }
        let c = FmtInline { skin: &skin, composite: fc }.to_string();
        let vt = Vt::run(c.as_bytes());
        // a composite printed alone still has its left margin
        let lm = style_margins(&skin, kind).0;
        if vt.col != w + lm { return Err(format!("composite filled to {w} (left margin {lm}) but displayed on {}", vt.col)); }
    }
    Ok(lpo + lpi + rpi + rpo > 0)
}
fn table_lines(g: &mut G) -> R {
    let mut skin = skin(g);
    skin.table.align = align(g);
    let n = g.range(1, 5);
    let width = if g.chance(6) { None } else { Some(g.small(100)) };
    let line = match g.below(5) {
        0 | 1 => {
            let texts: Vec<_> = (0..n).map(|_| frags(g, 2, 8, true)).collect();
            let texts: Vec<String> = texts.into_iter().map(|t| t.into_iter().map(|f| f.s).collect()).collect();
            let mut cells = Vec::new();
            let mut exp = String::new();
            let mut w = 1;
            for t in &texts {
                let mut fc = FmtComposite::from(minimad::Composite { style: minimad::CompositeStyle::Paragraph, compounds: vec![minimad::Compound::raw_str(Box::leak(t.clone().into_boxed_str()))] }, &skin);
                let al = align(g);
                let mut iw = sw(t);
                if g.bool() { iw += g.small(9); fc.spacing = Some(Spacing { width: iw, align: al }); }
                let (l, r) = pads(al, sw(t), iw);
                exp.push(skin.table_border_chars.vertical);
                exp.push_str(&format!("{}{t}{}", " ".repeat(l), " ".repeat(r)));
                w += iw + 1;
                cells.push(fc);
            }
            exp.push(skin.table_border_chars.vertical);
            (FmtLine::TableRow(FmtTableRow { cells }), w, Some(exp))
        }
        2 | 3 => {
            let widths: Vec<usize> = (0..n).map(|_| g.small(12)).collect();
            let p = g.below(3);
            let position = [RelativePosition::Top, RelativePosition::Other, RelativePosition::Bottom].into_iter().nth(p).unwrap();
            let t = skin.table_border_chars;
            let (a, b, c) = [(t.top_left_corner, t.top_junction, t.top_right_corner), (t.left_junction, t.cross, t.right_junction), (t.bottom_left_corner, t.bottom_junction, t.bottom_right_corner)][p];
            let mut exp = String::new(); exp.push(a);
            for (i, w) in widths.iter().enumerate() { if i > 0 { exp.push(b); } for _ in 0..*w { exp.push(t.horizontal); } }
            exp.push(c);
            let w = 1 + widths.iter().map(|w| w + 1).sum::<usize>();
            (FmtLine::TableRule(FmtTableRule { position, aligns: vec![Alignment::Left; n], widths }), w, Some(exp))
        }
        _ => (FmtLine::HorizontalRule, 0, None),
    };
    g.note(|| format!("line {:?} width {width:?} {}", line.0, describe_skin(&skin)));
    let vt = Vt::run(DisplayableLine::new(&skin, &line.0, width).to_string().as_bytes());
    let got: String = vt.writes.iter().map(|w| w.2).collect();
    match line.2 {
        None => {
            let exp: String = std::iter::repeat(skin.horizontal_rule.get_char()).take(width.unwrap_or(0)).collect();
            if got != exp { return Err(format!("rule displayed as {got:?} for a width of {width:?}")); }
        }
        Some(e) => {
            let (l, r) = width.map_or((0, 0), |w| pads(skin.table.align, line.1, w));
            let exp = format!("{}{e}{}", " ".repeat(l), " ".repeat(r));
            if got != exp { return Err(format!("displayed as {got:?} instead of {exp:?}")); }
            if !matches!(line.0, FmtLine::TableRow(_)) && line.0.visible_length() != line.1 { return Err(format!("reported length {} of a line displayed on {}", line.0.visible_length(), line.1)); }
        }
    }
    Ok(width.is_some())
}

pub fn check_thumb(scroll: usize, content: usize, height: usize, top: usize, got: Option<(usize, usize)>) -> Result<(), String> {
    let e = |m: &str| Err(format!("{m}: {got:?} for scroll {scroll}, content {content}, {height} rows from {top}"));
    if got.is_some() != (content > height && height > 0) { return e("presence of a scrollbar"); }
    let Some((a, b)) = got else { return Ok(()) };
    if a > b || a < top || b >= top + height { return e("thumb outside of the area"); }
    if scroll + height <= content && height >= 2 {
        if (a == top) != (scroll == 0) { return e("start of the thumb"); }
        let last = b == top + height - 1;
        if scroll + height == content && !last { return e("thumb not at the bottom while nothing is hidden below"); }
        if height > 3 && scroll + height < content && last && a != b { return e("thumb at the bottom while something is hidden below"); }
    }
    Ok(())
}
fn sb(scroll: usize, content: usize, height: usize, top: usize) -> Result<Option<(usize, usize)>, String> {
    let got = compute_scrollbar::<usize, usize, usize>(scroll, content, height, top);
    check_thumb(scroll, content, height, top, got)?;
    if top + height <= 65535 {
        let a = Area::new(3, top as u16, 4, height as u16);
        let g2 = a.scrollbar(scroll, content).map(|(a, b)| (a as usize, b as usize));
        if g2 != got { return Err(format!("Area::scrollbar gives {g2:?} and compute_scrollbar {got:?}")); }
        if scroll <= 65535 && content <= 65535 {
            let g3 = a.scrollbar(scroll as u16, content as u16).map(|(a, b)| (a as usize, b as usize));
            if g3 != got { return Err(format!("Area::scrollbar on u16 gives {g3:?} and compute_scrollbar {got:?}")); }
        }
    }
    if content > height && height > 0 && scroll + height < content {
        let next = compute_scrollbar::<usize, usize, usize>(scroll + 1, content, height, top);
        if let (Some(x), Some(y)) = (got, next) { if y.0 < x.0 || y.1 < x.1 { return Err(format!("thumb moves up from {x:?} to {y:?} at scroll {scroll} of {content} in {height} rows")); } }
    }
    Ok(got)
}
fn scrollbar(g: &mut G) -> R {
    let height = match g.below(3) { 0 => g.below(8), 1 => g.small(300), _ => g.below(65536) };
    let content = match g.below(4) { 0 => g.below(65536), 1 => height + g.small(300), 2 => g.below(5_000_000), _ => g.small(3000) };
    let max = content.saturating_sub(height);
    let scroll = match g.below(4) { 0 => g.below(max + 1), 1 => max - g.small(3).min(max), 2 => g.small(5), _ => g.small(100_000) };
    let top = g.below(65536 - height.min(65535));
    g.note(|| format!("scroll {scroll} content {content} height {height} top {top}"));
    let r = sb(scroll, content, height, top)?;
    Ok(r.is_some())
}
fn scrollbar_small(thorough: bool) -> Result<u64, String> {
    let m = if thorough { 150 } else { 60 };
    let mut n = 0;
    for h in 0..m { for c in 0..m + 10 { for s in 0..c + 3 { sb(s, c, h, 2)?; n += 1; } } }
    for h in 0..16 { for c in [500, 1000, 4097] { for s in 0..c + 1 { sb(s, c, h, 0)?; n += 1; } } }
    Ok(n)
}

fn areas(g: &mut G) -> R {
    let left = g.u16_edge(); let top = g.u16_edge();
    let width = g.u16_edge().min(65535 - left); let height = g.u16_edge().min(65535 - top);
    let a = Area::new(left, top, width, height);
    let near = |g: &mut G, o: u16, l: u16| -> u16 { match g.below(4) { 0 => o, 1 => o.saturating_add(l), 2 => (o as u32 + l as u32).saturating_sub(1).min(65535) as u16, _ => g.u16_edge() } };
    let (x, y) = (near(g, left, width), near(g, top, height));
    let (dx, dy) = (g.below(width as usize / 2 + 1) as u16, g.below(height as usize / 2 + 1) as u16);
    let mw = if g.bool() { g.u16_edge() } else { g.below(width as usize + 1) as u16 };
    g.note(|| format!("{a:?} point ({x}, {y}) padding ({dx}, {dy}) max width {mw}"));
    if a.right() as u32 != left as u32 + width as u32 || a.bottom() as u32 != top as u32 + height as u32 { return Err("right or bottom".into()); }
    let exp = x >= left && (x as u32) < left as u32 + width as u32 && y >= top && (y as u32) < top as u32 + height as u32;
    if a.contains(x, y) != exp { return Err(format!("contains is {}", !exp)); }
    let mut p = a.clone();
    p.pad(dx, dy);
    if p != Area::new(left + dx, top + dy, width - 2 * dx, height - 2 * dy) { return Err(format!("padded to {p:?}")); }
    let mut p = a.clone();
    p.pad_for_max_width(mw);
    if p.top != top || p.height != height || p.width != width.min(mw) { return Err(format!("padded to {p:?}")); }
    let l = p.left as i64 - left as i64; let r = a.right() as i64 - p.right() as i64;
    if l < 0 || r < 0 || (l - r).abs() > 1 { return Err(format!("not centered: {p:?}")); }
    Ok(width > 0 && height > 0)
}
fn rects(g: &mut G) -> R {
    let width = if g.chance(10) { g.range(990, 1100) } else { g.range(2, 40) };
    let height = g.range(2, 20);
    let (left, top) = if g.chance(6) { (65535 - width, 65535 - height) } else { (g.small(300), g.small(300)) };
    let mut rect = Rect::new(Area::new(left as u16, top as u16, width as u16, height as u16), cstyle(g));
    let fill = g.bool();
    rect.set_fill(fill);
    let (bs, name, e): (_, _, [char; 8]) = match g.below(4) {
        0 => (BORDER_STYLE_HALF_WIDTH_OUTSIDE, "half", ['▛', '▀', '▜', '▐', '▟', '▄', '▙', '▌']),
        1 => (BORDER_STYLE_MIDDLE_SQUARE_LINE, "square", ['┌', '─', '┐', '│', '┘', '─', '└', '│']),
        2 => (BORDER_STYLE_MIDDLE_ROUND_LINE, "round", ['╭', '─', '╮', '│', '╯', '─', '╰', '│']),
        _ => (BORDER_STYLE_BLAND, "bland", [' '; 8]),
    };
    rect.set_border_style(bs);
    g.note(|| format!("{:?} fill {fill} border {name}", rect.area));
    let mut out = Vec::new();
    rect.draw(&mut out).map_err(|e| format!("{e}"))?;
    let vt = Vt::run(&out);
    vt.inside(left, top, width, height)?;
    let mut seen = std::collections::HashSet::new();
    for (r, c, _) in &vt.writes { if !seen.insert((*r, *c)) { return Err(format!("cell ({c}, {r}) written twice")); } }
    let sgr = crate::p_style::sgr_of(&rect.colors);
    for r in top..top + height { for c in left..left + width {
        let (t, b, l, ri) = (r == top, r == top + height - 1, c == left, c == left + width - 1);
        let exp = match (t, b, l, ri) {
            (true, _, true, _) => Some(e[0]), (true, _, _, true) => Some(e[2]), (true, ..) => Some(e[1]),
            (_, true, true, _) => Some(e[6]), (_, true, _, true) => Some(e[4]), (_, true, ..) => Some(e[5]),
            (_, _, true, _) => Some(e[7]), (_, _, _, true) => Some(e[3]),
            _ => if fill { Some(' ') } else { None },
        };
        let cell = vt.cells.get(&(r, c));
        if cell.map(|c| c.c) != exp { return Err(format!("cell ({c}, {r}) is {:?} instead of {exp:?}", cell.map(|c| c.c))); }
        if let Some(cell) = cell { if cell.sgr != sgr { return Err(format!("cell ({c}, {r}) has style {:?} instead of {sgr:?}", cell.sgr)); } }
    } }
    Ok(true)
}
