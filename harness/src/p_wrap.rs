//! C01, C02, C03, C04: wrapping, code blocks, tables
use crate::{g::G, gen::*, vt::Vt, Check, Kind, R};
use termimad::minimad::{self, Alignment, Line, Options};
use termimad::{self as tm, *};
use termimad::wrap::*;

pub fn checks() -> Vec<Check> {
    vec![
        Check { prop: "C01", name: "wrap_composite", kind: Kind::Random(|g| wrap_composite(g, true)), weight: 3 },
        Check { prop: "C01", name: "format_text", kind: Kind::Random(c01_text), weight: 3 },
        Check { prop: "C02", name: "wrap_composite", kind: Kind::Random(|g| wrap_composite(g, false)), weight: 3 },
        Check { prop: "C02", name: "format_text", kind: Kind::Random(c02_text), weight: 3 },
        Check { prop: "C03", name: "code_blocks", kind: Kind::Random(c03), weight: 1 },
        Check { prop: "C04", name: "tbl_fit", kind: Kind::Random(c04_fit), weight: 1 },
        Check { prop: "C04", name: "tbl_fit_small", kind: Kind::Exhaustive(c04_fit_small), weight: 1 },
        Check { prop: "C04", name: "tables", kind: Kind::Random(c04_text), weight: 3 },
    ]
}

pub fn composite<'a>(fs: &'a [Frag], kind: CompositeKind, skin: &MadSkin) -> FmtComposite<'a> {
    let mut fc = FmtComposite { kind, compounds: fs.iter().map(|f| f.compound()).collect(), visible_length: 0, spacing: None };
    fc.recompute_width(skin);
    fc
}
fn is_blank(c: char) -> bool { c.is_whitespace() }

/// `outs`, in order, are the source with blanks possibly dropped between two outs (or at the end)
pub fn match_wrapped(src: &[SC], outs: &[Vec<SC>]) -> Result<(), String> {
    let mut pos: Vec<usize> = vec![0];
    for (i, o) in outs.iter().enumerate() {
        let mut starts: Vec<usize> = Vec::new();
        for p in &pos {
            starts.push(*p);
            if i > 0 {
                let mut q = *p;
                while q < src.len() && is_blank(src[q].0) { q += 1; starts.push(q); }
            }
        }
        starts.sort(); starts.dedup();
        pos = starts.into_iter().filter(|p| src.len() >= p + o.len() && src[*p..p + o.len()] == o[..]).map(|p| p + o.len()).collect();
        if pos.is_empty() {
            return Err(format!("line {i} {:?} of the result isn't what the source has there", show(o)));
        }
    }
    if pos.iter().any(|p| src[*p..].iter().all(|c| is_blank(c.0))) { Ok(()) } else { Err(format!("the end of the source, {:?}, is missing", show(&src[*pos.last().unwrap()..]))) }
}
pub fn show(o: &[SC]) -> String {
    let mut s = String::new(); let mut last = 99;
    for (c, f) in o { if *f != last { s.push_str(&format!("<{f:x}>")); last = *f; } s.push(*c); }
    s
}
fn follow_up(k: CompositeKind) -> CompositeKind {
    match k { CompositeKind::ListItem(d) => CompositeKind::ListItemFollowUp(d), k => k }
}
fn wrap_composite(g: &mut G, widths: bool) -> R {
    let fs = frags(g, 6, 20, true);
    let kind = kind(g);
    let mut skin = MadSkin::default();
    if g.bool() { skin.list_items_indentation_mode = ListItemsIndentationMode::FirstLineOnly; }
    let fc = composite(&fs, kind, &skin);
    g.note(|| format!("fragments {fs:?} kind {kind:?} {:?}", skin.list_items_indentation_mode));
    if fc.visible_length <= 3 { return Ok(false); }
    let max = fc.visible_length - 1;
    let w = if g.bool() { g.range(3, max) } else { g.range(3, max.min(3 + 8)) };
    g.note(|| format!("width {w}"));
    let outs = match hard_wrap_composite(&fc, w, &skin) { Ok(o) => o, Err(_) => return Err(format!("wrapping refused for width {w}")) };
    if widths {
        let wide = fs.iter().map(|f| widest(&f.s)).max().unwrap_or(0);
        for (i, o) in outs.iter().enumerate() {
            let real = prefix(o.kind, &skin) + width_of(&o.compounds);
            if o.visible_length != real { return Err(format!("line {i}: cached length {} but real length {real}", o.visible_length)); }
            if w >= prefix(kind, &skin).max(prefix(o.kind, &skin)) + wide && real > w { return Err(format!("line {i} is {real} columns wide for a width of {w}: {:?}", o.compounds)); }
        }
    } else {
        let src = styled_chars(&fc.compounds);
        let lines: Vec<_> = outs.iter().map(|o| styled_chars(&o.compounds)).collect();
        match_wrapped(&src, &lines)?;
        if outs.is_empty() { return Err("no line".into()); }
        for (i, o) in outs.iter().enumerate() {
            let k = if i == 0 { kind } else { follow_up(kind) };
            if o.kind != k { return Err(format!("line {i} has kind {:?} instead of {k:?}", o.kind)); }
        }
    }
    Ok(outs.len() > 1)
}
fn c01_text(g: &mut G) -> R {
    let src = markdown(g, true);
    let skin = skin(g);
    let raw = g.chance(6);
    let w = if g.chance(8) { g.below(4) } else { g.small(60) };
    g.note(|| format!("source {src:?} raw={raw} width {w} {}", describe_skin(&skin)));
    if !raw && !parses(&src) { return Ok(false); }
    let ftext = if raw { FmtText::raw_str(&skin, &src, Some(w)) } else { FmtText::from(&skin, &src, Some(w)) };
    let wide = widest(&src);
    if w < 3 { let _ = ftext.to_string(); return Ok(false); }
    for (i, l) in ftext.lines.iter().enumerate() {
        if let FmtLine::Normal(fc) = l {
            let real = prefix(fc.kind, &skin) + width_of(&fc.compounds);
            if real != fc.visible_length { return Err(format!("line {i}: cached length {} but real length {real}", fc.visible_length)); }
            let first = match fc.kind { CompositeKind::ListItemFollowUp(d) => prefix(CompositeKind::ListItem(d), &skin), k => prefix(k, &skin) };
            let (lm, rm) = match fc.kind {
                CompositeKind::Code => (skin.code_block.left_margin, skin.code_block.right_margin),
                CompositeKind::Header(l) if l <= 8 => (skin.headers[l as usize - 1].left_margin, skin.headers[l as usize - 1].right_margin),
                _ => (skin.paragraph.left_margin, skin.paragraph.right_margin),
            };
            let (lm, rm) = if w < lm + rm + 3 { (0, 0) } else { (lm, rm) };
            if w < first + lm + rm + wide { continue; }
            if real + lm + rm > w { return Err(format!("line {i} needs {real} + margins {lm} and {rm} for a width of {w}")); }
        } else if !matches!(l, FmtLine::HorizontalRule) { continue; }
        let s = DisplayableLine::new(&skin, l, Some(w)).to_string();
        let vt = Vt::run(s.as_bytes());
        if vt.col > w { return Err(format!("line {i} is displayed on {} columns for a width of {w}", vt.col)); }
    }
    let _ = ftext.to_string();
    Ok(ftext.lines.len() > src.lines().count())
}
fn dbg_line(l: &FmtLine) -> String {
    match l {
        FmtLine::Normal(fc) => format!("{:?} {:?}", fc.kind, fc.compounds),
        l => format!("{l:?}"),
    }
}
fn c02_text(g: &mut G) -> R {
    let src = markdown(g, false);
    let skin = skin(g);
    let w = g.range(3, 50);
    g.note(|| format!("source {src:?} width {w} {}", describe_skin(&skin)));
    if !parses(&src) { return Ok(false); }
    let parsed = minimad::parse_text(&src, Options::default());
    let ftext = FmtText::from(&skin, &src, Some(w));
    let mut k = 0;
    let mut wrapped = false;
    for l in parsed.lines {
        let is_normal = matches!(l, Line::Normal(_));
        let (kind, chars) = match &l { Line::Normal(c) => (Some(CompositeKind::from(c.style)), styled_chars(&c.compounds)), Line::HorizontalRule => (None, vec![]), _ => return Ok(false) };
        let alone = hard_wrap_lines(vec![FmtLine::from(l, &skin)], w, &skin).map_err(|_| "width refused".to_string())?;
        if is_normal {
            let kind = kind.unwrap();
            let mut outs = Vec::new();
            for (i, o) in alone.iter().enumerate() {
                let FmtLine::Normal(fc) = o else { return Err("a normal line became another kind of line".into()) };
                let ek = if i == 0 { kind } else { follow_up(kind) };
                if fc.kind != ek { return Err(format!("line {i} of a wrapped {kind:?} has kind {:?}", fc.kind)); }
                outs.push(styled_chars(&fc.compounds));
            }
            if outs.is_empty() { return Err("a line disappeared".into()); }
            if outs.len() > 1 { wrapped = true; }
            match_wrapped(&chars, &outs)?;
        }
        // the text is the wrapping of its lines
        for o in &alone {
            let Some(t) = ftext.lines.get(k) else { return Err("lines missing in the text".into()) };
            if dbg_line(t) != dbg_line(o) { return Err(format!("line {k} of the text is {} instead of {}", dbg_line(t), dbg_line(o))); }
            k += 1;
        }
    }
    if k != ftext.lines.len() { return Err(format!("{} lines instead of {k}", ftext.lines.len())); }
    // rendered glyphs: one bullet per list item
    for (i, l) in ftext.lines.iter().enumerate() {
        if let FmtLine::Normal(fc) = l {
            let s = DisplayableLine::new(&skin, l, None).to_string();
            let vt = Vt::run(s.as_bytes());
            let got: String = vt.writes.iter().map(|w| w.2).collect();
            let mut exp = String::new();
            let ls = skin.line_style(fc.kind);
            for _ in 0..ls.left_margin { exp.push(' '); }
            match fc.kind {
                CompositeKind::ListItem(d) => { for _ in 0..d { exp.push(' '); } exp.push(skin.bullet.get_char()); exp.push(' '); }
                CompositeKind::ListItemFollowUp(d) if skin.list_items_indentation_mode == ListItemsIndentationMode::Block => for _ in 0..d + 2 { exp.push(' '); },
                CompositeKind::Quote => { exp.push(skin.quote_mark.get_char()); exp.push(' '); }
                _ => {}
            }
            for c in &fc.compounds { exp.push_str(c.src); }
            if !got.starts_with(&exp) || !got[exp.len()..].chars().all(|c| c == ' ') {
                // inner completion may also be on the left (not for code)
                return Err(format!("line {i} is displayed as {got:?} instead of {exp:?}"));
            }
        }
    }
    Ok(wrapped)
}

fn c03(g: &mut G) -> R {
    let src = { let mut v = Vec::new(); for _ in 0..g.range(1, 10) {
        match g.below(5) { 0 => v.push("".to_string()), 1 => { let t = txt(g, 10); v.push(format!("x{t}")) }, 2 => v.push("---".into()),
        _ => { let m = if g.chance(3) { 40 } else { 12 }; let t = txt(g, m); v.push(format!("    {t}")); } } } v.join("\n") };
    let mut skin = skin(g);
    skin.code_block.set_fgbg(crossterm::style::Color::AnsiValue(7), crossterm::style::Color::AnsiValue(99));
    let w = if g.chance(5) { None } else { Some(g.range(3, 60)) };
    g.note(|| format!("source {src:?} width {w:?} {}", describe_skin(&skin)));
    let nt = c03_body(&src, &skin, w)?;
    // the block finder, directly
    let n = g.below(9);
    let mut lines: Vec<FmtLine> = Vec::new();
    let mut pattern = String::new();
    for _ in 0..n {
        match g.below(5) {
            0 => { lines.push(FmtLine::HorizontalRule); pattern.push('-'); }
            1 => { let mut fc = FmtComposite::new(); fc.visible_length = g.small(9); lines.push(FmtLine::Normal(fc)); pattern.push('p'); }
            _ => { let mut fc = FmtComposite::new(); fc.kind = CompositeKind::Code; fc.visible_length = g.small(90); lines.push(FmtLine::Normal(fc)); pattern.push('c'); }
        }
    }
    g.note(|| format!("block finder on {pattern} with lengths {:?}", lines.iter().map(|l| l.visible_length()).collect::<Vec<_>>()));
    let exp = runs(&lines);
    let got: Vec<_> = verif_hooks::find_blocks(&lines).iter().map(|b| (b.start, b.height, b.width)).collect();
    if exp != got { return Err(format!("code blocks are {exp:?} but {got:?} were found")); }
    let before: Vec<String> = lines.iter().map(dbg_line).collect();
    verif_hooks::justify_blocks(&mut lines);
    for (i, l) in lines.iter().enumerate() {
        if dbg_line(l) != before[i] { return Err(format!("content of line {i} changed")); }
        if let FmtLine::Normal(fc) = l {
            let b = exp.iter().find(|b| b.0 <= i && i < b.0 + b.1);
            match (b, fc.spacing) {
                (None, None) => {}
                (Some(b), Some(sp)) if sp.width == b.2 && sp.align == Alignment::Left => {}
                (b, sp) => return Err(format!("line {i} in block {b:?} has spacing {sp:?}")),
            }
        }
    }
    Ok(nt)
}
fn runs(lines: &[FmtLine]) -> Vec<(usize, usize, usize)> {
    let mut v: Vec<(usize, usize, usize)> = Vec::new();
    let mut prev = false;
    for (i, l) in lines.iter().enumerate() {
        let code = matches!(l, FmtLine::Normal(fc) if fc.kind == CompositeKind::Code);
        if code {
            let w = l.visible_length();
            if prev { let b = v.last_mut().unwrap(); b.1 += 1; b.2 = b.2.max(w); } else { v.push((i, 1, w)); }
        }
        prev = code;
    }
    v
}
fn c03_body(src: &str, skin: &MadSkin, w: Option<usize>) -> R {
    let unwrapped = FmtText::from(skin, src, None);
    let ftext = FmtText::from(skin, src, w);
    let blocks = runs(&unwrapped.lines);
    let wblocks = runs(&ftext.lines);
    if blocks.len() != wblocks.len() { return Err(format!("{} blocks became {}", blocks.len(), wblocks.len())); }
    let (lm, rm) = (skin.code_block.left_margin, skin.code_block.right_margin);
    for (b, wb) in blocks.iter().zip(&wblocks) {
        let avail = match w { Some(w) if w >= lm + rm + 3 => w - lm - rm, Some(w) => w, None => usize::MAX };
        let exp = b.2.min(avail);
        for i in wb.0..wb.0 + wb.1 {
            let FmtLine::Normal(fc) = &ftext.lines[i] else { continue };
            match fc.spacing {
                Some(sp) if sp.width == exp => {}
                sp => return Err(format!("line {i} of a code block of width {exp} has spacing {sp:?}")),
            }
            let s = DisplayableLine::new(skin, &ftext.lines[i], w).to_string();
            let vt = Vt::run(s.as_bytes());
            // when a wide character can't be cut, a line may be one column short, never longer
            let n = vt.cells.values().filter(|c| c.sgr.bg.as_deref() == Some("5;99")).count();
            if fc.visible_length <= exp && n != exp { return Err(format!("line {i}: {n} columns in the code style instead of {exp}")); }
            let cols: Vec<usize> = vt.cells.iter().filter(|c| c.1.sgr.bg.as_deref() == Some("5;99")).map(|c| c.0.1).collect();
            if let (Some(a), Some(z)) = (cols.first(), cols.last()) { if z + 1 - a != n { return Err(format!("line {i}: the code style isn't contiguous")); } }
            if let Some(w) = w { if vt.col > w { return Err(format!("line {i} of a code block displayed on {} columns for a width of {w}", vt.col)); } }
        }
    }
    for l in &ftext.lines { if let FmtLine::Normal(fc) = l { if fc.kind != CompositeKind::Code && fc.spacing.is_some() { return Err("a line which isn't code was padded".into()); } } }
    Ok(!blocks.is_empty() && blocks.iter().any(|b| b.1 > 1))
}

fn fit_case(cells: &[Vec<usize>], avail: usize) -> R {
    let n = cells.len();
    let fit = TblFit::new(n, avail);
    if fit.is_err() != (avail < 4 * n + 1) { return Err(format!("{n} columns in {avail}: {}", if fit.is_err() { "refused" } else { "accepted" })); }
    let Ok(mut fit) = fit else { return Ok(false) };
    let natural: Vec<usize> = cells.iter().map(|c| c.iter().copied().max().unwrap_or(0).max(3)).collect();
    for (i, c) in cells.iter().enumerate() { for w in c { fit.see_cell(i, *w); } }
    fit.see_cell(n, 1000);
    let r = fit.fit();
    let room = avail - 1 - n;
    let (sum, nat): (usize, usize) = (r.col_widths.iter().sum(), natural.iter().sum());
    if r.col_widths.len() != n { return Err(format!("{} widths for {n} columns", r.col_widths.len())); }
    if nat <= room {
        if r.col_widths != natural { return Err(format!("columns {natural:?} fit in {room} but were set to {:?}", r.col_widths)); }
        if r.reduced { return Err("said reduced while everything fits".into()); }
    } else {
        if sum != room { return Err(format!("columns {natural:?} reduced to {:?}, whose sum is {sum} while there's room for {room}", r.col_widths)); }
        for i in 0..n { if r.col_widths[i] < 3 || r.col_widths[i] > natural[i] { return Err(format!("column {i} of natural width {} got {} (all: {:?})", natural[i], r.col_widths[i], r.col_widths)); } }
    }
    Ok(nat > room)
}
fn c04_fit(g: &mut G) -> R {
    let n = g.small(12);
    let mut cells = Vec::new();
    for _ in 0..n {
        let k = g.small(6);
        let big = g.chance(3);
        cells.push((0..k).map(|_| if big { g.small(300) } else { g.small(15) }).collect::<Vec<_>>());
    }
    let avail = if g.bool() { 4 * n + g.small(40) } else { g.small(400) };
    g.note(|| format!("cells per column {cells:?} available width {avail}"));
    fit_case(&cells, avail)
}
fn c04_fit_small(thorough: bool) -> Result<u64, String> {
    // every table of up to 3 columns with 2 cells of widths 0..=9 (thorough: 12), every width up to 40
    let m = if thorough { 11 } else { 7 };
    let mut n = 0u64;
    for a in 0..m { for b in 0..m { for c in 0..m { for d in 0..m {
        for avail in 0..24 {
            let cells = vec![vec![a * 2, b], vec![c, d + 4]];
            fit_case(&cells, avail).map_err(|e| format!("cells {cells:?} available {avail}: {e}"))?;
            n += 1;
        }
    } } } }
    for a in 0..12 { for b in 0..12 { for c in 0..12 { for avail in 10..40 {
        let cells = vec![vec![a], vec![b, 1], vec![c, c]];
        fit_case(&cells, avail).map_err(|e| format!("cells {cells:?} available {avail}: {e}"))?;
        n += 1;
    } } } }
    Ok(n)
}
/// number of displayed rows used for the source row ir, such that all the rows of the group
/// are displayed by exactly the displayed rows
fn row_height(group: &[Vec<Vec<SC>>], disp: &[Vec<Vec<SC>>], ir: usize, k: usize, dead: &mut std::collections::HashSet<(usize, usize)>) -> Option<usize> {
    if dead.contains(&(ir, k)) { return None; }
    let later = group.len() - ir - 1;
    'h: for h in 1..=(disp.len() - k).saturating_sub(later) {
        if later == 0 && k + h != disp.len() { continue; }
        for ic in 0..group[ir].len() {
            let mut outs: Vec<Vec<SC>> = disp[k..k + h].iter().map(|r| r[ic].clone()).collect();
            while outs.len() > 1 && outs.last().map_or(false, |o| o.is_empty()) { outs.pop(); }
            if match_wrapped(&group[ir][ic], &outs).is_err() { continue 'h; }
        }
        if later == 0 || row_height(group, disp, ir + 1, k + h, dead).is_some() { return Some(h); }
    }
    dead.insert((ir, k));
    None
}
fn c04_text(g: &mut G) -> R {
    let mut src: Vec<String> = Vec::new();
    for _ in 0..g.range(1, 2) { src.extend(table_md(g)); if g.bool() { src.push(String::new()); } }
    let src = src.join("\n");
    let mut skin = skin(g);
    let w = if g.chance(6) { None } else if g.bool() { Some(g.range(5, 30)) } else { Some(g.small(90)) };
    skin.table.left_margin = 0;
    g.note(|| format!("source {src:?} width {w:?} {}", describe_skin(&skin)));
    if !parses(&src) { return Ok(false); }
    let parsed = minimad::parse_text(&src, Options::default());
    let ftext = FmtText::from(&skin, &src, w);
    for l in &ftext.lines { let _ = DisplayableLine::new(&skin, l, w).to_string(); }
    if let Some(w) = w { if w < 5 { return Ok(false); } }
    // tables of the source
    let mut tables: Vec<Vec<&Line>> = Vec::new();
    let mut prev = false;
    for l in &parsed.lines {
        let t = matches!(l, Line::TableRow(_) | Line::TableRule(_));
        if t { if prev { tables.last_mut().unwrap().push(l) } else { tables.push(vec![l]) } }
        prev = t;
    }
    let mut blocks: Vec<(usize, usize)> = Vec::new();
    let mut prev = false;
    for (i, l) in ftext.lines.iter().enumerate() {
        let t = matches!(l, FmtLine::TableRow(_) | FmtLine::TableRule(_));
        if t { if prev { blocks.last_mut().unwrap().1 = i + 1 } else { blocks.push((i, i + 1)) } }
        prev = t;
    }
    if tables.len() != blocks.len() { return Err(format!("{} tables became {}", tables.len(), blocks.len())); }
    let mut nt = false;
    for (t, (s, e)) in tables.iter().zip(&blocks) {
        let src_cols = t.iter().map(|l| match l { Line::TableRow(r) => r.cells.len(), Line::TableRule(r) => r.cells.len(), _ => 0 }).max().unwrap_or(0);
        if src_cols == 0 { continue; }
        let ncols = match w { Some(w) if w < 4 * src_cols + 1 => (w - 1) / 4, _ => src_cols };
        if ncols < src_cols { nt = true; }
        let mut widths: Option<Vec<usize>> = None;
        let mut total: Option<usize> = None;
        let mut left: Option<usize> = None;
        // natural widths and content
        let mut k = *s;
        let mut aligns = vec![Alignment::Center; ncols];
        let mut room_ok = true;
        for l in t { if let Line::TableRow(r) = l { for (ic, c) in r.cells.iter().enumerate().take(ncols) {
            let kind = CompositeKind::from(c.style);
            let first = prefix(kind, &skin);
            let wd = match &ftext.lines.iter().skip(*s).take(e - s).find_map(|l| match l { FmtLine::TableRow(r) => r.cells.get(ic).and_then(|c| c.spacing).map(|s| s.width), FmtLine::TableRule(r) => r.widths.get(ic).copied(), _ => None }) { Some(w) => *w, None => 0 };
            let wide = c.compounds.iter().map(|c| widest(c.src)).max().unwrap_or(0);
            if first + wide > wd { room_ok = false; }
        } } }
        for (il, l) in t.iter().enumerate() {
            match l {
                Line::TableRule(r) => {
                    let Some(FmtLine::TableRule(fr)) = ftext.lines.get(k) else { return Err(format!("line {k} should be a table rule")) };
                    if fr.widths.len() != ncols || fr.aligns.len() != ncols { return Err(format!("rule at line {k} has {} columns instead of {ncols}", fr.widths.len())); }
                    for ic in 0..ncols { aligns[ic] = r.cells.get(ic).copied().unwrap_or(Alignment::Unspecified); }
                    if let Some(ws) = &widths { if ws != &fr.widths { return Err(format!("widths of the rule at line {k}: {:?} instead of {ws:?}", fr.widths)); } }
                    widths = Some(fr.widths.clone());
                    let pos_ok = match &fr.position { RelativePosition::Top => k == *s, RelativePosition::Bottom => k + 1 == *e && k != *s, RelativePosition::Other => k != *s && k + 1 != *e };
                    if !pos_ok { return Err(format!("rule at line {k} of table {s}..{e} has position {:?}", fr.position)); }
                    k += 1;
                }
                Line::TableRow(r) => {
                    // one or more rows
                    let next_is = |k: usize| -> bool { k < *e && matches!(ftext.lines[k], FmtLine::TableRow(_)) };
                    if !next_is(k) { return Err(format!("line {k} should be a table row")); }
                    // as many rows as necessary, found by matching the content
                    let group: Vec<Vec<Vec<SC>>> = t[il..].iter().map_while(|l| match l {
                        Line::TableRow(r) => Some((0..ncols).map(|ic| r.cells.get(ic).map(|c| styled_chars(&c.compounds)).unwrap_or_default()).collect()),
                        _ => None,
                    }).collect();
                    let max_h = (k..*e).take_while(|k| next_is(*k)).count();
                    let disp: Vec<Vec<Vec<SC>>> = (k..k + max_h).map(|kk| match &ftext.lines[kk] {
                        FmtLine::TableRow(fr) => (0..ncols).map(|ic| fr.cells.get(ic).map(|c| styled_chars(&c.compounds)).unwrap_or_default()).collect(),
                        _ => vec![],
                    }).collect();
                    let mut dead = std::collections::HashSet::new();
                    let Some(h) = row_height(&group, &disp, 0, 0, &mut dead) else { return Err(format!("the content of the row {:?} isn't found from line {k}: {:?}", r.cells.iter().map(|c| c.compounds.clone()).collect::<Vec<_>>(), ftext.lines[k])) };
                    if h > 1 { nt = true; }
                    for kk in k..k + h {
                        let FmtLine::TableRow(fr) = &ftext.lines[kk] else { continue };
                        if fr.cells.len() != ncols { return Err(format!("row at line {kk} has {} cells instead of {ncols}", fr.cells.len())); }
                        let mut ws = Vec::new();
                        for (ic, c) in fr.cells.iter().enumerate() {
                            let Some(sp) = c.spacing else { return Err(format!("cell {ic} of line {kk} isn't justified")) };
                            ws.push(sp.width);
                            if sp.align != aligns[ic] { return Err(format!("cell {ic} of line {kk} aligned {:?} instead of {:?}", sp.align, aligns[ic])); }
                            if sp.width < 3 { return Err(format!("column {ic} is {} wide", sp.width)); }
                            let real = prefix(c.kind, &skin) + width_of(&c.compounds);
                            if room_ok && real > sp.width { return Err(format!("cell {ic} of line {kk} is {real} wide in a column of {}", sp.width)); }
                        }
                        if let Some(w0) = &widths { if w0 != &ws { return Err(format!("widths of the row at line {kk}: {ws:?} instead of {w0:?}")); } }
                        widths = Some(ws);
                    }
                    k += h;
                }
                _ => {}
            }
        }
        if k != *e { return Err(format!("table has {} lines too many", e - k)); }
        let ws = widths.unwrap_or_default();
        let sum = 1 + ws.iter().map(|w| w + 1).sum::<usize>();
        if let Some(w) = w { if sum > w { return Err(format!("table of {sum} columns for a width of {w}")); } }
        if room_ok {
            for kk in *s..*e {
                let out = DisplayableLine::new(&skin, &ftext.lines[kk], w).to_string();
                let vt = Vt::run(out.as_bytes());
                let border: Vec<usize> = { // columns of the first and last non blank
                    let row = vt.row_text(0); let cs: Vec<char> = row.chars().collect();
                    let f = cs.iter().position(|c| *c != ' ').unwrap_or(0);
                    vec![f]
                };
                let (_, _, n) = vt.extent(0);
                let n_exp = w.map_or(sum, |w| w.max(sum));
                if n != n_exp { return Err(format!("line {kk} of the table displayed on {n} columns instead of {n_exp}")); }
                if let Some(t0) = total { if t0 != n { return Err(format!("line {kk} of the table displayed on {n} columns while others are on {t0}")); } }
                if let Some(l0) = left { if l0 != border[0] { return Err(format!("line {kk} of the table starts at {} while others start at {l0}", border[0])); } }
                total = Some(n); left = Some(border[0]);
                // the borders
                let off = border[0];
                let mut col = off;
                let tbc = skin.table_border_chars;
                for i in 0..=ncols {
                    let c = vt.cells.get(&(0, col)).map(|c| c.c).unwrap_or('?');
                    let exp: Vec<char> = match &ftext.lines[kk] {
                        FmtLine::TableRow(_) => vec![tbc.vertical],
                        FmtLine::TableRule(r) => vec![match (&r.position, i == 0, i == ncols) {
                            (RelativePosition::Top, true, _) => tbc.top_left_corner, (RelativePosition::Top, _, true) => tbc.top_right_corner, (RelativePosition::Top, ..) => tbc.top_junction,
                            (RelativePosition::Other, true, _) => tbc.left_junction, (RelativePosition::Other, _, true) => tbc.right_junction, (RelativePosition::Other, ..) => tbc.cross,
                            (RelativePosition::Bottom, true, _) => tbc.bottom_left_corner, (RelativePosition::Bottom, _, true) => tbc.bottom_right_corner, (RelativePosition::Bottom, ..) => tbc.bottom_junction,
                        }],
                        _ => vec![],
                    };
                    if !exp.contains(&c) { return Err(format!("line {kk}: border {i} of the table isn't at column {col}: {:?}", vt.row_text(0))); }
                    if i < ncols { col += ws[i] + 1; }
                }
            }
        }
    }
    Ok(nt)
}
