//! C12: scrollable texts, C15: list views
use crate::g::G;
use crate::gen;
use crate::p_draw::check_thumb;
use crate::vt::Vt;
use crate::{Check, Kind, R};
use std::cell::RefCell;
use std::cmp::Ordering;
use std::rc::Rc;
use termimad::crossterm::event::*;
use termimad::*;

pub fn checks() -> Vec<Check> {
    vec![
        Check { prop: "C12", name: "text_view", kind: Kind::Random(text_view), weight: 2 },
        Check { prop: "C12", name: "mad_view", kind: Kind::Random(mad_view), weight: 1 },
        Check { prop: "C15", name: "list_history", kind: Kind::Random(list_view), weight: 1 },
    ]
}

fn pos(g: &mut G) -> (u16, u16) { if g.chance(4) { (0, 0) } else { (g.below(6) as u16, g.below(6) as u16) } }
fn clamp(v: i128, max: usize) -> usize { v.clamp(0, max as i128) as usize }
fn amount(g: &mut G) -> i32 {
    match g.below(8) { 0 => i32::MIN, 1 => i32::MAX, 2 => 0, 3 => g.u64() as i32, 4 | 5 => -(g.small(30) as i32), _ => g.small(30) as i32 }
}
#[derive(Debug)]
enum Op { Set(usize), Lines(i32), Pages(f64), LineUp, LineDown, PageUp, PageDown, Key(KeyCode, bool) }
fn op(g: &mut G) -> Op {
    match g.below(9) {
        0 => Op::Set(if g.chance(5) { usize::MAX } else { g.small(60) }),
        1 | 2 => Op::Lines(amount(g)),
        3 => Op::Pages(match g.below(5) { 0 => amount(g) as f64, 1 => *g.pick(&[0.5, -0.5, 0.1, -0.01, 1.5, -2.25, 1e300, -1e300]), _ => g.range(0, 6) as f64 - 3.0 }),
        4 => Op::LineUp, 5 => Op::LineDown, 6 => Op::PageUp, 7 => Op::PageDown,
        _ => { let c = *g.pick(&[KeyCode::Up, KeyCode::Down, KeyCode::PageUp, KeyCode::PageDown, KeyCode::Home, KeyCode::Char('a')]); Op::Key(c, g.chance(4)) }
    }
}
/// the new position, and whether the operation answers with a boolean
fn expected(op: &Op, s: usize, content: usize, h: usize) -> (usize, bool) {
    let max = content.saturating_sub(h);
    let (s_, h_) = (s as i128, h as i128);
    match op {
        Op::Set(n) => ((*n).min(max), false),
        Op::Lines(k) => (clamp(s_ + *k as i128, max), false),
        Op::Pages(p) => { let l = p * h as f64; let l = if l < 0.0 { l.floor() } else { l.ceil() } as i32; (clamp(s_ + l as i128, max), false) }
        Op::LineUp => (clamp(s_ - 1, max), true),
        Op::LineDown => (clamp(s_ + 1, max), true),
        Op::PageUp => (clamp(s_ - h_, max), true),
        Op::PageDown => (clamp(s_ + h_, max), true),
        Op::Key(_, true) => (s, true),
        Op::Key(c, false) => match c {
            KeyCode::Up => expected(&Op::LineUp, s, content, h), KeyCode::Down => expected(&Op::LineDown, s, content, h),
            KeyCode::PageUp => expected(&Op::PageUp, s, content, h), KeyCode::PageDown => expected(&Op::PageDown, s, content, h),
            _ => (s, true),
        },
    }
}
fn keyev(c: KeyCode, m: bool) -> KeyEvent { KeyEvent::new(c, if m { KeyModifiers::CONTROL } else { KeyModifiers::NONE }) }
fn source(g: &mut G) -> String {
    match g.below(4) {
        0 => gen::markdown(g, true),
        1 => { let n = g.small(80); (0..n).map(|i| format!("line {i}")).collect::<Vec<_>>().join("\n") }
        2 => { let n = g.small(12); (0..n).map(|_| gen::txt(g, 12)).collect::<Vec<_>>().join("\n") }
        _ => { let a = gen::markdown(g, true); let b = gen::markdown(g, false); format!("{a}\n{b}") }
    }
}
/// check the drawing of a text in an area at a given scroll
fn check_drawing(text: &FmtText, skin: &MadSkin, a: &Area, scroll: usize, bar: bool, bytes: &[u8]) -> Result<(), String> {
    let vt = Vt::run(bytes);
    if let Some(e) = vt.errors.first() { return Err(e.clone()); }
    let (l, t, w, h) = (a.left as usize, a.top as usize, a.width as usize, a.height as usize);
    let n = text.lines.len();
    let has_bar = bar && n > h;
    let tw = if has_bar { w - 1 } else { w };
    let mut fits = true;
    for j in 0..h {
        let mut lvt = Vt::default();
        if let Some(line) = text.lines.get(scroll + j) {
            lvt.feed(&format!("{}", DisplayableLine::new(skin, line, Some(tw))));
        } else {
            lvt.feed(&" ".repeat(tw));
        }
        let (_, lmax, lcount) = lvt.extent(0);
        if lmax > tw { fits = false; continue; }
        for x in 0..tw {
            let got = vt.cells.get(&(t + j, l + x)).map(|c| c.c);
            let exp = lvt.cells.get(&(0, x)).map(|c| c.c);
            if got != exp { return Err(format!("row {j} column {x} shows {got:?} instead of {exp:?} (scroll {scroll}, line {:?})", lvt.row_text(0))); }
        }
        let _ = lcount;
    }
    if fits {
        vt.inside(l, t, w, h)?;
        if vt.writes.len() > 0 && vt.writes.iter().filter(|x| gen::cw(x.2) > 0).map(|x| gen::cw(x.2)).sum::<usize>() != vt.cells.len() { return Err("cells written several times".into()); }
    }
    if has_bar {
        let thumb = a.scrollbar(scroll, n).ok_or("no scrollbar")?;
        check_thumb(scroll, n, h, t, Some((thumb.0 as usize, thumb.1 as usize)))?;
        for y in t..t + h {
            let cell = vt.cells.get(&(y, l + w - 1)).ok_or("a cell of the scrollbar isn't drawn")?;
            let in_thumb = y >= thumb.0 as usize && y <= thumb.1 as usize;
            let style = if in_thumb { skin.scrollbar.thumb.compound_style() } else { skin.scrollbar.track.compound_style() };
            let c = if in_thumb { skin.scrollbar.thumb.nude_char() } else { skin.scrollbar.track.nude_char() };
            if fits && (cell.c != c || cell.sgr != crate::p_style::sgr_of(style)) { return Err(format!("wrong scrollbar cell on row {y}, thumb being {thumb:?}")); }
        }
    }
    Ok(())
}

fn text_view(g: &mut G) -> R {
    let src = source(g);
    if !gen::parses(&src) { return Ok(false); }
    let skin = gen::skin(g);
    let (l, t) = pos(g);
    let area = Area::new(l, t, g.range(5, 40) as u16, if g.bool() { g.range(1, 6) } else { g.range(1, 50) } as u16);
    let text = if g.bool() { skin.area_text(&src, &area) } else { skin.text(&src, Some(area.width as usize - 1)) };
    let n = text.lines.len();
    let h = area.height as usize;
    let max = n.saturating_sub(h);
    let mut view = TextView::from(&area, &text);
    view.show_scrollbar = !g.chance(4);
    g.note(|| format!("source {src:?} in {area:?}: {n} lines"));
    if view.content_height() != n { return Err("content_height".into()); }
    if g.bool() { view.scroll = g.below(max + 1); }
    for _ in 0..g.range(1, 8) {
        let o = op(g);
        let s0 = view.scroll;
        let (e, answers) = expected(&o, s0, n, h);
        let r = match &o {
            Op::Set(k) => { let r = view.set_scroll(*k); if r != view.scroll { return Err(format!("set_scroll returned {r} for {}", view.scroll)); } None }
            Op::Lines(k) => { view.try_scroll_lines(*k); None }
            Op::Pages(p) => { view.try_scroll_pages(*p); None }
            Op::LineUp => Some(view.line_up()), Op::LineDown => Some(view.line_down()), Op::PageUp => Some(view.page_up()), Op::PageDown => Some(view.page_down()),
            Op::Key(c, m) => Some(view.apply_key_event(keyev(*c, *m))),
        };
        g.note(|| format!("{o:?} -> {}", view.scroll));
        if view.scroll != e { return Err(format!("{o:?} scrolls from {s0} to {} instead of {e} ({n} lines, {h} rows)", view.scroll)); }
        if answers && r != Some(e != s0) { return Err(format!("{o:?} returned {r:?}, scrolling from {s0} to {e}")); }
        if view.scrollbar().is_some() != (view.show_scrollbar && n > h) { return Err("presence of the scrollbar".into()); }
    }
    let mut buf = Vec::new();
    view.write_on(&mut buf).map_err(|e| e.to_string())?;
    check_drawing(&text, &skin, &area, view.scroll, view.show_scrollbar, &buf)?;
    if g.chance(4) {
        let mut buf = Vec::new();
        skin.write_in_area_on(&mut buf, &src, &area).map_err(|e| e.to_string())?;
        check_drawing(&skin.area_text(&src, &area), &skin, &area, 0, false, &buf)?;
    }
    Ok(max > 0)
}

fn mad_view(g: &mut G) -> R {
    let src = source(g);
    if !gen::parses(&src) { return Ok(false); }
    let skin = gen::skin(g);
    let area_of = |g: &mut G| { let (l, t) = pos(g); Area::new(l, t, g.range(5, 30) as u16, g.range(1, 12) as u16) };
    let mut area = area_of(g);
    g.note(|| format!("source {src:?} in {area:?}"));
    let mut view = MadView::from(src.clone(), area.clone(), skin.clone());
    let mut moved = false;
    for _ in 0..g.range(1, 8) {
        let n = skin.area_text(&src, &area).lines.len();
        let h = area.height as usize;
        let s0 = view.scroll;
        match g.below(4) {
            0 => {
                let mut new = area_of(g);
                if g.bool() { new.width = area.width; }
                if g.chance(4) { new = area.clone(); }
                view.resize(&new);
                g.note(|| format!("resize {new:?} -> {}", view.scroll));
                let n = skin.area_text(&src, &new).lines.len();
                if view.scroll > n.saturating_sub(new.height as usize) { return Err(format!("scroll {} of {n} lines in {} rows after a resize from {area:?} to {new:?}", view.scroll, new.height)); }
                if new.width == area.width && view.scroll != s0.min(n.saturating_sub(new.height as usize)) { return Err("the scroll isn't kept by a resize".into()); }
                area = new;
            }
            1 => { let k = amount(g); view.try_scroll_lines(k); let e = expected(&Op::Lines(k), s0, n, h).0; if view.scroll != e { return Err(format!("lines {k}: scroll from {s0} to {} instead of {e} ({n} lines, {h} rows)", view.scroll)); } }
            2 => { let k = amount(g); view.try_scroll_pages(k); let e = clamp(s0 as i128 + k as i128 * h as i128, n.saturating_sub(h)); if view.scroll != e { return Err(format!("pages {k}: scroll from {s0} to {} instead of {e} ({n} lines, {h} rows)", view.scroll)); } }
            _ => {
                let c = *g.pick(&[KeyCode::Up, KeyCode::Down, KeyCode::PageUp, KeyCode::PageDown, KeyCode::Home]); let m = g.chance(4);
                let r = view.apply_key_event(keyev(c, m));
                let (e, _) = expected(&Op::Key(c, m), s0, n, h);
                if view.scroll != e || r != (e != s0) { return Err(format!("key {c:?}: scroll from {s0} to {} instead of {e}, returning {r} ({n} lines, {h} rows)", view.scroll)); }
            }
        }
        moved |= view.scroll != s0;
    }
    let mut buf = Vec::new();
    view.write_on(&mut buf).map_err(|e| e.to_string())?;
    check_drawing(&skin.area_text(&src, &area), &skin, &area, view.scroll, true, &buf)?;
    Ok(moved)
}

type Item = (usize, usize); // id, value
fn filter_of(kind: usize) -> impl Fn(&Item) -> bool {
    move |i: &Item| match kind { 0 => i.1 % 2 == 0, 1 => i.1 > 4, 2 => false, 3 => i.1 < 3, 4 => i.0 % 5 == 0, _ => true }
}
fn cmp_of(kind: usize) -> impl Fn(&Item, &Item) -> Ordering {
    move |a: &Item, b: &Item| match kind { 0 => a.1.cmp(&b.1), 1 => b.1.cmp(&a.1), _ => Ordering::Equal }
}
fn list_view(g: &mut G) -> R {
    let skin = gen::skin(g);
    static STYLE: std::sync::LazyLock<CompoundStyle> = std::sync::LazyLock::new(CompoundStyle::default);
    let style: &'static CompoundStyle = &STYLE;
    let ncols = g.range(1, 5);
    let mut bounds = Vec::new();
    let mut cols = Vec::new();
    for c in 0..ncols {
        let min = if c == 0 { g.range(4, 8) } else { g.small(8) };
        let max = match g.below(4) { 0 => min, 1 => usize::MAX, _ => min + g.small(20) };
        bounds.push((min, max));
        let title = (*g.pick(&["id", "a", "b", "a longer title"])).to_string();
        let col = ListViewColumn::new(&title, min, max, Box::new(move |i: &Item| ListViewCell::new(if c == 0 { format!("{:03}", i.0) } else { format!("{}", i.1 * c) }, style)));
        cols.push(if c == 0 { col.with_align(Alignment::Left) } else { col });
    }
    let area_of = |g: &mut G| { let (l, t) = pos(g); Area::new(l, t, g.range(1, 60) as u16, if g.chance(6) { g.range(1, 3) } else { g.range(3, 14) } as u16) };
    let area = area_of(g);
    g.note(|| format!("area {area:?} columns {bounds:?}"));
    let mut list = ListView::new(area, cols, &skin);
    let mut rows: Vec<(Item, bool)> = Vec::new();
    let mut filter: Option<usize> = None;
    let mut order: Option<usize> = None;
    let mut sel: Option<usize> = None;
    let mut dims = false;
    let mut next_id = 0;
    let log: Rc<RefCell<Vec<String>>> = Default::default();
    let many = g.chance(2);
    let ops = g.range(1, 30);
    for _ in 0..ops {
        let what = g.below(16);
        let mut scrolled = false;
        match what {
            0..=3 => {
                for _ in 0..if many { g.range(1, 8) } else { 1 } {
                    let it = (next_id, g.below(10));
                    next_id += 1;
                    list.add_row(it);
                    rows.push((it, filter.map_or(true, |k| filter_of(k)(&it))));
                    if let Some(o) = order { rows.sort_by(|a, b| cmp_of(o)(&a.0, &b.0)); }
                    log.borrow_mut().push(format!("add {it:?}"));
                }
            }
            4 => { let k = g.below(6); list.set_filter(Box::new(filter_of(k))); filter = Some(k); for r in rows.iter_mut() { r.1 = filter_of(k)(&r.0); } log.borrow_mut().push(format!("filter {k}")); }
            5 => { list.remove_filter(); filter = None; for r in rows.iter_mut() { r.1 = true; } log.borrow_mut().push("remove filter".into()); }
            6 => { if g.chance(3) { list.clear_rows(); rows.clear(); sel = None; log.borrow_mut().push("clear".into()); } else if g.chance(2) { let k = g.below(3); list.sort(Box::new(cmp_of(k))); order = Some(k); log.borrow_mut().push(format!("sort {k}")); } }
            7 => { list.unselect(); sel = None; log.borrow_mut().push("unselect".into()); }
            8 | 9 => {
                let up = g.bool();
                list.try_select_next(up);
                log.borrow_mut().push(format!("select next up={up}"));
                let shown: Vec<usize> = (0..rows.len()).filter(|i| rows[*i].1).collect();
                let got = list.get_selection().map(|s| rows.iter().position(|r| r.0 .0 == s.0).unwrap());
                if !shown.is_empty() {
                    scrolled = true;
                    match sel {
                        Some(cur) => {
                            let n = rows.len();
                            let e = (1..=n).map(|d| if up { (cur + n - d) % n } else { (cur + d) % n }).find(|i| rows[*i].1);
                            if got != e { return fail(&log, format!("the selection is {got:?} instead of {e:?}, from {cur}")); }
                        }
                        None => if !got.map_or(false, |i| rows[i].1) { return fail(&log, format!("selected {got:?}, which isn't displayed")); }
                    }
                } else if got != sel { return fail(&log, "the selection changed while there's no displayed row".into()); }
                sel = got;
            }
            10 => { list.select_first_line(); sel = (0..rows.len()).find(|i| rows[*i].1); scrolled = sel.is_some(); log.borrow_mut().push("first".into()); }
            11 => { list.select_last_line(); sel = (0..rows.len()).rev().find(|i| rows[*i].1); scrolled = sel.is_some(); log.borrow_mut().push("last".into()); }
            12 => { let k = amount(g); list.try_scroll_lines(k); scrolled = true; log.borrow_mut().push(format!("scroll {k}")); }
            13 => { let k = amount(g); list.try_scroll_pages(k); scrolled = true; log.borrow_mut().push(format!("pages {k}")); }
            14 => { list.scroll_to_bottom(); log.borrow_mut().push("bottom".into()); if !list.do_scroll_show_bottom() { return fail(&log, "the bottom isn't shown".into()); } }
            _ => {
                if g.bool() { list.area = area_of(g); }
                list.update_dimensions();
                dims = true;
                log.borrow_mut().push(format!("dimensions {:?}", list.area));
            }
        }
        // counts and selection
        let shown: Vec<usize> = (0..rows.len()).filter(|i| rows[*i].1).collect();
        if list.row_counts() != (shown.len(), rows.len()) { return fail(&log, format!("row_counts is {:?} instead of {:?}", list.row_counts(), (shown.len(), rows.len()))); }
        let got = list.get_selection().copied();
        if list.has_selection() != got.is_some() { return fail(&log, "has_selection".into()); }
        match (got, sel) {
            (None, None) => {}
            (Some(a), Some(b)) if rows[b].0 == a => {}
            _ => return fail(&log, format!("selection is {got:?} instead of row {sel:?}")),
        }
        let h = list.area.height as usize;
        let body = if h > 2 { h - 2 } else { h };
        if list.tbody_height() as usize != body { return fail(&log, "tbody_height".into()); }
        // drawing
        let mut buf = Vec::new();
        list.write_on(&mut buf).map_err(|e| e.to_string())?;
        let vt = Vt::run(&buf);
        if let Some(e) = vt.errors.first() { return fail(&log, e.clone()); }
        let a = &list.area;
        let (l, t, w) = (a.left as usize, a.top as usize, a.width as usize);
        // columns, from the separator line
        let room = bounds.iter().map(|b| b.0).sum::<usize>() + ncols <= w;
        let has_bar = shown.len() > body;
        if list.scrollbar().is_some() != has_bar { return fail(&log, "presence of a scrollbar".into()); }
        if !room { continue; }
        if h < 3 { continue; }
        let sep = vt.row_text(t + 1);
        let widths: Vec<usize> = sep.chars().skip(l).collect::<String>().split(['┼', '┬']).map(|s| s.chars().count()).collect();
        if widths.len() != ncols { return fail(&log, format!("{} columns in {sep:?}", widths.len())); }
        let total = widths.iter().sum::<usize>() + ncols;
        for (wd, (min, max)) in widths.iter().zip(&bounds) {
            if wd < min || wd > max { return fail(&log, format!("a column is {wd} wide, out of {min}..={max}")); }
        }
        if dims && what == 15 && total > w { return fail(&log, format!("the columns {widths:?} don't fit {w}")); }
        if total > w { continue; } // the dimensions were computed for another area
        vt.inside(l, t, w, h).or_else(|e| fail(&log, e).map(|_| ()))?;
        let mut ids = Vec::new();
        let mut blank = false;
        for y in t + 2..t + h {
            let row: String = (0..widths[0]).filter_map(|x| vt.cells.get(&(y, l + x)).map(|c| c.c)).collect();
            if row.is_empty() { blank = true; continue; }
            if blank { return fail(&log, "a row after a blank one".into()); }
            match row.trim().parse::<usize>() { Ok(id) => ids.push(id), Err(_) => return fail(&log, format!("unexpected row {row:?}")) }
            let filled = (0..total - 1).filter(|x| vt.cells.contains_key(&(y, l + x))).count();
            if filled != total - 1 { return fail(&log, format!("a row of {filled} columns instead of {}", total - 1)); }
            let text = vt.row_text(y);
            let cells: Vec<char> = text.chars().skip(l).collect();
            let mut x = 0;
            for wd in &widths[..ncols - 1] { x += wd; if cells[x] != '│' { return fail(&log, format!("no separator at column {x} of {text:?}")); } x += 1; }
        }
        let all: Vec<usize> = shown.iter().map(|i| rows[*i].0 .0).collect();
        if !ids.is_empty() {
            let from = match all.iter().position(|i| *i == ids[0]) { Some(f) => f, None => return fail(&log, format!("row {} is drawn but not displayed", ids[0])) };
            if all[from..(from + ids.len()).min(all.len())] != ids[..] { return fail(&log, format!("rows {ids:?} are drawn, displayed rows being {all:?}")); }
            if ids.len() < body && from + ids.len() != all.len() { return fail(&log, format!("only rows {ids:?} are drawn of {all:?}")); }
        }
        if scrolled && shown.len() == rows.len() && shown.len() > body && body >= 3 {
            if let Some(s) = sel { if !ids.contains(&rows[s].0 .0) { return fail(&log, format!("the selected row {} isn't drawn, only {ids:?}", rows[s].0 .0)); } }
        }
        if has_bar {
            let (a0, b0) = list.scrollbar().unwrap();
            for y in t + 2..t + h {
                let cell = match vt.cells.get(&(y, l + w - 1)) { Some(c) => c, None => return fail(&log, "the scrollbar isn't in the last column".into()) };
                let in_thumb = y - 2 >= a0 as usize && y - 2 <= b0 as usize;
                let style = if in_thumb { skin.scrollbar.thumb.compound_style() } else { skin.scrollbar.track.compound_style() };
                if cell.sgr != crate::p_style::sgr_of(style) { return fail(&log, format!("wrong scrollbar cell on row {y}, the thumb being {a0}..={b0}")); }
            }
            if (a0 as usize) < t || b0 as usize >= t + body || a0 > b0 { return fail(&log, "thumb out of the track".into()); }
        }
    }
    let l = log.borrow().join(", ");
    g.note(|| l);
    Ok(rows.len() > 2)
}
fn fail(log: &Rc<RefCell<Vec<String>>>, m: String) -> R { Err(format!("{m}; after {}", log.borrow().join(", "))) }
