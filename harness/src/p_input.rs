//! C08 to C11: the content of an input field seen as one string, and the field itself
use crate::g::G;
use crate::gen;
use crate::vt::Vt;
use crate::{Check, Kind, R};
use termimad::crossterm::{event::*, style::Attribute};
use termimad::verif_hooks::{InputFieldContent as Content, Pos};
use termimad::*;

pub fn checks() -> Vec<Check> {
    vec![
        Check { prop: "C08", name: "content_history", kind: Kind::Random(c08), weight: 1 },
        Check { prop: "C09", name: "edits", kind: Kind::Random(c09), weight: 1 },
        Check { prop: "C10", name: "del_selection", kind: Kind::Random(c10), weight: 2 },
        Check { prop: "C10", name: "cut_and_replace", kind: Kind::Random(c10_field), weight: 1 },
        Check { prop: "C11", name: "field_history", kind: Kind::Random(c11), weight: 1 },
    ]
}

fn ichar(g: &mut G) -> char {
    match g.below(20) {
        0 | 1 => '\t',
        2 | 3 => '_',
        _ => gen::char(g),
    }
}
fn any_char(g: &mut G) -> char {
    match g.below(12) { 0 | 1 => '\n', 2 => *g.pick(&['\r', '\u{8}']), _ => ichar(g) }
}
fn any_str(g: &mut G, max: usize) -> String { let n = g.small(max); (0..n).map(|_| any_char(g)).collect() }
fn lines_of(c: &Content) -> Vec<Vec<char>> { c.lines().iter().map(|l| l.chars.clone()).collect() }
fn flat(ls: &[Vec<char>]) -> Vec<char> {
    let mut v = Vec::new();
    for (i, l) in ls.iter().enumerate() { if i > 0 { v.push('\n'); } v.extend(l); }
    v
}
fn off(ls: &[Vec<char>], p: Pos) -> usize { ls[..p.y].iter().map(|l| l.len() + 1).sum::<usize>() + p.x }
fn pos_of(ls: &[Vec<char>], mut o: usize) -> Pos {
    for (y, l) in ls.iter().enumerate() { if o <= l.len() { return Pos { x: o, y }; } o -= l.len() + 1; }
    panic!("offset out of the text")
}
fn valid(ls: &[Vec<char>], p: Pos) -> bool { p.y < ls.len() && p.x <= ls[p.y].len() }
fn cw(c: char) -> usize { if c == '\t' { TAB_REPLACEMENT.len() } else { gen::cw(c) } }

fn sane(c: &Content) -> Result<(), String> {
    let ls = lines_of(c);
    if ls.is_empty() { return Err("there's no line".into()); }
    if c.line_count() != ls.len() { return Err("line_count is wrong".into()); }
    if !valid(&ls, c.cursor_pos()) { return Err(format!("the cursor {:?} isn't in the content {ls:?}", c.cursor_pos())); }
    let s = c.selection();
    if !valid(&ls, s.min) || !valid(&ls, s.max) { return Err(format!("the selection {s:?} isn't in the content {ls:?}")); }
    if s.min > s.max { return Err(format!("selection {s:?} isn't ordered")); }
    if s.min != c.cursor_pos() && s.max != c.cursor_pos() { return Err(format!("the cursor {:?} isn't an end of the selection {s:?}", c.cursor_pos())); }
    if !c.has_selection() && s.min != s.max { return Err("a selection while there's none".into()); }
    if c.has_wide_selection() != (s.min != s.max) { return Err("has_wide_selection is wrong".into()); }
    if ls.iter().flatten().any(|c| matches!(c, '\n' | '\r' | '\u{8}')) { return Err(format!("a line break, carriage return or backspace in a line of {ls:?}")); }
    if c.to_string() != flat(&ls).into_iter().collect::<String>() { return Err("to_string isn't the lines".into()); }
    Ok(())
}

/// a content in any reachable state: text, cursor, selection
fn content(g: &mut G) -> Content {
    let mut c = if g.chance(10) { Content::default() } else { let s = any_str(g, 24); Content::from(s) };
    place(g, &mut c);
    c
}
fn place(g: &mut G, c: &mut Content) {
    let n = c.line_count();
    let pos = |g: &mut G, c: &Content| {
        if g.chance(8) { return Pos { x: g.small(30), y: g.small(n + 2) }; }
        let y = g.below(n);
        let l = c.lines()[y].chars.len();
        let x = match g.below(4) { 0 => 0, 1 => l, _ => g.below(l + 1) };
        Pos { x, y }
    };
    let p = pos(g, c);
    c.set_cursor_pos(p);
    match g.below(4) {
        0 => c.unselect(),
        1 => { let p = pos(g, c); c.set_selection_tail(p); }
        2 => { c.make_selection(); let p = pos(g, c); c.set_cursor_pos(p); }
        _ => {}
    }
}
fn desc(c: &Content) -> String { format!("text {:?}, cursor {:?}, selection {}", c.to_string(), c.cursor_pos(), if c.has_selection() { format!("{:?}", c.selection()) } else { "none".into() }) }

#[derive(Clone, Debug)]
enum Op {
    SetCursor(Pos), SetTail(Pos), MakeSel, Unselect, SelectWord, Clear, SetStr(String), InsertStr(String), InsertChar(char), NewLine, Push(char),
    DelLeft, DelBelow, DelSel, DelWordLeft, DelWordRight, Swap(usize, usize), LineUp, LineDown,
    Left, Right, Up, Down, LinesUp(usize), LinesDown(usize), Start, End, LineStart, LineEnd, WordLeft, WordRight,
}
fn op(g: &mut G, c: &Content) -> Op {
    let n = c.line_count();
    let mut pos = |g: &mut G| Pos { x: g.small(20), y: if g.chance(4) { g.small(n + 3) } else { g.below(n) } };
    match g.below(31) {
        0 => Op::SetCursor(pos(g)), 1 => Op::SetTail(pos(g)), 2 => Op::MakeSel, 3 => Op::Unselect, 4 => Op::SelectWord,
        5 => Op::Clear, 6 => Op::SetStr(any_str(g, 12)), 7 => Op::InsertStr(any_str(g, 12)), 8 => Op::InsertChar(any_char(g)), 9 => Op::NewLine, 10 => Op::Push(any_char(g)),
        11 => Op::DelLeft, 12 => Op::DelBelow, 13 => Op::DelSel, 14 => Op::DelWordLeft, 15 => Op::DelWordRight,
        16 => { let a = g.small(n + 1); let b = g.small(n + 1); Op::Swap(a, b) }
        17 => Op::LineUp, 18 => Op::LineDown, 19 => Op::Left, 20 => Op::Right, 21 => Op::Up, 22 => Op::Down,
        23 => Op::LinesUp(if g.chance(6) { usize::MAX } else { g.small(6) }), 24 => Op::LinesDown(if g.chance(6) { usize::MAX } else { g.small(6) }),
        25 => Op::Start, 26 => Op::End, 27 => Op::LineStart, 28 => Op::LineEnd, 29 => Op::WordLeft, _ => Op::WordRight,
    }
}
/// returns the boolean answer, if any
fn apply(c: &mut Content, o: &Op) -> Option<bool> {
    match o {
        Op::SetCursor(p) => { c.set_cursor_pos(*p); None } Op::SetTail(p) => { c.set_selection_tail(*p); None }
        Op::MakeSel => { c.make_selection(); None } Op::Unselect => { c.unselect(); None } Op::SelectWord => Some(c.select_word_around()),
        Op::Clear => { c.clear(); None } Op::SetStr(s) => { c.set_str(s); None } Op::InsertStr(s) => { c.insert_str(s); None }
        Op::InsertChar(ch) => { c.insert_char(*ch); None } Op::NewLine => { c.insert_new_line(); None } Op::Push(ch) => { c.push_char(*ch); None }
        Op::DelLeft => Some(c.del_char_left()), Op::DelBelow => Some(c.del_char_below()), Op::DelSel => Some(c.del_selection()),
        Op::DelWordLeft => Some(c.del_word_left()), Op::DelWordRight => Some(c.del_word_right()),
        Op::Swap(a, b) => Some(c.swap_lines(*a, *b)), Op::LineUp => Some(c.move_current_line_up()), Op::LineDown => Some(c.move_current_line_down()),
        Op::Left => Some(c.move_left()), Op::Right => Some(c.move_right()), Op::Up => Some(c.move_up()), Op::Down => Some(c.move_down()),
        Op::LinesUp(n) => Some(c.move_lines_up(*n)), Op::LinesDown(n) => Some(c.move_lines_down(*n)),
        Op::Start => Some(c.move_to_start()), Op::End => Some(c.move_to_end()), Op::LineStart => Some(c.move_to_line_start()), Op::LineEnd => Some(c.move_to_line_end()),
        Op::WordLeft => Some(c.move_word_left()), Op::WordRight => Some(c.move_word_right()),
    }
}
fn is_move(o: &Op) -> bool {
    matches!(o, Op::Left | Op::Right | Op::Up | Op::Down | Op::LinesUp(_) | Op::LinesDown(_) | Op::Start | Op::End | Op::LineStart | Op::LineEnd | Op::WordLeft | Op::WordRight)
}

fn c08(g: &mut G) -> R {
    let mut c = content(g);
    sane(&c).map_err(|e| format!("initially: {e}"))?;
    let d = desc(&c);
    g.note(|| d);
    let n = g.range(1, 12);
    for _ in 0..n {
        let o = op(g, &c);
        let od = format!("{o:?}");
        g.note(|| od);
        let before = lines_of(&c);
        let p0 = c.cursor_pos();
        let can = (c.can_move_left(), c.can_move_right());
        let r = apply(&mut c, &o);
        sane(&c).map_err(|e| format!("after {o:?}: {e}"))?;
        let p1 = c.cursor_pos();
        if is_move(&o) {
            if lines_of(&c) != before { return Err(format!("{o:?} changed the text")); }
            if r != Some(p0 != p1) { return Err(format!("{o:?} returned {r:?}, the cursor going from {p0:?} to {p1:?}")); }
            if let Op::Left = o { if r != Some(can.0) { return Err("can_move_left is wrong".into()); } }
            if let Op::Right = o { if r != Some(can.1) { return Err("can_move_right is wrong".into()); } }
            let o0 = off(&before, p0); let o1 = off(&before, p1); let total = flat(&before).len();
            let ok = match &o {
                Op::Left => o1 == o0.saturating_sub(1),
                Op::Right => o1 == (o0 + 1).min(total),
                Op::Start => o1 == 0,
                Op::End => o1 == total,
                Op::LineStart => p1 == Pos { x: 0, y: p0.y },
                Op::LineEnd => p1 == Pos { x: before[p0.y].len(), y: p0.y },
                Op::WordLeft => p1.y == p0.y && p1.x <= p0.x,
                Op::WordRight => p1.y == p0.y && p1.x >= p0.x,
                Op::Up => p1.y == p0.y.saturating_sub(1),
                Op::Down => p1.y == (p0.y + 1).min(before.len() - 1),
                Op::LinesUp(n) => p1.y == p0.y.saturating_sub(*n),
                Op::LinesDown(n) => p1.y == p0.y.saturating_add(*n).min(before.len() - 1),
                _ => true,
            };
            if !ok { return Err(format!("{o:?} moved the cursor from {p0:?} to {p1:?}")); }
        }
        if let Op::SetCursor(p) = &o {
            if valid(&before, *p) && p1 != *p { return Err(format!("cursor set at {p:?} is at {p1:?}")); }
            if lines_of(&c) != before { return Err(format!("{o:?} changed the text")); }
        }
        if let Op::SetTail(p) = &o {
            let s = c.selection();
            if valid(&before, *p) && s.min != *p && s.max != *p { return Err(format!("selection tail set at {p:?} gives {s:?}")); }
            if p0 != p1 { return Err("setting the selection's tail moved the cursor".into()); }
        }
        if matches!(o, Op::SetTail(_) | Op::MakeSel | Op::Unselect | Op::SelectWord) && lines_of(&c) != before { return Err(format!("{o:?} changed the text")); }
        if let Op::Clear = o { if !c.is_empty() || c.has_selection() || p1 != (Pos { x: 0, y: 0 }) { return Err("clear left something".into()); } }
        // any position
        let p = Pos { x: g.small(40), y: g.small(12) };
        let v = c.make_valid_pos(p);
        let ls = lines_of(&c);
        if !valid(&ls, v) || (valid(&ls, p) && v != p) { return Err(format!("make_valid_pos({p:?}) is {v:?}")); }
    }
    Ok(n > 2)
}

fn c09(g: &mut G) -> R {
    let mut c = content(g);
    let d = desc(&c);
    g.note(|| d);
    for _ in 0..g.range(1, 4) {
        let o = match g.below(16) {
            0..=2 => Op::InsertChar(any_char(g)), 3 => Op::InsertStr(any_str(g, 12)), 4 => Op::NewLine,
            5 | 6 => Op::DelLeft, 7 | 8 => Op::DelBelow, 9 => Op::DelWordLeft, 10 | 11 => Op::DelWordRight,
            12 => Op::LineUp, 13 => Op::LineDown, 14 => { let n = c.line_count(); let a = g.small(n + 1); let b = g.small(n + 1); Op::Swap(a, b) }
            _ => Op::SetStr(if g.chance(3) { c.to_string() } else { any_str(g, 12) }),
        };
        let od = format!("{} then {o:?}", desc(&c));
        g.note(|| od);
        let ls0 = lines_of(&c);
        let p0 = c.cursor_pos();
        let f0 = flat(&ls0);
        let o0 = off(&ls0, p0);
        let r = apply(&mut c, &o);
        sane(&c)?;
        let ls1 = lines_of(&c);
        let p1 = c.cursor_pos();
        let f1 = flat(&ls1);
        let o1 = off(&ls1, p1);
        let err = |m: String| Err(format!("{m}: {o:?} on {:?} with cursor {p0:?} gives {:?} with cursor {p1:?}, returning {r:?}", f0.iter().collect::<String>(), f1.iter().collect::<String>()));
        let skipped = |c: char| c == '\r' || c == '\u{8}';
        match &o {
            Op::InsertChar(_) | Op::InsertStr(_) | Op::NewLine => {
                let ins: Vec<char> = match &o { Op::InsertChar(c) => vec![*c], Op::InsertStr(s) => s.chars().collect(), _ => vec!['\n'] }.into_iter().filter(|c| !skipped(*c)).collect();
                let mut e = f0.clone();
                e.splice(o0..o0, ins.iter().copied());
                if f1 != e || o1 != o0 + ins.len() { return err("wrong insertion".into()); }
            }
            Op::DelLeft => {
                let mut e = f0.clone();
                if o0 > 0 { e.remove(o0 - 1); }
                if f1 != e || o1 != o0.saturating_sub(1) || r != Some(o0 > 0) { return err("wrong backward deletion".into()); }
            }
            Op::DelBelow => {
                let mut e = f0.clone();
                let last_empty = ls0.len() > 1 && p0.y == ls0.len() - 1 && ls0[p0.y].is_empty();
                let mut eo = o0;
                if last_empty { e.remove(o0 - 1); eo = o0 - 1; } else if o0 < e.len() { e.remove(o0); }
                if f1 != e || o1 != eo || r != Some(e != f0) { return err("wrong forward deletion".into()); }
            }
            Op::DelWordLeft => {
                let n = f0.len() as i64 - f1.len() as i64;
                let bol = o0 - p0.x;
                if n < 0 || (p0.x > 0) != (n > 0) || r != Some(p0.x > 0) || o0 < n as usize || o0 - (n as usize) < bol { return err("wrong deletion of a word".into()); }
                let mut e = f0.clone();
                e.drain(o0 - n as usize..o0);
                if f1 != e || o1 != o0 - n as usize { return err("wrong deletion of a word".into()); }
            }
            Op::DelWordRight => {
                let n = f0.len() as i64 - f1.len() as i64;
                let rest = ls0[p0.y].len() - p0.x;
                if n < 0 || n as usize > rest || (n > 0) != (rest > 0) { return err("wrong deletion of a word".into()); }
                let mut e = f0.clone();
                e.drain(o0..o0 + n as usize);
                if f1 != e { return err("wrong deletion of a word".into()); }
                if !(p1 == p0 || (p0.x > 0 && n as usize == rest && p1 == Pos { x: p0.x - 1, y: p0.y })) { return err("wrong cursor after deletion of a word".into()); }
                if r != Some(f0 != f1 || p0 != p1) { return err("wrong answer of the deletion of a word".into()); }
            }
            Op::LineUp | Op::LineDown | Op::Swap(..) => {
                let (a, b) = match &o { Op::LineUp => (p0.y, p0.y.wrapping_sub(1)), Op::LineDown => (p0.y, p0.y + 1), Op::Swap(a, b) => (*a, *b), _ => (0, 0) };
                let ok = a != b && a < ls0.len() && b < ls0.len();
                let mut e = ls0.clone();
                if ok { e.swap(a, b); }
                if ls1 != e || r != Some(ok) { return err("wrong swap of lines".into()); }
                let ep = if ok && !matches!(o, Op::Swap(..)) { Pos { x: p0.x, y: b } } else if ok && matches!(o, Op::Swap(..)) { Pos { x: p0.x.min(e[p0.y].len()), y: p0.y } } else { p0 };
                if p1 != ep && !(matches!(o, Op::Swap(..))) {
                    // the cursor stays on the moved line
                    if p1.y != ep.y || p1.x > p0.x { return err("the cursor isn't on the moved line".into()); }
                }
            }
            Op::SetStr(s) => {
                let e: Vec<char> = s.chars().filter(|c| !skipped(*c)).collect();
                if f1 != e { return err("set_str doesn't set the string".into()); }
                if !s.chars().any(skipped) {
                    if !c.is_str(s) { return err("is_str is false after set_str".into()); }
                    let same = f0 == e;
                    if same && p0 != p1 { return err("set_str with the same string moved the cursor".into()); }
                    if !same && o1 != f1.len() { return err("set_str doesn't put the cursor at the end".into()); }
                }
                let other = any_str(g, 3);
                if c.is_str(&other) != (f1.iter().collect::<String>() == other) { return err(format!("is_str({other:?}) is wrong")); }
                let c2 = Content::from(s);
                if flat(&lines_of(&c2)) != e || off(&lines_of(&c2), c2.cursor_pos()) != e.len() { return err("from is wrong".into()); }
            }
            _ => {}
        }
    }
    Ok(true)
}

/// the text of the selection, both ends included
fn selected(f: &[char], a: usize, b: usize) -> Vec<char> { f[a..(b + 1).min(f.len())].to_vec() }

fn c10(g: &mut G) -> R {
    let mut c = content(g);
    if g.chance(3) { place(g, &mut c); }
    let d = desc(&c);
    g.note(|| d.clone());
    let ls0 = lines_of(&c);
    let f0 = flat(&ls0);
    let s = c.selection();
    let (a, b) = (off(&ls0, s.min), off(&ls0, s.max));
    let sel = c.selection_string();
    let es: String = selected(&f0, a, b).into_iter().collect();
    if sel != es { return Err(format!("{d}: the selection string is {sel:?} instead of {es:?}")); }
    let mut other = c.clone();
    let r = c.del_selection();
    sane(&c)?;
    let f1 = flat(&lines_of(&c));
    if a == b {
        let r2 = other.del_char_below();
        if f1 != flat(&lines_of(&other)) || r != r2 || c.cursor_pos() != other.cursor_pos() { return Err(format!("{d}: the removal isn't the one of the character under the cursor")); }
        return Ok(f0.len() > 2);
    }
    let mut e = f0.clone();
    e.drain(a..(b + 1).min(f0.len()));
    if f1 != e { return Err(format!("{d}: removing the selection gives {:?} instead of {:?}", f1.iter().collect::<String>(), e.iter().collect::<String>())); }
    if c.cursor_pos() != s.min { return Err(format!("{d}: the cursor is at {:?} after the removal", c.cursor_pos())); }
    if c.has_selection() { return Err(format!("{d}: there's still a selection after the removal")); }
    if !r { return Err(format!("{d}: del_selection returned false")); }
    c.insert_str(&sel);
    if flat(&lines_of(&c)) != f0 { return Err(format!("{d}: inserting back gives {:?}", c.to_string())); }
    Ok(true)
}

fn field(g: &mut G) -> InputField {
    let mut f = InputField::new(area(g));
    if g.bool() { f.new_line_on(InputField::ENTER); }
    if g.chance(6) { f.password_mode = true; }
    if g.chance(6) { f.set_focus(false); }
    if g.chance(4) { let (mut a, mut b) = (gen::cstyle(g), gen::cstyle(g)); a.remove_attr(Attribute::Reverse); b.remove_attr(Attribute::Reverse); f.set_normal_style(a); f.set_unfocused_style(b); }
    f
}
fn area(g: &mut G) -> Area {
    let (l, t) = (g.below(5) as u16, g.below(5) as u16);
    let w = if g.bool() { g.range(1, 9) } else { g.range(3, 40) };
    let h = if g.bool() { g.range(1, 6) } else { g.range(1, 12) };
    Area::new(l, t, w as u16, h as u16)
}
fn key(code: KeyCode, shift: bool) -> KeyEvent { KeyEvent::new(code, if shift { KeyModifiers::SHIFT } else { KeyModifiers::NONE }) }
/// play one random event or operation; true if it's one which may be about the cursor or the text
fn field_op(g: &mut G, f: &mut InputField) -> String {
    let codes = [KeyCode::Home, KeyCode::End, KeyCode::Up, KeyCode::Down, KeyCode::Left, KeyCode::Right, KeyCode::PageUp, KeyCode::PageDown, KeyCode::Backspace, KeyCode::Delete, KeyCode::Enter, KeyCode::Esc];
    match g.below(32) {
        0..=7 => {
            let code = *g.pick(&codes);
            let shift = g.chance(3);
            match g.below(4) {
                0 => { f.apply_key_event(key(code, shift)); }
                1 => { f.apply_event(&Event::Key(key(code, shift)), false); }
                2 => { f.apply_timed_event(&TimedEvent::new(Event::Key(key(code, shift)))); }
                _ => { f.apply_keycode_event(code, shift); }
            }
            format!("key {code:?} shift={shift}")
        }
        8..=10 => { let c = any_char(g); f.apply_keycode_event(KeyCode::Char(c), false); format!("key char {c:?}") }
        11 => { let c = any_char(g); f.put_char(c); format!("put_char {c:?}") }
        12 => { let s = any_str(g, 30); f.insert_str(&s); format!("insert_str {s:?}") }
        13 => { let s = any_str(g, 60); f.set_str(&s); format!("set_str {s:?}") }
        14 => { let s = any_str(g, 10); f.replace_selection(&s); format!("replace_selection {s:?}") }
        15 => { let s = f.cut_selection(); format!("cut_selection {s:?}") }
        16 => { f.insert_new_line(); "insert_new_line".into() }
        17 => { let a = area(g); f.set_area(a.clone()); format!("set_area {a:?}") }
        18 => { let a = area(g); f.change_area(a.left, a.top, a.width); format!("change_area {} {} {}", a.left, a.top, a.width) }
        19 => { let b = g.below(3) > 0; f.set_focus(b); format!("set_focus {b}") }
        20..=24 => {
            let a = f.area().clone();
            let column = a.left + g.below(a.width as usize + 1) as u16;
            let row = a.top + g.below(a.height as usize + 1) as u16;
            let kind = *g.pick(&[MouseEventKind::Down(MouseButton::Left), MouseEventKind::Up(MouseButton::Left), MouseEventKind::Drag(MouseButton::Left), MouseEventKind::ScrollDown, MouseEventKind::ScrollUp]);
            let modifiers = if g.chance(4) { KeyModifiers::SHIFT } else { KeyModifiers::NONE };
            let dc = g.bool();
            f.apply_event(&Event::Mouse(MouseEvent { kind, column, row, modifiers }), dc);
            format!("mouse {kind:?} at {column},{row} {modifiers:?} double={dc}")
        }
        25 => { let (x, y) = (g.below(45) as u16, g.below(16) as u16); f.apply_click_event(x, y); format!("click {x},{y}") }
        26 => { if g.bool() { f.scroll_up(); "scroll_up".into() } else { f.scroll_down(); "scroll_down".into() } }
        27 => { f.clear(); "clear".into() }
        n => {
            let ops: &[(&str, fn(&mut InputField) -> bool)] = &[
                ("move_up", InputField::move_up), ("move_down", InputField::move_down), ("move_left", InputField::move_left), ("move_right", InputField::move_right),
                ("move_to_start", InputField::move_to_start), ("move_to_end", InputField::move_to_end), ("move_to_line_start", InputField::move_to_line_start), ("move_to_line_end", InputField::move_to_line_end),
                ("move_word_left", InputField::move_word_left), ("move_word_right", InputField::move_word_right), ("del_char_below", InputField::del_char_below), ("del_selection", InputField::del_selection),
                ("del_char_left", InputField::del_char_left), ("del_word_left", InputField::del_word_left), ("del_word_right", InputField::del_word_right),
                ("move_current_line_up", InputField::move_current_line_up), ("move_current_line_down", InputField::move_current_line_down), ("select_word_around", InputField::select_word_around),
                ("page_up", InputField::page_up), ("page_down", InputField::page_down)];
            let o = &ops[(n as usize - 28 + g.below(ops.len())) % ops.len()];
            (o.1)(f);
            o.0.into()
        }
    }
}

fn c10_field(g: &mut G) -> R {
    let mut f = field(g);
    f.set_focus(true);
    f.set_str(any_str(g, 40));
    for _ in 0..g.below(8) {
        let op = field_op(g, &mut f);
        g.note(|| op);
    }
    let c = f.content().clone();
    let d = desc(&c);
    g.note(|| d.clone());
    let ls0 = lines_of(&c);
    let f0 = flat(&ls0);
    let s = c.selection();
    let (a, b) = (off(&ls0, s.min), off(&ls0, s.max));
    let es: String = selected(&f0, a, b).into_iter().collect();
    let copied = f.copy_selection();
    if copied != es { return Err(format!("{d}: copied {copied:?} instead of {es:?}")); }
    if f.get_content() != c.to_string() { return Err("copying changed the content".into()); }
    let wide = a != b;
    let which = g.below(5);
    match which {
        0 => {
            let s = any_str(g, 8);
            f.replace_selection(&s);
            let s: Vec<char> = s.chars().filter(|c| !matches!(c, '\r' | '\u{8}')).collect();
            let mut e = f0.clone();
            e.splice(a..(if wide { (b + 1).min(f0.len()) } else { a }), s.iter().copied());
            let at = if wide { a } else { off(&ls0, c.cursor_pos()) };
            let e: String = e.into_iter().collect();
            if f.get_content() != e { return Err(format!("{d}: replacing with {s:?} gives {:?}", f.get_content())); }
            let ls = lines_of(f.content());
            if f.content().cursor_pos() != pos_of(&ls, at + s.len()) { return Err(format!("{d}: wrong cursor after replacing")); }
        }
        _ => {
            let mut other = c.clone();
            let del = match which {
                1 => { let cut = f.cut_selection(); if cut != es { return Err(format!("{d}: cut {cut:?} instead of {es:?}")); } "cut_selection" }
                2 => { f.del_selection(); "del_selection" }
                3 if wide => { f.set_focus(true); f.apply_keycode_event(KeyCode::Backspace, false); "backspace" }
                _ => { f.set_focus(true); f.apply_keycode_event(KeyCode::Delete, false); "delete" }
            };
            if wide {
                let mut e = f0.clone();
                e.drain(a..(b + 1).min(f0.len()));
                let e: String = e.into_iter().collect();
                if f.get_content() != e { return Err(format!("{d}: {del} gives {:?}", f.get_content())); }
                if f.content().cursor_pos() != s.min || f.content().has_selection() { return Err(format!("{d}: wrong cursor or selection after {del}")); }
                f.insert_str(&es);
                if f.get_content() != c.to_string() { return Err(format!("{d}: inserting the cut string gives {:?}", f.get_content())); }
            } else {
                other.del_char_below();
                if f.get_content() != other.to_string() { return Err(format!("{d}: {del} of the cursor's char gives {:?}", f.get_content())); }
            }
        }
    }
    Ok(wide)
}

fn c11(g: &mut G) -> R {
    let mut f = field(g);
    g.note(|| format!("area {:?}, focused {}, password {}", f.area(), f.focused(), f.password_mode));
    let n = g.range(1, 10);
    for _ in 0..n {
        let p0 = f.content().cursor_pos();
        let was = f.focused();
        let s0 = f.scroll();
        let op = field_op(g, &mut f);
        g.note(|| format!("{op} -> cursor {:?} scroll {:?}", f.content().cursor_pos(), f.scroll()));
        let c = f.content();
        sane(c).map_err(|e| format!("after {op}: {e}"))?;
        let h = f.area().height as usize;
        let p = c.cursor_pos();
        let s = f.scroll();
        if c.line_count() > h {
            if s.y + h > c.line_count() { return Err(format!("after {op}: scroll {} of {} lines in {h} rows leaves blank rows", s.y, c.line_count())); }
        } else if s.y != 0 { return Err(format!("after {op}: scroll {} while the {} lines fit in {h} rows", s.y, c.line_count())); }
        if f.focused() && (p != p0 || !was || op.starts_with("set_area")) && !(p.y >= s.y && p.y < s.y + h) {
            return Err(format!("after {op}: the cursor's line {} isn't visible (scroll {}, {h} rows)", p.y, s.y));
        }
        if op.starts_with("scroll_up") && (s.y != s0.y.saturating_sub(1) || p != p0) { return Err("wrong scroll_up".into()); }
        if op.starts_with("scroll_down") && (s.y < s0.y || s.y > s0.y + 1 || p != p0) { return Err("wrong scroll_down".into()); }
        draw(&f).map_err(|e| format!("after {op}: {e}"))?;
    }
    Ok(f.content().line_count() > 1 || f.content().lines()[0].chars.len() > 3)
}

fn draw(f: &InputField) -> Result<(), String> {
    let a = f.area();
    let (l, t, w, h) = (a.left as usize, a.top as usize, a.width as usize, a.height as usize);
    let mut buf = Vec::new();
    let cur = f.display_on(&mut buf).map_err(|e| format!("display_on failed: {e}"))?;
    let vt = Vt::run(&buf);
    vt.inside(l, t, w, h)?;
    for r in t..t + h {
        let e = vt.extent(r);
        if e != (l, l + w, w) { return Err(format!("row {r} drawn on columns {}..{} ({} cells) instead of {l}..{}", e.0, e.1, e.2, l + w)); }
    }
    if vt.writes.iter().filter(|x| cw(x.2) > 0).map(|x| cw(x.2)).sum::<usize>() != w * h { return Err("cells written several times".into()); }
    let c = f.content();
    let n = c.line_count();
    let bar = n > h;
    let tw = if bar { w - 1 } else { w };
    let s = f.scroll();
    let sel = c.selection();
    if let Some((x, y)) = cur {
        if !a.contains(x, y) { return Err(format!("the terminal cursor {x},{y} is outside of the area")); }
        if bar && x as usize == l + tw { return Err("the terminal cursor is on the scrollbar".into()); }
        if !f.focused() { return Err("there's a terminal cursor without focus".into()); }
    }
    for j in 0..h {
        let y = s.y + j;
        let row: Vec<char> = (0..tw).map(|x| vt.cells[&(t + j, l + x)].c).collect();
        if y >= n {
            if row.iter().any(|c| *c != ' ') { return Err(format!("row {j}, below the text, shows {row:?}")); }
            continue;
        }
        let chars = &c.lines()[y].chars;
        if f.password_mode {
            for x in &row { if !['*', ' ', '…'].contains(x) { return Err(format!("a password shows {x:?}")); } }
        }
        // positions are checked for one-column characters only
        if chars.iter().any(|c| gen::cw(*c) != 1 || *c == '\t') { continue; }
        let ell = s.x > 0 && tw > 4;
        let x0 = s.x;
        let at_end = f.focused() && sel_cursor(f) == (chars.len(), y);
        for k in 0..tw {
            let i = x0 + k;
            let got = row[k];
            let expected = if k == 0 && ell { '…' }
                else if k == tw - 1 && i + 1 < chars.len() { '…' }
                else if i < chars.len() { if f.password_mode { '*' } else { chars[i] } }
                else { ' ' };
            if got != expected { return Err(format!("row {j} column {k} shows {got:?} instead of {expected:?} (line {:?}, scroll {s:?}, width {tw})", chars.iter().collect::<String>())); }
            // the cursor and the selection are displayed reversed
            if !(k == 0 && ell) && x0 + ell as usize <= chars.len() {
                let reversed = vt.cells[&(t + j, l + k)].sgr.attrs.contains("7");
                let expect = f.focused() && ((i < chars.len() && sel.contains(i, y)) || (i == chars.len() && at_end));
                if reversed != expect { return Err(format!("row {j} column {k}: selected is {expect} but reversed is {reversed} ({:?}, selection {sel:?})", chars.iter().collect::<String>())); }
            }
        }
    }
    if f.focused() && !c.has_wide_selection() {
        let p = c.cursor_pos();
        if p.y >= s.y && p.y < s.y + h {
            let chars = &c.lines()[p.y].chars;
            if chars.iter().all(|c| gen::cw(*c) == 1 && *c != '\t') && p.x >= s.x + (s.x > 0 && tw > 4) as usize && p.x < s.x + tw {
                let e = ((l + p.x - s.x) as u16, (t + p.y - s.y) as u16);
                if cur != Some(e) { return Err(format!("the terminal cursor is {cur:?} instead of {e:?}")); }
            }
        }
    }
    Ok(())
}
fn sel_cursor(f: &InputField) -> (usize, usize) { let p = f.content().cursor_pos(); (p.x, p.y) }
