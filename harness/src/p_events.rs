//! C19: event source (on a pseudo terminal, in a child process), C20: tickers
use crate::g::G;
use crate::{Check, Kind, R};
use std::io::{Read, Write};
use std::os::fd::{AsRawFd, FromRawFd};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};
use termimad::crossterm::event::*;
use termimad::*;

pub fn checks() -> Vec<Check> {
    vec![
        Check { prop: "C19", name: "source", kind: Kind::Random(source), weight: 4 },
        Check { prop: "C19", name: "clicks", kind: Kind::Random(clicks), weight: 1 },
        Check { prop: "C20", name: "ticks", kind: Kind::Random(ticks), weight: 1 },
        Check { prop: "C20", name: "stops", kind: Kind::Random(stops), weight: 2 },
    ]
}

// ------------------------------------------------------------------ C19
/// args: discard_raw discard_move discard_drag
pub fn child(args: &[String]) {
    // never left behind
    std::thread::spawn(|| { std::thread::sleep(Duration::from_secs(60)); std::process::exit(3) });
    let o = EventSourceOptions {
        combine_keys: false,
        mandate_modifier_for_multiple_keys: true,
        discard_raw_key_events: args[0] == "1",
        discard_mouse_move: args[1] == "1",
        discard_mouse_drag: args[2] == "1",
    };
    let source = match EventSource::with_options(o) { Ok(s) => s, Err(e) => { println!("ERROR {e}"); return; } };
    let (rx, rs, count) = (source.receiver(), source.escape_sequence_receiver(), source.shared_event_count());
    let out = std::io::stdout();
    let say = |s: String| { let mut o = out.lock(); let _ = writeln!(o, "{s}"); let _ = o.flush(); };
    say("READY".into());
    let base = Instant::now();
    let mut n = 0;
    while let Ok(te) = rx.recv() {
        n += 1;
        let end = matches!(te.event, Event::Key(KeyEvent { code: KeyCode::Char('Q'), .. }));
        while let Ok(s) = rs.try_recv() { say(format!("S {:?}", s.keys)); }
        let c = count.load(std::sync::atomic::Ordering::SeqCst);
        if c != n { say(format!("COUNT {c} {n}")); }
        // with a wait of the answer, no other event may come
        say(format!("E {} {} {:?} {:?}", te.time.saturating_duration_since(base).as_nanos(), te.double_click, te.event, te.key_combination.map(|k| k.to_string())));
        if !rx.is_empty() { say("EARLY".into()); }
        source.unblock(end);
        if end { break; }
    }
    // the thread is now ended: its end of the channel is dropped
    let closed = matches!(rx.recv_timeout(Duration::from_secs(10)), Err(e) if e.to_string().contains("disconnected"));
    say(format!("END {closed}"));
}
struct Pty { master: std::fs::File, slave: std::fs::File }
fn pty() -> Result<Pty, String> {
    unsafe {
        let m = libc::posix_openpt(libc::O_RDWR | libc::O_NOCTTY | libc::O_CLOEXEC);
        if m < 0 || libc::grantpt(m) != 0 || libc::unlockpt(m) != 0 { return Err("no pseudo terminal".into()); }
        let mut name = [0 as libc::c_char; 128];
        if libc::ptsname_r(m, name.as_mut_ptr(), 128) != 0 { return Err("no pseudo terminal".into()); }
        let s = libc::open(name.as_ptr(), libc::O_RDWR | libc::O_NOCTTY | libc::O_CLOEXEC);
        if s < 0 { libc::close(m); return Err("no pseudo terminal".into()); }
        Ok(Pty { master: std::fs::File::from_raw_fd(m), slave: std::fs::File::from_raw_fd(s) })
    }
}
/// the next line of the child, or None after 12 s without any
fn line(out: &mut std::process::ChildStdout, buf: &mut Vec<u8>) -> Option<String> {
    loop {
        if let Some(p) = buf.iter().position(|&b| b == b'\n') {
            let l: Vec<u8> = buf.drain(..=p).collect();
            return Some(String::from_utf8_lossy(&l[..p]).to_string());
        }
        let mut fd = libc::pollfd { fd: out.as_raw_fd(), events: libc::POLLIN, revents: 0 };
        if unsafe { libc::poll(&mut fd, 1, 12_000) } <= 0 { return None; }
        let mut b = [0u8; 4096];
        match out.read(&mut b) { Ok(n) if n > 0 => buf.extend_from_slice(&b[..n]), _ => return None }
    }
}
fn key(g: &mut G) -> (Event, Vec<u8>) {
    if g.chance(6) {
        // as sent in the kitty keyboard protocol
        let (kind, n) = *g.pick(&[(KeyEventKind::Press, 1), (KeyEventKind::Repeat, 2), (KeyEventKind::Release, 3)]);
        let c = *g.pick(&['a', '_', 'é']);
        return (Event::Key(KeyEvent::new_with_kind(KeyCode::Char(c), KeyModifiers::NONE, kind)), format!("\x1b[{};1:{n}u", c as u32).into_bytes());
    }
    let (code, modifiers, b): (KeyCode, KeyModifiers, Vec<u8>) = match g.below(10) {
        0 => (KeyCode::Char('_'), KeyModifiers::NONE, b"_".to_vec()),
        1 => (KeyCode::Char('\\'), KeyModifiers::NONE, b"\\".to_vec()),
        2 => (KeyCode::Char('k'), KeyModifiers::ALT, b"\x1bk".to_vec()),
        3 => (KeyCode::Char('t'), KeyModifiers::CONTROL, vec![0x14]),
        4 => (KeyCode::Up, KeyModifiers::NONE, b"\x1b[A".to_vec()),
        5 => (KeyCode::Up, KeyModifiers::ALT, b"\x1b[1;3A".to_vec()),
        6 => (KeyCode::Enter, KeyModifiers::NONE, b"\r".to_vec()),
        7 => (KeyCode::Left, KeyModifiers::SHIFT, b"\x1b[1;2D".to_vec()),
        _ => { let c = *g.pick(&['a', 'b', 'z', '0', ';']); (KeyCode::Char(c), KeyModifiers::NONE, vec![c as u8]) }
    };
    (Event::Key(KeyEvent::new(code, modifiers)), b)
}
fn mouse(g: &mut G, few: bool) -> (Event, Vec<u8>) {
    let (x, y) = if few { (g.below(2) as u16, g.below(2) as u16) } else { (g.below(200) as u16, g.below(100) as u16) };
    let (kind, cb, up) = match g.below(if few { 7 } else { 9 }) {
        0 | 1 => (MouseEventKind::Down(MouseButton::Left), 0, false),
        2 | 3 => (MouseEventKind::Up(MouseButton::Left), 0, true),
        4 => (MouseEventKind::Up(MouseButton::Right), 2, true),
        5 => (MouseEventKind::Moved, 35, false),
        6 => (MouseEventKind::Drag(MouseButton::Left), 32, false),
        7 => (MouseEventKind::ScrollDown, 65, false),
        _ => (MouseEventKind::Down(MouseButton::Middle), 1, false),
    };
    let (modifiers, m) = if g.chance(6) { (KeyModifiers::CONTROL, 16) } else { (KeyModifiers::NONE, 0) };
    (Event::Mouse(MouseEvent { kind, column: x, row: y, modifiers }), format!("\x1b[<{};{};{}{}", cb + m, x + 1, y + 1, if up { 'm' } else { 'M' }).into_bytes())
}
fn event(g: &mut G, few: bool) -> (Event, Vec<u8>) {
    let alt = |c| Event::Key(KeyEvent::new(KeyCode::Char(c), KeyModifiers::ALT));
    if few { return match g.below(8) { 0 => key(g), _ => mouse(g, true) }; }
    match g.below(10) {
        0 | 1 => (alt('_'), b"\x1b_".to_vec()),
        2 | 3 => (alt('\\'), b"\x1b\\".to_vec()),
        4 | 5 => mouse(g, false),
        6 if g.bool() => (Event::FocusGained, b"\x1b[I".to_vec()),
        7 if g.chance(3) => (Event::Paste("a_b".into()), b"\x1b[200~a_b\x1b[201~".to_vec()),
        _ => key(g),
    }
}
fn source(g: &mut G) -> R { with_source(g, false) }
fn clicks(g: &mut G) -> R { with_source(g, true) }
fn with_source(g: &mut G, few: bool) -> R {
    let (raw, mv, drag) = (g.bool(), g.bool(), g.bool());
    let n = g.range(1, 24);
    let mut evs: Vec<(Event, Vec<u8>)> = (0..n).map(|_| event(g, few)).collect();
    let mut pauses: Vec<(usize, u64)> = vec![];
    if few && g.chance(3) {
        // a few slow clicks, mostly at the same place
        evs.clear();
        for i in 0..g.range(2, 5) {
            let (x, y) = if g.chance(5) { (1, 3) } else { (1, 2) };
            let down = g.chance(4);
            let kind = if down { MouseEventKind::Down(MouseButton::Left) } else { MouseEventKind::Up(MouseButton::Left) };
            evs.push((Event::Mouse(MouseEvent { kind, column: x, row: y, modifiers: KeyModifiers::NONE }), format!("\x1b[<0;{};{}{}", x + 1, y + 1, if down { 'M' } else { 'm' }).into_bytes()));
            if g.bool() { let e = mouse(g, true); if !matches!(e.0, Event::Mouse(MouseEvent { kind: MouseEventKind::Up(MouseButton::Left), .. })) { evs.push(e); } }
            if i > 0 || g.bool() { pauses.push((evs.len(), *g.pick(&[400, 400, 720]))); }
        }
    }
    // closes a pending sequence, if any, then ends
    evs.push((Event::Key(KeyEvent::new(KeyCode::Char('k'), KeyModifiers::ALT)), b"\x1bk".to_vec()));
    evs.push((Event::Key(KeyEvent::new(KeyCode::Char('Q'), KeyModifiers::SHIFT)), b"Q".to_vec()));
    g.note(|| format!("discard raw keys {raw}, moves {mv}, drags {drag}; events {:?}; pauses {pauses:?}", evs.iter().map(|e| &e.0).collect::<Vec<_>>()));
    // what's expected
    let (mut out, mut seqs): (Vec<Event>, Vec<Vec<KeyEvent>>) = (vec![], vec![]);
    let mut pend: Option<Vec<KeyEvent>> = None;
    for (e, _) in &evs {
        if let Event::Key(k) = e {
            let is = |c| k.code == KeyCode::Char(c) && k.modifiers == KeyModifiers::ALT;
            if let Some(p) = pend.as_mut() {
                if is('\\') { p.push(*k); seqs.push(pend.take().unwrap()); continue; }
                if !k.modifiers.contains(KeyModifiers::ALT) && !k.modifiers.contains(KeyModifiers::CONTROL) { p.push(*k); continue; }
            } else if is('_') { pend = Some(vec![*k]); continue; }
        }
        let kept = |k: &KeyEvent| !raw || k.kind == KeyEventKind::Press;
        out.extend(pend.take().unwrap_or_default().into_iter().filter(kept).map(Event::Key));
        match e {
            Event::Key(k) if !kept(k) => {}
            Event::Mouse(m) if mv && m.kind == MouseEventKind::Moved => {}
            Event::Mouse(m) if drag && matches!(m.kind, MouseEventKind::Drag(_)) => {}
            e => out.push(e.clone()),
        }
    }
    if seqs.len() > 9 { return Ok(false); } // they would overflow their channel
    // the real thing
    let Ok(mut pty) = pty() else { return Ok(false) };
    let slave = pty.slave.try_clone().map_err(|e| e.to_string())?;
    let f = |b| if b { "1" } else { "0" };
    let mut ch = Command::new(std::env::current_exe().map_err(|e| e.to_string())?)
        .arg("events-child").arg(f(raw)).arg(f(mv)).arg(f(drag))
        .stdin(Stdio::from(slave)).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().map_err(|e| format!("can't start the child process: {e}"))?;
    let mut stdout = ch.stdout.take().unwrap();
    let mut buf = Vec::new();
    let mut lines = Vec::new();
    let r = (|| -> Result<(), String> {
        match line(&mut stdout, &mut buf) { Some(l) if l == "READY" => {} l => return Err(format!("the source didn't start: {l:?}")) }
        let mut bytes = Vec::new();
        for (i, (_, b)) in evs.iter().enumerate() {
            for (_, ms) in pauses.iter().filter(|p| p.0 == i) {
                pty.master.write_all(&bytes).map_err(|e| e.to_string())?;
                bytes.clear();
                std::thread::sleep(Duration::from_millis(*ms));
            }
            bytes.extend_from_slice(b);
        }
        pty.master.write_all(&bytes).map_err(|e| e.to_string())?;
        loop {
            match line(&mut stdout, &mut buf) {
                Some(l) if l.starts_with("END") => { lines.push(l); return Ok(()); }
                Some(l) => lines.push(l),
                None => return Err(format!("the source stopped giving events after {lines:?}")),
            }
        }
    })();
    let _ = ch.kill();
    let _ = ch.wait();
    r?;
    let got_seqs: Vec<&str> = lines.iter().filter_map(|l| l.strip_prefix("S ")).collect();
    let want_seqs: Vec<String> = seqs.iter().map(|s| format!("{s:?}")).collect();
    if got_seqs != want_seqs { return Err(format!("escape sequences {got_seqs:?} instead of {want_seqs:?}")); }
    let got: Vec<&str> = lines.iter().filter_map(|l| l.strip_prefix("E ")).collect();
    let mut last_up: Option<(u128, u16, u16)> = None;
    for (i, e) in out.iter().enumerate() {
        let Some(l) = got.get(i) else { return Err(format!("only {} events: {got:?} instead of {out:?}", got.len())) };
        let mut w = l.splitn(3, ' ');
        let t: u128 = w.next().unwrap().parse().map_err(|_| "bad line")?;
        let double = w.next().unwrap() == "true";
        let combo = match e { Event::Key(k) if k.kind == KeyEventKind::Press => Some(combination(*k)), _ => None };
        let want = format!("{:?} {:?}", e, combo);
        let rest = w.next().unwrap();
        if rest != want { return Err(format!("event {i} is {rest} instead of {want}")); }
        let mut d = false;
        if let Event::Mouse(m) = e {
            let (up, down) = (m.kind == MouseEventKind::Up(MouseButton::Left), m.kind == MouseEventKind::Down(MouseButton::Left));
            if let (true, Some((t0, x, y))) = (up || down, last_up) { d = m.column == x && m.row == y && t - t0 < 700_000_000; }
            if up { last_up = Some((t, m.column, m.row)); }
        }
        if d != double { return Err(format!("event {i} ({want} at {t} ns) is{} a double click, the events being {got:?}", if double { "" } else { "n't" })); }
    }
    if got.len() != out.len() { return Err(format!("events {got:?} instead of {out:?}")); }
    if let Some(l) = lines.iter().find(|l| !(l.starts_with("E ") || l.starts_with("S ") || *l == "END true")) { return Err(format!("unexpected: {l}")); }
    Ok(out.len() > 2)
}
fn combination(k: KeyEvent) -> String { crokey::KeyCombination::from(k).to_string() }

// ------------------------------------------------------------------ C20
const LONG: Duration = Duration::from_secs(15);
fn ticks(g: &mut G) -> R {
    let beams: Vec<(u64, usize)> = (0..g.range(1, 4)).map(|_| (g.range(1, 4) as u64, match g.below(4) { 0 => 0, 1 => 1, _ => g.range(2, 6) })).collect();
    g.note(|| format!("beams (period in ms, number of ticks): {beams:?}"));
    let mut t = Ticker::<usize>::new();
    let start = Instant::now();
    let mut ids = Vec::new();
    for (i, (p, n)) in beams.iter().enumerate() {
        let p = Duration::from_millis(*p);
        ids.push(if *n == 1 { t.tick_once(i, p) } else { t.tick_several_times(i, p, *n) });
    }
    for i in 0..ids.len() { for j in 0..i { if ids[i] == ids[j] { return Err(format!("beams {i} and {j} have the same id")); } } }
    let total: usize = beams.iter().map(|b| b.1).sum();
    let mut got = vec![0; beams.len()];
    for k in 0..total {
        let Ok(i) = t.tick_receiver.recv_timeout(LONG) else { return Err(format!("only {k} ticks, by beam: {got:?}")) };
        got[i] += 1;
        if got[i] > beams[i].1 { return Err(format!("too many ticks of beam {i}")); }
        let el = start.elapsed();
        if el < Duration::from_millis(beams[i].0 * got[i] as u64) { return Err(format!("tick {} of beam {i} came after {el:?}", got[i])); }
    }
    std::thread::sleep(Duration::from_millis(15));
    if let Ok(i) = t.tick_receiver.try_recv() { return Err(format!("an additional tick of beam {i}")); }
    Ok(total > 1)
}
/// beams stopped long before their next tick
fn slow_stop(g: &mut G) -> R {
    let n = g.range(1, 4);
    let infinite: Vec<bool> = (0..n).map(|_| g.bool()).collect();
    let how = g.below(3);
    g.note(|| format!("{n} beams of period 200 ms, endless: {infinite:?}, then stopped by {}", ["stop_beam", "stop_all_beams", "drop"][how]));
    let p = Duration::from_millis(200);
    let start = Instant::now();
    let mut t = Ticker::<usize>::new();
    let ids: Vec<usize> = (0..n).map(|i| if infinite[i] { t.tick_infinitely(i, p) } else { t.tick_several_times(i, p, 3) }).collect();
    let rx = t.tick_receiver.clone();
    std::thread::sleep(Duration::from_millis(g.below(10) as u64));
    let mut keep = None;
    match how {
        0 => { for id in ids { t.stop_beam(id); } keep = Some(t); }
        1 => { t.stop_all_beams(); keep = Some(t); }
        _ => drop(t),
    }
    if start.elapsed() > Duration::from_millis(150) { return Ok(false); } // a machine too slow for this check
    let r = rx.recv_timeout(Duration::from_millis(330));
    drop(keep);
    match r { Ok(i) => Err(format!("a tick of beam {i}, stopped before its first tick")), Err(_) => Ok(true) }
}
/// beams started and stopped in any order
fn starts_and_stops(g: &mut G) -> R {
    let mut t = Ticker::<usize>::new();
    let rx = t.tick_receiver.clone();
    let mut ids: Vec<usize> = vec![];
    let mut stopped: Vec<bool> = vec![];
    let ops: Vec<Option<usize>> = (0..g.range(3, 9)).map(|_| if g.bool() { None } else { Some(g.below(6)) }).collect();
    g.note(|| format!("beams of period 1 ms started (None) or stopped (by number): {ops:?}"));
    for op in &ops {
        match op {
            None => {
                let id = t.tick_infinitely(ids.len(), Duration::from_millis(1));
                if ids.contains(&id) { return Err(format!("the id {id} was already the one of another beam")); }
                ids.push(id);
                stopped.push(false);
            }
            Some(k) if *k < ids.len() => { t.stop_beam(ids[*k]); stopped[*k] = true; }
            _ => {}
        }
    }
    let mut late = vec![0; ids.len()];
    while rx.try_recv().is_ok() {}
    let n_run = stopped.iter().filter(|s| !**s).count();
    let mut seen = vec![0; ids.len()];
    let t0 = Instant::now();
    while (0..ids.len()).any(|i| !stopped[i] && seen[i] < 3) || n_run == 0 && t0.elapsed() < Duration::from_millis(8) {
        match rx.recv_timeout(if n_run == 0 { Duration::from_millis(8) } else { LONG }) {
            Ok(i) if stopped[i] => { late[i] += 1; if late[i] > 1 { return Err(format!("beam {i} goes on after it was stopped")); } }
            Ok(i) => seen[i] += 1,
            Err(_) if n_run == 0 => break,
            Err(_) => return Err(format!("no tick of beams which weren't stopped: {seen:?}")),
        }
        if t0.elapsed() > LONG { return Err(format!("no tick of beams which weren't stopped: {seen:?}")); }
    }
    Ok(ids.len() > 1)
}
fn stops(g: &mut G) -> R {
    if g.chance(12) { return slow_stop(g); }
    if g.chance(3) { return starts_and_stops(g); }
    // endless and finite beams, the ones to stop among them
    let n = g.range(1, 5);
    let beams: Vec<(u64, Option<usize>)> = (0..n).map(|_| (g.range(1, 3) as u64, if g.chance(3) { None } else { Some(g.range(0, 8)) })).collect();
    let order: Vec<usize> = (0..g.below(n + 2)).map(|_| g.below(n + 1)).collect();
    let how = g.below(3);
    g.note(|| format!("beams (period in ms, number of ticks): {beams:?}; stopped: {order:?}, then {}", ["all", "ticker dropped", "nothing"][how]));
    let mut t = Ticker::<usize>::new();
    let ids: Vec<usize> = beams.iter().enumerate().map(|(i, (p, c))| {
        let p = Duration::from_millis(*p);
        match c { None => t.tick_infinitely(i, p), Some(c) => t.tick_several_times(i, p, *c) }
    }).collect();
    let rx = t.tick_receiver.clone();
    let mut got = vec![0usize; n];
    let mut after: Vec<Option<usize>> = vec![None; n];
    for &k in &order {
        if g.bool() { std::thread::sleep(Duration::from_millis(2)); }
        let id = ids.get(k).copied().unwrap_or(1_000_000);
        t.stop_beam(id);
        while let Ok(i) = rx.try_recv() { got[i] += 1; if let Some(a) = after[i].as_mut() { *a += 1; } }
        if k < n && after[k].is_none() { after[k] = Some(0); }
    }
    let mut keep = None;
    match how {
        0 => { t.stop_all_beams(); keep = Some(t); }
        1 => drop(t),
        _ => keep = Some(t),
    }
    if how < 2 {
        while let Ok(i) = rx.try_recv() { got[i] += 1; if let Some(a) = after[i].as_mut() { *a += 1; } }
        for a in after.iter_mut() { if a.is_none() { *a = Some(0); } }
    }
    // the ticks of the beams which weren't stopped all come
    loop {
        let left = (0..n).any(|i| after[i].is_none() && match beams[i].1 { Some(c) => got[i] < c, None => got[i] < 12 });
        if !left { break; }
        match rx.recv_timeout(LONG) {
            Ok(i) => { got[i] += 1; if let Some(a) = after[i].as_mut() { *a += 1; } }
            Err(_) => return Err(format!("ticks are missing, though only {order:?} were stopped: {got:?}")),
        }
    }
    if how == 1 {
        // the channel is closed when all the threads are ended
        let t0 = Instant::now();
        loop {
            match rx.recv_timeout(LONG) {
                Ok(i) => { got[i] += 1; *after[i].as_mut().unwrap() += 1; }
                Err(e) if e.to_string().contains("disconnected") => break,
                Err(_) => return Err("a beam goes on after the ticker was dropped".into()),
            }
            if t0.elapsed() > LONG || after.iter().any(|a| a.unwrap() > 3) { return Err(format!("beams go on ticking after the ticker was dropped: {got:?}")); }
        }
    } else {
        let t0 = Instant::now();
        while t0.elapsed() < Duration::from_millis(25) {
            if let Ok(i) = rx.recv_timeout(Duration::from_millis(5)) { got[i] += 1; if let Some(a) = after[i].as_mut() { *a += 1; } }
        }
    }
    for i in 0..n {
        // (a tick may be on its way when its beam is stopped)
        if let Some(a) = after[i] { if a > 1 { return Err(format!("{a} ticks of beam {i} after it was stopped")); } }
        if let Some(c) = beams[i].1 { if got[i] > c { return Err(format!("{} ticks of beam {i}", got[i])); } }
    }
    drop(keep);
    Ok(n > 1)
}
