//! C17: questions. Answers are typed on the standard input of a child process
use crate::g::G;
use crate::{Check, Kind, R};
use std::io::{Read, Write};
use std::process::{Command, Stdio};
use termimad::*;

pub fn checks() -> Vec<Check> {
    vec![
        Check { prop: "C17", name: "ask", kind: Kind::Random(ask), weight: 3 },
        Check { prop: "C17", name: "exotic_default", kind: Kind::Random(exotic), weight: 1 },
    ]
}
fn hex(s: &str) -> String { s.bytes().map(|b| format!("{b:02x}")).collect() }
fn unhex(s: &str) -> String { String::from_utf8((0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()).unwrap() }
fn question(default: Option<&str>, keys: &[String]) -> Question {
    let mut q = Question::new("**why** ?");
    for k in keys { q.add_answer(k, "an *answer*"); }
    if let Some(d) = default { q.set_default(d); }
    q
}
/// args: number of questions, default ('-' or '+' and hexa), keys in hexa
pub fn child(args: &[String]) {
    let n: usize = args[0].parse().unwrap();
    let default = args[1].strip_prefix('+').map(unhex);
    let keys: Vec<String> = args[2..].iter().map(|s| unhex(s.strip_prefix('k').unwrap())).collect();
    let q = question(default.as_deref(), &keys);
    let skin = MadSkin::default();
    for _ in 0..n {
        match q.ask(&skin) {
            Ok(s) => println!("\nRESULT{}", hex(&s)),
            Err(_) => println!("\nERROR"),
        }
    }
}
fn key(g: &mut G) -> String {
    match g.below(6) {
        0 => String::new(),
        1 => (*g.pick(&["y", "n", "Y", "N", "oj", "2", "10", "é", "一", "yes"])).to_string(),
        2 => { let a = key(g); format!("{a}{}", g.pick(&["x", " ", "y"])) }
        3 => { let a = key(g); format!("{}{a}", g.pick(&[" ", "y", "n"])) }
        _ => (0..g.range(1, 3)).map(|_| *g.pick(&['y', 'n', 'o', '1', ' '])).collect(),
    }
}
fn ask(g: &mut G) -> R {
    let mut keys: Vec<String> = (0..g.below(4)).map(|_| key(g)).collect();
    let last = "zq".to_string();
    let at = g.below(keys.len() + 1);
    keys.insert(at, last.clone());
    let default = match g.below(3) { 0 => None, 1 => Some(keys[g.below(keys.len())].clone()), _ => Some(key(g)) };
    let n = g.range(1, 3);
    let mut input = String::new();
    let mut lines = Vec::new();
    for _ in 0..g.below(7) {
        let mut s = if g.bool() { keys[g.below(keys.len())].clone() } else { key(g) };
        for _ in 0..g.below(3) { s.push(*g.pick(&[' ', '\t', '\u{a0}'])); }
        if g.chance(8) { s.push('\r'); }
        lines.push(s);
    }
    for _ in 0..n { lines.push(last.clone()); }
    for l in &lines { input.push_str(l); input.push('\n'); }
    g.note(|| format!("{n} questions with keys {keys:?}, default {default:?}, typed {lines:?}"));
    let mut expected = Vec::new();
    for l in &lines {
        let t = l.trim_end();
        if t.is_empty() && default.is_some() { expected.push(default.clone().unwrap()); }
        else if keys.iter().any(|k| k == t) { expected.push(t.to_string()); }
        if expected.len() == n { break; }
    }
    let mut cmd = Command::new(std::env::current_exe().map_err(|e| e.to_string())?);
    cmd.arg("ask-child").arg(n.to_string()).arg(default.as_ref().map_or("-".into(), |d| format!("+{}", hex(d))));
    for k in &keys { cmd.arg(format!("k{}", hex(k))); }
    let mut ch = cmd.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().map_err(|e| format!("can't start the child process: {e}"))?;
    let _ = ch.stdin.take().unwrap().write_all(input.as_bytes());
    let mut out = Vec::new();
    let _ = ch.stdout.take().unwrap().take(1_000_000).read_to_end(&mut out);
    if out.len() == 1_000_000 { let _ = ch.kill(); }
    let _ = ch.wait();
    let out = String::from_utf8_lossy(&out);
    let got: Vec<String> = out.lines().filter_map(|l| if l == "ERROR" { Some("<error>".to_string()) } else { l.strip_prefix("RESULT").map(unhex) }).collect();
    if got != expected { return Err(format!("keys {keys:?}, default {default:?}, typed {lines:?}: answers are {got:?} instead of {expected:?}")); }
    Ok(lines.len() > n)
}
fn exotic(g: &mut G) -> R {
    let keys: Vec<String> = (0..g.below(5)).map(|_| key(g)).collect();
    let default = match g.below(4) { 0 => None, 1 if !keys.is_empty() => Some(keys[g.below(keys.len())].clone()), _ => Some(key(g)) };
    g.note(|| format!("keys {keys:?}, default {default:?}"));
    let q = question(default.as_deref(), &keys);
    let e = default.as_ref().map_or(false, |d| !keys.contains(d));
    if q.has_exotic_default() != e { return Err(format!("keys {keys:?}, default {default:?}: exotic is {}", !e)); }
    if q.default_answer != default || q.answers.iter().map(|a| a.key.clone()).collect::<Vec<_>>() != keys { return Err("the question isn't what was asked".into()); }
    Ok(default.is_some())
}
