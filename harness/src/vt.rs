//! A very small terminal emulator, used as the oracle for what is drawn where.
use std::collections::BTreeMap;
use unicode_width::UnicodeWidthChar;

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Sgr {
    pub fg: Option<String>,
    pub bg: Option<String>,
    pub attrs: std::collections::BTreeSet<String>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Cell {
    pub c: char,
    pub sgr: Sgr,
    /// second half of a wide character
    pub cont: bool,
}
#[derive(Clone, Debug, Default)]
pub struct Vt {
    /// (row, col) -> cell
    pub cells: BTreeMap<(usize, usize), Cell>,
    pub row: usize,
    pub col: usize,
    pub sgr: Sgr,
    /// every write in order: (row, col, char)
    pub writes: Vec<(usize, usize, char)>,
    /// rows cleared until newline: (row, from col)
    pub clears: Vec<(usize, usize)>,
    pub errors: Vec<String>,
}
impl Vt {
    pub fn run(bytes: &[u8]) -> Vt {
        let mut vt = Vt::default();
        match std::str::from_utf8(bytes) {
            Ok(s) => vt.feed(s),
            Err(_) => vt.errors.push("output isn't UTF-8".to_string()),
        }
        vt
    }
    pub fn feed(&mut self, s: &str) {
        let mut it = s.chars().peekable();
        while let Some(c) = it.next() {
            match c {
                '\u{1b}' => {
                    if it.next() != Some('[') {
                        self.errors.push("unknown escape".into());
                        continue;
                    }
                    let mut params = String::new();
                    let mut fin = ' ';
                    for c in it.by_ref() {
                        if c.is_ascii_alphabetic() { fin = c; break; }
                        params.push(c);
                    }
                    match fin {
                        'm' => self.sgr_seq(&params),
                        'H' => {
                            let mut p = params.split(';').map(|p| p.parse::<usize>().unwrap_or(1));
                            self.row = p.next().unwrap_or(1) - 1;
                            self.col = p.next().unwrap_or(1) - 1;
                        }
                        'K' => {
                            self.clears.push((self.row, self.col));
                            let keys: Vec<_> = self.cells.range((self.row, self.col)..(self.row + 1, 0)).map(|(k, _)| *k).collect();
                            for k in keys { self.cells.remove(&k); }
                        }
                        f => self.errors.push(format!("unknown sequence {params:?}{f}")),
                    }
                }
                '\n' => { self.row += 1; self.col = 0; }
                _ => {
                    if c.is_control() {
                        self.errors.push(format!("control character {c:?} written"));
                        continue;
                    }
                    let w = c.width().unwrap_or(0);
                    if w == 0 { self.writes.push((self.row, self.col, c)); continue; }
                    self.writes.push((self.row, self.col, c));
                    for i in 0..w {
                        self.cells.insert((self.row, self.col + i), Cell { c, sgr: self.sgr.clone(), cont: i > 0 });
                    }
                    self.col += w;
                }
            }
        }
    }
    fn sgr_seq(&mut self, params: &str) {
        let p: Vec<&str> = if params.is_empty() { vec!["0"] } else { params.split(';').collect() };
        let mut i = 0;
        while i < p.len() {
            match p[i] {
                "0" | "" => self.sgr = Sgr::default(),
                "39" => self.sgr.fg = None,
                "49" => self.sgr.bg = None,
                "59" => {}
                "38" | "48" => {
                    let n = match p.get(i + 1) { Some(&"5") => 2, Some(&"2") => 4, _ => { self.errors.push("bad color".into()); 0 } };
                    let v = p[i + 1..(i + 1 + n).min(p.len())].join(";");
                    if p[i] == "38" { self.sgr.fg = Some(v) } else { self.sgr.bg = Some(v) }
                    i += n;
                }
                a => { self.sgr.attrs.insert(a.to_string()); }
            }
            i += 1;
        }
    }
    pub fn row_text(&self, row: usize) -> String {
        let mut s = String::new();
        let mut next = 0;
        for ((_, c), cell) in self.cells.range((row, 0)..(row + 1, 0)) {
            while next < *c { s.push('\u{0}'); next += 1; }
            if !cell.cont { s.push(cell.c); }
            next = c + 1;
        }
        s
    }
    /// columns covered on a row: (min, max exclusive, count)
    pub fn extent(&self, row: usize) -> (usize, usize, usize) {
        let mut min = usize::MAX;
        let mut max = 0;
        let mut n = 0;
        for ((_, c), _) in self.cells.range((row, 0)..(row + 1, 0)) {
            min = min.min(*c);
            max = max.max(c + 1);
            n += 1;
        }
        if n == 0 { (0, 0, 0) } else { (min, max, n) }
    }
    /// check nothing was written outside of the rectangle
    pub fn inside(&self, left: usize, top: usize, width: usize, height: usize) -> Result<(), String> {
        if let Some(e) = self.errors.first() { return Err(e.clone()); }
        for (r, c) in self.cells.keys() {
            if *r < top || *r >= top + height || *c < left || *c >= left + width {
                return Err(format!("cell at column {c}, row {r} written outside of the area left={left} top={top} width={width} height={height}"));
            }
        }
        Ok(())
    }
}
