//! Choice-sequence case generation: every random decision is recorded, so that a
//! failing case can be shrunk and replayed from the recorded choices alone.
pub struct G {
    pub choices: Vec<u64>,
    pos: usize,
    replay: bool,
    state: u64,
    pub notes: Vec<String>,
    pub verbose: bool,
}
fn splitmix(state: &mut u64) -> u64 {
    *state = state.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *state;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
impl G {
    pub fn from_seed(seed: u64) -> Self {
        G { choices: Vec::new(), pos: 0, replay: false, state: seed, notes: vec![], verbose: false }
    }
    pub fn from_choices(choices: Vec<u64>) -> Self {
        G { choices, pos: 0, replay: true, state: 0, notes: vec![], verbose: true }
    }
    fn draw(&mut self, n: u64) -> u64 {
        let v = if self.replay {
            let v = self.choices.get(self.pos).copied().unwrap_or(0);
            if n == 0 { v } else { v % n }
        } else {
            let v = splitmix(&mut self.state);
            let v = if n == 0 { v } else { v % n };
            self.choices.push(v);
            v
        };
        self.pos += 1;
        v
    }
    pub fn used(&self) -> usize { self.pos }
    pub fn below(&mut self, n: usize) -> usize { self.draw(n.max(1) as u64) as usize }
    pub fn u64(&mut self) -> u64 { self.draw(0) }
    /// inclusive
    pub fn range(&mut self, a: usize, b: usize) -> usize { a + self.below(b - a + 1) }
    pub fn bool(&mut self) -> bool { self.below(2) == 1 }
    pub fn chance(&mut self, one_in: usize) -> bool { self.below(one_in) + 1 == one_in }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.below(v.len()); &v[i] }
    /// small values are more frequent, but everything up to max happens
    pub fn small(&mut self, max: usize) -> usize {
        match self.below(4) {
            0 => self.below(max.min(3) + 1),
            1 => self.below(max.min(8) + 1),
            2 => self.below(max.min(20) + 1),
            _ => self.below(max + 1),
        }
    }
    pub fn u16_edge(&mut self) -> u16 {
        match self.below(6) {
            0 => self.below(4) as u16,
            1 => self.below(30) as u16,
            2 => self.below(300) as u16,
            3 => 65535 - self.below(4) as u16,
            4 => 65535 - self.below(300) as u16,
            _ => self.below(65536) as u16,
        }
    }
    pub fn note<F: FnOnce() -> String>(&mut self, f: F) {
        if self.verbose { let s = f(); self.notes.push(s); }
    }
}
