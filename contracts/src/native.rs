//! Native sources: exhaustive depth-first enumeration, seeded sampling, replay.

use std::collections::BTreeMap;

use crate::src::Src;

/// Thrown (as a panic payload) when a precondition rejects the drawn input.
pub struct Reject;

pub enum Mode {
    /// Odometer over all choices; wide integers range over a boundary table.
    Dfs { path: Vec<(u64, u64)>, pos: usize },
    Rand { state: u64 },
    Replay { vals: Vec<u64>, pos: usize },
}

pub struct Native {
    pub mode: Mode,
    /// Values handed out in the current execution.
    pub trace: Vec<u64>,
    pub hits: BTreeMap<&'static str, u64>,
    /// A wide integer was drawn: the enumeration covers a table, not the type.
    pub sampled: bool,
}

fn table(width: u32) -> Vec<u64> {
    let max = if width == 64 { u64::MAX } else { (1u64 << width) - 1 };
    let mut v = vec![0, 1, 2, 3, 9, 10, 11, 49, 50, 51, 99, 100, 127, 128, 254, 255, max, max - 1];
    if width > 8 {
        v.extend([256, 999, 1000, 65535, max / 2, max / 2 + 1, max / 10]);
    }
    if width > 16 {
        v.extend([499_999, 500_000, 1_000_000, 99_999_999, 100_000_000, 4294967295]);
    }
    if width > 32 {
        v.extend([
            4294967296,
            499_999_999_999_999_999,
            500_000_000_000_000_000,
            999_999_999_999_999_999,
            1_000_000_000_000_000_000,
            1_500_000_000_000_000_000,
            0x0100_0000_0000_0000,
            0x00ff_ffff_ffff_ffff,
            12345678901234567890,
        ]);
    }
    v.retain(|x| *x <= max);
    v.sort();
    v.dedup();
    v
}

impl Native {
    pub fn dfs() -> Self { Self::with(Mode::Dfs { path: vec![], pos: 0 }) }
    pub fn rand(seed: u64) -> Self {
        Self::with(Mode::Rand { state: seed.wrapping_mul(0x9E3779B97F4A7C15) | 1 })
    }
    pub fn replay(vals: Vec<u64>) -> Self { Self::with(Mode::Replay { vals, pos: 0 }) }
    fn with(mode: Mode) -> Self {
        Native { mode, trace: vec![], hits: BTreeMap::new(), sampled: false }
    }

    pub fn start(&mut self) {
        self.trace.clear();
        match &mut self.mode {
            Mode::Dfs { pos, .. } | Mode::Replay { pos, .. } => *pos = 0,
            Mode::Rand { .. } => {}
        }
    }

    /// Moves to the next path of the enumeration; false when exhausted.
    pub fn advance(&mut self) -> bool {
        let Mode::Dfs { path, pos } = &mut self.mode else { return true };
        path.truncate(*pos);
        while let Some((c, n)) = path.pop() {
            if c + 1 < n {
                path.push((c + 1, n));
                return true;
            }
        }
        false
    }

    fn next_rand(state: &mut u64) -> u64 {
        // xorshift64*
        *state ^= *state >> 12;
        *state ^= *state << 25;
        *state ^= *state >> 27;
        state.wrapping_mul(0x2545F4914F6CDD1D)
    }

    fn choose(&mut self, n: u64) -> u64 {
        match &mut self.mode {
            Mode::Dfs { path, pos } => {
                if *pos == path.len() {
                    path.push((0, n));
                }
                let c = path[*pos].0;
                *pos += 1;
                c
            }
            Mode::Rand { state } => Self::next_rand(state) % n,
            Mode::Replay { .. } => unreachable!(),
        }
    }

    fn wide(&mut self, width: u32) -> u64 {
        let max = if width == 64 { u64::MAX } else { (1u64 << width) - 1 };
        if let Mode::Replay { vals, pos } = &mut self.mode {
            let v = vals.get(*pos).copied().unwrap_or(0) & max;
            *pos += 1;
            self.trace.push(v);
            return v;
        }
        self.sampled = true;
        let t = table(width);
        let v = match &mut self.mode {
            Mode::Rand { state } => match Self::next_rand(state) % 3 {
                0 => t[(Self::next_rand(state) % t.len() as u64) as usize],
                1 => Self::next_rand(state) & max,
                _ => {
                    let sh = Self::next_rand(state) % width as u64;
                    (Self::next_rand(state) & max) >> sh
                }
            },
            _ => t[self.choose(t.len() as u64) as usize],
        };
        self.trace.push(v);
        v
    }
}

impl Src for Native {
    fn u8(&mut self) -> u8 { self.wide(8) as u8 }
    fn u16(&mut self) -> u16 { self.wide(16) as u16 }
    fn u32(&mut self) -> u32 { self.wide(32) as u32 }
    fn u64(&mut self) -> u64 { self.wide(64) }
    fn below(&mut self, n: u32) -> u32 {
        let v = if let Mode::Replay { vals, pos } = &mut self.mode {
            let v = vals.get(*pos).copied().unwrap_or(0);
            *pos += 1;
            if v >= n as u64 {
                self.assume(false);
            }
            v
        } else {
            self.choose(n as u64)
        };
        self.trace.push(v);
        v as u32
    }
    fn assume(&mut self, cond: bool) {
        if !cond {
            std::panic::resume_unwind(Box::new(Reject));
        }
    }
    fn hit(&mut self, cond: bool, name: &'static str) {
        if cond {
            *self.hits.entry(name).or_default() += 1;
        }
    }
}
