//! Random sources handed to the system: healthy, faulty, or failing.
use rand_core::RngCore;
use simcore::{fault, inject_panic, Rng};

#[derive(Clone)]
pub struct SimRng {
    pub mode: u64,
    pub v: u64,
    /// the draw at which a switching or failing source changes
    pub at: u64,
    pub r: Rng,
    pub n: u64,
    /// every word handed out
    pub log: Vec<u64>,
    /// a word to hand out another value for
    pub flip: Option<u64>,
}

pub const MODES: u64 = 13;
/// A mode that never fails.
pub fn lasting(sel: u64) -> u64 {
    [0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 12][sel as usize % 12]
}

impl SimRng {
    pub fn healthy(seed: u64) -> Self {
        Self::new(0, seed, 0)
    }
    pub fn failing(seed: u64, at: u64) -> Self {
        Self::new(9, seed, at)
    }
    pub fn new(mode: u64, seed: u64, at: u64) -> Self {
        SimRng { mode: mode % MODES, v: seed, at, r: Rng::sub(seed, "stream", 0), n: 0, log: vec![], flip: None }
    }
    fn word(&mut self) -> u64 {
        let n = self.n;
        self.n += 1;
        let h = self.r.u64();
        let stuck = simcore::derive(self.v, "stuck", 0);
        let w = match self.mode {
            0 => h,
            1 => stuck,
            2 => 0,
            3 => u64::MAX,
            4 => n,
            5 => simcore::derive(self.v, "block", n % (1 + self.v % 16)),
            6 => h & 1,
            7 => {
                if n < self.at {
                    h
                } else {
                    stuck
                }
            }
            8 => {
                // sparse: mostly zero words, so that wide values are tiny
                if n % 8 == 0 {
                    self.v % 4
                } else {
                    0
                }
            }
            10 | 11 => {
                // one value, or two in a row, hit by a short outage
                let from = self.at / 8 * 8;
                if n >= from && n < from + 8 * (1 + self.v % 2) {
                    if self.mode == 10 {
                        0
                    } else {
                        u64::MAX
                    }
                } else {
                    h
                }
            }
            12 => {
                if n < self.at / 8 * 8 {
                    h
                } else {
                    0
                }
            }
            _ => {
                if n == self.at {
                    simcore::harness(|| fault("random source failed"));
                    inject_panic();
                }
                h
            }
        };
        if self.mode != 0 && self.mode != 9 && n == 0 {
            fault(["", "rng stuck", "rng all zero", "rng all one", "rng counter", "rng repeating block", "rng one live bit", "rng stuck after a while", "rng nearly zero", "", "rng zero for a while", "rng all one for a while", "rng dead after a while"][self.mode as usize]);
        }
        let w = if self.flip == Some(n) { simcore::derive(w, "another word", n) } else { w };
        self.log.push(w);
        w
    }
}

impl RngCore for SimRng {
    fn next_u32(&mut self) -> u32 {
        self.word() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.word()
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for c in d.chunks_mut(8) {
            let w = self.word().to_le_bytes();
            c.copy_from_slice(&w[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
