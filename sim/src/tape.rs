//! Recorded choice tapes. One seed (or one recorded tape) decides every choice of a run.
//! Choice 0 is always the simplest one (no fault, smallest delay, first runnable task), and a tape that
//! is used up yields 0, so any edited tape is a valid run: that is what minimisation relies on.

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum S {
    /// Topology, configuration and operation plan.
    Cfg = 0,
    /// Behaviour of scripted peers.
    Peer = 1,
    /// Network: loss, duplication, delay, damage.
    Net = 2,
    /// Which runnable task continues; yields; spurious wake-ups.
    Sched = 3,
    /// System-call failures, stalls, crashes, cancellation.
    Fault = 4,
}
pub const NS: usize = 5;
pub const SNAMES: [&str; NS] = ["cfg", "peer", "net", "sched", "fault"];

pub type Streams = [Vec<u32>; NS];

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut x = a ^ b.wrapping_mul(0xD6E8FEB86659FD93);
    splitmix(&mut x)
}

pub struct Tape {
    gen: Option<[u64; NS]>,
    pub rec: Streams,
    replay: Streams,
    pos: [usize; NS],
}

impl Tape {
    pub fn seeded(seed: u64) -> Tape {
        let mut st = [0; NS];
        for (i, s) in st.iter_mut().enumerate() {
            *s = mix(seed, i as u64 + 1);
        }
        Tape { gen: Some(st), rec: Default::default(), replay: Default::default(), pos: [0; NS] }
    }
    pub fn replay(s: Streams) -> Tape {
        Tape { gen: None, rec: Default::default(), replay: s, pos: [0; NS] }
    }
    /// A value in `0..n`.
    pub fn choose(&mut self, s: S, n: u64) -> u64 {
        debug_assert!(n > 0 && n <= u32::MAX as u64);
        if n <= 1 {
            return 0;
        }
        let i = s as usize;
        let v = match &mut self.gen {
            Some(st) => {
                let r = splitmix(&mut st[i]);
                ((r as u128 * n as u128) >> 64) as u64
            }
            None => {
                let v = self.replay[i].get(self.pos[i]).copied().unwrap_or(0) as u64;
                self.pos[i] += 1;
                v.min(n - 1)
            }
        };
        self.rec[i].push(v as u32);
        v
    }
    /// True with probability `pm`/1000; the simplest choice is false.
    pub fn chance(&mut self, s: S, pm: u32) -> bool {
        if pm == 0 {
            return false;
        }
        self.choose(s, 1000) >= 1000 - pm.min(1000) as u64
    }
    pub fn range(&mut self, s: S, lo: u64, hi: u64) -> u64 {
        lo + self.choose(s, hi - lo + 1)
    }
    pub fn pick<'a, T>(&mut self, s: S, xs: &'a [T]) -> &'a T {
        let i = self.choose(s, xs.len() as u64) as usize;
        &xs[i]
    }
}

// The keys of std's own maps are thread-local state, which is left to the code under test.
type Hasher = std::hash::BuildHasherDefault<std::collections::hash_map::DefaultHasher>;
pub type HashMap<K, V> = std::collections::HashMap<K, V, Hasher>;
pub type HashSet<K> = std::collections::HashSet<K, Hasher>;
