use std::collections::BTreeMap;
use std::io::Write;

pub type R = Result<(), String>;

#[derive(Clone)]
pub struct Rng([u64; 4]);

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9e3779b97f4a7c15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut s = seed;
        Rng([splitmix(&mut s), splitmix(&mut s), splitmix(&mut s), splitmix(&mut s)])
    }
    pub fn next(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
}

pub fn hash_bytes(mut h: u64, b: &[u8]) -> u64 {
    for &x in b {
        h = (h ^ x as u64).wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 29)
}

pub fn hash_str(s: &str) -> u64 {
    hash_bytes(0xcbf29ce484222325, s.as_bytes())
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut x = a ^ b.wrapping_mul(0x9e3779b97f4a7c15).rotate_left(23);
    splitmix(&mut x)
}

enum Source {
    Random(Rng),
    Replay(Vec<u64>),
    /// Random, every draw written out at once (used to recover the tape of a crashing case).
    Dump(Rng, std::fs::File),
}

pub struct Case {
    src: Source,
    pos: usize,
    pub tape: Vec<u64>,
    pub labels: BTreeMap<&'static str, u64>,
    pub nontrivial: bool,
    pub want_note: bool,
    pub note: Option<String>,
    /// Hash of everything the case observed (for differential runs).
    pub digest: u64,
}

impl Case {
    fn with(src: Source) -> Case {
        Case { src, pos: 0, tape: Vec::new(), labels: BTreeMap::new(), nontrivial: false, want_note: false, note: None, digest: 0 }
    }
    pub fn random(seed: u64) -> Case {
        Case::with(Source::Random(Rng::new(seed)))
    }
    pub fn replay(tape: Vec<u64>) -> Case {
        Case::with(Source::Replay(tape))
    }
    pub fn dump(seed: u64, f: std::fs::File) -> Case {
        Case::with(Source::Dump(Rng::new(seed), f))
    }

    /// A value in 0..n. Smaller values are simpler: shrinking lowers them.
    pub fn below(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        let v = match self.src {
            Source::Random(ref mut r) => r.below(n),
            Source::Dump(ref mut r, ref mut f) => {
                let v = r.below(n);
                let _ = f.write_all(format!("{}\n", v).as_bytes());
                v
            }
            Source::Replay(ref t) => t.get(self.pos).map_or(0, |v| v % n),
        };
        self.pos += 1;
        self.tape.push(v);
        v
    }
    pub fn full(&mut self) -> u64 {
        let hi = self.below(1 << 32);
        let lo = self.below(1 << 32);
        hi << 32 | lo
    }
    pub fn upto(&mut self, n: usize) -> usize {
        self.below(n as u64 + 1) as usize
    }
    pub fn index(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.index(xs.len());
        &xs[i]
    }
    /// in -r..=r, 0 simplest
    pub fn small(&mut self, r: u64) -> i64 {
        let v = self.below(2 * r + 1);
        if v & 1 == 0 { -((v / 2) as i64) } else { (v / 2 + 1) as i64 }
    }
    /// 64-bit integers with edge values over-represented.
    pub fn int(&mut self) -> i64 {
        match self.below(8) {
            0..=2 => self.small(3),
            3..=4 => self.small(100),
            5 => *self.pick(&[0, 1, -1, i64::MAX, i64::MIN, i64::MAX - 1, i64::MIN + 1, i32::MAX as i64, i32::MIN as i64, 255, 256, -128, 127, 65535]),
            _ => self.full() as i64,
        }
    }
    /// finite or special f64
    pub fn float(&mut self) -> f64 {
        match self.below(10) {
            0..=3 => self.small(10) as f64,
            4..=5 => self.small(1000) as f64 / 16.0,
            6 => *self.pick(&[0.0, -0.0, 1.0, f64::MAX, f64::MIN_POSITIVE, f64::EPSILON, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 5e-324]),
            7..=8 => (self.below(1 << 53) as f64 / (1u64 << 52) as f64 - 1.0) * *self.pick(&[1.0, 1e-3, 1e3, 1e9]),
            _ => f64::from_bits(self.full()),
        }
    }
    pub fn out(&mut self, v: u64) {
        self.digest = mix(self.digest, v);
    }
    pub fn out_str(&mut self, s: &str) {
        self.out(hash_str(s));
    }
    pub fn label(&mut self, l: &'static str) {
        *self.labels.entry(l).or_insert(0) += 1;
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn nontrivial_if(&mut self, b: bool) {
        self.nontrivial |= b;
    }
    pub fn note<F: FnOnce() -> String>(&mut self, f: F) {
        if self.want_note {
            let mut s = f();
            if s.len() > 600 {
                let mut n = 600;
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                s.truncate(n);
                s.push_str("...");
            }
            self.note = Some(s);
        }
    }
}
