//! Choice-sequence generator with universal shrinking.
//!
//! Every random decision of a case is one bounded draw.  The sequence of draws IS the case: replaying the
//! sequence replays the case, and shrinking edits the sequence (delete chunks, zero, lower) and re-runs it.
//! Draws past the end of a replayed sequence return 0, which by convention is the simplest alternative.

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed ^ 0x9E37_79B9_7F4A_7C15)
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub struct Src {
    replay: Vec<u64>,
    pos: usize,
    rng: Option<Rng>,
    pub rec: Vec<u64>,
}

impl Src {
    pub fn random(seed: u64) -> Src {
        Src { replay: vec![], pos: 0, rng: Some(Rng::new(seed)), rec: vec![] }
    }
    pub fn replay(v: Vec<u64>) -> Src {
        Src { replay: v, pos: 0, rng: None, rec: vec![] }
    }
    /// uniform in 0..n (n >= 1)
    pub fn below(&mut self, n: u64) -> u64 {
        let n = n.max(1);
        let v = if self.pos < self.replay.len() {
            let v = self.replay[self.pos];
            if v < n { v } else { v % n }
        } else if let Some(r) = self.rng.as_mut() {
            r.next() % n
        } else {
            0
        };
        self.pos += 1;
        self.rec.push(v);
        v
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    /// true with probability p/100 ; false is the simple value
    pub fn pct(&mut self, p: u64) -> bool {
        self.below(100) >= 100 - p.min(100)
    }
    /// pick an index by weight; entry 0 is the simplest
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        if total == 0 {
            let _ = self.below(1);
            return 0;
        }
        let mut x = self.below(total);
        for (i, &wi) in w.iter().enumerate() {
            if x < wi {
                return i;
            }
            x -= wi;
        }
        w.len() - 1
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len() as u64) as usize;
        &v[i]
    }
    /// a string built from an alphabet that includes the characters codecs and shells trip over
    pub fn string(&mut self, maxlen: u64) -> String {
        const ALPHA: &[&str] = &[
            "a", "b", "z", "0", "9", " ", "\t", "\n", "\\", "\"", "'", "=", "/", ".", "-", "_", "é", "漢", "\u{1F600}",
            "\u{0}", "\r", "{", "}", "$", "%", "\u{7f}", "\u{2028}",
        ];
        let n = self.below(maxlen + 1);
        (0..n).map(|_| *self.pick(ALPHA)).collect()
    }
    pub fn ident(&mut self, maxlen: u64) -> String {
        const ALPHA: &[&str] = &["a", "b", "c", "x", "0", "1", "_", "-", ".", "é"];
        let n = 1 + self.below(maxlen.max(1));
        (0..n).map(|_| *self.pick(ALPHA)).collect()
    }
    pub fn bytes(&mut self, maxlen: u64) -> Vec<u8> {
        let n = self.below(maxlen + 1);
        (0..n).map(|_| self.below(256) as u8).collect()
    }
}

/// Shrink `choices`; `fails` runs the case and says whether the same failure still shows.
pub fn shrink(mut best: Vec<u64>, max_tries: usize, mut stop: impl FnMut() -> bool, mut fails: impl FnMut(&[u64]) -> bool) -> (Vec<u64>, usize) {
    let mut tries = 0;
    let mut improved = true;
    while improved && tries < max_tries && !stop() {
        improved = false;
        // 1. delete chunks
        let mut size = (best.len() / 2).max(1);
        while size >= 1 {
            let mut i = best.len();
            while i > 0 && tries < max_tries && !stop() {
                let lo = i.saturating_sub(size);
                let mut cand = best.clone();
                cand.drain(lo..i);
                tries += 1;
                if cand.len() < best.len() && fails(&cand) {
                    best = cand;
                    improved = true;
                    i = lo.min(best.len());
                } else {
                    i = lo;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // 2. zero / lower single values
        for i in 0..best.len() {
            if tries >= max_tries || stop() {
                break;
            }
            if best[i] == 0 {
                continue;
            }
            for v in [0, best[i] / 2, best[i] - 1] {
                if v >= best[i] {
                    continue;
                }
                let mut cand = best.clone();
                cand[i] = v;
                tries += 1;
                if fails(&cand) {
                    best = cand;
                    improved = true;
                    break;
                }
            }
        }
    }
    while best.last() == Some(&0) {
        best.pop();
    }
    (best, tries)
}

pub fn hash64(s: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}
