//! Workload generators: input bytes, sizes, options, splits.

use crate::rng::Rng;
use deflate::{CompressionOptions, MatchingType, SpecialOptions};

/// Sizes at which the encoder changes what it does: its block limit, its window, its input
/// buffer, the largest stored block, and their multiples.
pub const EDGES: [usize; 24] = [
    258, 31744, 32767, 32768, 33026, 63488, 65534, 65535, 65536, 65537, 65794, 65795, 95232, 98304,
    98562, 126976, 131072, 131330, 163840, 164098, 196608, 196866, 229376, 262144,
];

pub fn size(rng: &mut Rng, max: usize) -> usize {
    let n = match rng.below(10) {
        0 => rng.below(20),
        1 => rng.below(300),
        2 => rng.below(4000),
        3 | 4 | 5 => {
            let e = *rng.pick(&EDGES);
            let d = rng.below(600) as i64 - 300;
            let d = if rng.chance(1, 2) { d } else { d / 60 };
            (e as i64 + d).max(0) as usize
        }
        6 => rng.range(20_000, 140_000),
        _ => rng.logrange(1, max.max(2)),
    };
    n.min(max)
}

pub const LENS: [usize; 26] = [
    1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 18, 31, 32, 33, 66, 67, 130, 131, 226, 227, 256, 257,
    258,
];

pub fn copy_len(rng: &mut Rng) -> usize {
    match rng.below(5) {
        0 => *rng.pick(&LENS),
        1 => rng.range(3, 10),
        2 => rng.range(3, 258),
        3 => rng.range(255, 600),
        _ => rng.logrange(3, 5000),
    }
}

pub fn copy_dist(rng: &mut Rng, avail: usize) -> usize {
    // avail >= 1
    let d = match rng.below(8) {
        0 => rng.range(1, 8),
        1 => {
            let k = rng.range(0, 15);
            let e = rng.range(0, 2);
            ((1usize << k) + e).saturating_sub(1)
        }
        2 => {
            let k = rng.range(1, 14);
            let e = rng.range(0, 2);
            ((3usize << k) / 2 + e).saturating_sub(1)
        }
        3 => rng.range(32768 - 300, 32768 + 3),
        4 => *rng.pick(&[32768, 32767, 32766, 32769, 32768 - 258, 8192, 8193, 8194, 24577, 24576]),
        5 => rng.range(8000, 8400),
        _ => rng.logrange(1, 32768),
    };
    d.clamp(1, avail)
}

fn alphabet(rng: &mut Rng) -> Vec<u8> {
    let k = match rng.below(6) {
        0 => rng.range(1, 3),
        1 => rng.range(2, 20),
        2 => rng.range(20, 100),
        3 => rng.range(230, 256),
        _ => rng.range(1, 256),
    };
    let mut all: Vec<u8> = (0..=255).collect();
    if rng.chance(1, 2) {
        rng.shuffle(&mut all);
    } else {
        let r = rng.below(256);
        all.rotate_left(r);
    }
    all.truncate(k);
    all
}

fn seg_random(rng: &mut Rng, out: &mut Vec<u8>, n: usize) {
    rng.fill(out, n);
}

fn seg_alpha(rng: &mut Rng, out: &mut Vec<u8>, n: usize) {
    let a = alphabet(rng);
    for _ in 0..n {
        let b = a[rng.below(a.len())];
        out.push(b);
    }
}

fn seg_runs(rng: &mut Rng, out: &mut Vec<u8>, n: usize) {
    let a = alphabet(rng);
    let end = out.len() + n;
    let style = rng.below(4);
    while out.len() < end {
        let b = a[rng.below(a.len())];
        let l = match style {
            0 => rng.range(1, 6),
            1 => *rng.pick(&[1, 2, 3, 4, 257, 258, 259, 260, 261, 516, 517, 518]),
            2 => rng.logrange(1, 3000),
            _ => rng.logrange(1, 70000),
        };
        let l = l.min(end - out.len());
        out.resize(out.len() + l, b);
    }
}

fn seg_tokens(rng: &mut Rng, out: &mut Vec<u8>, n: usize) {
    let a = alphabet(rng);
    let end = out.len() + n;
    let lit_run = rng.logrange(1, 200);
    let fixed_len = rng.chance(1, 3).then(|| copy_len(rng));
    let fixed_dist = rng.chance(1, 4).then(|| copy_dist(rng, 40000));
    while out.len() < end {
        let k = rng.below(lit_run + 1);
        for _ in 0..k {
            let b = a[rng.below(a.len())];
            out.push(b);
        }
        if out.is_empty() {
            out.push(a[0]);
        }
        let l = fixed_len.unwrap_or_else(|| copy_len(rng));
        let d = match fixed_dist {
            Some(d) => d.min(out.len()),
            None => {
                let avail = out.len();
                copy_dist(rng, avail)
            }
        };
        for _ in 0..l {
            let b = out[out.len() - d];
            out.push(b);
        }
    }
    out.truncate(end);
}

const SYL: [&str; 32] = [
    "the", "and", "ing", "ion", "ent", "her", "for", "tha", "nth", "int", "ere", "tio", "ter", "est",
    "ers", "ati", "hat", "ate", "all", "eth", "hes", "ver", "his", "oft", "ith", "fth", "sth", "oth",
    "res", "ont", "alice", "rabbit",
];

fn seg_text(rng: &mut Rng, out: &mut Vec<u8>, n: usize) {
    let end = out.len() + n;
    // a Zipf-ish vocabulary
    let v = rng.range(20, 600);
    let words: Vec<String> = (0..v)
        .map(|_| {
            let k = rng.range(1, 4);
            let mut w = String::new();
            for _ in 0..k {
                w.push_str(rng.pick(&SYL));
            }
            w
        })
        .collect();
    while out.len() < end {
        let i = rng.logrange(1, v) - 1;
        out.extend_from_slice(words[i].as_bytes());
        out.push(if rng.chance(1, 12) {
            b'\n'
        } else if rng.chance(1, 9) {
            b','
        } else {
            b' '
        });
    }
    out.truncate(end);
}

/// Skewed symbol frequencies (Fibonacci or geometric), shuffled: drives code lengths to the limit.
fn seg_skew(rng: &mut Rng, out: &mut Vec<u8>, n: usize) {
    let a = {
        let mut all: Vec<u8> = (0..=255).collect();
        rng.shuffle(&mut all);
        all
    };
    let k = rng.range(2, 40);
    let mut w: Vec<u64> = Vec::new();
    let style = rng.below(4);
    let (mut x, mut y) = (1u64, 1u64);
    for i in 0..k {
        let f = match style {
            0 | 1 => {
                let f = x;
                let z = x + y;
                x = y;
                y = z;
                f
            }
            2 => 1u64 << (i / 2).min(30),
            _ => 1u64 << i.min(30),
        };
        w.push(f);
    }
    if style == 1 {
        // exact Fibonacci counts, as a shuffled multiset, repeated to fill n
        let end = out.len() + n;
        let mut one: Vec<u8> = Vec::new();
        for (i, &f) in w.iter().enumerate() {
            if one.len() as u64 + f > 31743 {
                break;
            }
            for _ in 0..f {
                one.push(a[i]);
            }
        }
        while out.len() < end {
            rng.shuffle(&mut one);
            let t = (end - out.len()).min(one.len());
            out.extend_from_slice(&one[..t]);
        }
        return;
    }
    let total: u64 = w.iter().sum();
    let cum: Vec<u64> = w
        .iter()
        .scan(0u64, |s, &f| {
            *s += f;
            Some(*s)
        })
        .collect();
    for _ in 0..n {
        let r = (rng.u64() % total) + 0;
        let i = cum.partition_point(|&c| c <= r);
        out.push(a[i]);
    }
}

/// Almost incompressible: dynamic and stored blocks are close in size.
fn seg_borderline(rng: &mut Rng, out: &mut Vec<u8>, n: usize) {
    let k = rng.range(225, 256);
    let mut a: Vec<u8> = (0..=255).collect();
    rng.shuffle(&mut a);
    let rep = rng.logrange(1, 4000);
    let end = out.len() + n;
    while out.len() < end {
        let b = a[rng.below(k)];
        out.push(b);
        if rng.below(rep) == 0 && out.len() > 4 {
            let avail = out.len();
            let d = copy_dist(rng, avail);
            let l = rng.range(3, 9).min(end.saturating_sub(out.len()));
            for _ in 0..l {
                let c = out[out.len() - d];
                out.push(c);
            }
        }
    }
    out.truncate(end);
}

fn seg_period(rng: &mut Rng, out: &mut Vec<u8>, n: usize) {
    let p = match rng.below(5) {
        0 => rng.range(1, 10),
        1 => rng.range(1, 600),
        2 => rng.range(32760, 32776),
        3 => rng.range(250, 270),
        _ => rng.logrange(1, 40000),
    };
    let start = out.len();
    let end = start + n;
    let m = p.min(n);
    let a = alphabet(rng);
    for _ in 0..m {
        let b = a[rng.below(a.len())];
        out.push(b);
    }
    while out.len() < end {
        let b = if rng.below(3000) == 0 {
            a[rng.below(a.len())]
        } else {
            out[out.len() - p]
        };
        out.push(b);
    }
}

/// Counters and records: structured binary.
fn seg_binary(rng: &mut Rng, out: &mut Vec<u8>, n: usize) {
    let end = out.len() + n;
    let w = rng.range(1, 40);
    let step = rng.below(7) as u64;
    let mut rec: Vec<u8> = Vec::new();
    rng.fill(&mut rec, w);
    let mut c = rng.u64();
    let noise = rng.range(0, 3);
    while out.len() < end {
        c = c.wrapping_add(step);
        let cb = c.to_be_bytes();
        let k = w.min(8);
        rec[..k].copy_from_slice(&cb[8 - k..]);
        for _ in 0..noise {
            let i = rng.below(w);
            rec[i] = rng.byte() & 0x0f;
        }
        out.extend_from_slice(&rec);
    }
    out.truncate(end);
}

pub const KINDS: usize = 11;
pub const ALIGNED: usize = 11;
pub const KIND_NAMES: [&str; KINDS + 1] = [
    "random", "alphabet", "runs", "tokens", "text", "skewed", "borderline", "periodic", "binary",
    "mixed", "repeat-far",
    "aligned",
];

pub fn segment(rng: &mut Rng, out: &mut Vec<u8>, kind: usize, n: usize) {
    match kind {
        0 => seg_random(rng, out, n),
        1 => seg_alpha(rng, out, n),
        2 => seg_runs(rng, out, n),
        3 => seg_tokens(rng, out, n),
        4 => seg_text(rng, out, n),
        5 => seg_skew(rng, out, n),
        6 => seg_borderline(rng, out, n),
        7 => seg_period(rng, out, n),
        8 => seg_binary(rng, out, n),
        9 => {
            let end = out.len() + n;
            while out.len() < end {
                let k = rng.below(9);
                let m = size(rng, (end - out.len()).min(70_000)).clamp(1, end - out.len());
                segment(rng, out, k, m);
            }
            out.truncate(end);
        }
        _ => {
            // an incompressible stretch repeated
            let r = match rng.below(3) {
                0 => rng.range(1, 600),
                1 => rng.range(30000, 32768),
                _ => rng.logrange(10, 32768),
            };
            let mut blk = Vec::new();
            rng.fill(&mut blk, r);
            let end = out.len() + n;
            while out.len() < end {
                out.extend_from_slice(&blk);
                if rng.chance(1, 4) {
                    let k = rng.below(20);
                    rng.fill(out, k);
                }
            }
            out.truncate(end);
        }
    }
}

/// Bytes in which no three bytes occur twice unless a copy is asked for, so that a match search
/// finds exactly the copies (or, for run-length mode, the runs) asked for: the number of symbols
/// the encoder puts out is known at every point.
struct Exact {
    seen: Vec<u64>,
    out: Vec<u8>,
    symbols: usize,
    alpha: Vec<u8>,
    rle: bool,
}

impl Exact {
    fn new(rng: &mut Rng, rle: bool) -> Exact {
        let n = match rng.below(4) {
            0 => rng.range(90, 200),
            1 => rng.range(220, 256),
            _ => 256,
        };
        let mut alpha: Vec<u8> = (0..=255).collect();
        for i in (1..256).rev() {
            alpha.swap(i, rng.below(i + 1));
        }
        alpha.truncate(n);
        Exact { seen: vec![0; 1 << 18], out: Vec::new(), symbols: 0, alpha, rle }
    }
    fn key(a: u8, b: u8, c: u8) -> usize {
        (a as usize) << 16 | (b as usize) << 8 | c as usize
    }
    fn fresh(&self, a: u8, b: u8, c: u8) -> bool {
        let k = Self::key(a, b, c);
        self.seen[k >> 6] >> (k & 63) & 1 == 0
    }
    fn push(&mut self, b: u8) {
        let n = self.out.len();
        if n >= 2 {
            let k = Self::key(self.out[n - 2], self.out[n - 1], b);
            self.seen[k >> 6] |= 1 << (k & 63);
        }
        self.out.push(b);
    }
    fn literal(&mut self, rng: &mut Rng) {
        let n = self.out.len();
        let mut b = *rng.pick(&self.alpha);
        for _ in 0..60 {
            if n < 2 || (self.fresh(self.out[n - 2], self.out[n - 1], b) && b != self.out[n - 1]) {
                break;
            }
            b = *rng.pick(&self.alpha);
        }
        self.push(b);
        self.symbols += 1;
    }
    /// One match of this length (preceded by one literal in run-length mode, if need be).
    fn copy(&mut self, rng: &mut Rng, len: usize) {
        let n = self.out.len();
        if n < 600 || n < len + 3 {
            return self.literal(rng);
        }
        if self.rle {
            let b = self.out[n - 1];
            for _ in 0..len {
                self.push(b);
            }
            self.symbols += 1;
            return;
        }
        let far = if len == 3 { 8000 } else { 32768 };
        let lo = n.saturating_sub(far);
        for _ in 0..40 {
            let from = rng.range(lo, (n - len).max(lo));
            if from + len > n {
                break;
            }
            let s = &self.out[from..from + len];
            if self.fresh(self.out[n - 2], self.out[n - 1], s[0])
                && self.fresh(self.out[n - 1], s[0], s[1])
            {
                let s = s.to_vec();
                for b in s {
                    self.push(b);
                }
                self.symbols += 1;
                return;
            }
        }
        self.literal(rng)
    }
}

/// The most symbols a block takes.
const BLOCK: usize = 31744;

/// Input made so that a block becomes full with its last symbol at, just before or across the end
/// of a window, together with the positions at which to flush for that (none if `flushes` is
/// false).
pub fn aligned(rng: &mut Rng, rle: bool, flushes: bool, cap: usize) -> (Vec<u8>, Vec<usize>) {
    let mut x = Exact::new(rng, rle);
    let kmax = (cap / 32768).clamp(1, 3);
    let k = rng.range(1, kmax);
    let edge = 32768 * k;
    let last = match rng.below(5) {
        0 => 1,
        1 => rng.range(3, 6),
        2 => rng.range(3, 40),
        3 => *rng.pick(&LENS[2..]),
        _ => rng.range(200, 258),
    };
    // where the last symbol begins
    let at = match rng.below(4) {
        0 => edge - rng.below(4),
        1 => edge + 1 - rng.range(1, last),
        2 => edge + 4 - rng.below(last + 8),
        _ => edge - 1,
    };
    let mid = if rng.chance(2, 3) { 0 } else { rng.range(1, 6) };
    let mid: Vec<usize> = (0..mid).map(|_| rng.range(3, 20)).collect();
    let saved: usize = mid.iter().map(|l| l - 1).sum();
    let full = at.saturating_sub(BLOCK - 1 + saved);
    let mut flush_at = Vec::new();
    // what comes before that block
    let mut limit = BLOCK;
    if flushes && (k == 1 || rng.chance(2, 3)) {
        let pre = if rng.chance(1, 3) { rng.logrange(1, 40) } else { 0 };
        for _ in 0..pre {
            let l = if rng.chance(1, 2) { rng.range(3, 258) } else { rng.range(3, 8) };
            if x.out.len() + l + 2000 < full {
                let gap = rng.below(1000);
                for _ in 0..gap {
                    if x.out.len() + l < full {
                        x.literal(rng);
                    }
                }
                x.copy(rng, l);
            }
        }
        while x.out.len() < full {
            x.literal(rng);
        }
        flush_at.push(x.out.len());
        x.symbols = 0;
    } else {
        // whole blocks of symbols, with as much saved by copies as it takes
        let blocks = if full >= BLOCK { full / BLOCK } else { 0 };
        let mut to_save = full - blocks * BLOCK;
        if blocks == 0 {
            // the first block itself has to become full there
            to_save = (at + 1).saturating_sub(BLOCK);
        }
        let big = rng.chance(2, 3);
        let until = if blocks == 0 { BLOCK - 1 } else { blocks * BLOCK };
        let gap = (until / (to_save / if big { 258 } else { 12 } + 2)).max(2);
        while x.symbols < until {
            if to_save >= 2 && x.symbols > 800 && rng.below(gap / 2 + 1) == 0 {
                let l = if big { 258.min(to_save + 1) } else { rng.range(3, 20).min(to_save + 1) };
                let n = x.out.len();
                x.copy(rng, l);
                to_save -= (x.out.len() - n - 1).min(to_save);
            } else {
                x.literal(rng);
            }
        }
        limit = blocks * BLOCK + BLOCK;
    }
    let mut mid = mid.into_iter();
    while x.symbols + 1 < limit {
        if x.out.len() > 1000 && rng.below(3000) == 0 {
            if let Some(l) = mid.next() {
                x.copy(rng, l);
                continue;
            }
        }
        if x.symbols + 20 > limit {
            if let Some(l) = mid.next() {
                x.copy(rng, l);
                continue;
            }
        }
        x.literal(rng);
    }
    if last > 1 {
        x.copy(rng, last);
    } else {
        x.literal(rng);
    }
    if flushes && rng.chance(1, 8) {
        flush_at.push(x.out.len() - rng.below(3));
    }
    let tail = match rng.below(8) {
        0 | 6 => 0,
        1 | 7 => rng.below(4),
        2 => rng.below(600),
        3 => rng.range(32000, 33600),
        _ => rng.logrange(1, 34000),
    };
    if rng.chance(2, 3) {
        for _ in 0..tail {
            x.literal(rng);
        }
    } else {
        let k = rng.below(9);
        segment(rng, &mut x.out, k, tail);
    }
    (x.out, flush_at)
}

pub struct Input {
    pub kind: usize,
    pub data: Vec<u8>,
}

pub fn input(rng: &mut Rng, max: usize) -> Input {
    if max >= 70_000 && rng.chance(1, 16) {
        let rle = rng.chance(1, 5);
        let (mut data, _) = aligned(rng, rle, false, max);
        data.truncate(max);
        return Input { kind: ALIGNED, data };
    }
    let n = size(rng, max);
    let kind = rng.below(KINDS);
    let mut data = Vec::with_capacity(n + 16);
    segment(rng, &mut data, kind, n);
    Input { kind, data }
}

pub fn options(rng: &mut Rng) -> CompressionOptions {
    match rng.below(10) {
        0 | 1 => CompressionOptions::default(),
        2 | 3 => CompressionOptions::fast(),
        4 => CompressionOptions::high(),
        5 => CompressionOptions::rle(),
        6 => CompressionOptions::huffman_only(),
        _ => {
            let max_hash_checks = match rng.below(3) {
                0 => *rng.pick(&[0u16, 1, 2, 3, 4, 5, 8, 16]),
                1 => *rng.pick(&[32, 64, 128, 500, 1768, 4096, 32767, 32768, 65535]),
                _ => rng.logrange(1, 65535) as u16,
            };
            let lazy_if_less_than = match rng.below(2) {
                0 => *rng.pick(&[0u16, 1, 2, 3, 4, 5, 8, 32, 128, 257, 258, 259, 32768, 43212, 65535]),
                _ => rng.logrange(1, 400) as u16,
            };
            let matching_type = if rng.chance(2, 3) {
                MatchingType::Lazy
            } else {
                MatchingType::Greedy
            };
            let special = match rng.below(8) {
                0 => SpecialOptions::_ForceFixed,
                1 => SpecialOptions::_ForceStored,
                _ => SpecialOptions::Normal,
            };
            CompressionOptions {
                max_hash_checks,
                lazy_if_less_than,
                matching_type,
                special,
            }
        }
    }
}

/// Upper bound for the input size with these options, so that a case stays cheap: the match
/// search costs up to `max_hash_checks` probes per position on degenerate data.
pub fn size_cap(o: &CompressionOptions, max: usize) -> usize {
    match o.max_hash_checks {
        0..=130 => max,
        131..=600 => max.min(200_000),
        601..=2000 => max.min(140_000),
        _ => max.min(72_000),
    }
}

pub fn show(o: &CompressionOptions) -> String {
    format!(
        "checks={} lazy_if<{} {:?}{}",
        o.max_hash_checks,
        o.lazy_if_less_than,
        o.matching_type,
        match o.special {
            SpecialOptions::Normal => "",
            SpecialOptions::_ForceFixed => " special=_ForceFixed",
            SpecialOptions::_ForceStored => " special=_ForceStored",
        }
    )
}

/// Piece sizes for splitting `n` bytes into writes.
pub fn split(rng: &mut Rng, n: usize) -> Vec<usize> {
    let mut v = Vec::new();
    let mut left = n;
    let style = rng.below(7);
    let fixed = match style {
        0 => Some(*rng.pick(&[1usize, 2, 3, 7])).filter(|_| n <= 3000),
        1 => Some(*rng.pick(&[50usize, 258, 400, 1000])).filter(|_| n <= 100_000),
        2 => Some(*rng.pick(&[31744usize, 32767, 32768, 32769, 65535, 65536, 65537, 65794, 65795])),
        _ => None,
    };
    while left > 0 {
        let k = match fixed {
            Some(k) => k,
            None => match style {
                3 => rng.logrange(1, left),
                4 => {
                    if rng.chance(1, 2) {
                        rng.range(1, 3)
                    } else {
                        rng.logrange(1, 40000)
                    }
                }
                5 => size(rng, 70_000).max(1),
                _ => rng.logrange((n / 40).max(1), (n / 3).max(2)),
            },
        };
        let k = k.clamp(1, left);
        v.push(k);
        left -= k;
        if v.len() > 4000 {
            v.push(left);
            break;
        }
    }
    if rng.chance(1, 8) {
        let i = rng.below(v.len() + 1);
        v.insert(i, 0);
    }
    v.retain({
        let keep_zero = true;
        move |&k| k > 0 || keep_zero
    });
    v
}
