//! C15..C20: how good the output is, judged on the decoded trace of blocks and symbols.

use crate::decode::{check, differ, Decoded};
use crate::enc::{oneshot, Format, FORMATS};
use crate::gen;
use crate::inflate::{fixed_ll_len, Block, Kind, LEXTRA, DEXTRA};
use crate::plan::{encode, ops_for, plan, plan_with, Op, Plan};
use crate::rng::Rng;
use crate::run::{Case, Prop, Res, Stream};
use crate::sums::fnv;
use deflate::{Compression, CompressionOptions, MatchingType, SpecialOptions};

/// Largest number of input bytes an uncompressible block of the encoder is allowed to cost
/// overhead for: the bound charges one block's overhead for each such piece.
const PIECE: u64 = 31_744;

// ------------------------------------------------------------------ C15

fn c15_judge(c: &mut Case, p: &Plan, out: &[u8]) -> Res {
    let d = check(p.f, out, &p.data, false).map_err(|m| format!("{}: {}", p.show(), m))?;
    let container = (out.len() - d.body) as u64;
    let n = p.data.len() as u64;
    let fl = p.flushes() as u64;
    let bound = n + 10 + 5 * (n / PIECE) + 12 * fl;
    let body = d.body as u64;
    if body > bound {
        return Err(format!(
            "{}: {} bytes of data became {} bytes of deflate data, bound {}",
            p.show(), n, body, bound
        ));
    }
    let most = match p.f {
        Format::Raw => 0,
        Format::Zlib => 6,
        #[cfg(feature = "gz")]
        Format::Gz => 18,
    };
    if container > most {
        return Err(format!("{}: container of {} bytes", p.show(), container));
    }
    if n > 0 && fl == 0 {
        let over = (body as i64 - n as i64).max(0) as u64;
        c.obs.top("overhead_bytes_per_100_pieces", over * 100 / (n / PIECE + 1));
    }
    if fl > 0 {
        let over = (body as i64 - n as i64 - 10 - (5 * (n / PIECE)) as i64).max(0) as u64;
        c.obs.top("overhead_bytes_per_100_flushes", over * 100 / fl);
    }
    c.obs.trace(&d.inf);
    c.obs.case(p.hash(), body > n, || format!("{} -> {} bytes (bound {})", p.show(), body, bound));
    Ok(())
}

/// Data no option can compress, and data on the border.
fn c15_hard(c: &mut Case) -> Res {
    let fl = c.rng.chance(1, 4);
    let mut p = plan(&mut c.rng, 10, fl);
    let n = gen::size(&mut c.rng, gen::size_cap(&p.o, 400_000));
    p.kind = *c.rng.pick(&[0usize, 0, 6, 6, 1]);
    p.data.clear();
    gen::segment(&mut c.rng, &mut p.data, p.kind, n);
    p.data.truncate(n);
    p.ops = ops_for(&mut c.rng, n, fl);
    let out = encode(&p, c.obs).map_err(|m| format!("{}: {}", p.show(), m))?;
    c15_judge(c, &p, &out)
}

fn c15_mixed(c: &mut Case) -> Res {
    let p = plan(&mut c.rng, 200_000, true);
    let out = encode(&p, c.obs).map_err(|m| format!("{}: {}", p.show(), m))?;
    c15_judge(c, &p, &out)
}

/// Random bytes salted with three-byte repeats: matches that cost more than they save.
fn c15_traps(c: &mut Case) -> Res {
    let o = gen::options(&mut c.rng);
    let n = gen::size(&mut c.rng, gen::size_cap(&o, 200_000)).max(10);
    let mut data = Vec::new();
    let gap = c.rng.logrange(1, 30);
    while data.len() < n {
        let k = c.rng.range(1, gap);
        c.rng.fill(&mut data, k);
        if data.len() > 30_000 || c.rng.chance(1, 3) {
            let a = data.len();
            let d = if c.rng.chance(2, 3) { c.rng.range(1, a.min(32768)) } else { a.min(32768) };
            for _ in 0..c.rng.range(3, 4) {
                let b = data[data.len() - d];
                data.push(b);
            }
        }
    }
    data.truncate(n);
    let f = *c.rng.pick(&FORMATS);
    let ops = ops_for(&mut c.rng, n, false);
    let p = Plan { f, o, kind: 6, data, ops, head: 0 };
    let out = encode(&p, c.obs).map_err(|m| format!("{}: {}", p.show(), m))?;
    c15_judge(c, &p, &out)
}

/// Incompressible data of every length up to a little more than two windows.
fn c15_every_length(c: &mut Case) -> Res {
    let mut d = Vec::new();
    c.rng.fill(&mut d, 140_000);
    for n in ((c.idx % 64) as usize..67_000).step_by(64) {
        let at = c.rng.below(d.len() - n);
        let f = *c.rng.pick(&FORMATS);
        let o = gen::options(&mut c.rng);
        let p = Plan { f, o, kind: 1, data: d[at..at + n].to_vec(), ops: vec![Op::W(n)], head: 0 };
        let out = oneshot(f, &p.data, o);
        c15_judge(c, &p, &out)?;
        c.obs.add("lengths_swept", 1);
    }
    Ok(())
}

pub static C15: Prop = Prop {
    id: "C15",
    rule: "size of the output against a linear bound (5 bytes per 31744 input bytes, 12 per flush, 10 once, plus the container); non-trivial: the deflate data is longer than the input, distinct by (data, options, format, operations)",
    streams: &[
        Stream { name: "every-length", quick: 64, thorough: 640, f: c15_every_length },
        Stream { name: "incompressible", quick: 3500, thorough: 80_000, f: c15_hard },
        Stream { name: "mixed", quick: 2500, thorough: 50_000, f: c15_mixed },
        Stream { name: "costly-matches", quick: 2000, thorough: 50_000, f: c15_traps },
    ],
};

// ------------------------------------------------------------------ costs

fn fixed_cost(b: &Block) -> u64 {
    let mut n = 3 + b.extra_bits;
    for (s, &f) in b.ll_freq.iter().enumerate().take(286) {
        n += f as u64 * fixed_ll_len(s) as u64;
    }
    for &f in b.d_freq.iter().take(30) {
        n += f as u64 * 5;
    }
    n
}

/// Bits to store these bytes starting at this bit position (in blocks of at most 32767 bytes, the
/// less favourable of the sizes an encoder may pick).
fn stored_cost(start_bit: u64, n: u64) -> u64 {
    let pieces = ((n + 32766) / 32767).max(1);
    let pad = (8 - (start_bit + 3) % 8) % 8;
    3 + pad + 32 + (pieces - 1) * 40 + 8 * n
}

/// Total bits of an optimal prefix code (no limit on its lengths), and its greatest length.
pub fn huffman(freq: &[u32]) -> (u64, u32) {
    use std::collections::BinaryHeap;
    use std::cmp::Reverse;
    let used: Vec<u64> = freq.iter().filter(|f| **f > 0).map(|f| *f as u64).collect();
    match used.len() {
        0 => return (0, 0),
        1 => return (used[0], 1),
        _ => (),
    }
    // smallest depth among equals first: gives the optimal code with the least maximum length
    let mut h: BinaryHeap<Reverse<(u64, u32)>> = used.iter().map(|f| Reverse((*f, 0))).collect();
    let mut cost = 0;
    while h.len() > 1 {
        let Reverse((a, x)) = h.pop().unwrap();
        let Reverse((b, y)) = h.pop().unwrap();
        cost += a + b;
        h.push(Reverse((a + b, x.max(y) + 1)));
    }
    let Reverse((_, depth)) = h.pop().unwrap();
    (cost, depth)
}

/// Total bits of an optimal prefix code with lengths up to `limit` (package-merge).
pub fn limited(freq: &[u32], limit: u32) -> u64 {
    let mut used: Vec<u64> = freq.iter().filter(|f| **f > 0).map(|f| *f as u64).collect();
    used.sort();
    let n = used.len();
    match n {
        0 => return 0,
        1 => return used[0],
        _ => (),
    }
    let mut level = used.clone();
    for _ in 1..limit {
        let mut merged: Vec<u64> = level.chunks_exact(2).map(|p| p[0] + p[1]).collect();
        merged.extend_from_slice(&used);
        merged.sort();
        level = merged;
    }
    level[..2 * n - 2].iter().sum()
}

fn spent(freq: &[u32], len: &[u8]) -> u64 {
    freq.iter().zip(len).map(|(f, l)| *f as u64 * *l as u64).sum()
}

/// Lengths of an optimal code; which of equally frequent symbols get the shorter ones is for `tie`
/// to say. None if a length above 15 comes out.
fn code_lengths(freq: &[u32], tie: u32) -> Option<Vec<u8>> {
    let mut used: Vec<usize> = (0..freq.len()).filter(|s| freq[*s] > 0).collect();
    let mut len = vec![0u8; freq.len()];
    if used.len() < 2 {
        for s in used {
            len[s] = 1;
        }
        return Some(len);
    }
    used.sort_by_key(|s| {
        let k = match tie {
            0 => *s as u32,
            1 => u32::MAX - *s as u32,
            _ => (*s as u32).wrapping_mul(2654435761).wrapping_mul(tie),
        };
        (freq[*s], k)
    });
    // two queues: leaves and inner nodes, both in order of weight
    let n = used.len();
    let mut w: Vec<u64> = used.iter().map(|s| freq[*s] as u64).collect();
    let mut parent = vec![0usize; 2 * n - 1];
    let (mut leaf, mut inner) = (0, n);
    for _ in 0..n - 1 {
        let mut sum = 0;
        let new = w.len();
        for _ in 0..2 {
            let take = if leaf < n && (inner >= new || w[leaf] <= w[inner]) {
                leaf += 1;
                leaf - 1
            } else {
                inner += 1;
                inner - 1
            };
            sum += w[take];
            parent[take] = new;
        }
        w.push(sum);
    }
    let mut depth = vec![0u32; 2 * n - 1];
    for i in (0..2 * n - 2).rev() {
        depth[i] = depth[parent[i]] + 1;
    }
    for (i, s) in used.iter().enumerate() {
        if depth[i] > 15 {
            return None;
        }
        len[*s] = depth[i] as u8;
    }
    Some(len)
}

/// Bits for the table of a dynamic block with these code lengths, run-coded from left to right with
/// the longest run possible each time.
fn table_cost(ll: &[u8], d: &[u8]) -> u64 {
    let lens: Vec<u8> = ll.iter().chain(d).copied().collect();
    let mut f = [0u32; 19];
    let mut extra = 0u64;
    let mut i = 0;
    while i < lens.len() {
        let x = lens[i];
        let mut run = lens[i..].iter().take_while(|y| **y == x).count();
        i += run;
        if x == 0 {
            while run >= 3 {
                let k = run.min(138);
                if k > 10 {
                    f[18] += 1;
                    extra += 7;
                } else {
                    f[17] += 1;
                    extra += 3;
                }
                run -= k;
            }
        } else {
            f[x as usize] += 1;
            run -= 1;
            while run >= 3 {
                let k = run.min(6);
                f[16] += 1;
                extra += 2;
                run -= k;
            }
        }
        f[x as usize] += run as u32;
    }
    const ORDER: [usize; 19] = [16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15];
    let declared = 1 + (0..19).filter(|k| f[ORDER[*k]] > 0).max().unwrap_or(3).max(3) as u64;
    // where the limit of 7 bits bites, the encoder need not find the best code
    let cut = if huffman(&f).1 > 7 { limited(&f, 7) / 10 + 16 } else { 0 };
    14 + 3 * declared + extra + limited(&f, 7) + cut
}

fn upto_last(len: &[u8], least: usize) -> &[u8] {
    let n = len.iter().rposition(|l| *l > 0).map_or(0, |k| k + 1);
    &len[..n.max(least).min(len.len())]
}

/// Bits that a dynamic block of these symbols takes, at the worst of some ways to settle ties.
fn dynamic_cost(ll: &[u32], d: &[u32], extra: u64) -> Option<u64> {
    let mut worst = 0;
    for tie in 0..4 {
        let l = code_lengths(&ll[..286.min(ll.len())], tie)?;
        let dl = code_lengths(&d[..30.min(d.len())], tie)?;
        let t = table_cost(upto_last(&l, 257), upto_last(&dl, 1));
        worst = worst.max(3 + t + spent(ll, &l) + spent(d, &dl) + extra);
    }
    Some(worst)
}

// ------------------------------------------------------------------ C16

fn c16_judge(c: &mut Case, p: &Plan, d: &Decoded) -> Res {
    let data = &p.data[..];
    let show = || p.show();
    // with nothing but literals there is no doubt about what else the block could have been
    let literals = p.o.max_hash_checks == 0
        && p.o.matching_type == MatchingType::Greedy
        && p.o.special == SpecialOptions::Normal;
    let bl = &d.inf.blocks;
    let mut judged = 0u64;
    for (i, b) in bl.iter().enumerate() {
        let bits = b.end_bit - b.start_bit;
        let n = (b.out_end - b.out_start) as u64;
        match b.kind {
            Kind::Dynamic | Kind::Fixed => {
                let fx = fixed_cost(b);
                if b.kind == Kind::Dynamic && bits > fx {
                    return Err(format!(
                        "{}: block {} is dynamic with {} bits, the same symbols take {} with the fixed codes",
                        show(), i, bits, fx
                    ));
                }
                if n > 4 && n <= 60_000 {
                    let st = stored_cost(b.start_bit, n);
                    if bits > st {
                        return Err(format!(
                            "{}: block {} ({:?}) spends {} bits on {} bytes that could be stored in {}",
                            show(), i, b.kind, bits, n, st
                        ));
                    }
                }
                if b.kind == Kind::Fixed && n > 4 {
                    if let Some(dy) = dynamic_cost(&b.ll_freq, &b.d_freq, b.extra_bits) {
                        c.obs.top("fixed_over_dynamic_bits", bits.saturating_sub(dy));
                        if dy + 8 < bits {
                            return Err(format!(
                                "{}: block {} is fixed with {} bits, a dynamic one would take {}",
                                show(), i, bits, dy
                            ));
                        }
                    }
                }
                judged += 1;
            }
            Kind::Stored => {
                if n == 0 {
                    continue;
                }
                let s = &data[b.out_start..b.out_end];
                let mut f = [0u32; 257];
                for &x in s {
                    f[x as usize] += 1;
                }
                f[256] = 1;
                let fx: u64 = 3 + 7 + s.iter().map(|&x| fixed_ll_len(x as usize) as u64).sum::<u64>();
                let dy = dynamic_cost(&f, &[0; 30], 0).unwrap_or(u64::MAX / 2);
                // coded, the block may contain matches that do not pay; and the stored pieces of
                // one block share a decision
                let slack = if literals { 8 } else { 256 + bits / 8 };
                c.obs.top(
                    if literals { "stored_literals_over_dynamic_bits" } else { "stored_over_dynamic_bits" },
                    bits.saturating_sub(dy),
                );
                if fx + if literals { 0 } else { 64 } < bits || dy + slack < bits {
                    return Err(format!(
                        "{}: block {} stores {} bytes in {} bits; literals alone take {} with fixed codes, {} with dynamic ones",
                        show(), i, n, bits, fx, dy
                    ));
                }
                judged += 1;
            }
        }
    }
    c.obs.add("blocks_judged", judged);
    c.obs.trace(&d.inf);
    let kinds: u64 = bl.iter().fold(0, |a, b| a | 1 << (b.kind as u64));
    c.obs.case(
        fnv(data) ^ kinds ^ bl.len() as u64,
        judged > 0,
        || format!("{} -> {} blocks", show(), bl.len()),
    );
    Ok(())
}

fn c16_mixed(c: &mut Case) -> Res {
    let p = plan(&mut c.rng, 200_000, true);
    let out = encode(&p, c.obs).map_err(|m| format!("{}: {}", p.show(), m))?;
    let d = check(p.f, &out, &p.data, false).map_err(|m| format!("{}: {}", p.show(), m))?;
    c16_judge(c, &p, &d)
}

/// Small inputs and inputs on the border between the three block types.
fn c16_border(c: &mut Case) -> Res {
    for _ in 0..8 {
        let o = gen::options(&mut c.rng);
        let n = match c.rng.below(3) {
            0 => c.rng.range(1, 60),
            1 => c.rng.range(1, 1500),
            _ => c.rng.range(1, 40_000),
        };
        let n = n.min(gen::size_cap(&o, n));
        let kind = *c.rng.pick(&[0usize, 1, 4, 5, 6, 6, 3, 8]);
        let mut data = Vec::new();
        if c.rng.chance(1, 3) {
            // bytes with 9-bit fixed codes among bytes with 8-bit ones
            let hi = c.rng.range(0, 100);
            for _ in 0..n {
                let x = if c.rng.below(100) < hi { c.rng.range(144, 255) } else { c.rng.range(0, 143) };
                data.push(x as u8);
            }
        } else {
            gen::segment(&mut c.rng, &mut data, kind, n);
            data.truncate(n);
        }
        let ops = ops_for(&mut c.rng, n, c.idx % 2 == 0);
        let p = Plan { f: Format::Raw, o, kind, data, ops, head: 0 };
        let out = encode(&p, c.obs).map_err(|m| format!("{}: {}", p.show(), m))?;
        let d = check(p.f, &out, &p.data, false).map_err(|m| format!("{}: {}", p.show(), m))?;
        c16_judge(c, &p, &d)?;
    }
    Ok(())
}

/// Every length around the ones where the kind of the first block changes.
fn c16_flip(c: &mut Case) -> Res {
    let o = if c.rng.chance(1, 2) { CompressionOptions::huffman_only() } else { gen::options(&mut c.rng) };
    let most = gen::size_cap(&o, if c.rng.chance(1, 4) { 12_000 } else { 2500 });
    let mut data = Vec::new();
    let kind = *c.rng.pick(&[0usize, 1, 3, 4, 5, 6, 8]);
    match c.rng.below(4) {
        0 => {
            gen::segment(&mut c.rng, &mut data, kind, most);
            data.truncate(most);
        }
        1 => {
            let hi = c.rng.range(0, 100);
            let k = c.rng.range(1, 112);
            for _ in 0..most {
                let base = if c.rng.below(100) < hi { 144 } else { 32 };
                data.push((base + c.rng.below(k)) as u8);
            }
        }
        2 => {
            // every value of a range equally often, then a few values over and over: runs of equal
            // lengths in the table
            let k = c.rng.range(2, 256);
            let first = c.rng.range(0, 256 - k);
            let times = c.rng.range(1, 4);
            for _ in 0..times {
                for x in first..first + k {
                    data.push(x as u8);
                }
            }
            let few = c.rng.range(1, 6);
            while data.len() < most {
                data.push((first + c.rng.below(few.min(k))) as u8);
            }
        }
        _ => {
            let k = c.rng.range(2, 256);
            for _ in 0..most {
                let mut x = 0;
                while x + 1 < k && c.rng.chance(3, 4) {
                    x += 1;
                }
                data.push((x * 37) as u8);
            }
        }
    }
    let f = Format::Raw;
    let pre = if c.rng.chance(1, 3) { c.rng.range(0, 9) } else { 0 };
    let mut run = |c: &mut Case, n: usize, judge: bool| -> Result<Option<Kind>, String> {
        let n = n.min(data.len());
        // a first block of some odd number of bits
        let mut ops = Vec::new();
        let m = pre.min(n);
        if m > 0 {
            ops.push(Op::W(m));
            ops.push(Op::Flush);
        }
        ops.push(Op::W(n - m));
        let p = Plan { f, o, kind, data: data[..n].to_vec(), ops, head: 0 };
        let out = encode(&p, c.obs).map_err(|m| format!("{}: {}", p.show(), m))?;
        let d = check(f, &out, &p.data, false).map_err(|m| format!("{}: {}", p.show(), m))?;
        if judge {
            c16_judge(c, &p, &d)?;
        }
        Ok(d.inf.blocks.iter().find(|b| b.out_start == m && b.out_end > m).map(|b| b.kind))
    };
    let step = (most / 40).max(8);
    let mut last = None;
    let mut n = 5 + pre;
    while n < most {
        let k = run(c, n, true)?;
        if last.is_some() && k != last {
            for x in n - step + 1..n {
                run(c, x, true)?;
            }
            c.obs.add("flips", 1);
        }
        last = k;
        n += step;
    }
    Ok(())
}

pub static C16: Prop = Prop {
    id: "C16",
    rule: "every block of decoded output: its bits against the same symbols with fixed codes, against storing the bytes, and stored blocks against coding the bytes as literals; non-trivial: at least one block judged, distinct by (data, block kinds)",
    streams: &[
        Stream { name: "mixed", quick: 4000, thorough: 80_000, f: c16_mixed },
        Stream { name: "border", quick: 2500, thorough: 60_000, f: c16_border },
        Stream { name: "flip", quick: 2000, thorough: 40_000, f: c16_flip },
    ],
};

// ------------------------------------------------------------------ C17

fn code_ok(c: &mut Case, what: &'static str, freq: &[u32], len: &[u8], limit: u32) -> Res {
    let n = freq.len().min(len.len());
    for s in 0..n {
        if freq[s] > 0 && len[s] == 0 {
            return Err(format!("{}: symbol {} is used but has no code", what, s));
        }
    }
    let used = freq.iter().filter(|f| **f > 0).count();
    let coded = len.iter().filter(|l| **l > 0).count();
    // a code needs at least one symbol, and two to be complete
    if coded > used.max(2) {
        return Err(format!("{}: {} symbols have codes, {} are used", what, coded, used));
    }
    if used < 2 {
        if len.iter().any(|l| *l > 1) {
            return Err(format!("{}: a single symbol has a code longer than one bit", what));
        }
        return Ok(());
    }
    let (best, depth) = huffman(freq);
    let have = spent(&freq[..n], &len[..n]);
    if depth <= limit {
        if have != best {
            return Err(format!(
                "{}: {} bits for {} symbols in use, an optimal code takes {}",
                what, have, used, best
            ));
        }
        c.obs.add("codes_equal_to_optimum", 1);
    } else {
        let lim = limited(freq, limit);
        if have < lim {
            return Err(format!("harness: {} beats the limited optimum: {} < {}", what, have, lim));
        }
        c.obs.add("codes_at_length_limit", 1);
        // the encoder's way of limiting lengths is a heuristic; the more it has to cut, the more it loses
        let slack = if limit == 7 {
            c.obs.top("excess_over_limited_optimum_7_bits_ppm", (have - lim) * 1_000_000 / lim);
            lim / 10 + 16
        } else {
            c.obs.top("excess_over_limited_optimum_15_bits_ppm", (have - lim) * 1_000_000 / lim);
            lim / 50 + 8
        };
        if have - lim > slack {
            return Err(format!(
                "{}: {} bits, an optimal code of at most {} bits per symbol takes {}",
                what, have, limit, lim
            ));
        }
    }
    Ok(())
}

fn c17_judge(c: &mut Case, d: &Decoded, h: u64, show: &dyn Fn() -> String) -> Res {
    let mut dynamic = 0;
    for (i, b) in d.inf.blocks.iter().enumerate() {
        if b.kind != Kind::Dynamic {
            continue;
        }
        dynamic += 1;
        let f = |m: String| format!("{}: block {}: {}", show(), i, m);
        code_ok(c, "literal/length code", &b.ll_freq, &b.ll_len, 15).map_err(f)?;
        code_ok(c, "distance code", &b.d_freq, &b.d_len, 15).map_err(f)?;
        code_ok(c, "code length code", &b.cl_freq, &b.cl_len, 7).map_err(f)?;
        // no padding of the tables: the last declared length is of a used symbol, or the minimum
        if b.ll_len.len() > 257 && *b.ll_len.last().unwrap() == 0 {
            return Err(f(format!("{} literal/length codes are declared, the last of them unused", b.ll_len.len())));
        }
        if b.d_len.len() > 1 && *b.d_len.last().unwrap() == 0 {
            return Err(f(format!("{} distance codes are declared, the last of them unused", b.d_len.len())));
        }
        const ORDER: [usize; 19] = [16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15];
        if b.hclen > 4 && b.cl_len[ORDER[b.hclen - 1]] == 0 {
            return Err(f(format!("{} code-length codes are declared, the last of them unused", b.hclen)));
        }
        // the table must not cost more than one code per length, with no run coding at all
        let plain: u64 = {
            let mut fr = [0u32; 19];
            for l in b.ll_len.iter().chain(b.d_len.iter()) {
                fr[*l as usize] += 1;
            }
            14 + 57 + limited(&fr, 7)
        };
        let own = table_cost(&b.ll_len, &b.d_len);
        c.obs.top("table_over_own_bits", b.table_bits.saturating_sub(own));
        if b.table_bits > own + own / 16 + 16 {
            return Err(f(format!("code table takes {} bits, coding its runs takes {}", b.table_bits, own)));
        }
        if b.table_bits > plain + plain / 5 + 64 {
            return Err(f(format!("code table takes {} bits, without run coding it would take {}", b.table_bits, plain)));
        }
        // runs of zero lengths must be coded as runs
        let mut zeros = 0usize;
        let mut run = 0usize;
        for l in b.ll_len.iter().chain(b.d_len.iter()).chain(std::iter::once(&1)) {
            if *l == 0 {
                run += 1;
            } else {
                zeros += if run < 3 { run } else { run.div_ceil(138) + 2 };
                run = 0;
            }
        }
        if b.cl_freq[0] as usize > zeros {
            return Err(f(format!(
                "{} unused symbols are listed one by one where {} would do",
                b.cl_freq[0], zeros
            )));
        }
        c.obs.top("table_bits", b.table_bits);
        // no run of equal lengths takes more codes than the longest repeat each time would
        let lens: Vec<u8> = b.ll_len.iter().chain(&b.d_len).copied().collect();
        let (mut at, mut k, mut runs) = (0, 0, 0);
        while at < lens.len() {
            let x = lens[at];
            let run = lens[at..].iter().take_while(|y| **y == x).count();
            at += run;
            let (mut used, mut left) = (0, run);
            while left > 0 {
                left -= b.cl_syms[k].1 as usize;
                k += 1;
                used += 1;
            }
            let (mut least, mut left) = if x == 0 { (0, run) } else { (1, run - 1) };
            while left >= 3 {
                left -= left.min(if x == 0 { 138 } else { 6 });
                least += 1;
            }
            least += left;
            runs += (run >= 3) as u64;
            if used > least {
                return Err(f(format!("{} times the code length {} are listed in {} codes where {} would do", run, x, used, least)));
            }
        }
        c.obs.add("runs_of_lengths_judged", runs);
    }
    c.obs.add("dynamic_blocks_judged", dynamic);
    c.obs.trace(&d.inf);
    c.obs.case(h, dynamic > 0, || format!("{}: {} dynamic blocks", show(), dynamic));
    Ok(())
}

fn c17_mixed(c: &mut Case) -> Res {
    let p = plan(&mut c.rng, 150_000, true);
    let out = encode(&p, c.obs).map_err(|m| format!("{}: {}", p.show(), m))?;
    let d = check(p.f, &out, &p.data, false).map_err(|m| format!("{}: {}", p.show(), m))?;
    c17_judge(c, &d, p.hash(), &|| p.show())
}

/// Counts of symbols that make long codes, and counts at the edge of what the limit allows.
fn c17_skewed(c: &mut Case) -> Res {
    let mut data = Vec::new();
    let style = c.rng.below(4);
    let n = c.rng.logrange(30, 31_000);
    match style {
        0 => gen::segment(&mut c.rng, &mut data, 5, n),
        1 => {
            // exact Fibonacci-like counts with a random start
            let (mut a, mut b) = (c.rng.range(1, 3), c.rng.range(1, 4));
            let mut s = c.rng.byte();
            while data.len() + a < 31_000 {
                data.resize(data.len() + a, s);
                s = s.wrapping_add(c.rng.range(1, 9) as u8);
                let t = a + b;
                a = b;
                b = t;
            }
            c.rng.shuffle(&mut data);
        }
        2 => {
            // powers of two
            let mut s = c.rng.byte();
            let top = c.rng.range(3, 14);
            for k in 0..=top {
                let m = (1usize << k).saturating_sub(c.rng.below(2)).max(1);
                if data.len() + m > 31_000 {
                    break;
                }
                data.resize(data.len() + m, s);
                s = s.wrapping_add(1);
            }
            c.rng.shuffle(&mut data);
        }
        _ => {
            // many rare symbols and one common
            let k = c.rng.range(1, 250);
            for i in 0..k {
                data.push(i as u8);
            }
            data.resize(data.len() + n, 255);
            c.rng.shuffle(&mut data);
        }
    }
    data.truncate(31_000);
    let o = if c.rng.chance(2, 3) { CompressionOptions::huffman_only() } else { gen::options(&mut c.rng) };
    let out = oneshot(Format::Raw, &data, o);
    let d = check(Format::Raw, &out, &data, false)?;
    let h = fnv(&data) ^ fnv(gen::show(&o).as_bytes());
    let show = || format!("skewed counts style {} n={} {}", style, data.len(), gen::show(&o));
    c17_judge(c, &d, h, &show)
}

pub static C17: Prop = Prop {
    id: "C17",
    rule: "every dynamic block of decoded output: its three codes against optimal prefix codes for the symbol counts seen, table size; non-trivial: at least one dynamic block, distinct by (data, options)",
    streams: &[
        Stream { name: "mixed", quick: 4500, thorough: 80_000, f: c17_mixed },
        Stream { name: "skewed", quick: 12_000, thorough: 250_000, f: c17_skewed },
    ],
};

// ------------------------------------------------------------------ C18

fn c18_huff(c: &mut Case) -> Res {
    let mut o = CompressionOptions::huffman_only();
    if c.rng.chance(1, 2) {
        o.lazy_if_less_than = c.rng.logrange(1, 65535) as u16;
    }
    let fl = c.rng.chance(1, 3);
    let p = plan_with(&mut c.rng, 200_000, fl, o);
    let out = encode(&p, c.obs).map_err(|m| format!("{}: {}", p.show(), m))?;
    let d = check(p.f, &out, &p.data, true).map_err(|m| format!("{}: {}", p.show(), m))?;
    if let Some(m) = d.inf.matches.first() {
        return Err(format!("{}: Huffman-only output holds a match {:?}", p.show(), m));
    }
    c.obs.trace(&d.inf);
    c.obs.case(p.hash(), p.data.len() > 2, || p.show());
    Ok(())
}

fn c18_rle_judge(c: &mut Case, p: &Plan) -> Res {
    let out = encode(p, c.obs).map_err(|m| format!("{}: {}", p.show(), m))?;
    let d = check(p.f, &out, &p.data, true).map_err(|m| format!("{}: {}", p.show(), m))?;
    let ms = &d.inf.matches;
    if let Some(m) = ms.iter().find(|m| m.dist != 1) {
        return Err(format!("{}: RLE output holds a match {:?}", p.show(), m));
    }
    // Runs must be found. Only where symbols are coded: a stored block has no matches. A run is cut
    // where writes and flushes and the encoder's own buffers end, so charge a run for what it may
    // leave as literals: its first byte, and up to 2 at each cut.
    let data = &p.data;
    let mut covered = vec![false; data.len()];
    for m in ms {
        for k in m.pos..m.pos + m.len as usize {
            covered[k] = true;
        }
    }
    for b in d.inf.blocks.iter().filter(|b| b.kind == Kind::Stored) {
        for k in b.out_start..b.out_end {
            covered[k] = true;
        }
    }
    let mut cuts: Vec<usize> = Vec::new();
    let mut at = 0;
    for o in &p.ops {
        match o {
            Op::W(n) => at += n,
            Op::Flush => cuts.push(at),
        }
    }
    let mut i = 0;
    let mut runs = 0u64;
    let mut excess = 0usize;
    while i < data.len() {
        let mut j = i + 1;
        while j < data.len() && data[j] == data[i] {
            j += 1;
        }
        if j - i >= 4 {
            runs += 1;
            let lits = (i..j).filter(|k| !covered[*k]).count();
            let nc = cuts.iter().filter(|x| **x > i && **x < j).count();
            // one literal to start with; every 258 bytes the remainder may be too short for a
            // match; each flush, and each turn of a buffer (at most one per 30000 bytes), as well
            let allow = 3 + 3 * nc + 3 * ((j - i) / 30_000 + 1);
            c.obs.top("literals_left_in_a_run", lits as u64);
            // uncut, exactly the first byte and what is left after matches of 258 stay literals;
            // a cut makes two remainders of up to 2 of one, so adds up to 4
            let rest = (j - i - 1) % 258;
            excess += lits.saturating_sub(1 + if rest < 3 { rest } else { 0 });
            if lits > allow {
                return Err(format!(
                    "{}: a run of {} equal bytes at {} keeps {} literals, at most {} expected",
                    p.show(), j - i, i, lits, allow
                ));
            }
        }
        i = j;
    }
    // ... and the same over the whole stream, where the cuts (wherever they are) do not leave room
    // for a loss at every run
    let allow = 4 * (cuts.len() + data.len() / 30_000 + 1);
    c.obs.top("literals_left_in_runs_beyond_the_unavoidable", excess as u64);
    c.obs.top("permille_of_allowance", (excess * 1000 / allow) as u64);
    if excess > allow {
        return Err(format!(
            "{}: the runs keep {} literals more than they would on their own, at most {} expected for {} flushes",
            p.show(), excess, allow, cuts.len()
        ));
    }
    c.obs.add("runs_judged", runs);
    c.obs.trace(&d.inf);
    c.obs.case(p.hash(), runs > 0, || p.show());
    Ok(())
}

fn c18_rle(c: &mut Case) -> Res {
    let mut o = CompressionOptions::rle();
    if c.rng.chance(1, 2) {
        o.lazy_if_less_than = c.rng.logrange(1, 65535) as u16;
    }
    let fl = c.rng.chance(1, 3);
    let p = plan_with(&mut c.rng, 200_000, fl, o);
    c18_rle_judge(c, &p)
}

fn c18_rle_runs(c: &mut Case) -> Res {
    let mut o = CompressionOptions::rle();
    if c.rng.chance(1, 3) {
        o.lazy_if_less_than = *c.rng.pick(&[1u16, 3, 32, 258, 65535]);
    }
    let fl = c.rng.chance(1, 4);
    let mut p = plan_with(&mut c.rng, 10, fl, o);
    let n = gen::size(&mut c.rng, 300_000);
    p.data.clear();
    p.kind = 2;
    gen::segment(&mut c.rng, &mut p.data, 2, n);
    p.data.truncate(n);
    p.ops = ops_for(&mut c.rng, n, fl);
    c18_rle_judge(c, &p)
}

pub static C18: Prop = Prop {
    id: "C18",
    rule: "output of the Huffman-only and run-length modes (any lazy limit), decoded to symbols: no match at all, respectively only distance 1 and every run found; non-trivial: 3 bytes, respectively a run judged, distinct by history",
    streams: &[
        Stream { name: "huffman-only", quick: 3500, thorough: 60_000, f: c18_huff },
        Stream { name: "rle", quick: 3500, thorough: 60_000, f: c18_rle },
        Stream { name: "rle-runs", quick: 2500, thorough: 60_000, f: c18_rle_runs },
    ],
};

// ------------------------------------------------------------------ C19

fn opt(h: u16, l: u16, m: MatchingType) -> CompressionOptions {
    CompressionOptions {
        max_hash_checks: h,
        lazy_if_less_than: l,
        matching_type: m,
        special: SpecialOptions::Normal,
    }
}

fn equal_pair(f: Format, data: &[u8], a: CompressionOptions, b: CompressionOptions) -> Res {
    let x = oneshot(f, data, a);
    let y = oneshot(f, data, b);
    differ("output", &x, &y).map_err(|m| {
        format!("{:?} n={}: [{}] and [{}] should be the same: {}", f, data.len(), gen::show(&a), gen::show(&b), m)
    })
}

fn c19_presets(c: &mut Case) -> Res {
    let inp = gen::input(&mut c.rng, 120_000);
    let d = &inp.data;
    let same = |what: &str, a: &[u8], b: &[u8]| -> Res {
        differ(what, a, b).map_err(|m| format!("n={} {}: {}", d.len(), gen::KIND_NAMES[inp.kind], m))
    };
    let def = deflate::deflate_bytes_conf(d, opt(128, 32, MatchingType::Lazy));
    same("deflate_bytes", &deflate::deflate_bytes(d), &def)?;
    same("Compression::Default", &deflate::deflate_bytes_conf(d, Compression::Default), &def)?;
    same("default options", &deflate::deflate_bytes_conf(d, CompressionOptions::default()), &def)?;
    let z = deflate::deflate_bytes_zlib_conf(d, opt(128, 32, MatchingType::Lazy));
    same("deflate_bytes_zlib", &deflate::deflate_bytes_zlib(d), &z)?;
    same("deflate data inside zlib", &z[2..z.len() - 4], &def)?;
    same(
        "Compression::Fast",
        &deflate::deflate_bytes_conf(d, Compression::Fast),
        &deflate::deflate_bytes_conf(d, CompressionOptions::fast()),
    )?;
    #[cfg(feature = "gz")]
    {
        let g = deflate::deflate_bytes_gzip(d);
        same("deflate data inside gzip", &g[10..g.len() - 8], &def)?;
        same(
            "deflate_bytes_gzip",
            &g,
            &deflate::deflate_bytes_gzip_conf(d, Compression::Default, crate::enc::GzBuilder::new()),
        )?;
    }
    if c.idx % 8 == 0 {
        same(
            "Compression::Best",
            &deflate::deflate_bytes_conf(d, Compression::Best),
            &deflate::deflate_bytes_conf(d, CompressionOptions::high()),
        )?;
    }
    c.obs.case(fnv(d), d.len() > 2, || format!("presets n={}", d.len()));
    Ok(())
}

fn c19_equivalent(c: &mut Case) -> Res {
    let f = *c.rng.pick(&FORMATS);
    let inp = gen::input(&mut c.rng, 70_000);
    let d = &inp.data;
    let h = *c.rng.pick(&[1u16, 2, 4, 16, 64, 128, 500]);
    let what = c.rng.below(5);
    match what {
        0 => {
            // above the greatest match length the lazy limit says nothing new
            let l = *c.rng.pick(&[259u16, 260, 300, 32767, 32768, 65535]);
            equal_pair(f, d, opt(h, 258, MatchingType::Lazy), opt(h, l, MatchingType::Lazy))?;
        }
        1 => {
            let l = c.rng.logrange(1, 65535) as u16;
            equal_pair(f, d, opt(h, 0, MatchingType::Greedy), opt(h, l, MatchingType::Greedy))?;
        }
        2 => {
            let s = if c.rng.chance(1, 2) { SpecialOptions::_ForceFixed } else { SpecialOptions::_ForceStored };
            let a = opt(h, *c.rng.pick(&[0u16, 32, 258]), *c.rng.pick(&[MatchingType::Lazy, MatchingType::Greedy]));
            equal_pair(f, d, a, CompressionOptions { special: s, ..a })?;
        }
        3 => {
            // no hash checks: the lazy limit says nothing
            let m = if c.rng.chance(1, 2) { MatchingType::Lazy } else { MatchingType::Greedy };
            let l = c.rng.logrange(1, 65535) as u16;
            equal_pair(f, d, opt(0, 0, m), opt(0, l, m))?;
        }
        _ => {
            // never lazy is greedy
            let a = oneshot(f, d, opt(h, 0, MatchingType::Lazy));
            let b = oneshot(f, d, opt(h, 0, MatchingType::Greedy));
            let x = a.len().abs_diff(b.len());
            let single = d.len() < 31_744;
            c.obs.top("size_difference_lazy0_greedy", x as u64);
            if (single && a != b) || x > 16 + d.len() / 31_744 * 8 {
                return Err(format!(
                    "{:?} n={} checks={}: lazy with limit 0 gives {} bytes, greedy {}",
                    f, d.len(), h, a.len(), b.len()
                ));
            }
            c.obs.add("identical_lazy0_greedy", (a == b) as u64);
        }
    }
    c.obs.case(fnv(d) ^ what as u64 ^ h as u64, d.len() > 2, || {
        format!("equivalence {} checks={} n={} {:?}", what, h, d.len(), f)
    });
    Ok(())
}

/// More than 32768 checks is 32768 checks, on chains that are that long.
fn c19_checks(c: &mut Case) -> Res {
    let mut d: Vec<u8> = Vec::new();
    let style = c.rng.below(3);
    // a match of 32 bytes or more in hand divides the number of checks by four: the longer match one
    // byte on lies between a quarter of 32768 and of 65535 links away
    let long = c.rng.chance(1, 2);
    let unit: Vec<u8> = {
        let n = if long { 3 } else { c.rng.range(2, 4) };
        (0..n).map(|i| b'a' + i as u8).collect()
    };
    let mut far = Vec::new();
    let k = if long { c.rng.range(70, 240) } else { c.rng.range(20, 60) };
    for _ in 0..k {
        far.push(c.rng.byte() | 0x80);
    }
    d.extend_from_slice(&unit);
    d.extend_from_slice(&far);
    let reps = if long { c.rng.range(8193, 10_500) } else { c.rng.range(20_000, 31_000) / unit.len() };
    for _ in 0..reps {
        d.extend_from_slice(&unit);
        if style == 1 && c.rng.below(if long { 800 } else { 40 }) == 0 {
            let b = c.rng.byte();
            d.push(b);
        }
    }
    d.push(b'Q');
    d.extend_from_slice(&unit);
    d.extend_from_slice(&far[..far.len() / 2]);
    d.extend_from_slice(b"....Q");
    d.extend_from_slice(&unit);
    d.extend_from_slice(&far);
    let l = *c.rng.pick(&[32u16, 128, 258]);
    let m = if c.rng.chance(3, 4) { MatchingType::Lazy } else { MatchingType::Greedy };
    let hi = *c.rng.pick(&[32769u16, 33000, 40_000, 49_152, 65_535]);
    equal_pair(Format::Raw, &d, opt(32768, l, m), opt(hi, l, m))?;
    c.obs.case(fnv(&d) ^ hi as u64, true, || format!("long chains n={} 32768 against {} checks", d.len(), hi));
    Ok(())
}

/// Effort pays: over a whole collection of compressible data, more checks and lazy matching do not
/// make the total bigger by more than a little.
fn c19_effort(c: &mut Case) -> Res {
    let mut tot = [0u64; 6];
    let mut n = 0u64;
    for k in 0..40 {
        let size = c.rng.range(4000, 60_000);
        let mut d = Vec::new();
        let kind = [4usize, 3, 8, 4, 9][k % 5];
        gen::segment(&mut c.rng, &mut d, kind, size);
        n += d.len() as u64;
        let os = [
            CompressionOptions::huffman_only(),
            CompressionOptions::rle(),
            CompressionOptions::fast(),
            opt(16, 0, MatchingType::Greedy),
            CompressionOptions::default(),
            opt(500, 128, MatchingType::Lazy),
        ];
        for (t, o) in tot.iter_mut().zip(os) {
            *t += oneshot(Format::Raw, &d, o).len() as u64;
        }
    }
    for k in 1..6 {
        if tot[k] * 1000 > tot[k - 1] * 1003 {
            return Err(format!(
                "sizes over one collection of {} bytes, by rising effort (huffman-only, rle, fast, greedy 16, default, lazy 500): {:?}",
                n, tot
            ));
        }
    }
    c.obs.case(tot[4], true, || format!("collection of {} bytes: {:?}", n, tot));
    Ok(())
}

/// Every value the two numeric options can have, on a small input: 64 cases of 1024 values each.
/// No value is special where the documentation says that they all mean the same.
fn c19_every_value(c: &mut Case) -> Res {
    let mut d = Vec::new();
    let n = c.rng.range(60, 400);
    let r = c.rng.below(3);
    while d.len() < n {
        match c.rng.below(4) {
            0 => {
                let b = c.rng.byte() & 0x1f;
                let k = c.rng.range(1, 40);
                d.extend(std::iter::repeat(b).take(k));
            }
            1 if d.len() > 8 => {
                let k = c.rng.range(3, d.len().min(30));
                let at = c.rng.below(d.len() - k + 1);
                let x = d[at..at + k].to_vec();
                d.extend(x);
            }
            _ => {
                for _ in 0..c.rng.range(1, 6) {
                    let b = c.rng.byte();
                    d.push(if r == 0 { b } else { b & 7 });
                }
            }
        }
    }
    let h = *c.rng.pick(&[1u16, 2, 4, 16, 128]);
    let l = *c.rng.pick(&[0u16, 3, 16, 32, 258]);
    let f = *c.rng.pick(&FORMATS);
    let of = |h: u16, l: u16, m: MatchingType| oneshot(f, &d, opt(h, l, m));
    use deflate::MatchingType::{Greedy, Lazy};
    let rle = of(0, 0, Lazy);
    let huff = of(0, 0, Greedy);
    let greedy = of(h, 0, Greedy);
    let lazy = of(h, 258, Lazy);
    let most = of(32_768, l, Lazy);
    let most_greedy = of(32_768, l, Greedy);
    let first = (c.idx % 64) * 1024;
    let mut distinct = 0;
    for v in first..first + 1024 {
        let v = v as u16;
        let same = |what: &str, a: CompressionOptions, want: &[u8]| -> Res {
            differ("output", &oneshot(f, &d, a), want)
                .map_err(|m| format!("{:?} n={} [{}], {}: {}", f, d.len(), gen::show(&a), what, m))
        };
        same("where a lazy limit means nothing (run-length mode)", opt(0, v, Lazy), &rle)?;
        same("where a lazy limit means nothing (Huffman-only mode)", opt(0, v, Greedy), &huff)?;
        same("where a lazy limit means nothing (greedy matching)", opt(h, v, Greedy), &greedy)?;
        if v >= 258 {
            same("where no match reaches the lazy limit", opt(h, v, Lazy), &lazy)?;
        }
        // (a quarter of the limit applies after a long match)
        if v as usize >= 4 * d.len() {
            same("where more checks find nothing more", opt(v, l, Lazy), &most)?;
            same("where more checks find nothing more", opt(v, l, Greedy), &most_greedy)?;
        }
        for o in [opt(v, l, Lazy), opt(h, v, Lazy), opt(v, v, Lazy)] {
            let out = oneshot(f, &d, o);
            check(f, &out, &d, false)
                .map_err(|e| format!("{:?} n={} [{}]: {}", f, d.len(), gen::show(&o), e))?;
            distinct += (out != rle && out != huff) as u64;
        }
        c.obs.add("option_values_tried", 1);
    }
    c.obs.add("outputs_unlike_the_matchless_modes", distinct);
    c.obs.case(fnv(&d) ^ first, true, || {
        format!("values {} to {} of both limits, {:?} n={} other values {} {}", first, first + 1023, f, d.len(), h, l)
    });
    Ok(())
}

pub static C19: Prop = Prop {
    id: "C19",
    rule: "pairs of options that are documented to mean the same, compared byte for byte on generated data (lazy limit 0 against greedy: by size when several blocks are needed); effort against size over collections; non-trivial: 3 bytes, distinct by (data, pair)",
    streams: &[
        Stream { name: "effort", quick: 8, thorough: 60, f: c19_effort },
        Stream { name: "every-value", quick: 64, thorough: 6400, f: c19_every_value },
        Stream { name: "presets", quick: 700, thorough: 15_000, f: c19_presets },
        Stream { name: "equivalent", quick: 5000, thorough: 100_000, f: c19_equivalent },
        Stream { name: "many-checks", quick: 1500, thorough: 20_000, f: c19_checks },
    ],
};

// ------------------------------------------------------------------ C20

/// Plants copies of earlier text in random data and looks at what is left as literals.
fn c20_planted(c: &mut Case) -> Res {
    let m = if c.rng.chance(1, 2) { MatchingType::Lazy } else { MatchingType::Greedy };
    let o = opt(
        *c.rng.pick(&[4u16, 8, 32, 128, 1768]),
        *c.rng.pick(&[0u16, 3, 32, 128, 258]),
        m,
    );
    let mut data = Vec::new();
    let pre = match c.rng.below(4) {
        0 => c.rng.range(40, 2000),
        1 => c.rng.range(32_000, 34_000),
        _ => c.rng.range(200, 140_000),
    };
    c.rng.fill(&mut data, pre);
    let reps = c.rng.range(1, 12);
    let mut plants: Vec<(usize, usize, usize)> = Vec::new();
    for _ in 0..reps {
        let l = match c.rng.below(3) {
            0 => c.rng.range(24, 60),
            1 => c.rng.range(60, 600),
            _ => c.rng.range(300, 6000),
        };
        let avail = data.len();
        // the source must be random data, not a copy: only far enough from everything planted
        let d = match c.rng.below(4) {
            0 => avail.min(32_768 - c.rng.below(4)),
            1 => avail.min(32_768 - c.rng.below(400)),
            2 => c.rng.range(l.min(avail), avail.min(32_768).max(l.min(avail))),
            _ => c.rng.logrange(l.min(avail).max(1), avail.min(32_768)),
        };
        if d < l || d > avail {
            continue;
        }
        let at = data.len();
        plants.push((at, l, d));
        for k in 0..l {
            let b = data[at - d + k];
            data.push(b);
        }
        // break the copy and go on with noise
        let b = !data[data.len() - d];
        data.push(b);
        let g = match c.rng.below(4) {
            0 => c.rng.range(10, 200),
            1 => c.rng.range(28_000, 33_000),
            _ => c.rng.range(10, 12_000),
        };
        c.rng.fill(&mut data, g);
    }
    let fl = c.rng.chance(1, 3);
    let ops = ops_for(&mut c.rng, data.len(), fl);
    let p = Plan { f: Format::Raw, o, kind: 10, data, ops, head: 0 };
    let out = encode(&p, c.obs).map_err(|m| format!("{}: {}", p.show(), m))?;
    let d = check(p.f, &out, &p.data, true).map_err(|m| format!("{}: {}", p.show(), m))?;
    c20_judge(c, &p, &d, &plants)
}

fn c20_judge(c: &mut Case, p: &Plan, d: &Decoded, plants: &[(usize, usize, usize)]) -> Res {
    let mut cov = vec![false; p.data.len() + 1];
    for m in &d.inf.matches {
        for k in m.pos..m.pos + m.len as usize {
            cov[k] = true;
        }
    }
    let mut cuts: Vec<usize> = Vec::new();
    let mut at = 0;
    for o in &p.ops {
        match o {
            Op::W(n) => at += n,
            Op::Flush => cuts.push(at),
        }
    }
    let stored: Vec<(usize, usize)> = d
        .inf
        .blocks
        .iter()
        .filter(|b| b.kind == Kind::Stored)
        .map(|b| (b.out_start, b.out_end))
        .collect();
    let blocks = &d.inf.blocks;
    for &(at, l, dist) in plants {
        let end = at + l;
        // a block may be stored when the copy is a small part of it
        let inside: usize = stored
            .iter()
            .map(|(a, b)| (*b).min(end).saturating_sub((*a).max(at)))
            .sum();
        if inside > 0 {
            // then storing must have been the cheaper choice: what this copy would have saved in
            // its block is less than what coding noise costs there
            let bl = stored.iter().find(|(a, b)| *a < end && *b > at).unwrap();
            let save: usize = plants
                .iter()
                .map(|(x, y, _)| (x + y).min(bl.1).saturating_sub((*x).max(bl.0)))
                .sum();
            let noise = (bl.1 - bl.0) - save;
            // dynamic table at most 320 bytes; random literals cost up to 1.5% more than a byte
            if save > 400 + noise / 64 + 60 {
                return Err(format!(
                    "{}: {} repeated bytes among {} in a stored block at {}..{}",
                    p.show(), save, bl.1 - bl.0, bl.0, bl.1
                ));
            }
            c.obs.add("copies_in_stored_blocks", 1);
            continue;
        }
        let lits = (at..end).filter(|k| !cov[*k]).count();
        // a flush inside the original hides the positions next to it from the search as well
        let nc = cuts
            .iter()
            .filter(|x| (**x > at && **x < end) || (**x + dist > at && **x + dist < end + 3))
            .count();
        let nb = blocks.iter().filter(|b| b.out_end > at && b.out_end < end).count();
        let allow = 3 + 3 * (nc + nb) + 2 * (l / 258 + 1);
        c.obs.top("literals_left_in_a_copy", lits as u64);
        c.obs.add("copies_judged", 1);
        if lits > allow {
            return Err(format!(
                "{}: a copy of {} bytes from {} back at {} keeps {} literals, at most {} expected",
                p.show(), l, dist, at, lits, allow
            ));
        }
    }
    c.obs.trace(&d.inf);
    c.obs.case(p.hash(), !plants.is_empty(), || format!("{} copies planted: {}", plants.len(), p.show()));
    Ok(())
}

/// A copy placed so that it lies across, just before or just after the encoder's buffer edges.
fn c20_edges(c: &mut Case) -> Res {
    let m = if c.rng.chance(1, 2) { MatchingType::Lazy } else { MatchingType::Greedy };
    let o = opt(*c.rng.pick(&[8u16, 128]), *c.rng.pick(&[3u16, 32, 258]), m);
    let e = *c.rng.pick(&[32_768usize, 33_026, 65_536, 65_794, 98_304, 98_562, 131_072, 131_330, 164_098]);
    let l = c.rng.range(30, 700);
    let at = (e + c.rng.below(900)).saturating_sub(600).max(l + 3);
    let mut data = Vec::new();
    c.rng.fill(&mut data, at);
    let dist = match c.rng.below(3) {
        0 => c.rng.range(l, at.min(32_768)),
        1 => at.min(32_768),
        _ => at.min(32_768 - c.rng.below(300)).max(l),
    };
    for k in 0..l {
        let b = data[at - dist + k];
        data.push(b);
    }
    let b = !data[data.len() - dist];
    data.push(b);
    let tail = c.rng.range(0, 3000);
    c.rng.fill(&mut data, tail);
    // make the block worth compressing, so that it is not stored: a long run of cheap bytes
    let z = c.rng.range(5000, 9000);
    if c.rng.chance(3, 4) {
        let k = data.len();
        data.resize(k + z, 0x20);
    }
    let plants = vec![(at, l, dist)];
    let n = data.len();
    let ops = match c.rng.below(3) {
        0 => vec![Op::W(n)],
        1 => {
            let cut = (at + c.rng.below(l + 60)).saturating_sub(30).min(n);
            let mut v = vec![Op::W(cut)];
            if c.rng.chance(1, 2) {
                v.push(Op::Flush);
            }
            v.push(Op::W(n - cut));
            v
        }
        _ => ops_for(&mut c.rng, n, true),
    };
    let p = Plan { f: Format::Raw, o, kind: 10, data, ops, head: 0 };
    let out = encode(&p, c.obs).map_err(|m| format!("{}: {}", p.show(), m))?;
    let d = check(p.f, &out, &p.data, true).map_err(|m| format!("{}: {}", p.show(), m))?;
    c20_judge(c, &p, &d, &plants)
}

/// Text over 64 bytes in which no three bytes in a row come again within the window, so that every
/// match there can be is one that was planted.
struct Fresh {
    data: Vec<u8>,
    last: Vec<u32>,
    /// How often these three bytes have come so far.
    count: Vec<u32>,
}
impl Fresh {
    fn new() -> Fresh {
        Fresh { data: Vec::new(), last: vec![0; 1 << 18], count: vec![0; 1 << 18] }
    }
    fn key(&self, x: u8) -> usize {
        let n = self.data.len();
        (self.data[n - 2] as usize) << 12 | (self.data[n - 1] as usize) << 6 | x as usize
    }
    fn put(&mut self, x: u8) {
        if self.data.len() >= 2 {
            let k = self.key(x);
            self.last[k] = self.data.len() as u32 + 1;
            self.count[k] += 1;
        }
        self.data.push(x);
    }
    /// Could this byte follow without making three bytes that are in the window already?
    fn new_here(&self, x: u8) -> bool {
        if self.data.len() < 2 {
            return true;
        }
        let l = self.last[self.key(x)] as usize;
        l == 0 || self.data.len() + 1 - l > 40_000
    }
    /// Copies from this far back, unless the copy would match more than was asked for, or anything
    /// else.
    fn copy(&mut self, l: usize, d: usize) -> bool {
        let at = self.data.len();
        if at < 3 || d >= at || self.data[at - d - 1] == self.data[at - 1] {
            return false;
        }
        let src = at - d;
        let z = self.data[src];
        let w = if d == 1 { z } else { self.data[src + 1] };
        // three bytes across the start of the copy must not be there already
        let (x, y) = (self.data[at - 2], self.data[at - 1]);
        if x == y && y == z && z == w {
            return false;
        }
        for (x, y, z) in [(x, y, z), (y, z, w)] {
            let k = (x as usize) << 12 | (y as usize) << 6 | z as usize;
            if self.last[k] > 0 && at - self.last[k] as usize <= 40_000 {
                return false;
            }
        }
        // and those it begins with not so often that the search gives up before it comes to them
        for i in 0..2 {
            let b = |k: usize| self.data[src + (i + k) % d] as usize;
            if self.count[b(0) << 12 | b(1) << 6 | b(2)] > 400 {
                return false;
            }
        }
        for k in 0..l {
            let x = self.data[src + k];
            self.put(x);
        }
        true
    }

    /// A byte other than the one that would carry on a copy from this far back.
    fn differ(&mut self, rng: &mut Rng, d: usize) {
        let no = self.data[self.data.len() - d];
        let mut x = no ^ 1;
        for _ in 0..200 {
            if x != no && self.new_here(x) {
                break;
            }
            x = rng.below(64) as u8;
        }
        self.put(x);
    }

    fn noise(&mut self, rng: &mut Rng, n: usize) {
        for _ in 0..n {
            let mut x = rng.below(64) as u8;
            for _ in 0..200 {
                if self.new_here(x) {
                    break;
                }
                x = rng.below(64) as u8;
            }
            self.put(x);
        }
    }
}

fn c20_lone(c: &mut Case) -> Res {
    let m = if c.rng.chance(1, 2) { MatchingType::Lazy } else { MatchingType::Greedy };
    let o = opt(*c.rng.pick(&[1768u16, 4096, 32_768]), *c.rng.pick(&[0u16, 3, 32, 128, 258]), m);
    let mut f = Fresh::new();
    let n = match c.rng.below(4) {
        0 => c.rng.range(100, 4000),
        1 => c.rng.range(30_000, 70_000),
        _ => c.rng.range(60_000, 140_000),
    };
    let mut plants: Vec<(usize, usize, usize)> = Vec::new();
    let n0 = c.rng.range(30, 300);
    f.noise(&mut c.rng, n0);
    let gaps = *c.rng.pick(&[20usize, 60, 300]);
    // a flush later put where the block after it becomes full right before a copy at a window edge
    let exact = n > 66_000 && c.rng.chance(1, 2);
    while f.data.len() < n {
        let mut edge = false;
        if c.rng.chance(1, 12) {
            // the next copy at the edge of an internal window
            let to = (f.data.len() + 6) / 32_768 * 32_768 + 32_768 + c.rng.below(6) - 3;
            if to <= n + 300 && (to - f.data.len() < 3000 || exact || c.rng.chance(1, 4)) {
                let g = to - f.data.len();
                f.noise(&mut c.rng, g);
                edge = true;
            }
        }
        let at = f.data.len();
        let l = match c.rng.below(4) {
            0 => c.rng.range(3, 4),
            1 => c.rng.range(4, 8),
            2 => c.rng.range(4, 40),
            _ => c.rng.range(4, 258),
        };
        let far = at.min(if l == 3 { 8000 } else { 32_768 });
        let d = match c.rng.below(5) {
            k if edge && k < 3 => far,
            0 => far - c.rng.below(3),
            1 => {
                // from an edge
                let e = c.rng.range(1, 5) * 32_768 + c.rng.below(8) - 4;
                if e < at { (at - e).min(far) } else { far }
            }
            2 => c.rng.logrange(1, far),
            _ => c.rng.range(1, far),
        };
        if f.copy(l, d) {
            plants.push((at, l, d));
            f.differ(&mut c.rng, d);
        }
        let g = c.rng.range(2, gaps);
        f.noise(&mut c.rng, g);
    }
    if c.rng.chance(1, 2) {
        // a copy at the very end, and the end near that of an internal window
        let l = c.rng.range(3, 12);
        let k = f.data.len() + l + 8;
        let end = if c.rng.chance(1, 4) { k } else { (k + 32_768) / 32_768 * 32_768 + c.rng.below(8) };
        let g = end - l - f.data.len();
        f.noise(&mut c.rng, g);
        let (at, d) = (f.data.len(), c.rng.logrange(1, 8000));
        if d < at && f.copy(l, d) {
            plants.push((at, l, d));
        }
    }
    let data = f.data;
    let fl = c.rng.chance(1, 3);
    let mut ops = if c.rng.chance(1, 3) { vec![Op::W(data.len())] } else { ops_for(&mut c.rng, data.len(), fl) };
    if exact {
        let edges: Vec<usize> = plants.iter().map(|p| p.0).filter(|a| (a + 3) % 32_768 < 6 && *a > 32_000).collect();
        if !edges.is_empty() {
            let at = *c.rng.pick(&edges);
            // back over a block's worth of symbols
            let mut symbols = 31_744 + c.rng.below(5) as i64 - 2;
            let mut x = at;
            let mut k = plants.iter().take_while(|p| p.0 < at).count();
            while symbols > 0 && x > 0 {
                if k > 0 && plants[k - 1].0 + plants[k - 1].1 == x {
                    k -= 1;
                    x = plants[k].0;
                } else {
                    x -= 1;
                }
                symbols -= 1;
            }
            if x > 0 {
                ops = vec![Op::W(x), Op::Flush, Op::W(data.len() - x)];
                c.obs.add("blocks_full_before_a_lone_copy_at_a_window_edge", 1);
            }
        }
    }
    let p = Plan { f: Format::Raw, o, kind: 10, data, ops, head: 0 };
    let out = encode(&p, c.obs).map_err(|m| format!("{}: {}", p.show(), m))?;
    let dec = check(p.f, &out, &p.data, true).map_err(|m| format!("{}: {}", p.show(), m))?;
    let mut cov = vec![false; p.data.len() + 1];
    for m in &dec.inf.matches {
        for k in m.pos..m.pos + m.len as usize {
            cov[k] = true;
        }
    }
    // where flushes are, and how much is written next
    let mut cuts: Vec<(usize, usize)> = Vec::new();
    let mut at = 0;
    for (k, o) in p.ops.iter().enumerate() {
        match o {
            Op::W(n) => at += n,
            Op::Flush => cuts.push((at, match p.ops.get(k + 1) {
                Some(Op::W(n)) => *n,
                _ => 0,
            })),
        }
    }
    let stored: Vec<(usize, usize)> = dec
        .inf
        .blocks
        .iter()
        .filter(|b| b.kind == Kind::Stored && b.out_end > b.out_start)
        .map(|b| (b.out_start, b.out_end))
        .collect();
    for &(at, l, d) in &plants {
        let end = at + l;
        if stored.iter().any(|(a, b)| *a < end && *b > at) {
            continue;
        }
        let lits = (at..end).filter(|k| !cov[*k]).count();
        // a flush inside the copy cuts it in two, and hides up to two positions after it; inside the
        // source it hides nothing once two bytes were written after it in one go (but at the start)
        let inside = cuts.iter().filter(|(x, _)| *x + 3 > at && *x < end + 3).count();
        let hidden = cuts
            .iter()
            .filter(|(x, next)| *x + d + 3 > at && *x + d < end + 3 && (*next < 2 || *x <= 2))
            .count();
        c.obs.add("lone_copies_judged", 1);
        c.obs.add("lone_copies_from_the_far_edge_at_a_window_edge", (d == 32_768 && at % 32_768 == 0) as u64);
        c.obs.add("lone_copies_near_a_flush", (inside + hidden > 0) as u64);
        if inside == 1 && hidden == 0 {
            c.obs.top("literals_in_a_lone_copy_with_one_flush", lits as u64);
        }
        let near = inside + hidden;
        if lits > 8 * near {
            return Err(format!(
                "{}: {} bytes of a copy of {} bytes at {} from {} back are literals, with {} flushes near; nothing else here matches",
                p.show(), lits, l, at, d, near
            ));
        }
    }
    c.obs.trace(&dec.inf);
    c.obs.case(p.hash(), !plants.is_empty(), || format!("{} copies planted: {}", plants.len(), p.show()));
    Ok(())
}

/// Every match is as long as the data lets it be (or 258, or ends where the encoder could not see
/// further, or was cut short by a better one starting one byte later).
fn c20_maximal(c: &mut Case) -> Res {
    let mut o = gen::options(&mut c.rng);
    o.max_hash_checks = o.max_hash_checks.min(2000);
    let inp = gen::input(&mut c.rng, gen::size_cap(&o, 150_000));
    let data = inp.data;
    let out = oneshot(Format::Raw, &data, o);
    let d = check(Format::Raw, &out, &data, true)?;
    let mut short = 0u64;
    let ms = &d.inf.matches;
    for m in ms {
        let e = m.pos + m.len as usize;
        if m.len < 258 && e < data.len() && data[e] == data[e - m.dist as usize] {
            short += 1;
        }
    }
    c.obs.add("matches_judged", ms.len() as u64);
    c.obs.add("matches_not_maximal", short);
    c.obs.top("not_maximal_in_one_stream", short);
    let allow = 2 + data.len() as u64 / 30_000 * 2;
    if short > allow {
        return Err(format!(
            "n={} {} {}: {} of {} matches could be longer",
            data.len(), gen::KIND_NAMES[inp.kind], gen::show(&o), short, ms.len()
        ));
    }
    c.obs.trace(&d.inf);
    c.obs.case(fnv(&data) ^ fnv(gen::show(&o).as_bytes()), !ms.is_empty(), || {
        format!("n={} {} {}", data.len(), gen::KIND_NAMES[inp.kind], gen::show(&o))
    });
    Ok(())
}

/// Bits of a plain greedy parse that looks at the nearest `checks` earlier positions that agree in
/// three bytes, with ideal codes.
fn exhaustive_greedy(data: &[u8], checks: usize) -> u64 {
    use std::collections::HashMap;
    let mut at: HashMap<[u8; 3], Vec<u32>> = HashMap::new();
    let mut ll = vec![0u32; 286];
    let mut dd = vec![0u32; 30];
    let mut extra = 0u64;
    let lcode = |l: usize| -> usize {
        let base = [
            3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59, 67, 83, 99, 115, 131, 163, 195,
            227, 258,
        ];
        (0..29).rev().find(|i| base[*i] <= l).unwrap()
    };
    let dcode = |d: usize| -> usize {
        let base = [
            1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537, 2049, 3073,
            4097, 6145, 8193, 12289, 16385, 24577,
        ];
        (0..30).rev().find(|i| base[*i] <= d).unwrap()
    };
    let mut i = 0;
    while i < data.len() {
        let mut best = (0usize, 0usize);
        if i + 3 <= data.len() {
            let key = [data[i], data[i + 1], data[i + 2]];
            if let Some(v) = at.get(&key) {
                for &q in v.iter().rev().take(checks) {
                    let q = q as usize;
                    if i - q > 32_768 {
                        break;
                    }
                    let n = data[i..].iter().zip(&data[q..]).take(258).take_while(|(a, b)| a == b).count();
                    if n > best.0 {
                        best = (n, i - q);
                        if n == 258 {
                            break;
                        }
                    }
                }
            }
        }
        let step = if best.0 >= 3 {
            let (l, d) = (lcode(best.0), dcode(best.1));
            ll[257 + l] += 1;
            dd[d] += 1;
            extra += LEXTRA[l] as u64 + DEXTRA[d] as u64;
            best.0
        } else {
            ll[data[i] as usize] += 1;
            1
        };
        for k in i..i + step {
            if k + 3 <= data.len() {
                at.entry([data[k], data[k + 1], data[k + 2]]).or_default().push(k as u32);
            }
        }
        i += step;
    }
    ll[256] = 1;
    huffman(&ll).0 + huffman(&dd).0 + extra + 17 + 57 + 400
}

/// Against a plain exhaustive parse, over data with structure.
fn c20_reference(c: &mut Case) -> Res {
    let kind = *c.rng.pick(&[3usize, 4, 4, 8, 9, 10]);
    let n = c.rng.range(2000, 24_000);
    let mut data = Vec::new();
    gen::segment(&mut c.rng, &mut data, kind, n);
    data.truncate(n);
    let (o, permille) = match c.rng.below(3) {
        0 => (CompressionOptions::default(), 1060),
        1 => (CompressionOptions::high(), 1050),
        _ => (opt(4096, 0, MatchingType::Greedy), 1030),
    };
    // other data with the same hash uses up some of the checks
    let want = exhaustive_greedy(&data, o.max_hash_checks as usize / 2) / 8 + 1;
    let ops = ops_for(&mut c.rng, data.len(), false);
    let p = Plan { f: Format::Raw, o, kind, data, ops, head: 0 };
    let out = encode(&p, c.obs)?;
    let bound = want * permille / 1000 + 120;
    c.obs.top("size_permille_of_exhaustive_parse", (out.len() as u64).saturating_sub(120) * 1000 / want);
    if out.len() as u64 > bound {
        return Err(format!(
            "{}: {} bytes, an exhaustive greedy parse takes about {}",
            p.show(), out.len(), want
        ));
    }
    c.obs.case(p.hash(), true, || format!("{} -> {} bytes, exhaustive parse {}", p.show(), out.len(), want));
    Ok(())
}

pub static C20: Prop = Prop {
    id: "C20",
    rule: "copies of earlier bytes planted up to 32768 back in noise, and structured data against an exhaustive parse; the decoded symbols show which copies were found; non-trivial: a copy was planted or matches were judged, distinct by history",
    streams: &[
        Stream { name: "planted", quick: 3000, thorough: 70_000, f: c20_planted },
        Stream { name: "buffer-edges", quick: 3000, thorough: 70_000, f: c20_edges },
        Stream { name: "lone-copies", quick: 7000, thorough: 140_000, f: c20_lone },
        Stream { name: "maximal", quick: 2500, thorough: 50_000, f: c20_maximal },
        Stream { name: "reference-parse", quick: 800, thorough: 15_000, f: c20_reference },
    ],
};

#[allow(dead_code)]
fn _unused(_: &mut Rng) {}
