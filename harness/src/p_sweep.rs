//! Sweeps: one number (a length, the place of a flush, the place of a cut) takes every value in a
//! range that covers every state of the encoder's buffers, instead of a sample of values. Each of
//! 64 cases takes the values that are equal to its index modulo 64, so that 64 cases are a whole
//! sweep; contents and options differ from value to value.

use crate::decode::{check, differ};
use crate::enc::{oneshot, FORMATS};
use crate::gen;
use crate::plan::{encode, Op, Plan};
use crate::run::{Case, Res};
use crate::sums::fnv;
use deflate::{CompressionOptions, MatchingType, SpecialOptions};

/// Two windows, the lookahead, and some more.
const REACH: usize = 67_000;

fn options(k: usize) -> CompressionOptions {
    let (h, l, m) = match k % 6 {
        0 => (1, 0, MatchingType::Greedy),
        1 => (0, 0, MatchingType::Lazy),
        2 => (0, 0, MatchingType::Greedy),
        3 => (6, 32, MatchingType::Lazy),
        4 => (4, 258, MatchingType::Lazy),
        _ => (8, 0, MatchingType::Greedy),
    };
    CompressionOptions { max_hash_checks: h, lazy_if_less_than: l, matching_type: m, special: SpecialOptions::Normal }
}

/// A long text of mixed kinds, parts of which serve as inputs.
fn text(c: &mut Case) -> Vec<u8> {
    let mut d = Vec::new();
    while d.len() < 2 * REACH {
        let k = c.rng.below(gen::KINDS);
        let n = c.rng.logrange(50, 40_000);
        gen::segment(&mut c.rng, &mut d, k, n);
    }
    d
}

pub fn c01_every_length(c: &mut Case) -> Res {
    let d = text(c);
    let first = (c.idx % 64) as usize;
    for n in (first..REACH).step_by(64) {
        let o = options(c.rng.below(6));
        let f = *c.rng.pick(&FORMATS);
        let at = c.rng.below(d.len() - n);
        let data = &d[at..at + n];
        let out = oneshot(f, data, o);
        let x = check(f, &out, data, false).map_err(|m| format!("{:?} n={} [{}]: {}", f, n, gen::show(&o), m))?;
        c.obs.trace(&x.inf);
        c.obs.add("lengths_swept", 1);
    }
    c.obs.case(fnv(&d[..1000]) ^ first as u64, true, || format!("every length that is {} modulo 64, up to {}", first, REACH));
    Ok(())
}

fn plan_at(c: &mut Case, d: &[u8], k: usize, flush: bool) -> Plan {
    let after = match c.rng.below(6) {
        0 => 0,
        1 => c.rng.range(1, 3),
        2 => 66_000,
        _ => c.rng.logrange(1, 40_000),
    };
    let n = (k + after).min(d.len());
    let at = c.rng.below(d.len() - n + 1);
    let o = options(c.rng.below(6));
    let f = *c.rng.pick(&FORMATS);
    let mut ops = vec![Op::W(k)];
    if flush {
        ops.push(Op::Flush);
    }
    if c.rng.chance(1, 4) && n - k > 1 {
        let a = c.rng.logrange(1, n - k - 1);
        ops.push(Op::W(a));
        ops.push(Op::W(n - k - a));
    } else {
        ops.push(Op::W(n - k));
    }
    Plan { f, o, kind: 9, data: d[at..at + n].to_vec(), ops, head: 0 }
}

/// A flush at every position.
pub fn c04_every_position(c: &mut Case, judge: fn(&mut Case, &Plan) -> Res) -> Res {
    let d = text(c);
    let first = (c.idx % 64) as usize;
    for k in (first..REACH).step_by(64) {
        let p = plan_at(c, &d, k, true);
        judge(c, &p)?;
        c.obs.add("flush_positions_swept", 1);
    }
    Ok(())
}

/// A cut into two writes at every position.
pub fn c08_every_cut(c: &mut Case) -> Res {
    let d = text(c);
    let first = (c.idx % 64) as usize;
    for k in (first..REACH).step_by(64) {
        let p = plan_at(c, &d, k, false);
        let out = encode(&p, c.obs).map_err(|m| format!("{}: {}", p.show(), m))?;
        differ("output of a split write against the one-shot output", &out, &oneshot(p.f, &p.data, p.o))
            .map_err(|m| format!("{}: {}", p.show(), m))?;
        c.obs.add("cuts_swept", 1);
        c.obs.case(p.hash(), p.data.len() > 2, || p.show());
    }
    Ok(())
}
