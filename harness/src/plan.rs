//! Histories of operations on an encoder, and the ways to carry them out.

use crate::enc::{Enc, Format, FORMATS};
use crate::gen;
use crate::rng::Rng;
use crate::run::{Obs, Res};
use crate::sums::fnv;
use deflate::{CompressionOptions, MatchingType};
use std::io::{ErrorKind, Write};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op {
    /// Hand the next n bytes to the encoder.
    W(usize),
    Flush,
}

#[derive(Clone)]
pub struct Plan {
    pub f: Format,
    pub o: CompressionOptions,
    pub kind: usize,
    pub data: Vec<u8>,
    pub ops: Vec<Op>,
    /// Bytes of comment in the header of a gzip stream.
    pub head: usize,
}

impl Plan {
    pub fn hash(&self) -> u64 {
        let mut h = fnv(&self.data) ^ fnv(gen::show(&self.o).as_bytes()).rotate_left(7);
        for o in &self.ops {
            let v = match o {
                Op::W(n) => *n as u64 * 2,
                Op::Flush => 1,
            };
            h = (h ^ v).wrapping_mul(0x100_0000_01b3).rotate_left(5);
        }
        h ^ self.f as u64 ^ (self.head as u64) << 24
    }
    /// An encoder for this plan.
    pub fn start<W: Write>(&self, w: W) -> Enc<W> {
        #[cfg(feature = "gz")]
        if self.head > 0 {
            let v: Vec<u8> = (0..self.head).map(|i| 1 + (i * 7 % 251) as u8).collect();
            return Enc::gz_from(crate::enc::GzBuilder::new().comment(v), w, self.o);
        }
        Enc::new(self.f, w, self.o)
    }
    pub fn flushes(&self) -> usize {
        self.ops.iter().filter(|o| **o == Op::Flush).count()
    }
    pub fn show(&self) -> String {
        let mut s = format!(
            "{:?} {} data={} n={} fnv={:016x} ops=",
            self.f,
            gen::show(&self.o),
            gen::KIND_NAMES.get(self.kind).unwrap_or(&"-"),
            self.data.len(),
            fnv(&self.data)
        );
        if self.head > 0 {
            s.push_str(&format!("(comment of {} bytes in the header) ", self.head));
        }
        for (i, o) in self.ops.iter().enumerate() {
            if i == 12 {
                s.push_str(&format!("..({} in all)", self.ops.len()));
                break;
            }
            match o {
                Op::W(n) => s.push_str(&format!("w{} ", n)),
                Op::Flush => s.push_str("F "),
            }
        }
        s
    }
}

/// Splits data into writes, with flushes in between in one of several styles.
pub fn ops_for(rng: &mut Rng, n: usize, flushes: bool) -> Vec<Op> {
    let pieces = gen::split(rng, n);
    let style = if flushes { rng.range(0, 5) } else { 0 };
    let mut v = Vec::new();
    let many = rng.logrange(2, 40);
    if style == 5 || (style != 0 && rng.chance(1, 6)) {
        v.push(Op::Flush);
        if rng.chance(1, 4) {
            v.push(Op::Flush);
        }
    }
    let np = pieces.len();
    for (i, k) in pieces.into_iter().enumerate() {
        v.push(Op::W(k));
        let fl = match style {
            0 => false,
            1 => rng.chance(1, 2),
            2 => true,
            3 => rng.below(many) == 0,
            4 => i + 1 == np,
            _ => rng.chance(1, 5),
        };
        if fl {
            v.push(Op::Flush);
            while rng.chance(1, 12) {
                v.push(if rng.chance(1, 4) { Op::W(0) } else { Op::Flush });
            }
        }
    }
    // a stretch of flushes costs one block each; keep the count sane
    if v.len() > 5000 {
        v.truncate(5000);
        let used: usize = v
            .iter()
            .map(|o| match o {
                Op::W(n) => *n,
                _ => 0,
            })
            .sum();
        v.push(Op::W(n - used));
    }
    v
}

pub fn plan(rng: &mut Rng, max: usize, flushes: bool) -> Plan {
    let o = gen::options(rng);
    plan_with(rng, max, flushes, o)
}

/// A plan in which a block becomes full right at the end of a window.
pub fn aligned(rng: &mut Rng, o: CompressionOptions) -> Plan {
    let f = *rng.pick(&FORMATS);
    let rle = o.max_hash_checks == 0 && o.matching_type == MatchingType::Lazy;
    let (data, at) = gen::aligned(rng, rle, true, gen::size_cap(&o, 110_000));
    let mut ops = Vec::new();
    let mut n = 0;
    for a in at.iter().chain(&[data.len()]) {
        for k in gen::split(rng, a - n) {
            ops.push(Op::W(k));
        }
        n = *a;
        if *a < data.len() || rng.chance(1, 4) {
            ops.push(Op::Flush);
        }
    }
    Plan { f, o, kind: gen::ALIGNED, data, ops, head: 0 }
}

pub fn plan_with(rng: &mut Rng, max: usize, flushes: bool, o: CompressionOptions) -> Plan {
    if flushes && max >= 70_000 && rng.chance(1, 16) {
        return aligned(rng, o);
    }
    let f = *rng.pick(&FORMATS);
    let inp = gen::input(rng, gen::size_cap(&o, max));
    let ops = ops_for(rng, inp.data.len(), flushes);
    Plan {
        f,
        o,
        kind: inp.kind,
        data: inp.data,
        ops,
        head: 0,
    }
}

/// All of `d` as slices, empty ones among them.
pub fn slices<'a>(rng: &mut Rng, mut d: &'a [u8]) -> Vec<std::io::IoSlice<'a>> {
    let mut v = Vec::new();
    while !d.is_empty() {
        let k = if rng.chance(1, 4) { 0 } else { rng.logrange(1, d.len()) };
        v.push(std::io::IoSlice::new(&d[..k]));
        d = &d[k..];
    }
    if rng.chance(1, 4) {
        v.push(std::io::IoSlice::new(&[]));
    }
    v
}

/// Hand `d` to an encoder whose sink is healthy, holding every `write` call to its contract.
pub fn put<W: Write>(e: &mut Enc<W>, d: &[u8], obs: &mut Obs) -> Res {
    put_patient(e, d, obs, 100)
}

/// The same, accepting `patience` Interrupted answers in a row.
pub fn put_patient<W: Write>(e: &mut Enc<W>, mut d: &[u8], obs: &mut Obs, patience: usize) -> Res {
    if d.is_empty() {
        return match e.write(d) {
            Ok(0) => Ok(()),
            Ok(n) => Err(format!("write of an empty slice returned Ok({})", n)),
            Err(x) if x.kind() == ErrorKind::Interrupted => Ok(()),
            Err(x) => Err(format!("write of an empty slice failed on a healthy sink: {}", x)),
        };
    }
    let mut stuck = 0;
    while !d.is_empty() {
        obs.add("write_calls", 1);
        // mostly write, but also the other ways to the same end
        let r = match (d.len() + d[0] as usize * 5) % 16 {
            0 if d.len() > 1 => {
                obs.add("vectored_writes", 1);
                // (cut up it might end in other bytes after a flush, see C08)
                e.write_vectored(&[&d[..0], d].map(std::io::IoSlice::new))
            }
            1 => {
                obs.add("write_all_calls", 1);
                e.write_all(d).map(|_| d.len())
            }
            2 if d.len() < 500 && std::str::from_utf8(d).is_ok() => {
                obs.add("write_fmt_calls", 1);
                e.write_fmt(format_args!("{}", std::str::from_utf8(d).unwrap())).map(|_| d.len())
            }
            _ => e.write(d),
        };
        match r {
            Ok(0) => return Err(format!("write of {} bytes returned Ok(0) on a healthy sink", d.len())),
            Ok(n) if n > d.len() => {
                return Err(format!("write of {} bytes returned Ok({})", d.len(), n))
            }
            Ok(n) => {
                if n < d.len() {
                    obs.add("partial_writes", 1);
                }
                d = &d[n..];
                stuck = 0;
            }
            Err(x) if x.kind() == ErrorKind::Interrupted => {
                obs.add("interrupted_writes", 1);
                stuck += 1;
                if stuck > patience {
                    return Err("write keeps answering Interrupted on a healthy sink".to_string());
                }
            }
            Err(x) => return Err(format!("write failed on a healthy sink: {}", x)),
        }
    }
    Ok(())
}

/// Carry out the operations on an encoder with a healthy sink; `after(op_index, encoder, accepted)`
/// is called after each.
pub fn drive<W: Write>(
    e: &mut Enc<W>,
    data: &[u8],
    ops: &[Op],
    obs: &mut Obs,
    after: impl FnMut(usize, &mut Enc<W>, usize, &mut Obs) -> Res,
) -> Res {
    drive_patient(e, data, ops, obs, 100, after)
}

/// The same over a sink that takes little at a time or answers Interrupted now and then.
pub fn drive_patient<W: Write>(
    e: &mut Enc<W>,
    data: &[u8],
    ops: &[Op],
    obs: &mut Obs,
    patience: usize,
    mut after: impl FnMut(usize, &mut Enc<W>, usize, &mut Obs) -> Res,
) -> Res {
    let mut at = 0;
    for (i, o) in ops.iter().enumerate() {
        match o {
            Op::W(n) => {
                put_patient(e, &data[at..at + n], obs, patience)?;
                at += n;
            }
            Op::Flush => {
                obs.add("flushes", 1);
                e.flush()
                    .map_err(|x| format!("flush failed on a healthy sink: {}", x))?;
            }
        }
        after(i, e, at, obs)?;
    }
    Ok(())
}

/// The whole plan into a `Vec`.
pub fn encode(p: &Plan, obs: &mut Obs) -> Result<Vec<u8>, String> {
    let mut e = p.start(Vec::new());
    drive(&mut e, &p.data, &p.ops, obs, |_, _, _, _| Ok(()))?;
    e.finish()
        .map_err(|x| format!("finish failed on a healthy sink: {}", x))
}
