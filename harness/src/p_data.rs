//! C01..C09, C13: what the encoders say, judged by decoding it.

use crate::decode::{check, decode, differ, head_len, zlib_head};
use crate::enc::{oneshot, Enc, Format, FORMATS};
use crate::gen;
use crate::inflate::{Inflater, Status};
use crate::plan::{aligned, drive, encode, ops_for, plan, plan_with, put, Op, Plan};
use crate::rng::Rng;
use crate::run::{guarded, Case, Prop, Res, Stream};
use crate::sink::{Policy, Sink, HARD};
use crate::sums::{fnv, Adler, Crc};
use deflate::CompressionOptions;
use std::io::{ErrorKind, Write};

#[cfg(feature = "gz")]
use crate::decode::{gz_head, GzHead};
#[cfg(feature = "gz")]
use crate::enc::GzBuilder;

// ------------------------------------------------------------------ C01

/// One call of a one-shot function: `which` picks plain/conf, format picks the container.
fn call(f: Format, conf: bool, data: &[u8], o: CompressionOptions) -> Vec<u8> {
    if conf {
        return oneshot(f, data, o);
    }
    match f {
        Format::Raw => deflate::deflate_bytes(data),
        Format::Zlib => deflate::deflate_bytes_zlib(data),
        #[cfg(feature = "gz")]
        Format::Gz => deflate::deflate_bytes_gzip(data),
    }
}

fn one(c: &mut Case, f: Format, conf: bool, data: &[u8], o: CompressionOptions, kind: usize) -> Res {
    let out = call(f, conf, data, o);
    let ctx = |m: String| {
        format!(
            "{:?} one-shot{} {} data={} n={}: {}",
            f,
            if conf { "" } else { " (default)" },
            gen::show(&o),
            gen::KIND_NAMES.get(kind).unwrap_or(&"enumerated"),
            data.len(),
            m
        )
    };
    let d = check(f, &out, data, false).map_err(&ctx)?;
    c.obs.trace(&d.inf);
    c.obs.add("compressed_bytes", out.len() as u64);
    c.obs.top("largest_input", data.len() as u64);
    let h = fnv(data) ^ fnv(gen::show(&o).as_bytes()).rotate_left(9) ^ f as u64;
    c.obs.case(h, data.len() >= 3, || {
        format!(
            "{:?} {} data={} n={} fnv={:016x} -> {} bytes, {} blocks",
            f,
            gen::show(&o),
            gen::KIND_NAMES.get(kind).unwrap_or(&"enumerated"),
            data.len(),
            fnv(data),
            out.len(),
            d.inf.blocks.len()
        )
    });
    Ok(())
}

pub fn c01_mixed(c: &mut Case) -> Res {
    let conf = !c.rng.chance(1, 8);
    let o = if conf { gen::options(&mut c.rng) } else { CompressionOptions::default() };
    let f = *c.rng.pick(&FORMATS);
    let inp = gen::input(&mut c.rng, gen::size_cap(&o, 300_000));
    one(c, f, conf, &inp.data, o, inp.kind)
}

/// Every input over a small alphabet up to a small length; every length of a few patterns.
fn c01_small(c: &mut Case) -> Res {
    let i = c.idx as usize;
    let o = match i % 8 {
        0 => CompressionOptions::default(),
        1 => CompressionOptions::fast(),
        2 => CompressionOptions::high(),
        3 => CompressionOptions::rle(),
        4 => CompressionOptions::huffman_only(),
        5 => CompressionOptions {
            matching_type: deflate::MatchingType::Lazy,
            max_hash_checks: 1,
            lazy_if_less_than: 65535,
            ..CompressionOptions::default()
        },
        6 => CompressionOptions {
            matching_type: deflate::MatchingType::Greedy,
            max_hash_checks: 65535,
            ..CompressionOptions::default()
        },
        _ => CompressionOptions {
            max_hash_checks: 4,
            lazy_if_less_than: 0,
            ..CompressionOptions::default()
        },
    };
    let sub = i / 8;
    let f = FORMATS[sub % FORMATS.len()];
    if sub < 12 {
        // strings over {a, b, c}: length sub/.. ; all of them
        let len = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 3, 5][sub];
        let alpha: &[u8] = if sub < 10 { b"abc" } else { &[0, 1, 143, 144, 255] };
        let n = (alpha.len() as u64).pow(len as u32);
        let mut d = vec![0u8; len];
        for k in 0..n {
            let mut x = k;
            for b in d.iter_mut() {
                *b = alpha[(x % alpha.len() as u64) as usize];
                x /= alpha.len() as u64;
            }
            one(c, f, true, &d, o, 99)?;
        }
        return Ok(());
    }
    // every length 0..=700 of one pattern
    let pat = (sub - 12) % 5;
    let mut base = Vec::new();
    match pat {
        0 => base.resize(700, 7),
        1 => c.rng.fill(&mut base, 700),
        2 => base.extend((0..700).map(|x| (x % 3) as u8)),
        3 => base.extend((0..700).map(|x| (x / 3 % 256) as u8)),
        _ => gen::segment(&mut c.rng, &mut base, 4, 700),
    }
    for n in 0..=700 {
        one(c, f, true, &base[..n], o, 99)?;
    }
    Ok(())
}

fn c01_edges(c: &mut Case) -> Res {
    let e = gen::EDGES[(c.idx as usize) % gen::EDGES.len()];
    let n = (e as i64 + c.rng.range(0, 4) as i64 - 2).max(0) as usize;
    let o = gen::options(&mut c.rng);
    let n = n.min(gen::size_cap(&o, 400_000));
    let kind = c.rng.below(gen::KINDS);
    let mut d = Vec::new();
    gen::segment(&mut c.rng, &mut d, kind, n);
    d.truncate(n);
    let f = *c.rng.pick(&FORMATS);
    one(c, f, true, &d, o, kind)
}

fn c01_big(c: &mut Case) -> Res {
    let o = match c.idx % 4 {
        0 => CompressionOptions::default(),
        1 => CompressionOptions::fast(),
        2 => CompressionOptions::rle(),
        _ => CompressionOptions::huffman_only(),
    };
    let n = c.rng.range(1 << 20, if c.thorough { 24 << 20 } else { 4 << 20 });
    let mut d = Vec::new();
    while d.len() < n {
        let k = c.rng.below(gen::KINDS);
        let m = c.rng.logrange(1000, 800_000);
        gen::segment(&mut c.rng, &mut d, k, m);
    }
    let f = *c.rng.pick(&FORMATS);
    one(c, f, true, &d, o, 9)
}

/// Blocks that become full right at, before or across the end of a window.
fn c01_aligned(c: &mut Case) -> Res {
    let o = gen::options(&mut c.rng);
    let rle = o.max_hash_checks == 0 && o.matching_type == deflate::MatchingType::Lazy;
    let (d, _) = gen::aligned(&mut c.rng, rle, false, gen::size_cap(&o, 110_000));
    let f = *c.rng.pick(&FORMATS);
    one(c, f, true, &d, o, gen::ALIGNED)
}

pub static C01: Prop = Prop {
    id: "C01",
    rule: "one-shot call on generated or enumerated input, decoded by an independent strict decoder and compared; non-trivial: at least 3 input bytes, distinct by (data, options, format)",
    streams: &[
        Stream { name: "immense", quick: 3, thorough: 9, f: crate::p_long::oneshot_immense },
        Stream { name: "every-length", quick: 64, thorough: 1280, f: crate::p_sweep::c01_every_length },
        Stream { name: "mixed", quick: 9000, thorough: 240_000, f: c01_mixed },
        Stream { name: "small-exhaustive", quick: 160, thorough: 200, f: c01_small },
        Stream { name: "edge-sizes", quick: 1800, thorough: 30_000, f: c01_edges },
        Stream { name: "aligned-blocks", quick: 1500, thorough: 60_000, f: c01_aligned },
        Stream { name: "big", quick: 8, thorough: 64, f: c01_big },
    ],
};

// ------------------------------------------------------------------ C02

/// A plan through a streaming encoder, every write held to its contract; decode, compare.
fn c02_run(c: &mut Case, p: &Plan) -> Res {
    let out = encode(p, c.obs).map_err(|m| format!("{}: {}", p.show(), m))?;
    let d = check(p.f, &out, &p.data, false).map_err(|m| format!("{}: {}", p.show(), m))?;
    c.obs.trace(&d.inf);
    c.obs.add("ops", p.ops.len() as u64);
    c.obs.top("ops_in_one_history", p.ops.len() as u64);
    let nt = p.ops.len() >= 2 && p.data.len() >= 3;
    c.obs.case(p.hash(), nt, || p.show());
    Ok(())
}

pub fn c02_mixed(c: &mut Case) -> Res {
    let fl = c.rng.chance(2, 3);
    let p = plan(&mut c.rng, 300_000, fl);
    c02_run(c, &p)
}

fn c02_tiny(c: &mut Case) -> Res {
    // byte-at-a-time histories on small data with flushes: many op sequences
    for _ in 0..20 {
        let n = c.rng.range(0, 400);
        let kind = c.rng.below(gen::KINDS);
        let mut data = Vec::new();
        gen::segment(&mut c.rng, &mut data, kind, n);
        data.truncate(n);
        let mut ops = Vec::new();
        let mut at = 0;
        let fp = c.rng.range(0, 3);
        let step = c.rng.range(1, 6);
        while at < n {
            let k = c.rng.range(0, step).min(n - at);
            ops.push(Op::W(k));
            at += k;
            if c.rng.below(4) < fp {
                ops.push(Op::Flush);
            }
        }
        let o = gen::options(&mut c.rng);
        let f = *c.rng.pick(&FORMATS);
        let p = Plan { f, o, kind, data, ops, head: 0 };
        c02_run(c, &p)?;
    }
    Ok(())
}

/// Writes that end exactly around the encoder's own buffer edges, with a flush there.
fn c02_edges(c: &mut Case) -> Res {
    let o = gen::options(&mut c.rng);
    let cap = gen::size_cap(&o, 330_000);
    let kind = c.rng.below(gen::KINDS);
    let mut ops = Vec::new();
    let mut n = 0;
    while n < cap && ops.len() < 14 {
        let e = *c.rng.pick(&gen::EDGES);
        let k = match c.rng.below(4) {
            0 => c.rng.range(1, 300),
            1 => (e + 2).saturating_sub(c.rng.below(5)),
            // up to the next edge, from where we are
            _ => {
                let t = e + c.rng.below(5);
                if t > n + 2 {
                    t - n - 2
                } else {
                    c.rng.range(1, 40)
                }
            }
        };
        let k = k.min(cap - n);
        ops.push(Op::W(k));
        n += k;
        if c.rng.chance(1, 2) {
            ops.push(Op::Flush);
        }
    }
    let mut data = Vec::new();
    gen::segment(&mut c.rng, &mut data, kind, n);
    data.truncate(n);
    let f = *c.rng.pick(&FORMATS);
    c02_run(c, &Plan { f, o, kind, data, ops, head: 0 })
}

/// One encoder used for several streams in turn.
fn c02_resets(c: &mut Case) -> Res {
    let o = gen::options(&mut c.rng);
    let f = *c.rng.pick(&FORMATS);
    let rounds = c.rng.range(2, 5);
    let mut e = Enc::new(f, Vec::new(), o);
    for r in 0..rounds {
        let inp = gen::input(&mut c.rng, gen::size_cap(&o, 120_000));
        let ops = ops_for(&mut c.rng, inp.data.len(), true);
        let p = Plan { f, o, kind: inp.kind, data: inp.data, ops, head: 0 };
        let ctx = |m: String| format!("stream {} of one encoder, {}: {}", r, p.show(), m);
        drive(&mut e, &p.data, &p.ops, c.obs, |_, _, _, _| Ok(())).map_err(ctx)?;
        let out = e
            .reset(Vec::new())
            .map_err(|x| ctx(format!("reset failed on a healthy sink: {}", x)))?;
        let d = check(f, &out, &p.data, false).map_err(ctx)?;
        c.obs.trace(&d.inf);
        c.obs.case(p.hash() ^ r as u64, p.data.len() >= 3, || ctx("reset".into()));
    }
    Ok(())
}

fn c02_long(c: &mut Case) -> Res {
    let o = if c.rng.chance(1, 2) { CompressionOptions::fast() } else { CompressionOptions::default() };
    let n = c.rng.range(2 << 20, if c.thorough { 20 << 20 } else { 4 << 20 });
    let mut data = Vec::new();
    while data.len() < n {
        let k = c.rng.below(gen::KINDS);
        let m = c.rng.logrange(1000, 400_000);
        gen::segment(&mut c.rng, &mut data, k, m);
    }
    let ops = ops_for(&mut c.rng, data.len(), true);
    let f = *c.rng.pick(&FORMATS);
    c02_run(c, &Plan { f, o, kind: 9, data, ops, head: 0 })
}

/// Blocks that become full right at, before or across the end of a window.
fn c02_aligned(c: &mut Case) -> Res {
    let o = gen::options(&mut c.rng);
    let p = aligned(&mut c.rng, o);
    c02_run(c, &p)
}

/// Data offered as several slices at once, or through write_all.
fn c02_vectored(c: &mut Case) -> Res {
    let p = plan(&mut c.rng, 150_000, true);
    let mut e = p.start(Vec::new());
    let mut at = 0;
    let mut calls = 0u64;
    for op in &p.ops {
        let n = match op {
            Op::W(n) => *n,
            Op::Flush => {
                e.flush().map_err(|x| format!("{}: flush: {}", p.show(), x))?;
                continue;
            }
        };
        let mut d = &p.data[at..at + n];
        at += n;
        if c.rng.chance(1, 5) {
            e.write_all(d).map_err(|x| format!("{}: write_all: {}", p.show(), x))?;
            continue;
        }
        let mut stuck = 0;
        while !d.is_empty() {
            calls += 1;
            let v = crate::plan::slices(&mut c.rng, d);
            match e.write_vectored(&v) {
                Ok(0) => return Err(format!("{}: write_vectored of {} bytes took none", p.show(), d.len())),
                Ok(k) if k > d.len() => {
                    return Err(format!("{}: write_vectored of {} bytes returned Ok({})", p.show(), d.len(), k))
                }
                Ok(k) => {
                    d = &d[k..];
                    stuck = 0;
                }
                Err(x) if x.kind() == std::io::ErrorKind::Interrupted && stuck < 100 => stuck += 1,
                Err(x) => return Err(format!("{}: write_vectored: {}", p.show(), x)),
            }
        }
    }
    let out = e.finish().map_err(|x| format!("{}: finish: {}", p.show(), x))?;
    check(p.f, &out, &p.data, false).map_err(|m| format!("{}: {}", p.show(), m))?;
    c.obs.add("vectored_writes", calls);
    c.obs.case(p.hash() ^ 1, p.data.len() > 2 && p.ops.len() > 1, || p.show());
    Ok(())
}

pub static C02: Prop = Prop {
    id: "C02",
    rule: "history of writes (any sizes), flushes and resets on a streaming encoder over a healthy sink, every write call held to its contract, the result decoded and compared; non-trivial: at least 2 operations and 3 bytes, distinct by (data, options, format, operations)",
    streams: &[
        Stream { name: "immense", quick: 2, thorough: 9, f: crate::p_long::c02_immense },
        Stream { name: "vast-writes", quick: 40, thorough: 1000, f: crate::p_long::c02_vast },
        Stream { name: "many-flushes", quick: 4, thorough: 40, f: crate::p_long::c02_many },
        Stream { name: "mixed", quick: 6000, thorough: 160_000, f: c02_mixed },
        Stream { name: "tiny", quick: 400, thorough: 12_000, f: c02_tiny },
        Stream { name: "vectored", quick: 1200, thorough: 30_000, f: c02_vectored },
        Stream { name: "buffer-edges", quick: 2500, thorough: 60_000, f: c02_edges },
        Stream { name: "aligned-blocks", quick: 2500, thorough: 80_000, f: c02_aligned },
        Stream { name: "resets", quick: 800, thorough: 20_000, f: c02_resets },
        Stream { name: "long", quick: 8, thorough: 64, f: c02_long },
    ],
};

// ------------------------------------------------------------------ C03

/// Well-formedness only: the strict decoder must accept; the data is not compared here. One stream
/// in a few is also handed to a second, unrelated decoder (by the driver).
fn c03_one(c: &mut Case, f: Format, out: &[u8], data: &[u8], show: &dyn Fn() -> String) -> Res {
    let (h, _) = head_len(f, out).map_err(|m| format!("{}: {}", show(), m))?;
    let mut inf = Inflater::new();
    let (st, used) = inf
        .feed(&out[h..])
        .map_err(|b| format!("{}: not valid DEFLATE: {}", show(), b))?;
    if st != Status::Done {
        return Err(format!("{}: no final block", show()));
    }
    let finals = inf.blocks.iter().filter(|b| b.last).count();
    if finals != 1 {
        return Err(format!("{}: {} final blocks", show(), finals));
    }
    c.obs.trace(&inf);
    let hh = fnv(out);
    c.obs.case(hh, inf.blocks.iter().any(|b| b.matches + b.lits > 0), || {
        format!("{} -> {} bytes fnv={:016x}", show(), out.len(), hh)
    });
    c.obs.emit(&out[h..h + used], data);
    Ok(())
}

fn c03_oneshot(c: &mut Case) -> Res {
    let o = gen::options(&mut c.rng);
    let f = *c.rng.pick(&FORMATS);
    let inp = gen::input(&mut c.rng, gen::size_cap(&o, 200_000));
    let out = oneshot(f, &inp.data, o);
    let show = || format!("{:?} one-shot {} n={}", f, gen::show(&o), inp.data.len());
    c03_one(c, f, &out, &inp.data, &show)
}

fn c03_stream(c: &mut Case) -> Res {
    let p = plan(&mut c.rng, 200_000, true);
    let out = encode(&p, c.obs).map_err(|m| format!("{}: {}", p.show(), m))?;
    c03_one(c, p.f, &out, &p.data, &|| p.show())
}

/// Data built to push the code tables to their limits: skewed counts, few symbols, every symbol,
/// one distance, no distance, long zero runs in the code length tables.
fn c03_tables(c: &mut Case) -> Res {
    let mut data = Vec::new();
    let style = c.rng.below(6);
    match style {
        0 => {
            let n = c.rng.logrange(10, 40_000);
            gen::segment(&mut c.rng, &mut data, 5, n)
        }
        1 => {
            // sparse symbols with gaps of chosen sizes: zero runs of every length
            let mut s = c.rng.below(30);
            let mut syms = Vec::new();
            while s < 256 {
                syms.push(s as u8);
                s += match c.rng.below(4) {
                    0 => 1,
                    1 => c.rng.range(2, 14),
                    2 => *c.rng.pick(&[4usize, 11, 12, 13, 139, 140]),
                    _ => c.rng.range(1, 150),
                };
            }
            let n = c.rng.logrange(20, 4000);
            for _ in 0..n {
                let k = c.rng.logrange(1, syms.len()) - 1;
                data.push(syms[k]);
            }
        }
        2 => {
            // equal counts over k symbols: equal lengths, runs of repeats
            let k = c.rng.range(1, 256);
            let st = c.rng.below(257 - k);
            let r = c.rng.range(1, 30);
            let mut one: Vec<u8> = (st..st + k).map(|x| x as u8).collect();
            for _ in 0..r {
                c.rng.shuffle(&mut one);
                data.extend_from_slice(&one);
            }
        }
        3 => {
            // lots of one length and/or one distance
            let l = gen::copy_len(&mut c.rng).min(258);
            let d = gen::copy_dist(&mut c.rng, 32768);
            let pre = d.max(4);
            c.rng.fill(&mut data, pre);
            let n = c.rng.range(1, 300);
            for _ in 0..n {
                let k = c.rng.below(3);
                c.rng.fill(&mut data, k);
                let dd = d.min(data.len());
                for _ in 0..l {
                    let b = data[data.len() - dd];
                    data.push(b);
                }
            }
        }
        4 => {
            let n = c.rng.logrange(10, 60_000);
            gen::segment(&mut c.rng, &mut data, 3, n)
        }
        _ => {
            // Fibonacci-weighted distances
            let n = c.rng.logrange(200, 40_000);
            c.rng.fill(&mut data, 33_000);
            while data.len() < 33_000 + n {
                let k = c.rng.below(15);
                let k = c.rng.below(k + 1);
                let d = (1usize << k) + c.rng.below(1 << k);
                let l = c.rng.range(3, 8);
                for _ in 0..l {
                    let b = data[data.len() - d];
                    data.push(b);
                }
                let b = c.rng.byte();
                data.push(b);
            }
        }
    }
    let mut o = gen::options(&mut c.rng);
    o.max_hash_checks = o.max_hash_checks.min(2000);
    let f = *c.rng.pick(&FORMATS);
    let out = oneshot(f, &data, o);
    let show = || format!("{:?} tables style {} {} n={}", f, style, gen::show(&o), data.len());
    c03_one(c, f, &out, &data, &show)
}

pub static C03: Prop = Prop {
    id: "C03",
    rule: "encoder output over one-shot, streamed and table-stressing workloads, parsed by a strict RFC 1951 decoder (complete codes, no reserved symbols, one final block), a sample also by zlib; non-trivial: the stream holds at least one symbol, distinct by its bytes",
    streams: &[
        Stream { name: "one-shot", quick: 5000, thorough: 120_000, f: c03_oneshot },
        Stream { name: "streamed", quick: 3500, thorough: 80_000, f: c03_stream },
        Stream { name: "tables", quick: 10_000, thorough: 250_000, f: c03_tables },
    ],
};

// ------------------------------------------------------------------ C04

/// After every flush that succeeds, what the sink holds must already decode to everything accepted.
pub fn c04_run(c: &mut Case, p: &Plan) -> Res {
    let sink = Sink::all();
    let mut e = p.start(sink.clone());
    let mut inf: Option<Inflater> = None;
    let mut fed = 0usize;
    let ops = &p.ops;
    let data = &p.data;
    let f = p.f;
    let mut dec = |fin: bool, at: usize, obs: &mut crate::run::Obs| -> Res {
        let s = sink.0.borrow();
        if inf.is_none() {
            let (h, _) = head_len(f, &s.data).map_err(|m| format!("after a flush: {}", m))?;
            fed = h;
            inf = Some(Inflater::new());
        }
        let i = inf.as_mut().unwrap();
        let (st, used) = i
            .feed(&s.data[fed..])
            .map_err(|b| format!("after {} accepted bytes the sink's content does not decode: {}", at, b))?;
        if !fin {
            if st != Status::Boundary {
                return Err("a final block was written by a flush".to_string());
            }
            if s.data.len() < 4 || s.data[s.data.len() - 4..] != [0, 0, 0xff, 0xff] {
                return Err(format!(
                    "after a flush the sink ends in {:02x?}, not in an empty stored block",
                    &s.data[s.data.len().saturating_sub(5)..]
                ));
            }
            let b = i.blocks.last().unwrap();
            if b.kind != crate::inflate::Kind::Stored || b.out_start != b.out_end {
                return Err("after a flush the last block is not an empty stored block".to_string());
            }
            obs.add("flush_points_judged", 1);
        } else if st != Status::Done {
            return Err("no final block after finish".to_string());
        }
        fed += used;
        if i.out.len() != at || i.out[..] != data[..at] {
            let k = i.out.iter().zip(&data[..at]).position(|(a, b)| a != b);
            return Err(format!(
                "after a flush {} bytes can be decoded but {} were accepted; first difference {:?}",
                i.out.len(),
                at,
                k
            ));
        }
        Ok(())
    };
    // check each flush once, comparing only the new part in long histories
    drive(&mut e, data, ops, c.obs, |k, _, at, obs| {
        if ops[k] == Op::Flush {
            dec(false, at, obs)?;
        }
        Ok(())
    })
    .map_err(|m| format!("{}: {}", p.show(), m))?;
    e.finish()
        .map_err(|x| format!("{}: finish failed: {}", p.show(), x))?;
    dec(true, data.len(), c.obs).map_err(|m| format!("{}: {}", p.show(), m))?;
    let i = inf.unwrap();
    c.obs.trace(&i);
    c.obs.case(p.hash(), p.flushes() > 0 && data.len() > 2, || p.show());
    Ok(())
}

fn c04_mixed(c: &mut Case) -> Res {
    let mut p = plan(&mut c.rng, 200_000, true);
    if p.flushes() == 0 {
        let k = c.rng.below(p.ops.len() + 1);
        p.ops.insert(k, Op::Flush);
    }
    if p.flushes() > 300 {
        let mut n = 0;
        p.ops.retain(|o| {
            if *o == Op::Flush {
                n += 1;
            }
            *o != Op::Flush || n <= 300
        });
    }
    c04_run(c, &p)
}

/// A flush at a chosen byte position around the places where the encoder's state changes.
fn c04_edges(c: &mut Case) -> Res {
    let o = gen::options(&mut c.rng);
    let cap = gen::size_cap(&o, 260_000);
    let kind = c.rng.below(gen::KINDS);
    let mut n = 0usize;
    let mut ops = Vec::new();
    let k = c.rng.range(1, 6);
    for _ in 0..k {
        let e = *c.rng.pick(&gen::EDGES);
        let t = (e + c.rng.below(7)).saturating_sub(3).min(cap);
        let w = if t > n { t - n } else { c.rng.range(0, 4) };
        if c.rng.chance(1, 3) && w > 2 {
            let a = c.rng.range(1, w - 1);
            ops.push(Op::W(a));
            ops.push(Op::W(w - a));
        } else {
            ops.push(Op::W(w));
        }
        n += w;
        ops.push(Op::Flush);
        if c.rng.chance(1, 4) {
            ops.push(Op::Flush);
        }
    }
    if c.rng.chance(1, 2) {
        let w = c.rng.range(1, 3000);
        ops.push(Op::W(w));
        n += w;
    }
    let mut data = Vec::new();
    gen::segment(&mut c.rng, &mut data, kind, n);
    data.truncate(n);
    let f = *c.rng.pick(&FORMATS);
    c04_run(c, &Plan { f, o, kind, data, ops, head: 0 })
}

fn c04_messages(c: &mut Case) -> Res {
    // a protocol: messages of a few bytes, each flushed
    let o = gen::options(&mut c.rng);
    let msgs = c.rng.range(1, 120);
    let mut data = Vec::new();
    let mut ops = Vec::new();
    for _ in 0..msgs {
        let n = c.rng.logrange(1, 400);
        let k = c.rng.below(gen::KINDS);
        let a = data.len();
        gen::segment(&mut c.rng, &mut data, k, n);
        ops.push(Op::W(data.len() - a));
        ops.push(Op::Flush);
    }
    let f = *c.rng.pick(&FORMATS);
    c04_run(c, &Plan { f, o, kind: 9, data, ops, head: 0 })
}

pub static C04: Prop = Prop {
    id: "C04",
    rule: "streaming history with flushes; after every successful flush the sink's content is decoded incrementally; non-trivial: at least one flush and 3 bytes, distinct by (data, options, format, operations)",
    streams: &[
        Stream { name: "every-position", quick: 64, thorough: 1280, f: |c| crate::p_sweep::c04_every_position(c, c04_run) },
        Stream { name: "mixed", quick: 4000, thorough: 90_000, f: c04_mixed },
        Stream { name: "buffer-edges", quick: 3000, thorough: 70_000, f: c04_edges },
        Stream { name: "messages", quick: 1500, thorough: 30_000, f: c04_messages },
        Stream { name: "many-flushes", quick: 4, thorough: 40, f: crate::p_long::c04_many },
    ],
};

// ------------------------------------------------------------------ C05

/// Carries out a history over a sink that fails now and then, repeating what failed.
fn push(e: &mut Enc<Sink>, sink: &Sink, data: &[u8], ops: &[Op], errs: &mut u64) -> Res {
    let mut at = 0;
    let mut taken = 0;
    for (i, op) in ops.iter().enumerate() {
        let mut tries = 0;
        let mut d: &[u8] = match op {
            Op::W(n) => {
                at += n;
                &data[at - n..at]
            }
            Op::Flush => &[],
        };
        loop {
            let r = match op {
                Op::W(_) => e.write(d),
                Op::Flush => e.flush().map(|_| 0),
            };
            match r {
                Ok(k) if k > d.len() => return Err(format!("op {}: write of {} bytes returned Ok({})", i, d.len(), k)),
                Ok(0) if !d.is_empty() => return Err(format!("op {}: write of {} bytes returned Ok(0)", i, d.len())),
                Ok(k) => {
                    d = &d[k..];
                    tries = 0;
                    if d.is_empty() {
                        break;
                    }
                }
                Err(x) => {
                    *errs += 1;
                    tries += 1;
                    // tries that brought nothing, in a row
                    let t = sink.0.borrow().taken;
                    if t != taken {
                        tries = 0;
                        taken = t;
                    }
                    if tries > 1000 {
                        return Err(format!("op {}: still failing after {} tries: {}", i, tries, x));
                    }
                }
            }
        }
    }
    Ok(())
}

/// What a caller may do after a reset that failed: the old stream goes on, and though there may be
/// nothing more to add to it, nothing that is not reported as taken may count.
pub fn meddle<W: Write>(c: &mut Case, e: &mut Enc<W>, taken: &mut Vec<u8>) -> Res {
    for _ in 0..c.rng.range(1, 3) {
        if c.rng.chance(1, 4) {
            let _ = e.flush();
            continue;
        }
        let n = c.rng.logrange(1, 3000);
        let mut d = Vec::new();
        let k = c.rng.below(gen::KINDS);
        gen::segment(&mut c.rng, &mut d, k, n);
        let before = e.checksum();
        match e.write(&d) {
            Ok(k) if k > d.len() => return Err(format!("after a failed reset: write of {} bytes returned Ok({})", d.len(), k)),
            Ok(k) => {
                taken.extend_from_slice(&d[..k]);
                c.obs.add("writes_after_a_failed_reset_that_took_data", (k > 0) as u64);
                if k == 0 && e.checksum() != before {
                    return Err("after a failed reset: a write that took nothing changed the checksum".to_string());
                }
            }
            Err(_) => {
                if e.checksum() != before {
                    return Err("after a failed reset: a write that failed changed the checksum".to_string());
                }
            }
        }
        c.obs.add("writes_after_a_failed_reset", 1);
    }
    Ok(())
}

/// A sink that fails for a while, at a place that matters.
fn moody(rng: &mut Rng, head: usize) -> Policy {
    let kind = *rng.pick(&HARD);
    let max = if rng.chance(1, 2) { usize::MAX } else { rng.logrange(1, 20_000) };
    match rng.below(4) {
        0 => Policy::Random {
            short: rng.range(0, 80),
            interrupted: rng.range(0, 20),
            hard: rng.range(2, 40),
            max: rng.logrange(1, 40_000),
        },
        1 => Policy::FailAt { at: rng.below(head + 8), times: rng.range(1, 5) as u64, kind, max },
        2 => Policy::FailAt { at: rng.below(60_000), times: rng.range(1, 5) as u64, kind, max },
        _ => {
            let k = rng.range(1, 5) as u64;
            Policy::FailCalls { calls: vec![k, k + 1, k + rng.range(2, 9) as u64], kind, max }
        }
    }
}


fn c05_judge(c: &mut Case, out: &[u8], data: &[u8], show: &dyn Fn() -> String) -> Res {
    let w = zlib_head(out).map_err(|m| format!("{}: {}", show(), m))?;
    let d = decode(Format::Zlib, out, false).map_err(|m| format!("{}: {}", show(), m))?;
    // the checksum has to be that of the data put in, whatever the decoder makes of it
    let mut a = Adler::new();
    a.update(data);
    differ("zlib trailer", &out[out.len() - 4..], &a.0.to_be_bytes())
        .map_err(|m| format!("{}: {}", show(), m))?;
    if data.len() > 0 && w < 32768 && d.inf.max_dist() > w {
        return Err(format!("{}: window too small", show()));
    }
    c.obs.trace(&d.inf);
    c.obs.case(fnv(data) ^ fnv(out), !data.is_empty(), || show());
    Ok(())
}

fn c05_oneshot(c: &mut Case) -> Res {
    let o = gen::options(&mut c.rng);
    let inp = gen::input(&mut c.rng, gen::size_cap(&o, 150_000));
    let out = oneshot(Format::Zlib, &inp.data, o);
    c05_judge(c, &out, &inp.data, &|| format!("one-shot {} n={}", gen::show(&o), inp.data.len()))
}

/// Streaming, with every way to begin and to end a stream.
fn c05_stream(c: &mut Case) -> Res {
    let mut o = gen::options(&mut c.rng);
    o.max_hash_checks = o.max_hash_checks.min(3000);
    let first = Sink::all();
    let mut e = Enc::new(Format::Zlib, first.clone(), o);
    let mut cur = first;
    let rounds = c.rng.range(1, 4);
    for r in 0..rounds {
        let inp = if c.rng.chance(1, 6) {
            gen::Input { kind: 0, data: Vec::new() }
        } else {
            gen::input(&mut c.rng, 90_000)
        };
        let ops = if c.rng.chance(1, 8) && inp.data.is_empty() {
            [vec![], vec![Op::Flush], vec![Op::W(0)], vec![Op::W(0), Op::Flush], vec![Op::Flush, Op::Flush]]
                [c.rng.below(5)]
                .clone()
        } else {
            ops_for(&mut c.rng, inp.data.len(), true)
        };
        let p = Plan { f: Format::Zlib, o, kind: inp.kind, data: inp.data, ops, head: 0 };
        let show = || format!("stream {} of an encoder, {}", r, p.show());
        drive(&mut e, &p.data, &p.ops, c.obs, |_, _, _, _| Ok(()))
            .map_err(|m| format!("{}: {}", show(), m))?;
        if r + 1 == rounds {
            match c.rng.below(2) {
                0 => {
                    e.finish().map_err(|x| format!("{}: finish: {}", show(), x))?;
                }
                _ => drop(e),
            }
            let out = cur.data();
            return c05_judge(c, &out, &p.data, &show);
        }
        let next = Sink::all();
        e.reset(next.clone())
            .map_err(|x| format!("{}: reset: {}", show(), x))?;
        let out = cur.data();
        c05_judge(c, &out, &p.data, &show)?;
        cur = next;
    }
    Ok(())
}

/// The same over sinks that fail now and then; every failed call is repeated until it succeeds.
fn c05_faulty(c: &mut Case) -> Res {
    let mut o = gen::options(&mut c.rng);
    o.max_hash_checks = o.max_hash_checks.min(1000);
    let mut pol = moody(&mut c.rng, 2);
    let mut cur = Sink::new(pol.clone(), c.rng.u64());
    let mut e = Enc::new(Format::Zlib, cur.clone(), o);
    let rounds = c.rng.range(1, 4);
    for r in 0..rounds {
        let inp = if c.rng.chance(1, 6) {
            gen::Input { kind: 0, data: Vec::new() }
        } else {
            gen::input(&mut c.rng, 90_000)
        };
        let ops = ops_for(&mut c.rng, inp.data.len(), true);
        let p = Plan { f: Format::Zlib, o, kind: inp.kind, data: inp.data, ops, head: 0 };
        let mut errs = 0;
        let show = || format!("sink {:?}, stream {} of an encoder, {}", pol, r, p.show());
        push(&mut e, &cur, &p.data, &p.ops, &mut errs).map_err(|m| format!("{}: {}", show(), m))?;
        let np = moody(&mut c.rng, 2);
        let next = Sink::new(np.clone(), c.rng.u64());
        let (mut tries, mut taken) = (0, 0);
        let mut all = p.data.clone();
        let mut left = if c.rng.chance(1, 2) { 3 } else { 0 };
        if c.rng.chance(1, 3) {
            // fail at the end
            let n = cur.0.borrow().data.len();
            let at = n + c.rng.below(40);
            cur.0.borrow_mut().failed = 0;
                cur.0.borrow_mut().policy = Policy::FailAt { at, times: c.rng.range(1, 3) as u64, kind: *c.rng.pick(&HARD), max: c.rng.logrange(1, 9000) };
        }
        while let Err(x) = e.reset(next.clone()) {
            errs += 1;
            if left > 0 {
                left -= 1;
                meddle(c, &mut e, &mut all).map_err(|m| format!("{}: {}", show(), m))?;
            }
            tries += 1;
            let t = cur.0.borrow().taken;
            if t != taken {
                tries = 0;
                taken = t;
            }
            if tries > 1000 {
                return Err(format!("{}: reset still failing: {}", show(), x));
            }
        }
        c.obs.add("errors_surfaced", errs);
        let out = cur.data();
        c05_judge(c, &out, &all, &show)?;
        cur = next;
        pol = np;
    }
    cur.heal();
    Ok(())
}

/// Data that drives both halves of the sum to their extremes.
fn c05_sums(c: &mut Case) -> Res {
    let n = match c.rng.below(3) {
        0 => (5552 * c.rng.range(1, 60) + c.rng.below(5)).saturating_sub(2),
        1 => (65521 * c.rng.range(1, 8) + c.rng.below(5)).saturating_sub(2),
        _ => c.rng.range(1, 2_000_000),
    };
    let b = *c.rng.pick(&[0xffu8, 0, 1, 0xf1, 0x80]);
    let mut data = vec![b; n];
    if c.rng.chance(1, 2) {
        let k = c.rng.range(1, 20);
        for _ in 0..k {
            let i = c.rng.below(n);
            data[i] = c.rng.byte();
        }
    }
    let o = if c.rng.chance(1, 2) { CompressionOptions::rle() } else { CompressionOptions::fast() };
    let ops = ops_for(&mut c.rng, n, c.idx % 2 == 0);
    let p = Plan { f: Format::Zlib, o, kind: 2, data, ops, head: 0 };
    let out = encode(&p, c.obs)?;
    c05_judge(c, &out, &p.data, &|| p.show())
}

pub static C05: Prop = Prop {
    id: "C05",
    rule: "zlib streams from one-shot calls and streaming histories (flush first, empty, reset, drop), header and trailer parsed by own RFC 1950 parser; non-trivial: some data, distinct by (data, stream)",
    streams: &[
        Stream { name: "immense", quick: 1, thorough: 3, f: crate::p_long::c05_immense },
        Stream { name: "one-shot", quick: 3000, thorough: 60_000, f: c05_oneshot },
        Stream { name: "streamed", quick: 4000, thorough: 90_000, f: c05_stream },
        Stream { name: "sums", quick: 260, thorough: 4000, f: c05_sums },
        Stream { name: "faulty", quick: 3000, thorough: 60_000, f: c05_faulty },
    ],
};

// ------------------------------------------------------------------ C06

#[cfg(feature = "gz")]
mod gz {
    use super::*;

    pub fn builder(rng: &mut Rng, big: bool) -> (GzBuilder, GzHead) {
        let mut h = GzHead::default();
        let mut b = GzBuilder::new();
        let bytes = |rng: &mut Rng, nul: bool, max: usize| {
            let n = match rng.below(5) {
                0 => 0,
                1 => rng.range(1, 20),
                2 => rng.logrange(1, max),
                3 if big => max,
                _ => rng.range(1, 300).min(max),
            };
            let mut v = Vec::new();
            rng.fill(&mut v, n);
            if !nul {
                for x in v.iter_mut() {
                    *x = (*x).max(1);
                }
            }
            v
        };
        if rng.chance(1, 2) {
            h.mtime = rng.u64() as u32;
            b = b.mtime(h.mtime);
        }
        if rng.chance(1, 3) {
            let v = bytes(rng, true, 65535);
            b = b.extra(v.clone());
            h.extra = Some(v);
        }
        if rng.chance(1, 3) {
            let v = bytes(rng, false, 40_000);
            b = b.filename(v.clone());
            h.name = Some(v);
        }
        if rng.chance(1, 3) {
            let v = bytes(rng, false, 70_000);
            b = b.comment(v.clone());
            h.comment = Some(v);
        }
        if rng.chance(1, 2) {
            let os = *rng.pick(&[0u8, 3, 7, 11, 13]);
            b = b.os(gzip_header::FileSystemType::from_u8(os));
            h.os = os;
        } else {
            h.os = 255; // filled in by default
        }
        if rng.chance(1, 2) {
            let x = *rng.pick(&[0u8, 2, 4]);
            b = b.xfl(gzip_header::ExtraFlags::from_u8(x));
            h.xfl = x;
        }
        (b, h)
    }

    pub fn judge(c: &mut Case, out: &[u8], data: &[u8], want: Option<&GzHead>, show: &dyn Fn() -> String) -> Res {
        let h = gz_head(out).map_err(|m| format!("{}: {}", show(), m))?;
        let d = decode(Format::Gz, out, false).map_err(|m| format!("{}: {}", show(), m))?;
        let n = out.len();
        let crc = crate::sums::crc32(data).to_le_bytes();
        differ("gzip CRC", &out[n - 8..n - 4], &crc).map_err(|m| format!("{}: {}", show(), m))?;
        differ("gzip ISIZE", &out[n - 4..], &(data.len() as u32).to_le_bytes())
            .map_err(|m| format!("{}: {}", show(), m))?;
        let blank = GzHead::default();
        let w = want.unwrap_or(&blank);
        let os_ok = want.is_none() || w.os == 255 || h.os == w.os;
        if h.mtime != w.mtime
            || h.extra != w.extra
            || h.name != w.name
            || h.comment != w.comment
            || (want.is_some() && h.xfl != w.xfl)
            || !os_ok
        {
            return Err(format!(
                "{}: gzip header carries mtime {} xfl {} os {} extra {:?} name {:?} comment {:?}, asked for mtime {} xfl {} os {} extra {:?} name {:?} comment {:?} (lengths)",
                show(), h.mtime, h.xfl, h.os, h.extra.as_ref().map(|x| x.len()), h.name.as_ref().map(|x| x.len()), h.comment.as_ref().map(|x| x.len()),
                w.mtime, w.xfl, w.os, w.extra.as_ref().map(|x| x.len()), w.name.as_ref().map(|x| x.len()), w.comment.as_ref().map(|x| x.len())
            ));
        }
        c.obs.trace(&d.inf);
        c.obs.top("longest_header", h.len as u64);
        c.obs.case(fnv(data) ^ fnv(out), !data.is_empty(), || show());
        Ok(())
    }

    pub fn oneshot(c: &mut Case) -> Res {
        let o = gen::options(&mut c.rng);
        let inp = gen::input(&mut c.rng, gen::size_cap(&o, 120_000));
        let show = || format!("one-shot gzip {} n={}", gen::show(&o), inp.data.len());
        if c.rng.chance(1, 4) {
            let out = deflate::deflate_bytes_gzip(&inp.data);
            return judge(c, &out, &inp.data, None, &show);
        }
        let (b, h) = builder(&mut c.rng, false);
        let out = deflate::deflate_bytes_gzip_conf(&inp.data, o, b);
        judge(c, &out, &inp.data, Some(&h), &show)
    }

    pub fn stream(c: &mut Case) -> Res {
        let mut o = gen::options(&mut c.rng);
        o.max_hash_checks = o.max_hash_checks.min(3000);
        let mut cur = Sink::all();
        let mut head: Option<GzHead> = None;
        let mut e = if c.rng.chance(1, 2) {
            let (b, h) = builder(&mut c.rng, c.idx % 5 == 0);
            head = Some(h);
            Enc::gz_from(b, cur.clone(), o)
        } else {
            Enc::new(Format::Gz, cur.clone(), o)
        };
        let rounds = c.rng.range(1, 4);
        for r in 0..rounds {
            let inp = if c.rng.chance(1, 6) {
                gen::Input { kind: 0, data: Vec::new() }
            } else {
                gen::input(&mut c.rng, 70_000)
            };
            let ops = ops_for(&mut c.rng, inp.data.len(), true);
            let p = Plan { f: Format::Gz, o, kind: inp.kind, data: inp.data, ops, head: 0 };
            let show = || format!("stream {} of an encoder, {}", r, p.show());
            drive(&mut e, &p.data, &p.ops, c.obs, |_, _, _, _| Ok(()))
                .map_err(|m| format!("{}: {}", show(), m))?;
            if r + 1 == rounds {
                if c.rng.chance(1, 2) {
                    e.finish().map_err(|x| format!("{}: finish: {}", show(), x))?;
                } else {
                    drop(e);
                }
                let out = cur.data();
                return judge(c, &out, &p.data, head.as_ref(), &show);
            }
            let next = Sink::all();
            let nh;
            if c.rng.chance(1, 2) {
                let (b, h) = builder(&mut c.rng, false);
                e.reset_with_builder(next.clone(), b)
                    .map_err(|x| format!("{}: reset: {}", show(), x))?;
                nh = Some(h);
            } else {
                e.reset(next.clone())
                    .map_err(|x| format!("{}: reset: {}", show(), x))?;
                nh = None;
            }
            let out = cur.data();
            judge(c, &out, &p.data, head.as_ref(), &show)?;
            head = nh;
            cur = next;
        }
        Ok(())
    }

    /// The same over sinks that fail now and then; every failed call is repeated until it succeeds.
    pub fn faulty(c: &mut Case) -> Res {
        let mut o = gen::options(&mut c.rng);
        o.max_hash_checks = o.max_hash_checks.min(1000);
        let size = |h: &Option<GzHead>| -> usize {
            let l = |v: &Option<Vec<u8>>| v.as_ref().map_or(0, |v| v.len() + 2);
            h.as_ref().map_or(10, |h| 10 + l(&h.extra) + l(&h.name) + l(&h.comment))
        };
        let (b, h) = builder(&mut c.rng, c.idx % 5 == 0);
        let mut head = Some(h);
        let mut pol = moody(&mut c.rng, size(&head));
        let mut cur = Sink::new(pol.clone(), c.rng.u64());
        let mut e = Enc::gz_from(b, cur.clone(), o);
        let rounds = c.rng.range(1, 4);
        for r in 0..rounds {
            let inp = if c.rng.chance(1, 4) {
                gen::Input { kind: 0, data: Vec::new() }
            } else {
                gen::input(&mut c.rng, 50_000)
            };
            let ops = ops_for(&mut c.rng, inp.data.len(), true);
            let p = Plan { f: Format::Gz, o, kind: inp.kind, data: inp.data, ops, head: 0 };
            let mut errs = 0;
            let show = || format!("sink {:?}, header of {} bytes, stream {} of an encoder, {}", pol, size(&head), r, p.show());
            push(&mut e, &cur, &p.data, &p.ops, &mut errs).map_err(|m| format!("{}: {}", show(), m))?;
            let (b, h) = builder(&mut c.rng, false);
            let nh = if c.rng.chance(2, 3) { Some(h) } else { None };
            let np = moody(&mut c.rng, size(&nh));
            let next = Sink::new(np.clone(), c.rng.u64());
            let (mut tries, mut taken) = (0, 0);
            let mut all = p.data.clone();
            let mut left = if c.rng.chance(1, 2) { 3 } else { 0 };
            if c.rng.chance(1, 3) {
                // fail at the end
                let n = cur.0.borrow().data.len();
                let at = n + c.rng.below(40);
                cur.0.borrow_mut().failed = 0;
                cur.0.borrow_mut().policy = Policy::FailAt { at, times: c.rng.range(1, 3) as u64, kind: *c.rng.pick(&HARD), max: c.rng.logrange(1, 9000) };
            }
            loop {
                let res = if nh.is_some() {
                    e.reset_with_builder(next.clone(), b.clone())
                } else {
                    e.reset(next.clone())
                };
                match res {
                    Ok(_) => break,
                    Err(x) => {
                        errs += 1;
                        tries += 1;
                        if left > 0 {
                            left -= 1;
                            meddle(c, &mut e, &mut all).map_err(|m| format!("{}: {}", show(), m))?;
                        }
                        let t = cur.0.borrow().taken;
                        if t != taken {
                            tries = 0;
                            taken = t;
                        }
                        if tries > 1000 {
                            return Err(format!("{}: reset still failing: {}", show(), x));
                        }
                    }
                }
            }
            c.obs.add("errors_surfaced", errs);
            let out = cur.data();
            judge(c, &out, &all, head.as_ref(), &show)?;
            cur = next;
            head = nh;
            pol = np;
        }
        cur.heal();
        Ok(())
    }

    /// Long streams: the size field and the checksum far beyond one buffer, at the 4 GiB wrap when
    /// thorough (the sink keeps only the last bytes).
    pub struct Tail {
        pub last: Vec<u8>,
        pub total: u64,
    }
    impl Write for Tail {
        fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
            self.total += b.len() as u64;
            self.last.extend_from_slice(b);
            if self.last.len() > 1 << 16 {
                let k = self.last.len() - 64;
                self.last.drain(..k);
            }
            Ok(b.len())
        }
        fn flush(&mut self) -> std::io::Result<()> {
            Ok(())
        }
    }

    pub fn long(c: &mut Case) -> Res {
        let total: u64 = if c.idx == 0 && !c.thorough {
            // past the wrap once on every change, too: runs compress fast
            (1u64 << 32) + 70_001
        } else if c.thorough {
            (1u64 << 32) + c.rng.below(1 << 20) as u64 - (1 << 19)
        } else {
            c.rng.range(20 << 20, 80 << 20) as u64
        };
        let o = match c.idx % 2 {
            0 => CompressionOptions::rle(),
            _ => CompressionOptions::huffman_only(),
        };
        let mut chunk = vec![0u8; 1 << 20];
        for x in chunk.chunks_mut(4096) {
            let b = c.rng.byte();
            x.iter_mut().for_each(|y| *y = b);
        }
        let mut e = Enc::new(Format::Gz, Tail { last: Vec::new(), total: 0 }, o);
        let mut crc = Crc::new();
        let mut left = total;
        while left > 0 {
            let n = (left as usize).min(chunk.len());
            e.write_all(&chunk[..n]).map_err(|x| x.to_string())?;
            crc.update(&chunk[..n]);
            left -= n as u64;
            chunk[(left % 4096) as usize] ^= 1;
        }
        let got = e.checksum();
        let t = e.finish().map_err(|x| x.to_string())?;
        let n = t.last.len();
        let show = format!("gzip stream of {} bytes, {}", total, gen::show(&o));
        differ("gzip CRC", &t.last[n - 8..n - 4], &crc.0.to_le_bytes()).map_err(|m| format!("{}: {}", show, m))?;
        differ("gzip ISIZE", &t.last[n - 4..], &(total as u32).to_le_bytes())
            .map_err(|m| format!("{}: {}", show, m))?;
        if got != Some(crc.0) {
            return Err(format!("{}: checksum() is {:x?}, expected {:x}", show, got, crc.0));
        }
        c.obs.top("largest_stream", total);
        c.obs.case(total ^ c.idx, true, || show.clone());
        Ok(())
    }
}

#[cfg(feature = "gz")]
pub static C06: Prop = Prop {
    id: "C06",
    rule: "gzip streams with random header fields (up to 65535 bytes of extra data) from one-shot calls and streaming histories (flush first, reset, reset with header, drop), parsed by own RFC 1952 parser; non-trivial: some data, distinct by (data, stream)",
    streams: &[
        Stream { name: "long", quick: 3, thorough: 6, f: gz::long },
        Stream { name: "one-shot", quick: 3000, thorough: 60_000, f: gz::oneshot },
        Stream { name: "streamed", quick: 4000, thorough: 90_000, f: gz::stream },
        Stream { name: "faulty", quick: 4000, thorough: 80_000, f: gz::faulty },
    ],
};

// ------------------------------------------------------------------ C07

enum Sum {
    A(Adler),
    C(Crc),
}
impl Sum {
    fn new(f: Format) -> Sum {
        match f {
            Format::Zlib => Sum::A(Adler::new()),
            _ => Sum::C(Crc::new()),
        }
    }
    fn add(&mut self, d: &[u8]) {
        match self {
            Sum::A(a) => a.update(d),
            Sum::C(c) => c.update(d),
        }
    }
    fn get(&self) -> u32 {
        match self {
            Sum::A(a) => a.0,
            Sum::C(c) => c.0,
        }
    }
}

fn c07_run(c: &mut Case) -> Res {
    let f = if FORMATS.len() == 3 && c.rng.chance(1, 2) { *FORMATS.last().unwrap() } else { Format::Zlib };
    let mut o = gen::options(&mut c.rng);
    o.max_hash_checks = o.max_hash_checks.min(2000);
    let hostile = c.rng.chance(1, 2);
    let policy = |rng: &mut Rng| -> Policy {
        if !hostile {
            return Policy::All;
        }
        match rng.below(3) {
            0 => Policy::Random { short: 30, interrupted: 10, hard: rng.range(0, 30), max: 4000 },
            1 => Policy::FailAt {
                at: rng.logrange(1, 60_000),
                times: rng.range(1, 4) as u64,
                kind: *rng.pick(&HARD),
                max: usize::MAX,
            },
            _ => Policy::Max(rng.logrange(1, 5000)),
        }
    };
    let pol = policy(&mut c.rng);
    let sink = Sink::new(pol, c.rng.u64());
    let mut e = Enc::new(f, sink, o);
    let mut sum = Sum::new(f);
    let ctx = format!("{:?} {} hostile={}", f, gen::show(&o), hostile);
    let mut h = 0u64;
    let mut bytes = 0usize;
    let steps = c.rng.range(2, 25);
    let mut errs = 0u64;
    let same = |e: &Enc<Sink>, sum: &Sum, what: &str| -> Res {
        if e.checksum() != Some(sum.get()) {
            return Err(format!(
                "{}: {}: checksum() is {:08x?}, of the accepted data {:08x}",
                ctx,
                what,
                e.checksum(),
                sum.get()
            ));
        }
        Ok(())
    };
    same(&e, &sum, "fresh encoder")?;
    // whether the last reset failed
    let mut after = false;
    for step in 0..steps {
        match c.rng.below(12) {
            0 => {
                let r = e.flush();
                errs += r.is_err() as u64;
                same(&e, &sum, &format!("step {} after flush ({:?})", step, r.is_ok()))?;
            }
            1 => {
                let pol = policy(&mut c.rng);
                let n = Sink::new(pol, c.rng.u64());
                match e.reset(n) {
                    Ok(_) => {
                        sum = Sum::new(f);
                        after = false;
                    }
                    Err(_) => {
                        errs += 1;
                        // the stream is not over: it goes on as it is
                        same(&e, &sum, &format!("step {} after a failed reset", step))?;
                        c.obs.add("failed_resets", 1);
                        after = true;
                    }
                }
                if !after {
                    same(&e, &sum, &format!("step {} after reset", step))?;
                }
            }
            _ => {
                let inp = gen::input(&mut c.rng, 80_000);
                h = h.rotate_left(3) ^ fnv(&inp.data);
                let mut d = &inp.data[..];
                let mut tries = 0;
                loop {
                    let r = if c.rng.chance(1, 4) {
                        e.write_vectored(&crate::plan::slices(&mut c.rng, d))
                    } else {
                        e.write(d)
                    };
                    match r {
                        Ok(n) => {
                            if n > d.len() {
                                return Err(format!("{}: write of {} bytes returned Ok({})", ctx, d.len(), n));
                            }
                            sum.add(&d[..n]);
                            d = &d[n..];
                            bytes += n;
                        }
                        Err(_) => errs += 1,
                    }
                    same(
                        &e,
                        &sum,
                        &format!("step {} after a write that gave {:?}", step, r.map_err(|x| x.kind())),
                    )?;
                    c.obs.add("checks_of_checksum", 1);
                    tries += 1;
                    if d.is_empty() || tries > if after { 2 } else { 60 } {
                        break;
                    }
                }
            }
        }
    }
    c.obs.add("failed_operations", errs);
    c.obs.case(h, bytes > 0, || format!("{} steps={} bytes={} failed ops={}", ctx, steps, bytes, errs));
    // and at the end the trailer says the same
    Ok(())
}

pub static C07: Prop = Prop {
    id: "C07",
    rule: "zlib/gzip encoder under random writes, flushes, resets over healthy and failing sinks; checksum() compared with own Adler-32/CRC-32 of the accepted bytes after every operation; non-trivial: some bytes accepted, distinct by data",
    streams: &[Stream { name: "histories", quick: 5000, thorough: 120_000, f: c07_run }],
};

// ------------------------------------------------------------------ C08

fn c08_run(c: &mut Case, p: &Plan, others: usize) -> Res {
    let want = oneshot(p.f, &p.data, p.o);
    let mut v = p.ops.clone();
    for k in 0..others {
        let q = Plan { ops: v.clone(), ..p.clone() };
        let out = encode(&q, c.obs).map_err(|m| format!("{}: {}", q.show(), m))?;
        differ("output of a split write against the one-shot output", &out, &want)
            .map_err(|m| format!("{}: {}", q.show(), m))?;
        c.obs.case(q.hash(), q.ops.len() > 1 && q.data.len() > 2, || q.show());
        if k + 1 < others {
            v = ops_for(&mut c.rng, p.data.len(), false);
        }
    }
    Ok(())
}

fn c08_mixed(c: &mut Case) -> Res {
    let p = plan(&mut c.rng, 200_000, false);
    c08_run(c, &p, 2)
}

fn c08_small(c: &mut Case) -> Res {
    for _ in 0..15 {
        let p = plan(&mut c.rng, 700, false);
        c08_run(c, &p, 4)?;
    }
    Ok(())
}

/// Split exactly once, near the places where the encoder's buffers turn over.
fn c08_edges(c: &mut Case) -> Res {
    let o = gen::options(&mut c.rng);
    let kind = c.rng.below(gen::KINDS);
    let n = c.rng.range(30_000, gen::size_cap(&o, 230_000).max(30_001));
    let mut data = Vec::new();
    gen::segment(&mut c.rng, &mut data, kind, n);
    data.truncate(n);
    let f = *c.rng.pick(&FORMATS);
    let mut cuts: Vec<usize> = Vec::new();
    for _ in 0..c.rng.range(1, 5) {
        let e = *c.rng.pick(&gen::EDGES);
        cuts.push((e + c.rng.below(9)).saturating_sub(4).min(n));
    }
    cuts.sort();
    let mut ops = Vec::new();
    let mut a = 0;
    for k in cuts {
        ops.push(Op::W(k - a));
        a = k;
    }
    ops.push(Op::W(n - a));
    c08_run(c, &Plan { f, o, kind, data, ops, head: 0 }, 1)
}

/// With flushes at fixed positions, the splits between them change what is decoded up to each flush
/// not at all, and the size by next to nothing (the encoder may compress the bytes next to a flush
/// slightly differently).
fn c08_flushed(c: &mut Case) -> Res {
    let p = plan(&mut c.rng, 150_000, true);
    let a = encode(&p, c.obs).map_err(|m| format!("{}: {}", p.show(), m))?;
    let mut ops = Vec::new();
    for o in &p.ops {
        match o {
            Op::W(n) => {
                let mut left = *n;
                while left > 0 {
                    let k = c.rng.logrange(1, left).clamp(1, left);
                    ops.push(Op::W(k));
                    left -= k;
                }
            }
            Op::Flush => ops.push(Op::Flush),
        }
    }
    let q = Plan { ops, ..p.clone() };
    let b = encode(&q, c.obs).map_err(|m| format!("{}: {}", q.show(), m))?;
    let ctx = |m: String| format!("{} against {}: {}", q.show(), p.show(), m);
    check(q.f, &b, &q.data, false).map_err(ctx)?;
    let slack = 16 + 12 * q.flushes() + a.len().min(b.len()) / 100;
    let by = a.len().abs_diff(b.len());
    c.obs.top("flushed_size_difference", by as u64);
    c.obs.top("flushed_size_difference_percent_of_slack", (by * 100 / slack) as u64);
    if by > slack {
        return Err(ctx(format!("a finer split with the same flush points takes {} bytes, not {}", b.len(), a.len())));
    }
    c.obs.case(q.hash(), q.ops.len() > p.ops.len(), || q.show());
    Ok(())
}

pub static C08: Prop = Prop {
    id: "C08",
    rule: "same data, options and flush points, different splits into writes: the output is compared byte for byte (with the one-shot output if there is no flush); non-trivial: more than one write, distinct by (data, options, format, operations)",
    streams: &[
        Stream { name: "every-cut", quick: 64, thorough: 1280, f: crate::p_sweep::c08_every_cut },
        Stream { name: "many-writes", quick: 12, thorough: 200, f: crate::p_long::c08_many },
        Stream { name: "mixed", quick: 4500, thorough: 100_000, f: c08_mixed },
        Stream { name: "small", quick: 500, thorough: 10_000, f: c08_small },
        Stream { name: "buffer-edges", quick: 3000, thorough: 60_000, f: c08_edges },
        Stream { name: "flushed", quick: 2500, thorough: 50_000, f: c08_flushed },
    ],
};

// ------------------------------------------------------------------ C09

/// A stream after reset() must be byte for byte what a new encoder writes.
fn c09_run(c: &mut Case) -> Res {
    let mut o = gen::options(&mut c.rng);
    o.max_hash_checks = o.max_hash_checks.min(4000);
    let f = *c.rng.pick(&FORMATS);
    let mut cur = Sink::all();
    let mut e = Enc::new(f, cur.clone(), o);
    let rounds = c.rng.range(2, 5);
    let mut prev: Option<Vec<u8>> = None;
    let mut old: Option<(Sink, u64)> = None;
    for r in 0..rounds {
        // the same data again, data sharing content with the last stream, or something new
        let data = match (&prev, c.rng.below(4)) {
            (Some(p), 0) => p.clone(),
            (Some(p), 1) => {
                let mut d = p.clone();
                let k = c.rng.below(d.len() + 1);
                d.rotate_left(k);
                d
            }
            (_, 2) if r == 0 => {
                let i = gen::input(&mut c.rng, 300);
                i.data
            }
            _ => gen::input(&mut c.rng, gen::size_cap(&o, 130_000)).data,
        };
        let fl = c.rng.chance(1, 2);
        let ops = ops_for(&mut c.rng, data.len(), fl);
        let p = Plan { f, o, kind: 99, data, ops, head: 0 };
        let ctx = |m: String| format!("stream {} of one encoder, {}: {}", r, p.show(), m);
        drive(&mut e, &p.data, &p.ops, c.obs, |_, _, _, _| Ok(())).map_err(ctx)?;
        let next = Sink::all();
        let back = e
            .reset(next.clone())
            .map_err(|x| ctx(format!("reset failed on a healthy sink: {}", x)))?;
        if !back.same(&cur) {
            return Err(ctx("reset returned a writer that is not the old one".into()));
        }
        if let Some((s, n)) = &old {
            if s.0.borrow().nonempty != *n {
                return Err(ctx("the writer given back by an earlier reset was written to again".into()));
            }
        }
        let fresh = encode(&p, c.obs).map_err(ctx)?;
        differ(
            "stream of a reset encoder against that of a new one",
            &cur.0.borrow().data,
            &fresh,
        )
        .map_err(ctx)?;
        let calls = cur.0.borrow().nonempty;
        old = Some((cur, calls));
        cur = next;
        c.obs.add("resets", 1);
        c.obs.case(p.hash() ^ r as u64, r > 0 && p.data.len() > 2, || ctx("equal".into()));
        prev = Some(p.data);
    }
    let used = cur.0.borrow().nonempty;
    if used != 0 {
        return Err("reset wrote to the new writer".to_string());
    }
    drop(e);
    Ok(())
}

/// Reset after a first stream that stops at a chosen size: whatever state it leaves must not show.
fn c09_edges(c: &mut Case) -> Res {
    let mut o = gen::options(&mut c.rng);
    o.max_hash_checks = o.max_hash_checks.min(4000);
    let f = *c.rng.pick(&FORMATS);
    let mut e = Enc::new(f, Vec::new(), o);
    let ed = *c.rng.pick(&gen::EDGES);
    let n = (ed + c.rng.below(5)).saturating_sub(2).min(gen::size_cap(&o, 300_000));
    let k1 = c.rng.below(gen::KINDS);
    let mut a = Vec::new();
    gen::segment(&mut c.rng, &mut a, k1, n);
    put(&mut e, &a, c.obs)?;
    if c.rng.chance(1, 2) {
        e.flush().map_err(|x| x.to_string())?;
    }
    e.reset(Vec::new()).map_err(|x| format!("reset: {}", x))?;
    // the second stream starts with content of the first: stale state would match it
    let mut b: Vec<u8> = Vec::new();
    let t = c.rng.range(1, a.len().max(1));
    let s = c.rng.below(a.len().saturating_sub(t) + 1);
    b.extend_from_slice(&a[s..(s + t).min(a.len())]);
    let extra = c.rng.below(3000);
    gen::segment(&mut c.rng, &mut b, 3, extra);
    let ops = ops_for(&mut c.rng, b.len(), c.idx % 2 == 0);
    let p = Plan { f, o, kind: 99, data: b, ops, head: 0 };
    drive(&mut e, &p.data, &p.ops, c.obs, |_, _, _, _| Ok(()))?;
    let got = e.finish().map_err(|x| format!("finish: {}", x))?;
    let want = encode(&p, c.obs)?;
    differ("stream of a reset encoder against that of a new one", &got, &want)
        .map_err(|m| format!("first stream {} bytes, second {}: {}", n, p.show(), m))?;
    c.obs.case(p.hash(), p.data.len() > 2, || format!("first stream {} bytes, second {}", n, p.show()));
    Ok(())
}

fn low(rng: &mut Rng, n: usize) -> Vec<u8> {
    let mut d: Vec<u8> = Vec::new();
    let span = *rng.pick(&[2usize, 4, 12, 32]);
    while d.len() < n {
        match rng.below(5) {
            0 => {
                let k = rng.range(1, 4);
                d.extend(vec![0u8; k]);
            }
            1 | 2 if d.len() > 4 => {
                let k = rng.range(3, 24).min(d.len());
                let at = rng.below(d.len() - k + 1);
                let part = d[at..at + k].to_vec();
                d.extend_from_slice(&part);
            }
            3 => {
                let b = rng.below(span) as u8;
                let k = rng.range(1, 30);
                d.extend(vec![b; k]);
            }
            _ => {
                let k = rng.range(1, 6);
                for _ in 0..k {
                    d.push(rng.below(span) as u8);
                }
            }
        }
    }
    d.truncate(n);
    d
}

/// Data of few values with flushes close together, and what to run before it (through the same
/// or other encoders): places where leftover hash chains would show.
pub fn dense(rng: &mut Rng) -> (Plan, Vec<Vec<u8>>) {
    let mut o = gen::options(rng);
    if rng.chance(2, 3) {
        o.max_hash_checks = o.max_hash_checks.clamp(2, 4000);
    }
    let f = *rng.pick(&FORMATS);
    let warm = (0..rng.range(1, 3))
        .map(|_| {
            let n = rng.logrange(3, 2500);
            low(rng, n)
        })
        .collect();
    let n = rng.logrange(4, 900);
    let b = low(rng, n);
    let mut ops = Vec::new();
    let mut left = b.len();
    let early = rng.range(1, 6);
    while left > 0 {
        let k = if ops.len() < 2 * early || rng.chance(1, 3) {
            rng.below(4)
        } else {
            rng.logrange(1, left)
        };
        let k = k.min(left);
        ops.push(Op::W(k));
        left -= k;
        if rng.chance(4, 5) {
            ops.push(Op::Flush);
        }
    }
    (Plan { f, o, kind: 98, data: b, ops, head: 0 }, warm)
}

/// Short streams of small byte values (whose hashes are themselves small numbers, like the positions
/// in such a stream) with flushes after a byte or two, where positions stay out of the hash chains:
/// whatever a table still says about those positions from before the reset must not show.
fn c09_dense(c: &mut Case) -> Res {
    let (p, warm) = dense(&mut c.rng);
    let mut e = Enc::new(p.f, Vec::new(), p.o);
    for a in &warm {
        put(&mut e, a, c.obs)?;
        e.reset(Vec::new()).map_err(|x| format!("reset: {}", x))?;
    }
    drive(&mut e, &p.data, &p.ops, c.obs, |_, _, _, _| Ok(()))?;
    let got = e.finish().map_err(|x| format!("finish: {}", x))?;
    let want = encode(&p, c.obs)?;
    differ("stream of a reset encoder against that of a new one", &got, &want)
        .map_err(|m| format!("dense flushes, {}: {}", p.show(), m))?;
    c.obs.add("resets", 1);
    c.obs.case(p.hash(), p.data.len() > 2, || format!("dense flushes, {}", p.show()));
    Ok(())
}

pub static C09: Prop = Prop {
    id: "C09",
    rule: "several streams through one encoder with reset in between; each compared byte for byte with a new encoder's; old writers watched; non-trivial: a stream after at least one reset, distinct by (data, options, format, operations)",
    streams: &[
        Stream { name: "many-resets", quick: 3, thorough: 30, f: crate::p_long::c09_many },
        Stream { name: "mixed", quick: 2600, thorough: 60_000, f: c09_run },
        Stream { name: "edges", quick: 2600, thorough: 60_000, f: c09_edges },
        Stream { name: "dense-flushes", quick: 12_000, thorough: 400_000, f: c09_dense },
    ],
};

// ------------------------------------------------------------------ C13

fn c13_drop(c: &mut Case) -> Res {
    let fl = c.rng.chance(1, 2);
    let p = plan(&mut c.rng, 120_000, fl);
    let want = encode(&p, c.obs).map_err(|m| format!("{}: {}", p.show(), m))?;
    // dropped
    let sink = Sink::all();
    let pre_reset = c.rng.chance(1, 4);
    let mut e = if pre_reset {
        let s0 = Sink::all();
        let mut e = p.start(s0);
        put(&mut e, &p.data[..p.data.len().min(1000)], c.obs)?;
        e.reset(sink.clone()).map_err(|x| format!("reset: {}", x))?;
        e
    } else {
        p.start(sink.clone())
    };
    drive(&mut e, &p.data, &p.ops, c.obs, |_, _, _, _| Ok(()))
        .map_err(|m| format!("{}: {}", p.show(), m))?;
    let alive = sink.0.borrow().nonempty;
    guarded(move || drop(e)).map_err(|m| format!("{}: drop: {}", p.show(), m))?;
    differ("dropped encoder against finished encoder", &sink.0.borrow().data, &want)
        .map_err(|m| format!("{}: {}", p.show(), m))?;
    c.obs.add("drops", 1);
    c.obs.add("sink_calls_in_drop", sink.0.borrow().nonempty - alive);
    // finished: nothing is written once finish has returned
    let s2 = Sink::all();
    let mut e = p.start(s2.clone());
    drive(&mut e, &p.data, &p.ops, c.obs, |_, _, _, _| Ok(()))?;
    let back = e.finish().map_err(|x| format!("finish: {}", x))?;
    if !back.same(&s2) {
        return Err(format!("{}: finish returned another writer", p.show()));
    }
    differ("finished encoder, with its drop", &s2.0.borrow().data, &want)
        .map_err(|m| format!("{}: {}", p.show(), m))?;
    c.obs.case(p.hash(), p.data.len() > 2, || p.show());
    Ok(())
}

/// While a panic unwinds, dropping an encoder must leave its sink alone.
fn c13_panic(c: &mut Case) -> Res {
    let fl = c.rng.chance(1, 2);
    let p = plan(&mut c.rng, 60_000, fl);
    let sink = Sink::all();
    let s2 = sink.clone();
    let upto = c.rng.below(p.ops.len() + 1);
    let calls = std::cell::Cell::new(0);
    let obs = &mut *c.obs;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let mut e = p.start(s2);
        let _ = drive(&mut e, &p.data, &p.ops[..upto], obs, |_, _, _, _| Ok(()));
        calls.set(sink.0.borrow().calls);
        std::panic::panic_any(7u8);
    }));
    match r {
        Err(p) if p.is::<u8>() => (),
        _ => return Err("harness: the planted panic did not come back".to_string()),
    }
    let after = sink.0.borrow().calls;
    if after != calls.get() {
        return Err(format!(
            "{}: {} sink calls while a panic was unwinding",
            p.show(),
            after - calls.get()
        ));
    }
    c.obs.add("drops_while_panicking", 1);
    c.obs.case(p.hash() ^ 1, upto > 0, || format!("panic after {} ops of {}", upto, p.show()));
    Ok(())
}

/// Dropping over a failing sink neither panics nor hangs, and writes no more than a prefix.
fn c13_failing(c: &mut Case) -> Res {
    let fl = c.rng.chance(1, 2);
    let p = plan(&mut c.rng, 120_000, fl);
    let want = encode(&p, c.obs).map_err(|m| format!("{}: {}", p.show(), m))?;
    let at = c.rng.below(want.len() + 1);
    let pol = match c.rng.below(3) {
        0 => Policy::FailAt { at, times: u64::MAX, kind: *c.rng.pick(&HARD), max: usize::MAX },
        1 => Policy::Capacity { cap: at, max: usize::MAX },
        _ => Policy::FailAt { at, times: 1, kind: *c.rng.pick(&HARD), max: c.rng.logrange(1, 5000) },
    };
    let sink = Sink::new(pol.clone(), 1);
    sink.0.borrow_mut().budget = 40 * want.len() as u64 + 1000 * p.ops.len() as u64 + 10_000;
    sink.0.borrow_mut().zero_budget = 1000 + 10 * p.ops.len() as u64;
    let mut e = p.start(sink.clone());
    // operations until one fails
    let mut pos = 0;
    'ops: for op in &p.ops {
        match op {
            Op::W(n) => {
                let mut d = &p.data[pos..pos + n];
                if d.is_empty() {
                    let _ = e.write(d);
                }
                while !d.is_empty() {
                    match e.write(d) {
                        Ok(0) => break 'ops,
                        Ok(k) => d = &d[k..],
                        Err(x) if x.kind() == ErrorKind::Interrupted => (),
                        Err(_) => break 'ops,
                    }
                }
                pos += n;
            }
            Op::Flush => {
                if e.flush().is_err() {
                    break 'ops;
                }
            }
        }
    }
    guarded(move || drop(e)).map_err(|m| format!("{} sink {:?}: drop: {}", p.show(), pol, m))?;
    let got = sink.data();
    // up to the failure everything written is the true stream
    let n = got.len().min(at);
    differ("bytes written before the failure", &got[..n], &want[..n])
        .map_err(|m| format!("{} sink {:?}: {}", p.show(), pol, m))?;
    c.obs.add("drops_over_failing_sinks", 1);
    c.obs.case(p.hash() ^ at as u64, at < want.len(), || format!("sink {:?}, {}", pol, p.show()));
    Ok(())
}

/// An error in the middle of finishing or resetting, after which the encoder is dropped: what it
/// still held goes out, if the writer takes data again.
fn c13_late(c: &mut Case) -> Res {
    let fl = c.rng.chance(1, 3);
    let most = if c.rng.chance(2, 3) { 3000 } else { 100_000 };
    let p = plan(&mut c.rng, most, fl);
    let want = encode(&p, c.obs).map_err(|m| format!("{}: {}", p.show(), m))?;
    // what is out before finishing begins
    let probe = Sink::all();
    let mut e = p.start(probe.clone());
    drive(&mut e, &p.data, &p.ops, c.obs, |_, _, _, _| Ok(()))?;
    let before = probe.data().len();
    drop(e);
    // one that fails between there and the end, often in the last bytes
    let back = match c.rng.below(3) {
        0 => c.rng.range(1, 8),
        1 => c.rng.range(1, 20),
        _ => c.rng.range(1, want.len()),
    };
    let at = want.len().saturating_sub(back).max(before);
    let max = if c.rng.chance(1, 2) { usize::MAX } else { c.rng.logrange(1, 4000) };
    let kind = *c.rng.pick(&HARD);
    let times = c.rng.range(1, 3) as u64;
    let sink = Sink::new(Policy::FailAt { at, times, kind, max }, 1);
    sink.0.borrow_mut().budget = 40 * want.len() as u64 + 1000 * p.ops.len() as u64 + 10_000;
    let show = |p: &Plan| format!("{} sink fails {} times at {} of {} with {:?}", p.show(), times, at, want.len(), kind);
    let mut e = p.start(sink.clone());
    let mut errs = 0;
    push(&mut e, &sink, &p.data, &p.ops, &mut errs).map_err(|m| format!("{}: {}", show(&p), m))?;
    let reset = c.rng.chance(1, 2);
    let other = Sink::all();
    let failed = if reset {
        let mut failed = 0;
        // the last attempt is the drop
        while failed < times {
            match e.reset(other.clone()) {
                Ok(_) => break,
                Err(_) => failed += 1,
            }
        }
        if failed == times {
            guarded(move || drop(e)).map_err(|m| format!("{}: drop: {}", show(&p), m))?;
        }
        failed
    } else {
        let r = guarded(move || e.finish().map(|_| ())).map_err(|m| format!("{}: finish: {}", show(&p), m))?;
        r.is_err() as u64
    };
    let got = sink.data();
    let complete = reset || failed == 0 || times == 1;
    if complete {
        differ("the writer after a failed attempt and a drop", &got, &want).map_err(|m| format!("{}: {}", show(&p), m))?;
    } else {
        let n = got.len().min(want.len());
        differ("the writer after a failed attempt and a drop", &got[..n], &want[..n])
            .map_err(|m| format!("{}: {}", show(&p), m))?;
    }
    if failed > 0 && (!reset || failed == times) && !other.data().is_empty() {
        return Err(format!("{}: a writer that was never taken over got {} bytes", show(&p), other.data().len()));
    }
    c.obs.add("failed_resets_then_dropped", (reset && failed > 0) as u64);
    c.obs.add("failed_finishes", (!reset && failed > 0) as u64);
    c.obs.case(p.hash() ^ at as u64 ^ times << 40, failed > 0, || show(&p));
    Ok(())
}

/// Writers that are torn down: finish by value must drop the writer exactly once, and the encoder
/// must hand it back rather than lose it.
fn c13_writer(c: &mut Case) -> Res {
    use std::rc::Rc;
    struct W(Rc<std::cell::Cell<i32>>, Vec<u8>);
    impl Write for W {
        fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
            self.1.extend_from_slice(b);
            Ok(b.len())
        }
        fn flush(&mut self) -> std::io::Result<()> {
            Ok(())
        }
    }
    impl Drop for W {
        fn drop(&mut self) {
            self.0.set(self.0.get() + 1);
        }
    }
    let p = plan_with(&mut c.rng, 4000, true, CompressionOptions::default());
    let n = Rc::new(std::cell::Cell::new(0));
    let mut e = p.start(W(n.clone(), Vec::new()));
    drive(&mut e, &p.data, &p.ops, c.obs, |_, _, _, _| Ok(()))?;
    let mut made = 1;
    let end = c.rng.below(3);
    let back = match end {
        0 => Some(e.finish().map_err(|x| x.to_string())?),
        1 => {
            drop(e);
            None
        }
        _ => {
            let b = e.reset(W(n.clone(), Vec::new())).map_err(|x| x.to_string())?;
            made = 2;
            if n.get() != 0 {
                return Err(format!("{}: a writer was dropped by reset", p.show()));
            }
            drop(e);
            Some(b)
        }
    };
    let want = made - back.is_some() as i32;
    if n.get() != want {
        return Err(format!("{}: {} writers dropped, expected {} (end {})", p.show(), n.get(), want, end));
    }
    if let Some(b) = &back {
        check(p.f, &b.1, &p.data, false).map_err(|m| format!("{}: {}", p.show(), m))?;
    }
    drop(back);
    if n.get() != made {
        return Err(format!("{}: {} writers dropped in the end, {} were made", p.show(), n.get(), made));
    }
    c.obs.case(p.hash() ^ end as u64, true, || format!("end {} {}", end, p.show()));
    Ok(())
}

pub static C13: Prop = Prop {
    id: "C13",
    rule: "same history ended by drop and by finish (compared), by a panic (sink watched), by drop over a failing sink (prefix compared), writer ownership counted; non-trivial: some data or operation, distinct by (data, options, format, operations, fault)",
    streams: &[
        Stream { name: "drop-finish", quick: 3000, thorough: 60_000, f: c13_drop },
        Stream { name: "panicking", quick: 1500, thorough: 20_000, f: c13_panic },
        Stream { name: "failing-sink", quick: 3000, thorough: 60_000, f: c13_failing },
        Stream { name: "late-failure", quick: 4000, thorough: 100_000, f: c13_late },
        Stream { name: "writer-ownership", quick: 600, thorough: 6000, f: c13_writer },
    ],
};
