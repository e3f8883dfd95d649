//! C14, C21, C22, C23, C24: memory, panics, determinism, platforms, time.

use crate::decode::{check, differ};
use crate::enc::{oneshot, Enc, Format, FORMATS};
use crate::gen;
use crate::plan::{drive, encode, ops_for, plan, put, Op, Plan};
use crate::rng::Rng;
use crate::run::{mem_live, mem_peak, mem_reset_peak, Case, Prop, Res, Stream};
use crate::sink::{Policy, Sink, HARD};
use crate::sums::fnv;
use deflate::{CompressionOptions, MatchingType, SpecialOptions};
use std::io::Write;

// ------------------------------------------------------------------ C14

/// What one encoder may hold, whatever is done with it. The encoder of the pinned commit peaks
/// below 0.5 MB.
const HOLD: i64 = 3 << 19;

struct Null(u64);
impl Write for Null {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0 += b.len() as u64;
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// After an encoder is gone: what it held at most, and what it left behind.
fn settle(c: &mut Case, base: i64, show: &dyn Fn() -> String) -> Res {
    let (peak, left) = (mem_peak() - base, mem_live() - base);
    c.obs.top("peak_bytes_held", peak.max(0) as u64);
    if peak > HOLD {
        return Err(format!("{}: the encoder held {} bytes", show(), peak));
    }
    gone(left, show)
}

fn gone(left: i64, show: &dyn Fn() -> String) -> Res {
    if left > 256 {
        return Err(format!("{}: {} bytes are still allocated after the encoder is gone", show(), left));
    }
    Ok(())
}

/// Whatever is made once per thread or process is made here.
fn warm(c: &mut Case) {
    c.obs.top("peak_bytes_held", 0);
    let mut d = vec![0u8; 3000];
    for (i, x) in d.iter_mut().enumerate() {
        *x = (i * i >> 4) as u8;
    }
    for f in FORMATS {
        let mut e = Enc::new(f, Null(0), CompressionOptions::default());
        let _ = e.write_all(&d);
        let _ = e.flush();
        let _ = e.reset(Null(0));
        let _ = e.write_all(&d);
        let _ = e.finish();
    }
}

fn stock(rng: &mut Rng) -> (usize, Vec<u8>) {
    let kind = rng.below(gen::KINDS);
    let n = rng.range(150_000, 700_000);
    let mut d = Vec::new();
    gen::segment(rng, &mut d, kind, n);
    d.truncate(n);
    (kind, d)
}

fn c14_stream(c: &mut Case) -> Res {
    let mut o = gen::options(&mut c.rng);
    o.max_hash_checks = o.max_hash_checks.min(8);
    let f = *c.rng.pick(&FORMATS);
    let (kind, data) = stock(&mut c.rng);
    let total = if c.thorough { c.rng.range(8 << 20, 60 << 20) } else { c.rng.range(3 << 20, 9 << 20) };
    let piece = c.rng.logrange(20, data.len());
    let mode = c.rng.below(4);
    let every = c.rng.logrange(1, 3000);
    let small = c.rng.chance(1, 3);
    let show = move || {
        format!(
            "{:?} {} data={} {} bytes in pieces of {}, mode {} (0 plain, 1 flushes, 2 resets, 3 both) every {}",
            f, gen::show(&o), gen::KIND_NAMES[kind], total, piece, mode, every
        )
    };
    warm(c);
    let base = mem_live();
    mem_reset_peak();
    let mut sent = 0usize;
    {
        let mut e = Enc::new(f, Null(0), o);
        let mut at = 0usize;
        let mut k = 0usize;
        while sent < total {
            let n = if small { 1 + (k * 7919) % piece } else { piece };
            let n = n.min(data.len() - at);
            e.write_all(&data[at..at + n])
                .map_err(|x| format!("{}: {}", show(), x))?;
            sent += n;
            at = if at + n >= data.len() { 0 } else { at + n };
            k += 1;
            if k % every == 0 {
                if mode & 1 != 0 {
                    e.flush().map_err(|x| format!("{}: {}", show(), x))?;
                }
                if mode & 2 != 0 {
                    e.reset(Null(0)).map_err(|x| format!("{}: {}", show(), x))?;
                }
            }
            // enough is enough for byte-sized pieces with a flush each
            if k > 60_000 {
                break;
            }
        }
        if c.idx % 2 == 0 {
            e.finish().map_err(|x| format!("{}: {}", show(), x))?;
        } else {
            drop(e);
        }
    }
    settle(c, base, &show)?;
    c.obs.add("bytes_streamed", sent as u64);
    c.obs.case(fnv(show().as_bytes()), true, show);
    Ok(())
}

/// One write call with a lot of data.
fn c14_one_write(c: &mut Case) -> Res {
    let mut o = gen::options(&mut c.rng);
    o.max_hash_checks = o.max_hash_checks.min(4);
    let f = *c.rng.pick(&FORMATS);
    let (kind, stockd) = stock(&mut c.rng);
    let total = if c.thorough { 24 << 20 } else { 6 << 20 };
    let mut data = Vec::with_capacity(total + stockd.len());
    while data.len() < total {
        data.extend_from_slice(&stockd);
    }
    let show = move || format!("{:?} {} data={} {} bytes in one write", f, gen::show(&o), gen::KIND_NAMES[kind], total);
    warm(c);
    let base = mem_live();
    mem_reset_peak();
    let mut e = Enc::new(f, Null(0), o);
    e.write_all(&data).map_err(|x| format!("{}: {}", show(), x))?;
    drop(e);
    settle(c, base, &show)?;
    c.obs.add("bytes_streamed", data.len() as u64);
    c.obs.case(fnv(show().as_bytes()), true, show);
    Ok(())
}

/// A sink that takes little or nothing, under a caller that does not give up.
fn c14_stuck(c: &mut Case) -> Res {
    let mut o = gen::options(&mut c.rng);
    o.max_hash_checks = o.max_hash_checks.min(8);
    let f = *c.rng.pick(&FORMATS);
    let (kind, data) = stock(&mut c.rng);
    let pol = match c.rng.below(4) {
        0 => Policy::Capacity { cap: c.rng.below(70_000), max: usize::MAX },
        1 => Policy::FailAt { at: c.rng.below(70_000), times: u64::MAX, kind: *c.rng.pick(&HARD), max: usize::MAX },
        2 => Policy::Random { short: 100, interrupted: 0, hard: 0, max: c.rng.range(1, 100) },
        _ => Policy::Random { short: 40, interrupted: 10, hard: 45, max: 2000 },
    };
    let p2 = pol.clone();
    let show = move || format!("{:?} {} data={} sink {:?}", f, gen::show(&o), gen::KIND_NAMES[kind], p2);
    let sink = Sink::new(pol, 1);
    sink.0.borrow_mut().keep = true;
    sink.0.borrow_mut().data.reserve(3 << 20);
    sink.0.borrow_mut().kinds.reserve(1 << 17);
    let mut errs = 0u64;
    warm(c);
    let base = mem_live();
    mem_reset_peak();
    {
        let mut e = Enc::new(f, sink.clone(), o);
        let mut at = 0;
        for k in 0..4000 {
            if sink.0.borrow().taken > 2 << 20 {
                break;
            }
            match c.rng.below(8) {
                0 => errs += e.flush().is_err() as u64,
                1 if k % 5 == 0 => errs += e.reset(sink.clone()).is_err() as u64,
                _ => {
                    let n = (1 + (k * 7919) % 40_000).min(data.len() - at);
                    match e.write(&data[at..at + n]) {
                        Ok(m) => at = if at + m >= data.len() { 0 } else { at + m },
                        Err(_) => errs += 1,
                    }
                }
            }
        }
    }
    settle(c, base, &show)?;
    c.obs.add("failed_operations", errs);
    c.obs.case(fnv(show().as_bytes()) ^ c.idx, true, show);
    Ok(())
}

/// A writer that hardly ever takes all it is offered, but always takes something.
struct Leaves {
    left: usize,
    part: u64,
    often: u64,
    calls: u64,
    took: u64,
    short: u64,
}
impl Write for Leaves {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.calls += 1;
        let whole = self.often != 0 && self.calls % self.often == 0;
        let n = if whole {
            b.len()
        } else {
            (b.len().saturating_sub(self.left) as u64 * self.part / 100) as usize
        };
        let n = n.max(1).min(b.len());
        self.short += (n < b.len()) as u64;
        self.took += n as u64;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// Long streams over a writer that makes progress but nearly always leaves a remainder behind.
fn c14_remainder(c: &mut Case) -> Res {
    let mut o = gen::options(&mut c.rng);
    o.max_hash_checks = o.max_hash_checks.min(4);
    let f = *c.rng.pick(&FORMATS);
    let (kind, mut data) = stock(&mut c.rng);
    if c.idx % 2 == 0 {
        // the more comes out the better
        { let n = data.len(); data.clear(); c.rng.fill(&mut data, n); }
    }
    let left = if c.rng.chance(1, 2) { c.rng.range(1, 3) } else { c.rng.logrange(1, 40_000) };
    let part = *c.rng.pick(&[100u64, 100, 99, 90, 70, 50, 30]);
    let often = *c.rng.pick(&[0u64, 0, 0, 2, 3, 50]);
    let total = if c.thorough { c.rng.range(6 << 20, 30 << 20) } else { c.rng.range(3 << 20, 6 << 20) };
    let piece = c.rng.logrange(500, data.len());
    let every = if c.rng.chance(1, 2) { usize::MAX } else { c.rng.logrange(1, 1000) };
    let random = c.idx % 2 == 0;
    let show = move || {
        format!(
            "{:?} {} data={} {} bytes in pieces of {}, flush every {}, writer takes {} % of all but {} bytes, everything every {} calls",
            f,
            gen::show(&o),
            if random { "random" } else { gen::KIND_NAMES[kind] },
            total,
            piece,
            every,
            part,
            left,
            often
        )
    };
    c.obs.add("short_writes", 0);
    warm(c);
    let base = mem_live();
    mem_reset_peak();
    let mut sent = 0usize;
    let (mut again, mut calls) = (0u64, 0usize);
    {
        let w = || Leaves { left, part, often, calls: 0, took: 0, short: 0 };
        let mut e = Enc::new(f, w(), o);
        let mut at = 0usize;
        while sent < total && calls < 400_000 {
            calls += 1;
            let n = piece.min(data.len() - at);
            match e.write(&data[at..at + n]) {
                Ok(0) => return Err(format!("{}: write took nothing after {} bytes", show(), sent)),
                Ok(m) => {
                    sent += m;
                    at = if at + m >= data.len() { 0 } else { at + m };
                }
                Err(x) if x.kind() == std::io::ErrorKind::Interrupted => again += 1,
                Err(x) => return Err(format!("{}: {}", show(), x)),
            }
            if calls % every == 0 {
                e.flush().map_err(|x| format!("{}: {}", show(), x))?;
            }
        }
        let w = e.finish().map_err(|x| format!("{}: {}", show(), x))?;
        c.obs.add("short_writes", w.short);
    }
    settle(c, base, &show)?;
    c.obs.add("interrupted_retries", again);
    c.obs.add("bytes_streamed", sent as u64);
    c.obs.case(fnv(show().as_bytes()), true, show);
    Ok(())
}

/// A writer that returns an error as many times as it is told to, from outside.
struct Moody(std::rc::Rc<std::cell::Cell<u64>>);
impl Write for Moody {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.0.get() > 0 {
            self.0.set(self.0.get() - 1);
            return Err(std::io::ErrorKind::TimedOut.into());
        }
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// How much more may be held at the end than after an eighth of the operations.
const CREEP: i64 = 1 << 16;

/// What is held between calls does not grow with the number of blocks, flushes and resets.
fn c14_steady(c: &mut Case) -> Res {
    let mut o = gen::options(&mut c.rng);
    o.max_hash_checks = o.max_hash_checks.min(4);
    let f = FORMATS[(c.idx / 4 % 3) as usize];
    let style = c.idx % 4;
    let what = ["flushes", "resets", "blocks", "flushes that fail first"][style as usize];
    let ops: u64 = match (style, c.thorough) {
        (2, false) => 2400,
        (2, true) => 10_000,
        (1, false) => 40_000,
        (_, false) => 80_000,
        (1, true) => 200_000,
        (_, true) => 400_000,
    };
    if style == 2 {
        o = CompressionOptions::huffman_only();
    }
    let step = if style == 2 { 150_000 } else { c.rng.logrange(1, 200) };
    let mut data = Vec::new();
    c.rng.fill(&mut data, 400_000);
    if style != 2 {
        for x in data.iter_mut() {
            *x &= 0x1f;
        }
    }
    let show = move || format!("{:?} {} {} {}, {} bytes before each", f, gen::show(&o), ops, what, step);
    warm(c);
    let trouble = std::rc::Rc::new(std::cell::Cell::new(0));
    let base = mem_live();
    mem_reset_peak();
    let mut refused = 0;
    {
        let mut e = Enc::new(f, Moody(trouble.clone()), o);
        let (mut early, mut at) = (0, 0);
        // buffers that grow as they are needed reach their size here
        for k in 0..3 {
            for _ in 0..5 {
                e.write_all(&data).map_err(|x| format!("{}: {}", show(), x))?;
            }
            match k {
                0 => e.flush().map_err(|x| format!("{}: {}", show(), x))?,
                1 if style == 1 => drop(e.reset(Moody(trouble.clone())).map_err(|x| format!("{}: {}", show(), x))?),
                _ => (),
            }
        }
        for k in 0..ops {
            let n = step.min(data.len() - at);
            e.write_all(&data[at..at + n]).map_err(|x| format!("{}: {}", show(), x))?;
            at = (at + n) % data.len();
            match style {
                0 => e.flush().map_err(|x| format!("{}: {}", show(), x))?,
                1 => drop(e.reset(Moody(trouble.clone())).map_err(|x| format!("{}: {}", show(), x))?),
                3 => {
                    trouble.set(1 + k % 2);
                    while trouble.get() > 0 && e.flush().is_err() {
                        refused += 1;
                    }
                    trouble.set(0);
                    e.flush().map_err(|x| format!("{}: over a writer that has recovered: {}", show(), x))?;
                }
                _ => (),
            }
            if k == ops / 8 {
                early = mem_live();
            }
        }
        let more = mem_live() - early;
        c.obs.top("bytes_held_more_at_the_end_than_after_an_eighth", more.max(0) as u64);
        if more > CREEP {
            return Err(format!("{}: what is held has grown by {} bytes since the first eighth", show(), more));
        }
        e.finish().map_err(|x| format!("{}: {}", show(), x))?;
    }
    settle(c, base, &show)?;
    c.obs.add("steady_operations", ops);
    c.obs.add("flushes_refused_then_repeated", refused);
    c.obs.case(fnv(show().as_bytes()), true, show);
    Ok(())
}

/// One-shot calls hold the result, and no more than the encoder besides.
fn c14_oneshot(c: &mut Case) -> Res {
    let mut o = gen::options(&mut c.rng);
    o.max_hash_checks = o.max_hash_checks.min(16);
    let f = *c.rng.pick(&FORMATS);
    let (kind, mut data) = stock(&mut c.rng);
    if c.idx % 6 == 0 {
        // large, and next to nothing once compressed: a copy of the input could not be the result
        o.max_hash_checks = o.max_hash_checks.clamp(1, 4);
        o.special = SpecialOptions::Normal;
        let keep = c.rng.range(1, 3000);
        data.truncate(keep);
        let n = c.rng.range(6_000_000, 14_000_000);
        while data.len() < n {
            let k = data.len().min(n - data.len());
            data.extend_from_within(..k);
        }
    }
    let n = data.len();
    let show = move || format!("{:?} one-shot {} data={} n={}", f, gen::show(&o), gen::KIND_NAMES[kind], n);
    warm(c);
    let base = mem_live();
    mem_reset_peak();
    let out = oneshot(f, &data, o);
    let peak = mem_peak() - base;
    let m = out.len() as i64;
    // the vector grows by doubling: old and new together are at most three times the result, or one and
    // a half times what the vector can hold in the end; it may start out at a guess from the input
    let room = (3 * m).max(out.capacity() as i64 * 3 / 2).max(n as i64 * 2 / 3);
    c.obs.top("one_shot_peak_share_of_limit_percent", (peak * 100 / (HOLD + room)) as u64);
    if peak > HOLD + room {
        return Err(format!("{}: held {} bytes for a result of {}", show(), peak, m));
    }
    drop(out);
    gone(mem_live() - base, &show)?;
    c.obs.case(fnv(show().as_bytes()), true, show);
    Ok(())
}

pub static C14: Prop = Prop {
    id: "C14",
    rule: "streams of many megabytes, flushed and reset at all rates, over healthy and stuck sinks, with every allocation counted; non-trivial: every run, distinct by its parameters",
    streams: &[
        Stream { name: "stream", quick: 240, thorough: 3000, f: c14_stream },
        Stream { name: "steady", quick: 24, thorough: 240, f: c14_steady },
        Stream { name: "one-write", quick: 40, thorough: 300, f: c14_one_write },
        Stream { name: "stuck-sink", quick: 300, thorough: 6000, f: c14_stuck },
        Stream { name: "remainder", quick: 200, thorough: 3000, f: c14_remainder },
        Stream { name: "one-shot", quick: 300, thorough: 5000, f: c14_oneshot },
    ],
};

// ------------------------------------------------------------------ C21

/// In the build with overflow checks and debug assertions only panics count.
fn only_panics(r: Res) -> Res {
    match r {
        Err(m) if m.contains("panic: ") || m.contains("no termination") => Err(m),
        _ => Ok(()),
    }
}

macro_rules! panics_of {
    ($name:ident, $f:expr) => {
        fn $name(c: &mut Case) -> Res {
            only_panics($f(c))
        }
    };
}
panics_of!(c21_oneshot, crate::p_data::c01_mixed);
panics_of!(c21_immense, crate::p_long::oneshot_immense);
panics_of!(c21_stream, crate::p_data::c02_mixed);

pub fn wrap(c: &mut Case, p: &'static Prop) -> Res {
    // any workload of that property
    let k = c.rng.below(p.streams.len());
    let st = &p.streams[k];
    if st.quick < 50 {
        return Ok(());
    }
    only_panics((st.f)(c))
}

fn c21_data(c: &mut Case) -> Res {
    let p = *c.rng.pick(&[
        &crate::p_data::C01,
        &crate::p_data::C02,
        &crate::p_data::C03,
        &crate::p_data::C04,
        &crate::p_data::C05,
        &crate::p_data::C08,
        &crate::p_data::C09,
    ]);
    wrap(c, p)
}

fn c21_faults(c: &mut Case) -> Res {
    let p = *c.rng.pick(&[
        &crate::p_data::C07,
        &crate::p_fault::C10,
        &crate::p_fault::C11,
        &crate::p_fault::C12,
        &crate::p_data::C13,
    ]);
    wrap(c, p)
}

fn c21_shapes(c: &mut Case) -> Res {
    let p = *c.rng.pick(&[
        &crate::p_quality::C15,
        &crate::p_quality::C16,
        &crate::p_quality::C17,
        &crate::p_quality::C18,
        &crate::p_quality::C20,
    ]);
    wrap(c, p)
}

/// More bytes than 32 bits can count, through one encoder: in runs (which go fast), with a few flushes.
fn c21_long(c: &mut Case) -> Res {
    let f = FORMATS[(c.idx % 3) as usize];
    let total = (1u64 << 32) + 200_000 + c.rng.below(1 << 20) as u64;
    let o = CompressionOptions::rle();
    let mut e = Enc::new(f, std::io::sink(), o);
    let mut chunk = vec![c.rng.byte(); 1 << 20];
    let mut left = total;
    while left > 0 {
        let n = (left as usize).min(chunk.len());
        e.write_all(&chunk[..n]).map_err(|x| x.to_string())?;
        left -= n as u64;
        if c.rng.chance(1, 100) {
            chunk[c.idx as usize % 1000] ^= 1;
            e.flush().map_err(|x| x.to_string())?;
        }
    }
    let _ = e.checksum();
    e.reset(std::io::sink()).map_err(|x| x.to_string())?;
    e.write_all(&chunk).map_err(|x| x.to_string())?;
    e.finish().map_err(|x| x.to_string())?;
    c.obs.top("largest_stream", total);
    c.obs.case(total ^ c.idx, true, || format!("{:?} stream of {} bytes", f, total));
    Ok(())
}

/// Any option value at all, any sequence of calls at all.
fn c21_wild(c: &mut Case) -> Res {
    let any = |r: &mut Rng| match r.below(3) {
        0 => r.below(300) as u16,
        1 => *r.pick(&[0u16, 1, 257, 258, 259, 32767, 32768, 32769, 65534, 65535]),
        _ => r.u64() as u16,
    };
    let o = CompressionOptions {
        max_hash_checks: any(&mut c.rng),
        lazy_if_less_than: any(&mut c.rng),
        matching_type: if c.rng.chance(1, 2) { MatchingType::Lazy } else { MatchingType::Greedy },
        special: *c.rng.pick(&[SpecialOptions::Normal, SpecialOptions::_ForceFixed, SpecialOptions::_ForceStored]),
    };
    let f = *c.rng.pick(&FORMATS);
    let pol = match c.rng.below(4) {
        0 => Policy::All,
        1 => Policy::Random { short: 30, interrupted: 10, hard: 20, max: 5000 },
        2 => Policy::Capacity { cap: c.rng.below(90_000), max: usize::MAX },
        _ => Policy::Max(c.rng.logrange(1, 70_000)),
    };
    let sink = Sink::new(pol.clone(), c.rng.u64());
    sink.0.borrow_mut().budget = 5_000_000;
    let mut e = Enc::new(f, sink, o);
    let steps = c.rng.range(1, 30);
    let mut h = fnv(gen::show(&o).as_bytes());
    let mut left = gen::size_cap(&o, 200_000);
    for _ in 0..steps {
        match c.rng.below(9) {
            0 => {
                let _ = e.flush();
            }
            1 => {
                let _ = e.reset(Sink::new(pol.clone(), 3));
            }
            2 => {
                let _ = e.write(&[]);
            }
            3 => {
                let _ = e.checksum();
            }
            _ => {
                let i = gen::input(&mut c.rng, 60_000.min(left.max(1)));
                left = left.saturating_sub(i.data.len());
                h = h.rotate_left(5) ^ fnv(&i.data);
                let mut d = &i.data[..];
                for _ in 0..10 {
                    match e.write(d) {
                        Ok(n) => d = &d[n.min(d.len())..],
                        Err(_) => (),
                    }
                    if d.is_empty() {
                        break;
                    }
                }
            }
        }
    }
    if c.rng.chance(1, 2) {
        let _ = e.finish();
    } else {
        drop(e);
    }
    c.obs.case(h, true, || format!("{:?} {} {} steps sink {:?}", f, gen::show(&o), steps, pol));
    Ok(())
}

pub static C21: Prop = Prop {
    id: "C21",
    rule: "all workloads of the other properties, and arbitrary option values and call sequences, in a build with overflow checks and debug assertions; only panics and runaway loops count; non-trivial and distinct as in those workloads",
    streams: &[
        Stream { name: "long", quick: 3, thorough: 6, f: c21_long },
        Stream { name: "immense", quick: 2, thorough: 6, f: c21_immense },
        Stream { name: "one-shot", quick: 2500, thorough: 60_000, f: c21_oneshot },
        Stream { name: "streamed", quick: 1800, thorough: 40_000, f: c21_stream },
        Stream { name: "wild", quick: 5000, thorough: 120_000, f: c21_wild },
        Stream { name: "sweep", quick: 16, thorough: 640, f: |c| crate::p_sweep::c04_every_position(c, crate::p_data::c04_run) },
        Stream { name: "data-workloads", quick: 1500, thorough: 40_000, f: c21_data },
        Stream { name: "fault-workloads", quick: 1200, thorough: 30_000, f: c21_faults },
        Stream { name: "shape-workloads", quick: 1500, thorough: 40_000, f: c21_shapes },
    ],
};

// ------------------------------------------------------------------ C22

fn c22_twice(c: &mut Case) -> Res {
    let p = plan(&mut c.rng, 150_000, true);
    let a = encode(&p, c.obs)?;
    // something else in between, leaving other bytes in freed memory
    let q = plan(&mut c.rng, 20_000, true);
    let _ = encode(&q, c.obs)?;
    let b = encode(&p, c.obs)?;
    differ("second run of the same history", &b, &a).map_err(|m| format!("{}: {}", p.show(), m))?;
    let shifted = {
        // the same data at another address
        let mut v = vec![0u8; 1 + c.rng.below(64)];
        let k = v.len();
        v.extend_from_slice(&p.data);
        let mut e = p.start(Vec::new());
        drive(&mut e, &v[k..], &p.ops, c.obs, |_, _, _, _| Ok(()))?;
        e.finish().map_err(|x| x.to_string())?
    };
    differ("run with the data at another address", &shifted, &a).map_err(|m| format!("{}: {}", p.show(), m))?;
    c.obs.case(p.hash(), p.data.len() > 2, || p.show());
    Ok(())
}

/// Several encoders, their operations interleaved, against each alone.
fn c22_interleaved(c: &mut Case) -> Res {
    let n = c.rng.range(2, 5);
    let plans: Vec<Plan> = (0..n).map(|_| plan(&mut c.rng, 60_000, true)).collect();
    let mut solo = Vec::new();
    for p in &plans {
        solo.push(encode(p, c.obs)?);
    }
    let mut es: Vec<_> = plans.iter().map(|p| (p.start(Vec::new()), 0usize, 0usize)).collect();
    loop {
        let live: Vec<usize> = (0..n).filter(|i| es[*i].1 < plans[*i].ops.len()).collect();
        if live.is_empty() {
            break;
        }
        let i = *c.rng.pick(&live);
        let (e, k, at) = &mut es[i];
        match plans[i].ops[*k] {
            Op::W(m) => {
                put(e, &plans[i].data[*at..*at + m], c.obs)?;
                *at += m;
            }
            Op::Flush => e.flush().map_err(|x| x.to_string())?,
        }
        *k += 1;
        c.obs.add("interleaved_operations", 1);
    }
    for (i, (e, _, _)) in es.into_iter().enumerate() {
        let out = e.finish().map_err(|x| x.to_string())?;
        differ("encoder among others against the same alone", &out, &solo[i])
            .map_err(|m| format!("{}: {}", plans[i].show(), m))?;
        c.obs.case(plans[i].hash(), plans[i].data.len() > 2, || format!("one of {}: {}", n, plans[i].show()));
    }
    Ok(())
}

/// Small histories whose output tells much about matching.
fn telling(rng: &mut Rng, n: usize) -> Vec<Plan> {
    (0..n)
        .map(|_| {
            if rng.chance(1, 2) {
                crate::p_data::dense(rng).0
            } else {
                let o = CompressionOptions {
                    max_hash_checks: rng.range(2, 200) as u16,
                    ..CompressionOptions::default()
                };
                crate::plan::plan_with(rng, 3000, true, o)
            }
        })
        .collect()
}

/// The data taken by the first `k` operations of a plan.
fn taken_by(p: &Plan, k: usize) -> usize {
    p.ops[..k]
        .iter()
        .map(|o| match o {
            Op::W(n) => *n,
            _ => 0,
        })
        .sum()
}

/// Hundreds of encoders alive at once.
fn c22_crowd(c: &mut Case) -> Res {
    let plans = telling(&mut c.rng, 40);
    let mut solo = Vec::new();
    for p in &plans {
        solo.push(encode(p, c.obs)?);
    }
    let n = c.rng.range(270, 600);
    let mut es = Vec::new();
    for i in 0..n {
        let p = &plans[i % plans.len()];
        let mut e = p.start(Vec::new());
        // the first part at once, the rest when all are there
        let k = c.rng.below(p.ops.len() + 1);
        drive(&mut e, &p.data, &p.ops[..k], c.obs, |_, _, _, _| Ok(()))?;
        es.push(Some((e, k)));
    }
    let mut order: Vec<usize> = (0..n).collect();
    c.rng.shuffle(&mut order);
    for i in order {
        let j = i % plans.len();
        let p = &plans[j];
        let (mut e, k) = es[i].take().unwrap();
        drive(&mut e, &p.data[taken_by(p, k)..], &p.ops[k..], c.obs, |_, _, _, _| Ok(()))?;
        let out = e.finish().map_err(|x| x.to_string())?;
        differ("encoder among hundreds against the same alone", &out, &solo[j])
            .map_err(|m| format!("{} of {}: {}", i, n, p.show()) + ": " + &m)?;
    }
    c.obs.top("encoders_alive_at_once", n as u64);
    c.obs.case(plans[0].hash() ^ n as u64, true, || format!("{} encoders", n));
    Ok(())
}

/// More encoders, one after the other, than 16 bits can count.
fn c22_count(c: &mut Case) -> Res {
    let plans = telling(&mut c.rng, 12);
    let mut solo = Vec::new();
    for p in &plans {
        solo.push(encode(p, c.obs)?);
    }
    let n = 16_384 + c.rng.below(100);
    for i in 0..n {
        let j = c.rng.below(plans.len());
        let p = &plans[j];
        let out = encode(p, c.obs)?;
        differ("one of very many encoders against the first", &out, &solo[j])
            .map_err(|m| format!("after {}: {}: {}", i, p.show(), m))?;
    }
    c.obs.add("encoders_one_after_another", n as u64);
    c.obs.case(plans[0].hash() ^ n as u64, true, || format!("{} encoders", n));
    Ok(())
}

/// The same history carried out by a destructor while its thread unwinds.
fn c22_unwinding(c: &mut Case) -> Res {
    struct Late<'a>(&'a Plan, &'a mut Result<Vec<u8>, String>);
    impl<'a> Drop for Late<'a> {
        fn drop(&mut self) {
            let mut obs = crate::run::Obs::default();
            let p = self.0;
            let mut e = p.start(Vec::new());
            let r = drive(&mut e, &p.data, &p.ops, &mut obs, |_, _, _, _| Ok(()));
            *self.1 = match r {
                Ok(()) => e.finish().map_err(|x| x.to_string()),
                Err(m) => Err(m),
            };
        }
    }
    let p = plan(&mut c.rng, 30_000, true);
    let want = encode(&p, c.obs)?;
    let mut got = Err("the destructor did not run".to_string());
    {
        let late = Late(&p, &mut got);
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
            let _late = late;
            std::panic::resume_unwind(Box::new(()));
        }));
    }
    let out = got.map_err(|m| format!("while unwinding: {}: {}", p.show(), m))?;
    differ("history while the thread unwinds against the same otherwise", &out, &want)
        .map_err(|m| format!("{}: {}", p.show(), m))?;
    c.obs.add("histories_while_unwinding", 1);
    c.obs.case(p.hash(), p.data.len() > 2, || p.show());
    Ok(())
}

/// Nothing hangs on how long an encoder lives.
fn c22_aged(c: &mut Case) -> Res {
    let plans: Vec<Plan> = (0..40).map(|_| plan(&mut c.rng, 100_000, true)).collect();
    let mut solo = Vec::new();
    for p in &plans {
        solo.push(encode(p, c.obs)?);
    }
    let mut es = Vec::new();
    for p in &plans {
        let mut e = p.start(Vec::new());
        let k = c.rng.below(p.ops.len() + 1);
        drive(&mut e, &p.data, &p.ops[..k], c.obs, |_, _, _, _| Ok(()))?;
        es.push((e, k));
    }
    let wait = c.rng.range(1000, if c.thorough { 20_000 } else { 2500 });
    std::thread::sleep(std::time::Duration::from_millis(wait as u64));
    for (j, (mut e, k)) in es.into_iter().enumerate() {
        let p = &plans[j];
        drive(&mut e, &p.data[taken_by(p, k)..], &p.ops[k..], c.obs, |_, _, _, _| Ok(()))?;
        let out = e.finish().map_err(|x| x.to_string())?;
        differ("encoder that rested for a while against one that did not", &out, &solo[j])
            .map_err(|m| format!("{} ms: {}: {}", wait, p.show(), m))?;
    }
    c.obs.top("milliseconds_rested", wait as u64);
    c.obs.case(plans[0].hash() ^ wait as u64, true, || format!("{} encoders resting {} ms", plans.len(), wait));
    Ok(())
}

/// An encoder handed from thread to thread between operations, others running alongside.
fn c22_threads(c: &mut Case) -> Res {
    let n = c.rng.range(2, 4);
    let plans: Vec<Plan> = (0..n).map(|_| plan(&mut c.rng, 80_000, true)).collect();
    let mut solo = Vec::new();
    for p in &plans {
        solo.push(encode(p, c.obs)?);
    }
    let hops = c.rng.range(2, 6);
    let results: Vec<Result<Vec<u8>, String>> = std::thread::scope(|s| {
        let hs: Vec<_> = plans
            .iter()
            .map(|p| {
                s.spawn(move || {
                    let mut e = p.start(Vec::new());
                    let per = p.ops.len() / hops + 1;
                    let mut at = 0;
                    for part in p.ops.chunks(per) {
                        // the next stretch runs on a new thread
                        let r = std::thread::scope(|s2| {
                            s2.spawn(move || {
                                let mut obs = crate::run::Obs::default();
                                let r = drive(&mut e, &p.data[at..], part, &mut obs, |_, _, _, _| Ok(()));
                                std::thread::yield_now();
                                r.map(|_| e)
                            })
                            .join()
                        });
                        e = match r {
                            Ok(Ok(e)) => e,
                            Ok(Err(m)) => return Err(m),
                            Err(_) => return Err("panic: on a helper thread".to_string()),
                        };
                        at += part
                            .iter()
                            .map(|o| match o {
                                Op::W(n) => *n,
                                _ => 0,
                            })
                            .sum::<usize>();
                    }
                    if p.data.len() % 4 == 0 {
                        return e.finish().map_err(|x| x.to_string());
                    }
                    // the last call, too, on a thread of its own
                    let r = std::thread::scope(|s2| s2.spawn(move || e.finish().map_err(|x| x.to_string())).join());
                    r.unwrap_or_else(|_| Err("panic: on a helper thread".to_string()))
                })
            })
            .collect();
        hs.into_iter()
            .map(|h| h.join().unwrap_or_else(|_| Err("panic: on a helper thread".to_string())))
            .collect()
    });
    for (i, r) in results.into_iter().enumerate() {
        let out = r.map_err(|m| format!("{}: {}", plans[i].show(), m))?;
        differ("encoder moved between threads against the same on one", &out, &solo[i])
            .map_err(|m| format!("{}: {}", plans[i].show(), m))?;
        c.obs.add("thread_hops", hops as u64);
        c.obs.case(plans[i].hash(), plans[i].data.len() > 2, || format!("{} threads: {}", n, plans[i].show()));
    }
    Ok(())
}

#[cfg(not(target_arch = "wasm32"))]
extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn _exit(code: i32) -> !;
}

const FRESH: u64 = 150;

/// One history of the "fresh-process" workload, with what the used process does before it.
fn fresh_case(seed: u64, idx: u64, i: u64) -> (Plan, Vec<Vec<u8>>) {
    let mut rng = Rng::for_case(seed, "C22/fresh-cases", idx * FRESH + i);
    if rng.chance(2, 3) {
        crate::p_data::dense(&mut rng)
    } else {
        let p = plan(&mut rng, 8000, true);
        let warm = (0..rng.range(1, 3))
            .map(|_| {
                let n = rng.logrange(1, 40_000);
                gen::input(&mut rng, n).data
            })
            .collect();
        (p, warm)
    }
}

/// In a process that has used no encoder yet: each history in a fork of its own, digests printed.
#[cfg(not(target_arch = "wasm32"))]
pub fn fresh_process(seed: u64, idx: u64) {
    for i in 0..FRESH {
        let (p, _) = fresh_case(seed, idx, i);
        // SAFETY: this process has a single thread
        unsafe {
            let k = fork();
            if k == 0 {
                let mut obs = crate::run::Obs::default();
                match encode(&p, &mut obs) {
                    Ok(d) => println!("D {} {:016x}", i, fnv(&d)),
                    Err(m) => println!("E {} {}", i, m),
                }
                _exit(0);
            }
            let mut st = 0;
            waitpid(k, &mut st, 0);
        }
    }
}

/// Histories in this process, which has seen thousands of encoders used, dropped and leaked, against
/// the same histories each in a process that sees its first encoder.
fn c22_fresh(c: &mut Case) -> Res {
    let exe = std::env::current_exe().map_err(|x| format!("harness: {}", x))?;
    let out = std::process::Command::new(exe)
        .args(["fresh", &c.seed.to_string(), &c.idx.to_string()])
        .output()
        .map_err(|x| format!("harness: {}", x))?;
    let text = String::from_utf8_lossy(&out.stdout).to_string();
    let mut want = vec![None; FRESH as usize];
    for l in text.lines() {
        let w: Vec<&str> = l.splitn(3, ' ').collect();
        if w.len() == 3 && w[0] == "D" {
            want[w[1].parse::<usize>().map_err(|x| format!("harness: {}", x))?] = Some(w[2].to_string());
        }
    }
    for i in 0..FRESH {
        let (p, warm) = fresh_case(c.seed, c.idx, i);
        for (k, w) in warm.iter().enumerate() {
            let mut e = Enc::new(p.f, Vec::new(), p.o);
            put(&mut e, w, c.obs)?;
            match (i + k as u64) % 4 {
                0 => drop(e),
                1 => {
                    e.flush().map_err(|x| x.to_string())?;
                    drop(e)
                }
                2 => {
                    // dropped while unwinding
                    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
                        let _e = e;
                        std::panic::panic_any(7u8);
                    }));
                }
                _ => {
                    e.finish().map_err(|x| x.to_string())?;
                }
            }
        }
        let got = encode(&p, c.obs)?;
        let h = format!("{:016x}", fnv(&got));
        match &want[i as usize] {
            Some(w) if *w == h => (),
            Some(w) => {
                return Err(format!(
                    "{}: digest {} as the first encoder of a process, {} after other encoders",
                    p.show(), w, h
                ))
            }
            None => return Err(format!("{}: no output as the first encoder of a process", p.show())),
        }
        c.obs.add("histories_in_fresh_processes", 1);
        c.obs.case(p.hash(), p.data.len() > 2, || format!("fresh process, {}", p.show()));
    }
    Ok(())
}

/// The digest of a history's output, for comparison with other builds of the same code.
fn digest_of(c: &mut Case, max: usize) -> Res {
    let mut p = plan(&mut c.rng, max, true);
    // formats every build has
    p.f = if c.rng.chance(1, 2) { Format::Raw } else { Format::Zlib };
    let a = encode(&p, c.obs)?;
    check(p.f, &a, &p.data, false).map_err(|m| format!("{}: {}", p.show(), m))?;
    let h = fnv(&a);
    c.obs.digests.push((c.stream, c.idx, h));
    c.obs.case(p.hash(), p.data.len() > 2, || format!("{} digest {:016x}", p.show(), h));
    Ok(())
}

fn c22_builds(c: &mut Case) -> Res {
    digest_of(c, 140_000)
}

pub static C22: Prop = Prop {
    id: "C22",
    rule: "same history repeated, interleaved with others, moved between threads, as the first encoder of a process, and in other builds (overflow-checked, without gzip support); outputs compared byte for byte (builds: by digest); non-trivial: 3 bytes, distinct by history",
    streams: &[
        Stream { name: "twice", quick: 1200, thorough: 25_000, f: c22_twice },
        Stream { name: "interleaved", quick: 700, thorough: 15_000, f: c22_interleaved },
        Stream { name: "threads", quick: 400, thorough: 8000, f: c22_threads },
        Stream { name: "builds", quick: 2500, thorough: 40_000, f: c22_builds },
        Stream { name: "fresh-process", quick: 48, thorough: 1000, f: c22_fresh },
        Stream { name: "crowd", quick: 12, thorough: 200, f: c22_crowd },
        Stream { name: "count", quick: 5, thorough: 40, f: c22_count },
        Stream { name: "unwinding", quick: 400, thorough: 8000, f: c22_unwinding },
        Stream { name: "rested", quick: 6, thorough: 40, f: c22_aged },
    ],
};

/// Only the digests of the "builds" workload: what the other builds run.
pub static C22D: Prop = Prop {
    id: "C22",
    rule: "digests",
    streams: &[
        Stream { name: "twice", quick: 0, thorough: 0, f: c22_twice },
        Stream { name: "interleaved", quick: 0, thorough: 0, f: c22_interleaved },
        Stream { name: "threads", quick: 0, thorough: 0, f: c22_threads },
        Stream { name: "builds", quick: 2500, thorough: 40_000, f: c22_builds },
    ],
};

// ------------------------------------------------------------------ C23

/// Case for the other platforms: small enough for an interpreter. Returns digest and a description.
pub fn c23_case(idx: u64, seed: u64) -> (u64, String, Vec<u8>, Plan) {
    let mut rng = Rng::for_case(seed, "C23/platform", idx);
    let mut o = gen::options(&mut rng);
    o.max_hash_checks = o.max_hash_checks.min(64);
    let f = if rng.chance(1, 2) { Format::Raw } else { Format::Zlib };
    let big = idx % 61 == 5;
    let (kind, data) = if big {
        // beyond the window, of a kind that is quick to walk through
        let n = 32_768 + rng.below(4000);
        let mut d = Vec::new();
        let k = *rng.pick(&[2usize, 7, 10]);
        gen::segment(&mut rng, &mut d, k, n);
        d.truncate(n);
        o.max_hash_checks = o.max_hash_checks.min(2);
        (k, d)
    } else {
        // Setting up an encoder takes the interpreter as long as some thousand bytes of data do, so
        // put several kinds of data through each
        let n = if rng.chance(1, 6) { rng.logrange(1, 300) } else { rng.range(800, 5000) };
        let mut d = Vec::new();
        while d.len() < n {
            let k = rng.below(gen::KINDS);
            let m = (n - d.len()).min(rng.range(200, 1600));
            gen::segment(&mut rng, &mut d, k, m);
        }
        d.truncate(n);
        (99, d)
    };
    let mut ops = ops_for(&mut rng, data.len(), true);
    if ops.len() > 30 {
        ops.truncate(30);
        let used: usize = ops.iter().map(|o| if let Op::W(n) = o { *n } else { 0 }).sum();
        ops.push(Op::W(data.len() - used));
    }
    let p = Plan { f, o, kind, data, ops, head: 0 };
    let mut obs = crate::run::Obs::default();
    let a = match encode(&p, &mut obs) {
        Ok(a) => a,
        Err(m) => return (0, format!("failed: {}: {}", p.show(), m), Vec::new(), p),
    };
    (fnv(&a), p.show(), a, p)
}

/// Keeps a running hash of what it is given (but for the byte of a gzip header that names the
/// operating system), however it comes divided.
struct Hashing(u64, u64, bool);
impl Write for Hashing {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        for &x in b {
            if !(self.2 && self.1 == 9) {
                self.0 = (self.0 ^ x as u64).wrapping_mul(0x100_0000_01b3);
            }
            self.1 += 1;
        }
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// More bytes than the 32-bit platform can count in its own word; in runs, which go fast.
const LONG_EVERY: u64 = 700;
fn c23_long_case(rng: &mut Rng, idx: u64) -> Result<u64, String> {
    let f = FORMATS[(idx / LONG_EVERY % 3) as usize];
    let mut e = Enc::new(f, Hashing(0, 0, f != Format::Raw && f != Format::Zlib), CompressionOptions::rle());
    let mut chunk = vec![rng.byte(); 1 << 20];
    let mut left = (1u64 << 32) + 200_000 + rng.below(1 << 20) as u64;
    while left > 0 {
        let n = left.min(chunk.len() as u64) as usize;
        e.write_all(&chunk[..n]).map_err(|x| x.to_string())?;
        left -= n as u64;
        if rng.chance(1, 100) {
            let at = rng.below(chunk.len());
            chunk[at] ^= rng.byte();
            e.flush().map_err(|x| x.to_string())?;
        }
    }
    let sum = e.checksum().unwrap_or(0);
    let h = e.finish().map_err(|x| x.to_string())?.0;
    Ok(h ^ sum as u64)
}

/// Case for a 32-bit platform that runs at full speed: any history. Returns digest and output.
pub fn c23_wide_case(idx: u64, seed: u64) -> (Result<(u64, Vec<u8>), String>, Plan) {
    let mut rng = Rng::for_case(seed, "C23/wide", idx);
    if idx % LONG_EVERY == 0 && idx < 3 * LONG_EVERY {
        let h = c23_long_case(&mut rng, idx);
        let f = FORMATS[(idx / LONG_EVERY % 3) as usize];
        let p = Plan { f, o: CompressionOptions::rle(), kind: 98, data: Vec::new(), ops: Vec::new(), head: 0 };
        return (h.map(|h| (h, Vec::new())), p);
    }
    let mut p = plan(&mut rng, 150_000, true);
    p.o.max_hash_checks = p.o.max_hash_checks.min(512);
    let mut obs = crate::run::Obs::default();
    let r = encode(&p, &mut obs).map(|a| {
        // a gzip header names the operating system
        let h = if p.f == Format::Raw || p.f == Format::Zlib || a.len() < 10 {
            fnv(&a)
        } else {
            fnv(&a[..9]) ^ fnv(&a[10..]).rotate_left(1)
        };
        (h, a)
    });
    (r, p)
}

fn c23_wide(c: &mut Case) -> Res {
    let (r, p) = c23_wide_case(c.idx, c.seed);
    let (h, out) = r.map_err(|m| format!("{}: {}", p.show(), m))?;
    if p.kind == 98 {
        c.obs.add("streams_of_more_than_4_gib", 1);
    } else {
        check(p.f, &out, &p.data, false).map_err(|m| format!("{}: {}", p.show(), m))?;
    }
    c.obs.digests.push((c.stream, c.idx, h));
    c.obs.case(p.hash(), p.data.len() > 2, || format!("{} digest {:016x}", p.show(), h));
    Ok(())
}

fn c23_native(c: &mut Case) -> Res {
    let (h, show, out, p) = c23_case(c.idx, c.seed);
    if show.starts_with("failed") {
        return Err(show);
    }
    check(p.f, &out, &p.data, false).map_err(|m| format!("{}: {}", show, m))?;
    c.obs.digests.push((c.stream, c.idx, h));
    c.obs.case(p.hash(), p.data.len() > 2, || format!("{} digest {:016x}", show, h));
    Ok(())
}

pub static C23: Prop = Prop {
    id: "C23",
    rule: "small histories run natively and under an interpreter of other platforms (big-endian 64-bit, little-endian 32-bit) that also watches for undefined behaviour; digests compared; non-trivial: 3 bytes, distinct by history",
    streams: &[
        Stream { name: "platform", quick: 5000, thorough: 5000, f: c23_native },
        Stream { name: "wide", quick: 2000, thorough: 80_000, f: c23_wide },
    ],
};

// ------------------------------------------------------------------ C24

#[cfg(target_arch = "wasm32")]
fn cpu_ns() -> u64 {
    unimplemented!()
}

#[cfg(not(target_arch = "wasm32"))]
fn cpu_ns() -> u64 {
    // CPU time of this thread
    #[repr(C)]
    struct Timespec {
        s: i64,
        n: i64,
    }
    extern "C" {
        fn clock_gettime(id: i32, t: *mut Timespec) -> i32;
    }
    let mut t = Timespec { s: 0, n: 0 };
    // 3 is CLOCK_THREAD_CPUTIME_ID
    let r = unsafe { clock_gettime(3, &mut t) };
    assert!(r == 0, "harness: no CPU clock");
    t.s as u64 * 1_000_000_000 + t.n as u64
}

/// CPU time of a fixed piece of byte work, so that limits move with the machine.
fn unit_ns() -> f64 {
    let mut best = u64::MAX;
    let mut d = vec![0u8; 1 << 16];
    for (i, x) in d.iter_mut().enumerate() {
        *x = (i * 31 >> 3) as u8;
    }
    for _ in 0..3 {
        let t = cpu_ns();
        let mut s = 0u64;
        for _ in 0..4 {
            s = s.wrapping_add(fnv(std::hint::black_box(&d)));
        }
        std::hint::black_box(s);
        best = best.min(cpu_ns().saturating_sub(t).max(1));
    }
    best as f64 / (4.0 * 65536.0)
}

/// Inputs meant to make match searching slow.
fn hostile(rng: &mut Rng, n: usize) -> (&'static str, Vec<u8>) {
    let mut d = Vec::with_capacity(n + 600);
    let style = rng.below(9);
    let name = [
        "zeros", "three-byte prefix, then noise", "two letters", "long equal stretches that differ at the end",
        "short period", "near matches of 257", "period 32768", "sawtooth", "colliding prefixes",
    ][style];
    match style {
        0 => d.resize(n, 0),
        1 => {
            while d.len() < n {
                d.extend_from_slice(b"abc");
                let b = rng.byte();
                d.push(b);
                let b = rng.byte();
                d.push(b);
            }
        }
        2 => {
            while d.len() < n {
                let b = b'a' + rng.below(2) as u8;
                d.push(b);
            }
        }
        3 => {
            let l = rng.range(20, 250);
            while d.len() < n {
                let k = d.len() + l;
                d.resize(k, b'x');
                let b = rng.byte();
                d.push(b);
            }
        }
        4 => {
            let p = rng.range(2, 12);
            let mut u = Vec::new();
            rng.fill(&mut u, p);
            while d.len() < n {
                d.extend_from_slice(&u);
                if rng.below(100) == 0 {
                    let b = rng.byte();
                    d.push(b);
                }
            }
        }
        5 => {
            let mut u = Vec::new();
            rng.fill(&mut u, 257);
            while d.len() < n {
                d.extend_from_slice(&u);
                let b = rng.byte();
                d.push(b);
            }
        }
        6 => {
            rng.fill(&mut d, 32_768);
            while d.len() < n {
                let b = d[d.len() - 32_768];
                d.push(if rng.below(50) == 0 { b ^ 1 } else { b });
            }
        }
        7 => {
            let m = rng.range(3, 40);
            let mut i = 0;
            while d.len() < n {
                d.push((i % m) as u8);
                i += if rng.below(30) == 0 { 2 } else { 1 };
            }
        }
        _ => {
            // the same three bytes before each of many different continuations
            let pre = [rng.byte(), rng.byte(), rng.byte()];
            while d.len() < n {
                d.extend_from_slice(&pre);
                let k = rng.range(1, 4);
                rng.fill(&mut d, k);
            }
        }
    }
    d.truncate(n);
    (name, d)
}

fn c24_time(c: &mut Case) -> Res {
    let checks = *c.rng.pick(&[0u16, 1, 1, 1, 2, 4, 8, 32, 128, 128, 500, 2000]);
    let lazy = *c.rng.pick(&[0u16, 32, 128, 258]);
    let m = if c.rng.chance(1, 2) { MatchingType::Lazy } else { MatchingType::Greedy };
    let o = CompressionOptions {
        max_hash_checks: checks,
        lazy_if_less_than: lazy,
        matching_type: m,
        special: SpecialOptions::Normal,
    };
    let n = c.rng.range(300_000, 700_000) / (1 + checks as usize / 130);
    let (name, data) = hostile(&mut c.rng, n);
    let piece = if c.rng.chance(1, 3) { c.rng.logrange(100, n) } else { n };
    let run = || -> Result<u64, String> {
        let t = cpu_ns();
        let mut e = Enc::new(Format::Raw, Null(0), o);
        for d in data.chunks(piece) {
            e.write_all(d).map_err(|x| x.to_string())?;
        }
        e.finish().map_err(|x| x.to_string())?;
        Ok(cpu_ns() - t)
    };
    let unit = unit_ns();
    let limit_per_byte = unit * (120.0 + 15.0 * checks as f64);
    let mut per = f64::MAX;
    // a slow run is repeated: only work that is always slow counts
    for _ in 0..4 {
        let t = run()?;
        per = per.min(t as f64 / n as f64);
        if per < limit_per_byte {
            break;
        }
    }
    let rel = per / (unit * (1.0 + 0.15 * checks as f64));
    c.obs.top("cpu_units_per_byte_x100_over_1_plus_checks_x0.15", (rel * 100.0) as u64);
    c.obs.top("hostile_share_of_limit_percent", (per * 100.0 / limit_per_byte) as u64);
    c.obs.add("bytes_timed", n as u64);
    if per > limit_per_byte {
        return Err(format!(
            "{} n={} pieces of {} {}: {:.0} ns of CPU time per byte (limit {:.0}, machine unit {:.2} ns)",
            name, n, piece, gen::show(&o), per, limit_per_byte, unit
        ));
    }
    c.obs.case(fnv(&data) ^ checks as u64, true, || {
        format!("{} n={} {}: {:.0} ns per byte, limit {:.0}", name, n, gen::show(&o), per, limit_per_byte)
    });
    Ok(())
}

/// What a run costs must not depend on how long it is: one pattern from end to end, next to the same
/// amount of patterns that change every few hundred bytes.
fn c24_runs(c: &mut Case) -> Res {
    let o = match c.idx % 4 {
        0 => CompressionOptions::rle(),
        1 => CompressionOptions::fast(),
        2 => CompressionOptions { matching_type: MatchingType::Greedy, max_hash_checks: 1 + (c.idx / 4 % 9) as u16, ..CompressionOptions::default() },
        _ => CompressionOptions { max_hash_checks: 1 + (c.idx / 4 % 9) as u16, lazy_if_less_than: *c.rng.pick(&[0u16, 32, 128, 258]), ..CompressionOptions::default() },
    };
    let p = if c.idx % 4 == 0 { 1 } else { *c.rng.pick(&[1usize, 1, 2, 3, 5, 30, 258, 900]) };
    let n = c.rng.range(400_000, 800_000);
    let pat: Vec<u8> = (0..p).map(|_| c.rng.byte()).collect();
    let long: Vec<u8> = (0..n).map(|i| pat[i % p]).collect();
    let every = c.rng.range(300, 600);
    let mut broken = long.clone();
    for (k, seg) in broken.chunks_mut(every).enumerate() {
        let x = (k as u8).wrapping_mul(37);
        for b in seg.iter_mut() {
            *b ^= x;
        }
    }
    let piece = if c.rng.chance(1, 3) { c.rng.logrange(1000, n) } else { n };
    let cost = |data: &[u8]| -> Result<f64, String> {
        let t = cpu_ns();
        let mut e = Enc::new(Format::Raw, Null(0), o);
        for d in data.chunks(piece) {
            e.write_all(d).map_err(|x| x.to_string())?;
        }
        e.finish().map_err(|x| x.to_string())?;
        Ok((cpu_ns() - t) as f64 / n as f64)
    };
    let unit = unit_ns();
    let (mut a, mut b) = (cost(&broken)?, cost(&long)?);
    let mut limit = 4.0 * a + 16.0 * unit;
    for _ in 0..5 {
        if b <= limit {
            break;
        }
        b = b.min(cost(&long)?);
        a = a.max(cost(&broken)?);
        limit = 4.0 * a + 16.0 * unit;
    }
    c.obs.top("long_run_share_of_limit_percent", (b * 100.0 / limit) as u64);
    c.obs.add("runs_timed", 1);
    let show = move || {
        format!(
            "period {} n={} pieces of {} {}: {:.1} ns per byte in one run, {:.1} in runs of {} (machine unit {:.2} ns)",
            p, n, piece, gen::show(&o), b, a, every, unit
        )
    };
    if b > limit {
        return Err(format!("a long run costs more per byte than short ones: {}", show()));
    }
    c.obs.case(fnv(show().as_bytes()), true, show);
    Ok(())
}

/// Cost per byte must not grow with what has gone through before.
fn c24_linear(c: &mut Case) -> Res {
    let o = *c.rng.pick(&[
        CompressionOptions::fast(),
        CompressionOptions::default(),
        CompressionOptions::rle(),
        CompressionOptions::huffman_only(),
    ]);
    let n = 1 << 20;
    let (name, data) = hostile(&mut c.rng, n);
    let f = *c.rng.pick(&FORMATS);
    let piece = *c.rng.pick(&[1000usize, 40_000, 1 << 20]);
    let flush = c.rng.chance(1, 2);
    let total = if o.max_hash_checks > 1 { 5usize } else { 12 };
    let mut e = Enc::new(f, Null(0), o);
    let mut per = Vec::new();
    for _ in 0..total {
        let t = cpu_ns();
        for d in data.chunks(piece) {
            e.write_all(d).map_err(|x| x.to_string())?;
            if flush {
                e.flush().map_err(|x| x.to_string())?;
            }
        }
        per.push(cpu_ns() - t);
    }
    let first = per[1].max(per[0]);
    let last = per[total - 1].min(per[total - 2]);
    c.obs.top("last_over_first_percent", last * 100 / first.max(1));
    let show = || format!("{:?} {} {} pieces of {} flush={}: ns per MiB {:?}", f, gen::show(&o), name, piece, flush, per);
    if last > 4 * first + 50_000_000 {
        return Err(format!("{}: the same data takes ever longer", show()));
    }
    c.obs.case(fnv(&data) ^ fnv(gen::show(&o).as_bytes()), true, show);
    Ok(())
}

/// Very small writes, with or without flushes: the cost of a call must not depend on how much
/// data the encoder happens to hold.
fn c24_tiny(c: &mut Case) -> Res {
    let o = *c.rng.pick(&[
        CompressionOptions::fast(),
        CompressionOptions::default(),
        CompressionOptions::rle(),
        CompressionOptions::huffman_only(),
    ]);
    let f = *c.rng.pick(&FORMATS);
    let flush = c.rng.chance(1, 3);
    let n = if flush { c.rng.range(30_000, 60_000) } else { c.rng.range(120_000, 260_000) };
    let (name, data) = hostile(&mut c.rng, n);
    let top = *c.rng.pick(&[1usize, 1, 1, 2, 5, 30]);
    let mut pieces = Vec::new();
    let mut left = n;
    while left > 0 {
        let k = c.rng.range(1, top).min(left);
        pieces.push(k);
        left -= k;
        if c.rng.chance(1, 50) {
            pieces.push(0);
        }
    }
    let every = if flush { c.rng.range(20, 200) } else { usize::MAX };
    let mut calls = 0u64;
    let mut flushed = 0u64;
    let run = || -> Result<(u64, u64, u64), String> {
        let t = cpu_ns();
        let mut e = Enc::new(f, Null(0), o);
        let mut at = 0;
        let (mut calls, mut flushed) = (0u64, 0u64);
        for (i, k) in pieces.iter().enumerate() {
            let end = at + k;
            loop {
                calls += 1;
                at += e.write(&data[at..end]).map_err(|x| x.to_string())?;
                if at == end {
                    break;
                }
            }
            if i % every == every - 1 {
                flushed += 1;
                e.flush().map_err(|x| x.to_string())?;
            }
        }
        e.finish().map_err(|x| x.to_string())?;
        Ok((cpu_ns() - t, calls, flushed))
    };
    let unit = unit_ns();
    let mut best = f64::MAX;
    let mut limit = 0.0;
    for _ in 0..4 {
        let r = run()?;
        best = best.min(r.0 as f64);
        (calls, flushed) = (r.1, r.2);
        limit = unit * (n as f64 * (150.0 + 20.0 * o.max_hash_checks as f64) + calls as f64 * 100.0 + flushed as f64 * 100_000.0);
        if best < limit {
            break;
        }
    }
    c.obs.top(if flush { "flushed_share_of_limit_percent" } else { "tiny_share_of_limit_percent" }, (best * 100.0 / limit) as u64);
    c.obs.top(
        if flush { "units_per_flush_with_its_data" } else { "units_per_tiny_call" },
        (best / unit / if flush { flushed.max(1) } else { calls } as f64) as u64,
    );
    c.obs.add("tiny_calls_timed", calls);
    c.obs.add("flushes_timed", flushed);
    let show = || {
        format!(
            "{:?} {} n={} {} calls of up to {} bytes, {} flushes, {}: {:.2} ms of CPU time, limit {:.2} ms (machine unit {:.2} ns)",
            f, name, n, calls, top, flushed, gen::show(&o), best / 1e6, limit / 1e6, unit
        )
    };
    if best > limit {
        return Err(show());
    }
    c.obs.case(fnv(&data) ^ top as u64 ^ (every as u64) << 8, true, show);
    Ok(())
}

struct Slow(usize, u64, u64);
impl Write for Slow {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let k = b.len().min(self.0);
        self.1 += k as u64;
        self.2 += 1;
        Ok(k)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// A writer whose appetite can be changed from outside.
struct Dial<'a>(&'a std::cell::Cell<usize>, &'a std::cell::Cell<u64>);
impl Write for Dial<'_> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.1.set(self.1.get() + 1);
        Ok(b.len().min(self.0.get()))
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// The cost of a call to a writer that takes a byte at a time, with much waiting in the encoder and
/// with little.
fn c24_delivery(c: &mut Case) -> Res {
    let f = *c.rng.pick(&FORMATS);
    let o = *c.rng.pick(&[CompressionOptions::huffman_only(), CompressionOptions::rle(), CompressionOptions::fast()]);
    let most = *c.rng.pick(&[1usize, 1, 2, 3]);
    let flush = c.rng.chance(1, 2);
    let big = c.rng.range(50_000, 63_000);
    let small = c.rng.range(200, 600);
    let mut data = Vec::new();
    c.rng.fill(&mut data, big);
    // time of everything after the data is in, per call of the writer
    let run = |n: usize, most: usize| -> Result<(f64, u64), String> {
        let (mut ns, mut calls) = (0u64, 0u64);
        for d in data.chunks(n).take(40_000 / n + 1) {
            let (limit, count) = (std::cell::Cell::new(usize::MAX), std::cell::Cell::new(0u64));
            let mut e = Enc::new(f, Dial(&limit, &count), o);
            let mut at = 0;
            while at < d.len() {
                at += e.write(&d[at..]).map_err(|x| x.to_string())?;
            }
            count.set(0);
            limit.set(most);
            let t = cpu_ns();
            if flush {
                e.flush().map_err(|x| x.to_string())?;
            }
            e.finish().map_err(|x| x.to_string())?;
            ns += cpu_ns() - t;
            calls += count.get();
        }
        Ok((ns as f64, calls))
    };
    let unit = unit_ns();
    let (mut cost, mut share) = ((0.0, 0.0), f64::MAX);
    for _ in 0..5 {
        let mut per = [0.0; 2];
        for (k, n) in [big, small].iter().enumerate() {
            let slow = run(*n, most)?;
            let fast = run(*n, usize::MAX)?;
            per[k] = (slow.0 - fast.0).max(0.0) / (slow.1 - fast.1).max(1) as f64;
        }
        let s = per[0] / (4.0 * per[1] + if flush { 60.0 } else { 160.0 } * unit);
        if s < share {
            share = s;
            cost = (per[0], per[1]);
        }
        if share < 0.5 {
            break;
        }
    }
    c.obs.top("delivery_share_of_limit_percent", (share * 100.0) as u64);
    c.obs.add("delivery_costs_compared", 1);
    let show = || format!(
        "{:?} {} flush={} {} bytes per call: {:.1} ns per call with {} bytes of noise waiting, {:.1} with {} (machine unit {:.2} ns)",
        f, gen::show(&o), flush, most, cost.0, big, cost.1, small, unit
    );
    if share > 1.0 {
        return Err(show());
    }
    c.obs.case(fnv(&data) ^ most as u64, true, show);
    Ok(())
}

/// A writer that takes a few bytes per call: delivering a byte costs the same however much waits.
fn c24_slow(c: &mut Case) -> Res {
    let o = *c.rng.pick(&[
        CompressionOptions::fast(),
        CompressionOptions::default(),
        CompressionOptions::rle(),
        CompressionOptions::huffman_only(),
    ]);
    let f = *c.rng.pick(&FORMATS);
    let n = c.rng.range(60_000, 200_000);
    let mut data = Vec::new();
    let name = if c.rng.chance(2, 3) {
        c.rng.fill(&mut data, n);
        "noise"
    } else {
        let (name, d) = hostile(&mut c.rng, n);
        data = d;
        name
    };
    let most = *c.rng.pick(&[1usize, 1, 1, 2, 7]);
    let piece = *c.rng.pick(&[1usize, 100, 5000, 70_000, 200_000]);
    let flush = c.rng.chance(1, 2);
    let unit = unit_ns();
    let (mut best, mut limit) = (f64::MAX, 0.0);
    let (mut sent, mut calls, mut writes) = (0, 0, 0u64);
    for _ in 0..4 {
        let t = cpu_ns();
        let mut e = Enc::new(f, Slow(most, 0, 0), o);
        let mut flushes = 0u64;
        writes = 0;
        for d in data.chunks(piece) {
            let mut d = d;
            while !d.is_empty() {
                writes += 1;
                match e.write(d) {
                    Ok(k) => d = &d[k..],
                    Err(x) if x.kind() == std::io::ErrorKind::Interrupted => (),
                    Err(x) => return Err(x.to_string()),
                }
            }
            if flush && writes % 400 == 1 {
                flushes += 1;
                e.flush().map_err(|x| x.to_string())?;
            }
        }
        let w = e.finish().map_err(|x| x.to_string())?;
        best = best.min((cpu_ns() - t) as f64);
        (sent, calls) = (w.1, w.2);
        limit = unit
            * (n as f64 * (150.0 + 20.0 * o.max_hash_checks as f64)
                + (writes + calls) as f64 * 150.0
                + flushes as f64 * 100_000.0);
        if best < limit {
            break;
        }
    }
    c.obs.top("slow_writer_share_of_limit_percent", (best * 100.0 / limit) as u64);
    c.obs.top("units_per_slow_call", (best / unit / (calls + writes) as f64) as u64);
    c.obs.add("slow_writer_calls", calls);
    let show = || {
        format!(
            "{:?} {} n={} in pieces of {}, {} bytes out in {} calls, {}: {:.2} ms of CPU time, limit {:.2} ms (machine unit {:.2} ns)",
            f, name, n, piece, sent, calls, gen::show(&o), best / 1e6, limit / 1e6, unit
        )
    };
    if best > limit {
        return Err(show());
    }
    c.obs.case(fnv(&data) ^ most as u64 ^ (piece as u64) << 8, true, show);
    Ok(())
}

pub static C24: Prop = Prop {
    id: "C24",
    rule: "CPU time of compressing inputs built to make match searching slow, per byte and against the match-search limit; and of the same megabyte repeated through one encoder; non-trivial: every run, distinct by (data, options)",
    streams: &[
        Stream { name: "hostile", quick: 320, thorough: 8000, f: c24_time },
        Stream { name: "runs", quick: 64, thorough: 1600, f: c24_runs },
        Stream { name: "linear", quick: 40, thorough: 400, f: c24_linear },
        Stream { name: "tiny", quick: 240, thorough: 4000, f: c24_tiny },
        Stream { name: "slow-delivery", quick: 60, thorough: 1000, f: c24_delivery },
        Stream { name: "slow-writer", quick: 200, thorough: 4000, f: c24_slow },
    ],
};
