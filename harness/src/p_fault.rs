//! C10..C12: what happens over sinks that are short, interrupted, failing or full.

use crate::decode::{check, differ};
use crate::enc::{Enc, FORMATS};
use crate::gen;
use crate::plan::{drive, drive_patient, encode, ops_for, plan, put, Op, Plan};
use crate::rng::Rng;
use crate::run::{guarded, Case, Obs, Prop, Res, Stream};
use crate::sink::{Policy, Sink, HARD};
use std::io::{ErrorKind, Write};

/// The fault-free run of a plan: the stream, and how much of it is out after each operation that
/// is a flush.
struct Ref {
    want: Vec<u8>,
    after_flush: Vec<usize>,
}

fn reference(p: &Plan, obs: &mut Obs) -> Result<Ref, String> {
    let s = Sink::all();
    let mut e = p.start(s.clone());
    let mut lens = vec![0; p.ops.len()];
    drive(&mut e, &p.data, &p.ops, obs, |i, _, _, _| {
        lens[i] = s.len();
        Ok(())
    })
    .map_err(|m| format!("{}: {}", p.show(), m))?;
    e.finish().map_err(|x| format!("{}: finish: {}", p.show(), x))?;
    Ok(Ref {
        want: s.data(),
        after_flush: lens,
    })
}

fn small_plan(rng: &mut Rng, max: usize) -> Plan {
    let mut o = gen::options(rng);
    o.max_hash_checks = o.max_hash_checks.min(2000);
    let mut p = crate::plan::plan_with(rng, max, true, o);
    if FORMATS.len() == 3 && p.f == *FORMATS.last().unwrap() && rng.chance(1, 3) {
        p.head = rng.logrange(1, (max / 2).min(40_000));
    }
    p
}

// ------------------------------------------------------------------ C10

fn c10_run(c: &mut Case, p: &Plan, pol: Policy) -> Res {
    let want = encode(p, c.obs).map_err(|m| format!("{}: {}", p.show(), m))?;
    let sink = Sink::new(pol.clone(), c.rng.u64());
    sink.0.borrow_mut().budget = 60 * want.len() as u64 + 1000 * p.ops.len() as u64 + 100_000;
    let ctx = |m: String| format!("sink {:?}, {}: {}", pol, p.show(), m);
    let mut e = p.start(sink.clone());
    drive_patient(&mut e, &p.data, &p.ops, c.obs, 400_000, |_, _, _, _| Ok(())).map_err(ctx)?;
    if c.rng.chance(1, 2) {
        e.finish().map_err(|x| ctx(format!("finish: {}", x)))?;
    } else {
        e.reset(Sink::all())
            .map_err(|x| ctx(format!("reset: {}", x)))?;
    }
    let s = sink.0.borrow();
    differ("output over a short-writing sink against a plain one", &s.data, &want).map_err(ctx)?;
    c.obs.add("short_writes", s.short);
    c.obs.add("interrupted", s.interrupted);
    let h = p.hash() ^ s.short.rotate_left(32) ^ s.interrupted.rotate_left(48);
    c.obs.case(h, s.short + s.interrupted > 0, || {
        format!("{} short, {} interrupted; {}", s.short, s.interrupted, p.show())
    });
    Ok(())
}

fn policy10(rng: &mut Rng) -> Policy {
    match rng.below(4) {
        0 => Policy::Max(rng.range(1, 5)),
        1 => Policy::Max(rng.logrange(1, 40_000)),
        2 => Policy::Random {
            short: rng.range(10, 100),
            interrupted: rng.range(0, 50),
            hard: 0,
            max: rng.logrange(1, 40_000),
        },
        _ => Policy::Random { short: 0, interrupted: rng.range(5, 90), hard: 0, max: 1 },
    }
}

fn c10_mixed(c: &mut Case) -> Res {
    let fl = c.rng.chance(1, 2);
    let p = plan(&mut c.rng, 200_000, fl);
    let pol = policy10(&mut c.rng);
    c10_run(c, &p, pol)
}

/// Incompressible data through large writes: the output buffer is full most of the time.
fn c10_pressure(c: &mut Case) -> Res {
    let mut p = plan(&mut c.rng, 10, false);
    let n = c.rng.range(60_000, 400_000).min(gen::size_cap(&p.o, 400_000));
    p.data.clear();
    let k = *c.rng.pick(&[0usize, 6, 10]);
    gen::segment(&mut c.rng, &mut p.data, k, n);
    p.data.truncate(n);
    p.kind = k;
    let fl = c.rng.chance(1, 2);
    p.ops = ops_for(&mut c.rng, n, fl);
    let pol = match c.rng.below(3) {
        0 => Policy::Max(c.rng.range(1, 60)),
        1 => Policy::Max(c.rng.range(30_000, 70_000)),
        _ => policy10(&mut c.rng),
    };
    c10_run(c, &p, pol)
}

fn c10_tiny(c: &mut Case) -> Res {
    for _ in 0..12 {
        let p = plan(&mut c.rng, 600, true);
        let pol = policy10(&mut c.rng);
        c10_run(c, &p, pol)?;
    }
    Ok(())
}

pub static C10: Prop = Prop {
    id: "C10",
    rule: "history over a sink giving short writes and Interrupted; its content compared byte for byte with that of a plain sink; non-trivial: at least one short write or Interrupted happened, distinct by (history, counts)",
    streams: &[
        Stream { name: "mixed", quick: 4000, thorough: 100_000, f: c10_mixed },
        Stream { name: "pressure", quick: 1200, thorough: 30_000, f: c10_pressure },
        Stream { name: "tiny", quick: 900, thorough: 20_000, f: c10_tiny },
    ],
};

// ------------------------------------------------------------------ C11

#[derive(Clone, Copy, PartialEq, Debug)]
enum End {
    Reset,
    Finish,
}

/// Carry out a plan over a failing sink, repeating an operation that failed until it succeeds.
/// Judges every step against the fault-free run.
fn retrying(c: &mut Case, p: &Plan, r: &Ref, pol: Policy, permanent: bool, end: End, seed: u64) -> Res {
    let sink = Sink::new(pol.clone(), seed);
    sink.0.borrow_mut().budget = 60 * r.want.len() as u64 + 1000 * p.ops.len() as u64 + 100_000;
    let show = || format!("sink {:?} seed {} end {:?}, {}", pol, seed, end, p.show());
    let mut e = p.start(sink.clone());
    let mut errs = 0u64;
    let mut given_up = false;
    let max_tries = if permanent { 4 } else { 400 };
    let mut checked = 0usize;
    // tries that brought nothing, in a row
    let last = std::cell::Cell::new(u64::MAX);
    let more = |tries: usize| -> usize {
        let t = sink.0.borrow().taken;
        if last.replace(t) == t {
            tries + 1
        } else {
            0
        }
    };
    let prefix = |what: &str, checked: &mut usize| -> Res {
        let s = sink.0.borrow();
        if s.data.len() > r.want.len() {
            return Err(format!(
                "{}: the sink holds {} bytes, the whole fault-free stream has {}",
                what, s.data.len(), r.want.len()
            ));
        }
        differ("sink content", &s.data[*checked..], &r.want[*checked..s.data.len()])
            .map_err(|m| format!("{}: from byte {}: {}", what, *checked, m))?;
        *checked = s.data.len();
        Ok(())
    };
    // an error must be one the sink gave during this very call (or Interrupted: try again)
    let blame = |what: &str, k: ErrorKind, before: u64| -> Res {
        if k == ErrorKind::Interrupted {
            return Ok(());
        }
        let s = sink.0.borrow();
        if s.hard == before {
            return Err(format!("{} reported {:?} though the sink reported no error during the call", what, k));
        }
        if !s.kinds[before as usize..].contains(&k) {
            return Err(format!(
                "{} reported {:?}, the sink's errors were {:?}",
                what,
                k,
                &s.kinds[before as usize..]
            ));
        }
        Ok(())
    };
    let body = |e: &mut Enc<Sink>, errs: &mut u64, given_up: &mut bool, checked: &mut usize| -> Res {
        let mut at = 0;
        for (i, op) in p.ops.iter().enumerate() {
            let mut tries = 0;
            match op {
                Op::W(n) => {
                    let mut d = &p.data[at..at + n];
                    loop {
                        let before = sink.0.borrow().hard;
                        match e.write(d) {
                            Ok(k) if k > d.len() => {
                                return Err(format!("op {}: write of {} bytes returned Ok({})", i, d.len(), k))
                            }
                            Ok(0) if !d.is_empty() => {
                                return Err(format!("op {}: write of {} bytes returned Ok(0)", i, d.len()))
                            }
                            Ok(k) => {
                                d = &d[k..];
                                tries = 0;
                                if d.is_empty() {
                                    break;
                                }
                            }
                            Err(x) => {
                                blame(&format!("op {} write", i), x.kind(), before)?;
                                *errs += 1;
                                tries = more(tries);
                                if tries > max_tries {
                                    if permanent {
                                        *given_up = true;
                                        return Ok(());
                                    }
                                    return Err(format!("op {}: write makes no progress after the sink recovered", i));
                                }
                            }
                        }
                    }
                    at += n;
                }
                Op::Flush => loop {
                    let before = sink.0.borrow().hard;
                    match e.flush() {
                        Ok(()) => {
                            let l = sink.len();
                            if l != r.after_flush[i] {
                                return Err(format!(
                                    "op {}: flush succeeded with {} bytes in the sink, {} without faults",
                                    i, l, r.after_flush[i]
                                ));
                            }
                            break;
                        }
                        Err(x) => {
                            blame(&format!("op {} flush", i), x.kind(), before)?;
                            *errs += 1;
                            tries = more(tries);
                            if tries > max_tries {
                                if permanent {
                                    *given_up = true;
                                    return Ok(());
                                }
                                return Err(format!("op {}: flush makes no progress after the sink recovered", i));
                            }
                        }
                    }
                },
            }
            prefix(&format!("after op {}", i), checked)?;
        }
        Ok(())
    };
    body(&mut e, &mut errs, &mut given_up, &mut checked).map_err(|m| format!("{}: {}", show(), m))?;
    let complete = |what: &str| -> Res {
        differ(what, &sink.0.borrow().data, &r.want).map_err(|m| format!("{}: {}", show(), m))
    };
    match end {
        End::Finish => {
            let before = sink.0.borrow().hard;
            let res = guarded(move || e.finish().map_err(|x| x.kind()));
            match res.map_err(|m| format!("{}: finish: {}", show(), m))? {
                Ok(back) => {
                    if !back.same(&sink) {
                        return Err(format!("{}: finish returned another writer", show()));
                    }
                    complete("finish returned Ok; sink content")?;
                }
                Err(k) => {
                    blame("finish", k, before).map_err(|m| format!("{}: {}", show(), m))?;
                    errs += 1;
                }
            }
            prefix("after finish", &mut checked).map_err(|m| format!("{}: {}", show(), m))?;
        }
        End::Reset => {
            let next = Sink::all();
            let mut tries = 0;
            loop {
                let before = sink.0.borrow().hard;
                match e.reset(next.clone()) {
                    Ok(back) => {
                        if !back.same(&sink) {
                            return Err(format!("{}: reset returned another writer", show()));
                        }
                        if given_up {
                            // operations were skipped: everything accepted is what must be there,
                            // but a sink that never recovers cannot have it
                            return Err(format!("{}: reset succeeded over a dead sink", show()));
                        }
                        complete("reset returned Ok; sink content")?;
                        break;
                    }
                    Err(x) => {
                        blame("reset", x.kind(), before).map_err(|m| format!("{}: {}", show(), m))?;
                        errs += 1;
                        tries = more(tries);
                        prefix("after a failed reset", &mut checked)
                            .map_err(|m| format!("{}: {}", show(), m))?;
                        if tries > max_tries {
                            if permanent {
                                given_up = true;
                                break;
                            }
                            return Err(format!("{}: reset makes no progress after the sink recovered", show()));
                        }
                    }
                }
            }
            if !given_up {
                // and the encoder goes on as new
                let tail = &p.data[..p.data.len().min(500)];
                put(&mut e, tail, c.obs).map_err(|m| format!("{}: after reset: {}", show(), m))?;
                e.finish().map_err(|x| format!("{}: after reset: {}", show(), x))?;
                check(p.f, &next.data(), tail, false)
                    .map_err(|m| format!("{}: stream after reset: {}", show(), m))?;
            } else {
                if next.0.borrow().nonempty != 0 {
                    return Err(format!("{}: a failed reset wrote to the new writer", show()));
                }
                guarded(move || drop(e)).map_err(|m| format!("{}: drop: {}", show(), m))?;
                prefix("after drop", &mut checked).map_err(|m| format!("{}: {}", show(), m))?;
            }
        }
    }
    let s = sink.0.borrow();
    if permanent && s.hard > 0 && errs == 0 {
        return Err(format!("{}: the sink failed {} times for good and nobody was told", show(), s.hard));
    }
    c.obs.add("sink_errors_injected", s.hard);
    c.obs.add("errors_surfaced", errs);
    c.obs.add("given_up_runs", given_up as u64);
    let h = p.hash() ^ (format!("{:?}{:?}{}", pol, end, seed).bytes().fold(7u64, |a, b| {
        (a ^ b as u64).wrapping_mul(0x100_0000_01b3)
    }));
    c.obs.case(h, s.hard > 0, || format!("{} errors injected, {} surfaced: {}", s.hard, errs, show()));
    Ok(())
}

/// Every byte offset of a small stream, failing once, twice, for ever.
fn c11_every_byte(c: &mut Case) -> Res {
    let p = loop {
        let p = small_plan(&mut c.rng, 500);
        if p.ops.len() < 60 {
            break p;
        }
    };
    let r = reference(&p, c.obs)?;
    for at in 0..=r.want.len().min(700) {
        let kind = *c.rng.pick(&HARD);
        let times = match at % 3 {
            0 => 1,
            1 => c.rng.range(2, 3) as u64,
            _ => u64::MAX,
        };
        let end = if c.rng.chance(1, 3) { End::Finish } else { End::Reset };
        let max = if c.rng.chance(1, 4) { c.rng.range(1, 40) } else { usize::MAX };
        retrying(c, &p, &r, Policy::FailAt { at, times, kind, max }, times == u64::MAX, end, at as u64)?;
    }
    c.obs.add("fault_points_enumerated", r.want.len().min(700) as u64 + 1);
    Ok(())
}

/// Every sink call of a larger history fails once.
fn c11_every_call(c: &mut Case) -> Res {
    let p = loop {
        let p = small_plan(&mut c.rng, 90_000);
        if p.ops.len() < 120 {
            break p;
        }
    };
    let r = reference(&p, c.obs)?;
    let s = Sink::all();
    let mut e = p.start(s.clone());
    drive(&mut e, &p.data, &p.ops, c.obs, |_, _, _, _| Ok(()))?;
    e.finish().map_err(|x| x.to_string())?;
    let calls = s.0.borrow().nonempty;
    for k in 1..=calls.min(25) {
        let kind = *c.rng.pick(&HARD);
        let end = if c.rng.chance(1, 3) { End::Finish } else { End::Reset };
        let mut v = vec![k];
        if c.rng.chance(1, 2) {
            v.push(k + 1);
        }
        if c.rng.chance(1, 3) {
            v.push(k + 2 + c.rng.below(6) as u64);
        }
        retrying(c, &p, &r, Policy::FailCalls { calls: v, kind, max: usize::MAX }, false, end, k)?;
    }
    c.obs.add("fault_points_enumerated", calls.min(25));
    Ok(())
}

/// Large histories, faults anywhere, also many of them, also around the buffer sizes.
fn c11_large(c: &mut Case) -> Res {
    let p = small_plan(&mut c.rng, 260_000);
    let r = reference(&p, c.obs)?;
    for _ in 0..3 {
        let end = if c.rng.chance(1, 3) { End::Finish } else { End::Reset };
        let kind = *c.rng.pick(&HARD);
        let seed = c.rng.u64() % 100_000;
        let (pol, perm) = match c.rng.below(4) {
            0 => (
                Policy::Random {
                    short: c.rng.range(0, 60),
                    interrupted: c.rng.range(0, 20),
                    hard: c.rng.range(5, 40),
                    max: c.rng.logrange(100, 70_000),
                },
                false,
            ),
            1 => {
                let at = (*c.rng.pick(&[0usize, 2, 10, 32768, 32770, 65536, 65540, 98304]) + c.rng.below(4))
                    .min(r.want.len());
                (Policy::FailAt { at, times: c.rng.range(1, 4) as u64, kind, max: usize::MAX }, false)
            }
            2 => {
                let at = c.rng.below(r.want.len() + 1);
                (Policy::FailAt { at, times: u64::MAX, kind, max: usize::MAX }, true)
            }
            _ => {
                // near the end: the trailer
                let at = r.want.len().saturating_sub(c.rng.below(12));
                (Policy::FailAt { at, times: c.rng.range(1, 3) as u64, kind, max: c.rng.range(1, 9) }, false)
            }
        };
        retrying(c, &p, &r, pol, perm, end, seed)?;
    }
    Ok(())
}

/// The caller does not repeat the operation that failed but goes on with the next one. Whatever was
/// accepted must come out once the sink has recovered.
fn c11_free(c: &mut Case) -> Res {
    let p = small_plan(&mut c.rng, 150_000);
    let pol = match c.rng.below(3) {
        0 => Policy::Random { short: 30, interrupted: 5, hard: c.rng.range(5, 50), max: 20_000 },
        1 => Policy::FailAt {
            at: c.rng.below(p.data.len() + 20),
            times: c.rng.range(1, 6) as u64,
            kind: *c.rng.pick(&HARD),
            max: usize::MAX,
        },
        _ => {
            let k = c.rng.range(1, 9) as u64;
            Policy::FailCalls {
                calls: vec![k, k + 1, k + 3],
                kind: *c.rng.pick(&HARD),
                max: usize::MAX,
            }
        }
    };
    let sink = Sink::new(pol.clone(), c.rng.u64());
    sink.0.borrow_mut().budget = 100 * (p.data.len() + p.head) as u64 + 1000 * p.ops.len() as u64 + 100_000;
    let show = || format!("sink {:?}, going on after errors, {}", pol, p.show());
    let mut e = p.start(sink.clone());
    let mut taken: Vec<u8> = Vec::new();
    let mut at = 0;
    let mut errs = 0u64;
    let mut skipped = 0u64;
    for op in &p.ops {
        match op {
            Op::W(n) => {
                let mut d = &p.data[at..at + n];
                let mut tries = 0;
                while !d.is_empty() {
                    match e.write(d) {
                        Ok(0) => return Err(format!("{}: write of {} bytes returned Ok(0)", show(), d.len())),
                        Ok(k) if k > d.len() => return Err(format!("{}: write returned too much", show())),
                        Ok(k) => {
                            taken.extend_from_slice(&d[..k]);
                            d = &d[k..];
                        }
                        Err(x) => {
                            errs += (x.kind() != ErrorKind::Interrupted) as u64;
                            tries += 1;
                            if tries > 2 + c.rng.below(3) {
                                skipped += 1;
                                break; // this piece is given up, the rest of the data goes on
                            }
                        }
                    }
                }
                at += n;
            }
            Op::Flush => match e.flush() {
                Ok(()) => {
                    let s = sink.0.borrow();
                    let (h, _) = crate::decode::head_len(p.f, &s.data).map_err(|m| format!("{}: {}", show(), m))?;
                    let mut inf = crate::inflate::Inflater::new();
                    let r = inf.feed(&s.data[h..]).map_err(|b| format!("{}: after a flush: {}", show(), b))?;
                    if r.0 != crate::inflate::Status::Boundary {
                        return Err(format!("{}: a flush wrote a final block", show()));
                    }
                    differ("data decodable after a successful flush", &inf.out, &taken)
                        .map_err(|m| format!("{}: {}", show(), m))?;
                }
                Err(x) => {
                    errs += (x.kind() != ErrorKind::Interrupted) as u64;
                }
            },
        }
    }
    let mut over = false;
    if c.rng.chance(1, 2) {
        // attempts to end the stream that fail, and more calls after them
        for _ in 0..c.rng.range(1, 3) {
            let n = sink.0.borrow().data.len();
            {
                let mut s = sink.0.borrow_mut();
                s.failed = 0;
                s.policy = Policy::FailAt {
                    at: n + c.rng.below(30),
                    times: c.rng.range(1, 3) as u64,
                    kind: *c.rng.pick(&HARD),
                    max: c.rng.logrange(1, 9000),
                };
            }
            if e.reset(Sink::all()).is_ok() {
                over = true;
                break;
            }
            crate::p_data::meddle(c, &mut e, &mut taken).map_err(|m| format!("{}: {}", show(), m))?;
        }
    }
    sink.heal();
    let mut tries = 0;
    while !over {
        match e.reset(Sink::all()) {
            Ok(_) => break,
            Err(x) => {
                tries += 1;
                if tries > 3 {
                    return Err(format!("{}: reset fails over a sink that has recovered: {}", show(), x));
                }
            }
        }
    }
    let s = sink.0.borrow();
    check(p.f, &s.data, &taken, false).map_err(|m| format!("{}: {}", show(), m))?;
    c.obs.add("sink_errors_injected", s.hard);
    c.obs.add("errors_surfaced", errs);
    c.obs.add("pieces_given_up", skipped);
    c.obs.case(p.hash() ^ s.hard, s.hard > 0, || format!("{} errors injected, {}", s.hard, show()));
    Ok(())
}

pub static C11: Prop = Prop {
    id: "C11",
    rule: "history over a sink failing at an enumerated byte offset or call (once, several times, for ever) or at random; each step judged against the fault-free run; non-trivial: the sink failed at least once, distinct by (history, fault)",
    streams: &[
        Stream { name: "every-byte", quick: 260, thorough: 8000, f: c11_every_byte },
        Stream { name: "every-call", quick: 500, thorough: 12_000, f: c11_every_call },
        Stream { name: "large", quick: 1000, thorough: 25_000, f: c11_large },
        Stream { name: "going-on", quick: 2500, thorough: 60_000, f: c11_free },
    ],
};

// ------------------------------------------------------------------ C12

/// `write_all`, but an empty write is made, too.
fn all<W: Write>(e: &mut Enc<W>, d: &[u8]) -> std::io::Result<()> {
    if d.is_empty() {
        match e.write(d) {
            Err(x) if x.kind() != ErrorKind::Interrupted => return Err(x),
            _ => return Ok(()),
        }
    }
    e.write_all(d)
}

/// A destination with room for so many bytes and no more.
fn c12_capacity(c: &mut Case) -> Res {
    let big = c.rng.chance(1, 2);
    let p = small_plan(&mut c.rng, if big { 200_000 } else { 3000 });
    let want = encode(&p, c.obs).map_err(|m| format!("{}: {}", p.show(), m))?;
    for _ in 0..3 {
        let cap = match c.rng.below(5) {
            0 => 0,
            1 => want.len(),
            2 => want.len().saturating_sub(c.rng.range(1, 12)),
            3 => want.len() + c.rng.range(1, 100),
            _ => c.rng.below(want.len() + 1),
        };
        let sink = Sink::new(Policy::Capacity { cap, max: if c.rng.chance(1, 3) { c.rng.logrange(1, 40_000) } else { usize::MAX } }, 1);
        sink.0.borrow_mut().zero_budget = 50 + 8 * p.ops.len() as u64;
        sink.0.borrow_mut().budget = 4 * want.len() as u64 + 100 * p.ops.len() as u64 + 10_000;
        let show = || format!("sink with room for {} of {} bytes, {}", cap, want.len(), p.show());
        let fits = cap >= want.len();
        let r = guarded(|| -> Result<Option<ErrorKind>, String> {
            let mut e = p.start(sink.clone());
            let mut at = 0;
            for (i, op) in p.ops.iter().enumerate() {
                let r = match op {
                    Op::W(n) => {
                        at += n;
                        all(&mut e, &p.data[at - n..at])
                    }
                    Op::Flush => e.flush(),
                };
                if let Err(x) = r {
                    if fits {
                        return Err(format!("op {} failed though everything fits: {}", i, x));
                    }
                    drop(e);
                    return Ok(Some(x.kind()));
                }
            }
            match e.finish() {
                Ok(_) if !fits => Err("finish succeeded though the output does not fit".to_string()),
                Err(x) if fits => Err(format!("finish failed though everything fits: {}", x)),
                Ok(_) => Ok(None),
                Err(x) => Ok(Some(x.kind())),
            }
        });
        let k = r
            .map_err(|m| format!("{}: {}", show(), m))?
            .map_err(|m| format!("{}: {}", show(), m))?;
        if let Some(k) = k {
            if k != ErrorKind::WriteZero {
                return Err(format!("{}: a sink that takes nothing was reported as {:?}", show(), k));
            }
        }
        let s = sink.0.borrow();
        let n = s.data.len().min(want.len());
        differ("what the sink took", &s.data[..n], &want[..n]).map_err(|m| format!("{}: {}", show(), m))?;
        c.obs.add("zero_answers", s.zero);
        c.obs.case(p.hash() ^ cap as u64, !fits, show);
    }
    Ok(())
}

/// The same with the standard library's own fixed-size writer.
fn c12_slice(c: &mut Case) -> Res {
    let p = small_plan(&mut c.rng, 70_000);
    let want = encode(&p, c.obs).map_err(|m| format!("{}: {}", p.show(), m))?;
    for cap in [want.len(), want.len().saturating_sub(1), want.len() / 2, 0, want.len() + 9] {
        let mut buf = vec![0u8; cap];
        let fits = cap >= want.len();
        let r = guarded(|| {
            let mut e = p.start(&mut buf[..]);
            let mut at = 0;
            for op in &p.ops {
                match op {
                    Op::W(n) => {
                        at += n;
                        all(&mut e, &p.data[at - n..at])?
                    }
                    Op::Flush => e.flush()?,
                }
            }
            e.finish().map(|rest| rest.len())
        })
        .map_err(|m| format!("slice of {} bytes, {}: {}", cap, p.show(), m))?;
        match r {
            Ok(left) => {
                if !fits || left != cap - want.len() {
                    return Err(format!(
                        "slice of {} bytes for a stream of {}: finish gave back {} free bytes: {}",
                        cap, want.len(), left, p.show()
                    ));
                }
            }
            Err(x) => {
                if fits {
                    return Err(format!("slice of {} bytes: failed though {} fit: {}: {}", cap, want.len(), x, p.show()));
                }
            }
        }
        let n = cap.min(want.len());
        if fits {
            differ("slice content", &buf[..n], &want[..n]).map_err(|m| format!("{}: {}", p.show(), m))?;
        }
        c.obs.case(p.hash() ^ (cap as u64) << 20, !fits, || format!("slice of {} for {} bytes", cap, want.len()));
    }
    Ok(())
}

/// Sinks that take one byte at a time, and sinks that are dead: how many calls each operation makes.
fn c12_calls(c: &mut Case) -> Res {
    let p = small_plan(&mut c.rng, 120_000);
    let want = encode(&p, c.obs).map_err(|m| format!("{}: {}", p.show(), m))?;
    let dead = c.rng.chance(1, 2);
    let at = c.rng.below(want.len() + 1);
    let step = c.rng.range(1, 3);
    let pol = if dead {
        if c.rng.chance(1, 2) {
            Policy::FailAt { at, times: u64::MAX, kind: *c.rng.pick(&HARD), max: usize::MAX }
        } else {
            Policy::Capacity { cap: at, max: usize::MAX }
        }
    } else {
        Policy::Max(step)
    };
    let show = || format!("sink {:?}, {}", pol, p.show());
    let sink = Sink::new(pol.clone(), 1);
    sink.0.borrow_mut().budget = 3 * want.len() as u64 + 400 * p.ops.len() as u64 + 10_000;
    let mut e = p.start(sink.clone());
    let r = guarded(|| -> Result<Enc<Sink>, String> {
        let mut pos = 0;
        for (i, op) in p.ops.iter().enumerate() {
            let (c0, t0) = (sink.0.borrow().nonempty, sink.0.borrow().taken);
            let mut user = 0u64;
            match op {
                Op::W(n) => {
                    let mut d = &p.data[pos..pos + n];
                    let mut fails = 0;
                    if d.is_empty() {
                        user += 1;
                        let _ = e.write(d);
                    }
                    let mut intr = 0;
                    while !d.is_empty() && fails < 3 {
                        user += 1;
                        match e.write(d) {
                            Ok(0) => return Err(format!("op {}: write returned Ok(0)", i)),
                            Ok(k) => {
                                d = &d[k..];
                                intr = 0;
                            }
                            Err(x) if x.kind() == ErrorKind::Interrupted => {
                                intr += 1;
                                if intr > 2 * want.len() + 1000 {
                                    return Err(format!("op {}: write never stops answering Interrupted", i));
                                }
                            }
                            Err(_) => fails += 1,
                        }
                    }
                    pos += n;
                }
                Op::Flush => {
                    for _ in 0..2 {
                        user += 1;
                        if e.flush().is_ok() {
                            break;
                        }
                    }
                }
            }
            let s = sink.0.borrow();
            // every call that brought nothing has to be paid for by a call of ours
            let idle = (s.nonempty - c0).saturating_sub(s.taken - t0);
            if idle > 3 * user + 2 {
                return Err(format!(
                    "op {}: {} calls to the sink for {} bytes in {} calls of the encoder",
                    i,
                    s.nonempty - c0,
                    s.taken - t0,
                    user
                ));
            }
        }
        Ok(e)
    })
    .map_err(|m| format!("{}: {}", show(), m))?
    .map_err(|m| format!("{}: {}", show(), m))?;
    let fin = guarded(move || r.finish().map(|_| ()).map_err(|x| x.kind()))
        .map_err(|m| format!("{}: finish: {}", show(), m))?;
    if !dead {
        if fin.is_err() {
            return Err(format!("{}: finish failed: {:?}", show(), fin));
        }
        differ("output", &sink.0.borrow().data, &want).map_err(|m| format!("{}: {}", show(), m))?;
    } else if at < want.len() && fin.is_ok() {
        return Err(format!("{}: finish succeeded over a dead sink", show()));
    }
    c.obs.add("sink_calls", sink.0.borrow().nonempty);
    c.obs.case(p.hash() ^ at as u64, true, show);
    Ok(())
}

/// A dead sink under a caller that keeps writing incompressible data: the encoder must say so
/// after a bounded amount.
fn c12_backpressure(c: &mut Case) -> Res {
    let mut o = gen::options(&mut c.rng);
    o.max_hash_checks = o.max_hash_checks.min(130);
    let f = *c.rng.pick(&FORMATS);
    let mut data = Vec::new();
    c.rng.fill(&mut data, 1 << 20);
    let zero = c.rng.chance(1, 2);
    let pol = if zero {
        Policy::Capacity { cap: 0, max: 1 }
    } else {
        Policy::FailAt { at: 0, times: u64::MAX, kind: *c.rng.pick(&HARD), max: 1 }
    };
    let sink = Sink::new(pol, 1);
    sink.0.borrow_mut().budget = 100_000;
    let mut e = Enc::new(f, sink.clone(), o);
    let piece = c.rng.logrange(200, 400_000);
    let mut taken = 0usize;
    let mut errs = 0;
    let mut calls = 0;
    while taken < data.len() && errs < 20 {
        let d = &data[taken..(taken + piece).min(data.len())];
        calls += 1;
        match e.write(d) {
            Ok(0) => return Err("write returned Ok(0)".to_string()),
            Ok(n) => taken += n,
            Err(_) => errs += 1,
        }
        if calls % 50 == 0 {
            let _ = e.flush();
        }
    }
    let show = || format!("{:?} {} pieces of {}", f, gen::show(&o), piece);
    if errs == 0 || taken > 500_000 {
        return Err(format!(
            "{}: {} bytes of incompressible data accepted over a sink that takes nothing ({} errors)",
            show(), taken, errs
        ));
    }
    c.obs.top("accepted_over_dead_sink", taken as u64);
    c.obs.case(c.idx ^ taken as u64, true, show);
    guarded(move || drop(e)).map_err(|m| format!("{}: drop: {}", "dead sink", m))?;
    Ok(())
}

pub static C12: Prop = Prop {
    id: "C12",
    rule: "history over a full, dead or one-byte sink, with budgets on sink calls; errors, outcome and content judged; non-trivial: the sink limits the run, distinct by (history, sink)",
    streams: &[
        Stream { name: "capacity", quick: 3000, thorough: 60_000, f: c12_capacity },
        Stream { name: "slices", quick: 800, thorough: 15_000, f: c12_slice },
        Stream { name: "call-budget", quick: 2500, thorough: 50_000, f: c12_calls },
        Stream { name: "back-pressure", quick: 300, thorough: 4000, f: c12_backpressure },
    ],
};
