//! Runner: deterministic cases spread over worker threads, each case judged by its monitors, with
//! guards that turn a panic, a runaway allocation or a case that never ends into a verdict.

use crate::inflate::{Inflater, Kind};
use crate::rng::Rng;
use crate::sink::Runaway;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- allocation accounting

pub struct Counting;

static LIVE: AtomicI64 = AtomicI64::new(0);
/// No case may hold more than this, nor the whole process more than that: beyond it, a case has run
/// away (they need well under 100 MiB).
const CASE_CAP: i64 = 5 << 30;
const PROCESS_CAP: i64 = 20 << 30;

thread_local! {
    static T_LIVE: Cell<i64> = const { Cell::new(0) };
    /// Not yet added to LIVE: threads that allocate much would slow each other down on it.
    static T_PENDING: Cell<i64> = const { Cell::new(0) };
    static T_PEAK: Cell<i64> = const { Cell::new(0) };
    static T_BYPASS: Cell<bool> = const { Cell::new(false) };
    static T_CASE: Cell<(usize, u64)> = const { Cell::new((usize::MAX, 0)) };
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        account(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        account(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        account(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // counted as both old and new alive, as they may be while the data is moved
        account(n as i64);
        let r = System.realloc(p, l, n);
        account(-(l.size() as i64));
        r
    }
}

fn account(d: i64) {
    let mut here = 0;
    let _ = T_LIVE.try_with(|c| {
        let v = c.get() + d;
        c.set(v);
        here = v;
        if d > 0 {
            let _ = T_PEAK.try_with(|p| {
                if v > p.get() {
                    p.set(v)
                }
            });
        }
    });
    let due = T_PENDING.try_with(|p| {
        let v = p.get() + d;
        let due = v.abs() > 1 << 16;
        p.set(if due { 0 } else { v });
        if due { v } else { 0 }
    });
    let all = match due {
        Ok(0) => 0,
        Ok(v) => LIVE.fetch_add(v, Relaxed) + v,
        Err(_) => LIVE.fetch_add(d, Relaxed) + d,
    };
    if d > 0
        && (here > CASE_CAP || all > PROCESS_CAP)
        && !T_BYPASS.try_with(|b| b.replace(true)).unwrap_or(true)
    {
        let (s, i) = T_CASE.with(|c| c.get());
        fatal(s, i, "memory: more than 5 GiB allocated by one case, or 20 GiB by all, far beyond what they take");
    }
}

/// Live and peak bytes allocated by this thread.
pub fn mem_live() -> i64 {
    T_LIVE.with(|c| c.get())
}
pub fn mem_peak() -> i64 {
    T_PEAK.with(|c| c.get())
}
pub fn mem_reset_peak() {
    T_PEAK.with(|p| p.set(T_LIVE.with(|c| c.get())))
}

// ---------------------------------------------------------------- observations

#[derive(Default)]
pub struct Obs {
    pub evals: u64,
    pub nontrivial: u64,
    pub distinct: HashSet<u64>,
    pub count: BTreeMap<&'static str, u64>,
    pub max: BTreeMap<&'static str, u64>,
    pub lens: Vec<bool>,
    pub dcodes: Vec<bool>,
    pub block_shapes: HashSet<(u8, bool, u8)>,
    pub max_code_len: u8,
    pub max_dist: u32,
    pub samples: Vec<String>,
    pub digests: Vec<(usize, u64, u64)>,
    pub emitting: bool,
    pub emitted: u64,
    emit_dir: String,
    emit_bytes: usize,
}

impl Obs {
    pub fn add(&mut self, k: &'static str, n: u64) {
        *self.count.entry(k).or_insert(0) += n;
    }
    pub fn top(&mut self, k: &'static str, n: u64) {
        let e = self.max.entry(k).or_insert(0);
        *e = (*e).max(n);
    }
    /// One judged execution: a fingerprint of what was run, whether it counts as non-trivial.
    pub fn case(&mut self, hash: u64, nontrivial: bool, show: impl FnOnce() -> String) {
        self.evals += 1;
        if nontrivial && self.distinct.insert(hash) {
            self.nontrivial += 1;
            if self.samples.len() < 2 {
                self.samples.push(show());
            }
        }
    }
    /// Leave a raw deflate stream and what it should decode to for the driver.
    pub fn emit(&mut self, stream: &[u8], data: &[u8]) {
        if !self.emitting || self.emit_bytes > 6 << 20 || self.emitted > 400 {
            return;
        }
        let name = format!("{}/{:016x}", self.emit_dir, crate::sums::fnv(stream) ^ stream.len() as u64);
        if std::fs::write(format!("{}.z", name), stream).is_err()
            || std::fs::write(format!("{}.d", name), data).is_err()
        {
            panic!("harness: cannot write to {}", self.emit_dir);
        }
        self.emit_bytes += stream.len() + data.len();
        self.emitted += 1;
    }
    /// What the decoder saw in one stream.
    pub fn trace(&mut self, inf: &Inflater) {
        if self.lens.is_empty() {
            self.lens = vec![false; 259];
            self.dcodes = vec![false; 30];
        }
        for (a, b) in self.lens.iter_mut().zip(inf.lens_seen().iter()) {
            *a |= *b;
        }
        for (a, b) in self.dcodes.iter_mut().zip(inf.dist_codes_seen().iter()) {
            *a |= *b;
        }
        self.max_code_len = self.max_code_len.max(inf.max_code_len);
        self.max_dist = self.max_dist.max(inf.max_dist() as u32);
        self.add("decoded_bytes", inf.out.len() as u64);
        for b in &inf.blocks {
            let k = match b.kind {
                Kind::Stored => 0,
                Kind::Fixed => 1,
                Kind::Dynamic => 2,
            };
            self.block_shapes.insert((k, b.last, (b.start_bit % 8) as u8));
            self.add(["blocks_stored", "blocks_fixed", "blocks_dynamic"][k as usize], 1);
            self.add("matches", b.matches as u64);
            self.add("literals", b.lits as u64);
        }
    }
    fn merge(&mut self, o: Obs) {
        self.evals += o.evals;
        for h in o.distinct {
            self.distinct.insert(h);
        }
        self.nontrivial = self.distinct.len() as u64;
        for (k, v) in o.count {
            *self.count.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.max {
            let e = self.max.entry(k).or_insert(0);
            *e = (*e).max(v);
        }
        if self.lens.is_empty() {
            self.lens = o.lens;
            self.dcodes = o.dcodes;
        } else if !o.lens.is_empty() {
            for (a, b) in self.lens.iter_mut().zip(o.lens) {
                *a |= b;
            }
            for (a, b) in self.dcodes.iter_mut().zip(o.dcodes) {
                *a |= b;
            }
        }
        self.block_shapes.extend(o.block_shapes);
        self.max_code_len = self.max_code_len.max(o.max_code_len);
        self.max_dist = self.max_dist.max(o.max_dist);
        for s in o.samples {
            if self.samples.len() < 6 {
                self.samples.push(s);
            }
        }
        self.digests.extend(o.digests);
        self.emitted += o.emitted;
    }
}

pub struct Case<'a> {
    pub rng: Rng,
    pub idx: u64,
    pub seed: u64,
    pub stream: usize,
    pub obs: &'a mut Obs,
    pub thorough: bool,
}

pub type Res = Result<(), String>;

pub struct Stream {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub f: fn(&mut Case) -> Res,
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub streams: &'static [Stream],
}

#[derive(Clone)]
pub struct Violation {
    pub stream: usize,
    pub idx: u64,
    pub msg: String,
}

// ---------------------------------------------------------------- running

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub struct Cfg {
    pub seed: u64,
    pub thorough: bool,
    pub threads: usize,
    pub deadline: Duration,
    pub cpu_limit: u64,
    pub scale: f64,
    pub only: Option<(usize, u64)>,
    pub stream_filter: Option<usize>,
    pub out: Option<String>,
    pub max_violations: usize,
    /// Directory for streams that a second decoder is to look at.
    pub emit: Option<String>,
}

struct Globals {
    id: &'static str,
    names: Vec<&'static str>,
    out: Option<String>,
}
static GLOBALS: Mutex<Option<Globals>> = Mutex::new(None);

/// End the process with a verdict from a place where unwinding is not possible.
fn fatal(stream: usize, idx: u64, msg: &str) -> ! {
    // The first one decides; whoever comes later waits for the process to end.
    static ENDING: AtomicBool = AtomicBool::new(false);
    while ENDING.swap(true, SeqCst) {
        std::thread::sleep(Duration::from_secs(3600));
    }
    let _ = T_BYPASS.try_with(|b| b.set(true));
    let g = GLOBALS.lock();
    if let Ok(g) = g {
        if let Some(g) = g.as_ref() {
            if stream < g.names.len() {
                let v = format!(
                    "{{\"property\":{},\"violations\":[{{\"stream\":{},\"index\":{},\"message\":{}}}]}}\n",
                    js(g.id),
                    js(g.names[stream]),
                    idx,
                    js(msg)
                );
                if let Some(o) = &g.out {
                    let _ = std::fs::write(o, &v);
                }
                eprintln!("FATAL {}", v);
                std::process::exit(1);
            }
        }
    }
    eprintln!("harness: {}", msg);
    std::process::exit(2);
}

pub fn js(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            c if (c as u32) < 0x20 => r.push_str(&format!("\\u{:04x}", c as u32)),
            c => r.push(c),
        }
    }
    r.push('"');
    r
}

/// Run one piece of code; a panic becomes an error text.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(p) => {
            if p.is::<Runaway>() {
                return Err(
                    "no termination: the encoder kept calling the sink beyond the call budget"
                        .to_string(),
                );
            }
            Err(format!("panic: {}", LAST_PANIC.with(|l| l.borrow().clone())))
        }
    }
}

fn run_case(p: &Prop, stream: usize, idx: u64, cfg: &Cfg, obs: &mut Obs) -> Option<Violation> {
    let st = &p.streams[stream];
    let name = format!("{}/{}", p.id, st.name);
    T_CASE.with(|c| c.set((stream, idx)));
    let mut case = Case {
        rng: Rng::for_case(cfg.seed, &name, idx),
        idx,
        seed: cfg.seed,
        stream,
        obs,
        thorough: cfg.thorough,
    };
    let r = guarded(|| (st.f)(&mut case));
    let msg = match r {
        Ok(Ok(())) => return None,
        Ok(Err(m)) => m,
        Err(m) => m,
    };
    Some(Violation { stream, idx, msg })
}

pub struct Outcome {
    pub obs: Obs,
    pub violations: Vec<Violation>,
    pub planned: u64,
    pub done: u64,
    pub wall: f64,
}

fn thread_cpu_ticks(tid: u64) -> Option<u64> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{}/stat", tid)).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    Some(f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?)
}

fn my_tid() -> u64 {
    std::fs::read_link("/proc/thread-self")
        .ok()
        .and_then(|p| p.file_name().and_then(|n| n.to_str().and_then(|s| s.parse().ok())))
        .unwrap_or(0)
}

pub fn run(p: &'static Prop, cfg: &Cfg) -> Outcome {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let m = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        LAST_PANIC.with(|l| *l.borrow_mut() = format!("{} at {}", m, loc));
    }));
    *GLOBALS.lock().unwrap() = Some(Globals {
        id: p.id,
        names: p.streams.iter().map(|s| s.name).collect(),
        out: cfg.out.clone(),
    });

    // Interleave the streams, so that a run cut short by its deadline has seen all of them.
    let mut plan: Vec<(f64, usize, u64)> = Vec::new();
    for (s, st) in p.streams.iter().enumerate() {
        if let Some(f) = cfg.stream_filter {
            if f != s {
                continue;
            }
        }
        let n = if cfg.thorough { st.thorough } else { st.quick };
        let n = if n > 64 { (n as f64 * cfg.scale).ceil() as u64 } else { n };
        for i in 0..n {
            plan.push(((i as f64 + 0.25) / n as f64, s, i));
        }
    }
    plan.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap().then(a.1.cmp(&b.1)));
    // few-and-heavy streams first
    plan.sort_by_key(|x| {
        let st = &p.streams[x.1];
        let n = if cfg.thorough { st.thorough } else { st.quick };
        n > 8
    });
    if let Some((s, i)) = cfg.only {
        plan = vec![(0.0, s, i)];
    }
    let planned = plan.len() as u64;

    let next = AtomicUsize::new(0);
    let done = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let violations: Mutex<Vec<Violation>> = Mutex::new(Vec::new());
    let total: Mutex<Obs> = Mutex::new(Obs::default());
    let start = Instant::now();
    let nthreads = cfg.threads.min(plan.len()).max(1);
    // what each worker is doing, for the watchdog
    let cur: Vec<[AtomicU64; 3]> = (0..nthreads).map(|_| Default::default()).collect();
    let running = AtomicUsize::new(nthreads);

    std::thread::scope(|sc| {
        for t in 0..nthreads {
            let (plan, next, done, stop, violations, total, cur, running) = (
                &plan,
                &next,
                &done,
                &stop,
                &violations,
                &total,
                &cur,
                &running,
            );
            std::thread::Builder::new()
                .stack_size(4 << 20)
                .spawn_scoped(sc, move || {
                    let mut obs = Obs::default();
                    if let Some(d) = &cfg.emit {
                        obs.emitting = true;
                        obs.emit_dir = d.clone();
                    }
                    cur[t][0].store(my_tid(), SeqCst);
                    loop {
                        if stop.load(Relaxed) || start.elapsed() > cfg.deadline {
                            break;
                        }
                        let k = next.fetch_add(1, Relaxed);
                        if k >= plan.len() {
                            break;
                        }
                        let (_, s, i) = plan[k];
                        cur[t][1].store(k as u64 + 1, SeqCst);
                        let v = run_case(p, s, i, cfg, &mut obs);
                        cur[t][1].store(0, SeqCst);
                        done.fetch_add(1, Relaxed);
                        if let Some(v) = v {
                            let mut vs = violations.lock().unwrap();
                            vs.push(v);
                            if vs.len() >= cfg.max_violations {
                                stop.store(true, Relaxed);
                            }
                        }
                    }
                    total.lock().unwrap().merge(obs);
                    running.fetch_sub(1, SeqCst);
                })
                .unwrap();
        }
        // watchdog: CPU time of the case in hand, not wall time
        let mut seen: Vec<(u64, u64)> = vec![(0, 0); nthreads];
        let mut last = Instant::now();
        while running.load(SeqCst) > 0 {
            std::thread::sleep(Duration::from_millis(5));
            if last.elapsed() < Duration::from_millis(1000) {
                continue;
            }
            last = Instant::now();
            for t in 0..nthreads {
                let k = cur[t][1].load(SeqCst);
                if k == 0 {
                    seen[t] = (0, 0);
                    continue;
                }
                let Some(ticks) = thread_cpu_ticks(cur[t][0].load(SeqCst)) else {
                    continue;
                };
                if seen[t].0 != k {
                    seen[t] = (k, ticks);
                } else if ticks - seen[t].1 > cfg.cpu_limit * 100 {
                    let (_, s, i) = plan[k as usize - 1];
                    fatal(
                        s,
                        i,
                        &format!(
                            "no termination: one case used more than {} s of CPU time (such cases take well under {} s)",
                            cfg.cpu_limit,
                            cfg.cpu_limit / 5
                        ),
                    );
                }
            }
        }
    });

    let mut violations = violations.into_inner().unwrap();
    violations.sort_by_key(|v| (v.stream, v.idx));
    Outcome {
        obs: total.into_inner().unwrap(),
        violations,
        planned,
        done: done.load(SeqCst),
        wall: start.elapsed().as_secs_f64(),
    }
}

impl Outcome {
    pub fn json(&self, p: &Prop) -> String {
        let o = &self.obs;
        let mut s = String::from("{\n");
        s.push_str(&format!(" \"property\":{},\n", js(p.id)));
        s.push_str(&format!(" \"rule\":{},\n", js(p.rule)));
        s.push_str(&format!(
            " \"planned\":{},\n \"done\":{},\n \"wall\":{:.2},\n",
            self.planned, self.done, self.wall
        ));
        s.push_str(&format!(
            " \"evaluations\":{},\n \"distinct_nontrivial\":{},\n",
            o.evals, o.nontrivial
        ));
        let kv = |m: &BTreeMap<&'static str, u64>| {
            m.iter()
                .map(|(k, v)| format!("{}:{}", js(k), v))
                .collect::<Vec<_>>()
                .join(",")
        };
        s.push_str(&format!(" \"counts\":{{{}}},\n", kv(&o.count)));
        s.push_str(&format!(" \"maxima\":{{{}}},\n", kv(&o.max)));
        if !o.lens.is_empty() {
            s.push_str(&format!(
                " \"match_lengths_seen_of_256\":{},\n \"distance_codes_seen_of_30\":{},\n \"block_kind_final_bitpos_shapes_of_48\":{},\n \"longest_huffman_code\":{},\n \"largest_distance\":{},\n",
                o.lens.iter().filter(|x| **x).count(),
                o.dcodes.iter().filter(|x| **x).count(),
                o.block_shapes.len(),
                o.max_code_len,
                o.max_dist
            ));
        }
        let streams: Vec<String> = p.streams.iter().map(|s| js(s.name)).collect();
        s.push_str(&format!(" \"workloads\":[{}],\n", streams.join(",")));
        let sm: Vec<String> = o.samples.iter().map(|x| js(x)).collect();
        s.push_str(&format!(" \"samples\":[{}],\n", sm.join(",")));
        let vs: Vec<String> = self
            .violations
            .iter()
            .map(|v| {
                format!(
                    "{{\"stream\":{},\"index\":{},\"message\":{}}}",
                    js(p.streams[v.stream].name),
                    v.idx,
                    js(&v.msg)
                )
            })
            .collect();
        s.push_str(&format!(" \"violations\":[{}]\n}}\n", vs.join(",")));
        s
    }
}
