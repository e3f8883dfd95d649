//! The scripted sink: the `Write` the encoder writes into. It records every byte it took and what
//! it did on every call, and misbehaves in the ways a real `Write` may.

use crate::rng::Rng;
use std::cell::RefCell;
use std::io::{self, ErrorKind, Write};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Policy {
    /// Takes everything.
    All,
    /// Takes at most this many bytes per call.
    Max(usize),
    /// Random short writes (percent), Interrupted (percent), hard errors (percent).
    Random {
        short: usize,
        interrupted: usize,
        hard: usize,
        max: usize,
    },
    /// Takes everything until `at` bytes are held, then fails `times` calls with `kind`, then goes on.
    FailAt {
        at: usize,
        times: u64,
        kind: ErrorKind,
        /// Bytes per call while healthy.
        max: usize,
    },
    /// A fixed-size destination: takes `cap` bytes in all, then answers `Ok(0)` for ever.
    Capacity { cap: usize, max: usize },
    /// Fails the calls (counted over non-empty calls) whose numbers are listed.
    FailCalls {
        calls: Vec<u64>,
        kind: ErrorKind,
        max: usize,
    },
}

pub const HARD: [ErrorKind; 6] = [
    ErrorKind::WouldBlock,
    ErrorKind::BrokenPipe,
    ErrorKind::TimedOut,
    ErrorKind::Other,
    ErrorKind::PermissionDenied,
    ErrorKind::ConnectionReset,
];

/// Panic payload of a sink whose call budget ran out: the encoder does not terminate.
pub struct Runaway;

pub struct SinkState {
    pub data: Vec<u8>,
    pub policy: Policy,
    pub rng: Rng,
    pub calls: u64,
    pub nonempty: u64,
    pub zero: u64,
    pub short: u64,
    pub interrupted: u64,
    pub hard: u64,
    pub flushes: u64,
    pub failed: u64,
    pub budget: u64,
    /// Consecutive non-empty calls that made no progress because the sink said Ok(0).
    pub zero_run: u64,
    pub zero_budget: u64,
    pub dropped: bool,
    pub consecutive_intr: u64,
    /// The kinds of the hard errors given, in order.
    pub kinds: Vec<ErrorKind>,
    /// Largest slice the encoder offered.
    pub max_offer: usize,
    pub keep: bool,
    pub taken: u64,
}

#[derive(Clone)]
pub struct Sink(pub Rc<RefCell<SinkState>>);

impl Sink {
    pub fn new(policy: Policy, seed: u64) -> Sink {
        Sink(Rc::new(RefCell::new(SinkState {
            data: Vec::new(),
            policy,
            rng: Rng::new(seed),
            calls: 0,
            nonempty: 0,
            zero: 0,
            short: 0,
            interrupted: 0,
            hard: 0,
            flushes: 0,
            failed: 0,
            budget: u64::MAX,
            zero_run: 0,
            zero_budget: u64::MAX,
            dropped: false,
            consecutive_intr: 0,
            kinds: Vec::new(),
            max_offer: 0,
            keep: true,
            taken: 0,
        })))
    }
    pub fn all() -> Sink {
        Sink::new(Policy::All, 0)
    }
    pub fn data(&self) -> Vec<u8> {
        self.0.borrow().data.clone()
    }
    pub fn len(&self) -> usize {
        self.0.borrow().data.len()
    }
    pub fn heal(&self) {
        self.0.borrow_mut().policy = Policy::All;
    }
    pub fn same(&self, other: &Sink) -> bool {
        Rc::ptr_eq(&self.0, &other.0)
    }
}

impl SinkState {
    fn step(&mut self, len: usize) -> io::Result<usize> {
        match &self.policy {
            Policy::All => Ok(len),
            Policy::Max(k) => Ok(len.min((*k).max(1))),
            Policy::Random {
                short,
                interrupted,
                hard,
                max,
            } => {
                let (short, interrupted, hard, max) = (*short, *interrupted, *hard, *max);
                let r = self.rng.below(100);
                if r < interrupted && self.consecutive_intr < 4 {
                    self.consecutive_intr += 1;
                    return Err(io::Error::new(ErrorKind::Interrupted, "injected: interrupted"));
                }
                self.consecutive_intr = 0;
                if r >= interrupted && r < interrupted + hard {
                    let k = HARD[self.rng.below(HARD.len())];
                    return Err(io::Error::new(k, "injected: hard error"));
                }
                if r >= interrupted && r < interrupted + hard + short && len > 1 {
                    let top = len.min(max.max(1));
                    return Ok(self.rng.range(1, top));
                }
                Ok(len)
            }
            Policy::FailAt {
                at,
                times,
                kind,
                max,
            } => {
                let (at, times, kind, max) = (*at, *times, *kind, *max);
                if self.data.len() >= at && self.failed < times {
                    self.failed += 1;
                    return Err(io::Error::new(kind, "injected: fail at"));
                }
                let mut n = len.min(max.max(1));
                if self.data.len() < at && self.failed < times {
                    n = n.min(at - self.data.len());
                }
                Ok(n)
            }
            Policy::Capacity { cap, max } => Ok(len
                .min((*max).max(1))
                .min(cap.saturating_sub(self.data.len()))),
            Policy::FailCalls { calls, kind, max } => {
                if calls.contains(&self.nonempty) {
                    return Err(io::Error::new(*kind, "injected: fail call"));
                }
                Ok(len.min((*max).max(1)))
            }
        }
    }
}

impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let mut s = self.0.borrow_mut();
        s.calls += 1;
        if s.calls > s.budget {
            drop(s);
            std::panic::panic_any(Runaway);
        }
        s.max_offer = s.max_offer.max(buf.len());
        if buf.is_empty() {
            return Ok(0);
        }
        s.nonempty += 1;
        match s.step(buf.len()) {
            Ok(n) => {
                if n == 0 {
                    s.zero += 1;
                    s.zero_run += 1;
                    if s.zero_run > s.zero_budget {
                        drop(s);
                        std::panic::panic_any(Runaway);
                    }
                } else {
                    s.zero_run = 0;
                }
                if n < buf.len() {
                    s.short += 1;
                }
                if s.keep {
                    s.data.extend_from_slice(&buf[..n]);
                }
                s.taken += n as u64;
                Ok(n)
            }
            Err(e) => {
                if e.kind() == ErrorKind::Interrupted {
                    s.interrupted += 1;
                } else {
                    s.hard += 1;
                    s.kinds.push(e.kind());
                }
                Err(e)
            }
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        self.0.borrow_mut().flushes += 1;
        Ok(())
    }
}
