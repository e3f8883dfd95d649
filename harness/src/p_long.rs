//! Very long streams and very long lives: more than 4 GiB through one call or one encoder, more
//! than 65536 flushes or resets of one encoder.

use crate::decode::differ;
use crate::enc::{oneshot, Enc, Format, FORMATS};
use crate::gen;
use crate::inflate::{Inflater, Status};
use crate::plan::put;
use crate::rng::Rng;
use crate::run::{Case, Res};
use crate::sums::{fnv, Adler, Crc};
use deflate::{CompressionOptions, MatchingType, SpecialOptions};
use std::io::Write;

/// Zeroed memory from the system, of which untouched pages cost next to nothing.
#[cfg(not(target_arch = "wasm32"))]
struct Map {
    at: *mut u8,
    len: usize,
}
#[cfg(not(target_arch = "wasm32"))]
impl Map {
    fn new(len: usize) -> Map {
        extern "C" {
            fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
        }
        // PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE
        let at = unsafe { mmap(std::ptr::null_mut(), len, 3, 0x4022, -1, 0) };
        assert!(at as isize != -1, "harness: no address space");
        Map { at, len }
    }
    fn get(&mut self) -> &mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.at, self.len) }
    }
}
#[cfg(not(target_arch = "wasm32"))]
impl Drop for Map {
    fn drop(&mut self) {
        extern "C" {
            fn munmap(a: *mut u8, n: usize) -> i32;
        }
        unsafe {
            munmap(self.at, self.len);
        }
    }
}
#[cfg(target_arch = "wasm32")]
struct Map;
#[cfg(target_arch = "wasm32")]
impl Map {
    fn new(_: usize) -> Map {
        unimplemented!()
    }
    fn get(&mut self) -> &mut [u8] {
        unimplemented!()
    }
}

/// Decodes a stream of any length, handing out the data piece by piece; checks header and trailer.
pub fn through(f: Format, out: &[u8], take: &mut dyn FnMut(&[u8]) -> Res) -> Result<u64, String> {
    let (h, _) = crate::decode::head_len(f, out)?;
    let mut inf = Inflater::new();
    let mut n = 0u64;
    let mut adler = Adler::new();
    let mut crc = Crc::new();
    let (st, used) = inf.feed_through(&out[h..], &mut |d| {
        n += d.len() as u64;
        match f {
            Format::Raw => (),
            Format::Zlib => adler.update(d),
            #[cfg(feature = "gz")]
            Format::Gz => crc.update(d),
        }
        take(d)
    })?;
    let _ = &mut crc;
    if st != Status::Done {
        return Err(format!("no final block after {} bytes", n));
    }
    let rest = &out[h + used..];
    match f {
        Format::Raw => differ("after the final block", rest, &[])?,
        Format::Zlib => differ("zlib trailer", rest, &adler.0.to_be_bytes())?,
        #[cfg(feature = "gz")]
        Format::Gz => {
            let mut t = crc.0.to_le_bytes().to_vec();
            t.extend_from_slice(&(n as u32).to_le_bytes());
            differ("gzip trailer", rest, &t)?
        }
    }
    Ok(n)
}

fn quick_options(k: u64) -> CompressionOptions {
    match k % 3 {
        0 => CompressionOptions::rle(),
        1 => CompressionOptions::fast(),
        _ => CompressionOptions {
            max_hash_checks: 2,
            lazy_if_less_than: 16,
            matching_type: MatchingType::Lazy,
            special: SpecialOptions::Normal,
        },
    }
}

/// One call with more bytes than 32 bits can count.
pub fn oneshot_immense(c: &mut Case) -> Res {
    let f = FORMATS[(c.idx % FORMATS.len() as u64) as usize];
    let o = if c.idx < 3 { CompressionOptions::rle() } else { quick_options(c.idx) };
    // cut to 32 bits, the length is next to nothing, below what the buffer holds, or more
    let n = (1u64 << 32) as usize
        + match c.idx % 3 {
            0 => c.rng.below(40),
            1 => c.rng.range(300, 64_000),
            _ => c.rng.range(66_000, 300_000),
        };
    let mut m = Map::new(n);
    let d = m.get();
    // something here and there, above all around the round numbers
    for p in [1u64 << 15, 1 << 16, 1 << 31, (1 << 32) - 32_768, 1 << 32] {
        for _ in 0..3 {
            let at = (p as usize + c.rng.below(40)).saturating_sub(20);
            if at < n {
                d[at] = c.rng.byte();
            }
        }
    }
    for _ in 0..100 {
        let at = c.rng.below(n);
        let k = c.rng.range(1, 300).min(n - at);
        for x in d[at..at + k].iter_mut() {
            *x = c.rng.byte();
        }
    }
    let show = format!("{:?} one-shot {} of {} bytes", f, gen::show(&o), n);
    let out = oneshot(f, d, o);
    let mut at = 0usize;
    let got = through(f, &out, &mut |x| {
        if at + x.len() > n {
            return Err(format!("more than {} bytes", n));
        }
        differ("decoded data", x, &d[at..at + x.len()]).map_err(|m| format!("from byte {}: {}", at, m))?;
        at += x.len();
        Ok(())
    })
    .map_err(|m| format!("{}: {}", show, m))?;
    if got != n as u64 {
        return Err(format!("{}: decodes to {} bytes", show, got));
    }
    c.obs.top("largest_input", n as u64);
    c.obs.case(n as u64 ^ fnv(&out), true, || show.clone());
    Ok(())
}

/// Writes that offer more bytes than 32 bits can count, of which the first few calls take a part.
pub fn c02_vast(c: &mut Case) -> Res {
    let f = *c.rng.pick(&FORMATS);
    let o = gen::options(&mut c.rng);
    let over = match c.idx % 3 {
        0 => c.rng.below(40),
        1 => c.rng.range(300, 66_000),
        _ => c.rng.range(66_000, 300_000),
    };
    let n = (1usize << (32 + c.idx % 2)) + over;
    let mut m = Map::new(n);
    let d = m.get();
    // incompressible for the most part, so that every call ends soon
    let mut at = 0;
    while at < 4 << 20 {
        let k = c.rng.logrange(20, 60_000);
        for x in d[at..at + k].iter_mut() {
            *x = c.rng.byte();
        }
        at += k + c.rng.logrange(1, 2000);
    }
    // (an encoder that takes all it is offered would be at it for long)
    {
        let mut e = Enc::new(f, Vec::new(), o);
        if matches!(e.write(&d[..1 << 22]), Ok(t) if t >= 1 << 22) {
            c.obs.add("takes_all_it_is_offered", 1);
            return Ok(());
        }
    }
    let show = format!("{:?} {} writes offering up to {} bytes", f, gen::show(&o), n);
    let mut e = Enc::new(f, Vec::new(), o);
    let mut at = 0usize;
    for k in 0..c.rng.range(2, 9) {
        let offer = if c.rng.chance(1, 4) { at + c.rng.range(1, 100_000) } else { n };
        let t = match e.write(&d[at..offer]) {
            Ok(t) => t,
            Err(x) if x.kind() == std::io::ErrorKind::Interrupted => continue,
            Err(x) => return Err(format!("{}: call {}: {}", show, k, x)),
        };
        if t == 0 || t > offer - at {
            return Err(format!("{}: call {}: offered {} bytes and took {}", show, k, offer - at, t));
        }
        at += t;
        if at > 1 << 24 {
            return Ok(());
        }
        if c.rng.chance(1, 5) {
            e.flush().map_err(|x| format!("{}: flush: {}", show, x))?;
        }
    }
    let out = e.finish().map_err(|x| format!("{}: finish: {}", show, x))?;
    let mut seen = 0usize;
    through(f, &out, &mut |x| {
        if seen + x.len() > at {
            return Err(format!("more than the {} bytes that were taken", at));
        }
        differ("decoded data", x, &d[seen..seen + x.len()]).map_err(|m| format!("from byte {}: {}", seen, m))?;
        seen += x.len();
        Ok(())
    })
    .map_err(|m| format!("{}: {}", show, m))?;
    if seen != at {
        return Err(format!("{}: {} bytes taken, {} in the stream", show, at, seen));
    }
    c.obs.top("largest_write_offered", n as u64);
    c.obs.case(fnv(&out), true, || show.clone());
    Ok(())
}

/// What goes through a long stream: pieces of runs and repeats, from a generator that can start over.
struct Feed {
    rng: Rng,
    piece: Vec<u8>,
    /// How much of the piece is copies from far back.
    far: usize,
    given: u64,
}
impl Feed {
    fn new(seed: u64) -> Feed {
        let mut rng = Rng::new(seed);
        let mut piece = Vec::new();
        // the same bytes again from nearly a window back, so that all of the window matters
        let d = rng.range(25_000, 32_768);
        rng.fill(&mut piece, d);
        while piece.len() < 300_000 {
            piece.push(piece[piece.len() - d]);
        }
        let far = piece.len();
        while piece.len() < 1 << 20 {
            let k = rng.range(300, 9000);
            if rng.chance(1, 4) {
                // something from a little earlier
                let d = rng.range(1, 32_768).min(piece.len().max(1));
                for _ in 0..k {
                    let b = if piece.len() >= d { piece[piece.len() - d] } else { 7 };
                    piece.push(b);
                }
            } else {
                let b = rng.byte();
                let l = piece.len();
                piece.resize(l + k, b);
            }
        }
        Feed { rng, piece, far, given: 0 }
    }
    fn next(&mut self) -> &[u8] {
        if (self.given + (1 << 20)) & 0x3fff_ffff < 2 << 20 {
            // around multiples of 2^30
            self.given += self.far as u64;
            return &self.piece[..self.far];
        }
        for _ in 0..2 {
            let at = self.rng.below(self.piece.len());
            self.piece[at] = self.rng.byte();
        }
        let from = self.rng.below(1 << 19);
        self.given += (self.piece.len() - from) as u64;
        &self.piece[from..]
    }
}

/// One encoder with more bytes than 32 bits can count, and a few flushes.
pub fn stream_immense(c: &mut Case, f: Format, o: CompressionOptions) -> Res {
    let total = (1u64 << 32) + c.rng.range(70_000, 2_000_000) as u64;
    let seed = c.rng.u64();
    let mut feed = Feed::new(seed);
    let mut e = Enc::new(f, Vec::new(), o);
    let (mut sent, mut flushes) = (0u64, 0u64);
    let show = format!("{:?} {} stream of {} bytes", f, gen::show(&o), total);
    while sent < total {
        let p = feed.next();
        let k = (p.len() as u64).min(total - sent) as usize;
        put(&mut e, &p[..k], c.obs).map_err(|m| format!("{}: after {} bytes: {}", show, sent, m))?;
        sent += k as u64;
        if c.rng.chance(1, 100) || (sent > 1 << 32 && flushes < 3) {
            flushes += 1;
            e.flush().map_err(|x| format!("{}: flush after {} bytes: {}", show, sent, x))?;
        }
    }
    let sum = e.checksum();
    let out = e.finish().map_err(|x| format!("{}: finish: {}", show, x))?;
    let mut again = Feed::new(seed);
    let mut want: Vec<u8> = Vec::new();
    let mut at = 0usize;
    let mut seen = 0u64;
    let got = through(f, &out, &mut |mut x| {
        while !x.is_empty() {
            if at == want.len() {
                want.clear();
                want.extend_from_slice(again.next());
                at = 0;
            }
            let k = x.len().min(want.len() - at);
            differ("decoded data", &x[..k], &want[at..at + k]).map_err(|m| format!("from byte {}: {}", seen, m))?;
            at += k;
            seen += k as u64;
            x = &x[k..];
        }
        Ok(())
    })
    .map_err(|m| format!("{}: {}", show, m))?;
    if got != total {
        return Err(format!("{}: decodes to {} bytes", show, got));
    }
    if let (Format::Zlib, Some(s)) = (f, sum) {
        differ("checksum() against the trailer", &s.to_be_bytes(), &out[out.len() - 4..])
            .map_err(|m| format!("{}: {}", show, m))?;
    }
    c.obs.top("largest_stream", total);
    c.obs.add("flushes_in_largest_streams", flushes);
    c.obs.case(total ^ fnv(&out), true, || show.clone());
    Ok(())
}

pub fn c02_immense(c: &mut Case) -> Res {
    let f = FORMATS[(c.idx / 3 % FORMATS.len() as u64) as usize];
    // the options that search go first
    stream_immense(c, f, quick_options(c.idx + 1))
}

pub fn c05_immense(c: &mut Case) -> Res {
    stream_immense(c, Format::Zlib, quick_options(c.idx * 2))
}

/// One encoder flushed more often than 16 bits can count.
pub fn c02_many(c: &mut Case) -> Res {
    let f = *c.rng.pick(&FORMATS);
    let o = match c.idx % 4 {
        0 => CompressionOptions::default(),
        1 => CompressionOptions::fast(),
        2 => CompressionOptions::rle(),
        _ => CompressionOptions::huffman_only(),
    };
    let times = 65_536 + c.rng.range(300, 3000);
    let most = c.rng.range(1, 6);
    let show = format!("{:?} {} {} flushes with up to {} bytes between", f, gen::show(&o), times, most);
    let mut e = Enc::new(f, Vec::new(), o);
    let mut data = Vec::new();
    for _ in 0..times {
        let k = c.rng.below(most + 1);
        let at = data.len();
        for _ in 0..k {
            data.push(b'a' + c.rng.below(3) as u8);
        }
        put(&mut e, &data[at..], c.obs).map_err(|m| format!("{}: {}", show, m))?;
        e.flush().map_err(|x| format!("{}: flush: {}", show, x))?;
    }
    let out = e.finish().map_err(|x| format!("{}: finish: {}", show, x))?;
    let mut at = 0;
    let got = through(f, &out, &mut |x| {
        let want = data.get(at..at + x.len()).unwrap_or(&[]);
        differ("decoded data", x, want).map_err(|m| format!("from byte {}: {}", at, m))?;
        at += x.len();
        Ok(())
    })
    .map_err(|m| format!("{}: {}", show, m))?;
    if got != data.len() as u64 {
        return Err(format!("{}: decodes to {} of {} bytes", show, got, data.len()));
    }
    c.obs.top("most_flushes_of_one_encoder", times as u64);
    c.obs.case(fnv(&out), true, || show.clone());
    Ok(())
}

/// One encoder reset more often than 16 bits can count; every stream is that of a new encoder.
pub fn c09_many(c: &mut Case) -> Res {
    let f = *c.rng.pick(&FORMATS);
    let o = match c.idx % 3 {
        0 => CompressionOptions::default(),
        1 => CompressionOptions::fast(),
        _ => CompressionOptions { matching_type: MatchingType::Greedy, ..CompressionOptions::default() },
    };
    // streams that share much of their content, at shifted places
    let mut base = Vec::new();
    c.rng.fill(&mut base, 60);
    let mut streams: Vec<(Vec<u8>, Vec<u8>)> = Vec::new();
    for k in 0..40 {
        let mut d = Vec::new();
        let parts = if k < 20 { c.rng.below(4) } else { c.rng.range(60, 400) };
        for _ in 0..parts {
            let a = c.rng.below(50);
            let l = c.rng.range(1, 10);
            d.extend_from_slice(&base[a..a + l]);
        }
        if k == 7 {
            let n = c.rng.range(33_000, 80_000);
            d = gen::input(&mut c.rng, n).data;
        }
        let out = {
            let mut e = Enc::new(f, Vec::new(), o);
            put(&mut e, &d, c.obs)?;
            e.finish().map_err(|x| x.to_string())?
        };
        streams.push((d, out));
    }
    let times = 65_536 + c.rng.range(300, 3000);
    let show = format!("{:?} {} reset {} times", f, gen::show(&o), times);
    let mut e = Enc::new(f, Vec::new(), o);
    let mut long = 0u64;
    for t in 0..times {
        // longer ones now and then, and where eight or sixteen bits of a count run over
        let round = (t + 4) % 256 < 8;
        let mut k = c.rng.below(20);
        if k == 7 && t % 300 != 0 || round {
            k = c.rng.range(20, streams.len() - 1);
        }
        let (d, want) = &streams[k];
        long += (k == 7) as u64;
        put(&mut e, d, c.obs).map_err(|m| format!("{}: after {}: {}", show, t, m))?;
        let got = e.reset(Vec::new()).map_err(|x| format!("{}: reset {}: {}", show, t, x))?;
        differ("stream of the encoder against a new one's", &got, want)
            .map_err(|m| format!("{}: after {} resets: {}", show, t, m))?;
    }
    c.obs.top("most_resets_of_one_encoder", times as u64);
    c.obs.add("streams_longer_than_a_window", long);
    c.obs.case(fnv(&base), true, || show.clone());
    Ok(())
}

/// One encoder flushed more often than 16 bits can count; after each flush all can be decoded.
pub fn c04_many(c: &mut Case) -> Res {
    let f = *c.rng.pick(&FORMATS);
    let o = gen::options(&mut c.rng);
    let times = 65_536 + c.rng.range(300, 3000);
    let most = c.rng.range(1, 9);
    let show = format!("{:?} {} {} flushes with up to {} bytes between", f, gen::show(&o), times, most);
    let sink = crate::sink::Sink::all();
    let mut e = Enc::new(f, sink.clone(), o);
    let mut inf = Inflater::new();
    let mut fed = 0;
    let mut piece: Vec<u8> = Vec::new();
    for t in 0..times {
        piece.clear();
        for _ in 0..c.rng.below(most + 1) {
            piece.push(b'a' + c.rng.below(5) as u8);
        }
        put(&mut e, &piece, c.obs).map_err(|m| format!("{}: {}", show, m))?;
        e.flush().map_err(|x| format!("{}: flush {}: {}", show, t, x))?;
        let mut s = sink.0.borrow_mut();
        if t == 0 {
            fed = crate::decode::head_len(f, &s.data)?.0;
        }
        if s.data.len() < fed + 4 || s.data[s.data.len() - 4..] != [0, 0, 0xff, 0xff] {
            return Err(format!("{}: what flush {} wrote does not end in an empty stored block", show, t));
        }
        let mut got: Vec<u8> = Vec::new();
        let r = inf.feed_through(&s.data[fed..], &mut |d| {
            got.extend_from_slice(d);
            Ok(())
        });
        match r {
            Ok((Status::Boundary, _)) => (),
            Ok(_) => return Err(format!("{}: flush {} wrote a final block", show, t)),
            Err(m) => return Err(format!("{}: after flush {} the sink's content does not decode: {}", show, t, m)),
        }
        differ("decoded after the flush", &got, &piece).map_err(|m| format!("{}: flush {}: {}", show, t, m))?;
        s.data.clear();
        fed = 0;
    }
    c.obs.add("flush_points_judged", times as u64);
    c.obs.top("most_flushes_of_one_encoder", times as u64);
    e.finish().map_err(|x| format!("{}: finish: {}", show, x))?;
    let s = sink.0.borrow();
    let r = inf.feed_through(&s.data, &mut |d| differ("decoded after the last flush", d, &[]));
    match r {
        Ok((Status::Done, _)) => (),
        Ok(_) => return Err(format!("{}: no final block", show)),
        Err(m) => return Err(format!("{}: the end does not decode: {}", show, m)),
    }
    c.obs.case(times as u64 ^ fnv(&s.data), true, || show.clone());
    Ok(())
}

/// More writes to one encoder than 16 bits can count, against the same data in one write.
pub fn c08_many(c: &mut Case) -> Res {
    let f = *c.rng.pick(&FORMATS);
    let mut o = gen::options(&mut c.rng);
    o.max_hash_checks = o.max_hash_checks.min(8);
    let most = c.rng.range(1, 14);
    let least = c.rng.range(1, most);
    let writes = 65_536 + c.rng.range(300, 3000);
    let ends: Vec<usize> = (0..writes)
        .scan(0, |at, _| {
            *at += c.rng.range(least, most);
            Some(*at)
        })
        .collect();
    let words: Vec<Vec<u8>> = (0..300)
        .map(|_| {
            let mut w = Vec::new();
            let k = c.rng.range(2, 30);
            c.rng.fill(&mut w, k);
            w
        })
        .collect();
    let n = *ends.last().unwrap();
    let mut data = Vec::new();
    while data.len() < n {
        let w = c.rng.below(words.len());
        data.extend_from_slice(&words[w]);
    }
    data.truncate(n);
    let show = format!("{:?} {} {} writes of {} to {} bytes", f, gen::show(&o), writes, least, most);
    let mut e = Enc::new(f, Vec::new(), o);
    let mut at = 0;
    for &end in &ends {
        put(&mut e, &data[at..end], c.obs).map_err(|m| format!("{}: {}", show, m))?;
        at = end;
    }
    let a = e.finish().map_err(|x| format!("{}: finish: {}", show, x))?;
    let mut e = Enc::new(f, Vec::new(), o);
    put(&mut e, &data, c.obs).map_err(|m| format!("{}: {}", show, m))?;
    let b = e.finish().map_err(|x| format!("{}: finish: {}", show, x))?;
    differ("output against that of one write", &a, &b).map_err(|m| format!("{}: {}", show, m))?;
    c.obs.top("most_writes_to_one_encoder", writes as u64);
    c.obs.case(fnv(&data), true, || show.clone());
    Ok(())
}
