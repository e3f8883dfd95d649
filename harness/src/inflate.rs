//! Strict DEFLATE (RFC 1951) decoder written from the RFC. It is the oracle of every property:
//! it rejects whatever zlib's inflate rejects, and records what it saw (a trace) so that the
//! monitors can judge the stream and not only the decoded bytes.
//!
//! It is resumable: after a block boundary at which the input is exhausted on a byte boundary
//! (as after a sync flush) it can be given the continuation.

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Stored,
    Fixed,
    Dynamic,
}

#[derive(Clone, Debug)]
pub struct Block {
    pub kind: Kind,
    pub last: bool,
    /// Bit position (from the start of the deflate stream) of the 3-bit header.
    pub start_bit: u64,
    pub end_bit: u64,
    /// Bits of header data (after the 3 type bits, dynamic tables only).
    pub table_bits: u64,
    pub out_start: usize,
    pub out_end: usize,
    pub lits: usize,
    pub matches: usize,
    pub ll_freq: Vec<u32>,
    pub d_freq: Vec<u32>,
    pub ll_len: Vec<u8>,
    pub d_len: Vec<u8>,
    /// Code length code: lengths and frequencies.
    pub cl_len: [u8; 19],
    /// How many code-length code lengths are listed, in the order of the format.
    pub hclen: usize,
    pub cl_freq: [u32; 19],
    /// The symbols the table is coded in: value and how many lengths it stands for.
    pub cl_syms: Vec<(u8, u8)>,
    pub extra_bits: u64,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Match {
    pub pos: usize,
    pub len: u16,
    pub dist: u16,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Status {
    /// The final block has been read.
    Done,
    /// Input exhausted exactly at a byte-aligned block boundary, not final.
    Boundary,
}

#[derive(Clone, Debug)]
pub struct Bad {
    pub bit: u64,
    pub out: usize,
    pub msg: &'static str,
}

impl std::fmt::Display for Bad {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(
            f,
            "{} (at bit {} of the deflate data, after {} output bytes)",
            self.msg, self.bit, self.out
        )
    }
}

pub struct Inflater {
    pub out: Vec<u8>,
    pub blocks: Vec<Block>,
    pub matches: Vec<Match>,
    pub keep_matches: bool,
    pub done: bool,
    bit: u64, // absolute bit position
    len_seen: [bool; 259],
    dist_code_seen: [bool; 30],
    pub max_code_len: u8,
    pub limit: usize,
    far: usize,
}

const LBASE: [u16; 29] = [
    3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59, 67, 83, 99, 115, 131,
    163, 195, 227, 258,
];
pub const LEXTRA: [u8; 29] = [
    0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5, 0,
];
const DBASE: [u16; 30] = [
    1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537, 2049,
    3073, 4097, 6145, 8193, 12289, 16385, 24577,
];
pub const DEXTRA: [u8; 30] = [
    0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 8, 9, 9, 10, 10, 11, 11, 12, 12, 13,
    13,
];
const CLORDER: [usize; 19] = [
    16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15,
];

pub fn fixed_ll_len(sym: usize) -> u8 {
    match sym {
        0..=143 => 8,
        144..=255 => 9,
        256..=279 => 7,
        _ => 8,
    }
}

const PRIMARY: u32 = 10;

/// Canonical Huffman decoding table: a 10-bit primary table and a slow canonical path.
struct Dec {
    table: Vec<u16>, // sym << 4 | len ; 0 = slow path
    count: [u16; 16],
    symbol: Vec<u16>,
}

enum Completeness {
    Complete,
    Incomplete,
    Over,
}

fn completeness(lens: &[u8]) -> Completeness {
    let mut count = [0i32; 16];
    for &l in lens {
        count[l as usize] += 1;
    }
    let mut left = 1i32;
    for l in 1..16 {
        left <<= 1;
        left -= count[l];
        if left < 0 {
            return Completeness::Over;
        }
    }
    if left > 0 {
        Completeness::Incomplete
    } else {
        Completeness::Complete
    }
}

impl Dec {
    fn new(lens: &[u8]) -> Dec {
        let mut count = [0u16; 16];
        for &l in lens {
            count[l as usize] += 1;
        }
        count[0] = 0;
        let mut offs = [0u16; 17];
        for l in 1..16 {
            offs[l + 1] = offs[l] + count[l];
        }
        let mut symbol = vec![0u16; lens.len()];
        let mut o = offs;
        for (s, &l) in lens.iter().enumerate() {
            if l != 0 {
                symbol[o[l as usize] as usize] = s as u16;
                o[l as usize] += 1;
            }
        }
        // primary table
        let mut table = vec![0u16; 1 << PRIMARY];
        let mut code = 0u32;
        let mut next = [0u32; 16];
        for l in 1..16 {
            code = (code + if l > 1 { count[l - 1] as u32 } else { 0 }) << 1;
            next[l] = code;
        }
        for (s, &l) in lens.iter().enumerate() {
            if l != 0 {
                let c = next[l as usize];
                next[l as usize] += 1;
                if (l as u32) <= PRIMARY {
                    let mut r = 0u32;
                    for i in 0..l as u32 {
                        if c & (1 << i) != 0 {
                            r |= 1 << (l as u32 - 1 - i);
                        }
                    }
                    let step = 1u32 << l;
                    let mut i = r;
                    while i < (1 << PRIMARY) {
                        table[i as usize] = ((s as u16) << 4) | l as u16;
                        i += step;
                    }
                }
            }
        }
        Dec {
            table,
            count,
            symbol,
        }
    }
}

struct Bits<'a> {
    data: &'a [u8],
    pos: usize, // next byte to load
    acc: u64,
    n: u32,
    used: u64,
}

impl<'a> Bits<'a> {
    fn new(data: &'a [u8]) -> Bits<'a> {
        Bits {
            data,
            pos: 0,
            acc: 0,
            n: 0,
            used: 0,
        }
    }
    #[inline]
    fn fill(&mut self) {
        while self.n <= 56 && self.pos < self.data.len() {
            self.acc |= (self.data[self.pos] as u64) << self.n;
            self.pos += 1;
            self.n += 8;
        }
    }
    #[inline]
    fn take(&mut self, k: u32) -> Option<u32> {
        if self.n < k {
            self.fill();
            if self.n < k {
                return None;
            }
        }
        let v = (self.acc & ((1u64 << k) - 1)) as u32;
        self.acc >>= k;
        self.n -= k;
        self.used += k as u64;
        Some(v)
    }
    fn align(&mut self) {
        let k = ((8 - (self.used % 8)) % 8) as u32;
        let _ = self.take(k);
    }
    fn remaining(&self) -> u64 {
        (self.data.len() - self.pos) as u64 * 8 + self.n as u64
    }
    #[inline]
    fn sym(&mut self, d: &Dec) -> Result<usize, &'static str> {
        if self.n < 15 {
            self.fill();
        }
        let e = d.table[(self.acc & ((1 << PRIMARY) - 1)) as usize];
        let l = (e & 15) as u32;
        if l != 0 {
            if l > self.n {
                return Err("deflate data ends inside a Huffman code");
            }
            self.acc >>= l;
            self.n -= l;
            self.used += l as u64;
            return Ok((e >> 4) as usize);
        }
        let mut code = 0i32;
        let mut first = 0i32;
        let mut index = 0i32;
        for len in 1..16u32 {
            if self.n < len {
                return Err("deflate data ends inside a Huffman code");
            }
            code |= ((self.acc >> (len - 1)) & 1) as i32;
            let c = d.count[len as usize] as i32;
            if code - c < first {
                self.acc >>= len;
                self.n -= len;
                self.used += len as u64;
                return Ok(d.symbol[(index + (code - first)) as usize] as usize);
            }
            index += c;
            first += c;
            first <<= 1;
            code <<= 1;
        }
        Err("bit pattern that is no code of the block's Huffman table")
    }
}

impl Inflater {
    pub fn new() -> Inflater {
        Inflater {
            out: Vec::new(),
            blocks: Vec::new(),
            matches: Vec::new(),
            keep_matches: false,
            done: false,
            bit: 0,
            len_seen: [false; 259],
            dist_code_seen: [false; 30],
            max_code_len: 0,
            limit: usize::MAX,
            far: 0,
        }
    }

    pub fn with_matches() -> Inflater {
        let mut i = Inflater::new();
        i.keep_matches = true;
        i
    }

    pub fn lens_seen(&self) -> &[bool; 259] {
        &self.len_seen
    }
    pub fn max_dist(&self) -> usize {
        self.far
    }
    pub fn dist_codes_seen(&self) -> &[bool; 30] {
        &self.dist_code_seen
    }

    /// Decode `data`, which continues what was given before (only possible at a byte-aligned block
    /// boundary). Returns the status and the number of bytes of `data` used.
    pub fn feed(&mut self, data: &[u8]) -> Result<(Status, usize), Bad> {
        assert!(!self.done, "fed a finished inflater");
        let mut b = Bits::new(data);
        let base = self.bit;
        loop {
            b.fill();
            if b.remaining() == 0 {
                self.bit = base + b.used;
                return Ok((Status::Boundary, data.len()));
            }
            let r = self.block(&mut b, base);
            match r {
                Ok(true) => {
                    self.done = true;
                    b.align();
                    self.bit = base + b.used;
                    return Ok((Status::Done, (b.used / 8) as usize));
                }
                Ok(false) => (),
                Err(msg) => {
                    return Err(Bad {
                        bit: base + b.used,
                        out: self.out.len(),
                        msg,
                    })
                }
            }
        }
    }

    /// Decode `data` with little memory: what is decoded is handed out as it comes, and all but the
    /// last window of it forgotten. Blocks and matches are not recorded.
    pub fn feed_through(
        &mut self,
        data: &[u8],
        take: &mut dyn FnMut(&[u8]) -> Result<(), String>,
    ) -> Result<(Status, usize), String> {
        let mut b = Bits::new(data);
        let mut given = self.out.len();
        let mut gone = 0u64;
        loop {
            b.fill();
            if b.remaining() == 0 {
                return Ok((Status::Boundary, data.len()));
            }
            let r = self.block(&mut b, 0);
            take(&self.out[given..])?;
            given = self.out.len();
            match r {
                Ok(true) => {
                    self.done = true;
                    b.align();
                    return Ok((Status::Done, (b.used / 8) as usize));
                }
                Ok(false) => (),
                Err(m) => return Err(format!("{} (at bit {}, after {} bytes)", m, b.used, gone + given as u64)),
            }
            self.blocks.clear();
            self.matches.clear();
            if given > 1 << 20 {
                let k = given - 32_768;
                self.out.drain(..k);
                given -= k;
                gone += k as u64;
            }
        }
    }

    fn block(&mut self, b: &mut Bits, base: u64) -> Result<bool, &'static str> {
        const EOF: &str = "deflate data ends inside a block";
        let start_bit = base + b.used;
        let last = b.take(1).ok_or(EOF)? == 1;
        let ty = b.take(2).ok_or(EOF)?;
        let out_start = self.out.len();
        let mut blk = Block {
            kind: Kind::Stored,
            last,
            start_bit,
            end_bit: 0,
            table_bits: 0,
            out_start,
            out_end: 0,
            lits: 0,
            matches: 0,
            ll_freq: Vec::new(),
            d_freq: Vec::new(),
            ll_len: Vec::new(),
            d_len: Vec::new(),
            cl_len: [0; 19],
            hclen: 0,
            cl_freq: [0; 19],
            cl_syms: Vec::new(),
            extra_bits: 0,
        };
        match ty {
            0 => {
                b.align();
                let len = b.take(16).ok_or(EOF)?;
                let nlen = b.take(16).ok_or(EOF)?;
                if len != (!nlen & 0xffff) {
                    return Err("stored block whose LEN and NLEN disagree");
                }
                // byte aligned: hand back the buffered bytes
                let start = b.pos - (b.n / 8) as usize;
                let end = start + len as usize;
                if end > b.data.len() {
                    return Err("deflate data ends inside a stored block");
                }
                self.out.extend_from_slice(&b.data[start..end]);
                b.pos = end;
                b.acc = 0;
                b.n = 0;
                b.used += len as u64 * 8;
            }
            1 | 2 => {
                let (ll, dl): (Vec<u8>, Vec<u8>) = if ty == 1 {
                    blk.kind = Kind::Fixed;
                    ((0..288).map(fixed_ll_len).collect(), vec![5u8; 32])
                } else {
                    blk.kind = Kind::Dynamic;
                    let t0 = b.used;
                    let hlit = b.take(5).ok_or(EOF)? as usize + 257;
                    let hdist = b.take(5).ok_or(EOF)? as usize + 1;
                    let hclen = b.take(4).ok_or(EOF)? as usize + 4;
                    if hlit > 286 {
                        return Err("dynamic block declares more than 286 literal/length codes");
                    }
                    if hdist > 30 {
                        return Err("dynamic block declares more than 30 distance codes");
                    }
                    let mut cl = [0u8; 19];
                    for &o in CLORDER.iter().take(hclen) {
                        cl[o] = b.take(3).ok_or(EOF)? as u8;
                    }
                    match completeness(&cl) {
                        Completeness::Over => {
                            return Err("over-subscribed code length code");
                        }
                        Completeness::Incomplete => {
                            return Err("incomplete code length code");
                        }
                        Completeness::Complete => (),
                    }
                    blk.cl_len = cl;
                    blk.hclen = hclen;
                    let d = Dec::new(&cl);
                    let mut lens: Vec<u8> = Vec::with_capacity(hlit + hdist);
                    while lens.len() < hlit + hdist {
                        let s = b.sym(&d)?;
                        blk.cl_freq[s] += 1;
                        let (v, rep) = match s {
                            0..=15 => (s as u8, 1),
                            16 => {
                                let p = *lens
                                    .last()
                                    .ok_or("code length repeat with no previous length")?;
                                (p, 3 + b.take(2).ok_or(EOF)? as usize)
                            }
                            17 => (0, 3 + b.take(3).ok_or(EOF)? as usize),
                            _ => (0, 11 + b.take(7).ok_or(EOF)? as usize),
                        };
                        if lens.len() + rep > hlit + hdist {
                            return Err("code length repeat runs past the declared code counts");
                        }
                        blk.cl_syms.push((s as u8, rep as u8));
                        for _ in 0..rep {
                            lens.push(v);
                        }
                    }
                    let ll = lens[..hlit].to_vec();
                    let dl = lens[hlit..].to_vec();
                    if ll[256] == 0 {
                        return Err("dynamic block without an end-of-block code");
                    }
                    match completeness(&ll) {
                        Completeness::Over => {
                            return Err("over-subscribed literal/length code");
                        }
                        Completeness::Incomplete => {
                            if *ll.iter().max().unwrap() != 1 {
                                return Err("incomplete literal/length code");
                            }
                        }
                        Completeness::Complete => (),
                    }
                    match completeness(&dl) {
                        Completeness::Over => {
                            return Err("over-subscribed distance code");
                        }
                        Completeness::Incomplete => {
                            if *dl.iter().max().unwrap() > 1 {
                                return Err("incomplete distance code");
                            }
                        }
                        Completeness::Complete => (),
                    }
                    let m = *ll.iter().chain(dl.iter()).max().unwrap();
                    self.max_code_len = self.max_code_len.max(m);
                    blk.table_bits = b.used - t0;
                    (ll, dl)
                };
                let ld = Dec::new(&ll);
                let dd = Dec::new(&dl);
                let mut lf = vec![0u32; 288];
                let mut df = vec![0u32; 32];
                loop {
                    let s = b.sym(&ld)?;
                    lf[s] += 1;
                    if s < 256 {
                        self.out.push(s as u8);
                        blk.lits += 1;
                    } else if s == 256 {
                        break;
                    } else {
                        if s > 285 {
                            return Err("reserved length symbol");
                        }
                        let li = s - 257;
                        let eb = LEXTRA[li] as u32;
                        let len = LBASE[li] as usize + b.take(eb).ok_or(EOF)? as usize;
                        if len == 258 && s == 284 {
                            // symbol 284 is for lengths up to 257
                            return Err("length 258 with symbol 284");
                        }
                        let ds = b.sym(&dd)?;
                        if ds > 29 {
                            return Err("reserved distance symbol");
                        }
                        df[ds] += 1;
                        let de = DEXTRA[ds] as u32;
                        let dist = DBASE[ds] as usize + b.take(de).ok_or(EOF)? as usize;
                        blk.extra_bits += (eb + de) as u64;
                        if dist > self.out.len() {
                            return Err("match reaching back before the start of the data");
                        }
                        if dist > 32768 {
                            return Err("match distance above 32768");
                        }
                        let pos = self.out.len();
                        self.far = self.far.max(dist);
                        if self.keep_matches {
                            self.matches.push(Match {
                                pos,
                                len: len as u16,
                                dist: dist as u16,
                            });
                        }
                        self.len_seen[len] = true;
                        self.dist_code_seen[ds] = true;
                        blk.matches += 1;
                        if dist >= len {
                            self.out.extend_from_within(pos - dist..pos - dist + len);
                        } else {
                            for i in 0..len {
                                let c = self.out[pos - dist + i];
                                self.out.push(c);
                            }
                        }
                    }
                    if self.out.len() > self.limit {
                        return Err("decodes to more data than was ever accepted");
                    }
                }
                blk.ll_freq = lf;
                blk.d_freq = df;
                blk.ll_len = ll;
                blk.d_len = dl;
            }
            _ => return Err("reserved block type 3"),
        }
        blk.out_end = self.out.len();
        blk.end_bit = base + b.used;
        self.blocks.push(blk);
        Ok(last)
    }
}

/// Decode a complete deflate stream; returns the inflater and the number of bytes it used.
pub fn inflate_all(data: &[u8], keep: bool) -> Result<(Inflater, usize), Bad> {
    let mut i = Inflater::new();
    i.keep_matches = keep;
    match i.feed(data)? {
        (Status::Done, used) => Ok((i, used)),
        (Status::Boundary, _) => Err(Bad {
            bit: data.len() as u64 * 8,
            out: i.out.len(),
            msg: "deflate data ends without a final block",
        }),
    }
}
