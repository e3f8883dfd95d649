//! Checksums written from RFC 1950 / RFC 1952, independent of the crates the encoder uses.

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Adler(pub u32);

impl Adler {
    pub fn new() -> Adler {
        Adler(1)
    }
    pub fn update(&mut self, data: &[u8]) {
        let mut a = (self.0 & 0xffff) as u64;
        let mut b = (self.0 >> 16) as u64;
        for chunk in data.chunks(1 << 16) {
            for &x in chunk {
                a += x as u64;
                b += a;
            }
            a %= 65521;
            b %= 65521;
        }
        self.0 = ((b as u32) << 16) | a as u32;
    }
}

pub fn adler32(data: &[u8]) -> u32 {
    let mut a = Adler::new();
    a.update(data);
    a.0
}

const fn crc_tables() -> [[u32; 256]; 8] {
    let mut t = [[0u32; 256]; 8];
    let mut n = 0;
    while n < 256 {
        let mut c = n as u32;
        let mut k = 0;
        while k < 8 {
            c = if c & 1 != 0 { 0xedb8_8320 ^ (c >> 1) } else { c >> 1 };
            k += 1;
        }
        t[0][n] = c;
        n += 1;
    }
    let mut n = 0;
    while n < 256 {
        let mut k = 1;
        while k < 8 {
            t[k][n] = (t[k - 1][n] >> 8) ^ t[0][(t[k - 1][n] & 0xff) as usize];
            k += 1;
        }
        n += 1;
    }
    t
}

static CRC: [[u32; 256]; 8] = crc_tables();

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Crc(pub u32);

impl Crc {
    pub fn new() -> Crc {
        Crc(0)
    }
    pub fn update(&mut self, data: &[u8]) {
        let mut c = !self.0;
        let mut it = data.chunks_exact(8);
        for ch in &mut it {
            let lo = u32::from_le_bytes([ch[0], ch[1], ch[2], ch[3]]) ^ c;
            c = CRC[7][(lo & 0xff) as usize]
                ^ CRC[6][((lo >> 8) & 0xff) as usize]
                ^ CRC[5][((lo >> 16) & 0xff) as usize]
                ^ CRC[4][(lo >> 24) as usize]
                ^ CRC[3][ch[4] as usize]
                ^ CRC[2][ch[5] as usize]
                ^ CRC[1][ch[6] as usize]
                ^ CRC[0][ch[7] as usize];
        }
        for &x in it.remainder() {
            c = CRC[0][((c ^ x as u32) & 0xff) as usize] ^ (c >> 8);
        }
        self.0 = !c;
    }
}

pub fn crc32(data: &[u8]) -> u32 {
    let mut c = Crc::new();
    c.update(data);
    c.0
}

/// FNV-1a 64, for digests in logs only.
pub fn fnv(data: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for &b in data {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
    }
    h
}
