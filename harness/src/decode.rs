//! Container decoders written from RFC 1950 and RFC 1952, on top of the strict inflater.

use crate::enc::Format;
use crate::inflate::{Inflater, Status};
use crate::sums::{adler32, Crc};

pub struct Decoded {
    pub inf: Inflater,
    /// Bytes of container header in front of the deflate data.
    pub header: usize,
    /// Length in bytes of the deflate data.
    pub body: usize,
}

/// A gzip header as found in a stream.
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct GzHead {
    pub len: usize,
    pub flags: u8,
    pub mtime: u32,
    pub xfl: u8,
    pub os: u8,
    pub extra: Option<Vec<u8>>,
    pub name: Option<Vec<u8>>,
    pub comment: Option<Vec<u8>>,
}

pub fn gz_head(d: &[u8]) -> Result<GzHead, String> {
    let eof = || "gzip header is cut short".to_string();
    if d.len() < 10 {
        return Err(eof());
    }
    if d[0] != 0x1f || d[1] != 0x8b {
        return Err(format!("gzip magic is {:02x} {:02x}", d[0], d[1]));
    }
    if d[2] != 8 {
        return Err(format!("gzip compression method is {}", d[2]));
    }
    let mut h = GzHead {
        flags: d[3],
        mtime: u32::from_le_bytes([d[4], d[5], d[6], d[7]]),
        xfl: d[8],
        os: d[9],
        ..GzHead::default()
    };
    if h.flags & 0xe0 != 0 {
        return Err("reserved gzip flag bits are set".to_string());
    }
    let mut p = 10;
    if h.flags & 4 != 0 {
        let n = u16::from_le_bytes([*d.get(p).ok_or_else(eof)?, *d.get(p + 1).ok_or_else(eof)?]) as usize;
        p += 2;
        h.extra = Some(d.get(p..p + n).ok_or_else(eof)?.to_vec());
        p += n;
    }
    let cstr = |p: &mut usize| -> Result<Vec<u8>, String> {
        let e = d[*p..].iter().position(|&b| b == 0).ok_or_else(eof)?;
        let s = d[*p..*p + e].to_vec();
        *p += e + 1;
        Ok(s)
    };
    if h.flags & 8 != 0 {
        h.name = Some(cstr(&mut p)?);
    }
    if h.flags & 16 != 0 {
        h.comment = Some(cstr(&mut p)?);
    }
    if h.flags & 2 != 0 {
        let mut c = Crc::new();
        c.update(d.get(..p).ok_or_else(eof)?);
        let got = u16::from_le_bytes([*d.get(p).ok_or_else(eof)?, *d.get(p + 1).ok_or_else(eof)?]);
        if got != c.0 as u16 {
            return Err("gzip header checksum is wrong".to_string());
        }
        p += 2;
    }
    h.len = p;
    Ok(h)
}

pub fn zlib_head(d: &[u8]) -> Result<usize, String> {
    if d.len() < 2 {
        return Err("zlib header is cut short".to_string());
    }
    let (cmf, flg) = (d[0], d[1]);
    if cmf & 15 != 8 {
        return Err(format!("zlib compression method is {}", cmf & 15));
    }
    if cmf >> 4 > 7 {
        return Err(format!("zlib window size field is {}", cmf >> 4));
    }
    if (cmf as u32 * 256 + flg as u32) % 31 != 0 {
        return Err(format!("zlib header check fails for {:02x} {:02x}", cmf, flg));
    }
    if flg & 0x20 != 0 {
        return Err("zlib header announces a preset dictionary".to_string());
    }
    Ok(1usize << ((cmf >> 4) + 8))
}

/// Length of the container header, and the window it declares.
pub fn head_len(f: Format, d: &[u8]) -> Result<(usize, usize), String> {
    match f {
        Format::Raw => Ok((0, 32768)),
        Format::Zlib => Ok((2, zlib_head(d)?)),
        #[cfg(feature = "gz")]
        Format::Gz => Ok((gz_head(d)?.len, 32768)),
    }
}

/// Decode one complete stream strictly: header, deflate data, trailer, and nothing after it.
pub fn decode(f: Format, d: &[u8], keep_matches: bool) -> Result<Decoded, String> {
    let (h, window) = head_len(f, d)?;
    let mut inf = Inflater::new();
    inf.keep_matches = keep_matches;
    let (st, used) = inf.feed(&d[h..]).map_err(|e| e.to_string())?;
    if st != Status::Done {
        return Err(format!(
            "stream of {} bytes ends without a final block ({} bytes decoded)",
            d.len(),
            inf.out.len()
        ));
    }
    let rest = &d[h + used..];
    match f {
        Format::Raw => {
            if !rest.is_empty() {
                return Err(format!("{} bytes follow the final block", rest.len()));
            }
        }
        Format::Zlib => {
            let want = adler32(&inf.out).to_be_bytes();
            if rest.len() != 4 {
                return Err(format!("{} bytes, not 4, follow the final block of a zlib stream", rest.len()));
            }
            if rest != want {
                return Err(format!("zlib trailer {:02x?}, Adler-32 of the data {:02x?}", rest, want));
            }
            if inf.max_dist() > window {
                return Err(format!(
                    "zlib header declares a window of {}, a match reaches back {}",
                    window,
                    inf.max_dist()
                ));
            }
        }
        #[cfg(feature = "gz")]
        Format::Gz => {
            if rest.len() != 8 {
                return Err(format!("{} bytes, not 8, follow the final block of a gzip stream", rest.len()));
            }
            let crc = crate::sums::crc32(&inf.out).to_le_bytes();
            let n = (inf.out.len() as u32).to_le_bytes();
            if rest[..4] != crc {
                return Err(format!("gzip trailer CRC {:02x?}, of the data {:02x?}", &rest[..4], crc));
            }
            if rest[4..] != n {
                return Err(format!("gzip trailer size {:02x?}, of the data {:02x?}", &rest[4..], n));
            }
        }
    }
    Ok(Decoded {
        inf,
        header: h,
        body: used,
    })
}

/// Where two byte strings first differ, in words.
pub fn differ(what: &str, got: &[u8], want: &[u8]) -> Result<(), String> {
    if got == want {
        return Ok(());
    }
    let k = got.iter().zip(want).position(|(a, b)| a != b);
    Err(match k {
        Some(k) => format!(
            "{}: byte {} is {:02x}, expected {:02x} (lengths {} and {})",
            what, k, got[k], want[k], got.len(), want.len()
        ),
        None => format!("{}: {} bytes, expected {}", what, got.len(), want.len()),
    })
}

/// Decode and compare with what was put in.
pub fn check(f: Format, stream: &[u8], data: &[u8], keep_matches: bool) -> Result<Decoded, String> {
    let d = decode(f, stream, keep_matches)?;
    differ("decoded data", &d.inf.out, data)?;
    Ok(d)
}
