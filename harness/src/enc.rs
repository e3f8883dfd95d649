//! One face over the three streaming encoders and the one-shot functions.

use deflate::write::{DeflateEncoder, ZlibEncoder};
use deflate::CompressionOptions;
use std::io::{self, Write};

#[cfg(feature = "gz")]
use deflate::write::GzEncoder;
#[cfg(feature = "gz")]
pub use gzip_header::GzBuilder;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Format {
    Raw,
    Zlib,
    #[cfg(feature = "gz")]
    Gz,
}

#[cfg(feature = "gz")]
pub const FORMATS: [Format; 3] = [Format::Raw, Format::Zlib, Format::Gz];
#[cfg(not(feature = "gz"))]
pub const FORMATS: [Format; 2] = [Format::Raw, Format::Zlib];

pub enum Enc<W: Write> {
    Raw(DeflateEncoder<W>),
    Zlib(ZlibEncoder<W>),
    #[cfg(feature = "gz")]
    Gz(GzEncoder<W>),
}

impl<W: Write> Enc<W> {
    pub fn new(f: Format, w: W, o: CompressionOptions) -> Enc<W> {
        match f {
            Format::Raw => Enc::Raw(DeflateEncoder::new(w, o)),
            Format::Zlib => Enc::Zlib(ZlibEncoder::new(w, o)),
            #[cfg(feature = "gz")]
            Format::Gz => Enc::Gz(GzEncoder::new(w, o)),
        }
    }
    #[cfg(feature = "gz")]
    pub fn gz_from(b: GzBuilder, w: W, o: CompressionOptions) -> Enc<W> {
        Enc::Gz(GzEncoder::from_builder(b, w, o))
    }
    pub fn finish(self) -> io::Result<W> {
        match self {
            Enc::Raw(e) => e.finish(),
            Enc::Zlib(e) => e.finish(),
            #[cfg(feature = "gz")]
            Enc::Gz(e) => e.finish(),
        }
    }
    pub fn reset(&mut self, w: W) -> io::Result<W> {
        match self {
            Enc::Raw(e) => e.reset(w),
            Enc::Zlib(e) => e.reset(w),
            #[cfg(feature = "gz")]
            Enc::Gz(e) => e.reset(w),
        }
    }
    #[cfg(feature = "gz")]
    pub fn reset_with_builder(&mut self, w: W, b: GzBuilder) -> io::Result<W> {
        match self {
            Enc::Gz(e) => e.reset_with_builder(w, b),
            _ => panic!("harness: not a gzip encoder"),
        }
    }
    pub fn checksum(&self) -> Option<u32> {
        match self {
            Enc::Raw(_) => None,
            Enc::Zlib(e) => Some(e.checksum()),
            #[cfg(feature = "gz")]
            Enc::Gz(e) => Some(e.checksum()),
        }
    }
}

impl<W: Write> Write for Enc<W> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        match self {
            Enc::Raw(e) => e.write(buf),
            Enc::Zlib(e) => e.write(buf),
            #[cfg(feature = "gz")]
            Enc::Gz(e) => e.write(buf),
        }
    }
    // handed on, too, should the crate have its own
    fn write_all(&mut self, buf: &[u8]) -> io::Result<()> {
        match self {
            Enc::Raw(e) => e.write_all(buf),
            Enc::Zlib(e) => e.write_all(buf),
            #[cfg(feature = "gz")]
            Enc::Gz(e) => e.write_all(buf),
        }
    }
    fn write_vectored(&mut self, bufs: &[io::IoSlice<'_>]) -> io::Result<usize> {
        match self {
            Enc::Raw(e) => e.write_vectored(bufs),
            Enc::Zlib(e) => e.write_vectored(bufs),
            #[cfg(feature = "gz")]
            Enc::Gz(e) => e.write_vectored(bufs),
        }
    }
    fn write_fmt(&mut self, a: std::fmt::Arguments<'_>) -> io::Result<()> {
        match self {
            Enc::Raw(e) => e.write_fmt(a),
            Enc::Zlib(e) => e.write_fmt(a),
            #[cfg(feature = "gz")]
            Enc::Gz(e) => e.write_fmt(a),
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        match self {
            Enc::Raw(e) => e.flush(),
            Enc::Zlib(e) => e.flush(),
            #[cfg(feature = "gz")]
            Enc::Gz(e) => e.flush(),
        }
    }
}

pub fn oneshot(f: Format, data: &[u8], o: CompressionOptions) -> Vec<u8> {
    match f {
        Format::Raw => deflate::deflate_bytes_conf(data, o),
        Format::Zlib => deflate::deflate_bytes_zlib_conf(data, o),
        #[cfg(feature = "gz")]
        Format::Gz => deflate::deflate_bytes_gzip_conf(data, o, GzBuilder::new()),
    }
}
