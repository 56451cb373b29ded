//! Reading with the library, in a form that can be compared

use crate::model::*;
use fitsrs::card::Card;
use fitsrs::hdu::data::bintable::data::BinaryTableData;
use fitsrs::hdu::data::bintable::tile_compressed::pixels::Pixels as TilePixels;
use fitsrs::hdu::data::image::Pixels;
use fitsrs::hdu::header::extension::image::Image;
use fitsrs::hdu::header::Bitpix;
use fitsrs::{Fits, HDU};
use std::fmt::Debug;
use std::io::{Read, Seek};

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => {
        if !$cond {
            return Err(format!($($arg)*));
        }
    };
}

#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($arg:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b {
            return Err(format!(
                "{}: got {}, expected {}",
                format!($($arg)*),
                $crate::util::short(a),
                $crate::util::short(b)
            ));
        }
    }};
}

pub fn short<T: Debug + ?Sized>(t: &T) -> String {
    let s = format!("{t:?}");
    if s.len() > 600 {
        let mut e = 600;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        format!("{}…", &s[..e])
    } else {
        s
    }
}

pub fn bitpix(b: Bitpix) -> i64 {
    match b {
        Bitpix::U8 => 8,
        Bitpix::I16 => 16,
        Bitpix::I32 => 32,
        Bitpix::I64 => 64,
        Bitpix::F32 => -32,
        Bitpix::F64 => -64,
    }
}

pub fn kind(h: &HDU) -> Kind {
    match h {
        HDU::Primary(_) => Kind::Primary,
        HDU::XImage(_) => Kind::Image,
        HDU::XBinaryTable(_) => Kind::Bin,
        HDU::XASCIITable(_) => Kind::Ascii,
    }
}

pub fn cards(h: &HDU) -> Vec<Card> {
    match h {
        HDU::Primary(h) | HDU::XImage(h) => h.get_header().cards().cloned().collect(),
        HDU::XBinaryTable(h) => h.get_header().cards().cloned().collect(),
        HDU::XASCIITable(h) => h.get_header().cards().cloned().collect(),
    }
}

/// Compare what is known of a HDU before its data is read
pub fn check_hdu(i: usize, got: &HDU, want: &BuiltHdu) -> Result<(), String> {
    ensure_eq!(kind(got), want.kind, "kind of HDU {i}");
    ensure_eq!(
        got.get_data_unit_byte_offset(),
        want.data_off,
        "data offset of HDU {i}"
    );
    ensure_eq!(
        got.get_data_unit_byte_size(),
        want.data.len() as u64,
        "data size of HDU {i}"
    );
    let (a, b) = (cards(got), want.expected_cards());
    ensure_eq!(a.len(), b.len(), "number of cards of HDU {i}");
    for (k, (a, b)) in a.iter().zip(&b).enumerate() {
        ensure_eq!(a, b, "card {k} of HDU {i}");
    }
    Ok(())
}

/// Compare the structure given by the header of an image
pub fn check_image_header(x: &Image, want: &ImageSpec) -> Result<(), String> {
    ensure_eq!(bitpix(x.get_bitpix()), want.bitpix, "bitpix");
    ensure_eq!(
        x.get_bitpix().byte_size() as u64,
        want.bitpix.unsigned_abs() / 8,
        "bytes of a pixel"
    );
    ensure_eq!(x.get_naxis(), &want.naxis[..], "axes");
    ensure_eq!(
        x.get_num_pixels(),
        want.num_pixels() as u64,
        "number of pixels"
    );
    Ok(())
}

/// The pixels of an image of big endian data, as bits
pub fn decode_pixels(bitpix: i64, data: &[u8]) -> Vec<u64> {
    let n = bitpix.unsigned_abs() as usize / 8;
    data.chunks_exact(n)
        .map(|c| {
            let mut v = 0u64;
            for b in c {
                v = v << 8 | *b as u64;
            }
            v
        })
        .collect()
}

/// BITPIX of the iterator and the bits of its pixels
pub fn pixel_bits<R: Read>(p: Pixels<R>, cap: usize) -> (i64, Vec<u64>) {
    match p {
        Pixels::U8(it) => (8, it.take(cap).map(|v| v as u64).collect()),
        Pixels::I16(it) => (16, it.take(cap).map(|v| v as u16 as u64).collect()),
        Pixels::I32(it) => (32, it.take(cap).map(|v| v as u32 as u64).collect()),
        Pixels::I64(it) => (64, it.take(cap).map(|v| v as u64).collect()),
        Pixels::F32(it) => (-32, it.take(cap).map(|v| v.to_bits() as u64).collect()),
        Pixels::F64(it) => (-64, it.take(cap).map(|v| v.to_bits()).collect()),
    }
}

/// ZBITPIX and the values of a tile-compressed image: integers, or the bits of f32
pub fn tile_bits<R: Read + Seek + Debug>(p: TilePixels<R>, cap: usize) -> (i64, Vec<i64>) {
    match p {
        TilePixels::U8(it) => (8, it.take(cap).map(|v| v as i64).collect()),
        TilePixels::I16(it) => (16, it.take(cap).map(|v| v as i64).collect()),
        TilePixels::I32(it) => (32, it.take(cap).map(|v| v as i64).collect()),
        TilePixels::F32(it) => (-32, it.take(cap).map(|v| v.to_bits() as i64).collect()),
        TilePixels::F64(it) => (-64, it.take(cap).map(|v| v.to_bits() as i64).collect()),
    }
}

/// Everything that can be read from a HDU
#[derive(Clone, Debug, PartialEq)]
pub enum Content {
    Pixels(i64, Vec<u64>),
    Cells(Vec<Cell>),
    Bytes(Vec<u8>),
    Tiles(i64, Vec<i64>),
}

impl Content {
    pub fn len(&self) -> usize {
        match self {
            Content::Pixels(_, v) => v.len(),
            Content::Cells(v) => v.len(),
            Content::Bytes(v) => v.len(),
            Content::Tiles(_, v) => v.len(),
        }
    }
    /// self is the beginning of other
    pub fn is_prefix_of(&self, other: &Content) -> bool {
        match (self, other) {
            (Content::Pixels(a, v), Content::Pixels(b, w)) => a == b && w.starts_with(v),
            (Content::Cells(v), Content::Cells(w)) => w.starts_with(v),
            (Content::Bytes(v), Content::Bytes(w)) => w.starts_with(v),
            (Content::Tiles(a, v), Content::Tiles(b, w)) => a == b && w.starts_with(v),
            _ => false,
        }
    }
}

/// Read the data of a HDU, at most `cap` items
pub fn read_content<R>(fits: &mut Fits<R>, hdu: &HDU, cap: usize) -> Content
where
    R: Read + Seek + Debug + 'static,
{
    match hdu {
        HDU::Primary(h) | HDU::XImage(h) => {
            let (b, v) = pixel_bits(fits.get_data(h).pixels(), cap);
            Content::Pixels(b, v)
        }
        HDU::XBinaryTable(h) => match fits.get_data(h) {
            BinaryTableData::Table(t) => Content::Cells(t.take(cap).map(|v| cell(&v)).collect()),
            BinaryTableData::TileCompressed(p) => {
                let (b, v) = tile_bits(p, cap);
                Content::Tiles(b, v)
            }
        },
        HDU::XASCIITable(h) => {
            let mut out = vec![];
            let mut r = fits.get_data(h).take(cap as u64);
            // as many reads as needed, until an error or the end
            let mut buf = [0; 700];
            loop {
                match r.read(&mut buf) {
                    Ok(0) => break,
                    Ok(n) => out.extend_from_slice(&buf[..n]),
                    Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
                    Err(_) => break,
                }
            }
            Content::Bytes(out)
        }
    }
}

/// What reading the data of a HDU must give. Floats are not compared here.
pub fn expected_content(spec: &HduSpec, b: &BuiltHdu) -> Content {
    match &spec.body {
        Body::Image(s) => Content::Pixels(s.bitpix, decode_pixels(s.bitpix, &b.data)),
        Body::Bin(_) => Content::Cells(b.table.as_ref().unwrap().rows.concat()),
        Body::Ascii(_) => Content::Bytes(b.data.clone()),
        Body::Tile(s) => {
            let t = s.build();
            Content::Tiles(s.zbitpix, t.ints.iter().map(|&v| v as i64).collect())
        }
    }
}

// ------------------------------------------------------------------ asynchronous

use crate::readers::{run, AsyncChunk, Schedule};
use fitsrs::hdu::data::DataStream;
use fitsrs::{AsyncFits, AsyncHDU};
use futures::io::BufReader as AsyncBuf;
use futures::Stream;
use std::pin::Pin;
use std::sync::Arc;

pub type Afits = AsyncFits<AsyncBuf<AsyncChunk>>;

pub fn async_fits(bytes: Arc<Vec<u8>>, sched: &Schedule) -> Afits {
    AsyncFits::from_reader(AsyncBuf::with_capacity(
        sched.cap,
        AsyncChunk::new(bytes, sched),
    ))
}

pub fn async_next(f: &mut Afits) -> Option<Result<AsyncHDU, fitsrs::error::Error>> {
    run(|cx| Pin::new(&mut *f).poll_next(cx))
}

pub fn next_item<S: Stream + Unpin>(st: &mut S) -> Option<S::Item> {
    run(|cx| Pin::new(&mut *st).poll_next(cx))
}

pub fn async_kind(h: &AsyncHDU) -> Kind {
    match h {
        AsyncHDU::Primary(_) => Kind::Primary,
        AsyncHDU::XImage(_) => Kind::Image,
        AsyncHDU::XBinaryTable(_) => Kind::Bin,
        AsyncHDU::XASCIITable(_) => Kind::Ascii,
    }
}

pub fn async_cards(h: &AsyncHDU) -> Vec<Card> {
    match h {
        AsyncHDU::Primary(h) | AsyncHDU::XImage(h) => h.get_header().cards().cloned().collect(),
        AsyncHDU::XBinaryTable(h) => h.get_header().cards().cloned().collect(),
        AsyncHDU::XASCIITable(h) => h.get_header().cards().cloned().collect(),
    }
}

pub fn async_size(h: &AsyncHDU) -> u64 {
    use fitsrs::hdu::header::Xtension;
    match h {
        AsyncHDU::Primary(h) | AsyncHDU::XImage(h) => {
            h.get_header().get_xtension().get_num_bytes_data_block()
        }
        AsyncHDU::XBinaryTable(h) => h.get_header().get_xtension().get_num_bytes_data_block(),
        AsyncHDU::XASCIITable(h) => h.get_header().get_xtension().get_num_bytes_data_block(),
    }
}

pub fn check_async_hdu(i: usize, got: &AsyncHDU, want: &BuiltHdu) -> Result<(), String> {
    ensure_eq!(async_kind(got), want.kind, "kind of asynchronous HDU {i}");
    ensure_eq!(
        async_size(got),
        want.data.len() as u64,
        "data size of asynchronous HDU {i}"
    );
    let (a, b) = (async_cards(got), want.expected_cards());
    ensure_eq!(a.len(), b.len(), "number of cards of asynchronous HDU {i}");
    for (k, (a, b)) in a.iter().zip(&b).enumerate() {
        ensure_eq!(a, b, "card {k} of asynchronous HDU {i}");
    }
    Ok(())
}

/// Items of a stream, at most `cap`, as bits; and the error that ended it
fn stream_bits<S, T, E>(mut st: S, cap: usize, bits: fn(T) -> u64) -> (Vec<u64>, Option<E>)
where
    S: Stream<Item = Result<[T; 1], E>> + Unpin,
{
    let mut out = vec![];
    while out.len() < cap {
        match next_item(&mut st) {
            None => break,
            Some(Ok([v])) => out.push(bits(v)),
            Some(Err(e)) => {
                // nothing comes after an error
                assert!(
                    next_item(&mut st).is_none(),
                    "the stream goes on after an error"
                );
                return (out, Some(e));
            }
        }
    }
    (out, None)
}

/// Read the data of a HDU asynchronously, at most `cap` items. Tables are given as bytes.
pub fn async_content(
    fits: &mut Afits,
    hdu: &AsyncHDU,
    cap: usize,
) -> (Content, Option<futures::io::Error>) {
    let bytes = |(v, e): (Vec<u64>, _)| (Content::Bytes(v.iter().map(|&b| b as u8).collect()), e);
    match hdu {
        AsyncHDU::Primary(h) | AsyncHDU::XImage(h) => {
            let (b, (v, e)) = match fits.get_data(h) {
                DataStream::U8(s) => (8, stream_bits(s, cap, |v: u8| v as u64)),
                DataStream::I16(s) => (16, stream_bits(s, cap, |v: i16| v as u16 as u64)),
                DataStream::I32(s) => (32, stream_bits(s, cap, |v: i32| v as u32 as u64)),
                DataStream::I64(s) => (64, stream_bits(s, cap, |v: i64| v as u64)),
                DataStream::F32(s) => (-32, stream_bits(s, cap, |v: f32| v.to_bits() as u64)),
                DataStream::F64(s) => (-64, stream_bits(s, cap, |v: f64| v.to_bits())),
            };
            (Content::Pixels(b, v), e)
        }
        AsyncHDU::XBinaryTable(h) => {
            bytes(stream_bits(fits.get_data(h), cap, |v: u8| v as u64))
        }
        AsyncHDU::XASCIITable(h) => {
            bytes(stream_bits(fits.get_data(h), cap, |v: u8| v as u64))
        }
    }
}

/// What reading asynchronously must give
pub fn async_expected(spec: &HduSpec, b: &BuiltHdu) -> Content {
    match &spec.body {
        Body::Image(s) => Content::Pixels(s.bitpix, decode_pixels(s.bitpix, &b.data)),
        _ => Content::Bytes(b.data.clone()),
    }
}
