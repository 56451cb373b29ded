//! Images

use super::walk::{amount, big_file, each_pixels, BigHdu};
use crate::cards::*;
use crate::engine::*;
use crate::model::*;
use crate::readers::*;
use crate::tiles::{expected_floats, gen_tile, TileSpec};
use crate::util::*;
use crate::{ensure, ensure_eq};
use fitsrs::hdu::data::image::Pixels;
use fitsrs::{Fits, HDU};
use image::metadata::Orientation;
use image::{ColorType, DynamicImage, ImageDecoder, ImageReader};
use serde::{Deserialize, Serialize};
use std::io::{Cursor, Read, Seek};

// ------------------------------------------------------------------ C03

#[derive(Debug, Hash, Serialize, Deserialize)]
struct PixelCase {
    /// HDUs before the image
    before: Vec<HduSpec>,
    image: HduSpec,
    after: bool,
    pad_last: bool,
    reader: ReaderKind,
}

/// Cards that describe the physical values: they do not change what is stored
pub fn gen_scaling(g: &mut Gen) -> Vec<CardSpec> {
    let mut v = vec![];
    if g.bool() {
        v.push(match g.weighted(&[1, 1]) {
            0 => int("BSCALE", 1 + g.range(0, 3) as i64),
            _ => float("BSCALE", g.range(1, 4000) as f64 / 256.0),
        });
    }
    if g.bool() {
        v.push(match g.weighted(&[2, 1]) {
            0 => int("BZERO", g.pick(&[32768, -128, 1, 0, 2147483648])),
            _ => float("BZERO", g.range(0, 100_000) as f64 / 8.0),
        });
    }
    if g.chance(1, 3) {
        v.push(int("BLANK", g.pick(&[0, -32768, 255, -1])));
    }
    v
}

fn gen_pixels(g: &mut Gen) -> PixelCase {
    let reader = gen_reader(g);
    let max = if g.thorough { 60_000 } else { 20_000 };
    let mut img = gen_image(g, max);
    if g.chance(1, 12) {
        // larger than the buffers of the readers
        img.naxis = vec![g.range(100, 300), g.range(20, 60)];
    }
    let mut extra = gen_extras(g);
    extra.extend(gen_scaling(g));
    let image = HduSpec {
        body: Body::Image(img),
        extra,
        fill: gen_fill(g),
        style: g.weighted(&[3, 1, 1, 1]) as u8,
    };
    let n = g.weighted(&[2, 1, 1]);
    PixelCase {
        before: (0..n).map(|i| gen_hdu(g, i == 0, 3000)).collect(),
        image,
        after: g.bool(),
        pad_last: !g.chance(1, 4),
        reader,
    }
}

impl PixelCase {
    fn file(&self) -> FileSpec {
        let mut hdus = self.before.clone();
        hdus.push(self.image.clone());
        if self.after {
            hdus.push(empty_primary());
        }
        FileSpec {
            hdus,
            pad_last: self.pad_last,
        }
    }
}

fn check_pixels(c: &PixelCase, s: &mut Stats) -> CheckResult {
    let file = c.file();
    let b = file.build();
    let at = c.before.len();
    let Body::Image(spec) = &c.image.body else {
        return Err("harness: not an image".into());
    };
    let want = (spec.bitpix, decode_pixels(spec.bitpix, &b.hdus[at].data));
    if want.1.len() >= 2 {
        s.nontrivial();
    }
    s.class(&format!("BITPIX {}", spec.bitpix));
    s.class_if(spec.naxis.contains(&0), "empty axis");
    s.class_if(spec.naxis.is_empty(), "no axis");
    s.class_if(at > 0, "extension");

    fn reach<R>(fits: &mut Fits<R>, at: usize) -> Result<HDU, String>
    where
        R: Read + Seek + std::fmt::Debug + 'static,
    {
        fits.nth(at)
            .ok_or("HDU not found")?
            .map_err(|e| format!("HDU {at}: {e:?}"))
    }
    let mut fits = Fits::from_reader(AnyReader::new(&c.reader, &b.bytes));
    let (HDU::Primary(h) | HDU::XImage(h)) = reach(&mut fits, at)? else {
        return Err("not an image".into());
    };
    check_image_header(h.get_header().get_xtension(), spec)?;
    let pixels = fits.get_data(&h).pixels();
    let got = each_pixels!(pixels, it, bits => {
        let mut v = vec![];
        for p in &mut it {
            v.push(bits(p));
            ensure!(v.len() <= want.1.len(), "more pixels than {}", want.1.len());
        }
        ensure!(it.next().is_none(), "pixels after the end");
        v
    });
    ensure_eq!((bits_of(&b, spec), got), (spec.bitpix, want.1.clone()), "pixels");

    // in memory, the bytes are available
    let mut fits = Fits::from_reader(Cursor::new(b.bytes.clone()));
    let (HDU::Primary(h) | HDU::XImage(h)) = reach(&mut fits, at)? else {
        return Err("not an image".into());
    };
    ensure_eq!(fits.get_data(&h).raw_bytes(), &b.hdus[at].data[..], "raw bytes");
    let (bp, got) = pixel_bits(fits_again(&b.bytes, at)?, usize::MAX);
    ensure_eq!((bp, got), want, "pixels in memory");
    Ok(())
}

fn bits_of(_b: &Built, spec: &ImageSpec) -> i64 {
    spec.bitpix
}

/// The pixels of the HDU of an in-memory file
fn fits_again(bytes: &[u8], at: usize) -> Result<Pixels<Cursor<Vec<u8>>>, String> {
    use fitsrs::It;
    let mut c = Cursor::new(bytes.to_vec());
    let mut fits = Fits::from_reader(&mut c);
    let (bp, off, size) = {
        let hdu = (&mut fits).nth(at).unwrap().map_err(|e| format!("{e:?}"))?;
        let (HDU::Primary(h) | HDU::XImage(h)) = &hdu else {
            return Err("not an image".into());
        };
        (
            bitpix(h.get_header().get_xtension().get_bitpix()),
            hdu.get_data_unit_byte_offset(),
            hdu.get_data_unit_byte_size(),
        )
    };
    drop(fits);
    // the public iterator, over a reader of one's own
    c.set_position(off);
    Ok(match bp {
        8 => Pixels::U8(It::new(c, size)),
        16 => Pixels::I16(It::new(c, size)),
        32 => Pixels::I32(It::new(c, size)),
        64 => Pixels::I64(It::new(c, size)),
        -32 => Pixels::F32(It::new(c, size)),
        _ => Pixels::F64(It::new(c, size)),
    })
}

pub fn c03() -> Vec<Box<dyn Check>> {
    vec![Box::new(Simple {
        name: "pixels",
        rule: "an image (all BITPIX, 0 to 30 axes, any bit pattern including NaN and extremes, any \
               other cards including BSCALE, BZERO and BLANK), primary or after 1 to 2 HDUs, read with any reader: \
               type, number, order and bits of the pixels, end, raw bytes; non-trivial: at least 2 pixels",
        quick: 120_000,
        thorough: 1_500_000,
        num_choices: 260,
        gen: gen_pixels,
        check: check_pixels,
    }), super::walk::far_raw(false)]
}

// ------------------------------------------------------------------ C04

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum Access {
    Read(u64),
    Next(u64),
    /// out of bounds
    Out(u64),
    /// the next pixels with nth()
    Skip(u64),
}

#[derive(Debug, Hash, Serialize, Deserialize)]
struct AccessCase {
    image: ImageSpec,
    ext: bool,
    reader: ReaderKind,
    ops: Vec<Access>,
}

fn gen_ops(g: &mut Gen) -> Vec<Access> {
    let n = g.usize(1, if g.thorough { 40 } else { 14 });
    (0..n)
        .map(|_| match g.weighted(&[5, 4, 1, 1]) {
            0 => Access::Read(g.u64()),
            1 => Access::Next(g.u64()),
            2 => Access::Out(g.u64()),
            _ => Access::Skip(g.u64()),
        })
        .collect()
}

fn check_access(c: &AccessCase, s: &mut Stats) -> CheckResult {
    let file = image_file(c.image.clone(), c.ext, vec![]);
    let b = file.build();
    let data = &b.hdus.last().unwrap().data;
    let want = decode_pixels(c.image.bitpix, data);
    let reads = c.ops.iter().filter(|o| matches!(o, Access::Read(_))).count();
    if want.len() >= 2 && reads >= 1 && c.ops.len() >= 2 {
        s.nontrivial();
    }
    let mut fits = Fits::from_reader(AnyReader::new(&c.reader, &b.bytes));
    let hdu = (&mut fits)
        .nth(c.ext as usize)
        .ok_or("HDU not found")?
        .map_err(|e| format!("{e:?}"))?;
    let (HDU::Primary(h) | HDU::XImage(h)) = &hdu else {
        return Err("not an image".into());
    };
    let len = want.len();
    each_pixels!(fits.get_data(h).pixels(), it, bits => {
        // index of the next pixel
        let mut cur = 0usize;
        for (k, op) in c.ops.iter().enumerate() {
            match op {
                Access::Read(x) if len > 0 => {
                    let i = match x % 8 {
                        0 => 0,
                        1 => len - 1,
                        2 => cur.min(len - 1),
                        3 => cur.saturating_sub(1),
                        _ => (x >> 8) as usize % len,
                    };
                    s.class_if(i < cur, "backwards");
                    s.class_if(cur == len, "after the end");
                    let got = it.read_value(i).map(bits).map_err(|e| format!("op {k}, pixel {i}: {e:?}"))?;
                    ensure_eq!(got, want[i], "op {k}, pixel {i}");
                    cur = i + 1;
                }
                Access::Read(x) | Access::Out(x) => {
                    let i = match x % 4 {
                        0 => len,
                        1 => usize::MAX,
                        2 => usize::MAX / 8 + 2,
                        _ => len + (x >> 8) as usize % 5000,
                    };
                    s.class("out of bounds");
                    ensure!(it.read_value(i).is_err(), "op {k}: there is no pixel {i}");
                }
                Access::Next(x) => {
                    let n = amount(*x, len - cur) + (x >> 60 == 0) as usize;
                    for _ in 0..n {
                        let got = it.next().map(bits);
                        ensure_eq!(got, want.get(cur).copied(), "op {k}, next pixel ({cur})");
                        cur = (cur + 1).min(len);
                    }
                }
                Access::Skip(x) => {
                    let n = amount(*x, len - cur);
                    let got = it.nth(n).map(bits);
                    ensure_eq!(got, want.get(cur + n).copied(), "op {k}, {n} pixels skipped from {cur}");
                    cur = (cur + n + 1).min(len);
                }
            }
        }
        let rest: Vec<u64> = it.map(bits).collect();
        ensure_eq!(rest, want[cur..], "pixels from {cur}");
    });
    Ok(())
}

#[derive(Debug, Hash, Serialize, Deserialize)]
struct FarCase {
    bitpix: i64,
    width: u64,
    height: u64,
    ext: bool,
    /// pixels that are not 0
    at: Vec<u64>,
    ops: Vec<u8>,
    seed: u64,
}

fn check_far(c: &FarCase, s: &mut Stats) -> CheckResult {
    let big = |axes: Vec<u64>| BigHdu {
        kind: 0,
        bitpix: c.bitpix,
        axes,
        pcount: 0,
    };
    let img = big(vec![c.width, c.height]);
    let hdus = if c.ext {
        vec![big(vec![]), img]
    } else {
        vec![img]
    };
    // an image without axes has no data
    let hdus: Vec<BigHdu> = hdus;
    let (mut segs, mut offs, mut len) = {
        if c.ext {
            let (mut segs, _, _) = big_file(&hdus[..1]);
            let n = segs[0].1.len() as u64;
            let ext = header_bytes(&hdus[1].header(false));
            let m = ext.len() as u64;
            segs.push((n, ext));
            (segs, vec![n + m], n + m + hdus[1].size().div_ceil(2880) * 2880)
        } else {
            big_file(&hdus)
        }
    };
    let off = offs.pop().unwrap();
    let n = c.width * c.height;
    let size = c.bitpix.unsigned_abs() / 8;
    let mut seed = c.seed;
    let mut at: Vec<u64> = c.at.iter().map(|x| x % n).collect();
    at.sort_unstable();
    at.dedup();
    let mut marks = std::collections::BTreeMap::new();
    for &i in &at {
        let v = splitmix(&mut seed);
        let bytes = v.to_be_bytes()[..size as usize].to_vec();
        marks.insert(i, decode_pixels(c.bitpix, &bytes)[0]);
        segs.push((off + i * size, bytes));
    }
    len = len.max(off);
    s.class_if(n * size > u32::MAX as u64, "more than 4 GiB");
    s.class_if(n > u32::MAX as u64, "more than 2^32 pixels");
    s.nontrivial();
    let mut fits = Fits::from_reader(Sparse::new(segs, len));
    let hdu = (&mut fits)
        .nth(c.ext as usize)
        .ok_or("HDU not found")?
        .map_err(|e| format!("{e:?}"))?;
    let (HDU::Primary(h) | HDU::XImage(h)) = &hdu else {
        return Err("not an image".into());
    };
    let value = |i: u64| marks.get(&i).copied().unwrap_or(0);
    each_pixels!(fits.get_data(h).pixels(), it, bits => {
        for op in &c.ops {
            let i = at[*op as usize % at.len()];
            let i = (i + (*op as u64 >> 6)).min(n - 1);
            let got = it.read_value(i as usize).map(bits).map_err(|e| format!("pixel {i}: {e:?}"))?;
            ensure_eq!(got, value(i), "pixel {i}");
            if op % 2 == 1 {
                let got = it.next().map(bits);
                let want = (i + 1 < n).then(|| value(i + 1));
                ensure_eq!(got, want, "pixel {} after pixel {i}", i + 1);
            }
        }
    });
    Ok(())
}

pub fn c04() -> Vec<Box<dyn Check>> {
    vec![
        Box::new(Simple {
            name: "access",
            rule: "histories of random accesses (forwards, backwards, after the end), sequential reads, \
                   skips and accesses out of bounds on an image of any type, through any reader, compared with an array and an index; \
                   non-trivial: at least 2 pixels, 2 operations and a random access",
            quick: 200_000,
            thorough: 3_000_000,
            num_choices: 120,
            gen: |g| {
                let ext = g.bool();
                let reader = gen_reader(g);
                let ops = gen_ops(g);
                AccessCase {
                    ext,
                    reader,
                    ops,
                    image: gen_image(g, 6000),
                }
            },
            check: check_access,
        }),
        Box::new(Simple {
            name: "far",
            rule: "random accesses in virtual images of 2 GiB to 256 TiB; all are non-trivial",
            quick: 20_000,
            thorough: 400_000,
            num_choices: 40,
            gen: |g| {
                let bitpix = g.pick(BITPIX);
                let bits = g.range(31, 44);
                let width = g.pick(&[1 << 10, 65535, 100_003, 1 << 20]);
                let n = g.usize(1, 8);
                let k = g.usize(1, 12);
                FarCase {
                    bitpix,
                    width,
                    height: ((1u64 << bits) / width).max(1) + g.range(0, 3),
                    ext: g.bool(),
                    at: (0..n)
                        .map(|_| match g.weighted(&[3, 1, 1]) {
                            0 => g.u64(),
                            1 => (1u64 << 32) + g.range(0, 2),
                            _ => g.range(0, 3),
                        })
                        .collect(),
                    ops: (0..k).map(|_| g.u64() as u8).collect(),
                    seed: g.u64(),
                }
            },
            check: check_far,
        }),
    ]
}

// ------------------------------------------------------------------ C21

#[derive(Debug, Hash, Serialize, Deserialize)]
enum Pic {
    Image(ImageSpec),
    Tile(TileSpec),
    /// nothing to show
    None,
}

#[derive(Debug, Hash, Serialize, Deserialize)]
struct PicCase {
    /// skipped HDUs, the primary one being empty
    before: Vec<HduSpec>,
    pic: Pic,
    scaling: Vec<CardSpec>,
    after: bool,
}

fn skipped(g: &mut Gen) -> HduSpec {
    let body = match g.weighted(&[1, 2, 1]) {
        0 => Body::Image(ImageSpec {
            bitpix: g.pick(BITPIX),
            naxis: g.pick(&[vec![], vec![0, 4], vec![0]]),
            blob: Blob { seed: 0, mode: 3 },
        }),
        1 => Body::Bin(gen_table(g, 2)),
        _ => Body::Ascii(gen_ascii(g)),
    };
    HduSpec {
        body,
        extra: gen_extras(g),
        fill: gen_fill(g),
        style: 0,
    }
}

fn gen_pic(g: &mut Gen) -> PicCase {
    let which = g.weighted(&[6, 4, 1]);
    let n = g.weighted(&[3, 2, 1, 1]);
    let scaling = if g.chance(2, 3) { gen_scaling(g) } else { vec![] };
    let pic = match which {
        0 => {
            let dims = g.weighted(&[8, 3, 5, 1, 1]);
            let (w, h) = match g.weighted(&[20, 1, 1]) {
                0 => (g.range(1, 40), g.range(1, 30)),
                1 => (g.range(41, 3000), g.range(1, 20)),
                _ => (g.range(1, 20), g.range(41, 3000)),
            };
            let naxis = match dims {
                0 => vec![w, h],
                1 => vec![w, h, 1],
                2 => vec![w, h, 3],
                3 => vec![w],
                _ => g.pick(&[vec![w, h, 2], vec![w, h, 1, 1], vec![w, h, 3, 1]]),
            };
            Pic::Image(ImageSpec {
                bitpix: g.pick(BITPIX),
                naxis,
                blob: gen_blob(g),
            })
        }
        1 => {
            let float = g.chance(1, 3);
            let mut t = gen_tile(g, float, 600);
            // only 2 or 3 axes can be shown
            if t.naxis.len() != 2 && !g.chance(1, 8) {
                let (w, h) = (g.range(1, 20), g.range(1, 15));
                t.naxis = if g.bool() { vec![w, h, 3] } else { vec![w, h] };
                t.tile = match t.tile {
                    Some(_) => Some(t.naxis.iter().map(|&n| g.range(1, n + 1)).collect()),
                    None => None,
                };
            }
            Pic::Tile(t)
        }
        _ => Pic::None,
    };
    let n = if matches!(pic, Pic::Tile(_) | Pic::None) { n.max(1) } else { n };
    PicCase {
        before: (0..n)
            .map(|i| if i == 0 { empty_primary() } else { skipped(g) })
            .collect(),
        pic,
        scaling,
        after: g.bool(),
    }
}

/// pixel values in image order with a tolerance; None when it is not finite
enum Vals {
    Int(Vec<i64>),
    Float(Vec<(f64, f64)>),
}

fn scale_of(cards: &[CardSpec]) -> (f64, f64) {
    let (mut bscale, mut bzero) = (1.0, 0.0);
    for c in cards {
        if let CardSpec::Value { name, val, .. } = c {
            let v = match val {
                Val::Int { v, .. } => *v as f64,
                Val::Float { bits, .. } => f64::from_bits(*bits),
                _ => continue,
            };
            match &name[..] {
                "BSCALE" => bscale = v,
                "BZERO" => bzero = v,
                _ => {}
            }
        }
    }
    (bscale, bzero)
}

fn check_pic(c: &PicCase, s: &mut Stats) -> CheckResult {
    check_pic_from(c, None, s)
}

/// from memory with the format guessed, or from a file whose name has the given extension
fn check_pic_from(c: &PicCase, ext: Option<&str>, s: &mut Stats) -> CheckResult {
    fitsrs::image_integration::register_fits_decoding_hook();
    let mut hdus = c.before.clone();
    let (naxis, bp, vals): (Vec<u64>, i64, Vals) = match &c.pic {
        Pic::Image(i) => {
            hdus.push(HduSpec {
                body: Body::Image(i.clone()),
                extra: c.scaling.clone(),
                fill: 0,
                style: 0,
            });
            let bits = decode_pixels(i.bitpix, &i.blob.bytes(i.size()));
            let vals = match i.bitpix {
                8 => Vals::Int(bits.iter().map(|&b| b as i64).collect()),
                16 => Vals::Int(bits.iter().map(|&b| b as u16 as i16 as i64).collect()),
                32 => Vals::Int(bits.iter().map(|&b| b as u32 as i32 as i64).collect()),
                64 => Vals::Int(bits.iter().map(|&b| b as i64).collect()),
                -32 => Vals::Float(
                    bits.iter()
                        .map(|&b| (f32::from_bits(b as u32) as f64, 0.0))
                        .collect(),
                ),
                _ => Vals::Float(bits.iter().map(|&b| (f64::from_bits(b), 0.0)).collect()),
            };
            s.class(&format!("image, BITPIX {}, {} axes", i.bitpix, i.naxis.len()));
            (i.naxis.clone(), i.bitpix, vals)
        }
        Pic::Tile(t) => {
            hdus.push(HduSpec {
                body: Body::Tile(t.clone()),
                extra: c.scaling.clone(),
                fill: 0,
                style: 0,
            });
            let b = t.build();
            let n = b.ints.len();
            s.class(&format!("tiles, ZBITPIX {}, {} axes", t.zbitpix, t.naxis.len()));
            s.class_if(b.edge_tiles, "edge tiles");
            let vals = if t.quant.is_some() {
                let e = expected_floats(t, &b);
                let mut v = vec![(0.0, 0.0); n];
                for (k, &i) in b.index.iter().enumerate() {
                    v[i] = e[k];
                }
                Vals::Float(v)
            } else {
                let mut v = vec![0; n];
                for (k, &i) in b.index.iter().enumerate() {
                    v[i] = b.ints[k] as i64;
                }
                Vals::Int(v)
            };
            (t.naxis.clone(), t.zbitpix, vals)
        }
        Pic::None => (vec![], 8, Vals::Int(vec![])),
    };
    if c.after {
        hdus.push(HduSpec {
            body: Body::Image(ImageSpec {
                bitpix: 16,
                naxis: if matches!(c.pic, Pic::None) { vec![] } else { vec![2, 2] },
                blob: Blob { seed: 1, mode: 5 },
            }),
            extra: vec![],
            fill: 0,
            style: 0,
        });
    }
    let file = FileSpec {
        hdus,
        pad_last: true,
    };
    let bytes = file.build().bytes;
    let supported = matches!(&naxis[..], [_, _] | [_, _, 1] | [_, _, 3]);
    let dec = match ext {
        None => ImageReader::new(Cursor::new(bytes))
            .with_guessed_format()
            .map_err(|e| format!("format: {e}"))?
            .into_decoder()
            .map(|d| Box::new(d) as Box<dyn ImageDecoder>),
        Some(ext) => {
            s.class(&format!("extension {ext}"));
            let path = crate::props::walk::scratch_file("pic").with_extension(ext);
            std::fs::write(&path, &bytes).unwrap();
            let dec = ImageReader::open(&path).map(|r| {
                r.into_decoder()
                    .map(|d| Box::new(d) as Box<dyn ImageDecoder>)
            });
            // still readable through the open decoder
            std::fs::remove_file(&path).unwrap();
            dec.map_err(|e| format!("opening: {e}"))?
        }
    };
    if !supported {
        s.class("not an image that can be shown");
        s.nontrivial();
        ensure!(dec.is_err(), "axes {naxis:?} are decoded");
        return Ok(());
    }
    let mut dec = dec.map_err(|e| format!("decoder: {e}"))?;
    let rgb = naxis.get(2) == Some(&3);
    let color = match (bp, rgb) {
        (8, false) => ColorType::L8,
        (8, true) => ColorType::Rgb8,
        (16, false) => ColorType::L16,
        (16, true) => ColorType::Rgb16,
        _ => ColorType::Rgb32F,
    };
    ensure_eq!(dec.dimensions(), (naxis[0] as u32, naxis[1] as u32), "dimensions");
    ensure_eq!(dec.color_type(), color, "color type");
    ensure_eq!(
        dec.orientation().map_err(|e| e.to_string())?,
        Orientation::FlipVertical,
        "orientation"
    );
    let img = DynamicImage::from_decoder(dec).map_err(|e| format!("decoding: {e}"))?;
    let got: Vec<f64> = match &img {
        DynamicImage::ImageLuma8(i) => i.as_raw().iter().map(|&v| v as f64).collect(),
        DynamicImage::ImageRgb8(i) => i.as_raw().iter().map(|&v| v as f64).collect(),
        DynamicImage::ImageLuma16(i) => i.as_raw().iter().map(|&v| v as f64).collect(),
        DynamicImage::ImageRgb16(i) => i.as_raw().iter().map(|&v| v as f64).collect(),
        DynamicImage::ImageRgb32F(i) => i.as_raw().iter().map(|&v| v as f64).collect(),
        i => return Err(format!("image of type {:?}", i.color())),
    };
    let n = (naxis[0] * naxis[1]) as usize;
    if n >= 2 {
        s.nontrivial();
    }
    let (bscale, bzero) = scale_of(&c.scaling);
    let scaled = (bscale, bzero) != (1.0, 0.0);
    s.class_if(scaled, "scaled");
    s.class_if(rgb, "3 planes");

    // interval in which the value of a pixel is
    let interval = |k: usize| -> Option<(f64, f64)> {
        match &vals {
            Vals::Int(v) => {
                let v = v[k] as f64;
                match bp {
                    8 | 16 => {
                        let max = if bp == 8 { 255.0 } else { 65535.0 };
                        if !scaled {
                            return Some((v.max(0.0), v.max(0.0)));
                        }
                        let x = v * bscale + bzero;
                        let e = 1e-9 * (1.0 + x.abs());
                        Some(((x - e).round().clamp(0.0, max), (x + e).round().clamp(0.0, max)))
                    }
                    _ => {
                        let max = if bp == 32 { i32::MAX as f64 } else { i64::MAX as f64 };
                        let x = v * (bscale / max) + bzero / max;
                        let e = 2e-7 * ((v * bscale).abs() + bzero.abs()) / max;
                        Some((x - e, x + e))
                    }
                }
            }
            Vals::Float(v) => {
                let (x, tol) = v[k];
                if x.is_nan() {
                    None
                } else if tol == 0.0 {
                    Some((x as f32 as f64, x as f32 as f64))
                } else {
                    let tol = tol + 1e-6 * x.abs();
                    Some((x - tol, x + tol))
                }
            }
        }
    };
    let channels = if rgb || bp.abs() >= 32 { 3 } else { 1 };
    ensure_eq!(got.len(), n * channels, "samples");
    for i in 0..n {
        for ch in 0..channels {
            let k = if rgb { ch * n + i } else { i };
            let g = got[i * channels + ch];
            match interval(k) {
                None => ensure!(g.is_nan(), "pixel {i}, channel {ch}: got {g}, expected NaN"),
                Some((lo, hi)) => ensure!(
                    g >= lo && g <= hi,
                    "pixel {i}, channel {ch}: got {g}, expected {lo}..{hi}"
                ),
            }
        }
    }
    Ok(())
}

#[derive(Debug, Hash, Serialize, Deserialize)]
struct PathCase {
    ext: String,
    pic: PicCase,
}

pub fn c21() -> Vec<Box<dyn Check>> {
    vec![Box::new(Simple {
        name: "decoder",
        rule: "files whose first image with data, plain of any BITPIX or tile-compressed (any tiling), \
               comes after 0 to 3 HDUs without image, with or without BSCALE and BZERO, given to the image crate with the format guessed: \
               dimensions, color type, orientation and every sample, or an error when it has no 2 or 3 \
               axes; non-trivial: at least 2 pixels, or an error",
        quick: 60_000,
        thorough: 900_000,
        num_choices: 300,
        gen: gen_pic,
        check: check_pic,
    }),
    Box::new(Simple {
        name: "path",
        rule: "the same files, written with the extension fits, fit, fts or fz and opened by path: the \
               same expectations; non-trivial: at least 2 pixels, or an error",
        quick: 8_000,
        thorough: 100_000,
        num_choices: 300,
        gen: |g| {
            let ext = g.pick(&["fits", "fit", "fts", "fz"]);
            PathCase {
                ext: ext.into(),
                pic: gen_pic(g),
            }
        },
        check: |c: &PathCase, s| check_pic_from(&c.pic, Some(&c.ext), s),
    })]
}
