//! Tile-compressed images

use crate::engine::*;
use crate::model::*;
use crate::readers::*;
use crate::tiles::*;
use crate::util::*;
use crate::{ensure, ensure_eq};
use fitsrs::hdu::data::bintable::data::BinaryTableData;
use fitsrs::{Fits, HDU};
use serde::{Deserialize, Serialize};

#[derive(Debug, Hash, Serialize, Deserialize)]
struct TileCase {
    tile: TileSpec,
    reader: ReaderKind,
    /// another HDU follows
    after: bool,
}

fn gen_case(g: &mut Gen, float: bool) -> TileCase {
    let max = match g.weighted(&[8, 3, 1]) {
        0 => 300,
        1 => 2000,
        _ if g.thorough => 60_000,
        _ => 12_000,
    };
    let mut tile = gen_tile(g, float, max);
    if float && g.chance(1, 50) {
        // longer than the sequence of random numbers
        tile.naxis = vec![g.range(9400, 30_000)];
        tile.tile = Some(tile.naxis.clone());
        if g.bool() {
            tile.naxis.push(2);
            tile.tile.as_mut().unwrap().push(1);
        }
    }
    TileCase {
        tile,
        reader: gen_reader(g),
        after: g.bool(),
    }
}

/// Tiles and images of more than 65535 pixels, possibly along one axis, or many tiles
fn gen_large(g: &mut Gen, float: bool) -> TileCase {
    let shape = g.usize(0, 5);
    let n = 65_500 + g.range(0, 8000);
    let (edge, k) = (g.range(0, 3), g.range(1, 3));
    let mut c = gen_case(g, float);
    let t = &mut c.tile;
    (t.naxis, t.tile) = match shape {
        // one long axis
        0 => (vec![n], Some(vec![n + edge])),
        1 => (vec![n, k], None),
        // a tile of many pixels
        2 => (vec![300, n / 300 * k + edge], Some(vec![300, n / 300])),
        3 => (vec![n, 2], Some(vec![n / k, 2])),
        // many tiles
        4 if edge == 0 => (vec![k, n % 3000 + 250], None),
        4 => (vec![k * 2 + edge, n % 2000 + 250], Some(vec![(k * 2 + edge).div_ceil(3), edge])),
        _ => (vec![k, n % 8000 + 4000], Some(vec![edge + 1, 1])),
    };
    c
}

fn tile_file(c: &TileCase) -> FileSpec {
    let hdu = |body| HduSpec {
        body,
        extra: vec![],
        fill: 0,
        style: 4 * if c.tile.zorder % 3 == 1 { (c.tile.zorder >> 40) as u8 % 64 } else { 0 },
    };
    let mut f = with_primary(hdu(Body::Tile(c.tile.clone())), true);
    if c.after {
        f.hdus.push(hdu(Body::Image(ImageSpec {
            bitpix: 16,
            naxis: vec![3, 2],
            blob: Blob { seed: 3, mode: 0 },
        })));
    }
    f
}

fn tile_stats(t: &TileSpec, b: &BuiltTile, s: &mut Stats) {
    s.class(&format!(
        "{:?}, {} bytes, ZBITPIX {}",
        t.cmp, t.width, t.zbitpix
    ));
    s.class_if(b.edge_tiles, "edge tiles");
    s.class_if(t.tile.is_none(), "default tiles");
    s.class_if(b.num_tiles > 1, "several tiles");
    s.class_if(t.naxis.len() > 2, "more than 2 axes");
    s.class_if(t.layout > 0, "other columns");
    s.class_if(t.wide_desc, "64-bit descriptors");
    s.add("pixels", b.ints.len() as u64);
    if let Some(q) = &t.quant {
        s.class(["no ZQUANTIZ", "NO_DITHER", "DITHER_1", "DITHER_2"][q.method as usize]);
        s.class(["no ZBLANK", "ZBLANK keyword", "ZBLANK column I", "ZBLANK column J", "ZBLANK column K", "ZBLANK column B"][q.blank as usize]);
        s.class_if(
            t.tile_sizes().iter().product::<u64>() > 9500,
            "tile longer than the random sequence",
        );
    }
    if b.ints.len() > 1 {
        s.nontrivial();
    }
}

/// ZBITPIX and the values
fn read_tiles(c: &TileCase) -> Result<(i64, Vec<i64>), String> {
    let file = tile_file(c);
    let built = file.build();
    let mut fits = Fits::from_reader(AnyReader::new(&c.reader, &built.bytes));
    let mut res = None;
    for (i, want) in built.hdus.iter().enumerate() {
        let hdu = match fits.next() {
            Some(Ok(h)) => h,
            x => return Err(format!("HDU {i}: {}", short(&x))),
        };
        check_hdu(i, &hdu, want)?;
        if i == 1 {
            let HDU::XBinaryTable(h) = &hdu else {
                return Err("not a binary table".into());
            };
            let z = h.get_header().get_xtension().get_z_image();
            let Some(z) = z else {
                return Err("not recognised as a tile-compressed image".into());
            };
            ensure_eq!(bitpix(z.z_bitpix), c.tile.zbitpix, "ZBITPIX");
            ensure_eq!(z.z_naxisn[..], c.tile.naxis[..], "ZNAXISn");
            match fits.get_data(h) {
                BinaryTableData::TileCompressed(p) => res = Some(tile_bits(p, usize::MAX >> 1)),
                BinaryTableData::Table(_) => return Err("given as a table".into()),
            }
        }
    }
    ensure!(fits.next().is_none(), "a HDU too many");
    Ok(res.unwrap())
}

fn check_ints(c: &TileCase, s: &mut Stats) -> CheckResult {
    let b = c.tile.build();
    tile_stats(&c.tile, &b, s);
    compare_ints(&c.tile, &b, read_tiles(c)?)
}

fn compare_ints(t: &TileSpec, b: &BuiltTile, (bp, got): (i64, Vec<i64>)) -> CheckResult {
    ensure_eq!(bp, t.zbitpix, "type of the pixels");
    for (i, (a, w)) in got.iter().zip(&b.ints).enumerate() {
        ensure_eq!(
            *a,
            *w as i64,
            "pixel {i} of {} (tile {}, rank {})",
            b.ints.len(),
            b.tile_of[i].0,
            b.tile_of[i].1
        );
    }
    ensure_eq!(got.len(), b.ints.len(), "number of pixels");
    Ok(())
}

/// A tile-compressed image in a file of any size
#[derive(Debug, Hash, Serialize, Deserialize)]
struct FarCase {
    /// bytes of an image before it
    before: u64,
    /// bytes between the main table and the heap
    gap: u64,
    /// bytes of the heap before each tile
    space: u64,
    tile: TileSpec,
}

fn gen_far(g: &mut Gen, float: bool) -> FarCase {
    let size = |g: &mut Gen| match g.weighted(&[3, 1, 1, 1, 1]) {
        0 => 0,
        1 => g.range(1, 10_000),
        2 => (1 << 31) - 3000 + g.range(0, 6000),
        3 => (1 << 32) - 3000 + g.range(0, 6000),
        _ => g.range(1 << 32, 1 << 44),
    };
    let (before, gap, space) = (size(g), size(g), size(g));
    let mut tile = gen_tile(g, float, 200);
    tile.gap = 0;
    FarCase {
        before,
        gap,
        space: if tile.wide_desc { space } else { space % 20_000_000 },
        tile,
    }
}

/// the tiles, and the image that follows
fn read_far(c: &FarCase, b: &BuiltTile, s: &mut Stats) -> Result<(i64, Vec<i64>), String> {
    use crate::cards::*;
    s.class_if(c.before >> 31 > 0, "2 GiB or more before");
    s.class_if(c.gap >> 31 > 0, "2 GiB or more between the table and the heap");
    s.class_if(c.space >> 31 > 0, "2 GiB or more in the heap");
    let (main, heap) = b.data.split_at(b.main);
    let mut main = main.to_vec();
    let ext = |kind: Ext, cards: Vec<CardSpec>| {
        let mut all = vec![CardSpec::Xtension {
            kind,
            text: format!("{:<8}", kind.name()),
            comment: None,
        }];
        all.extend(cards);
        all.push(CardSpec::End);
        header_bytes(&all)
    };
    let round = |n: u64| n.div_ceil(2880) * 2880;
    let mut segs = vec![(0, header_bytes(&empty_primary().unit(true).1))];
    let mut at = 2880;
    let mut want = vec![];
    if c.before > 0 {
        let h = ext(
            Ext::Image,
            vec![
                int("BITPIX", 8),
                int("NAXIS", 1),
                int("NAXIS1", c.before as i64),
                int("PCOUNT", 0),
                int("GCOUNT", 1),
            ],
        );
        let len = h.len() as u64;
        segs.push((at, h));
        at += len;
        want.push((at, c.before));
        at += round(c.before);
    }
    // where the tiles are in the heap
    let mut tiles = vec![];
    let mut total = 0;
    for &d in &b.descriptors {
        let (n, off);
        if c.tile.wide_desc {
            n = u64::from_be_bytes(main[d..d + 8].try_into().unwrap());
            off = u64::from_be_bytes(main[d + 8..d + 16].try_into().unwrap());
            main[d + 8..d + 16].copy_from_slice(&(total + c.space).to_be_bytes());
        } else {
            n = u32::from_be_bytes(main[d..d + 4].try_into().unwrap()) as u64;
            off = u32::from_be_bytes(main[d + 4..d + 8].try_into().unwrap()) as u64;
            let to = u32::try_from(total + c.space).map_err(|_| "generator: too far")?;
            main[d + 4..d + 8].copy_from_slice(&to.to_be_bytes());
        }
        total += c.space;
        tiles.push((total, heap[off as usize..(off + n) as usize].to_vec()));
        total += n;
    }
    let mut cards: Vec<CardSpec> = b
        .cards
        .iter()
        .map(|x| match x {
            CardSpec::Value { name, .. } if name == "PCOUNT" => int("PCOUNT", (c.gap + total) as i64),
            x => x.clone(),
        })
        .collect();
    if c.gap > 0 {
        cards.push(int("THEAP", (b.main as u64 + c.gap) as i64));
    }
    let h = ext(Ext::Bin, cards);
    let len = h.len() as u64;
    segs.push((at, h));
    at += len;
    want.push((at, b.main as u64 + c.gap + total));
    segs.push((at, main));
    for (off, t) in tiles {
        segs.push((at + b.main as u64 + c.gap + off, t));
    }
    at += round(b.main as u64 + c.gap + total);
    let h = ext(
        Ext::Image,
        vec![
            int("BITPIX", 16),
            int("NAXIS", 1),
            int("NAXIS1", 7),
            int("PCOUNT", 0),
            int("GCOUNT", 1),
        ],
    );
    let len = h.len() as u64;
    segs.push((at, h));
    at += len;
    want.push((at, 14));
    at += 2880;

    let mut sparse = Sparse::new(segs, at);
    sparse.budget = 10_000_000;
    let mut fits = Fits::from_reader(sparse);
    ensure!(matches!(fits.next(), Some(Ok(HDU::Primary(_)))), "primary HDU");
    let mut res = None;
    for (i, (off, size)) in want.iter().enumerate() {
        let hdu = match fits.next() {
            Some(Ok(h)) => h,
            x => return Err(format!("extension {i}: {}", short(&x))),
        };
        ensure_eq!(hdu.get_data_unit_byte_offset(), *off, "data offset of extension {i}");
        ensure_eq!(hdu.get_data_unit_byte_size(), *size, "data size of extension {i}");
        if i + 2 == want.len() {
            let HDU::XBinaryTable(h) = &hdu else {
                return Err("not a binary table".into());
            };
            match fits.get_data(h) {
                BinaryTableData::TileCompressed(p) => res = Some(tile_bits(p, usize::MAX >> 1)),
                BinaryTableData::Table(_) => return Err("given as a table".into()),
            }
        }
    }
    ensure!(fits.next().is_none(), "a HDU too many");
    Ok(res.unwrap())
}

fn far(float: bool) -> Box<dyn Check> {
    Box::new(Simple {
        name: "far",
        rule: "the same in files of up to 16 TiB (mostly zeros that are not stored): a large image before, \
               a large gap before the heap, or far between the tiles; non-trivial: at least 2 pixels",
        quick: 8_000,
        thorough: 200_000,
        num_choices: 80,
        gen: if float { |g| gen_far(g, true) } else { |g| gen_far(g, false) },
        check: |c: &FarCase, s: &mut Stats| {
            let b = c.tile.build();
            tile_stats(&c.tile, &b, s);
            let got = read_far(c, &b, s)?;
            if c.tile.quant.is_some() {
                compare_floats(&c.tile, &b, got)
            } else {
                compare_ints(&c.tile, &b, got)
            }
        },
    })
}

pub fn c13() -> Vec<Box<dyn Check>> {
    vec![far(false), Box::new(Simple {
        name: "large",
        rule: "the same with more than 65535 pixels in a tile or along an axis, or with up to 12000 tiles",
        quick: 240,
        thorough: 6000,
        num_choices: 60,
        gen: |g| gen_large(g, false),
        check: check_ints,
    }), Box::new(Simple {
        name: "integers",
        rule: "an integer image (ZBITPIX 8, 16, 32; 1 to 4 axes; up to 12000 pixels, 60000 in the thorough \
               tier) cut in tiles of any size, edge tiles included, and compressed by the encoder of \
               the harness with RICE (any block size and BYTEPIX), GZIP_1 or GZIP_2, the tiles anywhere \
               in the heap; every pixel must be given back, tile by tile, and the HDU that follows be \
               found. Non-trivial: at least 2 pixels.",
        quick: 50_000,
        thorough: 800_000,
        num_choices: 60,
        gen: |g| gen_case(g, false),
        check: check_ints,
    })]
}

fn check_floats(c: &TileCase, s: &mut Stats) -> CheckResult {
    let b = c.tile.build();
    tile_stats(&c.tile, &b, s);
    compare_floats(&c.tile, &b, read_tiles(c)?)
}

fn compare_floats(t: &TileSpec, b: &BuiltTile, (bp, got): (i64, Vec<i64>)) -> CheckResult {
    let want = expected_floats(t, b);
    ensure_eq!(bp, t.zbitpix, "type of the pixels");
    for (i, (a, (w, tol))) in got.iter().zip(&want).enumerate() {
        let a = f32::from_bits(*a as u32) as f64;
        let ok = if w.is_nan() {
            a.is_nan()
        } else {
            (a - w).abs() <= tol + 1e-6 * w.abs()
        };
        ensure!(
            ok,
            "pixel {i} of {} (tile {}, rank {}, integer {}, scale {}, zero {}): got {a}, expected {w}",
            want.len(),
            b.tile_of[i].0,
            b.tile_of[i].1,
            b.ints[i],
            b.scale[b.tile_of[i].0],
            b.zero[b.tile_of[i].0]
        );
    }
    ensure_eq!(got.len(), want.len(), "number of pixels");
    Ok(())
}

pub fn c14() -> Vec<Box<dyn Check>> {
    vec![far(true), Box::new(Simple {
        name: "large",
        rule: "the same with more than 65535 pixels in a tile or along an axis, or with up to 12000 tiles",
        quick: 240,
        thorough: 6000,
        num_choices: 60,
        gen: |g| gen_large(g, true),
        check: check_floats,
    }), Box::new(Simple {
        name: "floats",
        rule: "a floating point image quantized by the harness (ZSCALE, ZZERO per tile; no ZQUANTIZ, \
               NO_DITHER, SUBTRACTIVE_DITHER_1 and 2; ZDITHER0 over its range; ZBLANK as keyword or \
               column; tiles longer than the random sequence) then compressed with RICE, GZIP_1 or \
               GZIP_2; every pixel must be its dequantized value, within 1e-6 of the magnitude of the \
               terms, undefined pixels being NaN. Non-trivial: at least 2 pixels.",
        quick: 50_000,
        thorough: 800_000,
        num_choices: 60,
        gen: |g| gen_case(g, true),
        check: check_floats,
    })]
}
