//! Tile-compressed images: an encoder (RICE, GZIP_1, GZIP_2, quantization with dithering) written from
//! the FITS tile compression convention, and the pixels that decoding must give back.

use crate::cards::*;
use crate::engine::{splitmix, Gen};
use serde::{Deserialize, Serialize};
use std::io::Write;
use std::sync::OnceLock;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Cmp {
    Gzip1,
    Gzip2,
    Rice,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Quant {
    /// 0 no ZQUANTIZ, 1 NO_DITHER, 2 SUBTRACTIVE_DITHER_1, 3 SUBTRACTIVE_DITHER_2
    pub method: u8,
    pub zdither0: Option<i64>,
    /// 0 none, 1 keyword, 2 column of type I, 3 column J, 4 column K, 5 column B
    pub blank: u8,
    pub double_cols: bool,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct TileSpec {
    pub cmp: Cmp,
    /// RICE_ONE, the alias of RICE_1
    pub alias: bool,
    pub zbitpix: i64,
    pub naxis: Vec<u64>,
    /// sizes of the tiles; None: ZTILEn not written, row by row
    pub tile: Option<Vec<u64>>,
    /// bytes of the integers compressed
    pub width: u8,
    /// RICE: BLOCKSIZE, 0 when not written
    pub blocksize: u8,
    /// RICE: BYTEPIX written even when it is the default
    pub write_bytepix: bool,
    pub seed: u64,
    /// 0 smooth, 1 random small, 2 random full range, 3 constant, 4 extremes, 5 steps
    pub mode: u8,
    pub wide_desc: bool,
    pub quant: Option<Quant>,
    /// 0: COMPRESSED_DATA first; 1: last; 2, 3: other fields around
    pub layout: u8,
    pub reverse_heap: bool,
    pub gap: u8,
    /// stray choices of the RICE encoder: blocks coded otherwise than in the best way
    pub odd_blocks: bool,
    /// order of the keywords of the compression, numbers of the parameters, and other keywords
    /// among them; 0: the usual ones
    #[serde(default)]
    pub zorder: u64,
}

pub struct BuiltTile {
    pub cards: Vec<CardSpec>,
    pub data: Vec<u8>,
    /// integers, tile by tile
    pub ints: Vec<i32>,
    /// index in the image of each of them
    pub index: Vec<usize>,
    /// tile number and rank in the tile of each of them
    pub tile_of: Vec<(usize, usize)>,
    pub num_tiles: usize,
    pub scale: Vec<f64>,
    pub zero: Vec<f64>,
    pub blank: Vec<Option<i32>>,
    pub edge_tiles: bool,
    /// bytes of the main table
    pub main: usize,
    /// where in the main table the descriptors of the tiles are
    pub descriptors: Vec<usize>,
}

// ------------------------------------------------------------------ RICE

struct Bits {
    out: Vec<u8>,
    cur: u8,
    n: u8,
}

impl Bits {
    fn put(&mut self, v: u32, bits: u32) {
        for i in (0..bits).rev() {
            self.cur = self.cur << 1 | (v >> i & 1) as u8;
            self.n += 1;
            if self.n == 8 {
                self.out.push(self.cur);
                self.cur = 0;
                self.n = 0;
            }
        }
    }
    fn finish(mut self) -> Vec<u8> {
        while self.n != 0 {
            self.put(0, 1);
        }
        self.out
    }
}

/// RICE coding of integers of `width` bytes, blocks of `nblock` pixels
pub fn rice_encode(px: &[i32], width: u8, nblock: usize, odd: Option<u64>) -> Vec<u8> {
    let (fsbits, fsmax, bbits): (u32, u32, u32) = match width {
        1 => (3, 6, 8),
        2 => (4, 14, 16),
        _ => (5, 25, 32),
    };
    let mut seed = odd.unwrap_or(0);
    let mut w = Bits {
        out: vec![],
        cur: 0,
        n: 0,
    };
    let mask = if bbits == 32 {
        u32::MAX
    } else {
        (1 << bbits) - 1
    };
    w.put(px[0] as u32 & mask, bbits);
    let mut last = px[0];
    for block in px.chunks(nblock) {
        let mapped: Vec<u32> = block
            .iter()
            .map(|&p| {
                // difference modulo 2^bbits, then interleaving of the signs
                let d = p.wrapping_sub(last);
                let d: i32 = match width {
                    1 => d as i8 as i32,
                    2 => d as i16 as i32,
                    _ => d,
                };
                last = p;
                (if d < 0 { !((d as u32) << 1) } else { (d as u32) << 1 }) & mask
            })
            .collect();
        let sum: u64 = mapped.iter().map(|&m| m as u64).sum();
        let n = block.len() as u64;
        let mut psum = (sum.saturating_sub(n / 2 + 1) / n) >> 1;
        let mut fs = 0;
        while psum > 0 {
            fs += 1;
            psum >>= 1;
        }
        let mut high = fs >= fsmax;
        if odd.is_some() {
            match splitmix(&mut seed) % 4 {
                0 => high = true,
                1 if fs + 1 < fsmax => fs += 1,
                2 if fs > 0 && !high && mapped.iter().all(|m| m >> (fs - 1) < 2000) => fs -= 1,
                _ => {}
            }
        }
        if high {
            w.put(fsmax + 1, fsbits);
            for m in mapped {
                w.put(m, bbits);
            }
        } else if sum == 0 && fs == 0 {
            w.put(0, fsbits);
        } else {
            w.put(fs + 1, fsbits);
            for m in mapped {
                for _ in 0..m >> fs {
                    w.put(0, 1);
                }
                w.put(1, 1);
                if fs > 0 {
                    w.put(m & ((1 << fs) - 1), fs);
                }
            }
        }
    }
    w.finish()
}

fn gzip(bytes: &[u8], level: u32) -> Vec<u8> {
    let mut e = flate2::write::GzEncoder::new(vec![], flate2::Compression::new(level));
    e.write_all(bytes).unwrap();
    e.finish().unwrap()
}

fn be_bytes(v: i32, width: u8) -> Vec<u8> {
    match width {
        1 => vec![v as u8],
        2 => (v as i16).to_be_bytes().to_vec(),
        _ => v.to_be_bytes().to_vec(),
    }
}

// ------------------------------------------------------------------ dithering

/// The 10000 random numbers of the convention
pub fn rand_values() -> &'static [f32] {
    static R: OnceLock<Vec<f32>> = OnceLock::new();
    R.get_or_init(|| {
        let m = 2147483647u64;
        let mut seed = 1u64;
        let v = (0..10000)
            .map(|_| {
                seed = seed * 16807 % m;
                (seed as f64 / m as f64) as f32
            })
            .collect();
        // the check value of the convention
        assert_eq!(seed, 1043618065);
        v
    })
}

/// The random number of each of the `n` pixels of the tile `row` (from 0)
pub fn dither(row: usize, zdither0: i64, n: usize) -> Vec<f32> {
    let r = rand_values();
    let mut i0 = (row as i64 + zdither0 - 1).rem_euclid(10000) as usize;
    let mut i1 = (r[i0] * 500.0) as usize;
    (0..n)
        .map(|_| {
            let v = r[i1];
            i1 += 1;
            if i1 == 10000 {
                i0 = (i0 + 1) % 10000;
                i1 = (r[i0] * 500.0) as usize;
            }
            v
        })
        .collect()
}

pub const DITHER2_ZERO: i32 = -2147483647;

impl TileSpec {
    pub fn tile_sizes(&self) -> Vec<u64> {
        match &self.tile {
            Some(t) => t.clone(),
            None => self
                .naxis
                .iter()
                .enumerate()
                .map(|(i, &n)| if i == 0 { n } else { 1 })
                .collect(),
        }
    }

    /// The value of a compressed integer, in the range of the pixels
    fn pixel(&self, i: usize, seed: &mut u64) -> i32 {
        let r = splitmix(seed);
        let float = self.quant.is_some();
        let v: i64 = match self.mode {
            0 => 1000 + (i as i64 % 300) / 3 + (r % 5) as i64,
            1 => (r % 17) as i64 - 8,
            2 if float => (r as i64 >> 20) % 100_000,
            2 => r as i64,
            3 => 7,
            4 if float && r & 8 == 0 => [0, -1, 99_999, -99_999][r as usize % 4],
            4 => [
                i32::MIN as i64,
                i32::MAX as i64,
                0,
                -1,
                i16::MIN as i64,
                i16::MAX as i64,
                255,
                128,
            ][r as usize % 8],
            _ => {
                if (i / 37) % 2 == 0 {
                    20
                } else {
                    20 + (r % 3000) as i64
                }
            }
        };
        // the range of the pixels, which the compressed integers can hold
        match (self.zbitpix, self.width) {
            (8, _) => v as u8 as i32,
            (_, 1) => v as u8 as i32 & 0x7f,
            (16, _) | (_, 2) => v as i16 as i32,
            _ => v as i32,
        }
    }

    pub fn build(&self) -> BuiltTile {
        let t = self.tile_sizes();
        let dims = self.naxis.len();
        let ntiles: Vec<u64> = (0..dims).map(|i| self.naxis[i].div_ceil(t[i])).collect();
        let num_tiles = ntiles.iter().product::<u64>() as usize;
        let num_pixels = self.naxis.iter().product::<u64>() as usize;
        let mut seed = self.seed;
        let mut image: Vec<i32> = (0..num_pixels)
            .map(|i| self.pixel(i, &mut seed))
            .collect();

        let blank_value = match self.width {
            1 => 100,
            2 => -32768,
            _ => -2147483648,
        };
        if let Some(q) = &self.quant {
            for p in image.iter_mut() {
                let r = splitmix(&mut seed) % 16;
                if q.blank > 0 && r == 0 {
                    *p = blank_value;
                } else if q.method == 3 && r == 1 && self.width == 4 {
                    *p = DITHER2_ZERO;
                } else if (q.blank > 0 && *p == blank_value)
                    || (q.method == 3 && *p == DITHER2_ZERO + 1)
                {
                    // the last one is how cfitsio writes zero
                    *p = 3;
                }
            }
        }

        let mut ints = vec![];
        let mut index = vec![];
        let mut tile_of = vec![];
        let mut compressed: Vec<Vec<u8>> = vec![];
        let mut edge_tiles = false;
        let mut blanks = vec![];
        for tile in 0..num_tiles {
            // lower corner and size
            let mut n = tile as u64;
            let mut lo = vec![0; dims];
            let mut size = vec![0; dims];
            for i in 0..dims {
                lo[i] = (n % ntiles[i]) * t[i];
                n /= ntiles[i];
                size[i] = t[i].min(self.naxis[i] - lo[i]);
                edge_tiles |= size[i] != t[i];
            }
            let count = size.iter().product::<u64>();
            let mut px = vec![];
            for k in 0..count {
                let (mut k2, mut idx, mut stride) = (k, 0, 1);
                for i in 0..dims {
                    idx += (lo[i] + k2 % size[i]) * stride;
                    k2 /= size[i];
                    stride *= self.naxis[i];
                }
                px.push(image[idx as usize]);
                index.push(idx as usize);
                tile_of.push((tile, k as usize));
            }
            // the undefined value of the tile
            let tile_blank = match &self.quant {
                Some(q) if q.blank == 5 => {
                    [if self.width == 1 { 7 } else { 200 }, 42, 100][(self.seed as usize % 3 + tile * 7) % 3]
                }
                Some(q) if q.blank >= 2 => [blank_value, 42, 100][(self.seed as usize % 3 + tile * 7) % 3],
                _ => blank_value,
            };
            if self.quant.as_ref().is_some_and(|q| q.blank > 0) {
                for p in px.iter_mut() {
                    if *p == blank_value {
                        *p = tile_blank;
                    }
                }
            }
            blanks.push(tile_blank);
            let nblock = if self.blocksize == 0 {
                32
            } else {
                self.blocksize as usize
            };
            compressed.push(match self.cmp {
                Cmp::Rice => rice_encode(
                    &px,
                    self.width,
                    nblock,
                    self.odd_blocks.then_some(self.seed ^ tile as u64),
                ),
                Cmp::Gzip1 => {
                    let b: Vec<u8> = px.iter().flat_map(|&v| be_bytes(v, self.width)).collect();
                    gzip(&b, (self.seed % 10) as u32)
                }
                Cmp::Gzip2 => {
                    let b: Vec<Vec<u8>> = px.iter().map(|&v| be_bytes(v, self.width)).collect();
                    let b: Vec<u8> = (0..self.width as usize)
                        .flat_map(|k| b.iter().map(move |v| v[k]))
                        .collect();
                    gzip(&b, (self.seed % 10) as u32)
                }
            });
            ints.extend(px);
        }

        // columns
        #[derive(Clone, Copy, PartialEq)]
        enum F {
            Data,
            Scale,
            Zero,
            Blank,
            Other(char, usize),
            Array(bool),
            /// the other column of the convention, in which the tiles that could not be quantized are
            Gzip,
        }
        let mut fields = vec![F::Data];
        if let Some(q) = &self.quant {
            fields.push(F::Scale);
            fields.push(F::Zero);
            if q.blank >= 2 {
                fields.push(F::Blank);
            }
        }
        match self.layout {
            1 => fields.reverse(),
            2 => {
                fields.insert(0, F::Other('I', 3));
                fields.insert(2, F::Other('A', 5));
                fields.push(F::Other('X', 11));
                fields.push(F::Other('B', 0));
            }
            4 => {
                // other arrays in the heap
                fields.insert(0, F::Array(self.seed % 2 == 0));
                fields.insert(2, F::Array(self.seed % 3 == 0));
            }
            3 => {
                // fields of several values, of bits and empty, before the ones of the tiles
                fields.insert(0, F::Other('X', 9 + (self.seed % 60) as usize));
                fields.insert(1, F::Other('B', 0));
                if fields.len() > 3 {
                    fields.insert(3, F::Other('X', (self.seed >> 8) as usize % 18));
                    fields.insert(5, F::Other('I', (self.seed >> 16) as usize % 5));
                }
            }
            5 => {
                let at = self.seed as usize % (fields.len() + 1);
                fields.insert(at, F::Gzip);
            }
            _ => {}
        }
        let desc = if self.wide_desc { 'Q' } else { 'P' };
        let max = compressed.iter().map(Vec::len).max().unwrap_or(0);
        let fl = if self.quant.as_ref().is_some_and(|q| q.double_cols) {
            'D'
        } else {
            'E'
        };
        let bl = match self.quant.as_ref().map_or(0, |q| q.blank) {
            2 if self.width < 4 => 'I',
            4 => 'K',
            5 => 'B',
            _ => 'J',
        };
        let mut fcards = vec![];
        let mut naxis1 = 0;
        for (i, f) in fields.iter().enumerate() {
            let (name, form, bytes) = match f {
                F::Data => (
                    // the fallback name of the convention; the bytes are what ZCMPTYPE says in both
                    if self.cmp == Cmp::Gzip1 && self.quant.is_none() && self.layout != 5 && (self.seed >> 7) % 8 == 3 {
                        "GZIP_COMPRESSED_DATA"
                    } else {
                        "COMPRESSED_DATA"
                    },
                    format!("1{desc}B({max})"),
                    if self.wide_desc { 16 } else { 8 },
                ),
                F::Scale => ("ZSCALE", format!("1{fl}"), if fl == 'D' { 8 } else { 4 }),
                F::Zero => ("ZZERO", format!("1{fl}"), if fl == 'D' { 8 } else { 4 }),
                F::Blank => ("ZBLANK", format!("1{bl}"), match bl {
                    'I' => 2,
                    'B' => 1,
                    'K' => 8,
                    _ => 4,
                }),
                F::Gzip => ("GZIP_COMPRESSED_DATA", "1PB(0)".to_owned(), 8),
                F::Array(wide) => (
                    "OTHER",
                    if *wide { "1QJ(2)" } else { "PE(1)" }.to_owned(),
                    if *wide { 16 } else { 8 },
                ),
                F::Other(c, n) => (
                    "OTHER",
                    format!("{n}{c}"),
                    match c {
                        'I' => 2 * n,
                        'X' => n.div_ceil(8),
                        _ => *n,
                    },
                ),
            };
            naxis1 += bytes;
            fcards.push(string(&format!("TTYPE{}", i + 1), name));
            fcards.push(string(&format!("TFORM{}", i + 1), &form));
        }

        // heap
        let gap = self.gap as usize;
        let mut heap = vec![0x55u8; gap];
        let mut at = vec![0; num_tiles];
        let order: Vec<usize> = if self.reverse_heap {
            (0..num_tiles).rev().collect()
        } else {
            (0..num_tiles).collect()
        };
        for i in order {
            at[i] = heap.len() - gap;
            heap.extend_from_slice(&compressed[i]);
        }

        // rows
        let mut data = vec![];
        let mut descriptors = vec![];
        let (mut scale, mut zero, mut blank) = (vec![], vec![], vec![]);
        for i in 0..num_tiles {
            let r = splitmix(&mut seed);
            // single precision values, so that they are the same in both kinds of columns
            let s = [0.5f32, 1.0, 0.001, 12.25, 1e-6, -2.5, 1e15][(r % 7) as usize];
            let z = ([0.0f32, 1.5, -300.0, 1e4][(r >> 8) as usize % 4]) * s;
            scale.push(s as f64);
            zero.push(z as f64);
            blank.push(match &self.quant {
                // no integer of the tile has such a value
                Some(q) if q.blank == 4 && far_blank(self.seed, i) => None,
                Some(q) if q.blank > 0 => Some(blanks[i]),
                _ => None,
            });
            for f in &fields {
                if *f == F::Data {
                    descriptors.push(data.len());
                }
                match f {
                    F::Array(true) => {
                        data.extend(((r >> 16) % 3).to_be_bytes());
                        data.extend(((r >> 24) % 8).to_be_bytes());
                    }
                    F::Array(false) => {
                        data.extend(((r >> 16) as u32 % 2).to_be_bytes());
                        data.extend(((r >> 24) as u32 % 8).to_be_bytes());
                    }
                    F::Data if self.wide_desc => {
                        data.extend((compressed[i].len() as u64).to_be_bytes());
                        data.extend((at[i] as u64).to_be_bytes());
                    }
                    F::Data => {
                        data.extend((compressed[i].len() as u32).to_be_bytes());
                        data.extend((at[i] as u32).to_be_bytes());
                    }
                    F::Scale | F::Zero => {
                        let v = if *f == F::Scale { s } else { z };
                        if fl == 'D' {
                            data.extend((v as f64).to_be_bytes());
                        } else {
                            data.extend(v.to_be_bytes());
                        }
                    }
                    F::Blank => match bl {
                        'I' => data.extend((blanks[i] as i16).to_be_bytes()),
                        'B' => data.push(blanks[i] as u8),
                        'K' => {
                            let far = i64::from(far_blank(self.seed, i)) << 32;
                            data.extend((i64::from(blanks[i]) + far).to_be_bytes())
                        }
                        _ => data.extend(blanks[i].to_be_bytes()),
                    },
                    F::Gzip => data.extend([0; 8]),
                    F::Other('I', n) => data.extend(vec![0xab; 2 * n]),
                    F::Other('X', n) => data.extend(vec![0xcd; n.div_ceil(8)]),
                    F::Other(_, n) => data.extend(vec![b'T'; *n]),
                }
            }
        }
        assert_eq!(data.len(), naxis1 * num_tiles);
        let theap = data.len() + gap;
        data.extend_from_slice(&heap);

        let mut cards = vec![
            int("BITPIX", 8),
            int("NAXIS", 2),
            int("NAXIS1", naxis1 as i64),
            int("NAXIS2", num_tiles as i64),
            int("PCOUNT", heap.len() as i64),
            int("GCOUNT", 1),
            int("TFIELDS", fields.len() as i64),
        ];
        cards.extend(fcards);
        if gap > 0 {
            cards.push(int("THEAP", theap as i64));
        }
        let zcards = cards.len();
        cards.push(logical("ZIMAGE", true));
        cards.push(int("ZBITPIX", self.zbitpix));
        cards.push(int("ZNAXIS", dims as i64));
        for (i, n) in self.naxis.iter().enumerate() {
            cards.push(int(&format!("ZNAXIS{}", i + 1), *n as i64));
        }
        if let Some(t) = &self.tile {
            for (i, n) in t.iter().enumerate() {
                cards.push(int(&format!("ZTILE{}", i + 1), *n as i64));
            }
        }
        cards.push(string(
            "ZCMPTYPE",
            match (self.cmp, self.alias) {
                (Cmp::Gzip1, _) => "GZIP_1",
                (Cmp::Gzip2, _) => "GZIP_2",
                (Cmp::Rice, false) => "RICE_1",
                (Cmp::Rice, true) => "RICE_ONE",
            },
        ));
        if self.cmp == Cmp::Rice {
            let numbers = match (self.zorder >> 1) % 8 {
                0 => [2, 1, 3],
                1 => [1, 3, 2],
                2 => [3, 2, 1],
                3 => [12, 7, 1],
                4 => [99, 3, 40],
                5 => [100, 999, 5],
                _ => [1, 2, 3],
            };
            let mut n = 0;
            let mut parameter = |name: &str, value: i64| {
                cards.push(string(&format!("ZNAME{}", numbers[n]), name));
                cards.push(int(&format!("ZVAL{}", numbers[n]), value));
                n += 1;
            };
            if self.blocksize != 0 {
                parameter("BLOCKSIZE", self.blocksize as i64);
            }
            if self.width != 4 || self.write_bytepix {
                parameter("BYTEPIX", self.width as i64);
            }
            if (self.zorder >> 4) % 4 == 1 {
                parameter("SMOOTH", 1);
            }
        }
        if let Some(q) = &self.quant {
            match q.method {
                1 => cards.push(string("ZQUANTIZ", "NO_DITHER")),
                2 => cards.push(string("ZQUANTIZ", "SUBTRACTIVE_DITHER_1")),
                3 => cards.push(string("ZQUANTIZ", "SUBTRACTIVE_DITHER_2")),
                _ => {}
            }
            if let Some(z) = q.zdither0 {
                cards.push(int("ZDITHER0", z));
            }
            if q.blank == 1 {
                cards.push(int("ZBLANK", blank_value as i64));
            }
        }

        if self.zorder != 0 {
            // what a compressed image keeps of the original one, and what only looks like a
            // keyword of the compression
            let mut x = self.zorder;
            let other = [
                logical("ZSIMPLE", true),
                string("ZTENSION", "IMAGE"),
                int("ZPCOUNT", 7),
                int("ZGCOUNT", 1),
                logical("ZEXTEND", true),
                logical("ZBLOCKED", false),
                string("ZHECKSUM", "9aBB9YBB9aBB9YBB"),
                string("ZDATASUM", "2169861632"),
                string("EXTNAME", "COMPRESSED_IMAGE"),
                string("ANAME1", "BYTEPIX"),
                int("AVAL1", 5 - self.width as i64),
                string("MYNAME", "BLOCKSIZE"),
                int("MYVAL", 3),
                string("CMPTYPE", "GZIP_2"),
                int("BZNAXIS", 9),
                int("ZNAXIS9", 9),
                int("ZTILE9", 9),
            ];
            for card in other {
                if splitmix(&mut x) % 4 == 0 {
                    cards.push(card);
                }
            }
            if splitmix(&mut x) % 4 != 0 {
                for i in (zcards + 1..cards.len()).rev() {
                    let j = zcards + splitmix(&mut x) as usize % (i + 1 - zcards);
                    cards.swap(i, j);
                }
            }
        }

        BuiltTile {
            cards,
            data,
            ints,
            index,
            tile_of,
            num_tiles,
            scale,
            zero,
            blank,
            edge_tiles,
            main: naxis1 * num_tiles,
            descriptors,
        }
    }
}

/// Is the ZBLANK of a tile, on 64 bits, beyond what 32 bits hold?
fn far_blank(seed: u64, tile: usize) -> bool {
    (seed >> 20).wrapping_add(tile as u64) % 5 == 3
}

/// The value of each pixel of a floating point image, tile by tile, and the tolerance on it.
/// NaN: undefined pixel.
pub fn expected_floats(spec: &TileSpec, b: &BuiltTile) -> Vec<(f64, f64)> {
    let q = spec.quant.as_ref().unwrap();
    let mut counts = vec![0usize; b.num_tiles];
    for (t, _) in &b.tile_of {
        counts[*t] += 1;
    }
    let seqs: Vec<Vec<f32>> = if q.method >= 2 {
        (0..b.num_tiles)
            .map(|t| dither(t, q.zdither0.unwrap_or(1), counts[t]))
            .collect()
    } else {
        vec![]
    };
    b.ints
        .iter()
        .zip(&b.tile_of)
        .map(|(&v, &(t, k))| {
            if b.blank[t] == Some(v) {
                return (f64::NAN, 0.0);
            }
            if q.method == 3 && v == DITHER2_ZERO {
                return (0.0, 0.0);
            }
            let r = if q.method >= 2 {
                seqs[t][k] as f64
            } else {
                0.5
            };
            let x = (v as f64 - r + 0.5) * b.scale[t] + b.zero[t];
            let tol = 1e-6 * ((v as f64).abs() + 1.0) * b.scale[t].abs() + 1e-6 * b.zero[t].abs();
            (x, tol)
        })
        .collect()
}

/// A tile-compressed image of at most about `max` pixels
pub fn gen_tile(g: &mut Gen, float: bool, max: usize) -> TileSpec {
    let cmp = g.pick(&[Cmp::Rice, Cmp::Gzip1, Cmp::Gzip2]);
    let zbitpix = if float {
        g.pick(&[-32, -64])
    } else {
        g.pick(&[16, 32, 8])
    };
    let dims = g.weighted(&[1, 6, 3, 1]) + 1;
    let mut left = max.max(1);
    let naxis: Vec<u64> = (0..dims)
        .map(|i| {
            let hi = if i == 0 { left.min(200) } else { left.min(20) };
            let n = g.usize(1, hi.max(1));
            left = (left / n).max(1);
            n as u64
        })
        .collect();
    let tile = if g.chance(1, 4) {
        None
    } else {
        Some(
            naxis
                .iter()
                .map(|&n| match g.weighted(&[2, 4, 1]) {
                    0 => n,
                    1 => g.range(1, n),
                    // larger than the image
                    _ => n + g.range(1, 5),
                })
                .collect::<Vec<u64>>(),
        )
    };
    let width = if float {
        // gzip and rice of quantized floats: integers of 4 bytes, or less
        g.pick(&[4, 4, 2, 1])
    } else {
        match zbitpix {
            8 => g.pick(&[1, 1, 2, 4]),
            16 => g.pick(&[2, 2, 4]),
            _ => 4,
        }
    };
    // the number of tiles is kept small
    let tile = tile.map(|t: Vec<u64>| {
        let n: u64 = naxis
            .iter()
            .zip(&t)
            .map(|(n, t)| n.div_ceil(*t))
            .product();
        if n > 150 {
            naxis.clone()
        } else {
            t
        }
    });
    TileSpec {
        cmp,
        alias: g.bool(),
        zbitpix,
        naxis,
        tile,
        width,
        blocksize: g.pick(&[0, 16, 32, 1, 7, 33, 64, 255]),
        write_bytepix: g.bool(),
        seed: g.u64(),
        mode: g.weighted(&[3, 3, 3, 1, 2, 2]) as u8,
        wide_desc: g.chance(1, 3),
        quant: if float {
            Some(Quant {
                method: g.weighted(&[1, 1, 3, 3]) as u8,
                zdither0: if g.chance(3, 4) {
                    Some(match g.weighted(&[3, 1, 1]) {
                        0 => g.range(1, 10000) as i64,
                        1 => 1,
                        _ => 10000 - g.range(0, 20) as i64,
                    })
                } else {
                    None
                },
                blank: g.weighted(&[4, 4, 2, 4, 1, 1]) as u8,
                double_cols: g.bool(),
            })
        } else {
            None
        },
        layout: g.weighted(&[3, 1, 2, 2, 1, 1]) as u8,
        reverse_heap: g.chance(1, 3),
        gap: if g.chance(1, 4) {
            g.range(1, 40) as u8
        } else {
            0
        },
        odd_blocks: g.chance(1, 3),
        zorder: if g.chance(1, 2) { g.u64() } else { 0 },
    }
}
