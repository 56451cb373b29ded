//! FITS files: a specification, its bytes, and the reference model of what reading them must give.

use crate::cards::*;
use crate::engine::{splitmix, Gen};
use crate::tiles::TileSpec;
use fitsrs::card::Card;
use fitsrs::hdu::data::bintable::{ColumnId, DataValue};
use serde::{Deserialize, Serialize};

pub const BLOCK: usize = 2880;

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Blob {
    pub seed: u64,
    /// 0 random, 1 extreme values, 2 text looking like headers, 3 zeros, 4 small values, 5 all 0xFF, 6 text
    pub mode: u8,
}

impl Blob {
    pub fn bytes(&self, len: usize) -> Vec<u8> {
        let mut seed = self.seed;
        match self.mode {
            3 => vec![0; len],
            5 => vec![0xff; len],
            6 => (0..len)
                .map(|_| b" 0123456789+-.ED TF"[splitmix(&mut seed) as usize % 19])
                .collect(),
            2 => {
                // cards, in a data unit
                let cards: [&[u8]; 5] = [
                    b"END                                                                             ",
                    b"XTENSION= 'IMAGE   '                                                            ",
                    b"SIMPLE  =                    T                                                  ",
                    b"BITPIX  =                    8                                                  ",
                    b"                                                                                ",
                ];
                let mut out = Vec::with_capacity(len + 80);
                while out.len() < len {
                    out.extend_from_slice(cards[splitmix(&mut seed) as usize % 5]);
                }
                out.truncate(len);
                out
            }
            _ => {
                let mut out = Vec::with_capacity(len + 8);
                while out.len() < len {
                    let r = splitmix(&mut seed);
                    let w: [u8; 8] = match self.mode {
                        1 => match r % 8 {
                            0 => i64::MIN.to_be_bytes(),
                            1 => i64::MAX.to_be_bytes(),
                            2 => [0x80, 0, 0x7f, 0xff, 0x80, 0, 0, 0],
                            3 => f64::NAN.to_be_bytes(),
                            4 => [0x7f, 0xa0, 0, 1, 0xff, 0x80, 0, 0],
                            5 => (-0.0f64).to_be_bytes(),
                            6 => [0xff; 8],
                            _ => r.to_be_bytes(),
                        },
                        4 => [0, 0, 0, (r & 7) as u8, 0, 0, 0, (r >> 8 & 7) as u8],
                        _ => r.to_be_bytes(),
                    };
                    out.extend_from_slice(&w);
                }
                out.truncate(len);
                out
            }
        }
    }
}

pub fn gen_blob(g: &mut Gen) -> Blob {
    Blob {
        mode: g.weighted(&[5, 3, 2, 1, 1, 1]) as u8,
        seed: g.u64(),
    }
}

// ------------------------------------------------------------------ binary tables

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Col {
    /// one of LXBIJKAEDCMPQ
    pub ty: char,
    pub repeat: usize,
    /// the element type of an array descriptor
    pub elem: char,
    pub name: Option<String>,
    /// 0: repeat count written, 1: implied when it is 1, 2: something follows the type
    pub style: u8,
}

pub const SCALARS: &[char] = &['L', 'X', 'B', 'I', 'J', 'K', 'A', 'E', 'D', 'C', 'M'];

pub fn elem_size(ty: char) -> usize {
    match ty {
        'L' | 'B' | 'A' | 'X' => 1,
        'I' => 2,
        'J' | 'E' => 4,
        'K' | 'D' | 'C' | 'P' => 8,
        'M' | 'Q' => 16,
        _ => unreachable!(),
    }
}

impl Col {
    pub fn is_desc(&self) -> bool {
        self.ty == 'P' || self.ty == 'Q'
    }
    pub fn num_bytes(&self) -> usize {
        match self.ty {
            'X' => self.repeat.div_ceil(8),
            'P' | 'Q' => elem_size(self.ty) * self.repeat.min(1),
            t => elem_size(t) * self.repeat,
        }
    }
    pub fn tform(&self, max: u64) -> String {
        let rep = if self.style == 1 && self.repeat == 1 {
            String::new()
        } else {
            self.repeat.to_string()
        };
        let ty = self.ty;
        if self.is_desc() {
            let e = self.elem;
            if self.style == 2 {
                format!("{rep}{ty}{e}")
            } else {
                format!("{rep}{ty}{e}({max})")
            }
        } else if self.style == 2 && ty == 'A' {
            format!("{rep}A{}", self.repeat.max(1))
        } else {
            format!("{rep}{ty}")
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct TableSpec {
    pub cols: Vec<Col>,
    pub rows: usize,
    pub blob: Blob,
    /// bytes between the main table and the heap
    pub gap: usize,
    pub theap: bool,
    /// 0: arrays stored in order, 1: in reverse order, 2: all sharing the same bytes, 3: shuffled with holes
    pub heap_order: u8,
    pub max_len: usize,
    /// bytes after the last array
    pub heap_tail: usize,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum V {
    L(bool),
    X(u8),
    B(u8),
    I(i16),
    J(i32),
    K(i64),
    A(char),
    E(u32),
    D(u64),
    C(u32, u32),
    M(u64, u64),
    Desc32(u32, u32),
    Desc64(u64, u64),
}

/// column, index in the column, value
pub type Cell = (usize, usize, V);

pub fn cell(v: &DataValue) -> Cell {
    let c = |c: &ColumnId| match c {
        ColumnId::Index(i) => *i,
        ColumnId::Name(_) => usize::MAX,
    };
    match v {
        DataValue::Logical { value, column, idx } => (c(column), *idx, V::L(*value)),
        DataValue::Bit {
            byte,
            bit_idx,
            column,
            idx,
        } => {
            assert_eq!(*bit_idx, 0, "bit_idx");
            (c(column), *idx, V::X(*byte))
        }
        DataValue::UnsignedByte { value, column, idx } => (c(column), *idx, V::B(*value)),
        DataValue::Short { value, column, idx } => (c(column), *idx, V::I(*value)),
        DataValue::Integer { value, column, idx } => (c(column), *idx, V::J(*value)),
        DataValue::Long { value, column, idx } => (c(column), *idx, V::K(*value)),
        DataValue::Character { value, column, idx } => (c(column), *idx, V::A(*value)),
        DataValue::Float { value, column, idx } => (c(column), *idx, V::E(value.to_bits())),
        DataValue::Double { value, column, idx } => (c(column), *idx, V::D(value.to_bits())),
        DataValue::ComplexFloat {
            real,
            imag,
            column,
            idx,
        } => (c(column), *idx, V::C(real.to_bits(), imag.to_bits())),
        DataValue::ComplexDouble {
            real,
            imag,
            column,
            idx,
        } => (c(column), *idx, V::M(real.to_bits(), imag.to_bits())),
        DataValue::VariableLengthArray32 {
            num_elems,
            offset_byte,
        } => (usize::MAX, 0, V::Desc32(*num_elems, *offset_byte)),
        DataValue::VariableLengthArray64 {
            num_elems,
            offset_byte,
        } => (usize::MAX, 0, V::Desc64(*num_elems, *offset_byte)),
    }
}

fn be<const N: usize>(b: &[u8], i: usize) -> [u8; N] {
    b[i..i + N].try_into().unwrap()
}

/// The values of a field stored in `b`, `n` elements of type `ty`
pub fn decode_field(ty: char, n: usize, b: &[u8], col: usize, out: &mut Vec<Cell>) {
    let n = if ty == 'X' { n.div_ceil(8) } else { n };
    let size = elem_size(ty);
    for idx in 0..n {
        let i = idx * size;
        let v = match ty {
            'L' => V::L(b[i] == b'T'),
            'X' => V::X(b[i]),
            'B' => V::B(b[i]),
            'A' => V::A(b[i] as char),
            'I' => V::I(i16::from_be_bytes(be(b, i))),
            'J' => V::J(i32::from_be_bytes(be(b, i))),
            'K' => V::K(i64::from_be_bytes(be(b, i))),
            'E' => V::E(u32::from_be_bytes(be(b, i))),
            'D' => V::D(u64::from_be_bytes(be(b, i))),
            'C' => V::C(
                u32::from_be_bytes(be(b, i)),
                u32::from_be_bytes(be(b, i + 4)),
            ),
            'M' => V::M(
                u64::from_be_bytes(be(b, i)),
                u64::from_be_bytes(be(b, i + 8)),
            ),
            _ => unreachable!(),
        };
        out.push((col, idx, v));
    }
}

pub struct BuiltTable {
    pub naxis1: usize,
    pub main: Vec<u8>,
    pub theap: usize,
    /// gap + heap
    pub tail: Vec<u8>,
    pub max_elems: Vec<u64>,
    /// expected values, row by row
    pub rows: Vec<Vec<Cell>>,
    pub descriptors: Vec<Vec<(u64, u64)>>,
    pub non_empty_arrays: usize,
}

impl TableSpec {
    pub fn naxis1(&self) -> usize {
        self.cols.iter().map(Col::num_bytes).sum()
    }

    pub fn build(&self) -> BuiltTable {
        let naxis1 = self.naxis1();
        let mut main = self.blob.bytes(naxis1 * self.rows);
        let mut seed = self.blob.seed ^ 0x5eed;

        // logical fields hold T, F, 0 and sometimes something else
        let mut off = 0;
        for col in &self.cols {
            let nb = col.num_bytes();
            if col.ty == 'L' {
                for r in 0..self.rows {
                    for b in &mut main[r * naxis1 + off..r * naxis1 + off + nb] {
                        let x = splitmix(&mut seed);
                        *b = match x % 8 {
                            0..=2 => b'T',
                            3..=4 => b'F',
                            5 => 0,
                            6 => b't',
                            _ => (x >> 8) as u8,
                        };
                    }
                }
            }
            off += nb;
        }

        // arrays
        struct Arr {
            row: usize,
            col: usize,
            off: usize,
            n: usize,
            bytes: usize,
            at: usize,
        }
        let mut arrays = vec![];
        let mut max_elems = vec![0; self.cols.len()];
        for row in 0..self.rows {
            let mut off = 0;
            for (c, col) in self.cols.iter().enumerate() {
                if col.is_desc() && col.repeat > 0 {
                    let x = splitmix(&mut seed);
                    let n = match x % 4 {
                        0 => 0,
                        _ => (x >> 8) as usize % (self.max_len + 1),
                    };
                    let bytes = if col.elem == 'X' {
                        n.div_ceil(8)
                    } else {
                        n * elem_size(col.elem)
                    };
                    max_elems[c] = max_elems[c].max(n as u64);
                    arrays.push(Arr {
                        row,
                        col: c,
                        off,
                        n,
                        bytes,
                        at: 0,
                    });
                }
                off += col.num_bytes();
            }
        }
        let mut order: Vec<usize> = (0..arrays.len()).collect();
        match self.heap_order {
            1 => order.reverse(),
            3 => {
                for i in (1..order.len()).rev() {
                    let j = splitmix(&mut seed) as usize % (i + 1);
                    order.swap(i, j);
                }
            }
            _ => {}
        }
        let mut heap_len = 0;
        for &i in &order {
            if self.heap_order == 2 {
                arrays[i].at = if splitmix(&mut seed) % 2 == 0 { 0 } else { 1 };
                heap_len = heap_len.max(arrays[i].at + arrays[i].bytes);
            } else {
                if self.heap_order == 3 {
                    heap_len += splitmix(&mut seed) as usize % 4;
                }
                arrays[i].at = heap_len;
                heap_len += arrays[i].bytes;
            }
        }
        let gap = if self.theap { self.gap } else { 0 };
        let mut tail = Blob {
            seed: self.blob.seed ^ 0x4ea9,
            mode: self.blob.mode,
        }
        .bytes(gap + heap_len + self.heap_tail);
        // make some logical values true
        for b in tail.iter_mut() {
            if splitmix(&mut seed) % 16 == 0 {
                *b = b'T';
            }
        }

        let mut descriptors = vec![vec![]; self.rows];
        let mut non_empty_arrays = 0;
        for a in &arrays {
            non_empty_arrays += (a.n > 0) as usize;
            let p = a.row * naxis1 + a.off;
            // the offset of an empty array means nothing
            let at = if a.n == 0 && splitmix(&mut seed) % 2 == 0 {
                0x7fff_0000 + (a.row as u64)
            } else {
                a.at as u64
            };
            descriptors[a.row].push((a.n as u64, at));
            if self.cols[a.col].ty == 'P' {
                main[p..p + 4].copy_from_slice(&(a.n as u32).to_be_bytes());
                main[p + 4..p + 8].copy_from_slice(&(at as u32).to_be_bytes());
            } else {
                main[p..p + 8].copy_from_slice(&(a.n as u64).to_be_bytes());
                main[p + 8..p + 16].copy_from_slice(&at.to_be_bytes());
            }
        }

        // expected values
        let mut rows = vec![];
        let mut next_array = 0;
        for r in 0..self.rows {
            let mut out = vec![];
            let mut p = r * naxis1;
            for (c, col) in self.cols.iter().enumerate() {
                if col.is_desc() {
                    if col.repeat > 0 {
                        let a = &arrays[next_array];
                        next_array += 1;
                        let s = gap + a.at;
                        decode_field(col.elem, a.n, &tail[s..s + a.bytes], c, &mut out);
                    }
                } else {
                    decode_field(
                        col.ty,
                        col.repeat,
                        &main[p..p + col.num_bytes()],
                        c,
                        &mut out,
                    );
                }
                p += col.num_bytes();
            }
            rows.push(out);
        }

        BuiltTable {
            naxis1,
            theap: main.len() + gap,
            main,
            tail,
            max_elems,
            rows,
            descriptors,
            non_empty_arrays,
        }
    }

    pub fn cards(&self, b: &BuiltTable) -> Vec<CardSpec> {
        let mut cards = vec![
            int("BITPIX", 8),
            int("NAXIS", 2),
            int("NAXIS1", b.naxis1 as i64),
            int("NAXIS2", self.rows as i64),
            int("PCOUNT", b.tail.len() as i64),
            int("GCOUNT", 1),
            int("TFIELDS", self.cols.len() as i64),
        ];
        if self.theap {
            cards.push(int("THEAP", b.theap as i64));
        }
        for (i, c) in self.cols.iter().enumerate() {
            if let Some(n) = &c.name {
                cards.push(string(&format!("TTYPE{}", i + 1), n));
            }
            cards.push(string(&format!("TFORM{}", i + 1), &c.tform(b.max_elems[i])));
        }
        cards
    }
}

pub const NAMES: &[&str] = &[
    "ra", "dec", "mag", "FLUX", "id", "name", "x", "y", "z_flag", "obs-1", "RA", "RA2000", "m", "f0",
];

pub fn gen_col(g: &mut Gen, vla: u64) -> Col {
    // vla out of 10 columns are descriptors
    let desc = vla > 0 && g.chance(vla, 10);
    let ty = if desc {
        g.pick(&['P', 'Q'])
    } else {
        g.pick(SCALARS)
    };
    let repeat = if desc {
        if g.chance(1, 12) {
            0
        } else {
            1
        }
    } else {
        match g.weighted(&[6, 6, 1, 1]) {
            0 => 1,
            1 => g.usize(0, 9),
            2 => g.usize(8, 40),
            _ => g.usize(0, 200),
        }
    };
    Col {
        ty,
        repeat,
        elem: if desc { g.pick(SCALARS) } else { 'B' },
        name: if g.chance(4, 5) {
            Some(g.pick(NAMES).to_owned())
        } else {
            None
        },
        style: g.weighted(&[3, 2, 1]) as u8,
    }
}

pub fn gen_table(g: &mut Gen, vla: u64) -> TableSpec {
    let ncols = match g.weighted(&[10, 4, 1]) {
        0 => g.usize(1, 5),
        1 => g.usize(1, 14),
        _ => g.usize(10, 60),
    };
    let cols: Vec<Col> = (0..ncols).map(|_| gen_col(g, vla)).collect();
    let rows = match g.weighted(&[8, 3, 1]) {
        0 => g.usize(0, 6),
        1 => g.usize(2, 30),
        _ => g.usize(30, 120),
    };
    // keep tables small
    let naxis1: usize = cols.iter().map(Col::num_bytes).sum();
    let rows = if naxis1 > 0 {
        rows.min(60_000 / naxis1)
    } else {
        rows
    };
    let theap = g.chance(1, 3);
    TableSpec {
        rows,
        blob: gen_blob(g),
        gap: if theap && g.bool() { g.usize(1, 50) } else { 0 },
        theap,
        heap_order: g.weighted(&[3, 2, 1, 2]) as u8,
        max_len: g.usize(1, 9),
        heap_tail: if g.chance(1, 4) { g.usize(0, 40) } else { 0 },
        cols,
    }
}

// ------------------------------------------------------------------ ASCII tables

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct AsciiCol {
    /// A I F E D
    pub ty: char,
    pub w: usize,
    pub d: usize,
    pub tbcol: u64,
    pub name: Option<String>,
    /// 0 valid, else what makes the field unusable: 1 no TFORM, 2 unknown format, 3 no width, 4 no
    /// TBCOL, 5 TBCOL is a string, 6 neither TBCOL nor TFORM, 7 no number of decimals or empty
    #[serde(default)]
    pub bad: u8,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct AsciiSpec {
    pub cols: Vec<AsciiCol>,
    pub naxis1: usize,
    pub rows: usize,
    pub blob: Blob,
}

impl AsciiSpec {
    pub fn cards(&self) -> Vec<CardSpec> {
        let mut cards = vec![
            int("BITPIX", 8),
            int("NAXIS", 2),
            int("NAXIS1", self.naxis1 as i64),
            int("NAXIS2", self.rows as i64),
            int("PCOUNT", 0),
            int("GCOUNT", 1),
            int("TFIELDS", self.cols.len() as i64),
        ];
        for (i, c) in self.cols.iter().enumerate() {
            if let Some(n) = &c.name {
                cards.push(string(&format!("TTYPE{}", i + 1), n));
            }
            match c.bad {
                4 | 6 => {}
                5 => cards.push(string(&format!("TBCOL{}", i + 1), &c.tbcol.to_string())),
                _ => cards.push(int(&format!("TBCOL{}", i + 1), c.tbcol as i64)),
            }
            let tform = match (c.bad, c.ty) {
                (1 | 6, _) => continue,
                (2, _) => format!("Z{}.{}", c.w, c.d),
                (3, ty) => format!("{ty}"),
                (7, 'A' | 'I') => String::new(),
                (7, ty) => format!("{ty}{}", c.w),
                (_, 'A' | 'I') => format!("{}{}", c.ty, c.w),
                _ => format!("{}{}.{}", c.ty, c.w, c.d),
            };
            cards.push(string(&format!("TFORM{}", i + 1), &tform));
        }
        cards
    }
}

pub fn gen_ascii(g: &mut Gen) -> AsciiSpec {
    let ncols = g.usize(0, 8);
    let mut pos = 1;
    let mut cols = vec![];
    for _ in 0..ncols {
        pos += g.usize(0, 2);
        let ty = g.pick(&['A', 'I', 'F', 'E', 'D']);
        let w = if g.chance(1, 15) { g.usize(25, 1200) } else { g.usize(1, 24) };
        let d = g.usize(0, w);
        cols.push(AsciiCol {
            ty,
            w,
            d,
            tbcol: pos as u64,
            bad: 0,
            name: if g.chance(2, 3) {
                Some(g.pick(NAMES).to_owned())
            } else {
                None
            },
        });
        pos += w;
    }
    AsciiSpec {
        cols,
        naxis1: pos - 1 + g.usize(0, 3),
        rows: match g.weighted(&[4, 1]) {
            0 => g.usize(0, 12),
            _ => g.usize(0, 120),
        },
        blob: gen_blob(g),
    }
}

// ------------------------------------------------------------------ files

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct ImageSpec {
    pub bitpix: i64,
    pub naxis: Vec<u64>,
    pub blob: Blob,
}

pub const BITPIX: &[i64] = &[8, 16, 32, 64, -32, -64];

impl ImageSpec {
    pub fn num_pixels(&self) -> usize {
        if self.naxis.is_empty() {
            0
        } else {
            self.naxis.iter().product::<u64>() as usize
        }
    }
    pub fn size(&self) -> usize {
        self.num_pixels() * (self.bitpix.unsigned_abs() as usize / 8)
    }
    pub fn cards(&self) -> Vec<CardSpec> {
        let mut cards = vec![
            int("BITPIX", self.bitpix),
            int("NAXIS", self.naxis.len() as i64),
        ];
        for (i, n) in self.naxis.iter().enumerate() {
            cards.push(int(&format!("NAXIS{}", i + 1), *n as i64));
        }
        cards
    }
}

/// An image of at most about `max` bytes
pub fn gen_image(g: &mut Gen, max: usize) -> ImageSpec {
    let bitpix = g.pick(BITPIX);
    let size = bitpix.unsigned_abs() as usize / 8;
    let max_pix = (max / size).max(1);
    let naxis: Vec<u64> = match g.weighted(&[2, 8, 3, 3, 1, 1]) {
        0 => vec![],
        // around the limits of a block
        2 => {
            let k = g.usize(1, (max / BLOCK).clamp(1, 3));
            let n = k * BLOCK / size;
            vec![(n + g.usize(0, 2)).saturating_sub(g.usize(0, 1)) as u64]
        }
        1 => {
            let a = g.usize(1, 12.min(max_pix));
            let b = g.usize(1, (max_pix / a).clamp(1, 12));
            vec![a as u64, b as u64]
        }
        3 => {
            let n = g.usize(1, 4);
            let mut left = max_pix;
            (0..n)
                .map(|_| {
                    let a = g.usize(1, left.clamp(1, 40));
                    left /= a;
                    a as u64
                })
                .collect()
        }
        4 => {
            // many axes
            let n = g.usize(5, 30);
            (0..n).map(|i| if i % 9 == 0 { 2 } else { 1 }).collect()
        }
        _ => {
            // an empty axis
            let n = g.usize(1, 4);
            let z = g.usize(0, n - 1);
            (0..n)
                .map(|i| if i == z { 0 } else { g.range(1, 9) })
                .collect()
        }
    };
    ImageSpec {
        bitpix,
        naxis,
        blob: gen_blob(g),
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Body {
    Image(ImageSpec),
    Bin(TableSpec),
    Ascii(AsciiSpec),
    Tile(TileSpec),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct HduSpec {
    pub body: Body,
    pub extra: Vec<CardSpec>,
    /// number of cards wanted modulo 36 (0: as it comes; 36: a multiple of 36), reached with blank cards
    pub fill: u8,
    /// how the mandatory cards are written (modulo 4), and the order of those after TFIELDS
    pub style: u8,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct FileSpec {
    pub hdus: Vec<HduSpec>,
    /// the last data unit is followed by its padding
    pub pad_last: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Primary,
    Image,
    Bin,
    Ascii,
}

pub struct BuiltHdu {
    pub kind: Kind,
    pub cards: Vec<CardSpec>,
    pub header_off: u64,
    pub data_off: u64,
    pub data: Vec<u8>,
    pub table: Option<BuiltTable>,
}

impl BuiltHdu {
    pub fn expected_cards(&self) -> Vec<Card> {
        self.cards.iter().map(CardSpec::expected).collect()
    }
}

pub struct Built {
    pub bytes: Vec<u8>,
    pub hdus: Vec<BuiltHdu>,
}

pub fn header_bytes(cards: &[CardSpec]) -> Vec<u8> {
    let mut out = Vec::new();
    for c in cards {
        out.extend_from_slice(&c.render());
    }
    pad(&mut out, b' ');
    out
}

pub fn pad(out: &mut Vec<u8>, with: u8) {
    let n = out.len().div_ceil(BLOCK) * BLOCK;
    out.resize(n, with);
}

impl HduSpec {
    /// The cards, END included, and the data unit
    pub fn unit(&self, primary: bool) -> (Kind, Vec<CardSpec>, Vec<u8>, Option<BuiltTable>) {
        let (kind, ext, mut cards, data, table) = match &self.body {
            Body::Image(s) => (
                if primary { Kind::Primary } else { Kind::Image },
                Ext::Image,
                s.cards(),
                s.blob.bytes(s.size()),
                None,
            ),
            Body::Bin(s) => {
                let b = s.build();
                let mut data = b.main.clone();
                data.extend_from_slice(&b.tail);
                (Kind::Bin, Ext::Bin, s.cards(&b), data, Some(b))
            }
            Body::Ascii(s) => (
                Kind::Ascii,
                Ext::Ascii,
                s.cards(),
                s.blob.bytes(s.naxis1 * s.rows),
                None,
            ),
            Body::Tile(s) => {
                let b = s.build();
                (Kind::Bin, Ext::Bin, b.cards, b.data, None)
            }
        };
        if matches!(self.body, Body::Image(_)) && !primary {
            cards.push(int("PCOUNT", 0));
            cards.push(int("GCOUNT", 1));
        }
        let mut all = vec![if primary {
            logical("SIMPLE", true)
        } else {
            CardSpec::Xtension {
                kind: ext,
                text: match (ext, self.style % 4) {
                    // another name of the same, not padded
                    (Ext::Image, 3) => "IUEIMAGE".to_owned(),
                    (_, 2) => ext.name().to_owned(),
                    _ => format!("{:<8}", ext.name()),
                },
                comment: (self.style % 2 == 1).then(|| " extension".to_owned()),
            }
        }];
        let style = self.style % 4;
        all.extend(
            cards
                .into_iter()
                .enumerate()
                .map(|(i, c)| restyle(c, if style == 0 { 0 } else { style.wrapping_add(i as u8) })),
        );
        let order = self.style / 4;
        let tfields = all
            .iter()
            .position(|c| matches!(c, CardSpec::Value { name, .. } if name == "TFIELDS"));
        let mut extra: Vec<CardSpec> = self.extra.clone();
        if let (Some(i), true) = (tfields, order > 0) {
            // the cards of the fields come in any order, some of them after the other cards
            let mut last = all.split_off(i + 1);
            let mut x = order as u64;
            match order {
                1 => last.sort_by_key(|c| c.render()),
                2 => last.reverse(),
                _ => {
                    for i in (1..last.len()).rev() {
                        last.swap(i, splitmix(&mut x) as usize % (i + 1));
                    }
                }
            }
            if order % 2 == 0 {
                let at = splitmix(&mut x) as usize % (last.len() + 1);
                extra.extend(last.split_off(at));
            }
            all.extend(last);
        }
        all.extend(extra);
        if self.fill > 0 {
            while (all.len() + 1) % 36 != self.fill as usize % 36 {
                all.push(CardSpec::Space);
            }
        }
        all.push(CardSpec::End);
        (kind, all, data, table)
    }
}

impl FileSpec {
    pub fn build(&self) -> Built {
        let mut bytes = vec![];
        let mut hdus = vec![];
        for (i, h) in self.hdus.iter().enumerate() {
            let (kind, cards, data, table) = h.unit(i == 0);
            let header_off = bytes.len() as u64;
            bytes.extend(header_bytes(&cards));
            let data_off = bytes.len() as u64;
            bytes.extend_from_slice(&data);
            if i + 1 < self.hdus.len() || self.pad_last {
                pad(&mut bytes, if kind == Kind::Ascii { b' ' } else { 0 });
            }
            hdus.push(BuiltHdu {
                kind,
                cards,
                header_off,
                data_off,
                data,
                table,
            });
        }
        Built { bytes, hdus }
    }
}

pub fn gen_style(g: &mut Gen) -> u8 {
    let order = if g.chance(1, 3) { g.range(1, 63) as u8 } else { 0 };
    g.weighted(&[3, 1, 1, 1]) as u8 + 4 * order
}

pub fn gen_fill(g: &mut Gen) -> u8 {
    match g.weighted(&[4, 2, 1, 1, 1]) {
        0 => 0,
        1 => 36,
        2 => 1,
        3 => 35,
        _ => g.range(1, 36) as u8,
    }
}

pub fn gen_extras(g: &mut Gen) -> Vec<CardSpec> {
    let n = match g.weighted(&[4, 3, 1]) {
        0 => 0,
        1 => g.usize(0, 5),
        _ => g.usize(0, 40),
    };
    (0..n).map(|_| gen_extra(g)).collect()
}

pub fn gen_hdu(g: &mut Gen, primary: bool, max: usize) -> HduSpec {
    let which = if primary {
        0
    } else {
        g.weighted(&[4, 4, 2, 1])
    };
    let (decoy, x) = (g.chance(1, 8), g.range(0, 5));
    let body = match which {
        0 => Body::Image(gen_image(g, max)),
        1 => Body::Bin(gen_table(g, 3)),
        2 => Body::Ascii(gen_ascii(g)),
        _ => Body::Tile(crate::tiles::gen_tile(g, false, 400)),
    };
    let mut extra = gen_extras(g);
    if decoy {
        // one axis or field more than there are, which does not count
        extra.push(match &body {
            Body::Image(i) => int(&format!("NAXIS{}", i.naxis.len() + 1), x as i64),
            Body::Bin(t) if x < 2 => string(&format!("TTYPE{}", t.cols.len() + 1), "MORE"),
            Body::Bin(t) => {
                let n = if x == 2 { 0 } else { t.cols.len() + 1 };
                string(&format!("TFORM{n}"), "1J")
            }
            Body::Ascii(t) if x < 2 => int(&format!("TBCOL{}", t.cols.len() + 1), 1),
            Body::Ascii(t) => string(&format!("TFORM{}", t.cols.len() + 1), "I4"),
            Body::Tile(t) => int(&format!("ZNAXIS{}", t.naxis.len() + 1), x as i64),
        });
    }
    HduSpec {
        body,
        extra,
        fill: gen_fill(g),
        style: gen_style(g),
    }
}

pub fn gen_file(g: &mut Gen, max_hdus: usize, max: usize) -> FileSpec {
    let n = g.usize(1, max_hdus);
    FileSpec {
        hdus: (0..n).map(|i| gen_hdu(g, i == 0, max)).collect(),
        pad_last: !g.chance(1, 4),
    }
}

/// Many cards of several kinds, all the keywords being different
pub fn many_cards(seed: u64, n: usize) -> Vec<CardSpec> {
    let mut s = seed;
    let kind = splitmix(&mut s) % 5;
    (0..n)
        .map(|i| {
            let x = splitmix(&mut s);
            match if kind == 4 { x % 4 } else { kind } {
                0 => CardSpec::History(format!("step {i} {x:x}")),
                1 => CardSpec::Comment(format!("{x} {i}")),
                2 => int(&format!("K{i}"), x as i64 >> (x % 60)),
                _ => string(&format!("S{i}"), &format!("{x:x}")),
            }
        })
        .collect()
}

/// 1 to 3 HDUs, the header of one of them, often the last, having hundreds or thousands of cards
pub fn gen_many(g: &mut Gen) -> FileSpec {
    let n = match g.weighted(&[3, 2, 1, 1]) {
        0 => g.usize(30, 1200),
        // about 65536 bytes
        1 => g.usize(790, 830),
        2 => g.usize(1200, 7000),
        // the rest of the header has about 5 cards
        _ => 36 * g.usize(1, 60) - g.usize(0, 12),
    };
    let (seed, at, axes) = (g.u64(), g.weighted(&[6, 1, 1]), g.chance(1, 5));
    let (style, bitpix, long) = (g.weighted(&[5, 1, 1]) as u8, g.pick(BITPIX), g.usize(10, 999));
    let mut file = gen_file(g, 3, 3000);
    let at = (file.hdus.len() - 1).saturating_sub(at);
    let h = &mut file.hdus[at];
    h.style = style;
    h.extra = many_cards(seed, n);
    if axes {
        h.extra.truncate(40);
        let mut naxis = vec![1; long];
        let mut s = seed;
        for a in [2, 3, 5] {
            naxis[splitmix(&mut s) as usize % long] = a;
        }
        h.body = Body::Image(ImageSpec {
            bitpix,
            naxis,
            blob: Blob { seed, mode: 5 },
        });
    }
    file
}

/// Files of many HDUs, a few kinds of which are repeated in any order
pub fn gen_crowd(g: &mut Gen) -> FileSpec {
    let n = match g.weighted(&[4, 3, 1]) {
        0 => g.usize(7, 60),
        1 => g.usize(120, 270),
        _ => g.usize(270, if g.thorough { 3000 } else { 1300 }),
    };
    let seed = g.u64();
    let first = gen_hdu(g, true, 300);
    let kinds: Vec<HduSpec> = (0..g.usize(1, 4)).map(|_| gen_hdu(g, false, 300)).collect();
    let mut s = seed;
    FileSpec {
        hdus: std::iter::once(first)
            .chain((1..n).map(|_| kinds[splitmix(&mut s) as usize % kinds.len()].clone()))
            .collect(),
        pad_last: seed % 4 > 0,
    }
}

/// One image, primary or first extension
pub fn image_file(img: ImageSpec, as_extension: bool, extra: Vec<CardSpec>) -> FileSpec {
    let hdu = HduSpec {
        body: Body::Image(img),
        extra,
        fill: 0,
        style: 0,
    };
    with_primary(hdu, as_extension)
}

pub fn empty_primary() -> HduSpec {
    HduSpec {
        body: Body::Image(ImageSpec {
            bitpix: 8,
            naxis: vec![],
            blob: Blob { seed: 0, mode: 3 },
        }),
        extra: vec![],
        fill: 0,
        style: 0,
    }
}

pub fn with_primary(hdu: HduSpec, as_extension: bool) -> FileSpec {
    FileSpec {
        hdus: if as_extension {
            vec![empty_primary(), hdu]
        } else {
            vec![hdu]
        },
        pad_last: true,
    }
}
