//! Walking the HDUs of a file

use crate::cards::*;
use crate::engine::*;
use crate::model::*;
use crate::readers::*;
use crate::util::*;
use crate::{ensure, ensure_eq};
use fitsrs::hdu::data::bintable::data::BinaryTableData;
use fitsrs::hdu::data::bintable::ColumnId;
use fitsrs::hdu::data::image::Pixels;
use fitsrs::{Fits, HDU};
use serde::{Deserialize, Serialize};
use std::fmt::Debug;
use std::io::{Cursor, Read, Seek, SeekFrom};
use std::sync::Arc;

// ------------------------------------------------------------------ C01

#[derive(Debug, Hash, Serialize, Deserialize)]
struct WalkCase {
    file: FileSpec,
    reader: ReaderKind,
}

fn file_stats(f: &FileSpec, s: &mut Stats) {
    s.add("hdus", f.hdus.len() as u64);
    for h in &f.hdus {
        match &h.body {
            Body::Image(i) if i.num_pixels() == 0 => s.class("image without data"),
            Body::Image(_) => s.class("image"),
            Body::Bin(_) => s.class("binary table"),
            Body::Ascii(_) => s.class("ascii table"),
            Body::Tile(_) => s.class("tile-compressed image"),
        }
        s.class_if(h.fill == 36, "header filling its blocks");
        s.class_if(h.fill == 1, "END alone in its block");
    }
    s.class_if(!f.pad_last, "last data unit not padded");
}

/// What the header says of the structure
pub fn check_structure(hdu: &HDU, spec: &HduSpec) -> CheckResult {
    match (hdu, &spec.body) {
        (HDU::Primary(h) | HDU::XImage(h), Body::Image(s)) => {
            check_image_header(h.get_header().get_xtension(), s)
        }
        (HDU::XBinaryTable(h), Body::Bin(s)) => {
            let x = h.get_header().get_xtension();
            ensure_eq!(x.get_num_cols(), s.cols.len(), "columns");
            ensure_eq!(x.get_num_rows(), s.rows, "rows");
            Ok(())
        }
        (HDU::XASCIITable(h), Body::Ascii(s)) => {
            let x = h.get_header().get_xtension();
            ensure_eq!(x.get_num_cols(), s.cols.len(), "columns");
            ensure_eq!(x.get_num_rows(), s.rows, "rows");
            Ok(())
        }
        (HDU::XBinaryTable(_), Body::Tile(_)) => Ok(()),
        _ => Err("HDU of another kind".into()),
    }
}

pub fn next_hdu<R>(fits: &mut Fits<R>, i: usize, want: &BuiltHdu, spec: &HduSpec) -> Result<HDU, String>
where
    R: Read + Seek + Debug + 'static,
{
    let hdu = match fits.next() {
        Some(Ok(h)) => h,
        Some(Err(e)) => return Err(format!("HDU {i}: error {e:?}")),
        None => return Err(format!("HDU {i} is missing")),
    };
    check_hdu(i, &hdu, want)?;
    check_structure(&hdu, spec)?;
    ensure_eq!(
        fits.get_position_data_unit() as u64,
        want.data_off,
        "position of the data unit {i}"
    );
    Ok(hdu)
}

pub fn ends<R>(fits: &mut Fits<R>) -> CheckResult
where
    R: Read + Seek + Debug + 'static,
{
    for _ in 0..2 {
        match fits.next() {
            None => {}
            Some(Ok(h)) => return Err(format!("a HDU too many: {}", short(&h))),
            Some(Err(e)) => return Err(format!("error after the last HDU: {e:?}")),
        }
    }
    Ok(())
}

fn check_walk(c: &WalkCase, s: &mut Stats) -> CheckResult {
    let b = c.file.build();
    file_stats(&c.file, s);
    if c.file.hdus.len() >= 2 {
        s.nontrivial();
    }
    let mut fits = Fits::from_reader(AnyReader::new(&c.reader, &b.bytes));
    for (i, want) in b.hdus.iter().enumerate() {
        next_hdu(&mut fits, i, want, &c.file.hdus[i])?;
    }
    ends(&mut fits)
}

#[derive(Debug, Hash, Serialize, Deserialize)]
pub struct BigHdu {
    /// 0 image, 1 binary table, 2 ascii table
    pub kind: u8,
    pub bitpix: i64,
    pub axes: Vec<u64>,
    pub pcount: u64,
}

#[derive(Debug, Hash, Serialize, Deserialize)]
struct BigCase {
    hdus: Vec<BigHdu>,
}

impl BigHdu {
    pub fn size(&self) -> u64 {
        match self.kind {
            0 => self.axes.iter().product::<u64>() * (self.bitpix.unsigned_abs() / 8),
            1 => self.axes.iter().product::<u64>() + self.pcount,
            _ => self.axes.iter().product::<u64>(),
        }
    }
    pub fn header(&self, primary: bool) -> Vec<CardSpec> {
        let mut v = vec![];
        let ext = [Ext::Image, Ext::Bin, Ext::Ascii][self.kind as usize];
        v.push(if primary {
            logical("SIMPLE", true)
        } else {
            CardSpec::Xtension {
                kind: ext,
                text: ext.name().into(),
                comment: None,
            }
        });
        v.push(int("BITPIX", if self.kind == 0 { self.bitpix } else { 8 }));
        v.push(int("NAXIS", self.axes.len() as i64));
        for (i, a) in self.axes.iter().enumerate() {
            v.push(int(&format!("NAXIS{}", i + 1), *a as i64));
        }
        if !primary {
            let p = if self.kind == 1 { self.pcount } else { 0 };
            v.push(int("PCOUNT", p as i64));
            v.push(int("GCOUNT", 1));
        }
        match self.kind {
            1 => {
                v.push(int("TFIELDS", 1));
                v.push(string("TFORM1", &format!("{}B", self.axes[0])));
            }
            2 => {
                v.push(int("TFIELDS", 1));
                v.push(int("TBCOL1", 1));
                v.push(string("TFORM1", "A10"));
            }
            _ => {}
        }
        v.push(CardSpec::End);
        v
    }
}

pub fn gen_big(g: &mut Gen, primary: bool) -> BigHdu {
    let kind = if primary { 0 } else { g.weighted(&[3, 2, 1]) as u8 };
    let bitpix = g.pick(BITPIX);
    // the size in bytes of what is wanted
    let bits = g.pick(&[31, 32, 33, 34, 36, 40, 44]);
    let size = (1u64 << bits).wrapping_add(g.range(0, 6000)).wrapping_sub(g.range(0, 6000));
    let rows = g.pick(&[1u64, 3, 1000, 65536, 70_001]);
    let axes = match kind {
        0 => {
            let n = size / (bitpix.unsigned_abs() / 8);
            if g.bool() {
                vec![n]
            } else {
                vec![n / rows, rows]
            }
        }
        _ => vec![(size / rows).max(10), rows],
    };
    let pcount = if kind == 1 && g.bool() { g.u64() >> g.range(20, 60) } else { 0 };
    BigHdu {
        kind,
        bitpix,
        axes,
        pcount,
    }
}

/// The pieces of a big file that are not zeros, where the data units start, and the size of the file
pub fn big_file(hdus: &[BigHdu]) -> (Vec<(u64, Vec<u8>)>, Vec<u64>, u64) {
    let mut segs = vec![];
    let mut offs = vec![];
    let mut pos = 0u64;
    for (i, h) in hdus.iter().enumerate() {
        let bytes = header_bytes(&h.header(i == 0));
        let n = bytes.len() as u64;
        segs.push((pos, bytes));
        pos += n;
        offs.push(pos);
        pos += h.size().div_ceil(2880) * 2880;
    }
    (segs, offs, pos)
}

fn check_big(c: &BigCase, s: &mut Stats) -> CheckResult {
    let (segs, offs, len) = big_file(&c.hdus);
    s.nontrivial();
    s.class_if(c.hdus.iter().any(|h| h.size() > u32::MAX as u64), "more than 4 GiB");
    let mut fits = Fits::from_reader(Sparse::new(segs, len));
    for (i, h) in c.hdus.iter().enumerate() {
        let hdu = match fits.next() {
            Some(Ok(h)) => h,
            r => return Err(format!("HDU {i}: {}", short(&r))),
        };
        ensure_eq!(hdu.get_data_unit_byte_offset(), offs[i], "data offset of HDU {i}");
        ensure_eq!(hdu.get_data_unit_byte_size(), h.size(), "data size of HDU {i}");
        let want = match h.kind {
            0 if i == 0 => Kind::Primary,
            0 => Kind::Image,
            1 => Kind::Bin,
            _ => Kind::Ascii,
        };
        ensure_eq!(kind(&hdu), want, "kind of HDU {i}");
        // reading a little of it changes nothing
        match &hdu {
            HDU::XBinaryTable(x) => {
                if let BinaryTableData::Table(mut t) = fits.get_data(x) {
                    let last = h.axes[1] as usize - 1;
                    t.seek_to_row(last).map_err(|e| format!("seek to row {last}: {e:?}"))?;
                    ensure_eq!(t.next().map(|v| cell(&v)), Some((0, 0, V::B(0))), "first value of the last row");
                }
            }
            HDU::XASCIITable(x) => {
                let mut b = [1; 100];
                fits.get_data(x).read_exact(&mut b).map_err(|e| e.to_string())?;
                ensure!(b == [0; 100], "bytes of HDU {i}");
            }
            _ => {}
        }
    }
    ends(&mut fits)
}

pub fn c01() -> Vec<Box<dyn Check>> {
    vec![
        Box::new(Simple {
            name: "walk",
            rule: "files of 1 to 6 HDUs of every kind (images of all BITPIX and 0..30 axes, binary and \
                   ASCII tables, tile-compressed images), headers with any cards filling their blocks in all ways, \
                   read through in-memory, buffered, chunked and interrupted readers; kind, cards, data \
                   offset and size, axes, columns and rows compared with what was written, then the end; \
                   non-trivial: at least 2 HDUs",
            quick: 150_000,
            thorough: 1_500_000,
            num_choices: 500,
            gen: |g| WalkCase {
                file: gen_file(g, 6, 9000),
                reader: gen_reader(g),
            },
            check: check_walk,
        }),
        Box::new(Simple {
            name: "long_headers",
            rule: "headers of 30 to 7000 cards, or images of 10 to 999 axes, in files of 1 to 3 HDUs, \
                   read and compared as above; non-trivial: at least 2 HDUs",
            quick: 1200,
            thorough: 40_000,
            num_choices: 300,
            gen: |g| WalkCase {
                reader: gen_reader(g),
                file: gen_many(g),
            },
            check: check_walk,
        }),
        Box::new(Simple {
            name: "many_hdus",
            rule: "files of 7 to 3000 HDUs of 1 to 5 kinds, read and compared as above; all are non-trivial",
            quick: 800,
            thorough: 20_000,
            num_choices: 300,
            gen: |g| WalkCase {
                reader: gen_reader(g),
                file: gen_crowd(g),
            },
            check: check_walk,
        }),
        Box::new(Simple {
            name: "walk_big",
            rule: "virtual files of 1 to 5 HDUs of 2 GiB to 16 TiB each; all are non-trivial",
            quick: 40_000,
            thorough: 600_000,
            num_choices: 60,
            gen: |g| {
                let n = g.usize(1, 5);
                BigCase {
                    hdus: (0..n).map(|i| gen_big(g, i == 0)).collect(),
                }
            },
            check: check_big,
        }),
    ]
}

// ------------------------------------------------------------------ C02

/// How the data of a HDU is consumed
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Prog {
    pub op: u8,
    pub n: u64,
    pub x: u64,
}

pub fn gen_prog(g: &mut Gen) -> Prog {
    Prog {
        op: g.weighted(&[2, 1, 4, 2, 4, 3, 2, 2]) as u8,
        n: g.u64(),
        x: g.u64(),
    }
}

/// a number of items in 0..=len, the ends being likely
pub fn amount(n: u64, len: usize) -> usize {
    match n % 8 {
        0 => 0,
        1 => len,
        2 => len.min(1),
        3 => len.saturating_sub(1),
        _ => (n >> 8) as usize % (len + 1),
    }
}

fn take_prefix<R>(fits: &mut Fits<R>, hdu: &HDU, want: &Content, n: usize) -> CheckResult
where
    R: Read + Seek + Debug + 'static,
{
    let got = read_content(fits, hdu, n);
    ensure_eq!(got.len(), n.min(want.len()), "number of values among the {n} first");
    ensure!(
        got.is_prefix_of(want),
        "values: got {}, expected a prefix of {}",
        short(&got),
        short(want)
    );
    Ok(())
}

macro_rules! each_pixels {
    ($p:expr, $it:ident, $bits:ident => $e:expr) => {
        match $p {
            Pixels::U8(mut $it) => {
                let $bits = |v: u8| v as u64;
                $e
            }
            Pixels::I16(mut $it) => {
                let $bits = |v: i16| v as u16 as u64;
                $e
            }
            Pixels::I32(mut $it) => {
                let $bits = |v: i32| v as u32 as u64;
                $e
            }
            Pixels::I64(mut $it) => {
                let $bits = |v: i64| v as u64;
                $e
            }
            Pixels::F32(mut $it) => {
                let $bits = |v: f32| v.to_bits() as u64;
                $e
            }
            Pixels::F64(mut $it) => {
                let $bits = |v: f64| v.to_bits();
                $e
            }
        }
    };
}
pub(crate) use each_pixels;

pub fn consume<R>(fits: &mut Fits<R>, hdu: &HDU, spec: &HduSpec, b: &BuiltHdu, p: &Prog) -> CheckResult
where
    R: Read + Seek + Debug + 'static,
{
    let want = || expected_content(spec, b);
    match p.op {
        0 => {}
        1 => match hdu {
            HDU::Primary(h) | HDU::XImage(h) => drop(fits.get_data(h)),
            HDU::XBinaryTable(h) => drop(fits.get_data(h)),
            HDU::XASCIITable(h) => drop(fits.get_data(h)),
        },
        2 => {
            let want = want();
            take_prefix(fits, hdu, &want, amount(p.n, want.len()))?
        }
        3 => {
            let want = want();
            // all of it, and the end is reached
            take_prefix(fits, hdu, &want, want.len() + 3)?
        }
        4 => match hdu {
            HDU::Primary(h) | HDU::XImage(h) => {
                let Content::Pixels(_, want) = want() else { unreachable!() };
                let mut seed = p.x;
                each_pixels!(fits.get_data(h).pixels(), it, bits => {
                    for _ in 0..1 + p.n % 4 {
                        let i = splitmix(&mut seed) as usize % (want.len() + 1);
                        let got = it.read_value(i).ok().map(bits);
                        ensure_eq!(got, want.get(i).copied(), "pixel {i}");
                    }
                })
            }
            HDU::XBinaryTable(h) => {
                let mut t = fits.get_data(h).table_data();
                if let Some(bt) = &b.table {
                    let ncols = match &spec.body {
                        Body::Bin(t) => t.cols.len(),
                        _ => unreachable!(),
                    };
                    let mut seed = p.x;
                    let sel: Vec<usize> = (0..ncols).filter(|_| splitmix(&mut seed) % 2 == 0).collect();
                    let row = amount(p.n, bt.rows.len());
                    let ids: Vec<ColumnId> = sel.iter().map(|&i| ColumnId::Index(i)).collect();
                    t.select_fields(&ids);
                    let ok = t.seek_to_row(row).is_ok();
                    ensure_eq!(ok, row < bt.rows.len(), "seek to row {row}");
                    if ok {
                        let want: Vec<Cell> = bt.rows[row..]
                            .iter()
                            .flatten()
                            .filter(|c| sel.contains(&c.0))
                            .copied()
                            .collect();
                        let n = amount(p.n >> 4, want.len());
                        let got: Vec<Cell> = t.take(n).map(|v| cell(&v)).collect();
                        ensure_eq!(got, want[..n], "{n} values of columns {sel:?} from row {row}");
                    }
                } else {
                    let _ = t.seek_to_row(p.x as usize % 4);
                    let _ = t.take((p.n % 10) as usize).count();
                }
            }
            HDU::XASCIITable(h) => {
                use std::io::BufRead;
                let mut r = fits.get_data(h);
                let n = r.fill_buf().map(|b| b.len()).unwrap_or(0);
                r.consume(amount(p.n, n));
            }
        },
        5 => match hdu {
            HDU::Primary(_) | HDU::XImage(_) => {
                let want = want();
                take_prefix(fits, hdu, &want, 1)?
            }
            HDU::XBinaryTable(h) => {
                if p.x % 3 == 0 {
                    // the bytes of the main table
                    let mut r = fits.get_data(h).table_data().bytes();
                    if let Some(bt) = &b.table {
                        let n = amount(p.n, bt.main.len());
                        let mut v = vec![0; n];
                        r.read_exact(&mut v).map_err(|e| format!("bytes: {e}"))?;
                        ensure_eq!(v, bt.main[..n], "bytes of the main table");
                    } else {
                        let mut v = vec![0; (p.n % 100) as usize];
                        let _ = r.read(&mut v);
                    }
                } else {
                    let it = fits.get_data(h).row_iter();
                    if let Some(bt) = &b.table {
                        let n = amount(p.n, bt.rows.len());
                        if bt.naxis1 > 0 {
                            let got: Vec<Vec<Cell>> =
                                it.take(n).map(|r| r.iter().map(cell).collect()).collect();
                            ensure_eq!(got, bt.rows[..n], "{n} rows");
                        }
                    } else {
                        it.take((p.n % 4) as usize).count();
                    }
                }
            }
            HDU::XASCIITable(h) => {
                let mut v = vec![];
                let n = amount(p.n, b.data.len());
                fits.get_data(h)
                    .take(n as u64)
                    .read_to_end(&mut v)
                    .map_err(|e| format!("reading {n} bytes: {e}"))?;
                ensure_eq!(v, b.data[..n], "bytes");
            }
        },
        6 => {
            // the bytes, without any help, maybe beyond the data unit
            let n = match p.n % 3 {
                0 => amount(p.x, b.data.len()),
                1 => b.data.len() + (p.x % 9000) as usize,
                _ => (p.x % 100) as usize,
            };
            let mut v = vec![];
            Read::take(fits, n as u64).read_to_end(&mut v).map_err(|e| format!("raw read: {e}"))?;
            let k = v.len().min(b.data.len());
            ensure_eq!(k, n.min(b.data.len()), "bytes read");
            ensure_eq!(v[..k], b.data[..k], "raw bytes");
        }
        _ => {
            // twice
            let w = want();
            take_prefix(fits, hdu, &w, amount(p.n, w.len()))?;
            let _ = read_content(fits, hdu, amount(p.x, w.len()));
        }
    }
    Ok(())
}

#[derive(Debug, Hash, Serialize, Deserialize)]
struct ConsumeCase {
    file: FileSpec,
    reader: ReaderKind,
    progs: Vec<Prog>,
}

fn check_consume(c: &ConsumeCase, s: &mut Stats) -> CheckResult {
    let b = c.file.build();
    let mut fits = Fits::from_reader(AnyReader::new(&c.reader, &b.bytes));
    if c.file.hdus.len() >= 2 && c.progs.iter().take(c.file.hdus.len() - 1).any(|p| p.op >= 2) {
        s.nontrivial();
    }
    for (i, want) in b.hdus.iter().enumerate() {
        let hdu = next_hdu(&mut fits, i, want, &c.file.hdus[i])?;
        s.class(&format!("{:?}, op {}", want.kind, c.progs[i % c.progs.len()].op));
        consume(&mut fits, &hdu, &c.file.hdus[i], want, &c.progs[i % c.progs.len()])
            .map_err(|e| format!("HDU {i}: {e}"))?;
    }
    ends(&mut fits)
}

#[derive(Debug, Hash, Serialize, Deserialize)]
struct CloneCase {
    file: FileSpec,
    /// 0: in memory
    chunk: usize,
    seed: u64,
    /// the HDU at which the list is cloned
    at: usize,
    before: bool,
    progs: [Vec<Prog>; 2],
}

fn clone_walk<R>(c: &CloneCase, b: &Built, reader: R) -> CheckResult
where
    R: Read + Seek + Debug + Clone + 'static,
{
    let mut fits = Fits::from_reader(reader);
    let at = c.at % b.hdus.len();
    for i in 0..=at {
        let hdu = next_hdu(&mut fits, i, &b.hdus[i], &c.file.hdus[i])?;
        if i < at || c.before {
            consume(&mut fits, &hdu, &c.file.hdus[i], &b.hdus[i], &c.progs[0][i])?;
        }
    }
    let mut other = fits.clone();
    // the original one goes first, then the clone
    for (k, f) in [&mut fits, &mut other].into_iter().enumerate() {
        for i in at + 1..b.hdus.len() {
            let hdu = next_hdu(f, i, &b.hdus[i], &c.file.hdus[i]).map_err(|e| format!("list {k}: {e}"))?;
            consume(f, &hdu, &c.file.hdus[i], &b.hdus[i], &c.progs[k][i])
                .map_err(|e| format!("list {k}, HDU {i}: {e}"))?;
        }
        ends(f)?;
    }
    Ok(())
}

fn check_clone(c: &CloneCase, s: &mut Stats) -> CheckResult {
    let b = c.file.build();
    if c.file.hdus.len() >= 2 {
        s.nontrivial();
    }
    if c.chunk == 0 {
        clone_walk(c, &b, Cursor::new(b.bytes.clone()))
    } else {
        clone_walk(c, &b, Chunk::new(Arc::new(b.bytes.clone()), c.seed, c.chunk))
    }
}

pub fn c02() -> Vec<Box<dyn Check>> {
    vec![
        Box::new(Simple {
            name: "consume",
            rule: "files of 1 to 6 HDUs; the data of each is ignored, opened and dropped, read \
                   partially (values, rows, bytes, random accesses, selections and row seeks), read \
                   entirely, read twice or read as raw bytes even beyond its end; what is read is compared with the model, \
                   and the next HDU is the same in all cases; non-trivial: at least 2 HDUs, one that is not the last being read",
            quick: 150_000,
            thorough: 1_500_000,
            num_choices: 500,
            gen: |g| {
                let progs = (0..6).map(|_| gen_prog(g)).collect();
                ConsumeCase {
                    reader: gen_reader(g),
                    file: gen_file(g, 6, 9000),
                    progs,
                }
            },
            check: check_consume,
        }),
        Box::new(Simple {
            name: "many_hdus",
            rule: "the same with 7 to 3000 HDUs of 1 to 5 kinds; non-trivial: one of the first is read",
            quick: 500,
            thorough: 12_000,
            num_choices: 300,
            gen: |g| {
                let progs = (0..7).map(|_| gen_prog(g)).collect();
                ConsumeCase {
                    reader: gen_reader(g),
                    file: gen_crowd(g),
                    progs,
                }
            },
            check: check_consume,
        }),
        Box::new(Simple {
            name: "clone",
            rule: "a HDU list is cloned at any HDU, and both lists are walked and consumed in different \
                   ways; non-trivial: at least 2 HDUs",
            quick: 40_000,
            thorough: 600_000,
            num_choices: 500,
            gen: |g| {
                let chunk = g.pick(&[0, 1, 7, 100, 3000]);
                let seed = g.u64();
                let at = g.usize(0, 5);
                let before = g.bool();
                let a = (0..6).map(|_| gen_prog(g)).collect();
                let b = (0..6).map(|_| gen_prog(g)).collect();
                CloneCase {
                    chunk,
                    seed,
                    at,
                    before,
                    progs: [a, b],
                    file: gen_file(g, 6, 6000),
                }
            },
            check: check_clone,
        }),
    ]
}

// ------------------------------------------------------------------ C19

#[derive(Debug, Hash, Serialize, Deserialize)]
struct BadCase {
    file: FileSpec,
    /// the HDU that is made invalid
    at: usize,
    what: u8,
    x: u64,
    reader: ReaderKind,
    sched: Schedule,
}

fn set(cards: &mut [CardSpec], name: &str, v: Val) -> bool {
    for c in cards.iter_mut() {
        if let CardSpec::Value { name: n, val, lead, comment, gap } = c {
            if n == name {
                *val = v;
                *lead = 0;
                *gap = 1;
                *comment = None;
                return true;
            }
        }
    }
    false
}

fn remove(cards: &mut Vec<CardSpec>, name: &str) -> bool {
    let n = cards.len();
    cards.retain(|c| !matches!(c, CardSpec::Value { name: n, .. } if n == name));
    cards.len() < n
}

fn ival(v: i64) -> Val {
    Val::Int {
        v,
        text: v.to_string(),
    }
}

/// Breaks the header; what was done, or None when this does not apply to it
fn spoil(spec: &HduSpec, primary: bool, cards: &mut Vec<CardSpec>, data: &mut Vec<u8>, what: u8, x: u64) -> Option<String> {
    let s = |t: &str| Val::Str(t.to_owned());
    let bad_int = |x: u64| match x % 5 {
        0 => Val::Str("8".into()),
        1 => Val::Bool(true),
        2 => Val::Blank,
        3 => ival(-1 - (x >> 8 & 7) as i64),
        _ => ival(i64::MIN),
    };
    let is_table = !matches!(spec.body, Body::Image(_));
    let is_bin = matches!(spec.body, Body::Bin(_) | Body::Tile(_));
    let axes = match &spec.body {
        Body::Image(i) => i.naxis.len(),
        _ => 2,
    };
    let done = match what {
        0 => {
            // the first card
            let first = &mut cards[0];
            if primary {
                *first = match x % 6 {
                    0 => logical("SIMPLE", false),
                    1 => string("SIMPLE", "T"),
                    2 => logical("SIMPLF", true),
                    3 => int("SIMPLE", 1),
                    4 => CardSpec::Xtension { kind: Ext::Image, text: "IMAGE".into(), comment: None },
                    _ => CardSpec::Comment("SIMPLE  =                    T".into()),
                };
            } else {
                *first = match x % 6 {
                    0 => logical("SIMPLE", true),
                    1 => string("EXTNAME", "IMAGE"),
                    2 => CardSpec::Xtension { kind: Ext::Image, text: "FOREIGN".into(), comment: None },
                    3 => CardSpec::Xtension { kind: Ext::Image, text: "".into(), comment: None },
                    4 => CardSpec::Comment("XTENSION".into()),
                    _ => int("XTENSION", 8),
                };
            }
            true
        }
        1 => {
            // removed: the second card comes first
            cards.remove(0);
            true
        }
        2 => remove(cards, "BITPIX"),
        3 => set(
            cards,
            "BITPIX",
            match x % 8 {
                0 => ival(0),
                1 => ival(24),
                2 => ival(-8),
                3 => ival(-16),
                4 => ival(128),
                5 => s("8"),
                6 => Val::Bool(true),
                _ => Val::Blank,
            },
        ),
        4 => remove(cards, "NAXIS"),
        5 => set(cards, "NAXIS", bad_int(x)),
        6 => axes > 0 && remove(cards, &format!("NAXIS{}", 1 + x % axes as u64)),
        7 => axes > 0 && set(cards, &format!("NAXIS{}", 1 + x % axes as u64), bad_int(x >> 16)),
        8 => {
            // no END, and nothing after
            cards.pop();
            data.clear();
            true
        }
        9 => {
            // an axis more than there are
            remove(cards, &format!("NAXIS{}", axes + 1));
            !is_table && set(cards, "NAXIS", ival(axes as i64 + 1 + (x % 3) as i64))
        }
        10 => {
            // more bytes than can be counted
            if axes < 2 {
                false
            } else {
                let (a, b) = match x % 3 {
                    0 => (i64::MAX, 3),
                    1 => (1 << 40, 1 << 40),
                    _ => (1 << 33, 1 << 31),
                };
                set(cards, "NAXIS1", ival(a)) && set(cards, "NAXIS2", ival(b))
                    // other axes might be 0
                    && match &spec.body {
                        Body::Image(i) => i.naxis[2..].iter().all(|&n| n > 0),
                        _ => true,
                    }
            }
        }
        11 => is_table && set(cards, "BITPIX", ival([16, 32, 64, -32, -64][x as usize % 5])),
        12 => {
            is_table && {
                let n = [0, 1, 3][x as usize % 3];
                cards.insert(4, int("NAXIS3", 1));
                set(cards, "NAXIS", ival(n))
            }
        }
        13 => is_table && remove(cards, "PCOUNT"),
        14 => is_table && set(cards, "PCOUNT", bad_int(x)),
        15 => is_table && remove(cards, "GCOUNT"),
        16 => is_table && set(cards, "GCOUNT", if x % 2 == 0 { ival([0, 2, 3, -1][x as usize / 2 % 4]) } else { bad_int(x >> 8) }),
        17 => is_table && remove(cards, "TFIELDS"),
        18 => is_table && set(cards, "TFIELDS", if x % 2 == 0 { ival([1000, 1001, 1 << 20, i64::MAX][x as usize / 2 % 4]) } else { bad_int(x >> 8) }),
        19 => matches!(spec.body, Body::Ascii(_)) && set(cards, "PCOUNT", ival(1 + (x % 9) as i64)),
        20 => {
            // the rows are not made of the fields
            let Body::Bin(t) = &spec.body else { return None };
            let n = t.naxis1() as i64;
            let d = 1 + (x >> 8) as i64 % 9;
            set(cards, "NAXIS1", ival(if x % 2 == 0 && n >= d { n - d } else { n + d }))
        }
        21 => {
            let Body::Bin(t) = &spec.body else { return None };
            let Some(i) = t.cols.iter().position(|c| c.num_bytes() > 0) else { return None };
            let f = ["1Z", "1b", "Y", "1", "", "é"][x as usize % 5];
            set(cards, &format!("TFORM{}", i + 1), s(f))
        }
        22 => {
            // a missing TFORM
            let n = match &spec.body {
                Body::Bin(t) => t.cols.iter().position(|c| c.num_bytes() > 0),
                _ => None,
            };
            match n {
                Some(i) => remove(cards, &format!("TFORM{}", i + 1)),
                None => false,
            }
        }
        23 => {
            // as many fields as there are bytes: TFIELDS smaller than what is described
            let Body::Bin(t) = &spec.body else { return None };
            match t.cols.last() {
                Some(c) if c.num_bytes() > 0 => set(cards, "TFIELDS", ival(t.cols.len() as i64 - 1)),
                _ => false,
            }
        }
        _ => return None,
    };
    let _ = is_bin;
    done.then(|| format!("mutation {what}"))
}

/// The bytes of the file with that header broken, and what was done
fn spoiled(file: &FileSpec, b: &Built, at: usize, what: u8, x: u64) -> (Vec<u8>, String) {
    let (_, mut cards, mut data, _) = file.hdus[at].unit(at == 0);
    let what = if what == 8 && at + 1 != b.hdus.len() { 2 } else { what };
    let what = match spoil(&file.hdus[at], at == 0, &mut cards, &mut data, what, x) {
        Some(w) => w,
        None => {
            (_, cards, data, _) = file.hdus[at].unit(at == 0);
            spoil(&file.hdus[at], at == 0, &mut cards, &mut data, 3, x).unwrap()
        }
    };
    let mut bytes = b.bytes[..b.hdus[at].header_off as usize].to_vec();
    bytes.extend(header_bytes(&cards));
    bytes.extend(&data);
    pad(&mut bytes, 0);
    if let Some(next) = b.hdus.get(at + 1) {
        bytes.extend(&b.bytes[next.header_off as usize..]);
    }
    (bytes, what)
}

/// Something that can be done to that header
fn choose_what(file: &FileSpec, at: usize, what: u64, x: u64) -> u8 {
    let can: Vec<u8> = (0..24)
        .filter(|&w| {
            let (_, mut cards, mut data, _) = file.hdus[at].unit(at == 0);
            spoil(&file.hdus[at], at == 0, &mut cards, &mut data, w, x).is_some()
                && (w != 8 || at + 1 == file.hdus.len())
        })
        .collect();
    can[what as usize % can.len()]
}

fn check_bad(c: &BadCase, s: &mut Stats) -> CheckResult {
    let b = c.file.build();
    let at = c.at % b.hdus.len();
    let (bytes, what) = spoiled(&c.file, &b, at, c.what, c.x);
    s.class(&what);
    s.class(if at == 0 { "primary" } else { "extension" });
    s.nontrivial();

    let mut fits = Fits::from_reader(AnyReader::new(&c.reader, &bytes));
    for i in 0..at {
        next_hdu(&mut fits, i, &b.hdus[i], &c.file.hdus[i])?;
    }
    match fits.next() {
        Some(Err(_)) => {}
        r => return Err(format!("{what} in HDU {at}: no error but {}", short(&r))),
    }
    for _ in 0..2 {
        ensure!(fits.next().is_none(), "the list does not end after an error");
    }

    let mut fits = async_fits(Arc::new(bytes), &c.sched);
    for i in 0..at {
        let h = async_next(&mut fits);
        match h {
            Some(Ok(h)) => check_async_hdu(i, &h, &b.hdus[i])?,
            r => return Err(format!("asynchronous HDU {i}: {}", short(&r))),
        }
    }
    match async_next(&mut fits) {
        Some(Err(_)) => {}
        r => return Err(format!("{what} in asynchronous HDU {at}: no error but {}", short(&r))),
    }
    for _ in 0..2 {
        ensure!(async_next(&mut fits).is_none(), "the asynchronous list does not end after an error");
    }
    Ok(())
}

pub fn c19() -> Vec<Box<dyn Check>> {
    vec![Box::new(Simple {
        name: "mandatory",
        rule: "a valid file of 1 to 4 HDUs in which a mandatory card of one of the headers is removed, \
               given a value that is not allowed, of another type or contradicting the other ones, or END \
               is missing; the HDUs before are given, then an error, then the end, by both readers; all cases are non-trivial",
        quick: 120_000,
        thorough: 1_500_000,
        num_choices: 400,
        gen: |g| {
            let at = g.usize(0, 3);
            let what = g.u64();
            let x = g.u64();
            let reader = gen_reader(g);
            let sched = gen_schedule(g);
            let mut file = gen_file(g, 4, 3000);
            for h in &mut file.hdus {
                // this is not about tile-compressed images
                if matches!(h.body, Body::Tile(_)) {
                    h.body = Body::Bin(gen_table(g, 2));
                }
            }
            let at = at % file.hdus.len();
            let what = choose_what(&file, at, what, x);
            BadCase {
                file,
                at,
                what,
                x,
                reader,
                sched,
            }
        },
        check: check_bad,
    })]
}

// ------------------------------------------------------------------ C22

#[derive(Debug, Hash, Serialize, Deserialize)]
struct CliCase {
    file: FileSpec,
    /// a header broken: the HDU and how
    bad: Option<(usize, u8, u64)>,
}

pub fn scratch_file(name: &str) -> std::path::PathBuf {
    let dir = std::env::var("FITSCHECK_SCRATCH")
        .map(std::path::PathBuf::from)
        .unwrap_or_else(|_| std::env::temp_dir());
    dir.join(format!("{name}-{}-{:?}", std::process::id(), std::thread::current().id()))
}

fn check_cli(c: &CliCase, s: &mut Stats) -> CheckResult {
    let b = c.file.build();
    if c.file.hdus.len() >= 2 {
        s.nontrivial();
    }
    let (bytes, listed) = match c.bad {
        Some((at, what, x)) => {
            let at = at % b.hdus.len();
            s.class("broken");
            (spoiled(&c.file, &b, at, what, x).0, at)
        }
        None => (b.bytes.clone(), b.hdus.len()),
    };
    let path = scratch_file("cli");
    std::fs::write(&path, &bytes).unwrap();
    let got = run_struct(&path, c.bad.is_some());
    std::fs::remove_file(&path).unwrap();
    let got = got?;
    let mut want = String::new();
    for (i, (h, b)) in c.file.hdus.iter().zip(&b.hdus).enumerate().take(listed) {
        want += &format!("HDU[{i}]:\n");
        let name = match b.kind {
            Kind::Primary => "PRIMARY",
            Kind::Image => "IMAGE",
            Kind::Bin => "BINTABLE",
            Kind::Ascii => "ASCIITABLE",
        };
        want += &format!(" * HDU type: {name}\n");
        match &h.body {
            Body::Image(img) => {
                let bp = bitpix_name(img.bitpix);
                let dims = if img.naxis.is_empty() {
                    "0".to_owned()
                } else {
                    img.naxis.iter().map(u64::to_string).collect::<Vec<_>>().join("x")
                };
                want += &format!(" * HEAD naxis: {:?}; bitpix : {bp}; dimensions: {dims}.\n", img.naxis);
            }
            Body::Bin(t) => want += &format!(" * HEAD n_cols: {}; n_rows: {}.\n", t.cols.len(), t.rows),
            Body::Ascii(t) => want += &format!(" * HEAD n_cols: {}; n_rows: {}.\n", t.cols.len(), t.rows),
            Body::Tile(_) => unreachable!(),
        }
        want += &format!(" * DATA starting byte: {}; byte size: {}.\n", b.data_off, b.data.len());
    }
    ensure_eq!(got, want, "output");
    Ok(())
}

/// The output of the command, which must succeed, or fail
fn run_struct(path: &std::path::Path, fails: bool) -> Result<String, String> {
    use std::os::unix::process::CommandExt;
    let tool = std::env::current_exe().unwrap().with_file_name("fits");
    let mut cmd = std::process::Command::new(tool);
    cmd.arg("struct").arg(path).env_remove("RUST_LOG");
    // a command that does not end is ended by the system, and reported
    let limit = libc::rlimit {
        rlim_cur: CASE_CPU_SECONDS,
        rlim_max: CASE_CPU_SECONDS,
    };
    unsafe {
        cmd.pre_exec(move || {
            libc::setrlimit(libc::RLIMIT_CPU, &limit);
            Ok(())
        });
    }
    let out = cmd.output().unwrap_or_else(|e| {
        eprintln!("the command line tool was not built: {e}");
        std::process::exit(3);
    });
    ensure_eq!(
        out.status.code(),
        Some(fails as i32),
        "status of the command, whose errors are {}",
        String::from_utf8_lossy(&out.stderr)
    );
    Ok(String::from_utf8_lossy(&out.stdout).into_owned())
}

/// A file with holes, which takes no place
fn check_big_cli(c: &BigCase, s: &mut Stats) -> CheckResult {
    use std::io::Write;
    let (segs, offs, len) = big_file(&c.hdus);
    let path = scratch_file("cli");
    let mut f = std::fs::File::create(&path).unwrap();
    let mut made = f.set_len(len).is_ok();
    for (at, bytes) in &segs {
        made = made && f.seek(SeekFrom::Start(*at)).is_ok() && f.write_all(bytes).is_ok();
    }
    drop(f);
    if !made {
        s.class("too large for the file system, skipped");
        std::fs::remove_file(&path).unwrap();
        return Ok(());
    }
    s.nontrivial();
    s.class_if(len > u32::MAX as u64, "more than 4 GiB");
    let got = run_struct(&path, false);
    std::fs::remove_file(&path).unwrap();
    let mut want = String::new();
    for (i, h) in c.hdus.iter().enumerate() {
        let kind = match h.kind {
            0 if i == 0 => "PRIMARY",
            0 => "IMAGE",
            1 => "BINTABLE",
            _ => "ASCIITABLE",
        };
        want += &format!("HDU[{i}]:\n * HDU type: {kind}\n");
        want += &match h.kind {
            0 => format!(
                " * HEAD naxis: {:?}; bitpix : {}; dimensions: {}.\n",
                h.axes,
                bitpix_name(h.bitpix),
                h.axes.iter().map(u64::to_string).collect::<Vec<_>>().join("x")
            ),
            _ => format!(" * HEAD n_cols: 1; n_rows: {}.\n", h.axes[1]),
        };
        want += &format!(" * DATA starting byte: {}; byte size: {}.\n", offs[i], h.size());
    }
    ensure_eq!(got?, want, "output");
    Ok(())
}

fn bitpix_name(bitpix: i64) -> &'static str {
    match bitpix {
        8 => "U8",
        16 => "I16",
        32 => "I32",
        64 => "I64",
        -32 => "F32",
        _ => "F64",
    }
}

pub fn c22() -> Vec<Box<dyn Check>> {
    vec![
        Box::new(Simple {
        name: "cli_struct",
        rule: "files of 1 to 6 HDUs, a header being broken in a third of them, given to the struct command, \
               its output compared with what was written; it fails after the HDUs before the broken one; \
               non-trivial: at least 2 HDUs",
        quick: 10_000,
        thorough: 400_000,
        num_choices: 400,
        gen: |g| {
            let broken = g.chance(1, 3);
            let (at, what, x) = (g.usize(0, 5), g.u64(), g.u64());
            let mut file = if g.chance(1, 600) { gen_crowd(g) } else { gen_file(g, 6, 6000) };
            for h in &mut file.hdus {
                if matches!(h.body, Body::Tile(_)) {
                    h.body = Body::Bin(gen_table(g, 2));
                }
            }
            let bad = broken.then(|| {
                let at = at % file.hdus.len();
                (at, choose_what(&file, at, what, x), x)
            });
            CliCase { file, bad }
        },
        check: check_cli,
    }),
        Box::new(Simple {
            name: "cli_big",
            rule: "1 to 3 HDUs of 2 GiB to 1 TiB in a file with holes, given to the struct command; \
                   non-trivial: the file could be made",
            quick: 500,
            thorough: 20_000,
            num_choices: 100,
            gen: |g| {
                let n = g.usize(1, 3);
                let mut hdus: Vec<BigHdu> = (0..n).map(|i| gen_big(g, i == 0)).collect();
                for h in &mut hdus {
                    // what file systems can hold
                    h.pcount %= 1 << 40;
                    while h.size() > 1 << 41 {
                        h.axes[0] /= 16;
                    }
                }
                BigCase { hdus }
            },
            check: check_big_cli,
        }),
    ]
}

// ------------------------------------------------------------------ in-memory files of more than 4 GiB

const MEMORY: usize = (1 << 32) + (1 << 26);

/// Zeros, of which only the pages written to exist
struct Memory(*mut u8, Vec<std::ops::Range<usize>>);

unsafe impl Send for Memory {}

static FAR: std::sync::Mutex<Option<Memory>> = std::sync::Mutex::new(None);

#[derive(Debug, Hash, Serialize, Deserialize)]
struct FarRaw {
    /// size of the data unit of the first HDU
    first: u64,
    hdu: HduSpec,
}

fn gen_far_raw(g: &mut Gen, table: bool) -> FarRaw {
    let first = match g.weighted(&[3, 3, 2, 1]) {
        0 => (1 << 32) + g.range(0, 1 << 25),
        1 => (1 << 32) - g.range(0, 20_000),
        2 => (1 << 31) + g.range(0, 40_000) - 20_000,
        _ => g.range(0, 1 << 32),
    };
    let body = if table {
        let mut t = gen_table(g, 2);
        t.rows = t.rows.clamp(1, 40);
        Body::Bin(t)
    } else {
        Body::Image(gen_image(g, 3000))
    };
    FarRaw {
        first,
        hdu: HduSpec {
            body,
            extra: vec![],
            fill: gen_fill(g),
            style: 0,
        },
    }
}

fn check_far_raw(c: &FarRaw, s: &mut Stats) -> CheckResult {
    let mut lock = FAR.lock().unwrap_or_else(|e| e.into_inner());
    let mem = lock.get_or_insert_with(|| {
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                MEMORY,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
                -1,
                0,
            )
        };
        assert!(p != libc::MAP_FAILED, "no address space");
        unsafe { libc::madvise(p, MEMORY, libc::MADV_NOHUGEPAGE) };
        Memory(p.cast(), vec![])
    });
    let file = FileSpec {
        hdus: vec![empty_primary(), c.hdu.clone()],
        pad_last: true,
    };
    let b = file.build();
    let want = &b.hdus[1];
    // the same HDU, after a first one with much data
    let head = header_bytes(&[
        logical("SIMPLE", true),
        int("BITPIX", 8),
        int("NAXIS", 1),
        int("NAXIS1", c.first as i64),
        CardSpec::End,
    ]);
    let at = head.len() + c.first.div_ceil(2880) as usize * 2880;
    let tail = &b.bytes[want.header_off as usize..];
    let len = at + tail.len();
    assert!(len <= MEMORY);
    // the lock is held, and no slice of the previous case is left
    {
        let all = unsafe { std::slice::from_raw_parts_mut(mem.0, MEMORY) };
        // what the previous case wrote
        mem.1.drain(..).for_each(|r| all[r].fill(0));
        mem.1.extend([0..head.len(), at..len]);
        all[..head.len()].copy_from_slice(&head);
        all[at..len].copy_from_slice(tail);
    }
    // the memory is never given back
    let all: &'static [u8] = unsafe { std::slice::from_raw_parts(mem.0, len) };
    {
        let mut fits = Fits::from_reader(Cursor::new(all));
        let Some(Ok(HDU::Primary(h))) = fits.next() else {
            return Err("the first HDU is not read".into());
        };
        let first = fits.get_data(&h);
        let raw = first.raw_bytes();
        ensure_eq!(raw.len() as u64, c.first, "size of the first data unit");
        ensure!(std::ptr::eq(raw.as_ptr(), &all[head.len()]), "where the first data unit is");
        let hdu = match fits.next() {
            Some(Ok(h)) => h,
            r => return Err(format!("the second HDU: {}", short(&r))),
        };
        ensure_eq!(
            hdu.get_data_unit_byte_offset(),
            at as u64 + want.data_off - want.header_off,
            "where the data is"
        );
        match &hdu {
            HDU::XImage(h) => ensure_eq!(fits.get_data(h).raw_bytes(), &want.data[..], "raw bytes"),
            HDU::XBinaryTable(h) => {
                let t = fits.get_data(h).table_data();
                ensure_eq!(t.raw_bytes(), &want.data[..], "raw bytes")
            }
            _ => return Err("another kind of HDU".into()),
        }
        let exp = expected_content(&c.hdu, want);
        let got = read_content(&mut fits, &hdu, usize::MAX);
        ensure!(got == exp, "values: got {}, expected {}", short(&got), short(&exp));
        ends(&mut fits)?;
    }
    s.class_if(at >= 1 << 32, "beyond 4 GiB");
    s.nontrivial();
    Ok(())
}

pub fn far_raw(table: bool) -> Box<dyn Check> {
    Box::new(Simple {
        name: "far_raw",
        rule: "an image or a binary table after a first HDU of up to 4 GiB and more, in an in-memory file: where the \
               data is, the raw bytes and the values. All are non-trivial.",
        quick: 2_000,
        thorough: 60_000,
        num_choices: 120,
        gen: if table { |g| gen_far_raw(g, true) } else { |g| gen_far_raw(g, false) },
        check: check_far_raw,
    })
}
