//! What the outside world can do: compressed files, hostile bytes, truncated files, failing I/O

use super::walk::{amount, consume, gen_prog, scratch_file, Prog};
use super::{asynch, walk};
use fitsrs::hdu::data::image::Pixels;
use crate::engine::*;
use crate::model::*;
use crate::readers::*;
use crate::util::*;
use crate::{ensure, ensure_eq};
use fitsrs::gz::GzReader;
use fitsrs::hdu::data::bintable::data::BinaryTableData;
use fitsrs::hdu::data::bintable::ColumnId;
use fitsrs::hdu::header::Xtension;
use fitsrs::{FITSFile, Fits, HDU};
use flate2::{Compression, GzBuilder};
use serde::{Deserialize, Serialize};
use std::fmt::Debug;
use std::io::{BufReader, Cursor, Read, Seek, SeekFrom, Write};
use std::sync::Arc;

// ------------------------------------------------------------------ C15

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Member {
    /// the part of the file, out of 256, at which this member ends
    cut: u8,
    level: u8,
    name: bool,
    comment: bool,
    extra: u16,
    mtime: u32,
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct GzSpec {
    members: Vec<Member>,
    /// zeros after the last member
    zeros: usize,
}

pub fn gen_gz(g: &mut Gen) -> GzSpec {
    let n = [1, 1, 2, 3, 5][g.usize(0, 4)];
    GzSpec {
        zeros: g.pick(&[0, 0, 1, 8, 511, 512, 9000]),
        members: (0..n)
            .map(|_| Member {
                cut: g.u64() as u8,
                level: g.pick(&[6, 0, 1, 9]),
                name: g.bool(),
                comment: g.chance(1, 4),
                extra: if g.chance(1, 4) { g.u64() as u8 as u16 } else { 0 },
                mtime: g.u64() as u32,
            })
            .collect(),
    }
}

impl GzSpec {
    /// The compressed file, and where its members start
    pub fn build(&self, bytes: &[u8]) -> (Vec<u8>, Vec<usize>) {
        let mut cuts: Vec<usize> = self.members[..self.members.len() - 1]
            .iter()
            .map(|m| bytes.len() * m.cut as usize / 256)
            .collect();
        cuts.sort_unstable();
        cuts.push(bytes.len());
        let mut out = vec![];
        let mut starts = vec![];
        let mut start = 0;
        for (m, &end) in self.members.iter().zip(&cuts) {
            starts.push(out.len());
            let mut b = GzBuilder::new().mtime(m.mtime);
            if m.name {
                b = b.filename("file.fits");
            }
            if m.comment {
                b = b.comment("a comment, SIMPLE  =");
            }
            if m.extra > 0 {
                b = b.extra(vec![0x1f; m.extra as usize]);
            }
            let mut enc = b.write(out, Compression::new(m.level as u32));
            enc.write_all(&bytes[start..end]).unwrap();
            out = enc.finish().unwrap();
            start = end;
        }
        out.extend(std::iter::repeat_n(0, self.zeros));
        (out, starts)
    }
}

#[derive(Debug, Hash, Serialize, Deserialize)]
struct GzCase {
    /// None: the file is not compressed
    gz: Option<GzSpec>,
    /// a file on the disk, opened by its path; or a reader
    path: bool,
    reader: ReaderKind,
    progs: Vec<Prog>,
    /// raw reads: seek there, read so many bytes
    raw: Vec<(u64, u64)>,
    /// a byte of the compressed file is changed, or the file is cut there
    damage: Option<(bool, u64, u8)>,
    file: FileSpec,
}

fn gen_gzcase(g: &mut Gen) -> GzCase {
    let gz = (!g.chance(1, 5)).then(|| gen_gz(g));
    GzCase {
        path: g.chance(1, 3),
        reader: gen_reader(g),
        progs: (0..4).map(|_| gen_prog(g)).collect(),
        raw: if g.chance(1, 3) {
            (0..g.usize(1, 4)).map(|_| (g.u64(), g.u64())).collect()
        } else {
            vec![]
        },
        damage: (gz.is_some() && g.chance(1, 4)).then(|| (g.bool(), g.u64(), g.u64() as u8 | 1)),
        gz,
        file: gen_file(g, 4, 4000),
    }
}

/// Large files, made of many members or with large headers
fn gen_gzlarge(g: &mut Gen) -> GzCase {
    let n = match g.weighted(&[2, 2, 2]) {
        0 => 1,
        1 => g.usize(2, 20),
        _ => g.usize(20, 400),
    };
    let mut x = g.u64();
    let zeros = g.pick(&[0, 0, 1, 9000, 70_000]);
    let members = (0..n)
        .map(|_| {
            let r = splitmix(&mut x);
            Member {
                cut: r as u8,
                level: [6, 0, 1, 9][(r >> 8) as usize % 4],
                name: r >> 16 & 1 == 1,
                comment: r >> 17 & 1 == 1,
                extra: if r >> 18 & 7 == 0 && n < 30 { (r >> 32) as u16 } else { 0 },
                mtime: 0,
            }
        })
        .collect();
    let size = g.range(60_000, if g.thorough { 3_000_000 } else { 600_000 });
    let (bitpix, blob, crowd) = (g.pick(BITPIX), gen_blob(g), g.chance(1, 4));
    let (path, raw) = (g.chance(1, 3), g.bool());
    let reader = gen_reader(g);
    let file = if crowd {
        let mut f = gen_crowd(g);
        f.hdus.truncate(250);
        f
    } else {
        let mut f = gen_file(g, 3, 500);
        f.hdus[0].body = Body::Image(ImageSpec {
            bitpix,
            naxis: vec![size / (bitpix.unsigned_abs() / 8)],
            blob,
        });
        // there may be an axis more among them
        f.hdus[0].extra.clear();
        f
    };
    GzCase {
        path,
        reader,
        progs: (0..4).map(|_| gen_prog(g)).collect(),
        raw: if raw { (0..5).map(|_| (splitmix(&mut x), splitmix(&mut x))).collect() } else { vec![] },
        damage: g.chance(1, 5).then(|| (g.bool(), g.u64(), g.u64() as u8 | 1)),
        gz: Some(GzSpec { members, zeros }),
        file,
    }
}

fn gz_walk<R>(c: &GzCase, b: &Built, mut fits: Fits<R>) -> CheckResult
where
    R: Read + Seek + Debug + 'static,
{
    for (i, want) in b.hdus.iter().enumerate() {
        let hdu = walk::next_hdu(&mut fits, i, want, &c.file.hdus[i])?;
        consume(&mut fits, &hdu, &c.file.hdus[i], want, &c.progs[i % c.progs.len()])
            .map_err(|e| format!("HDU {i}: {e}"))?;
    }
    walk::ends(&mut fits)
}

fn check_gz(c: &GzCase, s: &mut Stats) -> CheckResult {
    let b = c.file.build();
    let (mut bytes, starts) = match &c.gz {
        Some(gz) => gz.build(&b.bytes),
        None => (b.bytes.clone(), vec![]),
    };
    s.class(if c.gz.is_some() { "gzip" } else { "plain" });
    s.class_if(starts.len() > 1, "several members");
    s.class_if(starts.len() > 100, "more than 100 members");
    s.class_if(c.path, "opened by path");
    if let (Some((cut, at, x)), Some(gz)) = (&c.damage, &c.gz) {
        let end = bytes.len() - gz.zeros;
        let at = (*at % end as u64) as usize;
        if *cut {
            bytes.truncate(at);
            if starts.contains(&at) && at > 0 {
                // it is a whole file, with fewer members
                return Ok(());
            }
        } else {
            if starts[1..].contains(&at) {
                // what follows is not a member any more, and is ignored
                return Ok(());
            }
            bytes[at] ^= x;
        }
        s.class(if *cut { "gzip file cut" } else { "gzip file damaged" });
        s.nontrivial();
        // The content is not what it was: it must not be given as if it were
        let kind = c.reader.clone();
        let mut r = match GzReader::new(AnyReader::new(&kind, &bytes)) {
            Err(_) => return Ok(()),
            Ok(r) => r,
        };
        if let GzReader::Reader(_) = &r {
            let mut fits = Fits::from_reader(r);
            ensure!(
                matches!(fits.next(), Some(Err(_))),
                "a damaged gzip file is read as a FITS file"
            );
            return Ok(());
        }
        let mut got = vec![];
        r.read_to_end(&mut got).map_err(|e| format!("reading: {e}"))?;
        ensure!(got == b.bytes, "damaged gzip file: {} bytes are given without any error", got.len());
        return Ok(());
    }
    if c.gz.is_some() {
        s.nontrivial();
    }
    if !c.raw.is_empty() {
        let mut r = GzReader::new(AnyReader::new(&c.reader, &bytes)).map_err(|e| format!("open: {e:?}"))?;
        let mut v = vec![];
        r.read_to_end(&mut v).map_err(|e| format!("reading: {e}"))?;
        ensure!(v == b.bytes, "content: {} bytes, expected {}", v.len(), b.bytes.len());
        for (at, n) in &c.raw {
            let at = amount(*at, b.bytes.len()) as u64;
            let n = amount(*n, 6000);
            let p = match n % 3 {
                0 => r.seek(SeekFrom::Start(at)),
                1 => r.seek(SeekFrom::End(at as i64 - b.bytes.len() as i64)),
                _ => {
                    let cur = r.stream_position().map_err(|e| e.to_string())?;
                    r.seek(SeekFrom::Current(at as i64 - cur as i64))
                }
            };
            ensure_eq!(p.map_err(|e| e.to_string())?, at, "position");
            let mut v = vec![];
            Read::by_ref(&mut r).take(n as u64).read_to_end(&mut v).map_err(|e| e.to_string())?;
            let at = at as usize;
            ensure!(v == b.bytes[at..(at + n).min(b.bytes.len())], "bytes at {at}");
        }
        return Ok(());
    }
    if c.path {
        let path = scratch_file("gz");
        std::fs::write(&path, &bytes).unwrap();
        let r = FITSFile::open(&path)
            .map_err(|e| format!("open: {e:?}"))
            .and_then(|fits| gz_walk(c, &b, fits));
        std::fs::remove_file(&path).unwrap();
        r
    } else {
        let r = GzReader::new(AnyReader::new(&c.reader, &bytes)).map_err(|e| format!("open: {e:?}"))?;
        gz_walk(c, &b, Fits::from_reader(r))
    }
}

pub fn c15() -> Vec<Box<dyn Check>> {
    vec![Box::new(Simple {
        name: "gzip",
        rule: "a generated file of 1 to 4 HDUs, plain or gzipped (levels 0 to 9, 1 to 5 members cut \
               anywhere, with names, comments, extra fields, trailing zeros), opened by its path or through a \
               reader: every HDU, its data under a generated way of consuming it, and raw reads and seeks give \
               what the plain file contains; a compressed file cut or with a byte changed gives an error, \
               or all of its content. Non-trivial: compressed.",
        quick: 60_000,
        thorough: 1_200_000,
        num_choices: 300,
        gen: gen_gzcase,
        check: check_gz,
    }), Box::new(Simple {
        name: "large",
        rule: "the same with files of 60 kB to 3 MB, of 1 to 400 members, with extra fields of up to 65535 bytes. \
               Non-trivial: compressed.",
        quick: 600,
        thorough: 16_000,
        num_choices: 300,
        gen: gen_gzlarge,
        check: check_gz,
    })]
}

// ------------------------------------------------------------------ C16

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Mutation {
    op: u8,
    a: u64,
    b: u64,
    c: u64,
}

#[derive(Debug, Hash, Serialize, Deserialize)]
pub struct HostileCase {
    muts: Vec<Mutation>,
    /// None: only hostile cards
    file: Option<FileSpec>,
    cards: Vec<u64>,
    seed: u64,
    pub reader: ReaderKind,
    pub sched: Schedule,
}

const HOSTILE_VALUES: &[&str] = &[
    "0", "1", "-1", "2", "3", "7", "8", "16", "32", "64", "-32", "-64", "999", "1000", "2147483647",
    "2147483648", "-2147483648", "4294967295", "4294967296", "9223372036854775807",
    "-9223372036854775808", "9223372036854775808", "18446744073709551615", "1000000000000",
    "1152921504606846976", "99999999999999999999999999", "1.0", "1E400", "NaN", "T", "F", "", "'", "''",
    "'''", "'A'", "'&'", "'1PB(10)'", "'0A'", "'1A'", "'1QE(99999999999)'", "'9223372036854775807D'",
    "'18446744073709551615B'", "'4294967296J'", "'1PZ(1)'", "'P'", "'1X'", "'9X'", "'1P'", "'RICE_1'",
    "'GZIP_1'", "'GZIP_2'", "'HCOMPRESS_1'", "'PLIO_1'", "'NONE'", "'SUBTRACTIVE_DITHER_1'",
    "'SUBTRACTIVE_DITHER_2'", "'NO_DITHER'", "'COMPRESSED_DATA'", "'ZSCALE'", "'ZZERO'", "'ZBLANK'",
    "'UNCOMPRESSED_DATA'", "'GZIP_COMPRESSED_DATA'", "'BLOCKSIZE'", "'BYTEPIX'", "'é'", "(1,2)", "1 /",
    "'IMAGE'", "'BINTABLE'", "'TABLE'", "'FOREIGN'", "'1C'", "'3M'", "'5L'", "'1D'", "'1E'", "'1J'",
];

const HOSTILE_NAMES: &[&str] = &[
    "SIMPLE", "XTENSION", "BITPIX", "NAXIS", "NAXIS1", "NAXIS2", "NAXIS3", "NAXIS9", "PCOUNT", "GCOUNT",
    "TFIELDS", "TFORM1", "TFORM2", "TTYPE1", "TTYPE2", "TTYPE3", "TBCOL1", "TBCOL2", "THEAP", "ZIMAGE",
    "ZCMPTYPE", "ZBITPIX", "ZNAXIS", "ZNAXIS1", "ZNAXIS2", "ZTILE1", "ZTILE2", "ZTILE3", "ZNAME1",
    "ZVAL1", "ZNAME2", "ZVAL2", "ZQUANTIZ", "ZDITHER0", "ZBLANK", "ZSCALE", "ZZERO", "BLANK", "BSCALE", "BZERO",
    "END", "CONTINUE", "COMMENT", "HIERARCH", "HISTORY", "", "LONGSTRN", "TDISP1", "TNULL1", "TDIM1",
    "EXTNAME", "CTYPE1",
];

fn hostile_card(x: u64) -> [u8; 80] {
    let name = HOSTILE_NAMES[(x % HOSTILE_NAMES.len() as u64) as usize];
    let val = HOSTILE_VALUES[((x >> 8) % HOSTILE_VALUES.len() as u64) as usize];
    let mut s: Vec<u8> = match (x >> 20) % 8 {
        0 => format!("{name:<8}={val}").into(),
        1 => format!("{name:<8} {val}").into(),
        2 => format!("{name} = {val}").into(),
        3 => format!("HIERARCH {name} {val} = {val}").into(),
        _ => format!("{name:<8}= {val:>20}").into(),
    };
    let mut r = x;
    if (x >> 24) % 8 == 0 {
        let i = splitmix(&mut r) as usize % s.len().max(1);
        if let Some(b) = s.get_mut(i) {
            *b = splitmix(&mut r) as u8;
        }
    }
    s.resize(80, if (x >> 28) % 16 == 0 { b'\'' } else { b' ' });
    s.try_into().unwrap()
}

pub fn gen_hostile(g: &mut Gen) -> HostileCase {
    let n = g.weighted(&[1, 5, 4, 3, 2, 2, 1]);
    let muts = (0..n)
        .map(|_| Mutation {
            op: g.weighted(&[3, 2, 6, 4, 1, 1, 1, 1, 4, 2, 2, 2, 2]) as u8,
            a: g.u64(),
            b: g.u64(),
            c: g.u64(),
        })
        .collect();
    let cards: Vec<u64> = if g.chance(1, 4) {
        (0..g.usize(0, 40)).map(|_| g.u64()).collect()
    } else {
        vec![]
    };
    let seed = g.u64();
    let reader = gen_reader(g);
    let sched = gen_schedule(g);
    let file = (!g.chance(1, 10)).then(|| {
        if g.chance(1, 3) {
            // tile-compressed images deserve it
            let float = g.bool();
            let body = Body::Tile(crate::tiles::gen_tile(g, float, 300));
            with_primary(
                HduSpec {
                    body,
                    extra: vec![],
                    fill: 0,
                    style: 0,
                },
                true,
            )
        } else {
            gen_file(g, 4, 2000)
        }
    });
    HostileCase {
        muts,
        file,
        cards,
        seed,
        reader,
        sched,
    }
}

pub fn hostile_bytes(c: &HostileCase) -> Vec<u8> {
    let (mut bytes, hdus) = match &c.file {
        Some(f) => {
            let b = f.build();
            let h: Vec<(usize, usize, usize)> = b
                .hdus
                .iter()
                .map(|h| (h.header_off as usize, h.cards.len(), h.data_off as usize))
                .collect();
            (b.bytes, h)
        }
        None => {
            let mut v = b"SIMPLE  =                    T".to_vec();
            v.resize(80, b' ');
            (v, vec![])
        }
    };
    if !c.cards.is_empty() || hdus.is_empty() {
        // a header of hostile cards
        let at = hdus.get(c.seed as usize % hdus.len().max(1)).map_or(bytes.len(), |h| h.0 + 80 * (c.seed >> 32) as usize % (h.1 * 80) / 80 * 80);
        let new: Vec<u8> = c.cards.iter().flat_map(|&x| hostile_card(x)).collect();
        if (c.seed >> 20) % 2 == 0 {
            let e = (at + new.len()).min(bytes.len());
            bytes.splice(at.min(e)..e, new);
        } else {
            bytes.splice(at..at, new);
        }
        let n = bytes.len().div_ceil(80) * 80;
        bytes.resize(n, b' ');
    }
    for m in &c.muts {
        let len = bytes.len();
        if len == 0 {
            break;
        }
        let at = (m.a % len as u64) as usize;
        // a card of a header
        let (card, data) = match hdus.get(m.a as usize % hdus.len().max(1)) {
            Some(h) => (h.0 + (m.b as usize % h.1) * 80, h.2),
            None => (at / 80 * 80, 0),
        };
        let card = card.min(len.saturating_sub(80));
        match m.op {
            0 => bytes[at] ^= m.b as u8,
            1 => bytes[at] = [0, 0xff, b'\'', b'=', b' ', b'&', b'/', 0x80][m.b as usize % 8],
            2 => {
                // the value of a card
                if card + 80 <= len {
                    let v = HOSTILE_VALUES[m.c as usize % HOSTILE_VALUES.len()];
                    let mut s = format!("= {v:>20}").into_bytes();
                    s.resize(72, b' ');
                    bytes[card + 8..card + 80].copy_from_slice(&s);
                }
            }
            3 => {
                if card + 80 <= len {
                    bytes[card..card + 80].copy_from_slice(&hostile_card(m.c));
                }
            }
            4 => {
                // a card less
                if card + 80 <= len {
                    let b = bytes[card + 80..].to_vec();
                    bytes.truncate(card);
                    bytes.extend(b);
                }
            }
            5 => {
                let b = bytes[at / 2880 * 2880..].iter().take(2880).copied().collect::<Vec<_>>();
                bytes.splice(at / 2880 * 2880..at / 2880 * 2880, b);
            }
            6 => {
                let e = (at / 2880 * 2880 + 2880).min(len);
                bytes.drain(at / 2880 * 2880..e);
            }
            7 => bytes.truncate(at),
            8 => {
                // a 4 or 8 bytes integer in the data
                let at = (data + (m.b % 600) as usize).min(len);
                let v = [0u64, 1, 2, u64::MAX, 1 << 31, 1 << 32, 1 << 63, i64::MAX as u64, 0xffff_ffff, 5000, 1 << 20]
                    [m.c as usize % 11];
                let n = if (m.c >> 32) % 2 == 0 { 4 } else { 8 };
                for (i, x) in v.to_be_bytes()[8 - n..].iter().enumerate() {
                    if at + i < len {
                        bytes[at + i] = *x;
                    }
                }
            }
            9 => {
                let n = (m.b % 40) as usize;
                let mut r = m.c;
                for x in bytes[at..].iter_mut().take(n) {
                    *x = splitmix(&mut r) as u8;
                }
            }
            10 => {
                // two cards are exchanged
                let other = card / 2880 * 2880 + (m.c as usize % 36) * 80;
                if other + 80 <= len && card + 80 <= len {
                    for i in 0..80 {
                        bytes.swap(card + i, other + i);
                    }
                }
            }
            11 => {
                // the value of a mandatory keyword, wherever it is
                let name = HOSTILE_NAMES[m.b as usize % HOSTILE_NAMES.len()];
                let v = HOSTILE_VALUES[m.c as usize % HOSTILE_VALUES.len()];
                let key = format!("{name:<8}=");
                let skip = (m.a % 3) as usize;
                let hit = (0..len / 80)
                    .map(|i| i * 80)
                    .filter(|&i| bytes[i..].starts_with(key.as_bytes()))
                    .nth(skip);
                if let Some(i) = hit {
                    let mut s = format!(" {v:>20}").into_bytes();
                    s.resize(71, b' ');
                    bytes[i + 9..i + 80].copy_from_slice(&s);
                }
            }
            _ => {
                // a data unit whose size is about what some integer type holds
                let Some(h) = hdus.get(m.a as usize % hdus.len().max(1)) else {
                    continue;
                };
                let find = |bytes: &[u8], name: &str| {
                    let key = format!("{name:<8}=");
                    (0..h.1)
                        .map(|i| h.0 + 80 * i)
                        .find(|&i| i + 80 <= len && bytes[i..].starts_with(key.as_bytes()))
                };
                let value = |bytes: &[u8], name: &str| -> Option<u128> {
                    let i = find(bytes, name)?;
                    let s = String::from_utf8_lossy(&bytes[i + 9..i + 80]).into_owned();
                    s.split('/').next()?.trim().parse().ok()
                };
                let target = [1u128 << 31, 1 << 32, 1 << 63, 1 << 64, 1 << 62][m.b as usize % 5];
                let target = (target + (m.b >> 32) as u128 % 10_000) - [0, 5000, 10_000][(m.b >> 8) as usize % 3];
                let n1 = value(&bytes, "NAXIS1").unwrap_or(1).max(1);
                let n2 = value(&bytes, "NAXIS2").unwrap_or(1);
                let (name, v) = match m.c % 4 {
                    0 => ("NAXIS2", target / n1),
                    1 => ("NAXIS2", target.div_ceil(n1)),
                    2 => ("PCOUNT", target.saturating_sub(n1.saturating_mul(n2))),
                    _ => ("THEAP", target),
                };
                if let Some(i) = find(&bytes, name) {
                    let mut s = format!(" {v:>20}").into_bytes();
                    s.resize(71, b' ');
                    bytes[i + 9..i + 80].copy_from_slice(&s);
                }
            }
        }
    }
    bytes
}

fn header_accessors<X: Xtension + Debug>(h: &fitsrs::fits::HDU<X>) {
    let header = h.get_header();
    let n = header.cards().count();
    let _ = header.history().count();
    for k in header.keywords() {
        let v = header.get(k);
        assert!(v.is_some(), "keyword {k} without value");
        let _ = header.get_parsed::<i64>(k);
        let _ = header.get_parsed::<u8>(k);
        let _ = header.get_parsed::<f64>(k);
        let _ = header.get_parsed::<bool>(k);
        let _ = header.get_parsed::<String>(k);
        let _ = header.get_parsed::<Option<char>>(k);
        if let Some(v) = v {
            let _ = header.get_keyword(v);
            let _ = format!("{v:?}");
        }
    }
    assert!(header.keywords().count() <= n, "more keywords than cards");
}

/// Everything that can be asked, a bounded number of times
pub fn torture<R>(bytes: &[u8], reader: R, seed: &mut u64) -> Result<u64, String>
where
    R: Read + Seek + Debug + 'static,
{
    let mut fits = Fits::from_reader(reader);
    let mut n = 0;
    let mut end = 0;
    let len = bytes.len() as u64;
    while let Some(h) = fits.next() {
        let Ok(h) = h else {
            ensure!(fits.next().is_none(), "the list goes on after an error");
            return Ok(n);
        };
        n += 1;
        // a HDU is at least a block and they do not overlap
        let off = h.get_data_unit_byte_offset();
        let size = h.get_data_unit_byte_size();
        ensure!(off >= end + 2880 && off % 2880 == 0 && off <= len, "HDU {n}: data unit at {off}, after {end}");
        end = off.saturating_add(size.div_ceil(2880).saturating_mul(2880));
        let op = splitmix(seed);
        let avail = (len - off).min(size) as usize;
        match &h {
            HDU::Primary(h) | HDU::XImage(h) => {
                header_accessors(h);
                let x = h.get_header().get_xtension();
                let bp = bitpix(x.get_bitpix());
                let px = bp.unsigned_abs() / 8;
                let prod = x
                    .get_naxis()
                    .iter()
                    .fold((!x.get_naxis().is_empty()) as u64, |a, &b| a.saturating_mul(b));
                ensure_eq!(size, prod.saturating_mul(px), "size of the data unit {n} of axes {:?}", x.get_naxis());
                let want = decode_pixels(bp, &bytes[off as usize..off as usize + avail]);
                if op % 3 < 2 {
                    let cap = if op % 3 == 0 { 3000 } else { (op >> 8) as usize % 50 };
                    let (b, got) = pixel_bits(fits.get_data(h).pixels(), cap);
                    ensure_eq!(b, bp, "type of the pixels");
                    ensure_eq!(got, want[..cap.min(want.len())], "pixels of HDU {n}");
                } else {
                    walk::each_pixels!(fits.get_data(h).pixels(), it, bits => {
                        for _ in 0..4 {
                            let r = splitmix(seed);
                            let i = match r % 4 {
                                0 => usize::MAX - (r >> 60) as usize,
                                1 => (size / px).wrapping_sub((r >> 60) + 1) as usize,
                                _ => (r >> 8) as usize % (want.len() + 2),
                            };
                            match (it.read_value(i).ok().map(bits), want.get(i)) {
                                (Some(a), b) => ensure_eq!(Some(&a), b, "pixel {i} of HDU {n}"),
                                (None, Some(_)) if i < want.len() => {
                                    // allowed only after a failed read
                                }
                                _ => {}
                            }
                        }
                    })
                }
            }
            HDU::XBinaryTable(h) => {
                header_accessors(h);
                let x = h.get_header().get_xtension();
                let (rows, cols) = (x.get_num_rows(), x.get_num_cols());
                for k in 0..4 {
                    let _ = x.find_field_by_ttype(&format!("TTYPE{k}"));
                }
                match op % 6 {
                    0 => {
                        let d = fits.get_data(h);
                        match d {
                            BinaryTableData::Table(t) => {
                                for v in t.take(3000) {
                                    let _ = cell(&v);
                                }
                            }
                            BinaryTableData::TileCompressed(p) => {
                                let (_, v) = tile_bits(p, 3000);
                                let _ = v.len();
                            }
                        }
                    }
                    1 => {
                        let k = fits.get_data(h).row_iter().take(100).count();
                        ensure!(k <= rows, "{k} rows out of {rows}");
                    }
                    2 => {
                        let mut t = fits.get_data(h).table_data();
                        for _ in 0..6 {
                            let r = splitmix(seed);
                            match r % 4 {
                                0 => {
                                    let ids: Vec<ColumnId> = (0..(r >> 8) % 5)
                                        .map(|i| match (r >> (10 + i * 4)) % 8 {
                                            7 => ColumnId::Name("TTYPE1".into()),
                                            k => ColumnId::Index(if k == 6 { cols } else { k as usize }),
                                        })
                                        .collect();
                                    t.select_fields(&ids);
                                }
                                1 | 2 => {
                                    let i = match (r >> 8) % 4 {
                                        0 => rows,
                                        1 => rows.wrapping_sub(1),
                                        2 => usize::MAX,
                                        _ => (r >> 16) as usize % (rows.saturating_add(1)),
                                    };
                                    let ok = t.seek_to_row(i).is_ok();
                                    ensure!(!ok || i < rows, "row {i} out of {rows} is found");
                                }
                                _ => {
                                    for _ in 0..(r >> 8) % 30 {
                                        let _ = t.next();
                                    }
                                }
                            }
                        }
                    }
                    3 => {
                        let mut v = vec![0; 4000];
                        let _ = fits.get_data(h).table_data().bytes().read(&mut v);
                    }
                    4 => {
                        let t = fits.get_data(h).table_data();
                        t.take(500).for_each(|v| drop(cell(&v)));
                    }
                    _ => {}
                }
            }
            HDU::XASCIITable(h) => {
                header_accessors(h);
                let x = h.get_header().get_xtension();
                let _ = (x.get_num_rows(), x.get_num_cols());
                let Content::Bytes(got) = read_content_ascii(&mut fits, h, 3000) else { unreachable!() };
                ensure_eq!(got[..], bytes[off as usize..off as usize + avail.min(3000)], "bytes of HDU {n}");
            }
        }
    }
    let x = fits.next();
    ensure!(x.is_none(), "the list goes on after its end: {}", short(&x));
    Ok(n)
}

fn read_content_ascii<R>(
    fits: &mut Fits<R>,
    h: &fitsrs::fits::HDU<fitsrs::hdu::header::extension::asciitable::AsciiTable>,
    cap: usize,
) -> Content
where
    R: Read + Seek + Debug + 'static,
{
    let mut out = vec![];
    let _ = fits.get_data(h).take(cap as u64).read_to_end(&mut out);
    Content::Bytes(out)
}

pub fn torture_raw_bytes(bytes: &[u8]) -> CheckResult {
    let mut fits = Fits::from_reader(Cursor::new(bytes));
    while let Some(Ok(h)) = fits.next() {
        let off = h.get_data_unit_byte_offset() as usize;
        let end = off.saturating_add(h.get_data_unit_byte_size() as usize).min(bytes.len());
        match &h {
            HDU::Primary(h) | HDU::XImage(h) => {
                ensure!(fits.get_data(h).raw_bytes() == &bytes[off..end], "raw bytes of the image at {off}");
            }
            HDU::XBinaryTable(h) => {
                let t = fits.get_data(h).table_data();
                ensure!(t.raw_bytes() == &bytes[off..end], "raw bytes of the table at {off}");
            }
            _ => {}
        }
    }
    Ok(())
}

pub fn torture_image(bytes: &[u8]) {
    fitsrs::image_integration::register_fits_decoding_hook();
    let mut r = image::ImageReader::new(Cursor::new(bytes));
    let mut limits = image::Limits::default();
    limits.max_alloc = Some(8 << 20);
    r.limits(limits);
    if let Ok(r) = r.with_guessed_format() {
        let _ = r.decode();
    }
}

fn torture_async(bytes: &[u8], sched: &Schedule, seed: &mut u64) -> Result<u64, String> {
    let mut af = async_fits(Arc::new(bytes.to_vec()), sched);
    let mut n = 0;
    while let Some(h) = async_next(&mut af) {
        let Ok(h) = h else {
            ensure!(async_next(&mut af).is_none(), "the asynchronous list goes on after an error");
            return Ok(n);
        };
        n += 1;
        ensure!(n <= bytes.len() as u64 / 2880, "more asynchronous HDUs than blocks");
        let cap = match splitmix(seed) % 4 {
            0 => 0,
            1 => 5,
            _ => 3000,
        };
        if cap > 0 {
            let _ = async_content(&mut af, &h, cap);
        }
    }
    ensure!(async_next(&mut af).is_none(), "the asynchronous list goes on after its end");
    Ok(n)
}

/// Files of less than 1 MiB: what they really hold needs about 1 MiB at most
fn check_memory(biggest: usize, bytes: &[u8]) -> CheckResult {
    ensure!(
        biggest <= 256 << 20,
        "{biggest} bytes are allocated at once to read a file of {} bytes",
        bytes.len()
    );
    Ok(())
}

fn check_hostile(c: &HostileCase, s: &mut Stats) -> CheckResult {
    let bytes = hostile_bytes(c);
    let (r, n) = crate::alloc::biggest_allocation(|| check_hostile_bytes(c, &bytes, s));
    r?;
    check_memory(n, &bytes)
}

fn check_hostile_bytes(c: &HostileCase, bytes: &[u8], s: &mut Stats) -> CheckResult {
    let mut seed = c.seed;
    let n = torture(bytes, AnyReader::new(&c.reader, bytes), &mut seed)?;
    torture_async(bytes, &c.sched, &mut seed)?;
    torture_raw_bytes(bytes)?;
    torture_image(bytes);
    if c.seed % 8 == 0 {
        if let Ok(r) = GzReader::new(Cursor::new(bytes.to_vec())) {
            let _ = Iterator::take(Fits::from_reader(r), 100).count();
        }
        let (mut gz, _) = GzSpec {
            members: vec![Member {
                cut: 0,
                level: 1,
                name: false,
                comment: false,
                extra: 0,
                mtime: 0,
            }],
            zeros: 0,
        }
        .build(bytes);
        let n = gz.len();
        gz[(c.seed >> 8) as usize % n] ^= (c.seed >> 40) as u8;
        if let Ok(r) = GzReader::new(Cursor::new(gz)) {
            let _ = Iterator::take(Fits::from_reader(r), 100).count();
        }
    }
    s.class(&format!("{} HDUs read", n.min(4)));
    if n >= 1 {
        s.nontrivial();
    }
    let want = c.file.as_ref().map_or(0, |f| f.hdus.len() as u64);
    s.class_if(n < want, "stopped by the mutation");
    Ok(())
}

#[derive(Debug, Hash, Serialize, Deserialize)]
struct NoiseCase {
    bytes: Vec<u8>,
    seed: u64,
    sched: Schedule,
}

fn check_noise(c: &NoiseCase, s: &mut Stats) -> CheckResult {
    let (r, n) = crate::alloc::biggest_allocation(|| check_noise_bytes(c, s));
    r?;
    check_memory(n, &c.bytes)
}

fn check_noise_bytes(c: &NoiseCase, s: &mut Stats) -> CheckResult {
    let mut seed = c.seed;
    let n = torture(&c.bytes, Cursor::new(c.bytes.clone()), &mut seed)?;
    torture_async(&c.bytes, &c.sched, &mut seed)?;
    torture_raw_bytes(&c.bytes)?;
    torture_image(&c.bytes);
    if let Ok(r) = GzReader::new(Cursor::new(c.bytes.clone())) {
        let _ = Iterator::take(Fits::from_reader(r), 100).count();
    }
    s.class_if(n > 0, "HDU read");
    if c.bytes.len() >= 80 {
        s.nontrivial();
    }
    Ok(())
}

pub fn c16() -> Vec<Box<dyn Check>> {
    vec![
        Box::new(Simple {
            name: "hostile",
            rule: "a generated file with 0 to 6 mutations: bytes flipped, cards given hostile values or \
                   replaced by hostile ones, exchanged, removed, blocks removed or repeated, array descriptors \
                   set to extreme values, truncation; read by all the means there are (pixels, random \
                   access, rows, fields, tiles, raw bytes, asynchronous, image decoder, gzip) with bounds on \
                   reader calls: no panic, no endless loop, no allocation above 2 GiB, HDUs in order and not \
                   overlapping, pixels and bytes being those of the file. Non-trivial: at least one HDU is read.",
            quick: 150_000,
            thorough: 4_000_000,
            num_choices: 300,
            gen: gen_hostile,
            check: check_hostile,
        }),
        Box::new(Simple {
            name: "noise",
            rule: "random bytes, text and cards, of 0 to 9000 bytes; non-trivial: at least 80 bytes",
            quick: 40_000,
            thorough: 800_000,
            num_choices: 80,
            gen: |g| {
                let seed = g.u64();
                let sched = gen_schedule(g);
                let mode = g.range(0, 3);
                let len = match g.range(0, 3) {
                    0 => g.usize(0, 100),
                    1 => g.usize(0, 9000),
                    2 => 2880 * g.usize(1, 3),
                    _ => 80 * g.usize(0, 40),
                };
                let mut r = g.u64();
                let mut bytes = vec![];
                if g.bool() {
                    let mut v = b"SIMPLE  =                    T".to_vec();
                    v.resize(80, b' ');
                    bytes.extend(v);
                } else if g.chance(1, 4) {
                    bytes.extend([0x1f, 0x8b, 8, 0]);
                }
                while bytes.len() < len {
                    match mode {
                        0 => bytes.push(splitmix(&mut r) as u8),
                        1 => bytes.push(b' ' + (splitmix(&mut r) % 95) as u8),
                        2 => bytes.extend(hostile_card(splitmix(&mut r))),
                        _ => bytes.push(b" ='/&END0123456789TF.-+eE"[splitmix(&mut r) as usize % 25]),
                    }
                }
                bytes.truncate(len);
                NoiseCase { bytes, seed, sched }
            },
            check: check_noise,
        }),
    ]
}

// ------------------------------------------------------------------ C17

#[derive(Debug, Hash, Serialize, Deserialize)]
struct CutCase {
    /// where it is cut
    how: u8,
    x: u64,
    reader: ReaderKind,
    sched: Schedule,
    /// of each HDU: nothing, all of it, rows
    ops: Vec<u8>,
    file: FileSpec,
}

fn gen_cut(g: &mut Gen) -> CutCase {
    CutCase {
        how: g.weighted(&[3, 2, 4, 3, 2]) as u8,
        x: g.u64(),
        reader: gen_reader(g),
        sched: gen_schedule(g),
        ops: (0..4).map(|_| g.weighted(&[3, 1, 1]) as u8).collect(),
        file: gen_file(g, 4, 4000),
    }
}

fn cut_point(c: &CutCase, b: &Built) -> usize {
    let h = &b.hdus[(c.x >> 32) as usize % b.hdus.len()];
    let (ho, d, n) = (h.header_off as usize, h.data_off as usize, h.data.len());
    let r = c.x as usize & 0xffff_ffff;
    let p = match c.how {
        0 => r % (b.bytes.len() + 1),
        // in a header
        1 => ho + r % (d - ho + 1),
        // in a data unit
        2 => d + r % (n + 1),
        // near a border
        3 => {
            let at = [ho, ho + 80, d, d + n, d + n.div_ceil(2880) * 2880][r % 5];
            (at + (r >> 8) % 5).saturating_sub(2)
        }
        _ => (b.bytes.len() / 2880).saturating_sub(r % 4) * 2880,
    };
    p.min(b.bytes.len())
}

/// Rows of a table, each as its cells
fn rows_of<R>(fits: &mut Fits<R>, h: &HDU) -> Vec<Vec<Cell>>
where
    R: Read + Seek + Debug + 'static,
{
    match h {
        HDU::XBinaryTable(h) => fits
            .get_data(h)
            .row_iter()
            .map(|r| r.iter().map(cell).collect())
            .collect(),
        _ => unreachable!(),
    }
}

fn check_cut(c: &CutCase, s: &mut Stats) -> CheckResult {
    let b = c.file.build();
    let cut = cut_point(c, &b);
    let bytes = b.bytes[..cut].to_vec();
    let whole = |h: &BuiltHdu| h.data_off as usize + h.data.len() <= cut;
    let mut fits = Fits::from_reader(AnyReader::new(&c.reader, &bytes));
    let mut stop = false;
    for (i, want) in b.hdus.iter().enumerate() {
        let (ho, d) = (want.header_off as usize, want.data_off as usize);
        if cut < d {
            s.class(if cut <= ho { "cut at or before a header" } else { "cut in a header" });
            match fits.next() {
                Some(Ok(h)) => return Err(format!("HDU {i} starts at {ho}, its data at {d}, the file ends at {cut}: {}", short(&h))),
                Some(Err(e)) => ensure!(i == 0 || cut > ho, "error {e:?} at the end of the file"),
                None => ensure!(
                    i > 0 && cut < ho + 80,
                    "HDU {i} starts at {ho}, the file ends at {cut} in its header: no error"
                ),
            }
            stop = true;
            break;
        }
        let h = walk::next_hdu(&mut fits, i, want, &c.file.hdus[i])?;
        let avail = (cut - d).min(want.data.len());
        s.class_if(avail < want.data.len(), &format!("cut in the data, {:?}", want.kind));
        if avail < want.data.len() && avail > 0 {
            s.nontrivial();
        }
        match c.ops[i] {
            0 => {
                let exp = expected_content(&c.file.hdus[i], want);
                let got = read_content(&mut fits, &h, usize::MAX);
                ensure!(
                    got.is_prefix_of(&exp),
                    "HDU {i} cut to {avail} bytes out of {}: got {}, expected a prefix of {}",
                    want.data.len(),
                    short(&got),
                    short(&exp)
                );
                let n = match &c.file.hdus[i].body {
                    Body::Image(m) => Some(avail / (m.bitpix.unsigned_abs() as usize / 8)),
                    Body::Ascii(_) => Some(avail),
                    _ if whole(want) => Some(exp.len()),
                    _ => None,
                };
                if let Some(n) = n {
                    ensure_eq!(got.len(), n, "number of values of HDU {i} cut to {avail} bytes out of {}", want.data.len());
                }
            }
            1 => {
                if let (HDU::XBinaryTable(_), Some(t)) = (&h, &want.table) {
                    if t.naxis1 > 0 {
                        let rows = rows_of(&mut fits, &h);
                        ensure!(t.rows.starts_with(&rows), "rows of HDU {i} cut to {avail} bytes: {}", short(&rows));
                        if whole(want) {
                            ensure_eq!(rows.len(), t.rows.len(), "number of rows");
                        }
                    }
                }
            }
            _ => {}
        }
    }
    if !stop {
        match fits.next() {
            None => {}
            r => return Err(format!("after the last HDU: {}", short(&r))),
        }
    }
    for _ in 0..2 {
        ensure!(fits.next().is_none(), "the list does not end");
    }
    torture_raw_bytes(&bytes)?;

    // asynchronous
    let mut af = async_fits(Arc::new(bytes.clone()), &c.sched);
    for (i, want) in b.hdus.iter().enumerate() {
        let (ho, d) = (want.header_off as usize, want.data_off as usize);
        if i > 0 && !whole(&b.hdus[i - 1]) {
            match async_next(&mut af) {
                Some(Err(_)) => {}
                r => return Err(format!("data of HDU {} cut, then {}", i - 1, short(&r.map(|r| r.map(|h| async_cards(&h)))))),
            }
            ensure!(async_next(&mut af).is_none(), "the asynchronous list does not end");
            return Ok(());
        }
        if cut < d {
            match async_next(&mut af) {
                Some(Err(_)) => ensure!(cut > ho || i == 0, "asynchronous HDU {i}: an error at the end of the file"),
                None => ensure!(cut <= ho && i > 0, "asynchronous HDU {i} cut in its header: no error"),
                Some(Ok(_)) => return Err(format!("asynchronous HDU {i} cut in its header is given")),
            }
            ensure!(async_next(&mut af).is_none(), "the asynchronous list does not end");
            return Ok(());
        }
        let h = asynch::next_hdu(&mut af, i, want)?;
        if c.ops[i] < 2 {
            let exp = async_expected(&c.file.hdus[i], want);
            let (got, e) = async_content(&mut af, &h, usize::MAX);
            let avail = (cut - d).min(want.data.len());
            ensure!(got.is_prefix_of(&exp), "asynchronous data of HDU {i}: {}", short(&got));
            ensure_eq!(e.is_some(), avail < want.data.len(), "asynchronous data of HDU {i} ended by an error");
            let px = match &c.file.hdus[i].body {
                Body::Image(m) => m.bitpix.unsigned_abs() as usize / 8,
                _ => 1,
            };
            ensure_eq!(got.len(), avail / px, "number of asynchronous values of HDU {i}");
        }
    }
    let last = async_next(&mut af);
    if whole(b.hdus.last().unwrap()) {
        ensure!(last.is_none(), "after the last HDU");
    } else {
        ensure!(matches!(last, Some(Err(_))), "the last data unit is cut, no error");
    }
    ensure!(async_next(&mut af).is_none(), "the asynchronous list does not end");
    Ok(())
}

pub fn c17() -> Vec<Box<dyn Check>> {
    vec![Box::new(Simple {
        name: "cut",
        rule: "a generated file of 1 to 4 HDUs cut at any byte (biased to headers, data units and their \
               borders), read synchronously and asynchronously: HDUs whose header is whole are given with the \
               values there are, in number, a header that is not whole is never given, and the list ends with an \
               error or nothing as documented. Non-trivial: cut inside a data unit.",
        quick: 120_000,
        thorough: 2_500_000,
        num_choices: 300,
        gen: gen_cut,
        check: check_cut,
    }), table_faults(true)]
}

// ------------------------------------------------------------------ C18

#[derive(Debug, Hash, Serialize, Deserialize)]
struct FaultCase {
    how: u8,
    x: u64,
    /// it fails once, or for ever
    once: bool,
    kind: u8,
    cap: usize,
    seed: u64,
    max: usize,
    sched: Schedule,
    /// 0: plain reader, 1: behind a BufReader, 2: gzip
    wrap: u8,
    /// the n-th seek fails
    seek: Option<u8>,
    ops: Vec<u8>,
    gz: GzSpec,
    file: FileSpec,
}

fn gen_fault(g: &mut Gen) -> FaultCase {
    FaultCase {
        how: g.weighted(&[3, 2, 5, 3, 2]) as u8,
        x: g.u64(),
        once: g.bool(),
        kind: g.range(0, 4) as u8,
        cap: gen_cap(g),
        seed: g.u64(),
        max: g.pick(&[100_000, 1, 7, 80, 500, 2880]),
        sched: gen_schedule(g),
        wrap: g.weighted(&[3, 3, 1]) as u8,
        seek: g.chance(1, 4).then(|| g.range(1, 12) as u8),
        ops: (0..4).map(|_| g.weighted(&[4, 1, 1, 1]) as u8).collect(),
        gz: gen_gz(g),
        file: gen_file(g, 4, 3000),
    }
}

/// A reader whose n-th seek fails
#[derive(Debug)]
struct BadSeek<R> {
    inner: R,
    left: Option<u8>,
    failed: Arc<std::sync::atomic::AtomicBool>,
}

impl<R: Read> Read for BadSeek<R> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.inner.read(buf)
    }
}

impl<R: Seek> Seek for BadSeek<R> {
    fn seek(&mut self, pos: SeekFrom) -> std::io::Result<u64> {
        if let Some(n) = &mut self.left {
            *n -= 1;
            if *n == 0 {
                self.left = None;
                self.failed.store(true, std::sync::atomic::Ordering::Relaxed);
                return Err(std::io::ErrorKind::Other.into());
            }
        }
        self.inner.seek(pos)
    }
}

fn fault_walk<R>(c: &FaultCase, b: &Built, at: u64, seek_failed: &dyn Fn() -> bool, reader: R, s: &mut Stats) -> CheckResult
where
    R: Read + Seek + Debug + 'static,
{
    let mut fits = Fits::from_reader(reader);
    for (i, want) in b.hdus.iter().enumerate() {
        let in_header = at >= want.header_off && at < want.data_off;
        let before = seek_failed();
        match fits.next() {
            Some(Ok(h)) => {
                ensure!(!in_header, "a read failed at {at} in the header of HDU {i}, which is given");
                check_hdu(i, &h, want)?;
                let n = want.data.len() as u64;
                let in_data = at >= want.data_off && at < want.data_off + n;
                match c.ops[i] {
                    0 => {
                        let before = seek_failed();
                        let exp = expected_content(&c.file.hdus[i], want);
                        let got = read_content(&mut fits, &h, usize::MAX);
                        ensure!(
                            got.is_prefix_of(&exp),
                            "HDU {i}, read failing at {at}: got {}, expected a prefix of {}",
                            short(&got),
                            short(&exp)
                        );
                        let seeks_ok = before == seek_failed();
                        if in_data {
                            s.class(&format!("fails in the data, {:?}", want.kind));
                            s.nontrivial();
                            let k = (at - want.data_off) as usize;
                            match &c.file.hdus[i].body {
                                Body::Image(m) => {
                                    ensure_eq!(got.len(), k / (m.bitpix.unsigned_abs() as usize / 8), "number of pixels before the failure")
                                }
                                Body::Ascii(_) => ensure_eq!(got.len(), k, "number of bytes before the failure"),
                                Body::Bin(_) | Body::Tile(_) => {}
                            }
                        } else if seeks_ok {
                            ensure_eq!(got.len(), exp.len(), "number of values of HDU {i}, no read of it failed");
                        }
                    }
                    1 => match &h {
                        HDU::Primary(x) | HDU::XImage(x) => {
                            // random access
                            let Content::Pixels(bp, exp) = expected_content(&c.file.hdus[i], want) else { unreachable!() };
                            let px = bp.unsigned_abs() as usize / 8;
                            let mut seed = c.seed;
                            let mut failed = false;
                            walk::each_pixels!(fits.get_data(x).pixels(), it, bits => {
                                for _ in 0..8 {
                                    let r = splitmix(&mut seed);
                                    let k = r as usize % (exp.len() + 1);
                                    let before = seek_failed();
                                    let got = match r >> 62 {
                                        0 => continue,
                                        1 if !failed => it.read_value(k).ok().map(bits),
                                        _ => it.read_value(k).ok().map(bits),
                                    };
                                    if let Some(got) = got {
                                        ensure_eq!(Some(&got), exp.get(k), "pixel {k} of HDU {i}, after failure: {failed}");
                                    } else if k < exp.len() && !failed {
                                        let o = want.data_off as usize + k * px;
                                        let hit = (o..o + px).contains(&(at as usize)) || before != seek_failed();
                                        ensure!(hit, "pixel {k} of HDU {i} is not read and nothing failed");
                                        failed = true;
                                    }
                                }
                            });
                            if failed {
                                s.class("fails in a random access");
                                s.nontrivial();
                            }
                        }
                        HDU::XBinaryTable(_) => {
                            if let Some(t) = &want.table {
                                if t.naxis1 > 0 {
                                    let rows = rows_of(&mut fits, &h);
                                    ensure!(t.rows.starts_with(&rows), "rows of HDU {i}, read failing at {at}: {}", short(&rows));
                                }
                            }
                        }
                        _ => {}
                    },
                    2 => {
                        let exp = expected_content(&c.file.hdus[i], want);
                        let got = read_content(&mut fits, &h, amount(c.seed, exp.len()));
                        ensure!(got.is_prefix_of(&exp), "first values of HDU {i}");
                    }
                    _ => {}
                }
            }
            Some(Err(_)) => {
                ensure!(
                    in_header || before != seek_failed(),
                    "error for HDU {i} and nothing failed (fault at {at}, header at {})",
                    want.header_off
                );
                s.class("error reported for a header");
                s.nontrivial();
                for _ in 0..2 {
                    ensure!(fits.next().is_none(), "the list goes on after an error");
                }
                return Ok(());
            }
            None => return Err(format!("HDU {i} is missing without any error, fault at {at}")),
        }
    }
    let before = seek_failed();
    match fits.next() {
        None => {}
        Some(Err(_)) => ensure!(before != seek_failed() || at >= b.bytes.len() as u64, "error after the last HDU"),
        Some(Ok(_)) => return Err("a HDU too many".into()),
    }
    let before = seek_failed();
    let more = fits.next();
    ensure!(
        more.is_none() || (matches!(more, Some(Err(_))) && before != seek_failed()),
        "the list goes on after its end"
    );
    Ok(())
}

fn fault_point(c: &FaultCase, b: &Built) -> u64 {
    let cut = CutCase {
        how: c.how,
        x: c.x,
        reader: ReaderKind::Cursor,
        sched: c.sched.clone(),
        ops: vec![],
        file: FileSpec {
            hdus: vec![],
            pad_last: true,
        },
    };
    cut_point(&cut, b) as u64
}

fn check_fault(c: &FaultCase, s: &mut Stats) -> CheckResult {
    let b = c.file.build();
    let failed = Arc::new(std::sync::atomic::AtomicBool::new(false));
    let seek_failed = {
        let f = failed.clone();
        move || f.load(std::sync::atomic::Ordering::Relaxed)
    };
    let at = match c.seek {
        None => fault_point(c, &b),
        Some(_) => u64::MAX,
    };
    let chunk = |bytes: &[u8], at: u64| {
        let mut r = Chunk::new(Arc::new(bytes.to_vec()), c.seed, c.max);
        r.fault = Some(Fault {
            at,
            times: if c.once { 1 } else { u32::MAX },
            kind: c.kind,
        });
        BadSeek {
            inner: r,
            left: c.seek,
            failed: failed.clone(),
        }
    };
    s.class(if c.seek.is_some() { "seek fails" } else { "read fails" });
    match c.wrap {
        0 => fault_walk(c, &b, at, &seek_failed, chunk(&b.bytes, at), s)?,
        1 => fault_walk(
            c,
            &b,
            at,
            &seek_failed,
            BufReader::with_capacity(c.cap, chunk(&b.bytes, at)),
            s,
        )?,
        _ => {
            let (gz, _) = c.gz.build(&b.bytes);
            // beyond the header of the file
            let at = 600 + c.x % gz.len() as u64;
            if at < (gz.len() - c.gz.zeros) as u64 {
                s.class("fails in a gzip file");
                s.nontrivial();
                let r = GzReader::new(chunk(&gz, at));
                ensure!(r.is_err(), "a read of the gzip file failed and it is opened");
            }
        }
    }

    // asynchronous
    let at = fault_point(c, &b);
    if at >= b.bytes.len() as u64 {
        return Ok(());
    }
    let mut r = AsyncChunk::new(Arc::new(b.bytes.clone()), &c.sched);
    r.fault = Some(Fault {
        at,
        times: if c.once { 1 } else { u32::MAX },
        kind: c.kind,
    });
    let mut af = fitsrs::AsyncFits::from_reader(futures::io::BufReader::with_capacity(c.sched.cap, r));
    let mut seen = false;
    for (i, want) in b.hdus.iter().enumerate() {
        let must_fail = !(c.once && seen) && at < want.data_off;
        match async_next(&mut af) {
            Some(Ok(h)) => {
                ensure!(!must_fail, "asynchronous HDU {i} is given though a read failed at {at} before its data at {}", want.data_off);
                check_async_hdu(i, &h, want)?;
                if c.ops[i] == 0 || c.ops[i] == 2 {
                    let exp = async_expected(&c.file.hdus[i], want);
                    let cap = if c.ops[i] == 0 { usize::MAX } else { amount(c.seed, exp.len()) };
                    let (got, e) = async_content(&mut af, &h, cap);
                    ensure!(got.is_prefix_of(&exp), "asynchronous data of HDU {i}: {}", short(&got));
                    let px = match &c.file.hdus[i].body {
                        Body::Image(m) => m.bitpix.unsigned_abs() as usize / 8,
                        _ => 1,
                    };
                    let k = at.saturating_sub(want.data_off) as usize;
                    let hit = at >= want.data_off && k < want.data.len() && k / px < cap;
                    ensure_eq!(e.is_some(), hit, "asynchronous data of HDU {i}: error, fault at {at}");
                    if hit {
                        s.class("fails in asynchronous data");
                        s.nontrivial();
                        seen = true;
                        ensure_eq!(got.len(), k / px, "asynchronous values of HDU {i} before the failure");
                    } else {
                        ensure_eq!(got.len(), exp.len().min(cap), "asynchronous values of HDU {i}");
                    }
                }
            }
            Some(Err(_)) => {
                ensure!(must_fail, "error for the asynchronous HDU {i} and nothing failed, fault at {at}");
                for _ in 0..2 {
                    ensure!(async_next(&mut af).is_none(), "the asynchronous list goes on after an error");
                }
                return Ok(());
            }
            None => return Err(format!("asynchronous HDU {i} is missing without any error, fault at {at}")),
        }
    }
    match async_next(&mut af) {
        // the rest of the file could not be read
        Some(Err(_)) => ensure!(!(c.once && seen), "an error after the last asynchronous HDU and nothing failed"),
        None => ensure!(c.once && seen, "the end of the file could not be read, no error"),
        Some(Ok(_)) => return Err("an asynchronous HDU too many".into()),
    }
    ensure!(async_next(&mut af).is_none(), "the asynchronous list does not end");
    Ok(())
}

// ------------------------------------------------------------------ faults while a table is read

/// A reader one of whose calls fails, once or for ever, or whose file ends before its end
#[derive(Debug)]
struct Flaky {
    inner: Chunk,
    /// calls left before the failure
    left: u32,
    once: bool,
    kind: u8,
    /// calls that failed, or met the end of the file
    failed: Arc<std::sync::atomic::AtomicU32>,
    armed: Arc<std::sync::atomic::AtomicBool>,
}

impl Flaky {
    fn call(&mut self) -> std::io::Result<()> {
        use std::sync::atomic::Ordering::Relaxed;
        if !self.armed.load(Relaxed) {
            return Ok(());
        }
        if self.left > 0 {
            self.left -= 1;
            return Ok(());
        }
        if self.once {
            self.left = u32::MAX;
        }
        self.failed.fetch_add(1, Relaxed);
        Err(FAULT_KINDS[self.kind as usize].into())
    }
}

impl Read for Flaky {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.call()?;
        let n = self.inner.read(buf)?;
        if n == 0 && !buf.is_empty() {
            self.failed.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        }
        Ok(n)
    }
}

impl Seek for Flaky {
    fn seek(&mut self, pos: SeekFrom) -> std::io::Result<u64> {
        self.call()?;
        self.inner.seek(pos)
    }
}

#[derive(Debug, Hash, Serialize, Deserialize)]
enum TableOp {
    /// fields, one bit each, then a row
    Select(u64, usize),
    Seek(usize),
    Take(usize),
    All,
}

#[derive(Debug, Hash, Serialize, Deserialize)]
struct TableFault {
    /// the file ends here instead of failing
    cut: Option<u64>,
    /// calls of the reader before one fails, from the data unit on
    calls: u32,
    once: bool,
    kind: u8,
    seed: u64,
    max: usize,
    /// capacity of a BufReader
    cap: Option<usize>,
    ops: Vec<TableOp>,
    /// ends with rows instead of values
    rows: bool,
    table: TableSpec,
}

fn gen_table_fault(g: &mut Gen, cut: bool) -> TableFault {
    let cut = cut.then(|| g.u64());
    let calls = match g.weighted(&[3, 3, 1]) {
        0 => g.range(0, 10),
        1 => g.range(0, 60),
        _ => g.range(0, 600),
    } as u32;
    let (once, kind, seed) = (g.bool(), g.range(0, 4) as u8, g.u64());
    let max = g.pick(&[100_000, 1, 2, 3, 7, 80]);
    let cap = g.chance(1, 3).then(|| gen_cap(g));
    let rows = g.chance(1, 3);
    let ops = (0..g.usize(0, 7))
        .map(|_| match g.weighted(&[3, 3, 4, 2]) {
            0 => TableOp::Select(g.u64() | if g.bool() { 0 } else { g.u64() }, g.usize(0, 130)),
            1 => TableOp::Seek(g.usize(0, 130)),
            2 => TableOp::Take(g.usize(0, 40)),
            _ => TableOp::All,
        })
        .collect();
    let mut table = gen_table(g, 2);
    table.rows = table.rows.clamp(1, 40);
    TableFault {
        cut,
        calls,
        once,
        kind,
        seed,
        max,
        cap,
        ops,
        rows,
        table,
    }
}

fn check_table_fault(c: &TableFault, s: &mut Stats) -> CheckResult {
    use std::sync::atomic::Ordering::Relaxed;
    let b = FileSpec {
        hdus: vec![
            empty_primary(),
            HduSpec {
                body: Body::Bin(c.table.clone()),
                ..empty_primary()
            },
            HduSpec {
                body: Body::Image(ImageSpec {
                    bitpix: 8,
                    naxis: vec![3],
                    blob: Blob { seed: 0, mode: 0 },
                }),
                ..empty_primary()
            },
        ],
        pad_last: true,
    }
    .build();
    let want = &b.hdus[1];
    let t = want.table.as_ref().unwrap();
    if t.naxis1 == 0 {
        return Ok(());
    }
    let mut bytes = b.bytes.clone();
    if let Some(x) = c.cut {
        bytes.truncate((want.data_off + x % (want.data.len() as u64 + 1)) as usize);
    }
    let failed = Arc::new(std::sync::atomic::AtomicU32::new(0));
    let armed = Arc::new(std::sync::atomic::AtomicBool::new(false));
    let mut inner = Chunk::new(Arc::new(bytes), c.seed, c.max);
    inner.interrupts = c.seed % 2 == 0;
    let r = Flaky {
        inner,
        left: c.calls,
        once: c.once,
        kind: c.kind,
        failed: failed.clone(),
        armed: armed.clone(),
    };
    let fired = || failed.load(Relaxed);
    let arm = || armed.store(c.cut.is_none(), Relaxed);
    match c.cap {
        None => table_fault_walk(c, &b, r, &fired, &arm, s),
        Some(n) => table_fault_walk(c, &b, BufReader::with_capacity(n, r), &fired, &arm, s),
    }
}

fn table_fault_walk<R>(c: &TableFault, b: &Built, reader: R, fired: &dyn Fn() -> u32, arm: &dyn Fn(), s: &mut Stats) -> CheckResult
where
    R: Read + Seek + Debug + 'static,
{
    let want = &b.hdus[1];
    let t = want.table.as_ref().unwrap();
    let mut fits = Fits::from_reader(reader);
    for (i, want) in b.hdus[..2].iter().enumerate() {
        let Some(Ok(h)) = fits.next() else {
            return Err(format!("HDU {i} is not read"));
        };
        check_hdu(i, &h, want)?;
        let HDU::XBinaryTable(h) = &h else { continue };
        arm();
        let mut data = fits.get_data(h).table_data();
        let mut sel: Vec<usize> = (0..c.table.cols.len()).collect();
        // where the next value can be: nowhere after a failure
        let mut at = vec![(0, 0)];
        let mut sure = true;
        let row = |r: usize, sel: &[usize]| -> Vec<Cell> { t.rows[r].iter().filter(|x| sel.contains(&x.0)).copied().collect() };
        // what is left, from a location on
        let rest = |(r, k): (usize, usize), sel: &[usize]| -> Vec<Cell> {
            let v: Vec<Cell> = (r..t.rows.len()).flat_map(|r| row(r, sel)).collect();
            v[k..].to_vec()
        };
        let mut again = false;
        for (n, op) in c.ops.iter().enumerate() {
            let before = fired();
            match op {
                TableOp::Select(_, r) | TableOp::Seek(r) => {
                    if let TableOp::Select(m, _) = op {
                        sel = (0..c.table.cols.len()).filter(|k| m >> (k % 64) & 1 == 1).collect();
                        let ids: Vec<ColumnId> = sel.iter().map(|k| ColumnId::Index(*k)).collect();
                        data.select_fields(&ids);
                        at.retain(|x| x.1 == 0);
                    }
                    let r = r % t.rows.len();
                    match data.seek_to_row(r) {
                        Ok(()) => {
                            again |= at.is_empty();
                            at = vec![(r, 0)];
                            sure = true;
                        }
                        Err(e) => {
                            ensure!(fired() > 0, "operation {n}: {e:?} though nothing failed");
                            // the table has not moved, or the row is sought again with the next value
                            at.push((r, 0));
                            sure = false;
                        }
                    }
                }
                TableOp::Take(_) | TableOp::All => {
                    let max = match op {
                        TableOp::Take(k) => *k,
                        _ => usize::MAX,
                    };
                    let got: Vec<Cell> = data.by_ref().take(max).map(|v| cell(&v)).collect();
                    let exp: Vec<Vec<Cell>> = at.iter().map(|p| rest(*p, &sel)).collect();
                    ensure!(
                        got.is_empty() || exp.iter().any(|x| x.starts_with(&got)),
                        "operation {n}, columns {sel:?} from {at:?} ({} failures, {} before): got {}, expected {}",
                        fired(),
                        before,
                        short(&got),
                        short(&exp)
                    );
                    if exp.iter().all(|x| got.len() < x.len().min(max)) {
                        if sure && !exp.is_empty() {
                            ensure!(fired() > before, "operation {n}: {} values of {}, nothing failed", got.len(), exp[0].len());
                            s.class("values end at a failure");
                            s.nontrivial();
                        }
                        at.clear();
                    } else {
                        let mut exp = exp.iter();
                        at.retain(|_| exp.next().unwrap().starts_with(&got));
                        at.iter_mut().for_each(|x| x.1 += got.len());
                    }
                }
            }
        }
        s.class_if(again, "read again after a failure");
        if c.rows {
            // from the beginning of a row
            let before = fired();
            let (r, ok) = match c.seed as usize % (t.rows.len() + 1) {
                0 if c.ops.is_empty() => (0, true),
                r => (r % t.rows.len(), data.seek_to_row(r % t.rows.len()).is_ok()),
            };
            ensure!(ok || fired() > 0, "row {r} is not reached and nothing failed");
            if ok {
                let mut it = data.row_iter();
                let mut n = 0;
                let lost = fired() > before;
                for got in it.by_ref() {
                    let got: Vec<Cell> = got.iter().map(cell).collect();
                    ensure!(r + n < t.rows.len(), "row {} does not exist", r + n);
                    ensure_eq!(got, row(r + n, &sel), "row {}, columns {sel:?}", r + n);
                    n += 1;
                }
                let has_values = c.table.cols.iter().enumerate().any(|(k, x)| sel.contains(&k) && x.num_bytes() > 0);
                if has_values && !lost && fired() == before {
                    ensure_eq!(n, t.rows.len() - r, "number of rows, nothing failed");
                }
                if n < t.rows.len() - r {
                    ensure!(it.next().is_none(), "rows go on after their end");
                }
                s.class("rows");
            }
        }
    }
    let before = fired();
    match fits.next() {
        Some(Ok(h)) => check_hdu(2, &h, &b.hdus[2])?,
        Some(Err(_)) => ensure!(fired() > before, "the next HDU is an error and nothing failed"),
        None => ensure!(c.cut.is_some(), "the next HDU is missing"),
    }
    Ok(())
}

fn table_faults(cut: bool) -> Box<dyn Check> {
    Box::new(Simple {
        name: if cut { "table_cut" } else { "table_faults" },
        rule: "a binary table, with arrays, whose fields are selected, whose rows are reached and whose values and \
               rows are taken, in any order, on a reader one of whose calls (read or seek) fails, once or for ever, \
               or whose file ends in the data unit, plain or behind a BufReader: values stop at the failure, those \
               given before, and after a row has been reached again, are those of the file, nothing is given in \
               between, and nothing fails without a cause. Non-trivial: the failure is met.",
        quick: 40_000,
        thorough: 1_000_000,
        num_choices: 200,
        gen: if cut { |g| gen_table_fault(g, true) } else { |g| gen_table_fault(g, false) },
        check: check_table_fault,
    })
}

pub fn c18() -> Vec<Box<dyn Check>> {
    vec![Box::new(Simple {
        name: "faults",
        rule: "a generated file of 1 to 4 HDUs on a reader that fails, once or for ever, when a given byte \
               is reached or at a given seek, plain, behind a BufReader of any capacity, gzipped, or \
               asynchronous: an error is given for a header, the list then ends, the values of a data unit end \
               where the failure is, everything given is what was written, and HDUs are never missing without an \
               error. Non-trivial: the failure is met.",
        quick: 100_000,
        thorough: 2_000_000,
        num_choices: 300,
        gen: gen_fault,
        check: check_fault,
    }), table_faults(false)]
}
