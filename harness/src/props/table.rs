//! Tables

use crate::engine::*;
use crate::model::*;
use crate::readers::*;
use crate::util::*;
use crate::{ensure, ensure_eq};
use fitsrs::hdu::data::bintable::data::BinaryTableData;
use fitsrs::hdu::data::bintable::{ColumnId, TableData};
use fitsrs::hdu::header::extension::asciitable::TFormAsciiTable;
use fitsrs::{Fits, HDU};
use serde::{Deserialize, Serialize};
use std::fmt::Debug;
use std::collections::BTreeSet;
use std::io::{BufRead, Cursor, Read, Seek};
use std::sync::Arc;

fn file_of(body: Body, g: &mut Gen) -> FileSpec {
    let mut f = with_primary(
        HduSpec {
            body,
            extra: vec![],
            fill: gen_fill(g),
            style: gen_style(g),
        },
        true,
    );
    f.pad_last = !g.chance(1, 4);
    f
}

fn bin(spec: &FileSpec) -> &TableSpec {
    match &spec.hdus[1].body {
        Body::Bin(t) => t,
        _ => unreachable!(),
    }
}

/// The second HDU, which is a table
fn second<R>(fits: &mut Fits<R>) -> Result<HDU, String>
where
    R: Read + Seek + Debug + 'static,
{
    match fits.next() {
        Some(Ok(_)) => {}
        x => return Err(format!("primary HDU: {}", short(&x))),
    }
    match fits.next() {
        Some(Ok(h)) => Ok(h),
        x => Err(format!("table: {}", short(&x))),
    }
}

// ------------------------------------------------------------------ C08, C09

#[derive(Debug, Hash, Serialize, Deserialize)]
struct TableCase {
    file: FileSpec,
    reader: ReaderKind,
}

/// Cards about the columns that change nothing to the stored values, and those of a compressed image
/// that are not complete or not supported: the table is then a table like any other. 0: none
fn other_cards(mut seed: u64, cols: &mut [Col]) -> Vec<crate::cards::CardSpec> {
    use crate::cards::*;
    let mut out = vec![];
    if seed % 2 == 0 {
        return out;
    }
    let mut r = |n: u64| splitmix(&mut seed) % n;
    for (i, c) in cols.iter().enumerate().take(60) {
        let i = i + 1;
        match r(8) {
            0 => out.push(float(&format!("TSCAL{i}"), 2.5)),
            1 => out.push(int(&format!("TSCAL{i}"), 2)),
            2 => {
                out.push(int(&format!("TZERO{i}"), 32768));
                out.push(int(&format!("TSCAL{i}"), 1));
            }
            3 => out.push(int(&format!("TNULL{i}"), [0, -1, 255, 32][r(4) as usize])),
            4 => out.push(string(&format!("TDIM{i}"), &format!("({})", c.repeat))),
            5 => out.push(string(&format!("TUNIT{i}"), "km/s")),
            6 => out.push(string(&format!("TDISP{i}"), "F8.3")),
            _ => {}
        }
    }
    if r(2) == 0 {
        if let Some(c) = cols.iter_mut().find(|c| c.is_desc() && c.repeat > 0) {
            c.name = Some("COMPRESSED_DATA".to_owned());
        } else if let Some(c) = cols.first_mut() {
            c.name = Some("COMPRESSED_DATA".to_owned());
        }
        let without = r(11);
        let keyword = match without {
            0 => None,
            1 => Some("HCOMPRESS_1"),
            2 => Some("PLIO_1"),
            3 => Some("NOCOMPRESS"),
            _ => [Some("GZIP_1"), Some("GZIP_2"), Some("RICE_1")][r(3) as usize],
        };
        out.push(logical("ZIMAGE", true));
        if without == 9 {
            out.push(string("ZCMPTYPE", "RICE_1"));
            out.push(string("ZNAME1", "BYTEPIX"));
            out.push(int("ZVAL1", 8));
        } else if let Some(k) = keyword {
            out.push(string("ZCMPTYPE", k));
        }
        match without {
            4 => {}
            5 => out.push(int("ZBITPIX", 64)),
            // without ZSCALE nor ZZERO
            6 => out.push(int("ZBITPIX", -32)),
            _ => out.push(int("ZBITPIX", 16)),
        }
        if without != 7 {
            out.push(int("ZNAXIS", 2));
        }
        out.push(int("ZNAXIS1", 4));
        if without != 8 {
            out.push(int("ZNAXIS2", 3));
        }
        if without == 10 {
            out.push(int("ZTILE1", 0));
        }
    }
    out
}

/// Up to 999 columns, with or without names of their own
fn many_columns(g: &mut Gen, t: &mut TableSpec) {
    let n = if g.bool() { g.usize(100, 999) } else { 999 };
    let named = g.chance(3, 4);
    let pat = t.cols.clone();
    t.cols = (0..n).map(|i| pat[i % pat.len()].clone()).collect();
    if named {
        for (i, c) in t.cols.iter_mut().enumerate() {
            if i % 10 != 3 {
                c.name = Some(format!("COL{}", i * 7 % 1000));
            }
        }
    }
    let naxis1 = t.naxis1();
    t.rows = t.rows.min(40_000 / naxis1.max(1));
}

fn gen_plain(g: &mut Gen) -> TableCase {
    let other = g.u64();
    let mut t = gen_table(g, 0);
    if g.chance(1, 60) {
        many_columns(g, &mut t);
    }
    if g.chance(1, 30) {
        // more bytes than any buffer
        let naxis1 = t.naxis1().max(1);
        t.rows = g.usize(1, 3) * 20_000 / naxis1;
        t.rows = t.rows.min(3000);
    }
    let extra = other_cards(other, &mut t.cols);
    let mut c = TableCase {
        reader: gen_reader(g),
        file: file_of(Body::Bin(t), g),
    };
    c.file.hdus[1].extra = extra;
    c
}

fn gen_arrays(g: &mut Gen) -> TableCase {
    let other = g.u64();
    let mut t = gen_table(g, 6);
    if !t.cols.iter().any(|c| c.is_desc()) {
        t.cols[0].ty = 'P';
        t.cols[0].repeat = 1;
        t.cols[0].elem = g.pick(SCALARS);
    }
    if t.rows == 0 && g.chance(9, 10) {
        t.rows = g.usize(1, 5);
    }
    if g.chance(1, 20) {
        // long arrays
        t.rows = t.rows.min(4);
        t.cols.truncate(4);
        t.max_len = g.usize(100, 4000);
    }
    let extra = other_cards(other, &mut t.cols);
    let mut c = TableCase {
        reader: gen_reader(g),
        file: file_of(Body::Bin(t), g),
    };
    c.file.hdus[1].extra = extra;
    c
}

fn check_table(c: &TableCase, s: &mut Stats) -> CheckResult {
    let b = c.file.build();
    let spec = bin(&c.file);
    let want = &b.hdus[1];
    let bt = want.table.as_ref().unwrap();
    let cells: Vec<Cell> = bt.rows.concat();
    s.add("values", cells.len() as u64);
    s.add("non-empty arrays", bt.non_empty_arrays as u64);
    for col in &spec.cols {
        let t = if col.is_desc() { format!("{}{}", col.ty, col.elem) } else { col.ty.to_string() };
        s.class(&format!("column {t}"));
        s.class_if(col.repeat == 0, "empty column");
    }
    s.class_if(spec.theap && spec.gap > 0, "gap before the heap");
    s.class_if(spec.cols.len() > 99, "more than 99 columns");
    let other = c.file.hdus[1].extra.iter();
    s.class_if(
        other.clone().any(|c| matches!(c, crate::cards::CardSpec::Value { name, .. } if name == "ZIMAGE")),
        "cards of a compressed image that is not one",
    );
    s.class_if(other.count() > 0, "other cards about the columns");
    s.class_if(want.data.len() > 8192, "data bigger than a buffer");

    // value by value
    let mut fits = Fits::from_reader(AnyReader::new(&c.reader, &b.bytes));
    let hdu = second(&mut fits)?;
    check_hdu(1, &hdu, want)?;
    let HDU::XBinaryTable(h) = &hdu else {
        return Err("not a binary table".into());
    };
    let x = h.get_header().get_xtension();
    ensure_eq!(x.get_num_cols(), spec.cols.len(), "columns");
    ensure_eq!(x.get_num_rows(), spec.rows, "rows");
    for n in NAMES {
        let first = spec.cols.iter().position(|c| c.name.as_deref() == Some(n));
        ensure_eq!(x.find_field_by_ttype(n), first, "index of the field {n}");
    }
    for col in &spec.cols {
        let Some(n) = &col.name else { continue };
        let first = spec.cols.iter().position(|c| c.name.as_ref() == Some(n));
        ensure_eq!(x.find_field_by_ttype(n), first, "index of the field {n}");
    }
    let BinaryTableData::Table(t) = fits.get_data(h) else {
        return Err("a table given as a tile-compressed image".into());
    };
    let mut it = t;
    for (i, w) in cells.iter().enumerate() {
        match it.next() {
            Some(v) => ensure_eq!(cell(&v), *w, "value {i}"),
            None => return Err(format!("{i} values, expected {}", cells.len())),
        }
    }
    ensure!(it.next().is_none(), "a value too many");

    // row by row
    let mut fits = Fits::from_reader(AnyReader::new(&c.reader, &b.bytes));
    let hdu = second(&mut fits)?;
    let HDU::XBinaryTable(h) = &hdu else { unreachable!() };
    if bt.naxis1 > 0 {
        let mut it = fits.get_data(h).row_iter();
        for (i, w) in bt.rows.iter().enumerate() {
            ensure_eq!(it.get_row_idx(), i, "index of the row to come");
            match it.next() {
                Some(r) => {
                    let got: Vec<Cell> = r.iter().map(cell).collect();
                    ensure_eq!(got, *w, "row {i}")
                }
                None => return Err(format!("{i} rows, expected {}", bt.rows.len())),
            }
        }
        ensure!(it.next().is_none(), "a row too many");
    }
    // the next HDU is where it is
    ensure!(fits.next().is_none(), "a HDU too many");

    // bytes of the main table
    let mut fits = Fits::from_reader(AnyReader::new(&c.reader, &b.bytes));
    let hdu = second(&mut fits)?;
    let HDU::XBinaryTable(h) = &hdu else { unreachable!() };
    let mut v = vec![];
    fits.get_data(h)
        .table_data()
        .bytes()
        .read_to_end(&mut v)
        .map_err(|e| format!("bytes: {e}"))?;
    ensure_eq!(v, bt.main, "bytes of the main table");

    // raw bytes in memory
    let mut fits = Fits::from_reader(Cursor::new(&b.bytes[..]));
    fits.next();
    let hdu = fits.next().unwrap().unwrap();
    let HDU::XBinaryTable(h) = &hdu else { unreachable!() };
    let t = fits.get_data(h).table_data();
    ensure_eq!(t.raw_bytes(), &want.data[..], "raw bytes");
    ensure_eq!(t.get_ref().len(), b.bytes.len(), "whole buffer");
    Ok(())
}

/// Rows or fields of more than 65535 bytes, or more than 65535 rows
fn gen_large(g: &mut Gen) -> TableCase {
    let wide = g.bool();
    let reader = gen_reader(g);
    let mut t = gen_table(g, 0);
    t.cols.truncate(3);
    if wide {
        let i = g.usize(0, t.cols.len() - 1);
        let size = elem_size(t.cols[i].ty);
        t.cols[i].repeat = (65_536 + g.usize(0, 3000)) / size + 1;
        if t.cols[i].ty == 'X' {
            t.cols[i].repeat *= 8;
        }
        t.rows = g.usize(1, 3);
    } else {
        for c in t.cols.iter_mut() {
            c.repeat = c.repeat.min(2);
        }
        if t.naxis1() == 0 {
            t.cols[0].repeat = 1;
        }
        t.rows = 65_530 + g.usize(0, 3000);
    }
    TableCase {
        reader,
        file: file_of(Body::Bin(t), g),
    }
}

/// Arrays of more than 65535 elements
fn gen_large_arrays(g: &mut Gen) -> TableCase {
    let reader = gen_reader(g);
    let max_len = 70_000 + g.usize(0, 60_000);
    let (ty, elem, rows) = (g.pick(&['P', 'Q']), g.pick(SCALARS), g.usize(1, 2));
    let mut t = gen_table(g, 6);
    t.cols.truncate(2);
    t.cols[0].ty = ty;
    t.cols[0].repeat = 1;
    t.cols[0].elem = elem;
    t.rows = rows;
    t.max_len = max_len;
    TableCase {
        reader,
        file: file_of(Body::Bin(t), g),
    }
}

// ------------------------------------------------------------------ beyond 4 GiB

#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
enum FarOp {
    Seek(u64),
    Next(usize),
    Select(Vec<usize>),
    Row,
}

#[derive(Debug, Hash, Serialize, Deserialize)]
struct FarCase {
    cols: Vec<Col>,
    rows: u64,
    gap: u64,
    theap: bool,
    heap: u64,
    seed: u64,
    ops: Vec<FarOp>,
}

fn gen_far(g: &mut Gen) -> FarCase {
    let vla = g.pick(&[0, 5]);
    let (theap, seed) = (g.bool(), g.u64());
    let n = g.usize(1, 5);
    let mut cols: Vec<Col> = (0..n).map(|_| gen_col(g, vla)).collect();
    if g.chance(1, 3) {
        cols.push(Col {
            ty: 'B',
            repeat: g.usize(100, 100_000),
            elem: 'B',
            name: None,
            style: 0,
        });
        let k = g.usize(0, n);
        cols.swap(n, k);
    }
    if cols.iter().all(|c| c.num_bytes() == 0) {
        cols[0].repeat = 1;
    }
    let naxis1: u64 = cols.iter().map(|c| c.num_bytes() as u64).sum();
    let size = (1u64 << g.pick(&[31, 32, 33, 35, 40])) + g.range(0, 1 << 20);
    let rows = size / naxis1 + 1;
    let k = g.usize(2, 10);
    let cl = cols.len();
    let ops = (0..k)
        .map(|i| match if i == 0 { 0 } else { g.weighted(&[4, 4, 2, 2]) } {
            0 => FarOp::Seek(match g.weighted(&[3, 1, 1, 1]) {
                0 => g.u64() % rows,
                1 => rows - 1 - g.range(0, 1),
                2 => ((1u64 << 32) / naxis1 + g.range(0, 1)).min(rows - 1),
                _ => g.range(0, 2),
            }),
            1 => FarOp::Next(g.usize(1, 30)),
            2 => {
                let k = g.usize(1, 3);
                FarOp::Select((0..k).map(|_| g.usize(0, cl - 1)).collect())
            }
            _ => FarOp::Row,
        })
        .collect();
    FarCase {
        cols,
        rows,
        gap: if theap { g.pick(&[0, 7, 1 << 31, 1 << 33]) } else { 0 },
        theap,
        heap: 1u64 << g.pick(&[20, 32, 36]),
        seed,
        ops,
    }
}

fn check_far(c: &FarCase, s: &mut Stats) -> CheckResult {
    use crate::cards::*;
    let naxis1: u64 = c.cols.iter().map(|c| c.num_bytes() as u64).sum();
    let main = naxis1 * c.rows;
    let mut cards = vec![
        CardSpec::Xtension {
            kind: Ext::Bin,
            text: format!("{:<8}", Ext::Bin.name()),
            comment: None,
        },
        int("BITPIX", 8),
        int("NAXIS", 2),
        int("NAXIS1", naxis1 as i64),
        int("NAXIS2", c.rows as i64),
        int("PCOUNT", (c.gap + c.heap) as i64),
        int("GCOUNT", 1),
        int("TFIELDS", c.cols.len() as i64),
    ];
    if c.theap {
        cards.push(int("THEAP", (main + c.gap) as i64));
    }
    for (i, col) in c.cols.iter().enumerate() {
        if let Some(n) = &col.name {
            cards.push(string(&format!("TTYPE{}", i + 1), n));
        }
        cards.push(string(&format!("TFORM{}", i + 1), &col.tform(50)));
    }
    cards.push(CardSpec::End);
    let primary = empty_primary().unit(true).1;
    let mut head = header_bytes(&primary);
    head.extend(header_bytes(&cards));
    let start = head.len() as u64;
    let heap_at = start + main + c.gap;
    let len = heap_at + c.heap;

    // the rows that are visited, and the ones that follow them
    let mut seed = c.seed;
    let mut segs = vec![(0, head)];
    let mut visited: Vec<u64> = c
        .ops
        .iter()
        .flat_map(|o| match o {
            FarOp::Seek(r) => vec![*r, (*r + 1).min(c.rows - 1)],
            _ => vec![],
        })
        .collect();
    visited.sort_unstable();
    visited.dedup();
    let mut far_array = false;
    for r in &visited {
        let mut row = Blob {
            seed: splitmix(&mut seed),
            mode: 0,
        }
        .bytes(naxis1 as usize);
        let mut p = 0;
        for col in &c.cols {
            if col.is_desc() && col.repeat > 0 {
                let n = splitmix(&mut seed) % 6;
                let bytes = n as usize * elem_size(col.elem);
                let mut max = c.heap - 200;
                if col.ty == 'P' {
                    max = max.min(u32::MAX as u64);
                }
                let x = splitmix(&mut seed);
                let off = if x % 3 == 0 { max } else { x % max };
                far_array |= off > i32::MAX as u64 && n > 0;
                segs.push((
                    heap_at + off,
                    Blob {
                        seed: splitmix(&mut seed),
                        mode: 0,
                    }
                    .bytes(bytes),
                ));
                if col.ty == 'P' {
                    row[p..p + 4].copy_from_slice(&(n as u32).to_be_bytes());
                    row[p + 4..p + 8].copy_from_slice(&(off as u32).to_be_bytes());
                } else {
                    row[p..p + 8].copy_from_slice(&n.to_be_bytes());
                    row[p + 8..p + 16].copy_from_slice(&off.to_be_bytes());
                }
            }
            p += col.num_bytes();
        }
        segs.push((start + r * naxis1, row));
    }
    let mut sparse = Sparse::new(segs, len);
    sparse.budget = 10_000_000;
    let cells = |r: u64| -> Vec<Cell> {
        let at = |off: u64, n: usize| {
            let mut b = vec![0; n];
            let mut f = sparse.clone();
            f.pos = off;
            f.read_exact(&mut b).unwrap();
            b
        };
        let row = at(start + r * naxis1, naxis1 as usize);
        let mut out = vec![];
        let mut p = 0;
        for (i, col) in c.cols.iter().enumerate() {
            let f = &row[p..p + col.num_bytes()];
            if !col.is_desc() {
                decode_field(col.ty, col.repeat, f, i, &mut out);
            } else if col.repeat > 0 {
                let (n, off) = if col.ty == 'P' {
                    (
                        u32::from_be_bytes(f[..4].try_into().unwrap()) as u64,
                        u32::from_be_bytes(f[4..].try_into().unwrap()) as u64,
                    )
                } else {
                    (
                        u64::from_be_bytes(f[..8].try_into().unwrap()),
                        u64::from_be_bytes(f[8..].try_into().unwrap()),
                    )
                };
                let b = at(heap_at + off, n as usize * elem_size(col.elem));
                decode_field(col.elem, n as usize, &b, i, &mut out);
            }
            p += col.num_bytes();
        }
        out
    };

    let mut fits = Fits::from_reader(sparse.clone());
    let hdu = second(&mut fits)?;
    ensure_eq!(hdu.get_data_unit_byte_offset(), start, "start of the data");
    ensure_eq!(hdu.get_data_unit_byte_size(), main + c.gap + c.heap, "size of the data");
    let HDU::XBinaryTable(h) = &hdu else {
        return Err("not a binary table".into());
    };
    ensure_eq!(h.get_header().get_xtension().get_num_rows() as u64, c.rows, "rows");
    let mut t = fits.get_data(h).table_data();
    let mut sel: Vec<usize> = (0..c.cols.len()).collect();
    let mut row = 0;
    let mut cur: Vec<Cell> = vec![];
    let mut taken = 0;
    let pick = |r: u64, sel: &[usize]| -> Vec<Cell> {
        if r >= c.rows {
            return vec![];
        }
        cells(r).into_iter().filter(|x| sel.contains(&x.0)).collect()
    };
    let mut ended = false;
    for (k, op) in c.ops.iter().enumerate() {
        match op {
            FarOp::Seek(r) => {
                t.seek_to_row(*r as usize)
                    .map_err(|e| format!("operation {k}: seek to row {r}: {e:?}"))?;
                (row, taken, ended) = (*r, 0, false);
                cur = pick(row, &sel);
            }
            FarOp::Select(cols) => {
                let ids: Vec<ColumnId> = cols.iter().map(|i| ColumnId::Index(*i)).collect();
                t.select_fields(&ids);
                sel = cols.clone();
                t.seek_to_row(row.min(c.rows - 1) as usize)
                    .map_err(|e| format!("operation {k}: seek to row {row}: {e:?}"))?;
                (row, taken, ended) = (row.min(c.rows - 1), 0, false);
                cur = pick(row, &sel);
            }
            FarOp::Next(n) => {
                if sel.iter().all(|&i| c.cols[i].num_bytes() == 0) {
                    continue;
                }
                for j in 0..*n {
                    if ended {
                        break;
                    }
                    // the rows of zeros have no value when they have nothing but arrays
                    let mut empty = 0;
                    while taken == cur.len() && row < c.rows && empty < 4 {
                        row += 1;
                        taken = 0;
                        empty += 1;
                        cur = pick(row, &sel);
                    }
                    if taken == cur.len() && row < c.rows {
                        // nothing but empty arrays from here on
                        return Ok(());
                    }
                    let want = cur.get(taken).copied();
                    taken += 1;
                    let got = t.next().map(|v| cell(&v));
                    ensure_eq!(got, want, "operation {k}: value {j}, row {row}, columns {sel:?}");
                    ended = want.is_none();
                }
            }
            FarOp::Row => {
                if taken != 0 || ended || row >= c.rows || sel.iter().all(|&i| c.cols[i].num_bytes() == 0) {
                    continue;
                }
                let mut it = t.row_iter();
                ensure_eq!(it.get_row_idx() as u64, row, "operation {k}: row index");
                let got: Option<Vec<Cell>> = it.next().map(|r| r.iter().map(cell).collect());
                ensure_eq!(got, Some(cur), "operation {k}: row {row}, columns {sel:?}");
                t = it.table_data();
                row += 1;
                cur = pick(row, &sel);
                if row >= c.rows {
                    ended = true;
                }
            }
        }
    }
    s.class_if(main > u32::MAX as u64, "table of more than 4 GiB");
    s.class_if(far_array, "array beyond 2 GiB in the heap");
    s.class_if(naxis1 > 65535, "rows of more than 65535 bytes");
    s.class_if(c.rows > u32::MAX as u64, "more than 2^32 rows");
    s.nontrivial();
    Ok(())
}

// ------------------------------------------------------------------ fields wider than 2 GiB

#[derive(Debug, Hash, Serialize, Deserialize)]
struct WideCase {
    cols: Vec<Col>,
    /// where the wide field is, and its size
    hole: usize,
    size: u64,
    rows: u64,
    seed: u64,
    sel: Vec<usize>,
    from: u64,
    /// a last column of arrays, with 64-bit descriptors, with a THEAP card
    arrays: Option<(bool, bool)>,
}

fn gen_wide(g: &mut Gen) -> WideCase {
    let arrays = g.bool().then(|| (g.bool(), g.bool()));
    let n = g.usize(1, 5);
    let size = (1u64 << g.pick(&[31, 32, 33])) + g.range(0, 5000) - 2500;
    let seed = g.u64();
    let hole = g.usize(0, n);
    let rows = g.range(1, 5);
    let from = g.range(0, rows - 1);
    let mut cols: Vec<Col> = (0..n).map(|_| gen_col(g, 0)).collect();
    for c in cols.iter_mut() {
        c.repeat = c.repeat.clamp(1, 20);
    }
    let k = g.usize(1, 4);
    let sel = (0..k).map(|_| g.usize(0, n - 1)).collect();
    WideCase {
        cols,
        hole,
        size,
        rows,
        seed,
        sel,
        from,
        arrays,
    }
}

fn check_wide(c: &WideCase, s: &mut Stats) -> CheckResult {
    use crate::cards::*;
    let desc = match c.arrays {
        None => 0,
        Some((q, _)) => 8 << q as u64,
    };
    let naxis1: u64 = c.size + c.cols.iter().map(|c| c.num_bytes() as u64).sum::<u64>() + desc;
    // arrays of at most 4 integers
    let pcount = if desc > 0 { c.rows * 16 } else { 0 };
    let mut cards = vec![
        CardSpec::Xtension {
            kind: Ext::Bin,
            text: format!("{:<8}", Ext::Bin.name()),
            comment: None,
        },
        int("BITPIX", 8),
        int("NAXIS", 2),
        int("NAXIS1", naxis1 as i64),
        int("NAXIS2", c.rows as i64),
        int("PCOUNT", pcount as i64),
        int("GCOUNT", 1),
        int("TFIELDS", c.cols.len() as i64 + 1 + (desc > 0) as i64),
    ];
    for i in 0..=c.cols.len() {
        let form = match i.cmp(&c.hole) {
            std::cmp::Ordering::Less => c.cols[i].tform(0),
            std::cmp::Ordering::Equal => format!("{}B", c.size),
            std::cmp::Ordering::Greater => c.cols[i - 1].tform(0),
        };
        cards.push(string(&format!("TFORM{}", i + 1), &form));
    }
    if let Some((q, theap)) = c.arrays {
        let form = if q { "1QJ(4)" } else { "1PJ(4)" };
        cards.push(string(&format!("TFORM{}", c.cols.len() + 2), form));
        if theap {
            cards.push(int("THEAP", (c.rows * naxis1) as i64));
        }
    }
    cards.push(CardSpec::End);
    let mut head = header_bytes(&empty_primary().unit(true).1);
    head.extend(header_bytes(&cards));
    let start = head.len() as u64;
    let mut segs = vec![(0, head)];
    let mut seed = c.seed;
    let mut want: Vec<Vec<Cell>> = vec![];
    let mut heap = vec![];
    for r in 0..c.rows {
        let mut at = start + r * naxis1;
        let mut row = vec![];
        for i in 0..=c.cols.len() {
            if i == c.hole {
                at += c.size;
                continue;
            }
            let col = &c.cols[i - (i > c.hole) as usize];
            let b = Blob {
                seed: splitmix(&mut seed),
                mode: 0,
            }
            .bytes(col.num_bytes());
            decode_field(col.ty, col.repeat, &b, i, &mut row);
            segs.push((at, b));
            at += col.num_bytes() as u64;
        }
        if let Some((q, _)) = c.arrays {
            let b = Blob {
                seed: splitmix(&mut seed),
                mode: 0,
            }
            .bytes(4 * (1 + seed as usize % 4));
            let (n, off) = (b.len() as u64 / 4, (c.rows - 1 - r) * 16);
            segs.push((
                at,
                if q {
                    [n.to_be_bytes(), off.to_be_bytes()].concat()
                } else {
                    [(n as u32).to_be_bytes(), (off as u32).to_be_bytes()].concat()
                },
            ));
            decode_field('J', n as usize, &b, c.cols.len() + 1, &mut row);
            heap.push((start + c.rows * naxis1 + off, b));
        }
        want.push(row);
    }
    heap.reverse();
    segs.extend(heap);
    let mut sparse = Sparse::new(segs, start + c.rows * naxis1 + pcount);
    sparse.budget = 10_000_000;
    let mut fits = Fits::from_reader(sparse);
    let hdu = second(&mut fits)?;
    let HDU::XBinaryTable(h) = &hdu else {
        return Err("not a binary table".into());
    };
    let mut sel: Vec<usize> = c.sel.iter().map(|&i| i + (i >= c.hole) as usize).collect();
    if desc > 0 {
        sel.push(c.cols.len() + 1);
    }
    let ids: Vec<ColumnId> = sel.iter().map(|i| ColumnId::Index(*i)).collect();
    let mut t = fits.get_data(h).table_data();
    t.select_fields(&ids);
    if c.from > 0 {
        t.seek_to_row(c.from as usize).map_err(|e| format!("seek to row {}: {e:?}", c.from))?;
    }
    for r in c.from..c.rows {
        for w in want[r as usize].iter().filter(|x| sel.contains(&x.0)) {
            let got = t.next().map(|v| cell(&v));
            ensure_eq!(got, Some(*w), "row {r}, columns {sel:?}");
        }
    }
    ensure!(t.next().is_none(), "values after the last row");
    s.class_if(c.rows > 1, "several rows");
    s.class_if(c.rows - c.from > 1, "several rows read");
    s.class_if(desc > 0, "with arrays");
    s.nontrivial();
    Ok(())
}

fn far(name: &'static str, quick: u64) -> Box<dyn Check> {
    Box::new(Simple {
        name,
        rule: "virtual tables of 2 GiB to 1 TiB, with heaps up to 64 GiB: seeks to rows, selections, values \
               and whole rows, arrays anywhere in the heap, against values decoded by the harness from \
               the same bytes. All are non-trivial.",
        quick,
        thorough: quick * 20,
        num_choices: 90,
        gen: gen_far,
        check: check_far,
    })
}

fn wide() -> Box<dyn Check> {
    Box::new(Simple {
        name: "wide",
        rule: "virtual tables with a field of 2 to 8 GiB which is not selected: the other fields of every \
               row, arrays included, from any row on. All are non-trivial.",
        quick: 10_000,
        thorough: 300_000,
        num_choices: 80,
        gen: gen_wide,
        check: check_wide,
    })
}

pub fn c08() -> Vec<Box<dyn Check>> {
    vec![large("large", gen_large), Box::new(Simple {
        name: "values",
        rule: "a binary table of 1 to 999 columns of any scalar type and repeat count (0 included) and 0 \
               to 3000 rows, random and extreme bytes, read through a generated reader; every value, \
               its column and position, every row, the number of columns and rows, the lookup of \
               names, the bytes of the table and the raw bytes must be those of the independent \
               decoder of the harness. Non-trivial: at least 2 columns and 2 rows with values.",
        quick: 60_000,
        thorough: 1_200_000,
        num_choices: 120,
        gen: gen_plain,
        check: |c, s| {
            let t = bin(&c.file);
            if t.rows > 1 && t.cols.iter().filter(|c| c.num_bytes() > 0).count() > 1 {
                s.nontrivial();
            }
            check_table(c, s)
        },
    }), Box::new(Simple {
        name: "compressed",
        rule: "a tile-compressed image read as the table it is, by rows, by values or by rows then values: \
               every value and descriptor is the stored one, and the bytes of the table and the raw \
               bytes. Non-trivial: at least 2 rows.",
        quick: 20_000,
        thorough: 400_000,
        num_choices: 80,
        gen: |g| {
            let (how, taken, float) = (g.usize(0, 2) as u8, g.usize(0, 100), g.bool());
            CompressedCase {
                how,
                taken,
                reader: gen_reader(g),
                tile: crate::tiles::gen_tile(g, float, 300),
            }
        },
        check: check_compressed,
    }), super::walk::far_raw(true)]
}

/// A tile-compressed image seen as the table it is: its descriptors are given as they are
#[derive(Debug, Hash, Serialize, Deserialize)]
struct CompressedCase {
    reader: ReaderKind,
    /// 0 rows, 1 values, 2 rows then values
    how: u8,
    taken: usize,
    tile: crate::tiles::TileSpec,
}

fn check_compressed(c: &CompressedCase, s: &mut Stats) -> CheckResult {
    use crate::cards::*;
    let t = c.tile.build();
    let file = with_primary(
        HduSpec {
            body: Body::Tile(c.tile.clone()),
            extra: vec![],
            fill: 0,
            style: 0,
        },
        true,
    );
    let b = file.build();
    // (type, repeat count) of the fields
    let fields: Vec<(char, usize)> = t
        .cards
        .iter()
        .filter_map(|c| match c {
            CardSpec::Value {
                name,
                val: Val::Str(f),
                ..
            } if name.starts_with("TFORM") => {
                let n: String = f.chars().take_while(char::is_ascii_digit).collect();
                Some((f.chars().nth(n.len()).unwrap(), n.parse().unwrap_or(1)))
            }
            _ => None,
        })
        .collect();
    let mut rows = vec![];
    let mut p = 0;
    for _ in 0..t.num_tiles {
        let mut row = vec![];
        for (col, &(ty, n)) in fields.iter().enumerate() {
            let d = &t.data[p..];
            p += match ty {
                'P' => {
                    row.push(V::Desc32(
                        u32::from_be_bytes(d[..4].try_into().unwrap()),
                        u32::from_be_bytes(d[4..8].try_into().unwrap()),
                    ));
                    8
                }
                'Q' => {
                    row.push(V::Desc64(
                        u64::from_be_bytes(d[..8].try_into().unwrap()),
                        u64::from_be_bytes(d[8..16].try_into().unwrap()),
                    ));
                    16
                }
                _ => {
                    let mut out = vec![];
                    decode_field(ty, n, d, col, &mut out);
                    row.extend(out.into_iter().map(|(_, _, v)| v));
                    if ty == 'X' {
                        n.div_ceil(8)
                    } else {
                        n * elem_size(ty)
                    }
                }
            };
        }
        rows.push(row);
    }
    ensure_eq!(p, t.main, "generator: size of the table");
    s.class(["rows", "values", "rows then values"][c.how as usize]);
    s.class_if(c.tile.layout > 0, "other columns");
    if rows.len() > 1 {
        s.nontrivial();
    }

    let mut fits = Fits::from_reader(AnyReader::new(&c.reader, &b.bytes));
    let hdu = second(&mut fits)?;
    let HDU::XBinaryTable(h) = &hdu else {
        return Err("not a binary table".into());
    };
    let data = fits.get_data(h);
    fn value(v: &fitsrs::hdu::data::bintable::DataValue) -> V {
        cell(v).2
    }
    if c.how == 1 {
        let got: Vec<V> = data.table_data().map(|v| value(&v)).collect();
        ensure_eq!(got, rows.concat(), "values of the table");
    } else {
        let n = if c.how == 0 { rows.len() } else { c.taken % (rows.len() + 1) };
        let mut it = data.row_iter();
        for (i, w) in rows[..n].iter().enumerate() {
            ensure_eq!(it.get_row_idx(), i, "index of the row to come");
            let got: Option<Vec<V>> = it.next().map(|r| r.iter().map(value).collect());
            ensure_eq!(got.as_ref(), Some(w), "row {i}");
        }
        if c.how == 0 {
            ensure!(it.next().is_none(), "a row too many");
        } else {
            let got: Vec<V> = it.table_data().map(|v| value(&v)).collect();
            ensure_eq!(got, rows[n..].concat(), "values after {n} rows");
        }
    }
    ensure!(fits.next().is_none(), "a HDU too many");

    let mut fits = Fits::from_reader(Cursor::new(b.bytes.clone()));
    let hdu = second(&mut fits)?;
    let HDU::XBinaryTable(h) = &hdu else { unreachable!() };
    let raw = fits.get_data(h).table_data();
    ensure_eq!(raw.raw_bytes(), &t.data[..], "raw bytes");
    let mut v = vec![];
    fits.get_data(h)
        .table_data()
        .bytes()
        .read_to_end(&mut v)
        .map_err(|e| format!("bytes: {e}"))?;
    ensure_eq!(v, t.data[..t.main], "bytes of the main table");
    Ok(())
}

fn large(name: &'static str, gen: fn(&mut Gen) -> TableCase) -> Box<dyn Check> {
    Box::new(Simple {
        name,
        rule: "the same with more than 65535 rows, bytes per row or elements in an array: everything is \
               read value by value, row by row and as bytes. All are non-trivial.",
        quick: 160,
        thorough: 4000,
        num_choices: 60,
        gen,
        check: |c, s| {
            s.nontrivial();
            check_table(c, s)
        },
    })
}

pub fn c09() -> Vec<Box<dyn Check>> {
    vec![wide(), far("far", 20_000), large("large", gen_large_arrays), Box::new(Simple {
        name: "arrays",
        rule: "a binary table with 32- and 64-bit array descriptors of every element type, arrays of 0 to \
               4000 elements placed in the heap in order, reversed, shuffled with holes or overlapping, \
               with or without THEAP and a gap; every element in every row must be that of the \
               independent decoder. Non-trivial: at least 2 non-empty arrays.",
        quick: 60_000,
        thorough: 1_200_000,
        num_choices: 120,
        gen: gen_arrays,
        check: |c, s| {
            let b = bin(&c.file).build();
            if b.non_empty_arrays > 1 {
                s.nontrivial();
            }
            check_table(c, s)
        },
    })]
}

// ------------------------------------------------------------------ C10

#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
enum Id {
    Index(usize),
    Name(usize),
    /// the name of this column, if it has one
    NameOf(usize),
}

#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
enum Op {
    Select(Vec<Id>),
    Seek(usize),
    Next(usize),
    Rows(usize),
}

#[derive(Debug, Hash, Serialize, Deserialize)]
struct HistoryCase {
    file: FileSpec,
    reader: ReaderKind,
    ops: Vec<Op>,
}

fn gen_history(g: &mut Gen) -> HistoryCase {
    let vla = g.pick(&[0, 3, 6]);
    let mut t = gen_table(g, vla);
    if t.rows == 0 && g.chance(9, 10) {
        t.rows = g.usize(1, 5);
    }
    if g.chance(1, 40) {
        t.rows = (30_000 / t.naxis1().max(1)).min(2000);
    }
    let many = g.chance(1, 40);
    if many {
        many_columns(g, &mut t);
    }
    let n = g.usize(1, 12);
    let ops = (0..n)
        .map(|_| match g.weighted(&[3, 3, 3, 2]) {
            0 => Op::Next(match g.weighted(&[3, 2, 1]) {
                0 => g.usize(0, 5),
                1 => g.usize(0, 60),
                _ => 1_000_000,
            }),
            1 => Op::Seek(match g.weighted(&[8, 1, 1]) {
                0 => g.usize(0, t.rows.max(1) - 1),
                1 => t.rows.saturating_sub(1),
                _ => t.rows + g.usize(0, 2),
            }),
            2 => {
                let k = g.weighted(&[1, 4, 4, 2, 2]);
                Op::Select(
                    (0..k)
                        .map(|_| {
                            if g.chance(1, 3) {
                                if many {
                                    Id::NameOf(g.usize(0, t.cols.len() - 1))
                                } else {
                                    Id::Name(g.usize(0, NAMES.len() - 1))
                                }
                            } else {
                                let beyond = g.chance(1, 10) as usize;
                                Id::Index(g.usize(0, t.cols.len() - 1 + beyond))
                            }
                        })
                        .collect(),
                )
            }
            _ => Op::Rows(match g.weighted(&[4, 1]) {
                0 => g.usize(0, 4),
                _ => 1_000_000,
            }),
        })
        .collect();
    HistoryCase {
        ops,
        reader: gen_reader(g),
        file: file_of(Body::Bin(t), g),
    }
}

struct Model<'a> {
    rows: &'a [Vec<Cell>],
    /// columns that have values
    sel: BTreeSet<usize>,
    /// the selected values of a row
    cells: Option<(usize, Vec<Cell>)>,
    row: usize,
    /// values already taken from the row
    taken: usize,
}

impl Model<'_> {
    fn row_cells(&self, r: usize) -> Vec<Cell> {
        self.rows[r]
            .iter()
            .filter(|c| self.sel.contains(&c.0))
            .copied()
            .collect()
    }
    fn next(&mut self) -> Option<Cell> {
        if self.sel.is_empty() {
            return None;
        }
        while self.row < self.rows.len() {
            if !matches!(self.cells, Some((r, _)) if r == self.row) {
                self.cells = Some((self.row, self.row_cells(self.row)));
            }
            let cells = &self.cells.as_ref().unwrap().1;
            if self.taken < cells.len() {
                self.taken += 1;
                return Some(cells[self.taken - 1]);
            }
            self.row += 1;
            self.taken = 0;
        }
        None
    }
}

fn run_history<R>(
    mut t: TableData<R>,
    spec: &TableSpec,
    bt: &BuiltTable,
    ops: &[Op],
    s: &mut Stats,
) -> CheckResult
where
    R: Read + Seek + Debug,
{
    let full = (0..spec.cols.len())
        .filter(|&i| spec.cols[i].num_bytes() > 0)
        .collect();
    let mut m = Model {
        rows: &bt.rows,
        sel: full,
        cells: None,
        row: 0,
        taken: 0,
    };
    // at the start, or just after a seek or whole rows
    let mut at_row = true;
    let mut fresh = true;
    let mut exhausted = false;
    let (mut seeks, mut selects) = (0, 0);
    for (k, op) in ops.iter().enumerate() {
        match op {
            Op::Select(ids) => {
                let cols: Vec<ColumnId> = ids
                    .iter()
                    .map(|i| match i {
                        Id::Index(i) => ColumnId::Index(*i),
                        Id::Name(n) => ColumnId::Name(NAMES[*n]),
                        Id::NameOf(i) => match &spec.cols[*i].name {
                            // names live for ever in a ColumnId
                            Some(n) => ColumnId::Name(String::leak(n.clone())),
                            None => ColumnId::Name("none"),
                        },
                    })
                    .collect();
                t.select_fields(&cols);
                selects += 1;
                m.cells = None;
                m.sel = ids
                    .iter()
                    .filter_map(|i| match i {
                        Id::Index(i) => Some(*i),
                        Id::Name(n) => spec
                            .cols
                            .iter()
                            .position(|c| c.name.as_deref() == Some(NAMES[*n])),
                        Id::NameOf(i) => spec
                            .cols
                            .iter()
                            .position(|c| c.name.is_some() && c.name == spec.cols[*i].name),
                    })
                    .filter(|&i| i < spec.cols.len() && spec.cols[i].num_bytes() > 0)
                    .collect();
                if !fresh {
                    // what comes next depends on where the selection is made: go to a row
                    if bt.rows.is_empty() {
                        return Ok(());
                    }
                    let r = (k * 7 + ids.len()) % bt.rows.len();
                    t.seek_to_row(r)
                        .map_err(|e| format!("operation {k}: seek to row {r}: {e:?}"))?;
                    m.row = r;
                    m.taken = 0;
                    at_row = true;
                    exhausted = false;
                }
            }
            Op::Seek(r) => {
                let got = t.seek_to_row(*r).is_ok();
                ensure_eq!(got, *r < bt.rows.len(), "operation {k}: seek to row {r} succeeds");
                if got {
                    s.class_if(exhausted, "seek after the end");
                    s.class_if(m.taken > 0, "seek from the middle of a row");
                    seeks += 1;
                    m.row = *r;
                    m.taken = 0;
                    at_row = true;
                    exhausted = false;
                } else {
                    s.class("seek to a row that does not exist");
                }
            }
            Op::Next(n) => {
                if exhausted {
                    continue;
                }
                for j in 0..*n {
                    let want = m.next();
                    let got = t.next().map(|v| cell(&v));
                    ensure_eq!(got, want, "operation {k}: value {j} of columns {:?}", m.sel);
                    fresh = false;
                    at_row = false;
                    if want.is_none() {
                        exhausted = true;
                        break;
                    }
                }
            }
            Op::Rows(n) => {
                if !at_row || exhausted || m.sel.is_empty() {
                    continue;
                }
                let mut it = t.row_iter();
                for j in 0..*n {
                    if m.row < bt.rows.len() {
                        ensure_eq!(it.get_row_idx(), m.row, "operation {k}: row index");
                    }
                    let got: Option<Vec<Cell>> = it.next().map(|r| r.iter().map(cell).collect());
                    let want = (m.row < bt.rows.len()).then(|| m.row_cells(m.row));
                    ensure_eq!(got, want, "operation {k}: row {j} of columns {:?}", m.sel);
                    fresh = false;
                    if want.is_none() {
                        exhausted = true;
                        break;
                    }
                    m.row += 1;
                }
                t = it.table_data();
            }
        }
    }
    s.class_if(seeks > 0 && selects > 0, "selections and seeks");
    s.class_if(seeks > 1, "several seeks");
    if seeks + selects > 0 && !bt.rows.is_empty() {
        s.nontrivial();
    }
    Ok(())
}

fn check_history(c: &HistoryCase, s: &mut Stats) -> CheckResult {
    let b = c.file.build();
    let mut fits = Fits::from_reader(AnyReader::new(&c.reader, &b.bytes));
    let hdu = second(&mut fits)?;
    let HDU::XBinaryTable(h) = &hdu else {
        return Err("not a binary table".into());
    };
    let t = fits.get_data(h).table_data();
    run_history(t, bin(&c.file), b.hdus[1].table.as_ref().unwrap(), &c.ops, s)?;
    ensure!(fits.next().is_none(), "a HDU too many");
    Ok(())
}

fn gen_large_history(g: &mut Gen) -> HistoryCase {
    let ops = (0..g.usize(2, 8))
        .map(|i| match if i == 0 { 1 } else { g.weighted(&[3, 3, 2, 2]) } {
            0 => Op::Next(g.usize(1, 40)),
            1 => Op::Seek(g.u64() as usize),
            2 => Op::Select((0..g.usize(1, 2)).map(|_| Id::Index(g.usize(0, 2))).collect()),
            _ => Op::Rows(g.usize(1, 3)),
        })
        .collect();
    let c = gen_large(g);
    let rows = bin(&c.file).rows;
    let mut ops: Vec<Op> = ops;
    for o in ops.iter_mut() {
        if let Op::Seek(r) = o {
            *r %= rows;
        }
    }
    HistoryCase {
        file: c.file,
        reader: c.reader,
        ops,
    }
}

pub fn c10() -> Vec<Box<dyn Check>> {
    vec![far("far", 40_000), wide(), Box::new(Simple {
        name: "large",
        rule: "histories on tables of more than 65535 rows or bytes per row; all are non-trivial",
        quick: 400,
        thorough: 10_000,
        num_choices: 100,
        gen: gen_large_history,
        check: check_history,
    }), Box::new(Simple {
        name: "histories",
        rule: "1 to 12 operations (select fields by index or name, with unknown and repeated ones; seek to \
               a row, existing or not; take values; take rows; go back from rows to values) on a \
               generated table with or without arrays; every value, row, row index and the outcome of \
               every seek must be those of a model keeping the selection and the position. \
               Non-trivial: at least one selection or seek on a table with rows.",
        quick: 120_000,
        thorough: 2_500_000,
        num_choices: 160,
        gen: gen_history,
        check: check_history,
    })]
}

// ------------------------------------------------------------------ C20

#[derive(Debug, Hash, Serialize, Deserialize)]
struct AsciiCase {
    file: FileSpec,
    reader: ReaderKind,
    sched: Schedule,
    /// sizes of the reads
    reads: Vec<usize>,
}

fn gen_ascii_case(g: &mut Gen) -> AsciiCase {
    let bad = g.chance(1, 5).then(|| (g.u64(), g.u64()));
    let mut t = gen_ascii(g);
    if g.chance(1, 20) {
        t.rows = 30_000 / t.naxis1.max(1);
        t.rows = t.rows.min(3000);
    }
    if g.chance(1, 40) {
        // many fields, in any order
        let n = if g.bool() { g.usize(50, 999) } else { 999 };
        let pat = if t.cols.is_empty() {
            vec![AsciiCol {
                ty: 'A',
                w: 1,
                d: 0,
                tbcol: 1,
                bad: 0,
                name: None,
            }]
        } else {
            t.cols.clone()
        };
        t.cols = (0..n).map(|i| pat[(i * 7) % pat.len()].clone()).collect();
        t.naxis1 = t.naxis1.max(1);
        t.rows = t.rows.min(40_000 / t.naxis1);
    }
    if let Some((which, mut how)) = bad {
        for (i, c) in t.cols.iter_mut().enumerate() {
            if which >> (i % 64) & 1 == 1 && splitmix(&mut how) % 3 != 0 {
                c.bad = 1 + (splitmix(&mut how) % 7) as u8;
            }
        }
    }
    if t.blob.mode == 0 && g.bool() {
        // numbers as text
        t.blob.mode = 6;
    }
    let n = g.usize(0, 6);
    let reads = (0..n).map(|_| g.pick(&[1, 2, 7, 80, 500, 2880, 9000])).collect();
    AsciiCase {
        reads,
        reader: gen_reader(g),
        sched: gen_schedule(g),
        file: file_of(Body::Ascii(t), g),
    }
}

fn gen_ascii_large(g: &mut Gen) -> AsciiCase {
    let wide = g.bool();
    let mut c = gen_ascii_case(g);
    let Body::Ascii(t) = &mut c.file.hdus[1].body else { unreachable!() };
    t.cols.truncate(20);
    if wide {
        t.naxis1 = 65_536 + (t.blob.seed % 5000) as usize;
        t.rows = 1 + (t.blob.seed >> 20) as usize % 3;
        if let Some(c) = t.cols.last_mut() {
            // a field far in the row, wide
            c.tbcol = 65_530 + t.blob.seed % 10;
            c.w = 1 + (t.blob.seed >> 30) as usize % 100_000;
        }
    } else {
        t.naxis1 = t.naxis1.clamp(1, 4);
        t.rows = 65_536 + (t.blob.seed % 5000) as usize;
    }
    c
}

fn check_ascii(c: &AsciiCase, s: &mut Stats) -> CheckResult {
    let b = c.file.build();
    let Body::Ascii(spec) = &c.file.hdus[1].body else { unreachable!() };
    let want = &b.hdus[1];
    s.class_if(spec.rows == 0, "no row");
    s.class_if(want.data.len() > 8192, "data bigger than a buffer");
    s.class_if(spec.cols.len() > 40, "many fields");
    for col in &spec.cols {
        s.class(&format!("field {}", col.ty));
    }
    if !want.data.is_empty() && !spec.cols.is_empty() {
        s.nontrivial();
    }
    let mut fits = Fits::from_reader(AnyReader::new(&c.reader, &b.bytes));
    let hdu = second(&mut fits)?;
    check_hdu(1, &hdu, want)?;
    let HDU::XASCIITable(h) = &hdu else {
        return Err("not an ASCII table".into());
    };
    let x = h.get_header().get_xtension();
    ensure_eq!(x.get_naxis1(), spec.naxis1 as u64, "NAXIS1");
    ensure_eq!(x.get_naxis2(), spec.rows as u64, "NAXIS2");
    ensure_eq!(x.get_tfields(), spec.cols.len(), "TFIELDS");
    if spec.cols.iter().all(|c| c.bad == 0) {
        ensure_eq!(x.get_num_cols(), spec.cols.len(), "columns");
    } else {
        s.class("unusable fields");
        s.class_if(spec.cols.iter().any(|c| c.bad == 0), "usable and unusable fields");
    }
    ensure_eq!(x.get_num_rows(), spec.rows, "rows");
    ensure_eq!(x.get_pcount(), 0, "PCOUNT");
    ensure_eq!(x.get_gcount(), 1, "GCOUNT");
    ensure_eq!(bitpix(x.get_bitpix()), 8, "BITPIX");
    // a field without a usable column or format is left out, the others are not affected
    let fields: Vec<&AsciiCol> = spec.cols.iter().filter(|c| c.bad == 0).collect();
    let tbcols: Vec<u64> = fields.iter().map(|c| c.tbcol).collect();
    ensure_eq!(x.get_tbcols(), &tbcols[..], "TBCOL");
    let tforms: Vec<TFormAsciiTable> = fields
        .iter()
        .map(|c| {
            let (w, d) = (c.w, c.d);
            match c.ty {
                'A' => TFormAsciiTable::Character { w },
                'I' => TFormAsciiTable::DecimalInteger { w },
                'F' => TFormAsciiTable::FloatingPointFixed { w, d },
                'E' => TFormAsciiTable::EFloatingPointExp { w, d },
                _ => TFormAsciiTable::DFloatingPointExp { w, d },
            }
        })
        .collect();
    ensure_eq!(x.get_tforms(), &tforms[..], "TFORM");

    // reads of any size, then all the rest
    let mut r = fits.get_data(h);
    let mut got = vec![];
    for n in &c.reads {
        let mut buf = vec![0; *n];
        loop {
            match r.read(&mut buf) {
                Ok(k) => {
                    got.extend_from_slice(&buf[..k]);
                    break;
                }
                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
                Err(e) => return Err(format!("read: {e}")),
            }
        }
    }
    let mut rest = vec![];
    if c.reads.len() % 2 == 0 {
        r.read_to_end(&mut rest).map_err(|e| format!("read: {e}"))?;
    } else {
        // cut at a character
        loop {
            let n = r
                .read_until(b'E', &mut rest)
                .map_err(|e| format!("read_until: {e}"))?;
            if n == 0 {
                break;
            }
        }
    }
    got.extend(rest);
    ensure_eq!(got.len(), want.data.len(), "number of bytes");
    ensure_eq!(got, want.data, "bytes of the table");
    ensure!(fits.next().is_none(), "a HDU too many");

    let mut af = async_fits(Arc::new(b.bytes.clone()), &c.sched);
    for i in 0..2 {
        match async_next(&mut af) {
            Some(Ok(h)) => {
                check_async_hdu(i, &h, &b.hdus[i])?;
                let (content, e) = async_content(&mut af, &h, usize::MAX);
                ensure!(e.is_none(), "asynchronous read: {e:?}");
                ensure_eq!(
                    content,
                    async_expected(&c.file.hdus[i], &b.hdus[i]),
                    "asynchronous bytes of HDU {i}"
                );
            }
            Some(Err(e)) => return Err(format!("asynchronous HDU {i}: {e:?}")),
            None => return Err(format!("asynchronous HDU {i} is missing")),
        }
    }
    Ok(())
}

pub fn c20() -> Vec<Box<dyn Check>> {
    vec![Box::new(Simple {
        name: "large",
        rule: "the same with more than 65535 rows or bytes per row. Non-trivial: at least a field and a byte",
        quick: 240,
        thorough: 5000,
        num_choices: 120,
        gen: gen_ascii_large,
        check: check_ascii,
    }), Box::new(Simple {
        name: "ascii",
        rule: "an ASCII table of 0 to 999 fields of the 5 formats at any columns and 0 to 3000 rows, read \
               by pieces of generated sizes; the description of the fields and every byte of every row, \
               no more, must be given, by the synchronous and the asynchronous reader. Non-trivial: at \
               least a field and a byte.",
        quick: 60_000,
        thorough: 1_200_000,
        num_choices: 120,
        gen: gen_ascii_case,
        check: check_ascii,
    })]
}
