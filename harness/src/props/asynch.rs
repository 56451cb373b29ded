//! The asynchronous reader

use crate::engine::*;
use crate::model::*;
use crate::readers::*;
use crate::util::*;
use crate::{ensure, ensure_eq};
use fitsrs::hdu::data::DataStream;
use super::robust::{gen_hostile, hostile_bytes, HostileCase};
use fitsrs::{AsyncHDU, Fits, HDU};
use futures::io::BufReader as AsyncBuf;
use futures::Stream;
use serde::{Deserialize, Serialize};
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};

pub fn next_hdu(af: &mut Afits, i: usize, want: &BuiltHdu) -> Result<AsyncHDU, String> {
    match async_next(af) {
        Some(Ok(h)) => {
            check_async_hdu(i, &h, want)?;
            Ok(h)
        }
        Some(Err(e)) => Err(format!("asynchronous HDU {i}: {e:?}")),
        None => Err(format!("asynchronous HDU {i} is missing")),
    }
}

pub fn ends(af: &mut Afits) -> CheckResult {
    for _ in 0..2 {
        match async_next(af) {
            None => {}
            Some(Ok(h)) => return Err(format!("a HDU too many: {}", short(&async_cards(&h)))),
            Some(Err(e)) => return Err(format!("error after the last HDU: {e:?}")),
        }
    }
    Ok(())
}

/// The bytes of the schedule that make it interesting
fn sched_stats(sc: &Schedule, s: &mut Stats) {
    s.class_if(sc.pending > 0, "not always ready");
    s.class_if(sc.max < 80 || sc.cap < 80, "cards cut in pieces");
    s.class_if(sc.cap < 8 || sc.max < 8, "values cut in pieces");
}

// ------------------------------------------------------------------ C11

#[derive(Debug, Hash, Serialize, Deserialize)]
struct AsyncCase {
    file: FileSpec,
    sched: Schedule,
}

fn gen_async(g: &mut Gen) -> AsyncCase {
    AsyncCase {
        sched: gen_schedule(g),
        file: gen_file(g, 5, 3000),
    }
}

fn check_async(c: &AsyncCase, s: &mut Stats) -> CheckResult {
    let b = c.file.build();
    sched_stats(&c.sched, s);
    s.add("hdus", b.hdus.len() as u64);
    let mut af = async_fits(Arc::new(b.bytes.clone()), &c.sched);
    let mut items = 0;
    for (i, want) in b.hdus.iter().enumerate() {
        let h = next_hdu(&mut af, i, want)?;
        let (content, e) = async_content(&mut af, &h, usize::MAX);
        ensure!(e.is_none(), "data of HDU {i}: error {e:?}");
        let exp = async_expected(&c.file.hdus[i], want);
        ensure_eq!(content.len(), exp.len(), "number of values of HDU {i}");
        ensure_eq!(content, exp, "data of HDU {i}");
        items += exp.len();
    }
    s.add("values", items as u64);
    if items > 0 && (c.sched.pending > 0 || c.sched.max < 3000 || c.sched.cap < 3000) {
        s.nontrivial();
    }
    ends(&mut af)
}

/// Data units of more than 65535 bytes
fn gen_large(g: &mut Gen) -> AsyncCase {
    let sched = gen_schedule(g);
    let kind = g.usize(0, 2);
    let size = 65_500 + g.range(0, 140_000);
    let bitpix = g.pick(BITPIX);
    let wide = g.bool();
    let mut file = gen_file(g, 3, 500);
    let axes = |n: u64| if wide { (n, 1) } else { (1 + n % 7, n / (1 + n % 7)) };
    let body = match kind {
        0 => {
            let (a, b) = axes(size / (bitpix.unsigned_abs() / 8));
            Body::Image(ImageSpec {
                bitpix,
                naxis: vec![a, b],
                blob: gen_blob(g),
            })
        }
        1 => {
            let mut t = gen_table(g, 3);
            t.cols.truncate(3);
            if wide {
                t.cols[0].ty = 'B';
                t.cols[0].repeat = size as usize;
                t.rows = 2;
            } else {
                t.cols[0].repeat = t.cols[0].repeat.max(1);
                t.rows = size as usize / t.naxis1();
                t.max_len = t.max_len.min(3);
            }
            Body::Bin(t)
        }
        _ => {
            let mut t = gen_ascii(g);
            let (a, b) = axes(size);
            (t.naxis1, t.rows) = (a as usize, b as usize);
            Body::Ascii(t)
        }
    };
    let i = (kind > 0) as usize;
    let hdu = HduSpec {
        body,
        extra: vec![],
        fill: 0,
        style: 0,
    };
    if i < file.hdus.len() {
        file.hdus[i] = hdu;
    } else {
        file.hdus.push(hdu);
    }
    AsyncCase { sched, file }
}

/// Both readers on the same damaged bytes
fn check_damaged(c: &HostileCase, s: &mut Stats) -> CheckResult {
    let bytes = hostile_bytes(c);
    let mut fits = Fits::from_reader(AnyReader::new(&c.reader, &bytes));
    let mut af = async_fits(Arc::new(bytes.clone()), &c.sched);
    const CAP: usize = 3000;
    for i in 0.. {
        let (a, b) = (fits.next(), async_next(&mut af));
        let (h, ah) = match (a, b) {
            (Some(Ok(h)), Some(Ok(ah))) => (h, ah),
            (Some(Err(_)), Some(Err(_))) => {
                s.class("error in both");
                break;
            }
            (None, None) => {
                s.class("end of both");
                break;
            }
            // the asynchronous reader, which cannot seek, reports a file that is cut
            (None, Some(Err(_))) => {
                s.class("cut");
                break;
            }
            (a, b) => {
                return Err(format!(
                    "HDU {i}: {} synchronously, {} asynchronously",
                    short(&a),
                    match b {
                        None => "the end".to_owned(),
                        Some(Err(e)) => format!("{e:?}"),
                        Some(Ok(h)) => format!("a HDU of {} cards", async_cards(&h).len()),
                    }
                ))
            }
        };
        s.class("HDU in both");
        if i > 0 {
            s.nontrivial();
        }
        ensure_eq!(async_kind(&ah), kind(&h), "kind of the asynchronous HDU {i}");
        let (ca, cb) = (async_cards(&ah), cards(&h));
        ensure_eq!(ca.len(), cb.len(), "number of cards of the asynchronous HDU {i}");
        for (k, (x, y)) in ca.iter().zip(&cb).enumerate() {
            // a NaN is not equal to itself
            ensure_eq!(format!("{x:?}"), format!("{y:?}"), "card {k} of the asynchronous HDU {i}");
        }
        ensure_eq!(
            async_size(&ah),
            h.get_data_unit_byte_size(),
            "size of the data of the asynchronous HDU {i}"
        );
        let (off, size) = (h.get_data_unit_byte_offset() as usize, h.get_data_unit_byte_size());
        let there = &bytes[off.min(bytes.len())..];
        let there = &there[..there.len().min(size.min(usize::MAX as u64) as usize)];
        let (content, e) = async_content(&mut af, &ah, CAP);
        let (got, n, want) = match content {
            Content::Pixels(bp, v) => {
                let want = decode_pixels(bp, there);
                let (HDU::Primary(h) | HDU::XImage(h)) = &h else { unreachable!() };
                let (sync_bp, sync) = pixel_bits(fits.get_data(h).pixels(), CAP);
                ensure_eq!(sync_bp, bp, "type of the pixels of HDU {i}");
                ensure_eq!(v.len(), sync.len(), "number of pixels of the asynchronous HDU {i}");
                ensure_eq!(v, sync, "pixels of the asynchronous HDU {i}");
                (v.clone(), v.len(), want)
            }
            Content::Bytes(v) => (
                v.iter().map(|&b| b as u64).collect(),
                v.len(),
                there.iter().map(|&b| b as u64).collect(),
            ),
            _ => unreachable!(),
        };
        ensure_eq!(n, want.len().min(CAP), "number of values of the asynchronous HDU {i}");
        ensure_eq!(got[..], want[..n], "values of the asynchronous HDU {i}");
        if e.is_none() && n < CAP {
            ensure_eq!(there.len() as u64, size, "data cut without an error in HDU {i}");
        }
    }
    Ok(())
}

pub fn c11() -> Vec<Box<dyn Check>> {
    vec![Box::new(Simple {
        name: "damaged",
        rule: "a damaged file (the mutations of C16) read by both readers, under a generated schedule: the \
               same HDUs, cards, sizes and values, an error or the end at the same place, except that a \
               cut which the synchronous reader takes for the end may be an error. Non-trivial: at \
               least 2 HDUs in both.",
        quick: 60_000,
        thorough: 1_500_000,
        num_choices: 300,
        gen: gen_hostile,
        check: check_damaged,
    }), Box::new(Simple {
        name: "large",
        rule: "the same with a data unit of more than 65535 bytes",
        quick: 300,
        thorough: 8000,
        num_choices: 120,
        gen: gen_large,
        check: check_async,
    }), Box::new(Simple {
        name: "long_headers",
        rule: "the same with headers of 30 to 7000 cards, or images of 10 to 999 axes",
        quick: 500,
        thorough: 16_000,
        num_choices: 300,
        gen: |g| AsyncCase {
            sched: gen_schedule(g),
            file: gen_many(g),
        },
        check: check_async,
    }), Box::new(Simple {
        name: "many_hdus",
        rule: "the same with 7 to 3000 HDUs of 1 to 5 kinds",
        quick: 250,
        thorough: 8_000,
        num_choices: 300,
        gen: |g| AsyncCase {
            sched: gen_schedule(g),
            file: gen_crowd(g),
        },
        check: check_async,
    }), Box::new(Simple {
        name: "schedules",
        rule: "a generated file of 1 to 5 HDUs read asynchronously under a generated schedule: how many \
               bytes are ready each time (1 to all), when the source is not ready, the capacity of the \
               buffer (1 to 8192); every HDU, card and value must be what was written, which is what \
               the synchronous reader is checked against, and a pending task must have been woken. \
               Non-trivial: some values and a schedule that cuts them.",
        quick: 60_000,
        thorough: 1_500_000,
        num_choices: 250,
        gen: gen_async,
        check: check_async,
    })]
}

// ------------------------------------------------------------------ C12

#[derive(Debug, Hash, Serialize, Deserialize)]
struct Take {
    /// 0 nothing is done, 1 the stream is made and dropped, 2 some values, 3 all of them
    op: u8,
    n: u64,
    /// polls before the stream is dropped, ready or not
    polls: u8,
}

#[derive(Debug, Hash, Serialize, Deserialize)]
struct PartialCase {
    file: FileSpec,
    sched: Schedule,
    takes: Vec<Take>,
}

fn gen_takes(g: &mut Gen) -> Vec<Take> {
    (0..5)
        .map(|_| Take {
            op: g.weighted(&[2, 1, 5, 2]) as u8,
            n: g.u64(),
            polls: g.weighted(&[3, 1, 1, 1]) as u8,
        })
        .collect()
}

fn gen_partial(g: &mut Gen) -> PartialCase {
    PartialCase {
        takes: gen_takes(g),
        sched: gen_schedule(g),
        file: gen_file(g, 5, 3000),
    }
}

fn take<S, T, E>(mut st: S, n: usize, polls: u8, want: &[u64], bits: fn(T) -> u64, s: &mut Stats) -> CheckResult
where
    S: Stream<Item = Result<[T; 1], E>> + Unpin,
    E: std::fmt::Debug,
{
    for i in 0..n {
        match next_item(&mut st) {
            Some(Ok([v])) => ensure_eq!(Some(bits(v)), want.get(i).copied(), "value {i}"),
            Some(Err(e)) => return Err(format!("value {i}: {e:?}")),
            None => {
                ensure!(i >= want.len(), "{i} values, expected {}", want.len());
                return Ok(());
            }
        }
    }
    let mut i = n;
    for _ in 0..polls {
        let mut cx = Context::from_waker(futures::task::noop_waker_ref());
        match Pin::new(&mut st).poll_next(&mut cx) {
            Poll::Pending => s.class("stream dropped while it was not ready"),
            Poll::Ready(Some(Ok([v]))) => {
                ensure_eq!(Some(bits(v)), want.get(i).copied(), "value {i}");
                i += 1;
            }
            Poll::Ready(Some(Err(e))) => return Err(format!("value {i}: {e:?}")),
            Poll::Ready(None) => ensure!(i >= want.len(), "{i} values, expected {}", want.len()),
        }
    }
    Ok(())
}

fn check_partial(c: &PartialCase, s: &mut Stats) -> CheckResult {
    let b = c.file.build();
    sched_stats(&c.sched, s);
    let mut af = async_fits(Arc::new(b.bytes.clone()), &c.sched);
    let mut partial = false;
    for (i, want) in b.hdus.iter().enumerate() {
        let h = next_hdu(&mut af, i, want)?;
        let p = &c.takes[i % c.takes.len()];
        let exp = match async_expected(&c.file.hdus[i], want) {
            Content::Pixels(_, v) => v,
            Content::Bytes(v) => v.iter().map(|&b| b as u64).collect(),
            _ => unreachable!(),
        };
        let n = match p.op {
            0 => continue,
            1 => 0,
            2 => super::walk::amount(p.n, exp.len()),
            _ => exp.len() + 1,
        };
        if i + 1 < b.hdus.len() && n < exp.len() {
            partial = true;
        }
        let polls = if p.op == 3 { 0 } else { p.polls };
        match &h {
            AsyncHDU::Primary(h) | AsyncHDU::XImage(h) => match af.get_data(h) {
                DataStream::U8(st) => take(st, n, polls, &exp, |v: u8| v as u64, s),
                DataStream::I16(st) => take(st, n, polls, &exp, |v: i16| v as u16 as u64, s),
                DataStream::I32(st) => take(st, n, polls, &exp, |v: i32| v as u32 as u64, s),
                DataStream::I64(st) => take(st, n, polls, &exp, |v: i64| v as u64, s),
                DataStream::F32(st) => take(st, n, polls, &exp, |v: f32| v.to_bits() as u64, s),
                DataStream::F64(st) => take(st, n, polls, &exp, |v: f64| v.to_bits(), s),
            },
            AsyncHDU::XBinaryTable(h) => take(af.get_data(h), n, polls, &exp, |v: u8| v as u64, s),
            AsyncHDU::XASCIITable(h) => take(af.get_data(h), n, polls, &exp, |v: u8| v as u64, s),
        }
        .map_err(|e| format!("HDU {i}: {e}"))?;
    }
    s.class_if(partial, "data partly read before the next HDU");
    if partial {
        s.nontrivial();
    }
    ends(&mut af)
}

#[derive(Debug, Hash, Serialize, Deserialize)]
struct AsyncFarCase {
    /// a data unit of more than 2 GiB: image, binary or ASCII table
    kind: u8,
    size: u64,
    last: ImageSpec,
}

fn check_async_far(c: &AsyncFarCase, s: &mut Stats) -> CheckResult {
    use super::walk::BigHdu;
    let big = BigHdu {
        kind: c.kind,
        bitpix: 8,
        axes: if c.kind == 0 { vec![c.size] } else { vec![c.size / 1000, 1000] },
        pcount: 0,
    };
    let mut head = vec![];
    if c.kind != 0 {
        head.extend(header_bytes(&empty_primary().unit(true).1));
    }
    head.extend(header_bytes(&big.header(c.kind == 0)));
    let last = HduSpec {
        body: Body::Image(c.last.clone()),
        extra: vec![],
        fill: 0,
        style: 0,
    };
    let (_, cards, data, _) = last.unit(false);
    let at = head.len() as u64 + big.size().div_ceil(2880) * 2880;
    let mut tail = header_bytes(&cards);
    tail.extend(&data);
    pad(&mut tail, 0);
    let len = at + tail.len() as u64;
    let mut src = Sparse::new(vec![(0, head), (at, tail)], len);
    src.budget = 100_000;
    let mut af = fitsrs::AsyncFits::from_reader(futures::io::BufReader::with_capacity(4 << 20, src));
    let mut next = |what: &str| match run(|cx| Pin::new(&mut af).poll_next(cx)) {
        Some(Ok(h)) => Ok(h),
        x => Err(format!("{what}: {}", short(&x))),
    };
    if c.kind != 0 {
        next("primary HDU")?;
    }
    let h = next("the big HDU")?;
    ensure_eq!(async_size(&h), big.size(), "size of the big HDU");
    let h = next("the HDU after the big one")?;
    ensure_eq!(async_size(&h), data.len() as u64, "size of the last HDU");
    let (a, b): (Vec<_>, Vec<_>) = (async_cards(&h), cards.iter().map(|c| c.expected()).collect());
    ensure_eq!(a, b, "cards of the last HDU");
    let AsyncHDU::XImage(h) = &h else {
        return Err("the last HDU is not an image".into());
    };
    let want = decode_pixels(c.last.bitpix, &data);
    match af.get_data(h) {
        DataStream::U8(st) => take(st, want.len() + 1, 0, &want, |v: u8| v as u64, s),
        DataStream::I16(st) => take(st, want.len() + 1, 0, &want, |v: i16| v as u16 as u64, s),
        DataStream::I32(st) => take(st, want.len() + 1, 0, &want, |v: i32| v as u32 as u64, s),
        DataStream::I64(st) => take(st, want.len() + 1, 0, &want, |v: i64| v as u64, s),
        DataStream::F32(st) => take(st, want.len() + 1, 0, &want, |v: f32| v.to_bits() as u64, s),
        DataStream::F64(st) => take(st, want.len() + 1, 0, &want, |v: f64| v.to_bits(), s),
    }?;
    ensure!(
        run(|cx| Pin::new(&mut af).poll_next(cx)).is_none(),
        "a HDU too many"
    );
    s.nontrivial();
    Ok(())
}

// ------------------------------------------------------------------ skipping bytes

#[derive(Debug, Hash, Serialize, Deserialize)]
struct SkipCase {
    sched: Schedule,
    len: usize,
    /// the bytes skipped, then read, each time
    steps: Vec<(usize, usize)>,
    seed: u64,
}

fn gen_skip(g: &mut Gen) -> SkipCase {
    let sched = gen_schedule(g);
    let len = g.pick(&[0, 1, 80, 2880, 5760, 8192, 16384]) + g.usize(0, 100);
    let n = g.usize(1, 4);
    let mut left = len;
    let steps = (0..n)
        .map(|_| {
            let k = match g.weighted(&[4, 2, 2, 1]) {
                0 => g.usize(0, left),
                1 => left,
                2 => sched.cap.min(left),
                _ => left + g.usize(1, 20),
            };
            left -= k.min(left);
            let r = g.usize(0, 3).min(left);
            left -= r;
            (k, r)
        })
        .collect();
    SkipCase {
        sched,
        len,
        steps,
        seed: g.u64(),
    }
}

fn check_skip(c: &SkipCase, s: &mut Stats) -> CheckResult {
    use fitsrs::hdu::data::AsyncDataBufRead;
    use fitsrs::hdu::header::extension::image::Image;
    use futures::io::AsyncRead;
    let data = Arc::new(
        Blob {
            seed: c.seed,
            mode: 0,
        }
        .bytes(c.len),
    );
    let mut r = AsyncBuf::with_capacity(c.sched.cap, AsyncChunk::new(data.clone(), &c.sched));
    let mut pos = 0;
    for (i, &(k, n)) in c.steps.iter().enumerate() {
        let res = {
            let mut f = AsyncDataBufRead::<Image>::read_n_bytes_exact(&mut r, k as u64);
            run(|cx| f.as_mut().poll(cx))
        };
        if pos + k > c.len {
            s.class_if(true, "past the end");
            ensure!(res.is_err(), "step {i}: {k} bytes skipped at {pos} of {}", c.len);
            break;
        }
        ensure!(res.is_ok(), "step {i}: skipping {k} bytes at {pos} of {}: {res:?}", c.len);
        pos += k;
        s.class_if(k > c.sched.cap, "more than the buffer");
        s.class_if(pos == c.len, "up to the end");
        let mut got = vec![0; n];
        let mut m = 0;
        while m < n {
            let x = run(|cx| Pin::new(&mut r).poll_read(cx, &mut got[m..])).map_err(|e| e.to_string())?;
            ensure!(x > 0, "step {i}: end of the file at {}", pos + m);
            m += x;
        }
        ensure_eq!(got, data[pos..pos + n], "step {i}: the bytes at {pos}");
        pos += n;
        if k > 0 {
            s.nontrivial();
        }
    }
    Ok(())
}

pub fn c12() -> Vec<Box<dyn Check>> {
    vec![Box::new(Simple {
        name: "skip",
        rule: "the skip of some bytes that asynchronous readers offer, under a generated schedule: the bytes \
               read next are the ones that follow, and an error is given when there are not enough. \
               Non-trivial: something is skipped.",
        quick: 30_000,
        thorough: 500_000,
        num_choices: 40,
        gen: gen_skip,
        check: check_skip,
    }), Box::new(Simple {
        name: "many_hdus",
        rule: "7 to 3000 HDUs of 1 to 5 kinds, whose data is ignored, or read in part or entirely",
        quick: 250,
        thorough: 8_000,
        num_choices: 300,
        gen: |g| PartialCase {
            takes: gen_takes(g),
            sched: gen_schedule(g),
            file: gen_crowd(g),
        },
        check: check_partial,
    }), Box::new(Simple {
        name: "far",
        rule: "the HDU after a skipped data unit of 2 to 4.5 GiB is found and read; all are non-trivial",
        quick: 16,
        thorough: 160,
        num_choices: 20,
        gen: |g| AsyncFarCase {
            kind: g.usize(0, 2) as u8,
            size: g.pick(&[1u64 << 32, 1 << 31]) + g.range(0, 1 << 20),
            last: gen_image(g, 500),
        },
        check: check_async_far,
    }), Box::new(Simple {
        name: "large",
        rule: "the same with a data unit of more than 65535 bytes",
        quick: 400,
        thorough: 10_000,
        num_choices: 150,
        gen: |g| {
            let takes = gen_takes(g);
            let c = gen_large(g);
            PartialCase {
                takes,
                sched: c.sched,
                file: c.file,
            }
        },
        check: check_partial,
    }), Box::new(Simple {
        name: "partial",
        rule: "a generated file of 1 to 5 HDUs under a generated schedule; of each HDU nothing, some or \
               all of the values are taken, the stream being dropped between values or in the middle of \
               one while it waits; the values taken and every following HDU must be what was written. \
               Non-trivial: a data unit partly read before a following HDU.",
        quick: 80_000,
        thorough: 2_000_000,
        num_choices: 250,
        gen: gen_partial,
        check: check_partial,
    })]
}
