//! Header cards and the map of their values

use crate::cards::*;
use crate::engine::*;
use crate::model::*;
use crate::readers::*;
use crate::util::*;
use crate::{ensure, ensure_eq};
use fitsrs::wcs::WCS;
use fitsrs::card::{Card, Value};
use fitsrs::hdu::header::{
    check_card_keyword, consume_next_card, consume_next_card_async, ValueMap,
};
use fitsrs::{AsyncHDU, Fits, HDU};
use serde::de::IntoDeserializer;
use serde::{Deserialize, Serialize};
use std::convert::TryFrom;
use std::future::Future;
use std::sync::Arc;

fn values(h: &HDU) -> &ValueMap {
    match h {
        HDU::Primary(h) | HDU::XImage(h) => h.get_header(),
        HDU::XBinaryTable(h) => h.get_header(),
        HDU::XASCIITable(h) => h.get_header(),
    }
}

fn async_values(h: &AsyncHDU) -> &ValueMap {
    match h {
        AsyncHDU::Primary(h) | AsyncHDU::XImage(h) => h.get_header(),
        AsyncHDU::XBinaryTable(h) => h.get_header(),
        AsyncHDU::XASCIITable(h) => h.get_header(),
    }
}

fn history(h: &HDU) -> Vec<String> {
    match h {
        HDU::Primary(h) | HDU::XImage(h) => h.get_header().history().cloned().collect(),
        HDU::XBinaryTable(h) => h.get_header().history().cloned().collect(),
        HDU::XASCIITable(h) => h.get_header().history().cloned().collect(),
    }
}

/// A small HDU carrying the cards
fn gen_carrier(g: &mut Gen, extra: Vec<CardSpec>) -> FileSpec {
    let which = g.weighted(&[3, 2, 2, 1]);
    let body = match which {
        0 | 1 => Body::Image(gen_image(g, 60)),
        2 => Body::Bin(gen_small_table(g)),
        _ => Body::Ascii(gen_ascii(g)),
    };
    let hdu = HduSpec {
        body,
        extra,
        fill: gen_fill(g),
        style: g.weighted(&[3, 1, 1, 1]) as u8,
    };
    with_primary(hdu, which > 0)
}

fn gen_small_table(g: &mut Gen) -> TableSpec {
    let mut t = gen_table(g, 0);
    t.cols.truncate(4);
    t.rows = t.rows.min(2);
    t
}

/// Keywords that begin like others, or look like others
const LOOKALIKES: &[&str] = &[
    "ENDTIME", "END-OBS", "ENDX", "COMMENTS", "COMMENT1", "HISTORY1", "CONTINU", "XTENSIO", "HIERARC",
    "SIMPLE1", "NAXISA", "BITPIX2", "END_", "THE_END", "T", "F", "E", "-", "_", "0", "12345678",
];

fn gen_cards(g: &mut Gen, max: usize) -> Vec<CardSpec> {
    let n = match g.weighted(&[3, 3, 1]) {
        0 => g.usize(1, 6),
        1 => g.usize(1, 30.min(max)),
        _ => g.usize(1, max),
    };
    (0..n)
        .map(|_| {
            if g.chance(1, 8) {
                let name = g.pick(LOOKALIKES).to_owned();
                let val = gen_val(g, 70);
                value_card(g, name, val)
            } else {
                gen_extra(g)
            }
        })
        .collect()
}

fn card_stats(cards: &[CardSpec], s: &mut Stats) {
    for c in cards {
        match c {
            CardSpec::Value { val, comment, .. } => {
                match val {
                    Val::Int { .. } => s.class("integer"),
                    Val::Float { text, .. } => {
                        s.class("float");
                        s.class_if(text.contains('D'), "float with a D exponent");
                    }
                    Val::Bool(_) => s.class("logical"),
                    Val::Str(t) => {
                        s.class("string");
                        s.class_if(t.contains('\''), "string with quotes");
                        s.class_if(t.contains('/'), "string with a slash");
                        s.class_if(t.trim().is_empty(), "blank string");
                    }
                    Val::Blank => s.class("blank value"),
                }
                s.class_if(comment.is_some(), "with a comment");
            }
            CardSpec::Hierarch { .. } => s.class("hierarch"),
            CardSpec::Continue { .. } => s.class("continue"),
            CardSpec::Comment(_) => s.class("comment"),
            CardSpec::History(_) => s.class("history"),
            CardSpec::BlankKw(_) => s.class("blank keyword"),
            CardSpec::Plain(..) => s.class("no value indicator"),
            _ => {}
        }
    }
}

// ------------------------------------------------------------------ C05

#[derive(Debug, Hash, Serialize, Deserialize)]
struct CardsCase {
    file: FileSpec,
    reader: ReaderKind,
    sched: Schedule,
}

fn gen_cards_case(g: &mut Gen) -> CardsCase {
    let cards = gen_cards(g, 90);
    CardsCase {
        reader: gen_reader(g),
        sched: gen_schedule(g),
        file: gen_carrier(g, cards),
    }
}

fn check_cards(c: &CardsCase, s: &mut Stats) -> CheckResult {
    let b = c.file.build();
    let spec = c.file.hdus.last().unwrap();
    card_stats(&spec.extra, s);
    if !spec.extra.is_empty() {
        s.nontrivial();
    }
    // each alone
    for card in &b.hdus.last().unwrap().cards {
        let raw = card.render();
        match Card::try_from(&raw) {
            Ok(got) => ensure_eq!(got, card.expected(), "card alone"),
            Err(e) => return Err(format!("card {card:?}: {e:?}")),
        }
        // asked for by its keyword, and by another
        let mut key: [u8; 8] = raw[..8].try_into().unwrap();
        match (check_card_keyword(&raw, &key), card.expected()) {
            (Ok(got), Card::Value { value, .. }) => ensure_eq!(got, value, "value of a card alone"),
            (Err(_), Card::Value { .. }) => return Err(format!("no value in the card {card:?}")),
            (Ok(got), _) => return Err(format!("value {got:?} of the card {card:?}")),
            (Err(_), _) => {}
        }
        key[7] = if key[7] == b' ' { b'X' } else { b' ' };
        ensure!(
            check_card_keyword(&raw, &key).is_err(),
            "value of the card {card:?} under another keyword"
        );
    }
    // one after another
    let n = b.hdus[0].cards.len();
    let head = &b.bytes[..b.bytes.len().min(80 * n + c.sched.cap % 80)];
    let mut reader = AnyReader::new(&c.reader, head);
    let mut areader = AsyncChunk::new(Arc::new(head.to_vec()), &c.sched);
    let (mut read, mut aread) = (0, 0);
    for (i, raw) in head.chunks_exact(80).enumerate() {
        let mut buf = [0; 80];
        let r = consume_next_card(&mut reader, &mut buf, &mut read);
        ensure!(r.is_ok() && buf[..] == *raw, "card {i} consumed: {r:?}");
        ensure_eq!(read, 80 * (i + 1), "bytes counted");
        let mut buf = [0; 80];
        let mut f = Box::pin(consume_next_card_async(&mut areader, &mut buf, &mut aread));
        let r = run(|cx| f.as_mut().poll(cx));
        drop(f);
        ensure!(r.is_ok() && buf[..] == *raw, "card {i} consumed asynchronously: {r:?}");
        ensure_eq!(aread, 80 * (i + 1), "bytes counted");
    }
    let mut buf = [0; 80];
    ensure!(
        consume_next_card(&mut reader, &mut buf, &mut read).is_err(),
        "a card that is not whole is consumed"
    );
    let mut f = Box::pin(consume_next_card_async(&mut areader, &mut buf, &mut aread));
    let r = run(|cx| f.as_mut().poll(cx));
    ensure!(r.is_err(), "a card that is not whole is consumed");
    let mut fits = Fits::from_reader(AnyReader::new(&c.reader, &b.bytes));
    for (i, want) in b.hdus.iter().enumerate() {
        match fits.next() {
            Some(Ok(h)) => check_hdu(i, &h, want)?,
            x => return Err(format!("HDU {i}: {}", short(&x))),
        }
    }
    let mut af = async_fits(Arc::new(b.bytes.clone()), &c.sched);
    for (i, want) in b.hdus.iter().enumerate() {
        match async_next(&mut af) {
            Some(Ok(h)) => {
                check_async_hdu(i, &h, want)?;
                if i + 1 < b.hdus.len() {
                    async_content(&mut af, &h, usize::MAX);
                }
            }
            Some(Err(e)) => return Err(format!("asynchronous HDU {i}: {e:?}")),
            None => return Err(format!("asynchronous HDU {i} is missing")),
        }
    }
    Ok(())
}

pub fn c05() -> Vec<Box<dyn Check>> {
    vec![Box::new(Simple {
        name: "cards",
        rule: "a header of 1 to 90 generated cards of every kind, in free or fixed format, written by \
               the harness in an image, binary table or ASCII table HDU; each card alone and the list \
               given by the synchronous and the asynchronous reader must be what was written, in \
               order. Non-trivial: at least one optional card.",
        quick: 60_000,
        thorough: 1_500_000,
        num_choices: 900,
        gen: gen_cards_case,
        check: check_cards,
    }), Box::new(Simple {
        name: "long_headers",
        rule: "headers of 30 to 7000 cards, or images of 10 to 999 axes, in files of 1 to 3 HDUs; the \
               same checks.",
        quick: 600,
        thorough: 20_000,
        num_choices: 300,
        gen: |g| CardsCase {
            reader: gen_reader(g),
            sched: gen_schedule(g),
            file: gen_many(g),
        },
        check: check_cards,
    })]
}

// ------------------------------------------------------------------ the map

/// What the map of the values must be, or None when the convention says nothing of one of them
fn model_map(cards: &[CardSpec]) -> Option<Vec<(String, Value)>> {
    let mut map: Vec<(String, Value)> = vec![];
    let mut open: Option<usize> = None;
    for c in cards {
        let mut now = None;
        match c {
            CardSpec::Value { name, val, comment, .. } => {
                let v = val.expected(comment);
                now = Some(insert(&mut map, name, v));
            }
            CardSpec::Hierarch {
                tokens,
                val,
                comment,
                ..
            } => {
                let v = val.expected(comment);
                now = Some(insert(&mut map, &tokens.join("."), v));
            }
            CardSpec::Xtension { kind, .. } => {
                insert(
                    &mut map,
                    "XTENSION",
                    Value::String {
                        value: kind.name().to_owned(),
                        comment: None,
                    },
                );
            }
            CardSpec::Continue { s, comment, .. } => {
                if let Some(i) = open {
                    if let Value::String {
                        value,
                        comment: com,
                    } = &mut map[i].1
                    {
                        value.pop();
                        let s = string_read_back(s);
                        if s.trim_end_matches(' ').is_empty() {
                            let t = value.trim_end_matches(' ').len();
                            value.truncate(t);
                            if value.ends_with('&') {
                                return None;
                            }
                        } else {
                            value.push_str(&s);
                        }
                        if let Some(c) = comment {
                            let c = c.trim_end_matches(' ');
                            match com {
                                Some(com) => {
                                    com.push('\n');
                                    com.push_str(c);
                                }
                                None => *com = Some(c.to_owned()),
                            }
                        }
                        now = Some(i);
                    }
                }
            }
            _ => {}
        }
        open = now.filter(|&i| matches!(&map[i].1, Value::String { value, .. } if value.ends_with('&')));
    }
    Some(map)
}

fn insert(map: &mut Vec<(String, Value)>, name: &str, v: Value) -> usize {
    if let Some(i) = map.iter().position(|(n, _)| n == name) {
        map[i].1 = v;
        i
    } else {
        map.push((name.to_owned(), v));
        map.len() - 1
    }
}

fn check_map(got: &ValueMap, want: &[(String, Value)]) -> CheckResult {
    let got: Vec<(String, Value)> = got.iter().map(|(k, v)| (k.to_owned(), v.clone())).collect();
    for (k, (a, b)) in got.iter().zip(want).enumerate() {
        ensure_eq!(a, b, "entry {k} of the values");
    }
    ensure_eq!(got.len(), want.len(), "number of values");
    Ok(())
}

fn last_hdu(b: &Built, reader: &ReaderKind) -> Result<HDU, String> {
    let mut fits = Fits::from_reader(AnyReader::new(reader, &b.bytes));
    let mut last = None;
    for i in 0..b.hdus.len() {
        match fits.next() {
            Some(Ok(h)) => last = Some(h),
            x => return Err(format!("HDU {i}: {}", short(&x))),
        }
    }
    Ok(last.unwrap())
}

fn last_async_hdu(b: &Built, sched: &Schedule) -> Result<AsyncHDU, String> {
    let mut af = async_fits(Arc::new(b.bytes.clone()), sched);
    let mut last = None;
    for i in 0..b.hdus.len() {
        match async_next(&mut af) {
            Some(Ok(h)) => {
                if i + 1 < b.hdus.len() {
                    async_content(&mut af, &h, usize::MAX);
                }
                last = Some(h)
            }
            Some(Err(e)) => return Err(format!("asynchronous HDU {i}: {e:?}")),
            None => return Err(format!("asynchronous HDU {i} is missing")),
        }
    }
    Ok(last.unwrap())
}

// ------------------------------------------------------------------ C06

fn gen_long(g: &mut Gen, out: &mut Vec<CardSpec>) {
    let n = match g.weighted(&[4, 2, 1]) {
        0 => g.usize(1, 4),
        1 => g.usize(0, 12),
        _ => g.usize(0, 40),
    };
    let piece = |g: &mut Gen, width: usize, cont: bool| {
        // quotes doubled, the ampersand and the two quotes
        let mut p = gen_string(g, width - cont as usize);
        if cont {
            p.push('&');
        }
        p
    };
    let hier = g.chance(1, 4);
    let width = if hier { 40 } else { 70 };
    let amp = n > 0 || g.chance(1, 3);
    let first = Val::Str(piece(g, width, amp));
    if hier {
        // as short as possible so that there is room for the text
        let len = g.usize(1, 3);
        let tokens = (0..len).map(|_| g.pick(&["ESO", "DET", "LONG", "A"]).to_owned()).collect();
        out.push(CardSpec::Hierarch {
            tokens,
            val: first,
            comment: g.bool().then(|| " hc".to_owned()),
            lead: g.usize(0, 2) as u8,
            gap: 1,
        });
    } else {
        let name = gen_name(g);
        out.push(value_card(g, name, first));
    }
    for i in 0..n {
        if g.chance(1, 25) {
            // the chain is broken
            let c = match g.usize(0, 5) {
                5 => plain_card(g),
                4 => CardSpec::Xtension {
                    kind: Ext::Image,
                    text: "IMAGE   ".to_owned(),
                    comment: None,
                },
                0 => CardSpec::Comment(gen_text(g, 60)),
                1 => CardSpec::Space,
                2 => CardSpec::History(gen_text(g, 20)),
                _ => {
                    let name = gen_name(g);
                    let val = gen_val(g, 70);
                    value_card(g, name, val)
                }
            };
            out.push(c);
        }
        let amp = i + 1 < n || g.chance(1, 10);
        let s = piece(g, 70, amp);
        out.push(continue_card(g, s));
    }
}

#[derive(Debug, Hash, Serialize, Deserialize)]
struct LongCase {
    file: FileSpec,
    reader: ReaderKind,
    sched: Schedule,
}

fn gen_long_case(g: &mut Gen) -> LongCase {
    let n = g.usize(1, 4);
    let mut cards = vec![];
    for _ in 0..n {
        match g.weighted(&[4, 1, 1]) {
            0 => gen_long(g, &mut cards),
            1 => cards.push(gen_extra(g)),
            _ => {
                // an orphan
                let s = gen_string(g, 70);
                cards.push(continue_card(g, s));
            }
        }
    }
    LongCase {
        reader: gen_reader(g),
        sched: gen_schedule(g),
        file: gen_carrier(g, cards),
    }
}

/// One string over very many cards
fn gen_very_long(g: &mut Gen) -> LongCase {
    let n = match g.weighted(&[3, 2, 1]) {
        0 => g.usize(40, 130),
        1 => g.usize(230, 270),
        _ => g.usize(270, 1300),
    };
    let (seed, hier, before, after) = (g.u64(), g.chance(1, 4), g.usize(0, 2), g.usize(0, 2));
    let mut x = seed;
    let full = g.bool();
    let mut piece = |room: usize, cont: bool| {
        // two quotes and the ampersand
        let room = room - 2 - cont as usize;
        let len = if full { room } else { splitmix(&mut x) as usize % (room + 1) };
        let mut p = String::new();
        while p.len() + p.matches('\'').count() < len {
            p.push(match splitmix(&mut x) % 40 {
                0 if p.len() + p.matches('\'').count() + 2 <= len => '\'',
                1 => ' ',
                k => (b'A' + k as u8 % 26) as char,
            });
        }
        // blanks before a quote are not significant
        if p.ends_with(' ') && !cont {
            p.pop();
            p.push('Z');
        }
        if cont {
            p.push('&');
        }
        p
    };
    let first = Val::Str(piece(40, true));
    let mut cards: Vec<CardSpec> = (0..before).map(|_| gen_extra(g)).collect();
    cards.push(if hier {
        CardSpec::Hierarch {
            tokens: vec!["ESO".into(), "LONG".into()],
            val: first,
            comment: None,
            lead: 1,
            gap: 1,
        }
    } else {
        CardSpec::Value {
            name: "VERYLONG".into(),
            val: first,
            comment: None,
            lead: 1,
            gap: 1,
        }
    });
    for i in 1..=n {
        cards.push(CardSpec::Continue {
            s: piece(if i == n { 30 } else { 70 }, i < n),
            comment: (i == n && seed % 2 == 0).then(|| " the end".to_owned()),
            lead: 0,
            gap: 1,
        });
    }
    cards.extend((0..after).map(|_| gen_extra(g)));
    LongCase {
        reader: gen_reader(g),
        sched: gen_schedule(g),
        file: gen_carrier(g, cards),
    }
}

fn check_long(c: &LongCase, s: &mut Stats) -> CheckResult {
    let b = c.file.build();
    let last = b.hdus.last().unwrap();
    let Some(want) = model_map(&last.cards) else {
        s.class("ambiguous ampersands, skipped");
        return Ok(());
    };
    let longest = want
        .iter()
        .map(|(_, v)| match v {
            Value::String { value, .. } => value.len(),
            _ => 0,
        })
        .max()
        .unwrap_or(0);
    s.class_if(longest > 70, "string longer than a card");
    s.class_if(longest > 1000, "string longer than 1000");
    s.class_if(longest > 16_000, "string longer than 16000");
    s.class_if(longest > 65_535, "string longer than 65535");
    let conts = last
        .cards
        .windows(2)
        .filter(|w| matches!(w[1], CardSpec::Continue { .. }))
        .count();
    s.add("continuations", conts as u64);
    if conts > 0 {
        s.nontrivial();
    }
    let hdu = last_hdu(&b, &c.reader)?;
    check_map(values(&hdu), &want)?;
    // the cards themselves are kept as they are
    check_hdu(b.hdus.len() - 1, &hdu, last)?;
    let hdu = last_async_hdu(&b, &c.sched)?;
    check_map(async_values(&hdu), &want).map_err(|e| format!("asynchronous: {e}"))?;

    // assembling by hand gives the same
    let got: Vec<Card> = last
        .cards
        .iter()
        .map(|c| Card::try_from(&c.render()).map_err(|e| format!("{e:?}")))
        .collect::<Result<_, _>>()?;
    let mut i = 0;
    while i < got.len() {
        let mut card = got[i].clone();
        let start = i;
        i += 1;
        if matches!(card, Card::Continuation { .. }) {
            continue;
        }
        let mut spliced = card.clone();
        while card.continued() && i < got.len() && matches!(got[i], Card::Continuation { .. }) {
            card.append(&got[i]);
            spliced = spliced.splice(got[i].clone());
            if let (Card::Value { value, .. } | Card::Hierarch { value, .. }, Card::Continuation { string, comment }) =
                (&got[start], &got[i])
            {
                if i == start + 1 {
                    // the values alone
                    let (mut a, b) = (value.clone(), value.clone());
                    a.append(string, comment);
                    ensure_eq!(b.splice(string.clone(), comment.clone()), a, "splice of the values");
                    let (Card::Value { value: v, .. } | Card::Hierarch { value: v, .. }) = &card else {
                        unreachable!()
                    };
                    ensure_eq!(*v, a, "value appended to alone");
                    // no string is as an empty one
                    let (mut a, mut b) = (value.clone(), value.clone());
                    a.append(&None, comment);
                    b.append(&Some(String::new()), comment);
                    ensure_eq!(a, b, "nothing appended");
                }
            }
            i += 1;
        }
        ensure_eq!(spliced, card, "splice and append differ");
        let alone = model_map(&last.cards[start..i]);
        if let (Some(alone), Card::Value { name, value } | Card::Hierarch { name, value }) =
            (alone, &card)
        {
            ensure_eq!(
                (name.clone(), value.clone()),
                alone[0],
                "cards appended one by one"
            );
        }
    }
    Ok(())
}

pub fn c06() -> Vec<Box<dyn Check>> {
    vec![Box::new(Simple {
        name: "very_long",
        rule: "one string over 40 to 1300 CONTINUE cards, among other cards, as below. All are non-trivial.",
        quick: 400,
        thorough: 15_000,
        num_choices: 150,
        gen: gen_very_long,
        check: check_long,
    }), Box::new(Simple {
        name: "long_strings",
        rule: "strings cut into 1 to 41 pieces over CONTINUE cards (value and HIERARCH cards, comments \
               on any piece, blank pieces, orphan CONTINUE cards, chains interrupted by other cards, \
               strings really ending with an ampersand); the values given by the synchronous and \
               asynchronous readers and by Card::append/splice must be those of the model of the \
               convention, and the cards be kept. Non-trivial: at least one CONTINUE card.",
        quick: 80_000,
        thorough: 2_000_000,
        num_choices: 400,
        gen: gen_long_case,
        check: check_long,
    })]
}

// ------------------------------------------------------------------ C07

#[derive(Debug, Hash, Serialize, Deserialize)]
struct MapCase {
    file: FileSpec,
    reader: ReaderKind,
    sched: Schedule,
    /// keywords that may be absent
    probes: Vec<String>,
}

fn gen_map_case(g: &mut Gen) -> MapCase {
    let mut cards = gen_cards(g, 60);
    // units, names of variants
    for _ in 0..g.usize(0, 4) {
        let name = gen_name(g);
        let val = match g.usize(0, 2) {
            0 => gen_float(g),
            1 => gen_int(g),
            _ => Val::Str(g.pick(&["RED", "Green", "BLUE", "blue", "RED ", "", " RED"]).to_owned()),
        };
        let sp = " ".repeat(g.usize(0, 2));
        let unit = g.pick(&["km/s", "deg", "", "10**(-7)J/m**2/Hz", "a]b", "s"]);
        let comment = match g.usize(0, 3) {
            0 => format!("{sp}[{unit}] what"),
            1 => format!("{sp}[{unit}]"),
            2 => format!("{sp}[{unit}"),
            _ => format!("{sp}see [{unit}]"),
        };
        let at = g.usize(0, cards.len());
        let width = val.text().len().max(20);
        if width + 2 + comment.len() <= 70 {
            cards.insert(
                at,
                CardSpec::Value {
                    name,
                    val,
                    comment: Some(comment),
                    lead: 255,
                    gap: 1,
                },
            );
        }
    }
    let n = g.usize(0, 4);
    let probes = (0..n).map(|_| gen_name(g)).collect();
    MapCase {
        reader: gen_reader(g),
        sched: gen_schedule(g),
        file: gen_carrier(g, cards),
        probes,
    }
}

#[derive(Debug, PartialEq, Deserialize)]
enum Colour {
    #[serde(rename = "RED")]
    Red,
    Green,
    #[serde(rename = "BLUE")]
    Blue,
}

#[derive(Debug, PartialEq, Deserialize)]
struct Scalar(f64);

/// What asking for a type must give: None when it must be refused
fn parsed<'a, T: Deserialize<'a> + PartialEq + std::fmt::Debug>(
    m: &'a ValueMap,
    key: &str,
    want: Option<T>,
    ty: &str,
) -> CheckResult {
    let got: Result<T, _> = m.get_parsed(key);
    match (got, want) {
        (Ok(a), Some(b)) => {
            ensure_eq!(a, b, "{key} as {ty}");
            Ok(())
        }
        (Err(_), None) => Ok(()),
        (Ok(a), None) => Err(format!(
            "{key} as {ty}: got {a:?} from {:?}, expected an error",
            m.get(key)
        )),
        (Err(e), Some(b)) => Err(format!("{key} as {ty}: got {e:?}, expected {b:?}")),
    }
}

fn check_types(m: &ValueMap, key: &str, v: &Value) -> CheckResult {
    macro_rules! ints {
        ($($t:ty),*) => {$(
            {
                let want = match v {
                    Value::Integer { value, .. } => <$t>::try_from(*value).ok(),
                    _ => None,
                };
                parsed::<$t>(m, key, want, stringify!($t))?;
                parsed::<Option<$t>>(m, key, match v {
                    Value::Undefined => Some(None),
                    _ => want.map(Some),
                }, concat!("Option<", stringify!($t), ">"))?;
            }
        )*};
    }
    ints!(i8, i16, i32, i64, u8, u16, u32, u64);
    let f = match v {
        Value::Integer { value, .. } => Some(*value as f64),
        Value::Float { value, .. } => Some(*value),
        _ => None,
    };
    parsed::<f64>(m, key, f, "f64")?;
    parsed::<Scalar>(m, key, f.map(Scalar), "a newtype of f64")?;
    parsed::<Option<f64>>(
        m,
        key,
        match v {
            Value::Undefined => Some(None),
            _ => f.map(Some),
        },
        "Option<f64>",
    )?;
    parsed::<usize>(
        m,
        key,
        match v {
            Value::Integer { value, .. } => usize::try_from(*value).ok(),
            _ => None,
        },
        "usize",
    )?;
    parsed::<()>(m, key, matches!(v, Value::Undefined).then_some(()), "()")?;
    // what is not a scalar is never there
    parsed::<Vec<i64>>(m, key, None, "Vec<i64>")?;
    parsed::<(i64, i64)>(m, key, None, "(i64, i64)")?;
    parsed::<std::collections::BTreeMap<String, i64>>(m, key, None, "a map")?;
    let f = match v {
        Value::Integer { value, .. } => Some(*value as f32),
        Value::Float { value, .. } => Some(*value as f32),
        _ => None,
    };
    parsed::<f32>(m, key, f, "f32")?;
    let b = match v {
        Value::Logical { value, .. } => Some(*value),
        _ => None,
    };
    parsed::<bool>(m, key, b, "bool")?;
    parsed::<Option<bool>>(
        m,
        key,
        match v {
            Value::Undefined => Some(None),
            _ => b.map(Some),
        },
        "Option<bool>",
    )?;
    let st = match v {
        Value::String { value, .. } => Some(value.clone()),
        Value::Invalid(s) => Some(s.clone()),
        _ => None,
    };
    parsed::<String>(m, key, st.clone(), "String")?;
    parsed::<&str>(m, key, st.as_deref(), "&str")?;
    let c = st.as_deref().and_then(|s| {
        let mut c = s.chars();
        c.next().filter(|_| c.next().is_none())
    });
    parsed::<char>(m, key, c, "char")?;
    parsed::<Option<String>>(
        m,
        key,
        match v {
            Value::Undefined => Some(None),
            _ => st.map(Some),
        },
        "Option<String>",
    )?;
    if let Value::String { value, .. } = v {
        let c = match value.as_str() {
            "RED" => Some(Colour::Red),
            "Green" => Some(Colour::Green),
            "BLUE" => Some(Colour::Blue),
            _ => None,
        };
        parsed::<Colour>(m, key, c, "an enum")?;
    }
    Ok(())
}

fn unit_of(v: &Value) -> Option<String> {
    let c = match v {
        Value::Integer { comment, .. }
        | Value::Float { comment, .. }
        | Value::Logical { comment, .. }
        | Value::String { comment, .. } => comment.as_ref()?,
        _ => return None,
    };
    let c = c.trim_start_matches(' ').strip_prefix('[')?;
    Some(c[..c.find(']')?].to_owned())
}

#[derive(Debug, PartialEq, Deserialize)]
struct Picked {
    #[serde(rename = "BITPIX")]
    bitpix: i64,
    #[serde(rename = "NAXIS")]
    naxis: u64,
    #[serde(rename = "TOTALLY-ABSENT")]
    absent: Option<String>,
    #[serde(rename = "NAXIS1", default)]
    naxis1: Option<u64>,
}

fn check_values(m: &ValueMap, want: &[(String, Value)], probes: &[String]) -> CheckResult {
    check_map(m, want)?;
    let keys: Vec<&String> = m.keywords().collect();
    let want_keys: Vec<&String> = want.iter().map(|(k, _)| k).collect();
    ensure_eq!(keys, want_keys, "keywords");
    for (k, v) in want {
        ensure_eq!(m.get(k), Some(v), "value of {k}");
        check_types(m, k, v)?;
        let unit = unit_of(v);
        ensure_eq!(
            v.unit(),
            unit.as_deref(),
            "unit of {k}, whose comment is {v:?}"
        );
        let first = want.iter().find(|(_, w)| w == v).map(|(k, _)| k.as_str());
        // NaN is not equal to itself
        ensure_eq!(m.get_keyword(v), first, "keyword having the value {v:?}");
    }
    for p in probes {
        let present = want.iter().any(|(k, _)| k == p);
        ensure_eq!(m.get(p).is_some(), present, "presence of {p}");
        if !present {
            check_types(m, p, &Value::Undefined)?;
        }
    }
    let get = |k: &str| {
        want.iter().find(|(n, _)| n == k).and_then(|(_, v)| match v {
            Value::Integer { value, .. } => Some(*value),
            _ => None,
        })
    };
    let picked = Picked::deserialize(IntoDeserializer::into_deserializer(m));
    match picked {
        Ok(p) => ensure_eq!(
            p,
            Picked {
                bitpix: get("BITPIX").unwrap(),
                naxis: get("NAXIS").unwrap() as u64,
                absent: None,
                naxis1: get("NAXIS1").map(|v| v as u64),
            },
            "deserialized structure"
        ),
        Err(e) => return Err(format!("deserializing a structure: {e:?}")),
    }
    Ok(())
}

fn check_map_case(c: &MapCase, s: &mut Stats) -> CheckResult {
    let b = c.file.build();
    let last = b.hdus.last().unwrap();
    let Some(want) = model_map(&last.cards) else {
        s.class("ambiguous ampersands, skipped");
        return Ok(());
    };
    let n = last
        .cards
        .iter()
        .filter(|c| matches!(c, CardSpec::Value { .. } | CardSpec::Hierarch { .. }))
        .count();
    s.class_if(n > want.len(), "repeated keywords");
    s.class_if(want.iter().any(|(_, v)| unit_of(v).is_some()), "with a unit");
    s.add("values", want.len() as u64);
    if !c.file.hdus.last().unwrap().extra.is_empty() {
        s.nontrivial();
    }
    let hdu = last_hdu(&b, &c.reader)?;
    check_values(values(&hdu), &want, &c.probes)?;
    let hist: Vec<String> = last
        .cards
        .iter()
        .filter_map(|c| match c.expected() {
            Card::History(h) => Some(h),
            _ => None,
        })
        .collect();
    ensure_eq!(history(&hdu), hist, "history");
    let hdu = last_async_hdu(&b, &c.sched)?;
    check_values(async_values(&hdu), &want, &c.probes).map_err(|e| format!("asynchronous: {e}"))
}

pub fn c07() -> Vec<Box<dyn Check>> {
    vec![Box::new(Simple {
        name: "values",
        rule: "a header of 1 to 60 generated cards, with repeated keywords; get, iter, keywords, \
               get_keyword, history, unit, get_parsed for 8 integer types, floats, logical, strings, \
               options and an enum, on present and absent keywords, and a derived structure must \
               agree with an ordered map built by the harness, for both readers. Non-trivial: at \
               least one optional card.",
        quick: 40_000,
        thorough: 1_000_000,
        num_choices: 450,
        gen: gen_map_case,
        check: check_map_case,
    }), Box::new(Simple {
        name: "long_headers",
        rule: "the same with headers of 30 to 7000 cards, or images of 10 to 999 axes",
        quick: 80,
        thorough: 4000,
        num_choices: 300,
        gen: |g| MapCase {
            probes: vec!["K7".into(), "S12".into(), "NAXIS3".into(), "K300".into()],
            reader: gen_reader(g),
            sched: gen_schedule(g),
            file: gen_many(g),
        },
        check: check_map_case,
    }), Box::new(Simple {
        name: "damaged",
        rule: "the headers of C23, with damaged cards: what get_parsed gives for every type agrees with the \
               value, options included, also for values that are neither strings, numbers nor logicals. \
               Non-trivial: there is such a value.",
        quick: 20_000,
        thorough: 500_000,
        num_choices: 300,
        gen: gen_raw_case,
        check: check_raw_types,
    })]
}

// ------------------------------------------------------------------ C23

#[derive(Debug, Clone, Hash, Serialize, Deserialize)]
enum Item {
    Known(CardSpec),
    /// 80 bytes
    Raw(Vec<u8>),
    /// a value card the reader cannot make sense of: it must be kept as it is
    Kept(Vec<u8>),
    /// neither a string, a number nor a logical
    Invalid { name: String, text: String },
    /// a string, its comment, with unusual bytes
    Odd {
        name: String,
        s: Vec<u8>,
        comment: Vec<u8>,
    },
    /// commentary text with unusual bytes; 0 COMMENT, 1 HISTORY, 2 blank keyword
    OddText(u8, Vec<u8>),
}

#[derive(Debug, Hash, Serialize, Deserialize)]
struct RawCase {
    carrier: FileSpec,
    items: Vec<Item>,
    reader: ReaderKind,
    sched: Schedule,
}

fn odd_bytes(g: &mut Gen, max: usize) -> Vec<u8> {
    let len = g.usize(0, max);
    let mode = g.usize(0, 3);
    let mut seed = g.u64();
    (0..len)
        .map(|_| {
            let r = splitmix(&mut seed);
            match mode {
                0 => r as u8,
                1 => b' ' + (r % 95) as u8,
                2 => b"\0\t\r\n\x7f\x80\xff\xc3\xa9 '/&="[r as usize % 14],
                _ => {
                    if r % 8 == 0 {
                        (r >> 8) as u8
                    } else {
                        b'a' + (r >> 8) as u8 % 26
                    }
                }
            }
        })
        .collect()
}

fn card80(s: Vec<u8>) -> Vec<u8> {
    let mut s = s;
    s.resize(80, b' ');
    s
}

/// The keyword as a reader sees it
fn trimmed_keyword(raw: &[u8]) -> &[u8] {
    raw[..8].trim_ascii()
}

fn structural(kw: &[u8]) -> bool {
    let s = String::from_utf8_lossy(kw);
    ["END", "SIMPLE", "XTENSION", "BITPIX", "PCOUNT", "GCOUNT", "TFIELDS", "THEAP"].contains(&&*s)
        || ["NAXIS", "TTYPE", "TFORM", "TBCOL", "Z"].iter().any(|p| s.starts_with(p))
}

fn gen_item(g: &mut Gen) -> Item {
    match g.weighted(&[3, 4, 3, 2, 2, 2]) {
        0 => Item::Known(gen_extra(g)),
        1 => {
            let mut raw = match g.usize(0, 3) {
                0 => card80(odd_bytes(g, 80)),
                1 => {
                    // a keyword of the format, then anything
                    let mut r = g
                        .pick(&[
                            "COMMENT ", "HISTORY ", "        ", "CONTINUE", "HIERARCH", "OBJECT  ", "BLANK   ",
                            "  A     ", "CONTINUE  '", "HIERARCH A = ", "OBJECT  = '", "EXPTIME = ", "A       =",
                        ])
                        .as_bytes()
                        .to_vec();
                    let n = 80 - r.len();
                    r.extend(odd_bytes(g, n));
                    card80(r)
                }
                _ => {
                    // a valid card, damaged
                    let mut r = gen_extra(g).render().to_vec();
                    for _ in 0..g.usize(1, 4) {
                        let i = g.usize(0, 79);
                        r[i] = match g.usize(0, 4) {
                            0 => b'\'',
                            1 => b' ',
                            2 => g.pick(b"=/&(.T0"),
                            _ => g.u64() as u8,
                        };
                    }
                    r
                }
            };
            if structural(trimmed_keyword(&raw)) {
                raw[0] = b'~';
            }
            Item::Raw(raw)
        }
        2 => {
            let name = gen_name(g);
            let mut r = format!("{name:<8}").into_bytes();
            match g.usize(0, 4) {
                // no value indicator
                0 => {
                    let t = gen_text(g, 60);
                    r.extend(g.pick(&["=x", "  ", " =", "==", "x "]).as_bytes());
                    r.extend(t.as_bytes());
                }
                // a string that is not closed
                1 => {
                    r.extend(b"= '");
                    let mut t = gen_text(g, 66).replace('\'', "x");
                    // an even number of quotes is a quote
                    for _ in 0..g.usize(0, 2) {
                        let mut i = g.usize(0, t.len());
                        while i > 0 && t.as_bytes()[i - 1] == b'\'' {
                            i -= 1;
                        }
                        if t.len() < 66 && !t[i..].starts_with('\'') {
                            t.insert_str(i, "''");
                        }
                    }
                    r.extend(t.as_bytes());
                    // readers may take a doubled quote for the end
                    if t.ends_with('\'') || t.trim_end().ends_with('\'') {
                        let n = t.len() - t.trim_end().len();
                        r.truncate(r.len() - n);
                        r.push(b'x');
                    }
                }
                // complex
                2 => {
                    let t = g.pick(&["(1, 2)", "(1.5,-2E3)", "(0,0) / complex"]);
                    r.extend(b"= ");
                    r.extend(" ".repeat(g.usize(0, 5)).as_bytes());
                    r.extend(t.as_bytes());
                }
                // a strange byte in a value that is not a string
                3 => {
                    let b = g.pick(&[0u8, 9, 127, 0x80, 0xff]);
                    r.extend(b"= 12");
                    r.push(b);
                    r.extend(b"34");
                }
                // HIERARCH without a value or a keyword
                _ => {
                    r = g
                        .pick(&["HIERARCH ESO DET 12", "HIERARCH = 12", "HIERARCH     ", "CONTINUE  'abc"])
                        .as_bytes()
                        .to_vec();
                }
            }
            r.truncate(80);
            Item::Kept(card80(r))
        }
        3 => Item::Invalid {
            name: gen_name(g),
            text: g
                .pick(&[
                    "12abc", "1.2.3", "--5", "abc", "yes", "0x10", "1E", "+", "-", ".", "1 2", "#", "\"x\"",
                    "99x99",
                ])
                .to_owned(),
        },
        4 => {
            let mut s: Vec<u8> = odd_bytes(g, 30);
            s.retain(|&b| b != b'\'');
            let mut comment = odd_bytes(g, 30);
            // a blank at the ends could be trimmed
            s.insert(0, b'<');
            s.push(b'>');
            comment.insert(0, b'<');
            comment.push(b'>');
            Item::Odd {
                name: gen_name(g),
                s,
                comment,
            }
        }
        _ => {
            let k = g.usize(0, 2) as u8;
            let mut t = odd_bytes(g, 71);
            t.push(b'|');
            Item::OddText(k, t)
        }
    }
}

fn gen_raw_case(g: &mut Gen) -> RawCase {
    let n = match g.weighted(&[4, 1]) {
        0 => g.usize(1, 8),
        _ => g.usize(1, 40),
    };
    let items = (0..n).map(|_| gen_item(g)).collect();
    RawCase {
        items,
        reader: gen_reader(g),
        sched: gen_schedule(g),
        carrier: gen_carrier(g, vec![]),
    }
}

fn printable(b: &[u8]) -> String {
    String::from_utf8_lossy(b)
        .chars()
        .map(|c| if (' '..='~').contains(&c) { c } else { '\u{fffd}' })
        .collect()
}

impl Item {
    fn render(&self) -> Vec<u8> {
        let r = match self {
            Item::Known(c) => c.render().to_vec(),
            Item::Raw(r) | Item::Kept(r) => r.clone(),
            Item::Invalid { name, text } => format!("{name:<8}= {text:>20}").into_bytes(),
            Item::Odd { name, s, comment } => {
                let mut r = format!("{name:<8}= '").into_bytes();
                r.extend(s);
                r.extend(b"' /");
                r.extend(comment);
                r
            }
            Item::OddText(k, t) => {
                let mut r = ["COMMENT ", "HISTORY ", "        "][*k as usize].as_bytes().to_vec();
                r.extend(t);
                r
            }
        };
        card80(r)
    }

    fn check(&self, got: &Card) -> CheckResult {
        let raw = self.render();
        let lossy = String::from_utf8_lossy(&raw).into_owned();
        match self {
            Item::Known(c) => ensure_eq!(*got, c.expected(), "card among damaged ones"),
            Item::Kept(_) => {
                ensure_eq!(*got, Card::Undefined(lossy), "card that cannot be understood")
            }
            Item::Invalid { name, text } => match got {
                Card::Value {
                    name: n,
                    value: Value::Invalid(t),
                } => {
                    ensure_eq!(n, name, "name of the card");
                    ensure!(t.contains(text.trim()), "the text {text:?} is lost: {t:?}");
                }
                _ => return Err(format!("{lossy:?} read as {got:?}")),
            },
            Item::Odd { name, s, comment } => {
                let want = Card::Value {
                    name: name.clone(),
                    value: Value::String {
                        value: printable(s),
                        comment: Some(printable(comment)),
                    },
                };
                ensure_eq!(*got, want, "string with unusual characters");
            }
            Item::OddText(k, t) => {
                let text: String = t
                    .iter()
                    .map(|&b| if (b' '..=b'~').contains(&b) { b as char } else { '\u{fffd}' })
                    .collect();
                let want = if *k == 1 {
                    Card::History(text)
                } else {
                    Card::Comment(text)
                };
                ensure_eq!(*got, want, "text with unusual characters");
            }
            Item::Raw(_) => {
                let kw = String::from_utf8_lossy(trimmed_keyword(&raw)).into_owned();
                let ok = match got {
                    Card::Undefined(t) => *t == lossy,
                    Card::Value { name, .. } => *name == kw && &raw[8..10] == b"= ",
                    Card::Comment(_) => kw == "COMMENT" || kw.is_empty(),
                    Card::History(_) => kw == "HISTORY",
                    Card::Hierarch { .. } => kw == "HIERARCH",
                    Card::Continuation { .. } => kw == "CONTINUE",
                    Card::Space => raw.iter().all(|b| b.is_ascii_whitespace()),
                    Card::Xtension { .. } | Card::End => false,
                };
                ensure!(ok, "card {lossy:?} read as {got:?}");
            }
        }
        Ok(())
    }
}

fn check_raw(c: &RawCase, s: &mut Stats) -> CheckResult {
    let b = c.carrier.build();
    let last = b.hdus.last().unwrap();
    // the mandatory cards, the items, the rest
    let at = last
        .cards
        .iter()
        .position(|c| matches!(c, CardSpec::Space | CardSpec::End))
        .unwrap();
    let mut bytes = b.bytes[..last.header_off as usize].to_vec();
    for c in &last.cards[..at] {
        bytes.extend(c.render());
    }
    for i in &c.items {
        bytes.extend(i.render());
        s.class(match i {
            Item::Known(_) => "valid card",
            Item::Raw(_) => "arbitrary card",
            Item::Kept(_) => "card that cannot be understood",
            Item::Invalid { .. } => "value that is not one",
            Item::Odd { .. } => "string with odd bytes",
            Item::OddText(..) => "text with odd bytes",
        });
    }
    if c.items.iter().any(|i| !matches!(i, Item::Known(_))) {
        s.nontrivial();
    }
    bytes.extend(CardSpec::End.render());
    pad(&mut bytes, b' ');
    let data_off = bytes.len() as u64;
    bytes.extend(&last.data);
    pad(&mut bytes, 0);

    let check = |cards: &[Card]| -> CheckResult {
        ensure_eq!(cards.len(), at + c.items.len() + 1, "number of cards");
        for (got, want) in cards.iter().zip(&last.cards[..at]) {
            ensure_eq!(*got, want.expected(), "mandatory card");
        }
        for (got, item) in cards[at..].iter().zip(&c.items) {
            item.check(got)?;
        }
        ensure_eq!(cards.last(), Some(&Card::End), "last card");
        Ok(())
    };
    let check_vals = |m: &ValueMap, cards: &[Card]| -> CheckResult {
        // a name is in the map if and only if a card gives it a value
        for i in &c.items {
            if let Item::Kept(r) = i {
                let kw = String::from_utf8_lossy(trimmed_keyword(r)).into_owned();
                let other = cards.iter().any(|c| {
                    matches!(c, Card::Value { name, .. } | Card::Hierarch { name, .. } if *name == kw)
                });
                ensure_eq!(m.get(&kw).is_some(), other, "value of {kw}");
            }
        }
        for k in m.keywords() {
            let ok = k == "XTENSION"
                || cards.iter().any(|c| {
                    matches!(c, Card::Value { name, .. } | Card::Hierarch { name, .. } if name == k)
                });
            ensure!(ok, "no card gives the value of {k:?}");
        }
        Ok(())
    };

    let mut fits = Fits::from_reader(AnyReader::new(&c.reader, &bytes));
    let mut hdu = None;
    for i in 0..b.hdus.len() {
        match fits.next() {
            Some(Ok(h)) => hdu = Some(h),
            x => return Err(format!("HDU {i}: {}", short(&x))),
        }
    }
    let hdu = hdu.unwrap();
    let all = cards(&hdu);
    check(&all)?;
    check_vals(values(&hdu), &all)?;
    ensure_eq!(hdu.get_data_unit_byte_offset(), data_off, "data offset");
    ensure!(fits.next().is_none(), "a HDU too many");

    let ab = Built {
        bytes,
        hdus: b.hdus,
    };
    let ahdu = last_async_hdu(&ab, &c.sched)?;
    let same = async_cards(&ahdu);
    for (k, (a, b)) in same.iter().zip(&all).enumerate() {
        // floats that are not numbers are not equal to themselves
        ensure_eq!(format!("{a:?}"), format!("{b:?}"), "asynchronous card {k}");
    }
    ensure_eq!(same.len(), all.len(), "number of asynchronous cards");
    Ok(())
}

/// What is asked of the values, among damaged cards, agrees with the values themselves
fn check_raw_types(c: &RawCase, s: &mut Stats) -> CheckResult {
    let b = c.carrier.build();
    let last = b.hdus.last().unwrap();
    let at = last
        .cards
        .iter()
        .position(|c| matches!(c, CardSpec::Space | CardSpec::End))
        .unwrap();
    let mut bytes = b.bytes[..last.header_off as usize].to_vec();
    for c in &last.cards[..at] {
        bytes.extend(c.render());
    }
    for i in &c.items {
        bytes.extend(i.render());
    }
    bytes.extend(CardSpec::End.render());
    pad(&mut bytes, b' ');
    bytes.extend(&last.data);
    pad(&mut bytes, 0);
    let mut fits = Fits::from_reader(AnyReader::new(&c.reader, &bytes));
    let mut hdu = None;
    for i in 0..b.hdus.len() {
        match fits.next() {
            Some(Ok(h)) => hdu = Some(h),
            x => return Err(format!("HDU {i}: {}", short(&x))),
        }
    }
    let hdu = hdu.unwrap();
    let m = values(&hdu);
    let mut n = 0;
    for (k, v) in m.iter() {
        ensure_eq!(
            format!("{:?}", m.get(k)),
            format!("{:?}", Some(v)),
            "value of {k}"
        );
        match v {
            Value::Float { value, .. } if value.is_nan() => continue,
            Value::Invalid(_) => n += 1,
            _ => {}
        }
        check_types(m, k, v)?;
    }
    s.class_if(n > 0, "value that is not one");
    if n > 0 {
        s.nontrivial();
    }
    // the values that are not ones are in the map, as such
    let all = cards(&hdu);
    for c in &all {
        if let Card::Value {
            name,
            value: Value::Invalid(_),
        } = c
        {
            let last = all.iter().rev().find_map(|c| match c {
                Card::Value { name: n, value } | Card::Hierarch { name: n, value, .. } if n == name => Some(value),
                _ => None,
            });
            if matches!(last, Some(Value::Invalid(_))) {
                ensure_eq!(m.get(name), last, "value of {name}, that has no valid one");
            }
        }
    }
    Ok(())
}

pub fn c23() -> Vec<Box<dyn Check>> {
    vec![Box::new(Simple {
        name: "raw_cards",
        rule: "1 to 40 cards that may be random bytes, damaged cards, values that are not FITS values, \
               unterminated strings, cards without value indicator, strings and commentaries with \
               non-ASCII bytes, among valid ones; each must be given in its place, those that cannot \
               be understood verbatim, and the valid ones, the structure and the data unit location \
               be unaffected, identically for both readers. Non-trivial: at least one such card.",
        quick: 120_000,
        thorough: 3_000_000,
        num_choices: 300,
        gen: gen_raw_case,
        check: check_raw,
    })]
}

// ------------------------------------------------------------------ C24

#[derive(Debug, Hash, Serialize, Deserialize)]
struct WcsCase {
    file: FileSpec,
    reader: ReaderKind,
}

fn gen_wcs_case(g: &mut Gen) -> WcsCase {
    let which = g.weighted(&[3, 2, 2, 2]);
    let reader = gen_reader(g);
    let mandatory = g.chance(9, 10);
    let n = g.usize(0, 14);
    let wrong = g.chance(1, 5);
    let mut cards = vec![];
    let add = |g: &mut Gen, cards: &mut Vec<CardSpec>, name: &str, val: Val| {
        let c = value_card(g, name.to_owned(), val);
        let at = g.usize(0, cards.len());
        cards.insert(at, c);
    };
    const TYPES: &[&str] = &["RA---TAN", "DEC--TAN", "GLON-AIT", "RA---TAN-SIP", "HPX", "", "FREQ"];
    if mandatory {
        let v = Val::Str(g.pick(TYPES).to_owned());
        add(g, &mut cards, "CTYPE1", v);
    }
    for _ in 0..n {
        let (name, val) = match g.weighted(&[6, 1, 2]) {
            0 => {
                let name = g.pick(WCS::FLOATS);
                let val = if g.chance(1, 3) { gen_int(g) } else { gen_float(g) };
                (name, val)
            }
            1 => (g.pick(&WCS::INTEGERS[5..]), gen_int(g)),
            _ => (g.pick(WCS::STRINGS), Val::Str(g.pick(TYPES).to_owned())),
        };
        let val = if wrong && g.chance(1, 4) {
            gen_val(g, 20)
        } else if g.chance(1, 12) {
            Val::Blank
        } else {
            val
        };
        add(g, &mut cards, name, val);
    }
    for _ in 0..g.usize(0, 6) {
        let c = gen_extra(g);
        // a CONTINUE card among them would continue one of the strings
        if !matches!(c, CardSpec::Continue { .. }) {
            let at = g.usize(0, cards.len());
            cards.insert(at, c);
        }
    }
    let body = match which {
        0 | 1 => Body::Image(gen_image(g, 60)),
        2 => Body::Bin(gen_small_table(g)),
        _ => {
            let float = g.bool();
            Body::Tile(crate::tiles::gen_tile(g, float, 60))
        }
    };
    let hdu = HduSpec {
        body,
        extra: cards,
        fill: gen_fill(g),
        style: g.weighted(&[3, 1, 1, 1]) as u8,
    };
    WcsCase {
        reader,
        file: with_primary(hdu, which > 0),
    }
}

fn check_wcs(c: &WcsCase, s: &mut Stats) -> CheckResult {
    use serde_json::Value as Json;
    let b = c.file.build();
    let last = b.hdus.last().unwrap();
    let Some(map) = model_map(&last.cards) else {
        s.class("ambiguous ampersands, skipped");
        return Ok(());
    };
    let spec = c.file.hdus.last().unwrap();
    // what the size of a compressed image is, among those of the table and of the image, is left open
    let open = |k: &str| matches!(spec.body, Body::Tile(_)) && k.starts_with("NAXIS");
    let find = |k: &str| map.iter().find(|(n, _)| n == k).map(|(_, v)| v);
    let mut want = serde_json::Map::new();
    let mut present = 0;
    let mut wrong = None;
    let keys = WCS::INTEGERS
        .iter()
        .map(|k| (0, *k))
        .chain(WCS::STRINGS.iter().map(|k| (1, *k)))
        .chain(WCS::FLOATS.iter().map(|k| (2, *k)));
    for (ty, k) in keys {
        let v = match (ty, find(k)) {
            (_, None | Some(Value::Undefined)) => {
                if k == "CTYPE1" {
                    wrong = Some(k);
                }
                Json::Null
            }
            (0, Some(Value::Integer { value, .. })) => Json::from(*value),
            (1, Some(Value::String { value, .. })) => Json::from(value.clone()),
            (2, Some(Value::Integer { value, .. })) => Json::from(*value as f64),
            (2, Some(Value::Float { value, .. })) => Json::from(*value),
            _ => {
                wrong = Some(k);
                Json::Null
            }
        };
        if !v.is_null() && !k.starts_with("NAXIS") {
            present += 1;
        }
        if !open(k) {
            want.insert(k.to_owned(), v);
        }
    }
    let hdu = last_hdu(&b, &c.reader)?;
    let got = match &hdu {
        HDU::Primary(h) | HDU::XImage(h) => h.wcs(),
        HDU::XBinaryTable(h) => h.wcs(),
        HDU::XASCIITable(_) => return Err("an ASCII table".into()),
    };
    s.add("keywords", present);
    s.class_if(matches!(spec.body, Body::Tile(_)), "compressed image");
    if present > 1 {
        s.nontrivial();
    }
    match (got, wrong) {
        (Ok(_), Some(k)) => Err(format!("{k} is missing or of another type, yet there is a transformation")),
        (Err(e), None) => Err(format!("no transformation: {e:?}")),
        (Err(_), Some(_)) => {
            s.class("mandatory keyword missing, or wrong type");
            Ok(())
        }
        (Ok(w), None) => {
            let Json::Object(got) = serde_json::to_value(&w.params).unwrap() else {
                unreachable!()
            };
            for (k, v) in &want {
                ensure_eq!(got.get(k), Some(v), "{k}");
            }
            Ok(())
        }
    }
}

pub fn c24() -> Vec<Box<dyn Check>> {
    vec![Box::new(Simple {
        name: "parameters",
        rule: "a primary image, image extension, table or tile-compressed image with 0 to 15 of the keywords \
               of a world coordinate system, in any order, repeated, as integers or floating-point numbers, \
               without value, of another type, among other cards: the parameters which the transformation \
               is made of must be the values written, and a missing mandatory keyword or a wrong type an \
               error. The wcs crate is replaced by a recorder of its parameters. Non-trivial: at least 2 of \
               these keywords have a value.",
        quick: 40_000,
        thorough: 800_000,
        num_choices: 250,
        gen: gen_wcs_case,
        check: check_wcs,
    })]
}
