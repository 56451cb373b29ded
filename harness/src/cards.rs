//! Header cards: a specification of what is written, its 80 bytes, and what a reader must give back.

use crate::engine::{splitmix, Gen};
use fitsrs::card::{Card, Value};
use fitsrs::hdu::header::extension::XtensionType;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Val {
    Int {
        v: i64,
        text: String,
    },
    /// bits of the number, and the text it is written with
    Float {
        bits: u64,
        text: String,
    },
    Bool(bool),
    Str(String),
    /// blank value field
    Blank,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum CardSpec {
    Value {
        name: String,
        val: Val,
        comment: Option<String>,
        /// spaces before the value; 255: fixed format
        lead: u8,
        /// spaces before the slash
        gap: u8,
    },
    Hierarch {
        tokens: Vec<String>,
        val: Val,
        comment: Option<String>,
        lead: u8,
        gap: u8,
    },
    Continue {
        s: String,
        comment: Option<String>,
        lead: u8,
        gap: u8,
    },
    Xtension {
        kind: Ext,
        /// the name inside the quotes
        text: String,
        comment: Option<String>,
    },
    Comment(String),
    History(String),
    /// blank keyword, with some text
    BlankKw(String),
    /// a keyword not followed by the value indicator, and some text
    Plain(String, String),
    Space,
    End,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Ext {
    Image,
    Bin,
    Ascii,
}

impl Ext {
    pub fn fits(self) -> XtensionType {
        match self {
            Ext::Image => XtensionType::Image,
            Ext::Bin => XtensionType::BinTable,
            Ext::Ascii => XtensionType::AsciiTable,
        }
    }
    pub fn name(self) -> &'static str {
        match self {
            Ext::Image => "IMAGE",
            Ext::Bin => "BINTABLE",
            Ext::Ascii => "TABLE",
        }
    }
}

/// What reading back a string gives: trailing spaces are not significant, except that a string made
/// of spaces is not the null string.
pub fn string_read_back(s: &str) -> String {
    if s.is_empty() {
        String::new()
    } else {
        let t = s.trim_end_matches(' ');
        if t.is_empty() {
            " ".to_owned()
        } else {
            t.to_owned()
        }
    }
}

fn comment_read_back(c: &Option<String>) -> Option<String> {
    c.as_ref().map(|c| c.trim_end_matches(' ').to_owned())
}

impl Val {
    /// Text in the value field
    pub fn text(&self) -> String {
        match self {
            Val::Int { text, .. } | Val::Float { text, .. } => text.clone(),
            Val::Bool(true) => "T".into(),
            Val::Bool(false) => "F".into(),
            Val::Str(s) => format!("'{}'", s.replace('\'', "''")),
            Val::Blank => String::new(),
        }
    }
    pub fn expected(&self, comment: &Option<String>) -> Value {
        let comment = comment_read_back(comment);
        match self {
            Val::Int { v, .. } => Value::Integer { value: *v, comment },
            Val::Float { bits, .. } => Value::Float {
                value: f64::from_bits(*bits),
                comment,
            },
            Val::Bool(b) => Value::Logical { value: *b, comment },
            Val::Str(s) => Value::String {
                value: string_read_back(s),
                comment,
            },
            Val::Blank => Value::Undefined,
        }
    }
}

fn value_field(val: &Val, comment: &Option<String>, lead: u8, gap: u8) -> String {
    let mut s = String::new();
    let text = val.text();
    if lead == 255 {
        match val {
            Val::Str(_) => s.push_str(&format!("{text:<20}")),
            _ => s.push_str(&format!("{text:>20}")),
        }
    } else {
        s.push_str(&" ".repeat(lead as usize));
        s.push_str(&text);
    }
    if let Some(c) = comment {
        s.push_str(&" ".repeat(gap as usize));
        s.push('/');
        s.push_str(c);
    }
    s
}

impl CardSpec {
    pub fn render(&self) -> [u8; 80] {
        let s = match self {
            CardSpec::Value {
                name,
                val,
                comment,
                lead,
                gap,
            } => format!("{name:<8}= {}", value_field(val, comment, *lead, *gap)),
            CardSpec::Hierarch {
                tokens,
                val,
                comment,
                lead,
                gap,
            } => format!(
                "HIERARCH {} ={}",
                tokens.join(" "),
                value_field(val, comment, *lead, *gap)
            ),
            CardSpec::Continue {
                s,
                comment,
                lead,
                gap,
            } => format!(
                "CONTINUE  {}",
                value_field(&Val::Str(s.clone()), comment, *lead, *gap)
            ),
            CardSpec::Xtension { text, comment, .. } => format!(
                "XTENSION= {}",
                value_field(&Val::Str(text.clone()), comment, 0, 1)
            ),
            CardSpec::Comment(s) => format!("COMMENT {s}"),
            CardSpec::History(s) => format!("HISTORY {s}"),
            CardSpec::BlankKw(s) => format!("        {s}"),
            CardSpec::Plain(name, s) => format!("{name:<8}{s}"),
            CardSpec::Space => String::new(),
            CardSpec::End => "END".into(),
        };
        assert!(s.is_ascii() && s.len() <= 80, "harness: bad card {self:?}");
        let mut out = [b' '; 80];
        out[..s.len()].copy_from_slice(s.as_bytes());
        out
    }

    pub fn expected(&self) -> Card {
        match self {
            CardSpec::Value {
                name, val, comment, ..
            } => Card::Value {
                name: name.clone(),
                value: val.expected(comment),
            },
            CardSpec::Hierarch {
                tokens,
                val,
                comment,
                ..
            } => Card::Hierarch {
                name: tokens.join("."),
                value: val.expected(comment),
            },
            CardSpec::Continue { s, comment, .. } => Card::Continuation {
                string: Some(string_read_back(s)),
                comment: comment_read_back(comment),
            },
            CardSpec::Xtension { kind, comment, .. } => Card::Xtension {
                x: kind.fits(),
                comment: comment_read_back(comment),
            },
            CardSpec::Comment(s) => Card::Comment(s.trim_end_matches(' ').to_owned()),
            CardSpec::History(s) => Card::History(s.trim_end_matches(' ').to_owned()),
            CardSpec::BlankKw(s) => {
                let t = s.trim_end_matches(' ');
                if t.is_empty() {
                    Card::Space
                } else {
                    Card::Comment(t.to_owned())
                }
            }
            CardSpec::Plain(name, s) => Card::Undefined(format!("{:<80}", format!("{name:<8}{s}"))),
            CardSpec::Space => Card::Space,
            CardSpec::End => Card::End,
        }
    }
}

pub fn int(name: &str, v: i64) -> CardSpec {
    CardSpec::Value {
        name: name.to_owned(),
        val: Val::Int {
            v,
            text: v.to_string(),
        },
        comment: None,
        lead: 255,
        gap: 1,
    }
}
pub fn logical(name: &str, v: bool) -> CardSpec {
    CardSpec::Value {
        name: name.to_owned(),
        val: Val::Bool(v),
        comment: None,
        lead: 255,
        gap: 1,
    }
}
pub fn string(name: &str, v: &str) -> CardSpec {
    CardSpec::Value {
        name: name.to_owned(),
        val: Val::Str(v.to_owned()),
        comment: None,
        lead: 255,
        gap: 1,
    }
}
pub fn float(name: &str, v: f64) -> CardSpec {
    CardSpec::Value {
        name: name.to_owned(),
        val: Val::Float {
            bits: v.to_bits(),
            text: format!("{v:E}"),
        },
        comment: None,
        lead: 255,
        gap: 1,
    }
}

/// Another way of writing the same card
pub fn restyle(card: CardSpec, style: u8) -> CardSpec {
    match card {
        CardSpec::Value {
            name,
            val,
            comment,
            lead,
            gap,
        } => match style % 4 {
            0 => CardSpec::Value {
                name,
                val,
                comment,
                lead,
                gap,
            },
            1 => CardSpec::Value {
                name,
                val,
                comment: Some(" a comment = 12 'quoted' / again".into()),
                lead: 255,
                gap: 1,
            },
            2 => CardSpec::Value {
                name,
                val,
                comment: None,
                lead: 0,
                gap: 1,
            },
            _ => CardSpec::Value {
                name,
                val,
                comment: Some("x".into()),
                lead: 3,
                gap: 1,
            },
        },
        c => c,
    }
}

// ------------------------------------------------------------------ generators

/// A text of at most `max` characters
pub fn gen_text(g: &mut Gen, max: usize) -> String {
    if max == 0 {
        return String::new();
    }
    let mode = g.weighted(&[3, 3, 2, 1]);
    let len = match g.weighted(&[3, 3, 1]) {
        0 => g.usize(0, max.min(8)),
        1 => g.usize(0, max),
        _ => max,
    };
    let mut seed = g.u64();
    (0..len)
        .map(|_| {
            let r = splitmix(&mut seed) as usize;
            match mode {
                0 => b"abcdefghijklmnopqrstuvwxyzABCXYZ0123456789 _-."[r % 46] as char,
                1 => (b' ' + (r % 95) as u8) as char,
                2 => b"'/& =,T1[]()"[r % 12] as char,
                _ => ' ',
            }
        })
        .collect()
}

const RESERVED: &[&str] = &[
    "END", "COMMENT", "HISTORY", "CONTINUE", "XTENSION", "HIERARCH", "SIMPLE", "EXTEND", "BITPIX",
    "GCOUNT", "PCOUNT", "TFIELDS", "THEAP", "BLANK", "BSCALE", "BZERO", "GROUPS",
];

fn reserved(name: &str) -> bool {
    RESERVED.contains(&name)
        || ["NAXIS", "TTYPE", "TFORM", "TBCOL", "Z"]
            .iter()
            .any(|p| name.starts_with(p))
}

/// A keyword that has no meaning for the structure of the file
pub fn gen_name(g: &mut Gen) -> String {
    match g.weighted(&[3, 2]) {
        // a small pool, so that keywords are repeated
        0 => g
            .pick(&[
                "OBJECT", "EXPTIME", "A", "DATE-OBS", "KEY_1", "CRVAL1", "TELESCOP", "K0000000",
            ])
            .to_owned(),
        _ => {
            let len = g.usize(1, 8);
            let mut seed = g.u64();
            let s: String = (0..len)
                .map(|_| {
                    b"ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_"[splitmix(&mut seed) as usize % 38]
                        as char
                })
                .collect();
            if reserved(&s) {
                format!("Q{}", &s[..s.len().min(7)])
            } else {
                s
            }
        }
    }
}

pub fn gen_int(g: &mut Gen) -> Val {
    let v = match g.weighted(&[3, 2, 2, 2]) {
        0 => g.range(0, 40) as i64 - 20,
        1 => g.u64() as i64,
        2 => g.pick(&[
            i64::MAX,
            i64::MIN,
            i32::MAX as i64,
            i32::MIN as i64,
            i32::MAX as i64 + 1,
            65535,
            65536,
            -32768,
            255,
            256,
            -1,
            1 << 53,
            (1 << 53) + 1,
        ]),
        _ => (g.u64() >> g.range(1, 63)) as i64,
    };
    let text = match g.weighted(&[5, 1, 1]) {
        0 => v.to_string(),
        1 if v >= 0 => format!("+{v}"),
        _ if v < 0 => format!("-0{}", v.unsigned_abs()),
        _ => format!("00{v}"),
    };
    Val::Int { v, text }
}

pub fn gen_float(g: &mut Gen) -> Val {
    let v = match g.weighted(&[3, 2, 2]) {
        0 => (g.range(0, 2_000_000) as f64 - 1_000_000.0) / g.pick(&[1.0, 8.0, 1000.0, 3600.0]),
        1 => {
            let b = g.u64();
            if f64::from_bits(b).is_finite() {
                f64::from_bits(b)
            } else {
                0.5
            }
        }
        _ => g.pick(&[
            0.0,
            -0.0,
            f64::MAX,
            f64::MIN_POSITIVE,
            5e-324,
            -1.5,
            1.0 / 3.0,
            9007199254740993.0,
            1e22,
            0.1,
            // integers that need more than 64 bits are reals
            9223372036854775808.0,
            18446744073709551616.0,
            -12345678901234567890.0,
            1e25,
        ]),
    };
    let sci = format!("{v:E}");
    let text = match g.weighted(&[3, 3, 3, 1, 1, 1]) {
        0 => sci,
        1 => sci.replace('E', "D"),
        2 => {
            let t = format!("{v}");
            if t.len() > 30 {
                sci
            } else if t.contains('.') || t.parse::<i64>().is_err() {
                t
            } else {
                format!("{t}.")
            }
        }
        3 if v.is_sign_positive() => format!("+{sci}"),
        // digits shifted: 0.0123E5
        5 => {
            let (m, e) = sci.split_once('E').unwrap();
            let e: i32 = e.parse().unwrap();
            let (sign, digits) = match m.strip_prefix('-') {
                Some(d) => ("-", d),
                None => ("", m),
            };
            let digits: String = digits.chars().filter(|c| *c != '.').collect();
            format!("{sign}0.{digits}{}{}", if e % 2 == 0 { 'E' } else { 'D' }, e + 1)
        }
        _ => {
            // exponent with a sign and a leading zero
            let (m, e) = sci.split_once('E').unwrap();
            let e: i32 = e.parse().unwrap();
            format!("{m}E{}{:02}", if e < 0 { '-' } else { '+' }, e.abs())
        }
    };
    let text = if text.len() > 60 {
        format!("{v:E}")
    } else {
        text
    };
    // the digit before the point may be left out when it is zero
    let text = match g.weighted(&[2, 1]) {
        1 if text.starts_with("0.") && text.len() > 2 => text[1..].to_owned(),
        1 if text.starts_with("-0.") && text.len() > 3 => format!("-{}", &text[2..]),
        1 if text.starts_with("+0.") && text.len() > 3 => format!("+{}", &text[2..]),
        _ => text,
    };
    Val::Float {
        bits: v.to_bits(),
        text,
    }
}

/// A string whose text, quotes included, has at most `max` characters
pub fn gen_string(g: &mut Gen, max: usize) -> String {
    let mut s = gen_text(g, max.saturating_sub(2));
    while s.len() + s.matches('\'').count() + 2 > max && !s.is_empty() {
        s.pop();
    }
    s
}

pub fn gen_val(g: &mut Gen, max: usize) -> Val {
    let v = match g.weighted(&[4, 3, 3, 2, 1]) {
        0 => Val::Str(gen_string(g, max)),
        1 => gen_int(g),
        2 => gen_float(g),
        3 => Val::Bool(g.bool()),
        _ => Val::Blank,
    };
    if v.text().len() > max {
        Val::Bool(true)
    } else {
        v
    }
}

/// lead, gap and comment for a value field of `width` characters
fn gen_layout(g: &mut Gen, val: &Val, width: usize) -> (u8, u8, Option<String>) {
    let len = val.text().len();
    let (lead, used) = if g.weighted(&[2, 1]) == 0 && len <= 20 && width >= 20 {
        (255, len.max(20))
    } else {
        let lead = g.usize(0, 5.min(width - len));
        (lead as u8, lead + len)
    };
    let room = width - used;
    if room < 1 || !g.chance(2, 3) {
        return (lead, 0, None);
    }
    let gap = g.usize(0, 2.min(room - 1));
    // a slash is preceded by a space, or follows the value immediately
    let comment = gen_text(g, room - 1 - gap);
    (lead, gap as u8, Some(comment))
}

pub fn value_card(g: &mut Gen, name: String, val: Val) -> CardSpec {
    let (lead, gap, comment) = gen_layout(g, &val, 70);
    CardSpec::Value {
        name,
        val,
        comment,
        lead,
        gap,
    }
}

pub fn hierarch_card(g: &mut Gen) -> CardSpec {
    let n = g.usize(1, 4);
    let tokens: Vec<String> = (0..n)
        .map(|_| {
            let len = g.usize(1, 8);
            let mut seed = g.u64();
            (0..len)
                .map(|_| {
                    b"ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.abc"[splitmix(&mut seed) as usize % 42]
                        as char
                })
                .collect()
        })
        .collect();
    let width = 80 - (9 + tokens.join(" ").len() + 2);
    let val = gen_val(g, width.min(60));
    let val = if val.text().len() > width {
        Val::Bool(false)
    } else {
        val
    };
    let (lead, gap, comment) = gen_layout(g, &val, width);
    CardSpec::Hierarch {
        tokens,
        val,
        comment,
        lead,
        gap,
    }
}

pub fn continue_card(g: &mut Gen, s: String) -> CardSpec {
    let (lead, gap, comment) = gen_layout(g, &Val::Str(s.clone()), 70);
    CardSpec::Continue {
        s,
        comment,
        lead,
        gap,
    }
}

pub fn plain_card(g: &mut Gen) -> CardSpec {
    let name = gen_name(g);
    let sep = g.pick(&["  ", " =", "=", " ", "", "=="]);
    let mut text = gen_text(g, 60);
    if sep.ends_with('=') && (text.is_empty() || text.starts_with(' ')) {
        text.insert(0, 'x');
    }
    // longer than 8 characters, the keyword would be another one
    let sep = if sep.is_empty() { " " } else { sep };
    CardSpec::Plain(name, format!("{sep}{text}"))
}

/// Any card that can follow the mandatory ones
pub fn gen_extra(g: &mut Gen) -> CardSpec {
    match g.weighted(&[6, 2, 1, 1, 1, 1, 1, 1]) {
        0 => {
            let name = gen_name(g);
            let val = gen_val(g, 70);
            value_card(g, name, val)
        }
        1 => hierarch_card(g),
        2 => CardSpec::Comment(gen_text(g, 72)),
        3 => CardSpec::History(gen_text(g, 72)),
        4 => CardSpec::BlankKw(gen_text(g, 72)),
        5 => {
            let s = gen_string(g, 70);
            continue_card(g, s)
        }
        6 => plain_card(g),
        _ => CardSpec::Space,
    }
}
