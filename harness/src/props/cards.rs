//! C07 (one card), C08 (continued strings), C09 (the header as a whole).

use super::Prop;
use crate::engine::{Ch, Space, R};
use crate::gen::*;
use fitsrs::card::{Card, Value};
use fitsrs::hdu::header::extension::XtensionType;
use fitsrs::hdu::header::Header;
use fitsrs::hdu::HDU;
use fitsrs::Fits;
use std::convert::TryFrom;
use std::io::Cursor;

pub static C07: Prop = Prop {
    id: "C07",
    level: "model_checking",
    rule: "one execution = one 80-byte record, from the enumerated texts (strings, numbers, logicals, blanks, commentary, \
           hierarchical, continuation, extension records; every byte value at marked places) x alignment x comment form; \
           compared with the card an independent reading of FITS 4.0 section 4 gives; state = the record",
    assumptions: &["texts of the enumerated alphabets and lengths"],
    spaces: &[
        Space { name: "strings", body: strings },
        Space { name: "numbers", body: numbers },
        Space { name: "kinds", body: kinds },
        Space { name: "bytes", body: bytes },
        Space { name: "units", body: units },
    ],
};

pub static C08: Prop = Prop {
    id: "C08",
    level: "model_checking",
    rule: "one execution = one sequence of string, CONTINUE, commentary and other cards in a header of one HDU kind; the \
           reference state is the keyword being continued and the value map; every sequence up to the depth bound is \
           parsed by the real header reader and every keyword's value and comment compared",
    assumptions: &["pieces and comments from the menu; depth as stated"],
    spaces: &[
        Space { name: "sequences", body: cont_sequences },
        Space { name: "pieces", body: cont_pieces },
        #[cfg(feature = "inner")]
        Space { name: "splice", body: cont_splice },
    ],
};

pub static C09: Prop = Prop {
    id: "C09",
    level: "model_checking",
    rule: "one execution = one sequence of cards from the menu in a header of one HDU kind (or one header length), parsed \
           by the real reader; card list, keyword map, iteration, history and reverse lookup compared with a list model",
    assumptions: &["cards from the menu; depth as stated"],
    spaces: &[
        Space { name: "sequences", body: head_sequences },
        Space { name: "blocks", body: head_blocks },
        Space { name: "lengths", body: head_lengths },
    ],
};

fn parse(b: &CardB) -> Result<Card, String> {
    Card::try_from(b).map_err(|e| format!("{e:?}"))
}
fn show(b: &[u8]) -> String {
    String::from_utf8_lossy(b).trim_end().to_string()
}

/// (text after the value, expected comment)
const COMMENTS: [(&str, Option<&str>); 9] = [
    ("", None),
    (" / plain", Some(" plain")),
    ("/tight", Some("tight")),
    (" /", Some("")),
    (" / it's 'quoted'", Some(" it's 'quoted'")),
    (" / a / b", Some(" a / b")),
    ("  /  two  ", Some("  two")),
    (" / = 3 & (x)", Some(" = 3 & (x)")),
    (" //", Some("/")),
];

/// What a FITS string of this content means.
fn str_value(content: &str) -> String {
    if content.is_empty() {
        return String::new();
    }
    let t = content.trim_end_matches(' ');
    if t.is_empty() {
        " ".into()
    } else {
        t.into()
    }
}

fn val_str(v: &Value) -> Option<(&String, &Option<String>)> {
    match v {
        Value::String { value, comment } => Some((value, comment)),
        _ => None,
    }
}

fn strings(ch: &mut Ch) -> R {
    let len = ch.range(0, if ch.thorough { 7 } else { 6 });
    let content: String = (0..len).map(|_| ch.pick(&['A', '\'', ' ', '/', '&', '='])).collect();
    let text = format!("'{}'", content.replace('\'', "''"));
    let want = str_value(&content);
    // an inner product: alignments x comments x keyword forms
    for kwf in 0..4 {
        let (prefix, name): (&str, &str) = match kwf {
            0 => ("KEY     = ", "KEY"),
            1 => ("LONGKEY8= ", "LONGKEY8"),
            2 => ("HIERARCH ESO DET K = ", "ESO.DET.K"),
            _ => ("CONTINUE  ", ""),
        };
        for pad in [0usize, 1, 9, usize::MAX] {
            for (suf, com) in COMMENTS {
                if kwf > 0 && pad == 9 {
                    continue;
                }
                let body = format!("{text}{suf}");
                let room = 80 - prefix.len();
                if body.len() > room {
                    continue;
                }
                let pad = if pad == usize::MAX { room - body.len() } else { pad.min(room - body.len()) };
                let c = raw(&format!("{prefix}{}{body}", " ".repeat(pad)));
                ch.exec();
                let g = parse(&c)?;
                let ok = match &g {
                    Card::Value { name: n, value } if kwf < 2 => {
                        n == name && val_str(value) == Some((&want, &com.map(|s| s.to_string())))
                    }
                    Card::Hierarch { name: n, value } if kwf == 2 => {
                        n == name && val_str(value) == Some((&want, &com.map(|s| s.to_string())))
                    }
                    Card::Continuation { string, comment } if kwf == 3 => {
                        string.as_ref() == Some(&want) && comment.as_deref() == com
                    }
                    _ => false,
                };
                if !ok {
                    return Err(format!("card [{}]: got {g:?}, expected string {want:?} comment {com:?}", show(&c)));
                }
                #[cfg(feature = "inner")]
                if g.continued() != want.ends_with('&') {
                    return Err(format!("card [{}]: continued() is {}", show(&c), g.continued()));
                }
            }
        }
    }
    // without its closing quote it is not a string
    if !content.contains('\'') {
        let c = raw(&format!("KEY     = '{content}"));
        match Card::try_from(&c) {
            Err(_) => {}
            g => return Err(format!("unterminated string [{}] accepted: {g:?}", show(&c))),
        }
    }
    ch.say(|| text);
    Ok(())
}

#[derive(Debug, PartialEq)]
enum Num {
    Int(i64),
    Flt(f64),
    No,
}
/// FITS 4.0, 4.2.3 and 4.2.4
fn number(t: &str) -> Num {
    let b = t.as_bytes();
    let mut i = 0;
    let neg = b.first() == Some(&b'-');
    if matches!(b.first(), Some(b'+' | b'-')) {
        i = 1;
    }
    let s0 = i;
    let mut digits = String::new();
    while i < b.len() && b[i].is_ascii_digit() {
        digits.push(b[i] as char);
        i += 1;
    }
    if i == b.len() {
        if i == s0 {
            return Num::No;
        }
        // integer
        let mut v: i128 = 0;
        for d in digits.bytes() {
            v = (v * 10 + (d - b'0') as i128).min(1 << 100);
        }
        let v = if neg { -v } else { v };
        return match i64::try_from(v) {
            Ok(v) => Num::Int(v),
            Err(_) => Num::Flt(format!("{}{digits}", if neg { "-" } else { "" }).parse().unwrap()),
        };
    }
    let mut frac = String::new();
    if b[i] == b'.' {
        i += 1;
        while i < b.len() && b[i].is_ascii_digit() {
            frac.push(b[i] as char);
            i += 1;
        }
    }
    if digits.is_empty() && frac.is_empty() {
        return Num::No;
    }
    let mut ex = String::new();
    if i < b.len() {
        if !matches!(b[i], b'E' | b'D') {
            return Num::No;
        }
        i += 1;
        if i < b.len() && matches!(b[i], b'+' | b'-') {
            if b[i] == b'-' {
                ex.push('-');
            }
            i += 1;
        }
        let e0 = i;
        while i < b.len() && b[i].is_ascii_digit() {
            ex.push(b[i] as char);
            i += 1;
        }
        if i == e0 || i != b.len() {
            return Num::No;
        }
    }
    if ex.is_empty() {
        ex.push('0');
    }
    let canon = format!("{}{}.{}e{ex}", if neg { "-" } else { "" }, if digits.is_empty() { "0" } else { &digits }, if frac.is_empty() { "0" } else { &frac });
    Num::Flt(canon.parse().unwrap())
}

fn check_num(t: &str, ch: &mut Ch, few: bool) -> R {
    let want = number(t);
    for (suf, com) in COMMENTS {
        for (k, prefix) in ["KEY     = ", "HIERARCH ESO N = ", "HIERARCH ESO N="].iter().enumerate() {
            for pad in [0usize, 5, 20usize.saturating_sub(t.len()), 61] {
                if few && (k > 0 || pad == 61) {
                    continue;
                }
                let room = 80 - prefix.len();
                if t.len() + suf.len() > room {
                    continue;
                }
                let pad = pad.min(room - t.len() - suf.len());
                let c = raw(&format!("{prefix}{}{t}{suf}", " ".repeat(pad)));
                ch.exec();
                let g = Card::try_from(&c);
                let v = match &g {
                    Ok(Card::Value { name, value }) if k == 0 && name == "KEY" => Some(value),
                    Ok(Card::Hierarch { name, value }) if k > 0 && name == "ESO.N" => Some(value),
                    Ok(x) => return Err(format!("card [{}] read as {x:?}", show(&c))),
                    Err(_) => None,
                };
                let ok = match (&want, v) {
                    (Num::Int(w), Some(Value::Integer { value, comment })) => w == value && comment.as_deref() == com,
                    (Num::Flt(w), Some(Value::Float { value, comment })) => w.to_bits() == value.to_bits() && comment.as_deref() == com,
                    (Num::No, Some(Value::Integer { .. } | Value::Float { .. } | Value::Logical { .. } | Value::String { .. })) => false,
                    // what is no value is kept as it is
                    (Num::No, Some(Value::Invalid(s))) => show(&c).contains(s.trim()) && s.contains(t),
                    (Num::No, _) => true,
                    _ => false,
                };
                if !ok {
                    return Err(format!("card [{}] read as {g:?}, expected {want:?} comment {com:?}", show(&c)));
                }
            }
        }
    }
    Ok(())
}

fn numbers(ch: &mut Ch) -> R {
    match ch.choose(2) {
        0 => {
            let len = ch.range(1, if ch.thorough { 7 } else { 6 });
            let t: String = (0..len).map(|_| ch.pick(&['0', '1', '7', '+', '-', '.', 'E', 'D'])).collect();
            ch.say(|| t.clone());
            check_num(&t, ch, len > 4)
        }
        _ => {
            // longer ones: sign x digits x fraction x exponent, and the limits of the integers
            let ints = [
                "9223372036854775807", "9223372036854775808", "9223372036854775809", "2147483647", "2147483648", "4294967296", "32768",
                "18446744073709551615", "18446744073709551616", "00000000000000000000000000042", "123456789012345678", "99999999999999999999", "0", "255",
            ];
            let fr = ["", ".", ".5", ".141592653589793238462643383279", ".000000000000000001", ".75", ".0"];
            let ex = ["", "E0", "D0", "E+10", "E-10", "D+308", "E-320", "D308", "E309", "D-5", "E05", "D+00"];
            let t = format!("{}{}{}{}", ch.pick(&["", "+", "-"]), ch.pick(&ints), ch.pick(&fr), ch.pick(&ex));
            ch.say(|| t.clone());
            check_num(&t, ch, false)
        }
    }
}

const NAMES: [&str; 7] = ["A", "KEY", "DATE-OBS", "A_B", "NAXIS999", "0", "CRVAL1"];

fn kinds(ch: &mut Ch) -> R {
    let txt = ["", "x", "  lead", "some text / with 'all' = of it", "= 5", "'str'", "T"];
    let bad = |c: &CardB, g: &dyn std::fmt::Debug, w: String| Err(format!("card [{}] read as {g:?}, expected {w}", show(c)));
    match ch.choose(9) {
        8 => {
            // no FITS value: refused or kept as it is, without a type
            let t = ch.pick(&["abc", "nan", "#N/A", "=5", "\"str\"", "(1, 2)", "(", "$", "*", "_1", "x'y'", "&", "1 2", "12abc", "1.2.3", "2024-01-01", "0x1F", "1,5", "+", "-", ".", "--5", "5-", "1E", "D5", "E5"]);
            let n = ch.pick(&NAMES);
            let (pad, suf) = (ch.pick(&[0usize, 3, 20]), ch.pick(&["", " / com"]));
            let hier = ch.flag();
            let c = if hier { raw(&format!("HIERARCH {n} X = {}{t}{suf}", " ".repeat(pad))) } else { raw(&format!("{n:<8}= {}{t}{suf}", " ".repeat(pad))) };
            let g = Card::try_from(&c);
            let text = String::from_utf8(c.to_vec()).unwrap();
            let kept = |v: &Value| matches!(v, Value::Invalid(s) if text.contains(s.as_str()) && s.contains(t.split('/').next().unwrap()));
            match &g {
                Err(_) => {}
                Ok(Card::Value { name, value }) if !hier && name == n && kept(value) => {}
                Ok(Card::Hierarch { name, value }) if hier && *name == format!("{n}.X") && kept(value) => {}
                _ => return bad(&c, &g, "no value".into()),
            }
        }
        0 => {
            // logicals
            let n = ch.pick(&NAMES);
            let v = ch.flag();
            let pad = ch.range(0, 40);
            let (suf, com) = ch.pick(&COMMENTS);
            let hier = ch.flag();
            let c = if hier {
                raw(&format!("HIERARCH {n} X = {}{}{suf}", " ".repeat(pad), if v { "T" } else { "F" }))
            } else {
                raw(&format!("{n:<8}= {}{}{suf}", " ".repeat(pad), if v { "T" } else { "F" }))
            };
            let g = parse(&c)?;
            let (gn, gv) = match &g {
                Card::Value { name, value } if !hier => (name.clone(), value),
                Card::Hierarch { name, value } if hier => (name.clone(), value),
                _ => return bad(&c, &g, "a value card".into()),
            };
            let wn = if hier { format!("{n}.X") } else { n.to_string() };
            let w = Value::Logical { value: v, comment: com.map(|s| s.to_string()) };
            if gn != wn || *gv != w {
                return bad(&c, &g, format!("{wn} = {w:?}"));
            }
        }
        1 => {
            // no value
            let n = ch.pick(&NAMES);
            let pad = ch.range(0, 30);
            let com = ch.pick(&["", "/ only a comment", "/"]);
            let hier = ch.flag();
            let c = if hier { raw(&format!("HIERARCH {n} Y = {}{com}", " ".repeat(pad))) } else { raw(&format!("{n:<8}= {}{com}", " ".repeat(pad))) };
            let g = parse(&c)?;
            match &g {
                Card::Value { name, value: Value::Undefined } if !hier && name == n => {}
                Card::Hierarch { name, value: Value::Undefined } if hier && *name == format!("{n}.Y") => {}
                _ => return bad(&c, &g, "an undefined value".into()),
            }
        }
        2 => {
            // commentary
            let kw = ch.pick(&["COMMENT ", "HISTORY ", "        "]);
            let t = ch.pick(&txt);
            let full = ch.flag();
            let pad = ch.range(0, 3);
            let mut t = format!("{}{t}", " ".repeat(pad));
            if full {
                while t.len() < 72 {
                    t.push('z');
                }
            }
            let c = raw(&format!("{kw}{t}"));
            let g = parse(&c)?;
            let w = t.trim_end().to_string();
            let want = match kw {
                "COMMENT " => Card::Comment(w),
                "HISTORY " => Card::History(w),
                _ if w.is_empty() => Card::Space,
                _ => Card::Comment(w),
            };
            if g != want {
                return bad(&c, &g, format!("{want:?}"));
            }
        }
        3 => {
            let c = raw("END");
            let g = parse(&c)?;
            if g != Card::End {
                return bad(&c, &g, "End".into());
            }
            // a keyword that merely starts or ends like it is not END
            for k in ["ENDX", "XEND", "EN", "END2", "ENDEND"] {
                let c = raw(&format!("{k:<8}= 1"));
                let g = parse(&c)?;
                if g != (Card::Value { name: k.into(), value: Value::Integer { value: 1, comment: None } }) {
                    return bad(&c, &g, format!("{k} = 1"));
                }
            }
        }
        4 => {
            // no value indicator: not a value card
            let n = ch.pick(&NAMES);
            let ind = ch.pick(&["  ", "=X", " =", "==", "=5", "X ", "=/", "='"]);
            let t = ch.pick(&txt);
            let c = raw(&format!("{n:<8}{ind}{t}"));
            let g = parse(&c)?;
            let want = Card::Undefined(String::from_utf8(c.to_vec()).unwrap());
            if g != want {
                return bad(&c, &g, format!("{want:?}"));
            }
        }
        5 => {
            // hierarchical keywords
            let n = ch.range(1, 4);
            let toks: Vec<&str> = (0..n).map(|_| ch.pick(&["ESO", "D1", "a-b"])).collect();
            let sep = ch.pick(&[" ", "  "]);
            let lead = ch.pick(&["", " "]);
            let eq = ch.pick(&["=", " =", " = ", "  =  "]);
            let (vt, v) = ch.pick(&[
                ("12 / c", Value::Integer { value: 12, comment: Some(" c".into()) }),
                ("'a=b' / = c", Value::String { value: "a=b".into(), comment: Some(" = c".into()) }),
                ("-1.5D2", Value::Float { value: -150.0, comment: None }),
                ("F", Value::Logical { value: false, comment: None }),
                ("", Value::Undefined),
            ]);
            let c = raw(&format!("HIERARCH {lead}{}{eq}{vt}", toks.join(sep)));
            let g = parse(&c)?;
            let want = Card::Hierarch { name: toks.join("."), value: v };
            if g != want {
                return bad(&c, &g, format!("{want:?}"));
            }
        }
        6 => {
            // extension types
            let (t, x) = ch.pick(&[
                ("IMAGE", Some(XtensionType::Image)),
                ("IUEIMAGE", Some(XtensionType::Image)),
                ("TABLE", Some(XtensionType::AsciiTable)),
                ("BINTABLE", Some(XtensionType::BinTable)),
                ("IMAG", None),
                ("TABLES", None),
                ("A3DTABLE", None),
                ("image", None),
                ("FOREIGN", None),
                ("", None),
                ("XBINTABLE", None),
            ]);
            let w = ch.pick(&[0usize, 8, 12, 30]);
            let pad = ch.range(0, 2);
            let (suf, com) = ch.pick(&COMMENTS);
            let c = raw(&format!("XTENSION= {}'{t:<w$}'{suf}", " ".repeat(pad)));
            match (Card::try_from(&c), x) {
                (Ok(Card::Xtension { x: g, comment }), Some(x)) if g == x && comment.as_deref() == com => {}
                (Err(_), None) => {}
                (g, _) => return bad(&c, &g, format!("{x:?} {com:?}")),
            }
            // unquoted: refused
            let c = raw(&format!("XTENSION= {t}"));
            if let Ok(g) = Card::try_from(&c) {
                return bad(&c, &g, "an error".into());
            }
        }
        #[cfg(feature = "inner")]
        7 if ch.flag() => {
            // the value under a keyword that is expected
            let n = ch.pick(&["SIMPLE", "SIMPLEX", "NAXIS", "NAXIS1", "A", "DATE-OBS", "COMMENT"]);
            let k = ch.pick(&[b"SIMPLE  ", b"NAXIS   ", b"NAXIS1  ", b"A       ", b"DATE-OBS", b"COMMENT "]);
            let ind = ch.pick(&["= ", "  "]);
            let c = raw(&format!("{n:<8}{ind}                   5"));
            let g = fitsrs::hdu::header::check_card_keyword(&c, k);
            let w = n.as_bytes() == k.trim_ascii_end() && ind == "= " && n != "COMMENT";
            if w != (g.as_ref().ok() == Some(&Value::Integer { value: 5, comment: None })) || w != g.is_ok() {
                return bad(&c, &g, format!("{}under {}", if w { "5 " } else { "no value " }, String::from_utf8_lossy(k)));
            }
        }
        _ => {
            // the keyword field: all lengths, no bleeding into the value
            let n: String = "ABCDEFGH".chars().take(ch.range(1, 8)).collect();
            let v = ch.pick(&[0i64, 1, -1, 1234567890123456789]);
            let full = ch.flag();
            let c = if full { kv(&n, &v.to_string()) } else { raw(&format!("{n:<8}= {v}")) };
            let g = parse(&c)?;
            let want = Card::Value { name: n, value: Value::Integer { value: v, comment: None } };
            if g != want {
                return bad(&c, &g, format!("{want:?}"));
            }
        }
    }
    ch.say(|| "kind".into());
    Ok(())
}

/// Every byte value at every kind of place.
fn bytes(ch: &mut Ch) -> R {
    let b = ch.choose(256) as u8;
    let place = ch.choose(7);
    let printable = (0x20..0x7f).contains(&b);
    let sub = if printable { (b as char).to_string() } else { "\u{fffd}".to_string() };
    let mk = |pre: &str, post: &str| {
        let mut v = pre.as_bytes().to_vec();
        v.push(b);
        v.extend_from_slice(post.as_bytes());
        rawb(&v)
    };
    ch.say(|| format!("byte {b:#x} place {place}"));
    match place {
        0 if b != b'\'' => {
            // inside a string
            let c = mk("KEY     = 'ab", "cd' / com");
            let w = Card::Value { name: "KEY".into(), value: Value::String { value: format!("ab{sub}cd"), comment: Some(" com".into()) } };
            if parse(&c)? != w {
                return Err(format!("byte {b:#x} in a string: {:?}, expected {w:?}", parse(&c)));
            }
        }
        1 => {
            let c = mk("KEY     =                   12 / co", "m");
            let w = Card::Value { name: "KEY".into(), value: Value::Integer { value: 12, comment: Some(format!(" co{sub}m")) } };
            if parse(&c)? != w {
                return Err(format!("byte {b:#x} in a comment: {:?}, expected {w:?}", parse(&c)));
            }
        }
        2 => {
            let kw = ch.choose(3);
            let c = mk(["COMMENT a", "HISTORY a", "        a"][kw], "z");
            let t = format!("a{sub}z");
            let w = if kw == 1 { Card::History(t) } else { Card::Comment(t) };
            if parse(&c)? != w {
                return Err(format!("byte {b:#x} in commentary: {:?}, expected {w:?}", parse(&c)));
            }
        }
        3 if !b.is_ascii_digit() && !matches!(b, b'.' | b'E' | b'D' | b'/' | b'e') => {
            // in the middle of a number: no number
            let c = mk("KEY     = 12", "34");
            if let Ok(Card::Value { value: Value::Integer { .. } | Value::Float { .. } | Value::Logical { .. }, .. }) = Card::try_from(&c) {
                return Err(format!("byte {b:#x} inside a number accepted: {:?}", Card::try_from(&c)));
            }
        }
        4 if b >= 0x80 => {
            // not ASCII in the keyword
            let c = mk("KE", "     = 5");
            if let Ok(g) = Card::try_from(&c) {
                return Err(format!("byte {b:#x} in a keyword accepted: {g:?}"));
            }
        }
        5 if !printable && !(9..=13).contains(&b) => {
            // outside a string, before the comment
            let c = mk("KEY     = ", "     / c");
            if let Ok(Card::Value { value: Value::Integer { .. } | Value::Float { .. } | Value::String { .. } | Value::Logical { .. } | Value::Undefined, .. }) = Card::try_from(&c) {
                return Err(format!("byte {b:#x} as a value accepted: {:?}", Card::try_from(&c)));
            }
        }
        6 if b != b'\'' => {
            let c = mk("CONTINUE  'ab", "cd' / com");
            let w = Card::Continuation { string: Some(format!("ab{sub}cd")), comment: Some(" com".into()) };
            if parse(&c)? != w {
                return Err(format!("byte {b:#x} in a continued string: {:?}, expected {w:?}", parse(&c)));
            }
        }
        _ => {
            // at any place whatever: never a panic
            let pos = ch.choose(80);
            for base in ["KEY     = 'ab' / c", "KEY     = 12 / c", "HIERARCH A B = 'x' / y", "CONTINUE  'x&' / y", "XTENSION= 'IMAGE   ' / y", "COMMENT z", "END"] {
                let mut c = raw(base);
                c[pos] = b;
                let _ = Card::try_from(&c);
                ch.exec();
            }
        }
    }
    Ok(())
}

fn units(ch: &mut Ch) -> R {
    let (v, has) = ch.pick(&[("'str'", true), ("12", true), ("1.5", true), ("T", true), ("", false), ("12", true)]);
    let (com, unit) = ch.pick(&[
        ("/ [s] time", Some("s")),
        ("/[s] time", Some("s")),
        ("/ [m/s**2]", Some("m/s**2")),
        ("/ []", Some("")),
        ("/ [km s-1] [x]", Some("km s-1")),
        ("/ time [s]", None),
        ("/ [s", None),
        ("/ s]", None),
        ("/", None),
        ("", None),
        ("/ plain", None),
    ]);
    let c = raw(&format!("KEY     = {v:>20} {com}"));
    match parse(&c)? {
        Card::Value { value, .. } => {
            let w = if has { unit } else { None };
            if value.unit() != w {
                return Err(format!("card [{}]: unit {:?}, expected {w:?}", show(&c), value.unit()));
            }
        }
        g => return Err(format!("card [{}] read as {g:?}", show(&c))),
    }
    Ok(())
}

// ---------------------------------------------------------------- headers

/// Cards, keyword list, values of the header in HDU `at` of the file, through one function for all kinds.
struct Seen {
    cards: Vec<Card>,
    keys: Vec<String>,
    pairs: Vec<(String, Value)>,
    history: Vec<String>,
    rev: Vec<Option<String>>,
    got: Vec<Option<Value>>,
    json: serde_json::Value,
}

/// What a card says, in JSON.
fn card_json(c: &Card) -> serde_json::Value {
    use serde_json::json;
    match c {
        Card::Value { name, value } => json!({"Value": {"name": name, "value": value_json(value)}}),
        Card::Hierarch { name, value } => json!({"Hierarch": {"name": name, "value": value_json(value)}}),
        Card::Continuation { string, comment } => json!({"Continuation": {"string": string, "comment": comment}}),
        Card::Xtension { x, comment } => {
            let x = match x {
                XtensionType::Image => "Image",
                XtensionType::BinTable => "BinTable",
                XtensionType::AsciiTable => "AsciiTable",
            };
            json!({"Xtension": {"x": x, "comment": comment}})
        }
        Card::Comment(s) => json!({"Comment": s}),
        Card::History(s) => json!({"History": s}),
        Card::Undefined(s) => json!({"Undefined": s}),
        Card::Space => json!("Space"),
        Card::End => json!("End"),
    }
}

fn value_json(v: &Value) -> serde_json::Value {
    use serde_json::json;
    match v {
        Value::Integer { value, comment } => json!({"Integer": {"value": value, "comment": comment}}),
        Value::Float { value, comment } => json!({"Float": {"value": value, "comment": comment}}),
        Value::Logical { value, comment } => json!({"Logical": {"value": value, "comment": comment}}),
        Value::String { value, comment } => json!({"String": {"value": value, "comment": comment}}),
        Value::Undefined => json!("Undefined"),
        Value::Invalid(s) => json!({"Invalid": s}),
    }
}

fn look<X: fitsrs::hdu::header::Xtension + std::fmt::Debug + serde::Serialize>(h: &Header<X>, ask: &[String], vals: &[Value]) -> Seen {
    Seen {
        cards: h.cards().cloned().collect(),
        keys: h.keywords().cloned().collect(),
        pairs: h.iter().map(|(k, v)| (k.to_string(), v.clone())).collect(),
        history: h.history().cloned().collect(),
        rev: vals.iter().map(|v| h.get_keyword(v).map(|s| s.to_string())).collect(),
        got: ask.iter().map(|k| h.get(k).cloned()).collect(),
        json: if h.cards().count() < 12 { serde_json::to_value(h).unwrap_or_default() } else { serde_json::Value::Null },
    }
}

fn header_of(kind: Kind, extra: &[CardB], ask: &[String], vals: &[Value]) -> Result<(Seen, Vec<CardB>), String> {
    let mut hs = vec![];
    let mut h = match kind {
        Kind::Primary => image(Kind::Primary, 8, &[3], 1),
        Kind::Image => image(Kind::Image, 16, &[2, 2], 1),
        Kind::BinTable => super::c01::flat_table(3, 2, 1),
        Kind::Ascii => ascii(4, 2, 1),
    };
    if kind != Kind::Primary {
        hs.push(empty_primary());
    }
    h.cards.extend_from_slice(extra);
    let cards = h.cards.clone();
    hs.push(h);
    let at = hs.len() - 1;
    let f = file(&hs, 0);
    let mut fits = Fits::from_reader(Cursor::new(f.bytes));
    for i in 0..at {
        match fits.next() {
            Some(Ok(_)) => {}
            x => return Err(format!("HDU {i}: {x:?}")),
        }
    }
    let seen = match fits.next() {
        Some(Ok(HDU::Primary(h) | HDU::XImage(h))) if matches!(kind, Kind::Primary | Kind::Image) => look(h.get_header(), ask, vals),
        Some(Ok(HDU::XBinaryTable(h))) if kind == Kind::BinTable => look(h.get_header(), ask, vals),
        Some(Ok(HDU::XASCIITable(h))) if kind == Kind::Ascii => look(h.get_header(), ask, vals),
        x => return Err(format!("HDU {at} ({kind:?}): {:?}", x.map(|r| r.map(|_| "another kind")))),
    };
    #[cfg(feature = "inner")]
    for c in &seen.cards {
        let want = match c {
            Card::Value { value: Value::String { value, .. }, .. } | Card::Hierarch { value: Value::String { value, .. }, .. } | Card::Continuation { string: Some(value), .. } => value.ends_with('&'),
            _ => false,
        };
        if c.continued() != want {
            return Err(format!("{c:?} is said to be continued: {}", c.continued()));
        }
    }
    match fits.next() {
        None => Ok((seen, cards)),
        x => Err(format!("after the last HDU: {x:?}")),
    }
}

const KINDS: [Kind; 4] = [Kind::Primary, Kind::Image, Kind::BinTable, Kind::Ascii];

/// Reference reassembler.
#[derive(Default)]
struct Re {
    vals: Vec<(String, Value)>,
    cur: Option<String>,
}
impl Re {
    fn set(&mut self, k: &str, v: Value) {
        match self.vals.iter_mut().find(|(n, _)| n == k) {
            Some(e) => e.1 = v,
            None => self.vals.push((k.into(), v)),
        }
    }
    fn value(&mut self, k: &str, v: Value) {
        self.cur = match &v {
            Value::String { value, .. } if value.ends_with('&') => Some(k.into()),
            _ => None,
        };
        self.set(k, v);
    }
    fn other(&mut self) {
        self.cur = None;
    }
    fn cont(&mut self, piece: &str, com: Option<&str>) {
        let Some(k) = self.cur.clone() else { return };
        let e = self.vals.iter_mut().find(|(n, _)| *n == k).unwrap();
        let Value::String { value, comment } = &mut e.1 else { unreachable!() };
        value.pop();
        value.push_str(piece);
        if !piece.ends_with('&') {
            self.cur = None;
            // trailing blanks of a string are not significant
            if piece.trim_end().is_empty() {
                *value = value.trim_end().to_string();
            }
        }
        match (comment.as_mut(), com) {
            (Some(c), Some(n)) => {
                c.push('\n');
                c.push_str(n);
            }
            (None, Some(n)) => *comment = Some(n.to_string()),
            _ => {}
        }
    }
}

fn s(v: &str, c: Option<&str>) -> Value {
    Value::String { value: v.into(), comment: c.map(|x| x.into()) }
}

fn compare_values(kind: Kind, extra: &[CardB], re: &Re) -> R {
    let mut ask: Vec<String> = re.vals.iter().map(|v| v.0.clone()).collect();
    ask.push("CONTINUE".into());
    let (seen, _) = header_of(kind, extra, &ask, &[])?;
    for (i, (k, w)) in re.vals.iter().enumerate() {
        if seen.got[i].as_ref() != Some(w) {
            let cs: Vec<String> = extra.iter().map(|c| show(c)).collect();
            return Err(format!("{kind:?} header {cs:?}: {k} = {:?}, expected {w:?}", seen.got[i]));
        }
    }
    if seen.got[re.vals.len()].is_some() {
        return Err("CONTINUE has a value".into());
    }
    Ok(())
}

/// One card of the C08 alphabet: its record and its effect on the reference.
fn cont_card(op: usize, x: Option<&str>, re: &mut Re) -> CardB {
    let q = |p: &str| p.replace('\'', "''");
    let strs = ["  ab &", "it's&", "&", "end", "x&y  &", "ab & "];
    let conts = ["cd&", " lead", "", " ", "&", "o'k &", "z"];
    match op {
        0..=5 => {
            let p = strs[op];
            let com = (op % 2 == 0).then_some(" c0");
            re.value("LONG", s(p.trim_end(), com));
            raw(&format!("LONG    = '{}'{}", q(p), com.map(|c| format!(" /{c}")).unwrap_or_default()))
        }
        6 => {
            re.value("ESO.X", s("h &", None));
            raw("HIERARCH ESO X = 'h &'")
        }
        7 => {
            re.value("OTHER", s("o&", Some("")));
            raw("OTHER   = 'o&' /")
        }
        8..=14 => {
            let p = conts[op - 8];
            let com = [None, Some(" c1"), None, Some(" c2"), None, Some(""), None][op - 8];
            re.cont(if p == " " { " " } else { p }, com);
            raw(&format!("CONTINUE  '{}'{}", q(p), com.map(|c| format!(" /{c}")).unwrap_or_default()))
        }
        15 => {
            re.other();
            raw("COMMENT between")
        }
        16 => {
            re.other();
            raw("")
        }
        17 => {
            re.value("NUM", Value::Integer { value: 3, comment: None });
            int("NUM", 3)
        }
        18 => {
            re.other();
            raw("HISTORY h")
        }
        19 => {
            re.value("LONG", s("n&&", None));
            raw("LONG    = 'n&&'")
        }
        20 => {
            re.value("LONG", Value::Logical { value: true, comment: None });
            log("LONG", true)
        }
        21 => {
            re.cont("w &&", None);
            raw("CONTINUE  'w &&'")
        }
        22 => {
            // no string at all
            re.cont("", Some(" c3"));
            raw("CONTINUE  / c3")
        }
        23 if x.is_some() => {
            // the extension's type once more
            re.other();
            raw(&format!("XTENSION= '{:8}'", x.unwrap()))
        }
        _ => {
            // unreadable card
            re.other();
            raw("LONG      no value here")
        }
    }
}

fn cont_sequences(ch: &mut Ch) -> R {
    let depth = ch.range(1, if ch.thorough { 5 } else { 4 });
    let kind = ch.pick(&KINDS);
    let x = match kind {
        Kind::Primary => None,
        Kind::Image => Some("IMAGE"),
        Kind::BinTable => Some("BINTABLE"),
        Kind::Ascii => Some("TABLE"),
    };
    let mut re = Re::default();
    let mut extra = vec![];
    let mut ops = vec![];
    for i in 0..depth {
        // the first card starts something; what follows is anything
        let op = match i {
            0 => ch.pick(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 19]),
            _ => ch.choose(25),
        };
        ops.push(op);
        ch.step();
        extra.push(cont_card(op, x, &mut re));
        ch.visit(&(re.cur.clone(), re.vals.iter().map(|v| format!("{v:?}")).collect::<Vec<_>>()));
    }
    ch.say(|| extra.iter().map(|c| show(c)).collect::<Vec<_>>().join(" | "));
    compare_values(kind, &extra, &re)
}

/// Long chains and full-width pieces.
fn cont_pieces(ch: &mut Ch) -> R {
    let n = match ch.choose(46) {
        k if k <= 40 => k,
        k => [127, 255, 256, 300, 1000][k - 41],
    };
    let w = ch.pick(&[1usize, 10, 40, 66]);
    let fill = ch.pick(&['q', ' ', '\'', '&']);
    let hier = ch.flag();
    let kind = ch.pick(&KINDS);
    let mut re = Re::default();
    let mut extra = vec![];
    let w = if fill == '\'' { w / 2 } else { w };
    for i in 0..=n {
        let mut p: String = format!("{i}");
        while p.len() < w.min(if hier && i == 0 { if fill == '\'' { 20 } else { 40 } } else { 66 }) {
            p.push(fill);
        }
        if i < n {
            p.push('&');
        } else if fill == '&' {
            p.push('.');
        }
        let qd = p.replace('\'', "''");
        if i == 0 {
            if hier {
                re.value("ESO.L", s(p.trim_end(), None));
                extra.push(raw(&format!("HIERARCH ESO L = '{qd}'")));
            } else {
                re.value("LONG", s(p.trim_end(), None));
                extra.push(raw(&format!("LONG    = '{qd}'")));
            }
        } else {
            let t = p.trim_end();
            re.cont(if t.is_empty() { " " } else { t }, None);
            extra.push(raw(&format!("CONTINUE  '{qd}'")));
        }
    }
    extra.push(int("AFTER", 9));
    re.value("AFTER", Value::Integer { value: 9, comment: None });
    ch.say(|| format!("{n} continuations of width {w} filled with {fill:?}"));
    compare_values(kind, &extra, &re)
}

/// The same by appending cards.
#[cfg(feature = "inner")]
fn cont_splice(ch: &mut Ch) -> R {
    let hier = ch.flag();
    let n = ch.range(1, if ch.thorough { 5 } else { 4 });
    let mut re = Re::default();
    let first = ch.choose(4);
    let (p, com) = [(" ab &", None), ("&", Some(" c0")), ("it's&", Some(" x")), ("x&y  &", None)][first];
    let q = p.replace('\'', "''");
    let suf = com.map(|c| format!(" /{c}")).unwrap_or_default();
    let kw = if hier { "HIERARCH ESO X = " } else { "ESOX    = " };
    re.value("K", s(p, com));
    let mut card = parse(&raw(&format!("{kw}'{q}'{suf}")))?;
    for i in 0..n {
        let conts: &[&str] = if i + 1 < n { &["cd&", "&", "o'k &", " &"] } else { &["cd&", " lead", "", " ", "z", "none"] };
        let p = ch.pick(conts);
        let com = ch.pick(&[None, Some(" c1")]);
        re.cont(if p == "none" { "" } else { p }, com);
        // a record made by the caller may have no string at all
        let c = if p == "none" { Card::Continuation { string: None, comment: com.map(|c| c.to_string()) } } else { parse(&raw(&format!("CONTINUE  '{}'{}", p.replace('\'', "''"), com.map(|c| format!(" /{c}")).unwrap_or_default())))? };
        if ch.flag() {
            card = card.splice(c);
        } else {
            card.append(&c);
        }
    }
    let v = match &card {
        Card::Value { name, value } if name == "ESOX" && !hier => value,
        Card::Hierarch { name, value } if name == "ESO.X" && hier => value,
        _ => return Err(format!("spliced card {card:?}")),
    };
    if *v != re.vals[0].1 {
        return Err(format!("spliced value {v:?}, expected {:?}", re.vals[0].1));
    }
    Ok(())
}

// ---------------------------------------------------------------- C09

/// One card of the C09 alphabet: record, the card it denotes, value it maps.
fn head_card(op: usize) -> (CardB, Card, Option<(String, Value)>) {
    let val = |n: &str, v: Value, c: CardB| (c, Card::Value { name: n.into(), value: v.clone() }, Some((n.to_string(), v)));
    let i = |v, c: Option<&str>| Value::Integer { value: v, comment: c.map(|s| s.to_string()) };
    match op {
        0 => val("A", i(1, None), int("A", 1)),
        1 => val("A", i(2, Some(" c")), raw("A       =                    2 / c")),
        2 => val("B", i(1, None), int("B", 1)),
        3 => val("B", s("str", None), st("B", "str")),
        4 => val("CD", Value::Logical { value: true, comment: None }, log("CD", true)),
        5 => val("A", Value::Undefined, raw("A       =")),
        6 => val("F", Value::Float { value: 1.5, comment: None }, kv("F", "1.5")),
        7 => (raw("COMMENT text"), Card::Comment("text".into()), None),
        8 => (raw("HISTORY first"), Card::History("first".into()), None),
        9 => (raw("HISTORY  second"), Card::History(" second".into()), None),
        10 => (raw(""), Card::Space, None),
        11 => (raw("         blank keyword text"), Card::Comment(" blank keyword text".into()), None),
        12 => {
            let v = i(7, None);
            (raw("HIERARCH A B = 7"), Card::Hierarch { name: "A.B".into(), value: v.clone() }, Some(("A.B".into(), v)))
        }
        13 => {
            let c = raw("NOVALUE   just text");
            (c, Card::Undefined(String::from_utf8(c.to_vec()).unwrap()), None)
        }
        14 => {
            let c = raw("BAD     = 'unterminated");
            (c, Card::Undefined(String::from_utf8(c.to_vec()).unwrap()), None)
        }
        15 => (raw("CONTINUE  'orphan'"), Card::Continuation { string: Some("orphan".into()), comment: None }, None),
        16 => {
            // complex numbers are kept as they are, without a value
            let c = raw("CPLX    = (1.0, 2.0)");
            (c, Card::Undefined(String::from_utf8(c.to_vec()).unwrap()), None)
        }
        17 => (raw("COMMENT END"), Card::Comment("END".into()), None),
        18 => (raw("HISTORY"), Card::History("".into()), None),
        19 => (raw("COMMENT"), Card::Comment("".into()), None),
        20 => {
            let t = "h".repeat(72);
            (raw(&format!("HISTORY {t}")), Card::History(t), None)
        }
        21 => {
            let v = s("x", Some(" END"));
            (raw("HIERARCH A B = 'x' / END"), Card::Hierarch { name: "A.B".into(), value: v.clone() }, Some(("A.B".into(), v)))
        }
        22 => val("END1", i(0, None), int("END1", 0)),
        _ => val("B", i(1, Some(" other")), raw("B       =                    1 / other")),
    }
}
const MENU: usize = 24;

fn head_sequences(ch: &mut Ch) -> R {
    let depth = ch.range(0, if ch.thorough { 5 } else { 4 });
    head_list(ch, 0, depth)
}

/// The same cards after any number of others, up to two blocks: every place in a block.
fn head_blocks(ch: &mut Ch) -> R {
    let pad = ch.range(1, 72);
    let depth = if ch.thorough { 3 } else { 2 };
    head_list(ch, pad, depth)
}

fn head_list(ch: &mut Ch, pad: usize, depth: usize) -> R {
    let mut extra = vec![];
    let mut want_cards = vec![];
    let mut map: Vec<(String, Value)> = vec![];
    let mut hist = vec![];
    for i in 0..depth + pad {
        // the padding: every kind of card that says nothing about values, and values
        let (c, card, v) = if i < pad {
            match i % 3 {
                0 => (raw("HISTORY pad"), Card::History("pad".into()), None),
                1 => {
                    let (k, v) = (format!("P{i}"), Value::Integer { value: i as i64, comment: None });
                    (int(&k, i as i128), Card::Value { name: k.clone(), value: v.clone() }, Some((k, v)))
                }
                _ => (raw(""), Card::Space, None),
            }
        } else {
            head_card(ch.choose(MENU))
        };
        ch.step();
        if let Some((k, v)) = v {
            match map.iter_mut().find(|e| e.0 == k) {
                Some(e) => e.1 = v,
                None => map.push((k, v)),
            }
        }
        if let Card::History(h) = &card {
            hist.push(h.clone());
        }
        extra.push(c);
        want_cards.push(card);
        ch.visit(&(map.iter().map(|e| format!("{e:?}")).collect::<Vec<_>>(), hist.len()));
    }
    let kind = if depth <= 3 { ch.pick(&KINDS) } else { Kind::Primary };
    ch.say(|| format!("{kind:?}: {}", extra.iter().map(|c| show(c)).collect::<Vec<_>>().join(" | ")));
    let ask: Vec<String> = ["A", "B", "CD", "F", "A.B", "NOVALUE", "BAD", "CPLX", "COMMENT", "HISTORY", "END", "", "a", "CONTINUE", "A ", "BITPIX"].iter().map(|x| x.to_string()).collect();
    let (seen, recs) = header_of(kind, &extra, &ask, &map.iter().map(|e| e.1.clone()).chain([Value::Integer { value: -77, comment: None }]).collect::<Vec<_>>())?;
    // cards: mandatory ones, then the chosen ones, then END
    let base = recs.len() - extra.len();
    if seen.cards.len() != recs.len() + 1 {
        return Err(format!("{} cards listed, {} written", seen.cards.len(), recs.len() + 1));
    }
    for (i, c) in recs.iter().enumerate() {
        let w = if i < base { parse(c)? } else { want_cards[i - base].clone() };
        if seen.cards[i] != w {
            return Err(format!("card {i}: {:?}, expected {w:?}", seen.cards[i]));
        }
    }
    if seen.cards.last() != Some(&Card::End) {
        return Err(format!("last card {:?}", seen.cards.last()));
    }
    // values
    let mut full: Vec<(String, Value)> = vec![];
    for c in &recs[..base] {
        match parse(c)? {
            Card::Value { name, value } => full.push((name, value)),
            Card::Xtension { x, .. } => full.push(("XTENSION".into(), s(x.as_str(), None))),
            g => return Err(format!("mandatory card {g:?}")),
        }
    }
    full.extend(map.iter().cloned());
    for (k, g) in ask.iter().zip(&seen.got) {
        let w = full.iter().find(|e| e.0 == *k).map(|e| &e.1);
        if g.as_ref() != w {
            return Err(format!("lookup of {k:?}: {g:?}, expected {w:?}"));
        }
    }
    if seen.pairs != full {
        return Err(format!("iteration gives {:?}, expected {full:?}", seen.pairs));
    }
    if seen.keys != full.iter().map(|e| e.0.clone()).collect::<Vec<_>>() {
        return Err(format!("keywords {:?}", seen.keys));
    }
    if seen.cards.len() < 12 {
        // serialised
        let w: Vec<_> = seen.cards.iter().map(card_json).collect();
        if seen.json["cards"] != serde_json::Value::Array(w.clone()) {
            return Err(format!("cards serialised as {}, expected {w:?}", seen.json["cards"]));
        }
        let w: serde_json::Map<_, _> = full.iter().map(|(k, v)| (k.clone(), value_json(v))).collect();
        if seen.json["values"] != serde_json::Value::Object(w.clone()) {
            return Err(format!("values serialised as {}, expected {w:?}", seen.json["values"]));
        }
    }
    if seen.history != hist {
        return Err(format!("history {:?}, expected {hist:?}", seen.history));
    }
    for (i, (_, v)) in map.iter().enumerate() {
        let w = full.iter().find(|e| e.1 == *v).map(|e| e.0.clone());
        if seen.rev[i] != w {
            return Err(format!("keyword of value {v:?}: {:?}, expected {w:?}", seen.rev[i]));
        }
    }
    if seen.rev[map.len()].is_some() {
        return Err("a keyword found for a value that does not occur".into());
    }
    Ok(())
}

fn head_lengths(ch: &mut Ch) -> R {
    let kind = ch.pick(&KINDS);
    let n = match ch.choose(127) {
        k if k <= 120 => k,
        k => [255, 256, 257, 1000, 4095, 9999][k - 121],
    };
    let mut extra = vec![];
    for i in 0..n {
        extra.push(match i % 4 {
            0 => int(&format!("K{i}"), i as i128),
            1 => raw(&format!("HISTORY step {i}")),
            2 => st(&format!("S{i}"), &format!("v{i}")),
            _ => raw(&format!("COMMENT number {i}")),
        });
    }
    let ask: Vec<String> = (0..n).map(|i| format!("{}{i}", if i % 4 == 0 { "K" } else { "S" })).collect();
    let (seen, recs) = header_of(kind, &extra, &ask, &[])?;
    ch.say(|| format!("{kind:?} with {} cards", recs.len() + 1));
    if seen.cards.len() != recs.len() + 1 {
        return Err(format!("{} cards listed, {} written", seen.cards.len(), recs.len() + 1));
    }
    for (i, c) in recs.iter().enumerate() {
        if seen.cards[i] != parse(c)? {
            return Err(format!("card {i}: {:?}", seen.cards[i]));
        }
    }
    for i in 0..n {
        let w = match i % 4 {
            0 => Some(Value::Integer { value: i as i64, comment: None }),
            2 => Some(s(&format!("v{i}"), None)),
            _ => None,
        };
        if seen.got[i] != w {
            return Err(format!("{} = {:?}, expected {w:?}", ask[i], seen.got[i]));
        }
    }
    let h: Vec<String> = (0..n).filter(|i| i % 4 == 1).map(|i| format!("step {i}")).collect();
    if seen.history != h {
        return Err(format!("history {:?}", seen.history));
    }
    Ok(())
}
