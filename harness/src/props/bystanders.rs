//! Headers carry many keywords that do not describe the layout: scaling, null values, display hints, names, checksums,
//! commentary that quotes other keywords. Whatever they say, the HDUs, values and bytes delivered are the same.
//! Every one and every pair of them is added to headers of each kind, for every property that could be affected.

use crate::engine::{Ch, R};
use crate::gen::*;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum On {
    Primary,
    Image,
    /// number of columns
    Table(usize),
    Ascii(usize),
    IntTiles,
    FloatTiles,
}

fn any() -> Vec<Vec<CardB>> {
    vec![
        vec![st("EXTNAME", "")],
        vec![st("EXTNAME", "PRIMARY"), int("EXTVER", 2), int("EXTLEVEL", 3)],
        vec![st("EXTNAME", "COMPRESSED_IMAGE")],
        vec![int("EXTVER", -1)],
        vec![log("INHERIT", true)],
        vec![log("INHERIT", false)],
        vec![st("CHECKSUM", "0000000000000000"), st("DATASUM", "0")],
        vec![st("CHECKSUM", "hcHjjc9ghcEghc9g"), st("DATASUM", "2503531142")],
        vec![st("DATE", "2026-11-18T00:00:00"), st("ORIGIN", "END"), st("OBJECT", "XTENSION= 'IMAGE'")],
        vec![raw("COMMENT NAXIS1  =                   99")],
        vec![raw("COMMENT END")],
        vec![raw("HISTORY XTENSION= 'BINTABLE'"), raw("HISTORY SIMPLE  =                    F")],
        vec![raw("        END")],
        vec![raw("        NAXIS   =                    7")],
        vec![raw("HIERARCH ESO NAXIS1 = 99"), raw("HIERARCH ESO BITPIX = 64")],
        vec![raw("HIERARCH ESO END = T")],
        vec![raw("HIERARCH X PCOUNT = 5000"), raw("HIERARCH X TFIELDS = 9")],
        vec![raw("CONTINUE  'nothing to continue&'")],
        vec![st("LONGSTRN", "OGIP 1.0"), raw("TITLE   = 'a string that goes on&'"), raw("CONTINUE  'END     &'"), raw("CONTINUE  ' and ends'")],
        vec![raw("ENDED   =                    T")],
        vec![raw("END_    = 'x'"), int("NAXISX", 5), int("BITPIXEL", 12)],
        vec![raw("END-DATE= '2026-11-18'")],
        vec![raw("BSCALE  =")],
        vec![raw("NULLVAL =")],
        vec![kv("EQUINOX", "2000.0"), kv("CRPIX1", "1.0D0"), kv("CRVAL1", "-3.5E2"), st("CTYPE1", "RA---TAN")],
        vec![kv("CDELT1", "(1.0, 2.0)")],
        vec![log("SIMPLEX", false), st("XTENSIO2", "TABLE")],
        vec![st("AUTHOR", "it''s"), raw("REFERENC= 'a/b' / NAXIS = 3")],
    ]
}
fn pictures() -> Vec<Vec<CardB>> {
    vec![
        vec![int("BZERO", 32768), int("BSCALE", 1)],
        vec![kv("BZERO", "2147483648.0"), kv("BSCALE", "1.0")],
        vec![kv("BZERO", "9223372036854775808")],
        vec![int("BZERO", -128)],
        vec![kv("BSCALE", "2.5"), kv("BZERO", "-1.5")],
        vec![kv("BSCALE", "0.0")],
    ]
}
fn hints() -> Vec<Vec<CardB>> {
    vec![
        vec![int("BLANK", 0)],
        vec![int("BLANK", 255)],
        vec![int("BLANK", -32768)],
        vec![int("BLANK", -2147483648)],
        vec![int("BLANK", 1), int("DATAMIN", 3), int("DATAMAX", 4)],
        vec![kv("DATAMIN", "0.0"), kv("DATAMAX", "1.0"), st("BUNIT", "Jy/beam")],
    ]
}

/// The cards that may be added to a header of this kind.
pub fn cards(on: On) -> Vec<Vec<CardB>> {
    let mut v = any();
    match on {
        On::Primary | On::Image => {
            v.extend(pictures());
            v.extend(hints());
            // what belongs to tables means nothing here
            v.push(vec![int("TFIELDS", 3), st("TFORM1", "1J")]);
            v.push(vec![int("THEAP", 2880)]);
            v.push(vec![log("ZIMAGE", true), st("ZCMPTYPE", "RICE_1"), int("ZBITPIX", 16), int("ZNAXIS", 1), int("ZNAXIS1", 4)]);
            v.push(vec![log("GROUPS", false)]);
        }
        On::Table(n) => {
            for c in [1, n] {
                let k = |s: &str| format!("{s}{c}");
                v.push(vec![kv(&k("TSCAL"), "2.0"), kv(&k("TZERO"), "5.0")]);
                v.push(vec![int(&k("TZERO"), 32768)]);
                v.push(vec![int(&k("TZERO"), 2147483648), int(&k("TSCAL"), 1)]);
                v.push(vec![kv(&k("TZERO"), "9223372036854775808")]);
                v.push(vec![int(&k("TZERO"), -128)]);
                v.push(vec![int(&k("TNULL"), 0)]);
                v.push(vec![int(&k("TNULL"), 255)]);
                v.push(vec![int(&k("TNULL"), -32768)]);
                v.push(vec![st(&k("TDIM"), "(2,3)")]);
                v.push(vec![st(&k("TDIM"), "(0)")]);
                v.push(vec![st(&k("TDISP"), "I11.5"), st(&k("TUNIT"), "count")]);
                v.push(vec![st(&k("TCTYP"), "RA---TAN"), int(&k("TNMIN"), 1)]);
            }
            v.push(vec![log("ZIMAGE", false), st("ZCMPTYPE", "RICE_1"), int("ZBITPIX", 16), int("ZNAXIS", 1), int("ZNAXIS1", 4)]);
            v.push(vec![st("ZCMPTYPE", "GZIP_1"), int("ZBITPIX", 16), int("ZNAXIS", 1), int("ZNAXIS1", 4)]);
            v.push(vec![kv("ZSCALE", "2.0"), kv("ZZERO", "1.0"), int("ZBLANK", 0)]);
            v.extend(pictures().into_iter().take(2));
            v.push(hints()[0].clone());
        }
        On::Ascii(n) => {
            for c in [1, n] {
                let k = |s: &str| format!("{s}{c}");
                v.push(vec![kv(&k("TSCAL"), "2.0"), kv(&k("TZERO"), "5.0")]);
                v.push(vec![st(&k("TNULL"), "NULL")]);
                v.push(vec![st(&k("TNULL"), "")]);
                v.push(vec![st(&k("TTYPE"), "NAME"), st(&k("TUNIT"), "m")]);
                v.push(vec![st(&k("TDISP"), "A5")]);
            }
            v.push(vec![int("THEAP", 2880)]);
        }
        On::IntTiles | On::FloatTiles => {
            v.push(vec![st("ZTENSION", "IMAGE"), int("ZPCOUNT", 0), int("ZGCOUNT", 1)]);
            v.push(vec![log("ZSIMPLE", true), log("ZEXTEND", true), log("ZBLOCKED", false)]);
            v.push(vec![st("ZHECKSUM", "0000000000000000"), st("ZDATASUM", "0")]);
            v.push(vec![st("ZMASKCMP", "RICE_1")]);
            v.push(vec![st("FZALGOR", "GZIP"), st("FZTILE", "ROW")]);
            v.push(vec![kv("TSCAL1", "2.0"), kv("TZERO1", "5.0")]);
            v.push(vec![int("TNULL1", 0), st("TDIM1", "(2,3)")]);
            v.push(vec![int("NAXIS3", 0)]);
            v.pop();
            if on == On::IntTiles {
                v.extend(pictures());
                v.extend(hints());
            } else {
                v.push(vec![kv("DATAMIN", "0.0"), kv("DATAMAX", "1.0"), st("BUNIT", "Jy/beam")]);
            }
        }
    }
    if on == On::Primary {
        v.push(vec![log("EXTEND", true)]);
        v.push(vec![log("EXTEND", false)]);
        v.push(vec![log("BLOCKED", true)]);
        v.push(vec![log("BLOCKED", false)]);
        v.push(vec![int("PCOUNT", 0), int("GCOUNT", 1)]);
        v.push(vec![int("NEXTEND", 0)]);
        v.push(vec![int("NEXTEND", 7)]);
    }
    v
}

/// What is added to a header and how its own cards are written.
#[derive(Clone)]
pub struct Twist {
    pub cards: Vec<CardB>,
    /// before the cards that describe the columns
    early: bool,
    pub spell: usize,
    pub id: (usize, usize, usize, bool),
}
/// One or two of the cards and where they go; or how the header is written.
pub fn choose(ch: &mut Ch, on: On, pairs: bool) -> Twist {
    let all = cards(on);
    let a = ch.choose(all.len() + 1);
    if a == all.len() {
        let spell = ch.range(1, SPELLINGS);
        return Twist { cards: vec![], early: false, spell, id: (a, 0, spell, false) };
    }
    // 0: a alone
    let b = if pairs { ch.choose(all.len() + 1) } else { 0 };
    let early = ch.flag();
    let mut v = all[a].clone();
    if b > 0 && b - 1 != a {
        // a keyword may be there only once
        let name = |c: &CardB| c[..8].to_vec();
        if all[b - 1].iter().any(|c| all[a].iter().any(|d| name(c) == name(d) && c[8] == b'=')) {
            return Twist { cards: v, early, spell: 0, id: (a, 0, 0, early) };
        }
        v.extend(all[b - 1].clone());
    }
    Twist { cards: v, early, spell: 0, id: (a, b, 0, early) }
}
const SPELLINGS: usize = 12;
/// The same card written otherwise.
fn respell(c: &CardB, how: usize) -> CardB {
    let s = std::str::from_utf8(c).unwrap();
    let (k, v) = (&s[..8], s[10..].trim());
    if &s[8..10] != "= " || v.contains('/') {
        return *c;
    }
    let text = v.starts_with('\'');
    let bare = if text { format!("'{}'", v[1..v.len() - 1].trim_end()) } else { v.to_string() };
    let digits = v.trim_start_matches('-');
    let whole = !text && digits.bytes().all(|b| b.is_ascii_digit()) && !digits.is_empty();
    // the first keyword and, for strings, the first column are in fixed format
    let first = k == "SIMPLE  " || k == "XTENSION";
    match how {
        1 => raw(&format!("{k}= {v:>20} / a comment")),
        2 => raw(&format!("{k}= {v:>20} / NAXIS = 'x' / 7")),
        3 => raw(&format!("{k}= {v:>20}/")),
        4 if text => raw(&format!("{k}= {bare}/c")),
        4 => raw(&format!("{k}= {v:>20} / '")),
        5 if !first && !text => raw(&format!("{k}= {v}")),
        6 if !first && !text => raw(&format!("{k}= {v}/comment")),
        7 if !first && !text => raw(&format!("{k}= {v:>70}")),
        8 if whole && !v.starts_with('-') => raw(&format!("{k}= {:>20}", format!("+{v}"))),
        9 if whole => raw(&format!("{k}= {:>20}", format!("{}000{digits}", if v.starts_with('-') { "-" } else { "" }))),
        10 if text => raw(&format!("{k}= '{:<60}'", v[1..v.len() - 1].trim_end())),
        11 if text => raw(&format!("{k}= {v:<18} / it's")),
        _ => *c,
    }
}
pub fn twist(h: &mut H, t: &Twist) {
    if t.spell == SPELLINGS {
        // the order of what describes the columns is free
        let n = lead(h);
        h.cards[n..].reverse();
    } else if t.spell > 0 {
        for c in &mut h.cards {
            *c = respell(c, t.spell);
        }
    }
    add(h, &t.cards, t.early);
}

/// Number of mandatory cards at the start of the header.
fn lead(h: &H) -> usize {
    let n = h.cards.iter().position(|c| c.starts_with(b"TFIELDS "));
    match n {
        Some(n) => n + 1,
        None => h.cards.iter().rposition(|c| c.starts_with(b"GCOUNT  ") || c.starts_with(b"NAXIS")).unwrap() + 1,
    }
}
fn add(h: &mut H, v: &[CardB], early: bool) {
    let at = if early { lead(h) } else { h.cards.len() };
    h.cards.splice(at..at, v.iter().cloned());
}

/// C01: the walk, with the cards in one HDU of a file that has one of each kind.
pub fn c01(ch: &mut Ch) -> R {
    let mut hs = sample();
    let (j, t) = in_sample(ch, true);
    twist(&mut hs[j], &t);
    let f = file(&hs, b' ');
    ch.say(|| format!("HDU {j}: cards {:?}", t.id));
    let rd = if ch.thorough { ch.choose(4) } else { 0 };
    super::c01::with_reader(rd, f.bytes.clone(), &hs, &f, ch, false).map_err(|e| format!("with {} in HDU {j}: {e}", show(&t)))
}
pub fn sample() -> Vec<H> {
    vec![
        image(Kind::Primary, 16, &[3, 2], 1),
        image(Kind::Image, -32, &[4], 2),
        super::c01::flat_table(7, 3, 3),
        ascii(6, 3, 4),
        super::c01::vla_table(2, 5),
        super::c01::tile_table(3, 2),
    ]
}
pub fn in_sample(ch: &mut Ch, pairs: bool) -> (usize, Twist) {
    let j = ch.choose(6);
    let on = [On::Primary, On::Image, On::Table(1), On::Ascii(1), On::Table(2), On::IntTiles][j];
    (j, choose(ch, on, pairs))
}
pub fn show(t: &Twist) -> String {
    if t.spell > 0 {
        return format!("its cards written in way {}", t.spell);
    }
    format!("{:?}", t.cards.iter().map(|c| String::from_utf8_lossy(c).trim_end().to_string()).collect::<Vec<_>>())
}
