//! C10 (mandatory keywords), C19 (ASCII tables), C20 (typed lookup).

use super::Prop;
use crate::engine::{Ch, Space, R};
use crate::gen::*;
use fitsrs::async_fits::AsyncFits;
use fitsrs::hdu::header::extension::asciitable::{AsciiTable, TFormAsciiTable};
use fitsrs::hdu::header::extension::bintable::BinTable;
use fitsrs::hdu::header::extension::image::Image;
use fitsrs::hdu::{AsyncHDU, HDU};
use fitsrs::Fits;
use futures::StreamExt;
use serde::de::IntoDeserializer;
use serde::Deserialize;
use std::fmt::Debug;
use std::io::{BufReader, Cursor, Read};

pub static C10: Prop = Prop {
    id: "C10",
    level: "model_checking",
    rule: "one execution = one header, obtained from a valid one by replacing up to two (thorough: three) of its keywords by \
           any alternative of a menu (absent, other types, boundary and illegal numbers) or by permuting its cards, read by \
           the synchronous and the asynchronous reader; verdict and description compared with a reference rule; \
           state = (kind, replaced keywords and values)",
    assumptions: &[
        "mandatory: SIMPLE = T or XTENSION first, BITPIX, NAXIS, NAXISn; for tables also PCOUNT, GCOUNT = 1, TFIELDS <= 999 and, for binary tables, formats whose widths add up to NAXIS1",
        "left open (only agreement of the two readers is checked): sizes above 2^62, an absent or malformed TFORM, XTENSION not first, zero-length or zero tile-compression axes",
    ],
    spaces: &[Space { name: "faults", body: faults }, Space { name: "order", body: order }, Space { name: "names", body: names }, Space { name: "many", body: many }, Space { name: "bystanders", body: bystanders }],
};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum K {
    Absent,
    Int(i64),
    Str(&'static str),
    Log(bool),
    Float(&'static str),
    Undef,
}
fn card(k: &str, v: &K) -> Option<CardB> {
    Some(match v {
        K::Absent => return None,
        K::Int(i) => int(k, *i as i128),
        K::Str(s) => st(k, s),
        K::Log(b) => log(k, *b),
        K::Float(s) => kv(k, s),
        K::Undef => raw(&format!("{k:<8}=")),
    })
}
type M = Vec<(&'static str, K)>;
fn get<'a>(m: &'a M, k: &str) -> &'a K {
    m.iter().find(|x| x.0 == k).map(|x| &x.1).unwrap_or(&K::Absent)
}
fn nat(m: &M, k: &str) -> Option<u64> {
    match get(m, k) {
        K::Int(i) if *i >= 0 => Some(*i as u64),
        _ => None,
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
enum Desc {
    Image { primary: bool, bitpix: i64, axes: Vec<u64> },
    Table { rows: usize, cols: usize, size: u64, z: Option<Option<(i64, Vec<u64>)>> },
    Ascii { naxis1: u64, rows: u64, cols: usize },
}
enum Verdict {
    Refuse,
    Open,
    Accept(Desc),
}
use Verdict::*;

const BITPIX: [i64; 6] = [8, 16, 32, 64, -32, -64];

fn judge(primary: bool, m: &M) -> Verdict {
    if primary {
        if *get(m, "SIMPLE") != K::Log(true) {
            return Refuse;
        }
        return judge_image(true, m);
    }
    match get(m, "XTENSION") {
        K::Str("IMAGE") | K::Str("IUEIMAGE") => judge_image(false, m),
        K::Str("BINTABLE") => judge_table(m),
        K::Str("TABLE") => judge_ascii(m),
        _ => Refuse,
    }
}
const BIG: u128 = 1 << 62;
fn axis_names() -> [&'static str; 4] {
    ["NAXIS1", "NAXIS2", "NAXIS3", "NAXIS4"]
}
fn judge_image(primary: bool, m: &M) -> Verdict {
    let K::Int(b) = get(m, "BITPIX") else { return Refuse };
    if !BITPIX.contains(b) {
        return Refuse;
    }
    let Some(n) = nat(m, "NAXIS") else { return Refuse };
    let mut axes = vec![];
    for i in 0..n as usize {
        let Some(a) = axis_names().get(i).and_then(|k| nat(m, k)) else { return Refuse };
        axes.push(a);
    }
    let size = axes.iter().fold((b.unsigned_abs() / 8) as u128, |s, a| s.saturating_mul(*a as u128));
    if size >= BIG || (axes.contains(&0) && axes.iter().any(|a| *a as u128 > 1 << 40)) {
        return Open;
    }
    Accept(Desc::Image { primary, bitpix: *b, axes })
}
fn common(m: &M) -> Option<(u64, u64, u64, usize)> {
    if *get(m, "BITPIX") != K::Int(8) || *get(m, "NAXIS") != K::Int(2) || *get(m, "GCOUNT") != K::Int(1) {
        return None;
    }
    let t = nat(m, "TFIELDS")?;
    if t > 999 {
        return None;
    }
    Some((nat(m, "NAXIS1")?, nat(m, "NAXIS2")?, nat(m, "PCOUNT")?, t as usize))
}
fn judge_ascii(m: &M) -> Verdict {
    let Some((n1, n2, p, t)) = common(m) else { return Refuse };
    if p != 0 {
        return Refuse;
    }
    if n1 as u128 * n2 as u128 >= BIG {
        return Open;
    }
    Accept(Desc::Ascii { naxis1: n1, rows: n2, cols: t })
}
fn judge_table(m: &M) -> Verdict {
    let Some((n1, n2, p, t)) = common(m) else { return Refuse };
    let mut w = 0u64;
    let mut open = false;
    for i in 0..t {
        w += match ["TFORM1", "TFORM2"].get(i).map(|k| get(m, k)).unwrap_or(&K::Absent) {
            K::Str("1J") | K::Str("J") | K::Str("2I") | K::Str("1E") => 4,
            K::Str("1I") | K::Str("9X") | K::Str("2A") => 2,
            K::Str("1PB(9)") => 8,
            K::Str("0J") => 0,
            _ => {
                open = true;
                0
            }
        };
    }
    if n1 as u128 * n2 as u128 + p as u128 >= BIG {
        return Open;
    }
    if w != n1 {
        // a column that cannot be understood has an unknown width
        return if open { Open } else { Refuse };
    }
    if open {
        return Open;
    }
    Accept(Desc::Table { rows: n2 as usize, cols: t, size: n1 * n2 + p, z: judge_z(m) })
}
/// None: left open.
fn judge_z(m: &M) -> Option<Option<(i64, Vec<u64>)>> {
    if nat(m, "TFIELDS") == Some(0) {
        return Some(None);
    }
    if *get(m, "TFORM1") != K::Str("1PB(9)") {
        return if m.iter().any(|x| x.0 == "ZCMPTYPE") { None } else { Some(None) };
    }
    match get(m, "ZCMPTYPE") {
        K::Str("RICE_1") | K::Str("RICE_ONE") | K::Str("GZIP_1") | K::Str("GZIP_2") => {}
        _ => return Some(None),
    }
    if !matches!(get(m, "TTYPE1"), K::Str("COMPRESSED_DATA") | K::Str("GZIP_COMPRESSED_DATA")) {
        return Some(None);
    }
    let K::Int(b) = get(m, "ZBITPIX") else { return Some(None) };
    if !BITPIX.contains(b) || *b == 64 {
        return Some(None);
    }
    let Some(n) = nat(m, "ZNAXIS") else { return Some(None) };
    if n == 0 {
        return None;
    }
    let mut axes = vec![];
    for i in 0..n as usize {
        let Some(a) = ["ZNAXIS1", "ZNAXIS2"].get(i).and_then(|k| nat(m, k)) else { return Some(None) };
        if a == 0 {
            return None;
        }
        axes.push(a);
        match get(m, ["ZTILE1", "ZTILE2"][i]) {
            K::Absent => {}
            K::Int(t) if *t > 0 => {}
            _ => return None,
        }
    }
    Some(Some((*b, axes)))
}

fn d_image(primary: bool, x: &Image) -> Desc {
    Desc::Image { primary, bitpix: super::image::bp(x.get_bitpix()), axes: x.get_naxis().to_vec() }
}
fn d_table(x: &BinTable) -> Desc {
    use fitsrs::hdu::header::Xtension;
    Desc::Table {
        rows: x.get_num_rows(),
        cols: x.get_num_cols(),
        size: x.get_num_bytes_data_block(),
        z: Some(x.get_z_image().as_ref().map(|z| (super::image::bp(z.z_bitpix), z.z_naxisn.to_vec()))),
    }
}
fn d_ascii(x: &AsciiTable) -> Desc {
    Desc::Ascii { naxis1: x.get_naxis1(), rows: x.get_naxis2(), cols: x.get_tfields() }
}
fn sync_desc(bytes: &[u8], at: usize) -> Result<Desc, String> {
    let mut f = Fits::from_reader(Cursor::new(bytes));
    for _ in 0..at {
        f.next();
    }
    match f.next() {
        Some(Ok(HDU::Primary(h))) => Ok(d_image(true, h.get_header().get_xtension())),
        Some(Ok(HDU::XImage(h))) => Ok(d_image(false, h.get_header().get_xtension())),
        Some(Ok(HDU::XBinaryTable(h))) => Ok(d_table(h.get_header().get_xtension())),
        Some(Ok(HDU::XASCIITable(h))) => Ok(d_ascii(h.get_header().get_xtension())),
        Some(Err(e)) => Err(format!("{e:?}")),
        None => Err("end of the file".into()),
    }
}
fn async_desc(bytes: &[u8], at: usize) -> Result<Desc, String> {
    let mut f = AsyncFits::from_reader(futures::io::BufReader::new(futures::io::Cursor::new(bytes.to_vec())));
    futures::executor::block_on(async {
        for _ in 0..at {
            f.next().await;
        }
        match f.next().await {
            Some(Ok(AsyncHDU::Primary(h))) => Ok(d_image(true, h.get_header().get_xtension())),
            Some(Ok(AsyncHDU::XImage(h))) => Ok(d_image(false, h.get_header().get_xtension())),
            Some(Ok(AsyncHDU::XBinaryTable(h))) => Ok(d_table(h.get_header().get_xtension())),
            Some(Ok(AsyncHDU::XASCIITable(h))) => Ok(d_ascii(h.get_header().get_xtension())),
            Some(Err(e)) => Err(format!("{e:?}")),
            None => Err("end of the file".into()),
        }
    })
}
fn same(got: &Desc, want: &Desc) -> bool {
    match (got, want) {
        (Desc::Table { rows, cols, size, .. }, Desc::Table { rows: r, cols: c, size: s, z: None }) => rows == r && cols == c && size == s,
        _ => got == want,
    }
}

fn verdict(primary: bool, cards: &[CardB], v: &Verdict, what: &dyn Fn() -> String) -> R {
    let mut bytes = vec![];
    let mut at = 0;
    if !primary {
        bytes.extend(header(&empty_primary().cards));
        at = 1;
    }
    bytes.extend(header(cards));
    bytes.extend(vec![0; 2880]);
    let (a, b) = (sync_desc(&bytes, at), async_desc(&bytes, at));
    if a.is_ok() != b.is_ok() || (a.is_ok() && a != b) {
        return Err(format!("{}: synchronous reader {a:?}, asynchronous reader {b:?}", what()));
    }
    match (v, &a) {
        (Open, _) | (Refuse, Err(_)) => Ok(()),
        (Refuse, Ok(d)) => Err(format!("{}: accepted as {d:?}, must be refused", what())),
        (Accept(w), Ok(g)) if same(g, w) => Ok(()),
        (Accept(w), g) => Err(format!("{}: {g:?}, expected {w:?}", what())),
    }
}

/// (name, primary, keywords)
fn bases() -> Vec<(&'static str, bool, M)> {
    let tab = |x: &'static str| {
        vec![
            ("XTENSION", K::Str(x)),
            ("BITPIX", K::Int(8)),
            ("NAXIS", K::Int(2)),
            ("NAXIS1", K::Int(6)),
            ("NAXIS2", K::Int(3)),
            ("PCOUNT", K::Int(0)),
            ("GCOUNT", K::Int(1)),
            ("TFIELDS", K::Int(2)),
        ]
    };
    let mut bt = tab("BINTABLE");
    bt[5].1 = K::Int(7);
    bt.extend([("TFORM1", K::Str("1J")), ("TFORM2", K::Str("2A"))]);
    let mut at = tab("TABLE");
    at.extend([("TBCOL1", K::Int(1)), ("TFORM1", K::Str("A3")), ("TBCOL2", K::Int(4)), ("TFORM2", K::Str("I3"))]);
    let mut zt = tab("BINTABLE");
    zt[3].1 = K::Int(8);
    zt[5].1 = K::Int(20);
    zt[7].1 = K::Int(1);
    zt.extend([
        ("TFORM1", K::Str("1PB(9)")),
        ("TTYPE1", K::Str("COMPRESSED_DATA")),
        ("ZIMAGE", K::Log(true)),
        ("ZCMPTYPE", K::Str("RICE_1")),
        ("ZBITPIX", K::Int(16)),
        ("ZNAXIS", K::Int(2)),
        ("ZNAXIS1", K::Int(4)),
        ("ZNAXIS2", K::Int(3)),
        ("ZTILE1", K::Int(4)),
        ("ZTILE2", K::Int(1)),
        ("ZSCALE", K::Float("1.5")),
        ("ZZERO", K::Float("0.5")),
    ]);
    vec![
        ("primary", true, vec![("SIMPLE", K::Log(true)), ("BITPIX", K::Int(16)), ("NAXIS", K::Int(2)), ("NAXIS1", K::Int(4)), ("NAXIS2", K::Int(3))]),
        (
            "image",
            false,
            vec![("XTENSION", K::Str("IMAGE")), ("BITPIX", K::Int(-32)), ("NAXIS", K::Int(3)), ("NAXIS1", K::Int(4)), ("NAXIS2", K::Int(3)), ("NAXIS3", K::Int(2)), ("PCOUNT", K::Int(0)), ("GCOUNT", K::Int(1))],
        ),
        ("binary table", false, bt),
        ("ASCII table", false, at),
        ("tile-compressed image", false, zt),
    ]
}
/// Alternatives of a keyword; empty when it is not varied.
fn alternatives(kind: &str, k: &str) -> Vec<K> {
    let num = |extra: &[i64]| {
        let mut v = vec![K::Absent, K::Undef, K::Str("8"), K::Str("2"), K::Str(""), K::Log(true), K::Log(false), K::Float("8.0"), K::Float("2.5"), K::Float("1.0E3"), K::Int(-1), K::Int(0), K::Int(1), K::Int(2), K::Int(3)];
        v.extend(extra.iter().map(|i| K::Int(*i)));
        v
    };
    match k {
        "SIMPLE" => vec![K::Absent, K::Undef, K::Log(false), K::Str("T"), K::Int(1), K::Float("1.0")],
        "XTENSION" => vec![K::Absent, K::Undef, K::Str("IMAGE"), K::Str("IUEIMAGE"), K::Str("BINTABLE"), K::Str("TABLE"), K::Str("A3DTABLE"), K::Str("image"), K::Str("TABLES"), K::Str(""), K::Str("FOREIGN"), K::Log(true), K::Int(1)],
        "BITPIX" | "ZBITPIX" => num(&[8, 16, 32, 64, -32, -64, -8, -16, 12, 128, 264, 65552, i64::MAX, i64::MIN]),
        "NAXIS" => num(&[4, 5, 999, 1000, i64::MAX, -2, 258]),
        "NAXIS1" | "NAXIS2" | "NAXIS3" | "ZNAXIS1" | "ZNAXIS2" => num(&[4, 6, 8, 70000, i64::MAX, i64::MIN]),
        "PCOUNT" => num(&[100, i64::MAX]),
        "GCOUNT" if kind != "image" => num(&[256, 257]),
        "PCOUNT2" => vec![],
        "TFIELDS" => num(&[998, 999, 1000, 1001, 65538, i64::MAX]),
        "TFORM1" | "TFORM2" if kind != "ASCII table" => {
            vec![K::Absent, K::Undef, K::Int(1), K::Str("J"), K::Str("2I"), K::Str("1E"), K::Str("1I"), K::Str("9X"), K::Str("0J"), K::Str("1PB(9)"), K::Str("1Z"), K::Str(""), K::Str("4")]
        }
        "TTYPE1" => vec![K::Absent, K::Str("GZIP_COMPRESSED_DATA"), K::Str("DATA"), K::Int(1)],
        "ZCMPTYPE" => vec![K::Absent, K::Undef, K::Int(1), K::Log(true), K::Str("RICE_ONE"), K::Str("GZIP_1"), K::Str("GZIP_2"), K::Str("HCOMPRESS_1"), K::Str("PLIO_1"), K::Str("NOCOMPRESS"), K::Str("RICE")],
        "ZNAXIS" => num(&[999, i64::MAX]),
        "ZTILE1" | "ZTILE2" => num(&[4, 100]),
        _ => vec![],
    }
}

fn faults(ch: &mut Ch) -> R {
    let bases = bases();
    let (kind, primary, base) = ch.pick(&bases);
    let var: Vec<usize> = (0..base.len()).filter(|i| !alternatives(kind, base[*i].0).is_empty()).collect();
    let depth = if ch.thorough && kind != "tile-compressed image" { 3 } else { 2 };
    let mut m = base.clone();
    let mut what = vec![];
    let mut from = 0;
    for _ in 0..depth {
        // stop, or a keyword further on
        let i = ch.choose(var.len() - from + 1);
        if i == 0 {
            break;
        }
        from += i;
        let f = var[from - 1];
        let v = ch.pick(&alternatives(kind, m[f].0));
        what.push((m[f].0, v.clone()));
        m[f].1 = v;
        if from == var.len() {
            break;
        }
    }
    ch.say(|| format!("{kind} with {what:?}"));
    ch.visit(&(kind, &what));
    let cards: Vec<CardB> = m.iter().filter_map(|(k, v)| card(k, v)).collect();
    if cards.first().map(|c| c[..8].to_vec()) != card(m[0].0, &m[0].1).map(|c| c[..8].to_vec()) {
        // the first card is absent: refused all the same
    }
    verdict(primary, &cards, &judge(primary, &m), &|| format!("{kind} with {what:?}"))
}

/// The cards after the first in another order, with other cards in between: same verdict, same description.
fn order(ch: &mut Ch) -> R {
    let bases = bases();
    let (kind, primary, m) = ch.pick(&bases);
    let n = m.len();
    let (i, j) = (ch.choose(n), ch.choose(n));
    let mode = ch.choose(3);
    let mut cards: Vec<CardB> = m.iter().filter_map(|(k, v)| card(k, v)).collect();
    let c = cards.remove(i);
    cards.insert(j, c);
    match mode {
        1 => {
            for k in 0..40 {
                cards.insert(1 + k, raw("COMMENT filler"));
            }
        }
        2 => cards.insert(j + 1, int("OTHER", 7)),
        _ => {}
    }
    ch.say(|| format!("{kind}: card {i} moved to {j}, mode {mode}"));
    ch.visit(&(kind, i, j, mode));
    let moved = (i == 0) != (j == 0);
    let v = if !moved {
        judge(primary, &m)
    } else if primary {
        Refuse
    } else {
        Open
    };
    verdict(primary, &cards, &v, &|| format!("{kind}: card {i} moved to {j} (mode {mode})"))
}

/// Keywords that are almost the mandatory ones, and other spellings of the first card.
fn names(ch: &mut Ch) -> R {
    let bases = bases();
    let (kind, primary, mut m) = ch.pick(&bases);
    let n = m.len();
    let i = ch.choose(n);
    let (k, v) = m[i].clone();
    let value = match &v {
        K::Int(i) => i.to_string(),
        K::Str(s) => format!("'{s:<8}'"),
        K::Log(b) => if *b { "T" } else { "F" }.into(),
        K::Float(s) => s.to_string(),
        _ => String::new(),
    };
    // (card, whether it is still that keyword with that value)
    let menu: Vec<(CardB, bool)> = vec![
        (raw(&format!("{:<8}= {value}", &k[..k.len() - 1])), false),
        (raw(&format!("{:<8}= {value}", format!("{}X", &k[..k.len().min(7)]))), false),
        (raw(&format!("{:<8}= {value}", k.to_lowercase())), false),
        (raw(&format!("{:<8}= {value}", format!("Z{}", &k[..k.len().min(7)]).replace("ZZ", "YZ"))), false),
        (raw(&format!("{k:<8}  {value}")), false),
        (raw(&format!("COMMENT {k:<8}= {value}")), false),
        (raw(&format!("        {k:<8}= {value}")), false),
        (raw(&format!("{k:<8}= {value} / some comment")), true),
        (raw(&format!("{k:<8}={:>71}", value)), true),
        (raw(&format!("{k:<8}= {value}/tight")), true),
    ];
    let c = ch.choose(menu.len());
    let (rec, ok) = menu[c];
    // a keyword from which another one is made, a string that must be in column 11
    if matches!((k, c), ("NAXIS1" | "NAXIS2" | "NAXIS3" | "ZNAXIS1" | "ZNAXIS2", 0)) || (c == 3 && matches!(k, "BITPIX" | "NAXIS" | "NAXIS1" | "NAXIS2")) {
        return Ok(());
    }
    if !ok {
        m[i].1 = K::Absent;
    }
    ch.say(|| format!("{kind}: {k} as {:?}", String::from_utf8_lossy(&rec).trim_end()));
    ch.visit(&(kind, k, c));
    let cards: Vec<CardB> = m.iter().enumerate().filter_map(|(j, (k, v))| if j == i { Some(rec) } else { card(k, v) }).collect();
    verdict(primary, &cards, &judge(primary, &m), &|| format!("{kind}: {k} as {:?}", String::from_utf8_lossy(&rec).trim_end()))
}

/// Headers with many axes or columns, one of the numbered keywords being at fault.
fn many(ch: &mut Ch) -> R {
    let kind = ch.choose(4);
    let n: i64 = ch.pick(&[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 20, 32, 33, 64, 65, 99, 100, 101, 255, 256, 257, 998, 999]);
    if kind == 3 && n > 99 {
        // ZNAXIS100 is no keyword
        return Ok(());
    }
    let at: Vec<i64> = (1..=n).filter(|i| n <= 13 || [1, 2, 8, 9, 10, 11, 12, 13, 16, 17, 32, 33, 64, 65, 99, 100, 101, 255, 256, 257, 998, 999, n - 1].contains(i)).collect();
    let i = ch.pick(&at);
    let v = match kind {
        2 => ch.pick(&[K::Str("1I"), K::Str("1J"), K::Str("0J"), K::Str("9X"), K::Absent]),
        _ => ch.pick(&[K::Int(1), K::Int(2), K::Int(7), K::Int(0), K::Int(-1), K::Absent, K::Undef, K::Str("1"), K::Log(true), K::Float("1.0"), K::Float("1.5")]),
    };
    let num = |i: i64, k: &str| if k == "NAXIS1" || k == "ZNAXIS1" { 3 } else { 1 + (i % 17 == 5) as i64 };
    let mut what = format!("number {i} of {n} is {v:?}");
    let len = |j: i64, k: &str| if j == i { v.clone() } else { K::Int(num(j, &format!("{k}{j}"))) };
    let lens = |k: &str| (1..=n).map(|j| match len(j, k) { K::Int(x) if x >= 0 => Some(x as u64), _ => None }).collect::<Option<Vec<u64>>>();
    let mut cards = vec![];
    let verd = match kind {
        0 | 1 => {
            what = format!("image of {n} axes, {what}");
            cards.push(if kind == 0 { log("SIMPLE", true) } else { st("XTENSION", "IMAGE") });
            cards.extend([int("BITPIX", 8), int("NAXIS", n as i128)]);
            cards.extend((1..=n).filter_map(|j| card(&format!("NAXIS{j}"), &len(j, "NAXIS"))));
            if kind == 1 {
                cards.extend([int("PCOUNT", 0), int("GCOUNT", 1)]);
            }
            match lens("NAXIS") {
                Some(axes) if axes.iter().fold(1u128, |s, a| s.saturating_mul(*a as u128)) >= BIG => Open,
                Some(axes) => Accept(Desc::Image { primary: kind == 0, bitpix: 8, axes }),
                None => Refuse,
            }
        }
        2 => {
            // NAXIS1 as it should be, or as if every column were alike
            let fit = ch.choose(2) == 1;
            what = format!("table of {n} columns, {what}, row size {}", if fit { "right" } else { "of a plain one" });
            let w = match v {
                K::Str("1J") => 4,
                K::Str("0J") => 0,
                _ => 2,
            };
            let n1 = 2 * (n - 1) + if fit { w } else { 2 };
            cards.extend([st("XTENSION", "BINTABLE"), int("BITPIX", 8), int("NAXIS", 2), int("NAXIS1", n1 as i128), int("NAXIS2", 2), int("PCOUNT", 0), int("GCOUNT", 1), int("TFIELDS", n as i128)]);
            cards.extend((1..=n).filter_map(|j| card(&format!("TFORM{j}"), if j == i { &v } else { &K::Str("1I") })));
            match v {
                K::Absent => Open,
                _ if fit || w == 2 => Accept(Desc::Table { rows: 2, cols: n as usize, size: 2 * n1 as u64, z: Some(None) }),
                _ => Refuse,
            }
        }
        _ => {
            what = format!("compressed image of {n} axes, {what}");
            cards.extend([st("XTENSION", "BINTABLE"), int("BITPIX", 8), int("NAXIS", 2), int("NAXIS1", 8), int("NAXIS2", 2), int("PCOUNT", 20), int("GCOUNT", 1), int("TFIELDS", 1)]);
            cards.extend([st("TFORM1", "1PB(9)"), st("TTYPE1", "COMPRESSED_DATA"), log("ZIMAGE", true), st("ZCMPTYPE", "RICE_1"), int("ZBITPIX", 16), int("ZNAXIS", n as i128)]);
            cards.extend((1..=n).filter_map(|j| card(&format!("ZNAXIS{j}"), &len(j, "ZNAXIS"))));
            let z = match lens("ZNAXIS") {
                Some(axes) if axes.contains(&0) || axes.iter().fold(1u128, |s, a| s.saturating_mul(*a as u128)) >= BIG => None,
                Some(axes) => Some(Some((16, axes))),
                None => Some(None),
            };
            Accept(Desc::Table { rows: 2, cols: 1, size: 36, z })
        }
    };
    ch.say(|| what.clone());
    ch.visit(&what);
    verdict(kind == 0, &cards, &verd, &|| what.clone())
}

// ---------------------------------------------------------------------------------------------- C19

pub static C19: Prop = Prop {
    id: "C19",
    level: "model_checking",
    rule: "one execution = one ASCII table (formats, column starts, row width and count, place in the file), its description and \
           bytes compared with the reference, read in several piece sizes by the synchronous reader and by the asynchronous one; \
           state = the configuration",
    assumptions: &["widths and precisions written without sign; other spellings (signs, blanks inside) are left open"],
    spaces: &[Space { name: "formats", body: formats }, Space { name: "tables", body: tables }, Space { name: "columns", body: columns }, Space { name: "bystanders", body: ascii_bystanders }, Space { name: "huge", body: super::huge::c19 }],
};

/// The format a TFORM text denotes, None if malformed.
fn aform(s: &str) -> Option<TFormAsciiTable> {
    let num = |s: &str| -> Option<usize> {
        if s.is_empty() || !s.bytes().all(|b| b.is_ascii_digit()) {
            return None;
        }
        s.parse().ok()
    };
    let s = s.trim_end_matches(' ');
    let t = s.chars().next()?;
    let r = &s[t.len_utf8()..];
    let wd = || {
        let (w, d) = r.split_once('.')?;
        Some((num(w)?, num(d)?))
    };
    Some(match t {
        'A' => TFormAsciiTable::Character { w: num(r)? },
        'I' => TFormAsciiTable::DecimalInteger { w: num(r)? },
        'F' => wd().map(|(w, d)| TFormAsciiTable::FloatingPointFixed { w, d })?,
        'E' => wd().map(|(w, d)| TFormAsciiTable::EFloatingPointExp { w, d })?,
        'D' => wd().map(|(w, d)| TFormAsciiTable::DFloatingPointExp { w, d })?,
        _ => return None,
    })
}

#[derive(PartialEq, Debug)]
struct Asc {
    w: u64,
    rows: u64,
    cols: usize,
    tb: Vec<u64>,
    tf: Vec<TFormAsciiTable>,
}
fn asc(x: &AsciiTable) -> Result<Asc, String> {
    if super::image::bp(x.get_bitpix()) != 8 || x.get_pcount() != 0 || x.get_gcount() != 1 {
        return Err("BITPIX, PCOUNT or GCOUNT".into());
    }
    if x.get_num_rows() as u64 != x.get_naxis2() || x.get_num_cols() != x.get_tfields() {
        return Err(format!("{} rows of {}, {} columns of {}", x.get_num_rows(), x.get_naxis2(), x.get_num_cols(), x.get_tfields()));
    }
    Ok(Asc { w: x.get_naxis1(), rows: x.get_naxis2(), cols: x.get_tfields(), tb: x.get_tbcols().to_vec(), tf: x.get_tforms().to_vec() })
}

fn ascii_file(cards: Vec<CardB>, data: &[u8], tail: bool) -> Vec<u8> {
    let mut hs = vec![image(Kind::Primary, 16, &[3], 4), H { kind: Kind::Ascii, cards, data: data.to_vec() }];
    if tail {
        hs.push(image(Kind::Image, 8, &[5], 8));
    }
    file(&hs, b' ').bytes
}
fn check_ascii(bytes: &[u8], want: &Asc, data: &[u8], tail: bool, deep: bool) -> R {
    let styles = if deep { 6 } else { 1 };
    for style in 0..styles {
        let mut f = Fits::from_reader(BufReader::with_capacity([4096, 1, 7, 64, 2880, 100][style], Cursor::new(bytes)));
        f.next();
        let Some(Ok(HDU::XASCIITable(h))) = f.next() else { return Err("the second HDU is not an ASCII table".into()) };
        let g = asc(h.get_header().get_xtension())?;
        if g != *want {
            return Err(format!("described as {g:?}, expected {want:?}"));
        }
        if h.get_data_unit_byte_size() != data.len() as u64 {
            return Err(format!("data size {}, expected {}", h.get_data_unit_byte_size(), data.len()));
        }
        {
            let mut d = f.get_data(&h);
            let mut got = vec![];
            let step = [0usize, 1, 3, 80, 5000, 0][style];
            if step == 0 {
                d.read_to_end(&mut got).map_err(|e| format!("{e}"))?;
            } else {
                let mut buf = vec![0; step];
                loop {
                    let n = d.read(&mut buf).map_err(|e| format!("{e}"))?;
                    if n == 0 {
                        break;
                    }
                    got.extend_from_slice(&buf[..n]);
                }
            }
            if got != data {
                return Err(format!("{} bytes delivered in style {style}, differing from the {} bytes of the table", got.len(), data.len()));
            }
        }
        match f.next() {
            Some(Ok(HDU::XImage(_))) if tail => {}
            None if !tail => {}
            x => return Err(format!("after the table: {x:?}")),
        }
    }
    if deep {
        let mut f = AsyncFits::from_reader(futures::io::BufReader::with_capacity(50, futures::io::Cursor::new(bytes.to_vec())));
        futures::executor::block_on(async {
            f.next().await;
            let Some(Ok(AsyncHDU::XASCIITable(h))) = f.next().await else { return Err("async: the second HDU is not an ASCII table".to_string()) };
            let g = asc(h.get_header().get_xtension())?;
            if g != *want {
                return Err(format!("async: described as {g:?}, expected {want:?}"));
            }
            let mut got = vec![];
            let mut s = f.get_data(&h);
            while let Some(b) = s.next().await {
                got.push(b.map_err(|e| format!("{e}"))?[0]);
            }
            if got != data {
                return Err(format!("async: {} bytes delivered, differing from the {} bytes of the table", got.len(), data.len()));
            }
            Ok(())
        })?;
    }
    Ok(())
}

/// Every format text over a small alphabet, as the second of three columns.
fn formats(ch: &mut Ch) -> R {
    let al = ['A', 'I', 'F', 'E', 'D', 'G', '1', '0', '.', '9'];
    let max = if ch.thorough { 6 } else { 5 };
    let mut s = String::new();
    let n = ch.range(0, 1);
    for _ in 0..n {
        s.push(ch.pick(&al));
    }
    // the rest in a loop
    let rest = if n == 0 { 0 } else { max - 1 };
    let mut todo = vec![s.clone()];
    let mut level = vec![s.clone()];
    for _ in 0..rest {
        let mut next = vec![];
        for t in &level {
            // after the letter, only digits and dots (letters stay malformed: one of them suffices)
            for c in ['A', '1', '0', '.', '9'] {
                next.push(format!("{t}{c}"));
            }
        }
        todo.extend(next.iter().cloned());
        level = next;
    }
    if n == 1 {
        for t in ["12", "12.5", "8.3", "999", "20.12", " 5", "5.", ".5", "5.5.5", "5 ", "5,3", "-1", "5.3E2"] {
            todo.push(format!("{s}{t}"));
        }
    }
    ch.visit(&s);
    ch.say(|| format!("{} formats starting with {s:?}", todo.len()));
    for t in todo {
        ch.exec();
        let cards = ascii_cards(20, 2, &[(1, "A3".into()), (5, t.clone()), (9, "F8.3".into())]);
        let f = aform(&t);
        let mut want = Asc { w: 20, rows: 2, cols: 3, tb: vec![1], tf: vec![TFormAsciiTable::Character { w: 3 }] };
        if let Some(f) = f {
            want.tb.push(5);
            want.tf.push(f);
        }
        want.tb.push(9);
        want.tf.push(TFormAsciiTable::FloatingPointFixed { w: 8, d: 3 });
        let data = vec![b'7'; 40];
        check_ascii(&ascii_file(cards, &data, false), &want, &data, false, false).map_err(|e| format!("TFORM2 = {t:?}: {e}"))?;
    }
    Ok(())
}

/// Keywords that describe neither the layout nor the columns.
fn ascii_bystanders(ch: &mut Ch) -> R {
    use super::bystanders::{twist, choose, show, On};
    let tw = choose(ch, On::Ascii(3), true);
    let cols = [(1, "A3".to_string()), (5, "I4".to_string()), (10, "F6.2".to_string())];
    let data: Vec<u8> = (0..48).map(|i| b" NULL0123456789.+-Exyz"[i * 7 % 22]).collect();
    let mut h = H { kind: Kind::Ascii, cards: ascii_cards(16, 3, &cols), data: data.clone() };
    twist(&mut h, &tw);
    ch.say(|| format!("cards {:?}", tw.id));
    ch.visit(&tw.id);
    let want = Asc { w: 16, rows: 3, cols: 3, tb: vec![1, 5, 10], tf: cols.iter().map(|c| aform(&c.1).unwrap()).collect() };
    let bytes = ascii_file(h.cards, &data, true);
    check_ascii(&bytes, &want, &data, true, tw.id.1 == 0).map_err(|e| format!("with {}: {e}", show(&tw)))
}

/// An HDU is accepted, and described alike, whatever other keywords it has.
fn bystanders(ch: &mut Ch) -> R {
    use super::bystanders::{twist, in_sample, sample, show};
    let (j, tw) = in_sample(ch, true);
    let mut h = sample().swap_remove(j);
    let mut plain = header(&empty_primary().cards);
    plain.extend(header(&h.cards));
    plain.extend(vec![0; 2880]);
    let want = if j == 0 { sync_desc(&plain[2880..], 0) } else { sync_desc(&plain, 1) }?;
    twist(&mut h, &tw);
    ch.say(|| format!("HDU {j} cards {:?}", tw.id));
    ch.visit(&(j, tw.id));
    verdict(j == 0, &h.cards, &Accept(want), &|| format!("HDU {j} with {}", show(&tw)))
}

fn tables(ch: &mut Ch) -> R {
    let w = ch.pick(&[0usize, 1, 2, 7, 80, 95, 288, 2879, 2880, 2881]);
    let rows = ch.pick(&[0usize, 1, 2, 3, 10, 36]);
    let ncol = ch.pick(&[0usize, 1, 2, 3, 9, 99, 100, 999]);
    let tail = ch.flag();
    let fill = ch.choose(2);
    let forms = ["A1", "I5", "F10.3", "E15.7", "D25.17", "I11", "A48"];
    // in order, in reverse order, all the same, or the same by pairs
    let starts = if ncol > 1 { ch.choose(4) } else { 0 };
    let cols: Vec<(usize, String)> = (0..ncol)
        .map(|i| match starts {
            0 => (1 + 3 * i, i),
            1 => (3 * (ncol - i), i),
            2 => (4, 0),
            _ => (1 + i / 2, i / 2),
        })
        .map(|(b, k)| (b, forms[k % forms.len()].to_string()))
        .collect();
    let data: Vec<u8> = if fill == 0 { pat(w * rows, 3).iter().map(|b| b' ' + b % 95).collect() } else { pat(w * rows, 5) };
    ch.say(|| format!("rows of {w} bytes, {rows} rows, {ncol} columns"));
    ch.visit(&(w, rows, ncol, tail, fill, starts));
    let want = Asc { w: w as u64, rows: rows as u64, cols: ncol, tb: cols.iter().map(|c| c.0 as u64).collect(), tf: cols.iter().map(|c| aform(&c.1).unwrap()).collect() };
    check_ascii(&ascii_file(ascii_cards(w, rows, &cols), &data, tail), &want, &data, tail, true).map_err(|e| format!("rows of {w} bytes, {rows} rows, {ncol} columns (starts {starts}): {e}"))
}

/// Three columns, each complete or with one of its cards missing or malformed, in any order of cards.
fn columns(ch: &mut Ch) -> R {
    let good = [("I7", 2u64), ("E12.4", 10), ("D20.10", 25)];
    let mut cards = ascii_cards(50, 2, &[]);
    let n = cards.len();
    cards[n - 1] = int("TFIELDS", 3);
    let mut want = Asc { w: 50, rows: 2, cols: 3, tb: vec![], tf: vec![] };
    let mut what = vec![];
    let mut extra = vec![];
    for (i, (f, b)) in good.iter().enumerate() {
        let k = ch.choose(11);
        what.push(k);
        let (fk, bk) = (format!("TFORM{}", i + 1), format!("TBCOL{}", i + 1));
        let (fc, bc) = (st(&fk, f), int(&bk, *b as i128));
        match k {
            0 => extra.extend([bc, fc]),
            1 => extra.extend([fc, bc]),
            2 => extra.push(fc),
            3 => extra.push(bc),
            4 => extra.extend([st(&bk, "2"), fc]),
            5 => extra.extend([int(&bk, -2), fc]),
            6 => extra.extend([bc, int(&fk, 5)]),
            7 => extra.extend([bc, st(&fk, "J5")]),
            8 => extra.extend([bc, st(&fk, "I")]),
            9 => extra.extend([kv(&bk, "2.5"), fc]),
            _ => {}
        }
        if k < 2 {
            want.tb.push(*b);
            want.tf.push(aform(f).unwrap());
        }
    }
    if ch.flag() {
        extra.reverse();
    }
    cards.extend(extra);
    ch.visit(&what);
    ch.say(|| format!("column faults {what:?}"));
    let data: Vec<u8> = pat(100, 2);
    check_ascii(&ascii_file(cards, &data, true), &want, &data, true, false).map_err(|e| format!("column faults {what:?}: {e}"))
}

// ---------------------------------------------------------------------------------------------- C20

pub static C20: Prop = Prop {
    id: "C20",
    level: "model_checking",
    rule: "one execution = one header holding one stored value, asked for as every type of the menu (plain, optional, and as \
           a field of a structure); each answer compared with a reference conversion; state = (stored value, type)",
    assumptions: &["numbers asked as a floating-point type give the nearest value of that type; values that are not valid FITS (kept as text by the reader) and 128-bit integers are left open"],
    spaces: &[Space { name: "conversions", body: conversions }, Space { name: "structures", body: structures }],
};

#[derive(Clone, Debug, PartialEq)]
enum S {
    Absent,
    Undef,
    Int(i64),
    Float(f64),
    Log(bool),
    Str(String),
}
fn stored(ch: &mut Ch) -> (Vec<CardB>, S) {
    match ch.choose(6) {
        0 => (vec![int("OTHER", 3)], S::Absent),
        1 => (vec![raw(["KEY     =", "KEY     =                      / nothing"][ch.choose(2)])], S::Undef),
        2 => {
            let mut v = vec![0i64, 1, 2, 8, 65, 10, -1, 100];
            for b in [7u32, 8, 15, 16, 31, 32, 52, 53, 62] {
                for d in [-1i64, 0, 1] {
                    v.push((1i64 << b) + d);
                    v.push(-(1i64 << b) + d);
                }
            }
            v.extend([i64::MAX, i64::MIN, i64::MAX - 1, i64::MIN + 1]);
            let x = if ch.thorough && ch.flag() { ch.range(0, 70000) as i64 - 35000 } else { ch.pick(&v) };
            (vec![int("KEY", x as i128)], S::Int(x))
        }
        3 => {
            let (t, x) = ch.pick(&[("0.0", 0.0), ("-0.0", -0.0), ("1.0", 1.0), ("2.5", 2.5), ("-1.5E3", -1500.0), ("1.0D10", 1e10), ("1E300", 1e300), ("0.1", 0.1), ("16777217.0", 16777217.0), ("255.0", 255.0), ("1.0E-320", 1e-320), ("1.0E20", 1e20)]);
            (vec![kv("KEY", t)], S::Float(x))
        }
        4 => {
            let b = ch.flag();
            (vec![log("KEY", b)], S::Log(b))
        }
        _ if ch.flag() => {
            // a string over several records
            let n = ch.pick(&[66usize, 67, 68, 69, 130, 300]);
            let t: String = (0..n).map(|i| (b'a' + (i * 7 % 26) as u8) as char).collect();
            let mut c = vec![];
            for (k, p) in t.as_bytes().chunks(66).enumerate() {
                let p = String::from_utf8_lossy(p);
                let more = if 66 * (k + 1) < n { "&" } else { "" };
                c.push(raw(&format!("{}'{p}{more}'", if k == 0 { "KEY     = " } else { "CONTINUE  " })));
            }
            (c, S::Str(t))
        }
        _ => {
            let t = ch.pick(&["T", "12", "A", "", " ", "1.5", "true", "RED", "GREEN", "red", "abc def", "RED  x", "-7", "é"]);
            // trailing blanks are not significant, but an all-blank string is not an empty one
            let v = if t == " " { " ".to_string() } else { t.to_string() };
            let c = if t == "é" { st("KEY", "e") } else { raw(&format!("KEY     = '{t}'")) };
            (vec![c], S::Str(if t == "é" { "e".into() } else { v }))
        }
    }
}

#[derive(Deserialize, Debug, PartialEq)]
enum Colour {
    #[serde(rename = "RED")]
    Red,
    #[serde(rename = "GREEN")]
    Green,
}
#[derive(Deserialize, Debug)]
struct One<T> {
    #[serde(rename = "KEY")]
    key: T,
}

/// What the reference says: Some(Ok) value, Some(Err) must be refused, None left open.
trait Ref: Sized {
    fn conv(s: &S) -> Option<Result<Self, ()>>;
    fn eq(&self, o: &Self) -> bool;
}
macro_rules! ints {
    ($($t:ty)*) => {$(impl Ref for $t {
        fn conv(s: &S) -> Option<Result<Self, ()>> {
            Some(match s { S::Int(i) => <$t>::try_from(*i).map_err(|_| ()), _ => Err(()) })
        }
        fn eq(&self, o: &Self) -> bool { self == o }
    })*};
}
ints!(i8 i16 i32 i64 u8 u16 u32 u64 usize isize);
impl Ref for f64 {
    fn conv(s: &S) -> Option<Result<Self, ()>> {
        Some(match s {
            S::Int(i) => Ok(*i as f64),
            S::Float(f) => Ok(*f),
            _ => Err(()),
        })
    }
    fn eq(&self, o: &Self) -> bool {
        self.to_bits() == o.to_bits()
    }
}
impl Ref for f32 {
    fn conv(s: &S) -> Option<Result<Self, ()>> {
        Some(match s {
            S::Int(i) => Ok(*i as f32),
            S::Float(f) if f.abs() > f32::MAX as f64 => return None,
            S::Float(f) => Ok(*f as f32),
            _ => Err(()),
        })
    }
    fn eq(&self, o: &Self) -> bool {
        self.to_bits() == o.to_bits()
    }
}
impl Ref for bool {
    fn conv(s: &S) -> Option<Result<Self, ()>> {
        Some(match s {
            S::Log(b) => Ok(*b),
            _ => Err(()),
        })
    }
    fn eq(&self, o: &Self) -> bool {
        self == o
    }
}
impl Ref for String {
    fn conv(s: &S) -> Option<Result<Self, ()>> {
        Some(match s {
            S::Str(b) => Ok(b.clone()),
            _ => Err(()),
        })
    }
    fn eq(&self, o: &Self) -> bool {
        // blank strings: how many blanks are kept is not significant
        self == o || (!o.is_empty() && !self.is_empty() && self.trim().is_empty() && o.trim().is_empty())
    }
}
impl Ref for char {
    fn conv(s: &S) -> Option<Result<Self, ()>> {
        Some(match s {
            S::Str(b) if b.trim().is_empty() => return None,
            S::Str(b) if b.chars().count() == 1 => Ok(b.chars().next().unwrap()),
            _ => Err(()),
        })
    }
    fn eq(&self, o: &Self) -> bool {
        self == o
    }
}
impl Ref for Colour {
    fn conv(s: &S) -> Option<Result<Self, ()>> {
        Some(match s {
            S::Str(b) if b == "RED" => Ok(Colour::Red),
            S::Str(b) if b == "GREEN" => Ok(Colour::Green),
            _ => Err(()),
        })
    }
    fn eq(&self, o: &Self) -> bool {
        self == o
    }
}
impl Ref for fitsrs::hdu::header::Bitpix {
    fn conv(s: &S) -> Option<Result<Self, ()>> {
        use fitsrs::hdu::header::Bitpix::*;
        Some(match s {
            S::Int(8) => Ok(U8),
            S::Int(16) => Ok(I16),
            S::Int(32) => Ok(I32),
            S::Int(64) => Ok(I64),
            S::Int(-32) => Ok(F32),
            S::Int(-64) => Ok(F64),
            _ => Err(()),
        })
    }
    fn eq(&self, o: &Self) -> bool {
        self == o
    }
}
impl<T: Ref> Ref for Option<T> {
    fn conv(s: &S) -> Option<Result<Self, ()>> {
        match s {
            S::Absent | S::Undef => Some(Ok(None)),
            s => T::conv(s).map(|r| r.map(Some)),
        }
    }
    fn eq(&self, o: &Self) -> bool {
        match (self, o) {
            (None, None) => true,
            (Some(a), Some(b)) => a.eq(b),
            _ => false,
        }
    }
}

fn ask<T: Ref + Debug + for<'de> Deserialize<'de>>(h: &fitsrs::hdu::header::Header<Image>, s: &S) -> R {
    let ty = std::any::type_name::<T>();
    let judge = |how: &str, g: &Result<T, String>| -> R {
        match (g, &T::conv(s)) {
            (_, None) => Ok(()),
            (Err(_), Some(Err(()))) => Ok(()),
            (Ok(g), Some(Ok(w))) if g.eq(w) => Ok(()),
            (g, _) => Err(format!("{s:?} asked as {ty} ({how}): got {g:?}, expected {}", if matches!(T::conv(s), Some(Ok(_))) { "the value" } else { "an error" })),
        }
    };
    judge("lookup", &h.get_parsed::<T>("KEY").map_err(|e| format!("{e}")))?;
    judge("structure", &One::<T>::deserialize(h.into_deserializer()).map(|o| o.key).map_err(|e: fitsrs::error::Error| format!("{e}")))
}

fn with_header(cards: &[CardB], f: &mut dyn FnMut(&fitsrs::hdu::header::Header<Image>) -> R) -> R {
    let mut c = image_cards(Kind::Primary, 8, &[]);
    c.extend_from_slice(cards);
    let bytes = header(&c);
    let mut fits = Fits::from_reader(Cursor::new(bytes));
    let Some(Ok(HDU::Primary(h))) = fits.next() else { return Err("header refused".into()) };
    f(h.get_header())
}

fn conversions(ch: &mut Ch) -> R {
    let (cards, s) = stored(ch);
    ch.say(|| format!("{s:?}"));
    ch.visit(&format!("{s:?}"));
    let around = ch.choose(4);
    let mut cs = cards.clone();
    match around {
        // an older value of the same keyword does not count
        1 if s != S::Absent => cs.insert(0, st("KEY", "older")),
        // other names do not count
        3 => cs.extend([int("KE", 5), int("KEYS", 6), int("AKEY", 7), raw("key     =                    8"), raw("HIERARCH key = 9")]),
        2 => cs.extend([int("KEY1", 5), raw("COMMENT KEY     = 5")]),
        _ => {}
    }
    with_header(&cs, &mut |h| {
        macro_rules! all { ($($t:ty)*) => {$( ch.exec(); ask::<$t>(h, &s)?; ask::<Option<$t>>(h, &s)?; )*} }
        all!(i8 i16 i32 i64 u8 u16 u32 u64 usize isize f32 f64 bool String char Colour fitsrs::hdu::header::Bitpix);
        // names that are not there
        for k in ["key", "Key", "KEYX", "EY", "K", "HIERARCH KEY", "KEY=", "\0KEY"] {
            if around == 3 && k == "key" {
                continue;
            }
            let g = (h.get_parsed::<Option<i64>>(k), h.get_parsed::<Option<String>>(k), h.get_parsed::<Option<f32>>(k), h.get_parsed::<i64>(k).is_err(), h.get_parsed::<String>(k).is_err(), h.get(k).is_none());
            if !matches!(g, (Ok(None), Ok(None), Ok(None), true, true, true)) {
                return Err(format!("{s:?} is stored as KEY; the keyword {k:?}, which is absent, gives {g:?}"));
            }
        }
        Ok(())
    })
}

#[derive(Deserialize, Debug, PartialEq)]
struct Many {
    #[serde(rename = "AA")]
    a: i16,
    #[serde(rename = "BB")]
    b: Option<f64>,
    #[serde(rename = "CC", default)]
    c: u8,
    #[serde(rename = "DD")]
    d: Option<String>,
}

/// Structures with several fields agree with the lookup of each of them.
fn structures(ch: &mut Ch) -> R {
    let mut cards = vec![int("EXTRA", 1), st("MORE", "text"), raw("UNDEF   ="), raw("BADNUM  = 12x4")];
    let mut what = String::new();
    let mut model: Vec<Option<S>> = vec![];
    for k in ["AA", "BB", "CC", "DD"] {
        let v = ch.choose(8);
        what.push_str(&format!("{k}:{v} "));
        let (c, s) = match v {
            0 => (None, S::Absent),
            1 => (Some(int(k, 7)), S::Int(7)),
            2 => (Some(int(k, -7)), S::Int(-7)),
            3 => (Some(int(k, 70000)), S::Int(70000)),
            4 => (Some(kv(k, "2.5")), S::Float(2.5)),
            5 => (Some(st(k, "str")), S::Str("str".into())),
            6 => (Some(log(k, true)), S::Log(true)),
            _ => (Some(raw(&format!("{k:<8}="))), S::Undef),
        };
        if let Some(c) = c {
            cards.push(c);
        }
        model.push(Some(s));
    }
    if ch.flag() {
        cards.reverse();
    }
    ch.visit(&what);
    ch.say(|| what.clone());
    let m = |i: usize| model[i].clone().unwrap();
    let want = (|| {
        Some(Many {
            a: i16::conv(&m(0))?.ok()?,
            b: <Option<f64>>::conv(&m(1))?.ok()?,
            c: if m(2) == S::Absent { 0 } else { u8::conv(&m(2))?.ok()? },
            d: <Option<String>>::conv(&m(3))?.ok()?,
        })
    })();
    with_header(&cards, &mut |h| {
        let g = Many::deserialize(h.into_deserializer()).map_err(|e: fitsrs::error::Error| format!("{e}"));
        match (&g, &want) {
            (Ok(g), Some(w)) if g == w => {}
            (Err(_), None) => {}
            _ => return Err(format!("structure from {what}: {g:?}, expected {want:?}")),
        }
        // the lookups agree
        let l = (|| {
            Ok::<_, fitsrs::error::Error>(Many {
                a: h.get_parsed("AA")?,
                b: h.get_parsed("BB")?,
                c: if h.get("CC").is_none() { 0 } else { h.get_parsed("CC")? },
                d: h.get_parsed("DD")?,
            })
        })();
        match (&l, &want) {
            (Ok(g), Some(w)) if g == w => Ok(()),
            (Err(_), None) => Ok(()),
            _ => Err(format!("lookups from {what}: {l:?}, expected {want:?}")),
        }
    })
}
