//! C11 (fixed-size fields), C12 (column selection and row seeking), C13 (variable-length arrays).

use super::Prop;
use crate::engine::{Ch, Space, R};
use crate::gen::*;
use crate::obs::*;
use fitsrs::hdu::data::bintable::{ColumnId, TableData};
use fitsrs::hdu::header::extension::bintable::BinTable;
use fitsrs::hdu::HDU;
use fitsrs::Fits;
use std::fmt::Debug;
use std::io::{BufReader, Cursor, Read, Seek};

pub static C11: Prop = Prop {
    id: "C11",
    level: "model_checking",
    rule: "one execution = one table (column list x repeat counts x rows x content) read through one of the access \
           styles (values, rows, raw bytes) and one reader, compared with an independent decoder of the same bytes; \
           state = (column list, rows, content)",
    assumptions: &["columns fill the row exactly (NAXIS1 is the sum of the column widths)"],
    spaces: &[Space { name: "layouts", body: layouts }, Space { name: "values", body: values }, Space { name: "tform", body: tform }, Space { name: "wide", body: wide }, Space { name: "bystanders", body: bystanders }, Space { name: "huge_bytes", body: super::huge::c11_bytes },
        Space { name: "huge", body: super::huge::c11 }],
};

pub static C12: Prop = Prop {
    id: "C12",
    level: "model_checking",
    rule: "one execution = one sequence of select / seek / read value / read row operations on one table; model state = \
           (table, selection, row, column, item, ended); every sequence up to the depth bound is run on the real iterator, \
           each answer compared with the model, then the rest of the table and the next HDU are read",
    assumptions: &["rows are not read through the row iterator while no column is selected"],
    spaces: &[Space { name: "ops", body: ops }, Space { name: "subsets", body: subsets }, Space { name: "columns", body: columns }, Space { name: "tile_table", body: tile_table }, Space { name: "names", body: names }, Space { name: "huge", body: super::huge::c12 }],
};

pub static C13: Prop = Prop {
    id: "C13",
    level: "model_checking",
    rule: "one execution = one table with variable-length columns (descriptor size x element type x counts x offsets x \
           heap position x neighbouring columns) read by values and by rows and compared with an independent decoder; \
           state = the layout",
    assumptions: &["a descriptor that points outside the file: only values actually in the file may be delivered before the end"],
    spaces: &[Space { name: "arrays", body: arrays }, Space { name: "long", body: long }, Space { name: "outside", body: outside }, Space { name: "bystanders", body: array_bystanders }, Space { name: "huge", body: super::huge::c13 }],
};

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum F {
    Fix(char, usize),
    /// descriptor letter (P or Q), repeat count 0 or 1, element type
    Vla(char, usize, char),
}
pub const TY: [char; 11] = ['L', 'X', 'B', 'I', 'J', 'K', 'A', 'E', 'D', 'C', 'M'];

pub fn esize(t: char) -> usize {
    match t {
        'L' | 'X' | 'B' | 'A' => 1,
        'I' => 2,
        'J' | 'E' => 4,
        'K' | 'D' | 'C' => 8,
        'M' => 16,
        _ => unreachable!(),
    }
}
impl F {
    pub fn width(self) -> usize {
        match self {
            F::Fix('X', r) => r.div_ceil(8),
            F::Fix(t, r) => r * esize(t),
            F::Vla('P', r, _) => 8 * r,
            F::Vla(_, r, _) => 16 * r,
        }
    }
    pub fn form(self) -> String {
        match self {
            F::Fix(t, r) => format!("{r}{t}"),
            F::Vla(d, r, t) => format!("{r}{d}{t}(9)"),
        }
    }
}

fn u(b: &[u8]) -> u64 {
    b.iter().fold(0, |a, x| (a << 8) | *x as u64)
}
pub fn elem(t: char, b: &[u8]) -> V {
    match t {
        'L' => V::L(b[0] == b'T'),
        'X' => V::X(b[0]),
        'B' => V::B(b[0]),
        'A' => V::A(char::from_u32(b[0] as u32).unwrap()),
        'I' => V::I(u(b) as u16 as i16),
        'J' => V::J(u(b) as u32 as i32),
        'K' => V::K(u(b) as i64),
        'E' => V::E(u(b) as u32),
        'D' => V::D(u(b)),
        'C' => V::C(u(&b[..4]) as u32, u(&b[4..]) as u32),
        'M' => V::M(u(&b[..8]), u(&b[8..])),
        _ => unreachable!(),
    }
}
/// The cells of one field; `rest` is everything from the start of the data unit to the end of the file.
/// The flag tells whether the field is complete.
fn field(f: F, col: usize, at: usize, theap: usize, rest: &[u8]) -> (Vec<Cell>, bool) {
    let (t, n, mut o) = match f {
        F::Fix('X', r) => ('X', r.div_ceil(8) as u128, at as u128),
        F::Fix(t, r) => (t, r as u128, at as u128),
        F::Vla(_, 0, _) => return (vec![], true),
        F::Vla(d, _, t) => {
            let k = if d == 'P' { 4 } else { 8 };
            if at + 2 * k > rest.len() {
                return (vec![], false);
            }
            let n = u(&rest[at..at + k]) as u128;
            let o = u(&rest[at + k..at + 2 * k]) as u128;
            (t, if t == 'X' { n.div_ceil(8) } else { n }, theap as u128 + o)
        }
    };
    let mut v = vec![];
    let s = esize(t) as u128;
    for i in 0..n {
        if o + s > rest.len() as u128 {
            return (v, false);
        }
        v.push((Some(col), Some(i as usize), elem(t, &rest[o as usize..(o + s) as usize])));
        o += s;
    }
    (v, true)
}

pub struct Tab {
    pub cols: Vec<F>,
    pub rows: usize,
    /// fields[row][col]
    pub fields: Vec<Vec<(Vec<Cell>, bool)>>,
}
pub fn decode(cols: &[F], rows: usize, theap: usize, rest: &[u8]) -> Tab {
    let w: usize = cols.iter().map(|c| c.width()).sum();
    let fields = (0..rows)
        .map(|r| {
            let mut o = r * w;
            cols.iter()
                .enumerate()
                .map(|(i, c)| {
                    let x = field(*c, i, o, theap, rest);
                    o += c.width();
                    x
                })
                .collect()
        })
        .collect();
    Tab { cols: cols.to_vec(), rows, fields }
}
impl Tab {
    pub fn row(&self, r: usize) -> Vec<Cell> {
        self.fields[r].iter().flat_map(|f| f.0.clone()).collect()
    }
}

pub fn table(cols: &[F], names: bool, rows: usize, theap: Option<usize>, data: Vec<u8>) -> H {
    let w: usize = cols.iter().map(|c| c.width()).sum();
    let cs: Vec<_> = cols.iter().enumerate().map(|(i, c)| (c.form(), names.then(|| format!("N{}", i)))).collect();
    let mut cards = bintable_cards(w, rows, data.len() - w * rows, &cs);
    if let Some(t) = theap {
        cards.push(int("THEAP", t as i128));
    }
    H { kind: Kind::BinTable, cards, data }
}

/// A file with the table between two images: (bytes, offset of the table data).
pub fn around(h: H) -> (Vec<u8>, usize) {
    let f = file(&[image(Kind::Primary, 16, &[3], 4), h, image(Kind::Image, 8, &[5], 8)], 0x5A);
    (f.bytes, f.offs[1])
}

pub fn open<Rd: Read + Seek + Debug + 'static>(fits: &mut Fits<Rd>) -> Result<fitsrs::fits::HDU<BinTable>, String> {
    match fits.next() {
        Some(Ok(_)) => {}
        x => return Err(format!("primary HDU: {x:?}")),
    }
    match fits.next() {
        Some(Ok(HDU::XBinaryTable(h))) => Ok(h),
        x => Err(format!("table HDU: {x:?}")),
    }
}
pub fn close<Rd: Read + Seek + Debug + 'static>(fits: &mut Fits<Rd>) -> R {
    match fits.next() {
        Some(Ok(HDU::XImage(h))) => {
            let mut it = pxit(fits.get_data(&h).pixels());
            for w in pixels(8, &pat(5, 8)) {
                let g = it.next_px();
                if g != Some(w) {
                    return Err(format!("the HDU after the table reads {g:?}, expected {w:?}"));
                }
            }
            Ok(())
        }
        x => Err(format!("HDU after the table: {x:?}")),
    }
}

/// Read the whole table and compare. mode 0: values, 1: rows.
fn whole<Rd: Read + Seek + Debug + 'static>(mut fits: Fits<Rd>, t: &Tab, mode: usize) -> R {
    let h = open(&mut fits)?;
    {
        let x = h.get_header().get_xtension();
        if x.get_num_cols() != t.cols.len() || x.get_num_rows() != t.rows {
            return Err(format!("{} columns, {} rows announced; expected {}, {}", x.get_num_cols(), x.get_num_rows(), t.cols.len(), t.rows));
        }
        let td = fits.get_data(&h).table_data();
        if mode == 0 {
            values_of(td, t)?;
        } else {
            let width: usize = t.cols.iter().map(|c| c.width()).sum();
            if width > 0 {
                rows_of(td, t)?;
            }
        }
    }
    close(&mut fits)
}
fn values_of<Rd: Read + Seek + Debug>(mut td: TableData<Rd>, t: &Tab) -> R {
    for r in 0..t.rows {
        for f in &t.fields[r] {
            for w in &f.0 {
                let g = td.next().as_ref().map(cell);
                if g.is_none() && !f.1 {
                    return ends(&mut td, r);
                }
                if g.as_ref() != Some(w) {
                    return Err(format!("row {r}: got {g:?}, expected {w:?}"));
                }
            }
            if !f.1 {
                return ends(&mut td, r);
            }
        }
    }
    ends(&mut td, t.rows)
}
fn ends<Rd: Read + Seek + Debug>(td: &mut TableData<Rd>, r: usize) -> R {
    for _ in 0..2 {
        if let Some(g) = td.next() {
            return Err(format!("end expected at row {r}, got {:?}", cell(&g)));
        }
    }
    Ok(())
}
fn rows_of<Rd: Read + Seek + Debug>(td: TableData<Rd>, t: &Tab) -> R {
    let mut it = td.row_iter();
    for r in 0..t.rows {
        let bad = t.fields[r].iter().any(|f| !f.1);
        let g = it.next().map(|x| cell_list(&x));
        if bad {
            if g.is_some() {
                return Err(format!("row {r} has an array outside the file, but was delivered: {g:?}"));
            }
            break;
        }
        let w = t.row(r);
        if g.as_ref() != Some(&w) {
            return Err(format!("row {r}: got {g:?}, expected {w:?}"));
        }
    }
    for _ in 0..2 {
        if let Some(g) = it.next() {
            return Err(format!("end of rows expected, got {:?}", cell_list(&g)));
        }
    }
    Ok(())
}

fn all_styles(ch: &mut Ch, bytes: &[u8], off: usize, t: &Tab, len: usize) -> R {
    for mode in 0..2 {
        ch.exec();
        let tag = |e: String| format!("{} {:?} x {} rows: {e}", ["values:", "rows:"][mode], t.cols, t.rows);
        whole(Fits::from_reader(Cursor::new(bytes.to_vec())), t, mode).map_err(tag)?;
        whole(Fits::from_reader(BufReader::with_capacity(11, Cursor::new(bytes.to_vec()))), t, mode).map_err(tag)?;
        whole(Fits::from_reader(BufReader::new(Cursor::new(bytes.to_vec()))), t, mode).map_err(tag)?;
    }
    let mut fits = Fits::from_reader(Cursor::new(bytes.to_vec()));
    let h = open(&mut fits)?;
    let td = fits.get_data(&h).table_data();
    if td.raw_bytes() != &bytes[off..off + len] {
        return Err(format!("raw bytes of {:?} are not those of the data unit", t.cols));
    }
    let mut main = vec![];
    td.bytes().read_to_end(&mut main).map_err(|e| e.to_string())?;
    let w: usize = t.cols.iter().map(|c| c.width()).sum();
    if main != bytes[off..off + w * t.rows] {
        return Err(format!("bytes() of {:?} are not those of the main table", t.cols));
    }
    Ok(())
}

/// Keywords that say something of the values (scaling, null values, shapes, display), or nothing at all: the values are
/// those stored.
fn bystanders(ch: &mut Ch) -> R {
    use super::bystanders::*;
    // every type in the first and in the last column
    let a = ch.pick(&TY);
    let b = TY[(TY.iter().position(|t| *t == a).unwrap() + 3) % TY.len()];
    let cols = [F::Fix(a, 6), F::Fix('I', 1), F::Fix(b, 1)];
    let tw = choose(ch, On::Table(3), true);
    let rows = 3;
    let mut data = content(&cols, rows, 3);
    // the values named by the cards: 0, 255, -32768
    let w: usize = cols.iter().map(|c| c.width()).sum();
    for r in 0..rows {
        for (o, c) in [(r * w, cols[0]), ((r + 1) * w - cols[2].width(), cols[2])] {
            let F::Fix(t, _) = c else { continue };
            for e in data[o..o + c.width()].chunks_mut(esize(t)) {
                let x = [0i128, 255, -32768][r].to_be_bytes();
                e.copy_from_slice(&x[16 - e.len()..]);
            }
        }
    }
    let mut h = table(&cols, true, rows, None, data);
    twist(&mut h, &tw);
    let len = h.data.len();
    let (bytes, off) = around(h);
    let t = decode(&cols, rows, 0, &bytes[off..]);
    ch.say(|| format!("{a} {b} cards {:?}", tw.id));
    ch.visit(&(a, tw.id));
    all_styles(ch, &bytes, off, &t, len).map_err(|e| format!("with {}: {e}", show(&tw)))
}
/// As `bystanders`, for the elements of arrays.
fn array_bystanders(ch: &mut Ch) -> R {
    use super::bystanders::*;
    let t = ch.pick(&TY);
    let d = ch.pick(&['P', 'Q']);
    let cols = [F::Vla(d, 1, t), F::Fix('J', 1), F::Vla(d, 1, 'I')];
    let tw = choose(ch, On::Table(3), false);
    let rows = 3;
    let mut data = vec![];
    for r in 0..rows {
        data.extend(desc(d, [3u64, 0, 5][r], [7u64, 0, 0][r]));
        data.extend(pat(4, r));
        data.extend(desc(d, [2u64, 4, 1][r], [0u64, 30, 4][r]));
    }
    let theap = data.len();
    data.extend(vec![0; 20]);
    data.extend(pat(90, 3));
    let mut h = table(&cols, true, rows, None, data);
    twist(&mut h, &tw);
    let len = h.data.len();
    let (bytes, off) = around(h);
    let tab = decode(&cols, rows, theap, &bytes[off..]);
    ch.say(|| format!("{d}{t} cards {:?}", tw.id));
    ch.visit(&(d, t, tw.id));
    all_styles(ch, &bytes, off, &tab, len).map_err(|e| format!("with {}: {e}", show(&tw)))
}

fn fixcol(ch: &mut Ch) -> F {
    let t = ch.pick(&TY);
    let th = ch.thorough;
    let r = match t {
        'X' => ch.pick(if th { &[0usize, 1, 8, 9, 7, 16, 17, 64][..] } else { &[0usize, 1, 8, 9, 16][..] }),
        'A' => ch.pick(&[0usize, 1, 2, 5]),
        _ => ch.pick(&[0usize, 1, 2, 3]),
    };
    F::Fix(t, r)
}

/// Bytes in which logicals have all sorts of values.
fn content(cols: &[F], rows: usize, salt: usize) -> Vec<u8> {
    let w: usize = cols.iter().map(|c| c.width()).sum();
    let mut d = pat(w * rows, salt);
    for r in 0..rows {
        let mut o = r * w;
        for c in cols {
            if let F::Fix('L', n) = c {
                for i in 0..*n {
                    d[o + i] = [b'T', b'F', 0][(r + i + salt) % 3];
                }
            }
            o += c.width();
        }
    }
    d
}

fn layouts(ch: &mut Ch) -> R {
    let n = ch.range(0, 3);
    let cols: Vec<F> = (0..n).map(|_| fixcol(ch)).collect();
    let rows = if n < 3 || ch.thorough { ch.range(0, 3) } else { 2 };
    // bytes after the rows that no column refers to
    let rest = if n < 3 { ch.pick(&[0usize, 13]) } else { 0 };
    ch.say(|| format!("{cols:?} x {rows}, then {rest} bytes"));
    ch.visit(&(&cols, rows, rest));
    let mut data = content(&cols, rows, n);
    data.extend(pat(rest, 40));
    let len = data.len();
    let (bytes, off) = around(table(&cols, true, rows, None, data));
    let t = decode(&cols, rows, 0, &bytes[off..]);
    all_styles(ch, &bytes, off, &t, len)?;
    // names
    let mut fits = Fits::from_reader(Cursor::new(bytes));
    let h = open(&mut fits)?;
    let x = h.get_header().get_xtension();
    for i in 0..=n {
        let g = x.find_field_by_ttype(&format!("N{i}"));
        if g != (i < n).then_some(i) {
            return Err(format!("column N{i} found at {g:?}"));
        }
    }
    Ok(())
}

/// All byte values of the one-byte types, all 16-bit values, bit patterns of the others.
fn values(ch: &mut Ch) -> R {
    let t = ch.pick(&TY);
    let vertical = ch.flag();
    let s = esize(t);
    let data: Vec<u8> = match s {
        1 => (0..=255u8).collect(),
        2 => (0..=65535u16).flat_map(|x| x.to_be_bytes()).collect(),
        _ => {
            let mut v = vec![];
            let mut ps: Vec<u128> = vec![0, u128::MAX, 0x0102030405060708090a0b0c0d0e0f10, 0x7f800001, 0xff800000, 0x7ff0000000000001];
            for i in 0..8 * s {
                ps.push(1 << i);
                ps.push(!(1 << i));
            }
            for p in ps {
                v.extend_from_slice(&p.to_be_bytes()[16 - s..]);
            }
            v
        }
    };
    let n = data.len() / s;
    let (r, rows) = if vertical { (1, n) } else { (if t == 'X' { 8 * n } else { n }, 1) };
    let cols = vec![F::Fix(t, r)];
    ch.say(|| format!("all values of {t} {r} x {rows}"));
    ch.visit(&(t, r, rows));
    let len = data.len();
    let (bytes, off) = around(table(&cols, false, rows, None, data));
    let tab = decode(&cols, rows, 0, &bytes[off..]);
    all_styles(ch, &bytes, off, &tab, len)
}

/// Fields of many values, and tables of many columns (up to the 999 of the standard).
fn wide(ch: &mut Ch) -> R {
    let many = ch.flag();
    let cols: Vec<F> = if many {
        let n = ch.pick(&[99usize, 100, 255, 256, 257, 998, 999]);
        let t = ch.choose(12);
        (0..n).map(|i| F::Fix(if t < 11 { TY[t] } else { TY[i % 11] }, if i % 7 == 3 { 2 } else { 1 })).collect()
    } else {
        let t = ch.pick(&TY);
        let r = ch.pick(&[127usize, 128, 255, 256, 257, 4095, 8191, 8193, 65535, 65536, 70000]);
        let mut v = vec![F::Fix(t, r)];
        match ch.choose(3) {
            0 => {}
            1 => v.push(F::Fix('I', 1)),
            _ => v.insert(0, F::Fix('B', 300)),
        }
        v
    };
    let rows = 2;
    ch.say(|| format!("{} columns, first {:?} x {rows}", cols.len(), cols[0]));
    ch.visit(&cols);
    let data = content(&cols, rows, 3);
    let len = data.len();
    let (bytes, off) = around(table(&cols, true, rows, None, data));
    let t = decode(&cols, rows, 0, &bytes[off..]);
    all_styles(ch, &bytes, off, &t, len).map_err(|e| format!("{} columns, first {:?}: {}", cols.len(), cols[0], e.chars().take(300).collect::<String>()))?;
    let mut fits = Fits::from_reader(Cursor::new(bytes));
    let h = open(&mut fits)?;
    let x = h.get_header().get_xtension();
    for i in 0..=cols.len() {
        let g = x.find_field_by_ttype(&format!("N{i}"));
        if g != (i < cols.len()).then_some(i) {
            return Err(format!("column N{i} of {} found at {g:?}", cols.len()));
        }
    }
    Ok(())
}

/// A name that does not fit in one card.
const LONG: &str = "A_COLUMN_WITH_A_VERY_LONG_NAME_WHICH_DOES_NOT_FIT_IN_ONE_CARD_OF_A_HEADER_AND_MUST_BE_CONTINUED";

/// Spellings of TFORM, names missing or repeated.
fn tform(ch: &mut Ch) -> R {
    let t = ch.pick(&TY);
    let forms: [(&str, usize, &str); 7] = [("", 1, ""), ("1", 1, ""), ("01", 1, ""), ("2", 2, " "), ("003", 3, ""), ("12", 12, "4"), ("10", 10, "w")];
    let (pre, r, suf) = ch.pick(&forms);
    let second = ch.pick(&TY);
    let form = format!("{pre}{t}{suf}");
    let form2 = second.to_string();
    let names = ch.choose(8);
    let nm: [Option<&str>; 2] = [
        [None, None],
        [Some("FLUX"), None],
        [None, Some("FLUX")],
        [Some("FLUX"), Some("FLUX")],
        [Some("FLUX_ERR"), Some("FLUX")],
        [Some("FLU"), Some("FLUX")],
        [Some(""), Some("FLUX")],
        [Some(LONG), Some("FLUX")],
    ][names];
    let cols = vec![F::Fix(t, r), F::Fix(second, 1)];
    let w: usize = cols.iter().map(|c| c.width()).sum();
    let data = content(&cols, 2, 5);
    let len = data.len();
    let cs = vec![(form.clone(), nm[0].map(|n| if n == LONG { "FLUX".into() } else { n.to_string() })), (form2, nm[1].map(String::from))];
    let mut h = H { kind: Kind::BinTable, cards: bintable_cards(w, 2, 0, &cs), data };
    if nm[0] == Some(LONG) {
        let i = h.cards.iter().position(|c| c.starts_with(b"TTYPE1  ")).unwrap();
        h.cards[i] = raw(&format!("TTYPE1  = '{}&'", &LONG[..60]));
        h.cards.insert(i + 1, raw(&format!("CONTINUE  '{}'", &LONG[60..])));
    }
    ch.say(|| format!("TFORM1 = {form:?}, TFORM2 = {second}, names {nm:?}"));
    ch.visit(&(t, pre, suf, second, names));
    let (bytes, off) = around(h);
    let tab = decode(&cols, 2, 0, &bytes[off..]);
    all_styles(ch, &bytes, off, &tab, len).map_err(|e| format!("TFORM1 = {form:?}: {e}"))?;
    let mut fits = Fits::from_reader(Cursor::new(bytes));
    let h = open(&mut fits)?;
    let x = h.get_header().get_xtension();
    for name in ["FLUX", "FLU", "FLUXX", "FLUX_ERR", LONG, &LONG[..60]] {
        let (g, w) = (x.find_field_by_ttype(name), nm.iter().position(|n| *n == Some(name)));
        if g != w {
            return Err(format!("names {nm:?}: {name:?} found at {g:?}, expected {w:?}"));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------- C12

#[derive(Clone, Copy, Debug)]
enum Op {
    Next,
    Row,
    Seek(usize),
    Sel(usize),
}
#[derive(Clone, Copy, Debug)]
enum Cid {
    I(usize),
    N(&'static str),
}
use Cid::*;
const SELS: [&[Cid]; 13] = [
    &[I(0)],
    &[I(1)],
    &[I(2)],
    &[I(2), I(0)],
    &[I(1), I(2)],
    &[I(1), I(1)],
    &[I(0), I(1), I(2), I(3)],
    &[N("N1")],
    &[N("N2"), N("NOPE"), I(99)],
    &[],
    &[N("N0"), I(0)],
    &[I(3)],
    &[N("COMPRESSED_DATA")],
];

struct Case {
    cols: Vec<F>,
    rows: usize,
    data: Vec<u8>,
}
pub fn desc(k: char, n: u64, o: u64) -> Vec<u8> {
    if k == 'P' {
        [(n as u32).to_be_bytes(), (o as u32).to_be_bytes()].concat()
    } else {
        [n.to_be_bytes(), o.to_be_bytes()].concat()
    }
}
fn case(k: usize) -> Case {
    match k {
        0 => {
            let cols = vec![F::Fix('J', 1), F::Fix('I', 2), F::Fix('B', 3)];
            Case { data: content(&cols, 3, 1), cols, rows: 3 }
        }
        1 => {
            let cols = vec![F::Fix('I', 1), F::Vla('P', 1, 'J'), F::Fix('A', 2)];
            let mut d = vec![];
            for (i, (n, o)) in [(2u64, 4u64), (0, 0), (1, 0)].iter().enumerate() {
                d.extend(pat(2, 20 + i));
                d.extend(desc('P', *n, *o));
                d.extend(pat(2, 30 + i));
            }
            d.extend(pat(12, 7));
            Case { data: d, cols, rows: 3 }
        }
        2 => {
            let cols = vec![F::Vla('P', 1, 'B'), F::Vla('Q', 1, 'I')];
            let mut d = vec![];
            for (a, b) in [((1u64, 5u64), (2u64, 0u64)), ((0, 0), (1, 4))] {
                d.extend(desc('P', a.0, a.1));
                d.extend(desc('Q', b.0, b.1));
            }
            d.extend(pat(6, 9));
            Case { data: d, cols, rows: 2 }
        }
        3 => {
            let cols = vec![F::Fix('J', 0), F::Fix('L', 1), F::Fix('X', 9), F::Fix('D', 1)];
            Case { data: content(&cols, 2, 2), cols, rows: 2 }
        }
        4 => Case { cols: vec![F::Fix('J', 1), F::Fix('I', 1)], rows: 0, data: vec![] },
        // an array column that cannot be read: fine as long as it is not selected
        5 => {
            let cols = vec![F::Fix('I', 1), F::Vla('P', 1, 'J'), F::Fix('B', 1)];
            let mut d = vec![];
            for i in 0..2 {
                d.extend(pat(2, 20 + i));
                d.extend(desc('P', 3, 0x4000_0000));
                d.extend(pat(1, 30 + i));
            }
            Case { data: d, cols, rows: 2 }
        }
        _ => {
            let cols = vec![F::Fix('E', 1)];
            Case { data: content(&cols, 1, 2), cols, rows: 1 }
        }
    }
}

#[derive(Clone)]
struct Model<'a> {
    t: &'a Tab,
    sel: Vec<usize>,
    row: usize,
    col: usize,
    item: usize,
    pend: bool,
}
impl Model<'_> {
    fn skip_zero(t: &Tab, s: Vec<usize>) -> Vec<usize> {
        s.into_iter().filter(|c| t.cols[*c].width() > 0).collect()
    }
    fn end(&mut self) {
        self.row = self.t.rows;
        self.col = 0;
        self.item = 0;
    }
    fn start(&mut self) {
        if self.pend {
            self.pend = false;
            self.col = 0;
            self.item = 0;
        }
    }
    fn over(&self) -> bool {
        self.row >= self.t.rows || self.sel.is_empty()
    }
    fn adv_col(&mut self) {
        self.item = 0;
        self.col += 1;
        if self.col == self.sel.len() {
            self.col = 0;
            self.row += 1;
        }
    }
    fn next(&mut self) -> Option<Cell> {
        self.start();
        loop {
            if self.over() {
                self.end();
                return None;
            }
            let f = &self.t.fields[self.row][self.sel[self.col]];
            if self.item < f.0.len() {
                let c = f.0[self.item].clone();
                self.item += 1;
                if self.item == f.0.len() && f.1 {
                    self.adv_col();
                }
                return Some(c);
            }
            if !f.1 {
                self.end();
                return None;
            }
            self.adv_col();
        }
    }
    fn rest_of_row(&mut self) -> Option<Vec<Cell>> {
        self.start();
        if self.over() {
            self.end();
            return None;
        }
        let mut v = vec![];
        let r = self.row;
        while self.row == r {
            let f = &self.t.fields[r][self.sel[self.col]];
            if !f.1 {
                self.end();
                return None;
            }
            v.extend_from_slice(&f.0[self.item..]);
            self.adv_col();
        }
        Some(v)
    }
}

fn run_ops<Rd: Read + Seek + Debug + 'static>(mut fits: Fits<Rd>, ch: &mut Ch, k: usize, rd: usize, t: &Tab, names: &[String]) -> R {
    let h = open(&mut fits)?;
    let depth = if k >= 100 { 2 } else { 4 } + ch.thorough as usize;
    let mut hist = vec![];
    {
        let mut td = Some(fits.get_data(&h).table_data());
        let mut m = Model { t, sel: Model::skip_zero(t, (0..t.cols.len()).collect()), row: 0, col: 0, item: 0, pend: false };
        for d in 0..depth {
            // next, row, seek to every row and two beyond, every selection
            let nsel = if names.iter().any(|n| n == "COMPRESSED_DATA") { SELS.len() } else { SELS.len() - 1 };
            let o = ch.choose(2 + t.rows + 2 + nsel);
            let op = match o {
                0 => Op::Next,
                1 => Op::Row,
                o if o < 2 + t.rows + 1 => Op::Seek(o - 2),
                o if o == 2 + t.rows + 1 => Op::Seek(usize::MAX),
                o => Op::Sel(o - 2 - t.rows - 2),
            };
            ch.step();
            hist.push(op);
            let bad = |g: String, w: String| Err(format!("{:?} x {} rows, ops {hist:?}: got {g}, expected {w}", t.cols, t.rows));
            match op {
                Op::Next => {
                    let g = td.as_mut().unwrap().next().as_ref().map(cell);
                    let w = m.next();
                    if g != w {
                        return bad(format!("{g:?}"), format!("{w:?}"));
                    }
                }
                Op::Row => {
                    if m.sel.is_empty() {
                        continue;
                    }
                    let mut it = td.take().unwrap().row_iter();
                    let g = it.next().map(|x| cell_list(&x));
                    let (n, cols) = (it.get_row_idx(), it.get_ctx().get_num_cols());
                    td = Some(it.table_data());
                    let w = m.rest_of_row();
                    if g.is_some() && n != m.row || cols != t.cols.len() {
                        return bad(format!("row number {n}, {cols} columns"), format!("{} after this row, {} columns", m.row, t.cols.len()));
                    }
                    if g != w {
                        return bad(format!("{g:?}"), format!("{w:?}"));
                    }
                }
                Op::Seek(r) => {
                    let g = td.as_mut().unwrap().seek_to_row(r).is_ok();
                    let w = r < t.rows;
                    if g != w {
                        return bad(format!("{g}"), format!("{w}"));
                    }
                    if w {
                        m.pend = false;
                        m.row = r;
                        m.col = 0;
                        m.item = 0;
                    }
                }
                Op::Sel(s) => {
                    let ids: Vec<ColumnId> = SELS[s]
                        .iter()
                        .map(|c| match c {
                            I(i) => ColumnId::Index(*i),
                            N(n) => ColumnId::Name(n),
                        })
                        .collect();
                    td.as_mut().unwrap().select_fields(&ids);
                    let mut w: Vec<usize> = (0..t.cols.len())
                        .filter(|i| {
                            SELS[s].iter().any(|c| match c {
                                I(j) => i == j,
                                N(n) => *n == names[*i],
                            })
                        })
                        .collect();
                    w = Model::skip_zero(t, w);
                    m.sel = w;
                    m.pend = true;
                    // a position inside the old selection means nothing in the new one
                    m.col = 0;
                    m.item = 0;
                }
            }
            ch.visit(&(k, rd, d == depth, &m.sel, m.row, m.col, m.item, m.pend));
        }
        // what remains
        let mut td = td.unwrap();
        for _ in 0..60 {
            let g = td.next().as_ref().map(cell);
            let w = m.next();
            if g != w {
                return Err(format!("{:?} x {} rows, ops {hist:?} then to the end: got {g:?}, expected {w:?}", t.cols, t.rows));
            }
            if w.is_none() {
                break;
            }
        }
        ch.say(|| format!("table {k} reader {rd} {hist:?}"));
    }
    close(&mut fits).map_err(|e| format!("{:?}, ops {hist:?}: {e}", t.cols))
}

thread_local! {
    static CASES: Vec<(Vec<u8>, Tab)> = (0..7)
        .map(|k| {
            let c = case(k);
            let w: usize = c.cols.iter().map(|c| c.width()).sum();
            let (bytes, off) = around(table(&c.cols, true, c.rows, None, c.data));
            let t = decode(&c.cols, c.rows, w * c.rows, &bytes[off..]);
            (bytes, t)
        })
        .collect();
}

fn ops(ch: &mut Ch) -> R {
    let k = ch.choose(7);
    let rd = ch.choose(2);
    CASES.with(|cs| {
        let (bytes, t) = &cs[k];
        let names: Vec<String> = (0..t.cols.len()).map(|i| format!("N{i}")).collect();
        match rd {
            0 => run_ops(Fits::from_reader(Cursor::new(bytes.clone())), ch, k, rd, t, &names),
            _ => run_ops(Fits::from_reader(BufReader::with_capacity(9, Cursor::new(bytes.clone()))), ch, k, rd, t, &names),
        }
    })
}

/// The table of a tile-compressed image, read as a table: its arrays are delivered as their descriptors, everything
/// else as in any table; then the sequences of operations of `ops` on it.
fn tile_table(ch: &mut Ch) -> R {
    let k = ch.choose(6);
    let cols: Vec<F> = match k {
        0 => vec![F::Vla('P', 1, 'B')],
        1 => vec![F::Fix('I', 2), F::Vla('Q', 1, 'B'), F::Fix('D', 1)],
        2 => vec![F::Vla('P', 1, 'B'), F::Vla('P', 1, 'E'), F::Fix('A', 3)],
        3 => vec![F::Fix('D', 1), F::Fix('D', 1), F::Vla('P', 1, 'B'), F::Fix('J', 0)],
        4 => vec![F::Vla('Q', 1, 'I'), F::Fix('X', 9), F::Vla('P', 1, 'B')],
        _ => vec![F::Fix('L', 1), F::Vla('P', 1, 'B')],
    };
    let zbitpix = ch.pick(&[8i64, 16, 32, -32, -64]);
    let gzip = ch.flag();
    let tile = cols.iter().rposition(|c| matches!(c, F::Vla(_, _, 'B'))).unwrap();
    let names: Vec<String> = (0..cols.len()).map(|i| if i == tile { "COMPRESSED_DATA".into() } else { format!("N{i}") }).collect();
    let rows = 3;
    let px = [1i64, 3, 2, 5, 4, 7];
    let mut heap = vec![];
    let mut data = vec![];
    let mut fields = vec![];
    for r in 0..rows {
        let mut row = vec![];
        for (i, c) in cols.iter().enumerate() {
            let at = data.len();
            row.push(match c {
                F::Fix(..) => {
                    data.extend(pat(c.width(), 5 * r + i));
                    field(*c, i, at, 0, &data)
                }
                F::Vla(d, _, _) => {
                    // the tile, or anything: empty arrays, arrays past the end of the heap
                    let (n, o) = if i == tile {
                        let e = super::tiles::encode(&px[2 * r..2 * r + 2], if gzip { super::tiles::Cmp::Gz1(4) } else { super::tiles::Cmp::Rice(4, 16) });
                        heap.extend_from_slice(&e);
                        (e.len() as u64, (heap.len() - e.len()) as u64)
                    } else {
                        [(0u64, 0u64), (2, 1), (0x7FFF_FFFF, 0xFFFF_FFFF)][r]
                    };
                    data.extend(desc(*d, n, o));
                    (vec![(None, None, if *d == 'P' { V::P(n as u32, o as u32) } else { V::Q(n, o) })], true)
                }
            });
        }
        fields.push(row);
    }
    let main = data.len();
    data.extend(heap);
    let mut h = table(&cols, true, rows, None, data);
    let cs: Vec<_> = cols.iter().zip(&names).map(|(c, n)| (c.form(), Some(n.clone()))).collect();
    h.cards = bintable_cards(main / rows, rows, h.data.len() - main, &cs);
    h.cards.push(log("ZIMAGE", true));
    h.cards.push(int("ZBITPIX", zbitpix as i128));
    h.cards.push(int("ZNAXIS", 2));
    h.cards.push(int("ZNAXIS1", 2));
    h.cards.push(int("ZNAXIS2", 3));
    h.cards.push(st("ZCMPTYPE", if gzip { "GZIP_1" } else { "RICE_1" }));
    if zbitpix < 0 {
        h.cards.push(kv("ZSCALE", "0.5"));
        h.cards.push(kv("ZZERO", "1.0"));
    }
    let len = h.data.len();
    let (bytes, off) = around(h);
    let t = Tab { cols, rows, fields };
    ch.say(|| format!("tile table {k} ZBITPIX {zbitpix} gzip {gzip}"));
    {
        let mut fits = Fits::from_reader(Cursor::new(bytes.clone()));
        let h = open(&mut fits)?;
        if !matches!(fits.get_data(&h), fitsrs::hdu::data::bintable::data::BinaryTableData::TileCompressed(_)) {
            return Err(format!("{:?} ZBITPIX {zbitpix}: not taken for a tile-compressed image", t.cols));
        }
    }
    let direct = ch.choose(3);
    if direct == 0 {
        all_styles(ch, &bytes, off, &t, len)?;
        // the rows, straight from the data of the HDU
        let mut fits = Fits::from_reader(Cursor::new(bytes.clone()));
        let h = open(&mut fits)?;
        {
            let mut it = fits.get_data(&h).row_iter();
            for r in 0..rows {
                let g = it.next().map(|x| cell_list(&x));
                if g.as_ref() != Some(&t.row(r)) {
                    return Err(format!("{:?}: row {r} of the tile table: got {g:?}, expected {:?}", t.cols, t.row(r)));
                }
            }
            if it.next().is_some() {
                return Err(format!("{:?}: more rows than {rows}", t.cols));
            }
        }
        return close(&mut fits);
    }
    match direct {
        1 => run_ops(Fits::from_reader(Cursor::new(bytes)), ch, 100 + k, 0, &t, &names),
        _ => run_ops(Fits::from_reader(BufReader::with_capacity(9, Cursor::new(bytes))), ch, 100 + k, 1, &t, &names),
    }
}

/// Every subset of the columns of a wider table, in several spellings, from every row.
/// Values, rows and jumps around a fault: the source ends or fails (for ever, once) at a byte of the data unit. What is
/// delivered is what the model delivers; nothing is refused before the fault is met.
pub fn faults(ch: &mut Ch) -> R {
    let k = ch.choose(4);
    let kind = ch.choose(5);
    CASES.with(|cs| {
        let (bytes, t) = &cs[k];
        let len = case(k).data.len();
        let off = bytes.len() - 2 * 2880 - len.next_multiple_of(2880);
        let n = if kind < 3 { ch.range(0, len) } else { ch.choose(9) };
        let rd = ch.choose(2);
        let mut src = crate::walk::Src::new(std::sync::Arc::new(if kind == 0 { bytes[..off + n].to_vec() } else { bytes.clone() }));
        if kind > 2 {
            src.fail_seek = Some(n);
            src.once = kind == 4;
        } else if kind > 0 {
            src.fail_at = Some((off + n) as u64);
            src.once = kind == 2;
        }
        let sf = src.seek_failed.clone();
        let sound = kind < 3 && n == len;
        match rd {
            0 => faults_on(Fits::from_reader(src), ch, k, t, sound, (n, kind, rd), &sf),
            _ => faults_on(Fits::from_reader(BufReader::with_capacity(9, src)), ch, k, t, sound, (n, kind, rd), &sf),
        }
        .map_err(|e| format!("{:?}, source {} at byte (or seek) {n} of the data unit: {e}", t.cols, ["ending", "failing for ever", "failing once", "no more seeking", "refusing one seek"][kind]))
    })
}

fn faults_on<Rd: Read + Seek + Debug + 'static>(mut fits: Fits<Rd>, ch: &mut Ch, k: usize, t: &Tab, sound: bool, id: (usize, usize, usize), sf: &std::sync::atomic::AtomicBool) -> R {
    let h = open(&mut fits);
    if sf.load(std::sync::atomic::Ordering::Relaxed) && h.is_err() {
        return Ok(());
    }
    let h = h?;
    let mut hist = vec![];
    let mut td = Some(fits.get_data(&h).table_data());
    let mut m = Model { t, sel: Model::skip_zero(t, (0..t.cols.len()).collect()), row: 0, col: 0, item: 0, pend: false };
    // a jump that failed may have put an array back to its start
    let mut alt: Option<Model> = None;
    for _ in 0..if ch.thorough { 5 } else { 4 } {
        let o = ch.choose(2 + t.rows);
        ch.step();
        hist.push(o as isize - 2);
        let ok = sound || id.1 > 2 && !sf.load(std::sync::atomic::Ordering::Relaxed);
        let before = m.clone();
        let (g, w) = match o {
            0 => (td.as_mut().unwrap().next().as_ref().map(|c| vec![cell(c)]), m.next().map(|c| vec![c])),
            1 => {
                let mut it = td.take().unwrap().row_iter();
                let g = it.next().map(|x| cell_list(&x));
                td = Some(it.table_data());
                (g, m.rest_of_row())
            }
            r => {
                let g = td.as_mut().unwrap().seek_to_row(r - 2).is_ok();
                if g {
                    m.row = r - 2;
                    m.col = 0;
                    m.item = 0;
                    alt = None;
                } else if sound || id.1 > 2 && !sf.load(std::sync::atomic::Ordering::Relaxed) {
                    return Err(format!("ops {hist:?} (-2 = value, -1 = row): jump refused"));
                } else if id.1 > 2 {
                    alt = Some(Model { item: 0, ..m.clone() });
                }
                continue;
            }
        };
        let ok = ok && (id.1 < 3 || !sf.load(std::sync::atomic::Ordering::Relaxed));
        if g.is_none() && !ok {
            // refused because of the fault: what comes next, if anything, is what was refused
            if w.is_some() {
                m = before;
            }
        } else if g != w && alt.is_some() {
            m = alt.take().unwrap();
            let w = if o == 0 { m.next().map(|c| vec![c]) } else { m.rest_of_row() };
            if g != w {
                return Err(format!("ops {hist:?} (-2 = value, -1 = row): got {g:?}, expected {w:?}"));
            }
        } else if g != w {
            return Err(format!("ops {hist:?} (-2 = value, -1 = row): got {g:?}, expected {w:?}"));
        }
        if g.is_some() {
            alt = None;
        }
        ch.visit(&(k, id, m.row, m.col, m.item));
    }
    ch.say(|| format!("table {k} fault {id:?} ops {hist:?}"));
    Ok(())
}

/// Tables of many columns: pairs of columns, by position or name, up to the last one and beyond.
fn columns(ch: &mut Ch) -> R {
    let n = ch.pick(&[130usize, 257, 300, 999]);
    let mix = ch.flag();
    let cols: Vec<F> = (0..n).map(|i| F::Fix(if mix { TY[i % 11] } else { 'I' }, if i % 7 == 3 { 2 } else { 1 })).collect();
    let mut idx: Vec<usize> = [0usize, 1, 98, 99, 100, 126, 127, 128, 129, 254, 255, 256, 257, 298, 997].iter().copied().filter(|i| *i < n).collect();
    idx.extend([n - 1, n]);
    idx.dedup();
    let (a, b) = (ch.pick(&idx), ch.pick(&idx));
    let spelling = ch.choose(3);
    let mode = ch.choose(2);
    let names = [format!("N{a}"), format!("N{b}")];
    let ids: Vec<ColumnId> = match spelling {
        0 => vec![ColumnId::Index(a), ColumnId::Index(b)],
        1 => names.iter().map(|n| ColumnId::Name(n.clone().leak())).collect(),
        _ => vec![ColumnId::Name(names[0].clone().leak()), ColumnId::Index(b)],
    };
    let rows = 3;
    let (bytes, off) = around(table(&cols, true, rows, None, content(&cols, rows, 3)));
    let t = decode(&cols, rows, 0, &bytes[off..]);
    let mut sel: Vec<usize> = vec![a, b].into_iter().filter(|i| *i < n).collect();
    sel.sort_unstable();
    sel.dedup();
    ch.say(|| format!("{n} columns, select {a} and {b}, spelling {spelling}, mode {mode}"));
    ch.visit(&(n, mix, a, b, spelling, mode));
    if mode == 1 && sel.is_empty() {
        return Ok(());
    }
    for start in [0, 2] {
        let s = Subset { t: &t, ids: &ids, ids2: None, sel: &sel, start, before: start, mode };
        ch.exec();
        s.run(Fits::from_reader(Cursor::new(bytes.clone()))).map_err(|e| format!("{n} columns, select {a} and {b}, spelling {spelling}, mode {mode}: {e}"))?;
    }
    Ok(())
}

/// Columns found and selected under names of all sorts: prefixes of each other, blanks, quotes, names longer than a card.
fn names(ch: &mut Ch) -> R {
    let long = "L".repeat(67) + "0";
    let longer = |c: char| "M".repeat(70) + &c.to_string();
    let all: Vec<String> = ["N1", "N10", "N", "A B", "A", " A", "it's", "END", "A&", "TFORM1", "X_1-2/3"].iter().map(|s| s.to_string()).chain([long, longer('1'), longer('2')]).collect();
    let mut left: Vec<usize> = (0..all.len()).collect();
    let mut pick = vec![];
    for _ in 0..3 {
        pick.push(left.remove(ch.choose(left.len())));
    }
    // a column without a name among them
    let blank = ch.choose(4);
    let set = ch.choose(8);
    let cols = [F::Fix('I', 1), F::Fix('B', 2), F::Fix('J', 1)];
    let rows = 2;
    let mut h = table(&cols, false, rows, None, content(&cols, rows, 3));
    // a fourth column without a usable format, it takes no room
    let fourth = ch.choose(3);
    if fourth > 0 {
        let c = h.cards.iter_mut().find(|c| c.starts_with(b"TFIELDS ")).unwrap();
        *c = int("TFIELDS", 4);
        h.cards.push(st("TTYPE4", "M"));
    }
    if fourth > 1 {
        h.cards.push(st("TFORM4", "1Z"));
    }
    for (i, p) in pick.iter().enumerate() {
        if i == blank {
            continue;
        }
        let k = format!("TTYPE{}", i + 1);
        let n = all[*p].replace('\'', "''");
        if n.len() > 68 {
            h.cards.push(raw(&format!("{k:<8}= '{}&'", &n[..60])));
            h.cards.push(raw(&format!("CONTINUE  '{}'", &n[60..])));
        } else {
            h.cards.push(raw(&format!("{k:<8}= '{n}'")));
        }
    }
    let (bytes, off) = around(h);
    let t = decode(&cols, rows, 0, &bytes[off..]);
    let sel: Vec<usize> = (0..3).filter(|i| set >> i & 1 == 1 && *i != blank).collect();
    // asked for in reverse order, the nameless one and an unknown one included
    let mut ids: Vec<ColumnId> = (0..3).rev().filter(|i| set >> i & 1 == 1).map(|i| ColumnId::Name(all[pick[i]].clone().leak())).collect();
    ids.push(ColumnId::Name("M"));
    ids.push(ColumnId::Index(3));
    ids.push(ColumnId::Index(4));
    ch.say(|| format!("names {pick:?}, blank {blank}, fourth {fourth}, select {set:03b}"));
    ch.visit(&(&pick, blank, set, fourth));
    let tag = |e: String| format!("names {:?}, column {blank} without, fourth column {fourth}, select {ids:?}: {e}", pick.iter().map(|p| &all[*p]).collect::<Vec<_>>());
    {
        let mut fits = Fits::from_reader(Cursor::new(bytes.clone()));
        let h = open(&mut fits)?;
        for (p, n) in all.iter().enumerate() {
            let w = pick.iter().position(|q| *q == p).filter(|i| *i != blank);
            let g = h.get_header().get_xtension().find_field_by_ttype(n);
            if g != w {
                return Err(tag(format!("{n:?} is found at {g:?}, expected {w:?}")));
            }
        }
    }
    for mode in 0..2 {
        if mode == 1 && sel.is_empty() {
            continue;
        }
        ch.exec();
        let s = Subset { t: &t, ids: &ids, ids2: None, sel: &sel, start: 0, before: 1, mode };
        s.run(Fits::from_reader(Cursor::new(bytes.clone()))).map_err(tag)?;
    }
    Ok(())
}

fn subsets(ch: &mut Ch) -> R {
    let k = ch.choose(4);
    let cols: Vec<F> = match k {
        0 => vec![F::Fix('J', 1), F::Fix('B', 3), F::Fix('D', 1), F::Fix('A', 5), F::Fix('I', 2), F::Fix('C', 1)],
        1 => vec![F::Fix('X', 9), F::Fix('E', 0), F::Fix('L', 1), F::Fix('M', 1), F::Fix('K', 0), F::Fix('X', 3)],
        2 => vec![F::Vla('P', 1, 'I'), F::Fix('J', 1), F::Vla('Q', 1, 'D'), F::Fix('B', 1), F::Vla('P', 0, 'B'), F::Vla('P', 1, 'A')],
        _ => vec![F::Fix('B', 1), F::Vla('Q', 1, 'B'), F::Vla('Q', 1, 'J'), F::Vla('P', 1, 'C'), F::Fix('A', 2), F::Fix('I', 1)],
    };
    let rows = 3usize;
    let w: usize = cols.iter().map(|c| c.width()).sum();
    let mut data = vec![];
    let mut q = 0;
    for r in 0..rows {
        for (i, c) in cols.iter().enumerate() {
            match c {
                F::Fix(t, _) => {
                    let mut d = pat(c.width(), r * 7 + i);
                    if *t == 'L' {
                        d.fill(b"TFT"[r]);
                    }
                    data.extend(d);
                }
                F::Vla(_, 0, _) => {}
                F::Vla(d, _, _) => {
                    q += 1;
                    data.extend(desc(*d, [2u64, 0, 1, 3, 0][q % 5], (q * 5 % 17) as u64));
                }
            }
        }
    }
    let theap = w * rows;
    assert!(data.len() == theap);
    if k >= 2 {
        data.extend(pat(90, 13));
    }
    let (bytes, off) = around(table(&cols, true, rows, None, data));
    let t = decode(&cols, rows, theap, &bytes[off..]);
    let set = ch.choose(1 << cols.len());
    let second = if ch.flag() { Some(ch.choose(1 << cols.len())) } else { None };
    let spelling = if second.is_some() { 0 } else { ch.choose(5) };
    let start = ch.choose(rows + 1);
    let before = ch.choose(3);
    let rd = ch.choose(2);
    let names = ["N0", "N1", "N2", "N3", "N4", "N5"];
    let mut ids: Vec<ColumnId> = vec![];
    for i in (0..cols.len()).filter(|i| set >> i & 1 == 1) {
        match spelling {
            0 | 1 => ids.push(ColumnId::Index(i)),
            2 => ids.push(ColumnId::Name(names[i])),
            3 => ids.push(if i % 2 == 0 { ColumnId::Index(i) } else { ColumnId::Name(names[i]) }),
            // each twice, and something unknown
            _ => {
                ids.push(ColumnId::Name(names[i]));
                ids.push(ColumnId::Name("N9"));
                ids.push(ColumnId::Index(i));
            }
        }
    }
    if spelling == 1 {
        ids.reverse();
    }
    let mut last = set;
    let ids2: Option<Vec<ColumnId>> = second.map(|s| {
        last = s;
        (0..cols.len()).filter(|i| s >> i & 1 == 1).map(ColumnId::Index).collect()
    });
    let sel: Vec<usize> = Model::skip_zero(&t, (0..cols.len()).filter(|i| last >> i & 1 == 1).collect());
    ch.say(|| format!("{cols:?}: select {set:06b} {second:?} spelling {spelling} from row {start}, {before} values before"));
    ch.visit(&(k, set, second, spelling, start, before, rd));
    for mode in 0..2 {
        if mode == 1 && sel.is_empty() {
            continue;
        }
        ch.exec();
        let run = |f: &mut dyn FnMut() -> R| f().map_err(|e| format!("{cols:?}: select {set:06b} then {second:?}, spelling {spelling}, from row {start}, {before} values before, mode {mode}: {e}"));
        let a = Subset { t: &t, ids: &ids, ids2: ids2.as_deref(), sel: &sel, start, before, mode };
        match rd {
            0 => run(&mut || a.run(Fits::from_reader(Cursor::new(bytes.clone()))))?,
            _ => run(&mut || a.run(Fits::from_reader(BufReader::with_capacity(9, Cursor::new(bytes.clone())))))?,
        }
    }
    Ok(())
}
struct Subset<'a> {
    t: &'a Tab,
    ids: &'a [ColumnId],
    ids2: Option<&'a [ColumnId]>,
    sel: &'a [usize],
    start: usize,
    before: usize,
    mode: usize,
}
impl Subset<'_> {
    fn run<Rd: Read + Seek + Debug + 'static>(&self, mut fits: Fits<Rd>) -> R {
        let h = open(&mut fits)?;
        {
            let mut td = fits.get_data(&h).table_data();
            for _ in 0..self.before {
                td.next();
            }
            td.select_fields(self.ids);
            if let Some(i) = self.ids2 {
                td.next();
                td.select_fields(i);
            }
            // beyond the end: refused
            let at = if self.start < self.t.rows {
                td.seek_to_row(self.start).map_err(|e| format!("seek: {e:?}"))?;
                self.start
            } else {
                if td.seek_to_row(self.start).is_ok() {
                    return Err("seek beyond the end accepted".into());
                }
                td.seek_to_row(0).map_err(|e| format!("seek: {e:?}"))?;
                0
            };
            let row = |r: usize| -> Vec<Cell> { self.sel.iter().flat_map(|c| self.t.fields[r][*c].0.clone()).collect() };
            if self.mode == 0 {
                for r in at..self.t.rows {
                    for w in row(r) {
                        let g = td.next().as_ref().map(cell);
                        if g.as_ref() != Some(&w) {
                            return Err(format!("row {r}: got {g:?}, expected {w:?}"));
                        }
                    }
                }
                ends(&mut td, self.t.rows)?;
            } else {
                let mut it = td.row_iter();
                for r in at..self.t.rows {
                    let g = it.next().map(|x| cell_list(&x));
                    let w = row(r);
                    if g.as_ref() != Some(&w) {
                        return Err(format!("row {r}: got {g:?}, expected {w:?}"));
                    }
                }
                if let Some(g) = it.next() {
                    return Err(format!("end of rows expected, got {:?}", cell_list(&g)));
                }
            }
        }
        close(&mut fits)
    }
}

// ---------------------------------------------------------------------------------------------- C13

/// Long arrays, many rows, runs of empty arrays, spellings of the format.
fn long(ch: &mut Ch) -> R {
    let d = ch.pick(&['P', 'Q']);
    let t = ch.pick(&TY);
    let shape = ch.choose(5);
    let counts: Vec<usize> = match shape {
        // one long one
        0 => vec![ch.pick(&[255usize, 256, 1023, 8191, 65536, 70000])],
        1 => {
            let n = ch.pick(&[300usize, 5000]);
            vec![2, n, 0, 1, n + 1]
        }
        // many short ones
        2 => {
            let m = ch.choose(4);
            (0..[100usize, 256, 300, 1000][m]).map(|i| i % 4).collect()
        }
        // every pattern of emptiness over eight rows
        3 => {
            let m = ch.choose(256);
            (0..8).map(|i| if m >> i & 1 == 1 { 1 + i % 2 } else { 0 }).collect()
        }
        _ => (0..60).collect(),
    };
    let spell = ch.choose(4);
    let near = ch.choose(3);
    let v = F::Vla(d, 1, t);
    let cols = match near {
        0 => vec![v],
        1 => vec![F::Fix('I', 1), v, F::Fix('B', 1)],
        _ => vec![v, F::Fix('A', 3), v],
    };
    let rows = counts.len();
    let sz = |n: usize| if t == 'X' { n.div_ceil(8) } else { n * esize(t) };
    let total: usize = counts.iter().map(|n| sz(*n)).sum();
    let mut data = vec![];
    let (mut up, mut down) = (0, total);
    for (r, n) in counts.iter().enumerate() {
        let mut first = true;
        down -= sz(*n);
        for c in &cols {
            match c {
                F::Fix(..) => data.extend(pat(c.width(), r + 3)),
                _ => {
                    // the second column shares the heap from the other end
                    data.extend(desc(d, *n as u64, if first { up } else { down } as u64));
                    first = false;
                }
            }
        }
        up += sz(*n);
    }
    let theap = data.len();
    let mut hp = pat(total, 11);
    if t == 'L' {
        for (i, b) in hp.iter_mut().enumerate() {
            *b = [b'T', b'F', 0, b'T', b'T'][i % 5];
        }
    }
    data.extend(hp);
    let len = data.len();
    let w: usize = cols.iter().map(|c| c.width()).sum();
    let most = counts.iter().max().unwrap();
    let form = |c: &F| match c {
        F::Vla(d, _, t) => match spell {
            0 => format!("1{d}{t}({most})"),
            1 => format!("{d}{t}({most})"),
            2 => format!("1{d}{t}"),
            _ => format!("{d}{t}"),
        },
        c => c.form(),
    };
    let cs: Vec<_> = cols.iter().map(|c| (form(c), None)).collect();
    let h = H { kind: Kind::BinTable, cards: bintable_cards(w, rows, total, &cs), data };
    ch.say(|| format!("{cols:?} spelled {spell}, {rows} rows, longest {most}, shape {shape}"));
    ch.visit(&(&cols, spell, &counts));
    let (bytes, off) = around(h);
    let tab = decode(&cols, rows, theap, &bytes[off..]);
    all_styles(ch, &bytes, off, &tab, len)
        .map_err(|e| format!("{cols:?} spelled {spell}, counts {:?}: {}", &counts[..rows.min(10)], e.chars().take(300).collect::<String>()))
}

fn arrays(ch: &mut Ch) -> R {
    let d = ch.pick(&['P', 'Q']);
    let t = ch.pick(&TY);
    let rows = ch.range(1, if ch.thorough { 4 } else { 3 });
    let around_cols = ch.choose(6);
    let gap = ch.pick(&[0usize, 5]);
    let arr = ch.choose(4);
    let counts: Vec<usize> = (0..rows).map(|_| if t == 'X' { ch.pick(&[0, 1, 8, 9]) } else { ch.pick(&[0, 1, 2, 3]) }).collect();
    let cols = match around_cols {
        0 => vec![F::Vla(d, 1, t)],
        1 => vec![F::Fix('J', 1), F::Vla(d, 1, t)],
        2 => vec![F::Vla(d, 1, t), F::Fix('I', 2)],
        3 => vec![F::Fix('B', 3), F::Vla(d, 1, t), F::Fix('A', 1)],
        4 => vec![F::Vla(d, 1, t), F::Vla('P', 1, 'I')],
        _ => vec![F::Vla('Q', 0, 'J'), F::Vla('Q', 1, 'B'), F::Vla(d, 1, t)],
    };
    let w: usize = cols.iter().map(|c| c.width()).sum();
    let sz = |n: usize| if t == 'X' { n.div_ceil(8) } else { n * esize(t) };
    // where the arrays of the main column lie in the heap
    let total: usize = counts.iter().map(|n| sz(*n)).sum();
    let mut offs = vec![];
    let mut o = if arr == 1 { total } else { 0 };
    for (i, n) in counts.iter().enumerate() {
        match arr {
            0 => {
                offs.push(o);
                o += sz(*n);
            }
            1 => {
                o -= sz(*n);
                offs.push(o);
            }
            // all at (almost) the same place
            2 => offs.push(i % 2),
            // with holes
            _ => {
                o += 3 + i;
                offs.push(o);
                o += sz(*n);
            }
        }
    }
    let heap = total + 64;
    let mut data = vec![];
    for r in 0..rows {
        for c in &cols {
            match c {
                F::Fix(..) => data.extend(pat(c.width(), r + 3)),
                F::Vla(_, 0, _) => {}
                F::Vla(dd, _, tt) if (*dd, *tt) == (d, t) && !(around_cols == 4 && std::ptr::eq(c, &cols[1])) => {
                    data.extend(desc(d, counts[r] as u64, offs[r] as u64))
                }
                F::Vla(dd, _, _) => data.extend(desc(*dd, [2u64, 0, 3][r % 3], [1u64, 7, 4][r % 3])),
            }
        }
    }
    assert!(data.len() == w * rows);
    let theap = data.len() + gap;
    data.extend(pat(gap, 77));
    let mut hp = pat(heap, 11);
    // logicals worth the name
    if t == 'L' {
        for (i, b) in hp.iter_mut().enumerate() {
            *b = [b'T', b'F', 0, b'T', b'T'][i % 5];
        }
    }
    data.extend(hp);
    let len = data.len();
    let explicit = gap > 0 || ch.flag();
    ch.say(|| format!("{cols:?} x {rows} counts {counts:?} offsets {offs:?} gap {gap} THEAP card {explicit}"));
    ch.visit(&(&cols, &counts, &offs, gap, explicit));
    let (bytes, off) = around(table(&cols, false, rows, explicit.then_some(theap), data));
    let tab = decode(&cols, rows, theap, &bytes[off..]);
    all_styles(ch, &bytes, off, &tab, len).map_err(|e| format!("counts {counts:?} offsets {offs:?} gap {gap}: {e}"))
}

/// Descriptors that point (partly) outside of the file.
fn outside(ch: &mut Ch) -> R {
    let d = ch.pick(&['P', 'Q']);
    let t = ch.pick(&TY);
    let tail = ch.flag();
    let before = ch.flag();
    let theap_big = ch.choose(3);
    let nmenu: &[u64] = if d == 'P' { &[1, 3, 0x7fff_ffff, 0xffff_ffff] } else { &[1, 3, 1 << 33, 1 << 60, i64::MAX as u64, u64::MAX] };
    let omenu: &[u64] = if d == 'P' { &[6, 4000, 0x7fff_ffff, 0xffff_ffff] } else { &[6, 4000, 1 << 40, i64::MAX as u64 - 6000, i64::MAX as u64, u64::MAX] };
    let n = ch.pick(nmenu);
    let o = ch.pick(omenu);
    let mut cols = vec![];
    if before {
        cols.push(F::Fix('I', 1));
    }
    cols.push(F::Vla(d, 1, t));
    if tail {
        cols.push(F::Fix('J', 1));
    }
    let rows = 2;
    let mut data = vec![];
    for r in 0..rows {
        for c in &cols {
            match c {
                F::Fix(..) => data.extend(pat(c.width(), r + 3)),
                _ if r == 0 => data.extend(desc(d, 1, 2)),
                _ => data.extend(desc(d, n, o)),
            }
        }
    }
    let theap = match theap_big {
        0 => data.len(),
        1 => data.len() + 4,
        _ => i64::MAX as usize - 7,
    };
    data.extend(pat(24, 11));
    ch.say(|| format!("{cols:?} second row: {n} elements at {o}, heap at {theap}"));
    ch.visit(&(&cols, n, o, theap));
    // the table is the last HDU
    let f = file(&[image(Kind::Primary, 16, &[3], 4), table(&cols, false, rows, Some(theap), data)], 0x5A);
    let off = f.offs[1];
    let rest = &f.bytes[off..];
    let tab = decode(&cols, rows, theap, rest);
    for mode in 0..4 {
        ch.exec();
        let r = match mode % 2 {
            0 => outside_one(Fits::from_reader(Cursor::new(f.bytes.clone())), &tab, mode / 2),
            _ => outside_one(Fits::from_reader(BufReader::with_capacity(11, Cursor::new(f.bytes.clone()))), &tab, mode / 2),
        };
        r.map_err(|e| format!("{cols:?} second row: {n} elements at {o}, heap at {theap}: {e}"))?;
    }
    Ok(())
}
fn outside_one<Rd: Read + Seek + Debug + 'static>(mut fits: Fits<Rd>, t: &Tab, mode: usize) -> R {
    let h = open(&mut fits)?;
    {
        let td = fits.get_data(&h).table_data();
        if mode == 0 {
            values_of(td, t)?
        } else {
            rows_of(td, t)?
        }
    }
    match fits.next() {
        None => Ok(()),
        x => Err(format!("end of the file expected: {x:?}")),
    }
}
