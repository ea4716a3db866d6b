//! Files larger than 2 GiB, 4 GiB, ... up to 2^62 bytes: only their headers are stored, the data is computed from
//! the position ([`Sparse`]). spaces of C01-C03 and C11-C13.

use super::table::{desc, elem, esize, F, TY};
use crate::engine::{Ch, R};
use crate::gen::*;
use crate::obs::*;
use fitsrs::hdu::data::bintable::data::BinaryTableData;
use fitsrs::hdu::data::bintable::ColumnId;
use fitsrs::hdu::HDU;
use fitsrs::Fits;
use std::fmt::Debug;
use std::io::{BufReader, Read, Seek};
use std::sync::Arc;

/// HDUs by header cards and size of the data unit: the source and the offsets of the data units.
fn layout(hs: &[(Vec<CardB>, u64)]) -> (Sparse, Vec<u64>) {
    let mut stored = vec![];
    let mut offs = vec![];
    let mut p = 0u64;
    for (c, n) in hs {
        let h = header(c);
        let l = h.len() as u64;
        stored.push((p, h));
        p += l;
        offs.push(p);
        p += n.next_multiple_of(2880);
    }
    (Sparse { stored: Arc::new(stored), len: p, pos: 0, max: usize::MAX, coarse: false }, offs)
}

/// The same file through one of three kinds of reader.
macro_rules! readers {
    ($s:expr, $rd:expr, $f:expr) => {
        match $rd {
            0 => $f(Fits::from_reader($s.clone())),
            1 => $f(Fits::from_reader(BufReader::with_capacity(100, $s.clone()))),
            _ => $f(Fits::from_reader(Sparse { max: 3, ..$s.clone() })),
        }
    };
}

fn small_image() -> (Vec<CardB>, u64) {
    (image_cards(Kind::Image, 16, &[5]), 10)
}
fn check_small<Rd: Read + Seek + Debug + 'static>(fits: &mut Fits<Rd>, s: &Sparse, off: u64) -> R {
    match fits.next() {
        Some(Ok(HDU::XImage(h))) => {
            if h.get_data_unit_byte_offset() != off {
                return Err(format!("the image after the big data unit has its data at {}, expected {off}", h.get_data_unit_byte_offset()));
            }
            let mut it = pxit(fits.get_data(&h).pixels());
            for (i, w) in pixels(16, &s.slice(off, 10)).into_iter().enumerate() {
                let g = it.next_px();
                if g != Some(w) {
                    return Err(format!("pixel {i} of the image after the big data unit: {g:?}, expected {w:?}"));
                }
            }
            Ok(())
        }
        x => Err(format!("HDU after the big data unit: {x:?}")),
    }
}

// ---------------------------------------------------------------------------------------------- C01

const SHAPES: [(i64, &[usize]); 16] = [
    (8, &[0x7fff_ffff]),
    (8, &[0x8000_0000]),
    (8, &[0x8000_0001]),
    (8, &[0xffff_ffff]),
    (8, &[0x1_0000_0000]),
    (8, &[0x1_0000_0001]),
    (8, &[70000, 70001]),
    (16, &[0x4000_0000, 2]),
    (16, &[3, 0x8000_0001]),
    (32, &[0x4000_0001]),
    (-32, &[1 << 16, 1 << 16, 3]),
    (64, &[0x2000_0001]),
    (-64, &[0x1234, 1 << 17, 5]),
    (-64, &[1 << 20, 1 << 20, 1 << 10]),
    (8, &[(1 << 53) + 1]),
    (8, &[(1 << 62) - 12345]),
];
/// NAXIS1, NAXIS2, PCOUNT
const TABLES: [(usize, usize, usize); 12] = [
    (1, 0x7fff_ffff, 0),
    (1, 0x8000_0000, 0),
    (1, 0xffff_ffff, 0),
    (1, 0x1_0000_0000, 0),
    (1, 0x1_0000_0001, 0),
    (8, 0x2000_0001, 0),
    (70000, 70001, 0),
    (8, 4, 0x1_0000_0000),
    (8, 4, 0xffff_ffff),
    (8, 0x2000_0001, 0x1_0000_0003),
    (3, 1 << 45, 7),
    (1 << 31, 1 << 20, 1 << 50),
];

#[derive(Clone, Copy, Debug, Hash)]
enum Big {
    Img(usize),
    Bin(usize),
    Asc(usize),
}
impl Big {
    fn build(self, first: bool) -> (Kind, Vec<CardB>, u64, u64) {
        match self {
            Big::Img(i) => {
                let (b, a) = SHAPES[i];
                let k = if first { Kind::Primary } else { Kind::Image };
                (k, image_cards(k, b, a), image_len(b, a) as u64, 0)
            }
            Big::Bin(i) => {
                let (a, b, p) = TABLES[i];
                (Kind::BinTable, bintable_cards(a, b, p, &[(format!("{a}B"), None)]), (a * b + p) as u64, a as u64)
            }
            Big::Asc(i) => {
                let (a, b, _) = TABLES[i];
                (Kind::Ascii, ascii_cards(a, b, &[(1, "A1".into())]), (a * b) as u64, 0)
            }
        }
    }
}

pub fn c01(ch: &mut Ch) -> R {
    let n = ch.range(1, 2);
    let place = ch.choose(2);
    let mut bigs = vec![];
    let mut hs = vec![];
    let mut kinds = vec![];
    if place == 1 {
        hs.push((image_cards(Kind::Primary, 8, &[]), 0));
        kinds.push((Kind::Primary, 0));
    }
    for k in 0..n {
        let b = if place == 0 && k == 0 {
            // two data units of 2^62 bytes do not fit in any file
            Big::Img(ch.choose(SHAPES.len() - (n - 1)))
        } else {
            match ch.choose(3) {
                0 => Big::Img(ch.choose(SHAPES.len() - (n - 1))),
                1 => Big::Bin(ch.choose(TABLES.len())),
                _ => Big::Asc(ch.choose(TABLES.len())),
            }
        };
        let (k, c, l, w) = b.build(hs.is_empty());
        bigs.push(b);
        kinds.push((k, w));
        hs.push((c, l));
    }
    hs.push(small_image());
    let (s, offs) = layout(&hs);
    let rd = ch.choose(3);
    ch.say(|| format!("{bigs:?} reader {rd}"));
    readers!(s, rd, |f| c01_walk(f, ch, &s, &hs, &kinds, &offs, rd)).map_err(|e| format!("{bigs:?} reader {rd}: {e}"))
}

fn c01_walk<Rd: Read + Seek + Debug + 'static>(
    mut fits: Fits<Rd>,
    ch: &mut Ch,
    s: &Sparse,
    hs: &[(Vec<CardB>, u64)],
    kinds: &[(Kind, u64)],
    offs: &[u64],
    rd: usize,
) -> R {
    for (i, (k, _)) in kinds.iter().enumerate() {
        ch.step();
        let hdu = match fits.next() {
            Some(Ok(h)) => h,
            x => return Err(format!("HDU {i}: {x:?}")),
        };
        let g = (kind_of(&hdu), hdu.get_data_unit_byte_offset(), hdu.get_data_unit_byte_size());
        let w = (*k, offs[i], hs[i].1);
        if g != w {
            return Err(format!("HDU {i}: (kind, offset, size) {g:?}, expected {w:?}"));
        }
        if fits.get_position_data_unit() as u64 != offs[i] {
            return Err(format!("HDU {i}: current data unit at {}", fits.get_position_data_unit()));
        }
        if hs[i].1 == 0 {
            continue;
        }
        let a = ch.choose(4);
        ch.visit(&(i, w, a, rd));
        if a == 0 {
            continue;
        }
        match &hdu {
            HDU::Primary(h) | HDU::XImage(h) => {
                let x = h.get_header().get_xtension();
                let n = x.get_num_pixels() as usize;
                let b = super::image::bp(x.get_bitpix());
                let sz = bitpix_size(b) as u64;
                if n as u64 * sz != hs[i].1 {
                    return Err(format!("{n} pixels"));
                }
                let mut it = pxit(fits.get_data(h).pixels());
                let idx = match a {
                    1 => 0,
                    2 => n - 1,
                    _ => n / 2,
                };
                let g = if a == 1 { it.next_px().ok_or("end".to_string()) } else { it.at(idx) };
                let w = be(b, &s.slice(offs[i] + idx as u64 * sz, sz as usize));
                if g != Ok(w) {
                    return Err(format!("pixel {idx}: {g:?}, expected {w:?}"));
                }
            }
            HDU::XASCIITable(h) => {
                let mut d = fits.get_data(h);
                let mut b = vec![0u8; [1, 17, 3000][a - 1].min(hs[i].1 as usize)];
                d.read_exact(&mut b).map_err(|e| e.to_string())?;
                if b != s.slice(offs[i], b.len()) {
                    return Err("bytes of the ASCII table".into());
                }
            }
            HDU::XBinaryTable(h) => {
                let x = h.get_header().get_xtension();
                let rows = x.get_num_rows() as u64;
                let w = kinds[i].1;
                let BinaryTableData::Table(mut t) = fits.get_data(h) else { return Err("tile compressed".into()) };
                let r = match a {
                    1 => 0,
                    2 => rows - 1,
                    _ => rows / 2,
                };
                if a > 1 {
                    t.seek_to_row(r as usize).map_err(|e| format!("seek to row {r}: {e:?}"))?;
                }
                let g = t.next().as_ref().map(cell);
                let e = Some((Some(0), Some(0), V::B(s.byte(offs[i] + r * w))));
                if g != e {
                    return Err(format!("row {r}: {g:?}, expected {e:?}"));
                }
            }
        }
    }
    check_small(&mut fits, s, offs[kinds.len()])?;
    for _ in 0..2 {
        if let Some(x) = fits.next() {
            return Err(format!("end expected: {x:?}"));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------- C02

/// What is announced, and the first pixels in order.
pub fn c02(ch: &mut Ch) -> R {
    let i = ch.choose(SHAPES.len());
    let (bitpix, axes) = SHAPES[i];
    let place = ch.choose(2);
    let mut hs = vec![];
    if place == 1 {
        hs.push((image_cards(Kind::Primary, 8, &[7]), 7));
    }
    // the same number of pixels for every type, or the shape as it is
    let bitpix = if ch.flag() { bitpix } else { ch.pick(&[16i64, 32, 64, -32, -64]) };
    let Some(len) = axes.iter().try_fold(bitpix_size(bitpix) as u64, |a, b| a.checked_mul(*b as u64)).filter(|l| *l < 1 << 62) else {
        return Ok(());
    };
    hs.push((image_cards(if place == 0 { Kind::Primary } else { Kind::Image }, bitpix, axes), len));
    hs.push(small_image());
    let (s, offs) = layout(&hs);
    let rd = ch.choose(3);
    ch.say(|| format!("bitpix {bitpix} axes {axes:?} place {place} reader {rd}"));
    ch.visit(&(bitpix, axes, place, rd));
    readers!(s, rd, |f| c02_read(f, ch, &s, place, offs[place], bitpix, axes)).map_err(|e| format!("bitpix {bitpix} axes {axes:?} reader {rd}: {e}"))
}

fn c02_read<Rd: Read + Seek + Debug + 'static>(mut fits: Fits<Rd>, ch: &mut Ch, s: &Sparse, place: usize, off: u64, bitpix: i64, axes: &[usize]) -> R {
    if place == 1 {
        fits.next();
    }
    let h = match fits.next() {
        Some(Ok(HDU::Primary(h) | HDU::XImage(h))) => h,
        x => return Err(format!("{x:?}")),
    };
    let x = h.get_header().get_xtension();
    let n: u64 = axes.iter().map(|a| *a as u64).product();
    let sz = bitpix_size(bitpix) as u64;
    if x.get_num_pixels() != n || x.get_naxis().iter().map(|a| *a as usize).ne(axes.iter().copied()) {
        return Err(format!("{} pixels, axes {:?}", x.get_num_pixels(), x.get_naxis()));
    }
    {
        let mut it = pxit(fits.get_data(&h).pixels());
        let k = 3000u64;
        for (i, w) in pixels(bitpix, &s.slice(off, (k * sz) as usize)).into_iter().enumerate() {
            ch.step();
            let g = it.next_px();
            if g != Some(w) {
                return Err(format!("pixel {i}: {g:?}, expected {w:?}"));
            }
        }
        // go near the end, then read in order to the end
        for j in [5u64, 4, 3, 2, 1, 0] {
            let i = n - 1 - j;
            ch.step();
            let g = if j == 5 { it.at(i as usize).ok() } else { it.next_px() };
            let w = be(bitpix, &s.slice(off + i * sz, sz as usize));
            if g != Some(w) {
                return Err(format!("pixel {i}: {g:?}, expected {w:?}"));
            }
        }
        for _ in 0..2 {
            if let Some(g) = it.next_px() {
                return Err(format!("more than {n} pixels: {g:?}"));
            }
        }
    }
    check_small(&mut fits, s, off + (n * sz).next_multiple_of(2880) + 2880)
}

// ---------------------------------------------------------------------------------------------- C03

pub fn c03(ch: &mut Ch) -> R {
    let bitpix = ch.pick(&super::image::BP);
    let sz = bitpix_size(bitpix) as u64;
    let n: u64 = ch.pick(&[(1u64 << 31) + 3, (1 << 32) + 5, (1 << 58) + 1]);
    let place = ch.choose(2);
    let mut hs = vec![];
    if place == 1 {
        hs.push((image_cards(Kind::Primary, 8, &[7]), 7));
    }
    hs.push((image_cards(if place == 0 { Kind::Primary } else { Kind::Image }, bitpix, &[n as usize]), n * sz));
    hs.push(small_image());
    let (s, offs) = layout(&hs);
    let rd = ch.choose(2);
    let mut idx: Vec<u64> = vec![0, 1, (1 << 31) / sz - 1, (1 << 31) / sz, (1 << 31) - 1, 1 << 31, (1 << 32) / sz - 1, (1 << 32) / sz];
    idx.extend([u32::MAX as u64, 1 << 32, (1 << 32) + 1, n - 2, n - 1, n, n + 1, u64::MAX]);
    idx.sort_unstable();
    idx.dedup();
    readers!(s, rd, |f| c03_ops(f, ch, &s, place, offs[place], bitpix, n, &idx, rd))
        .map_err(|e| format!("bitpix {bitpix}, {n} pixels: {e}"))
}

#[allow(clippy::too_many_arguments)]
fn c03_ops<Rd: Read + Seek + Debug + 'static>(
    mut fits: Fits<Rd>,
    ch: &mut Ch,
    s: &Sparse,
    place: usize,
    off: u64,
    bitpix: i64,
    n: u64,
    idx: &[u64],
    rd: usize,
) -> R {
    if place == 1 {
        fits.next();
    }
    let h = match fits.next() {
        Some(Ok(HDU::Primary(h) | HDU::XImage(h))) => h,
        x => return Err(format!("{x:?}")),
    };
    let sz = bitpix_size(bitpix) as u64;
    let mut hist = vec![];
    {
        let mut it = pxit(fits.get_data(&h).pixels());
        let mut pos = 0u64;
        for _ in 0..if ch.thorough { 4 } else { 3 } {
            let o = ch.choose(idx.len() + 1);
            ch.step();
            let px = |i: u64| (i < n).then(|| be(bitpix, &s.slice(off + i * sz, sz as usize)));
            if o == 0 {
                hist.push(-1i128);
                let (g, w) = (it.next_px(), px(pos));
                if g != w {
                    return Err(format!("ops {hist:?}: next gave {g:?}, expected {w:?}"));
                }
                if w.is_some() {
                    pos += 1;
                }
            } else {
                let i = idx[o - 1];
                hist.push(i as i128);
                match (it.at(i as usize), px(i)) {
                    (Ok(g), Some(w)) if g == w => pos = i + 1,
                    (Err(_), None) => {}
                    (g, w) => return Err(format!("ops {hist:?}: got {g:?}, expected {w:?}")),
                }
            }
            ch.visit(&(bitpix, n, pos, rd, place));
        }
        let w = (pos < n).then(|| be(bitpix, &s.slice(off + pos * sz, sz as usize)));
        let g = it.next_px();
        if g != w {
            return Err(format!("ops {hist:?}: then {g:?}, expected {w:?}"));
        }
        ch.say(|| format!("bitpix {bitpix} n {n} ops {hist:?}"));
    }
    check_small(&mut fits, s, off + (n * sz).next_multiple_of(2880) + 2880).map_err(|e| format!("ops {hist:?}: {e}"))
}

// ---------------------------------------------------------------------------------------------- C12

fn cells(s: &Sparse, cols: &[F], sel: &[usize], off: u64, r: u64) -> Vec<Cell> {
    let w: u64 = cols.iter().map(|c| c.width() as u64).sum();
    let mut v = vec![];
    let mut o = off + r * w;
    for (i, c) in cols.iter().enumerate() {
        let F::Fix(t, n) = c else { unreachable!() };
        if sel.contains(&i) {
            for k in 0..if *t == 'X' { n.div_ceil(8) } else { *n } {
                v.push((Some(i), Some(k), elem(*t, &s.slice(o + (k * esize(*t)) as u64, esize(*t)))));
            }
        }
        o += c.width() as u64;
    }
    v
}

/// What is announced, the first rows in order, and the last ones, by values and by rows.
pub fn c11(ch: &mut Ch) -> R {
    let kind = ch.choose(4);
    let cols: Vec<F> = match kind {
        0 => vec![F::Fix('J', 1), F::Fix('I', 2), F::Fix('B', 3)],
        1 => vec![F::Fix('B', 1)],
        2 => vec![F::Fix('L', 1), F::Fix('X', 9), F::Fix('M', 1), F::Fix('A', 2), F::Fix('K', 1)],
        _ => vec![F::Fix('I', 1), F::Fix('D', 8200), F::Fix('J', 1)],
    };
    let w: u64 = cols.iter().map(|c| c.width() as u64).sum();
    let rows: u64 = ch.pick(&[(1u64 << 31) / w + 2, (1 << 32) / w + 1, (1 << 32) / w + 3, 1 << 32, (1 << 32) + 1, 1 << 44]);
    let mode = ch.choose(2);
    let rd = ch.choose(3);
    let cs: Vec<_> = cols.iter().map(|c| (c.form(), None)).collect();
    let hs = vec![
        (image_cards(Kind::Primary, 8, &[7]), 7),
        (bintable_cards(w as usize, rows as usize, 0, &cs), w * rows),
        small_image(),
    ];
    let (s, offs) = layout(&hs);
    ch.say(|| format!("{cols:?} x {rows} mode {mode} reader {rd}"));
    ch.visit(&(kind, rows, mode, rd));
    readers!(s, rd, |f| c11_read(f, ch, &s, &cols, &offs, rows, mode)).map_err(|e| format!("{cols:?} x {rows}, mode {mode}, reader {rd}: {e}"))
}

fn c11_read<Rd: Read + Seek + Debug + 'static>(mut fits: Fits<Rd>, ch: &mut Ch, s: &Sparse, cols: &[F], offs: &[u64], rows: u64, mode: usize) -> R {
    let h = super::table::open(&mut fits)?;
    if h.get_header().get_xtension().get_num_rows() as u64 != rows {
        return Err(format!("{} rows announced", h.get_header().get_xtension().get_num_rows()));
    }
    let sel: Vec<usize> = (0..cols.len()).collect();
    let first = if cols.len() == 1 { 300 } else { 4 };
    for (from, to) in [(0, first), (rows - 2, rows)] {
        let mut td = fits.get_data(&h).table_data();
        if from > 0 {
            td.seek_to_row(from as usize).map_err(|e| format!("row {from}: {e:?}"))?;
        }
        if mode == 0 {
            for r in from..to {
                for w in cells(s, cols, &sel, offs[1], r) {
                    ch.step();
                    let g = td.next().as_ref().map(cell);
                    if g.as_ref() != Some(&w) {
                        return Err(format!("row {r}: {g:?}, expected {w:?}"));
                    }
                }
            }
            if to == rows && td.next().is_some() {
                return Err("a value after the last row".into());
            }
        } else {
            let mut it = td.row_iter();
            for r in from..to {
                ch.step();
                let g = it.next().map(|x| cell_list(&x));
                if g != Some(cells(s, cols, &sel, offs[1], r)) {
                    return Err(format!("row {r}: {:?}...", g.map(|v| v.into_iter().take(3).collect::<Vec<_>>())));
                }
            }
            if to == rows && it.next().is_some() {
                return Err("a row after the last one".into());
            }
        }
    }
    check_small(&mut fits, s, offs[2])
}

pub fn c12(ch: &mut Ch) -> R {
    // 1J 2I 3B: 11 bytes; 1B: 1 byte; one row of more than 64 KiB
    let kind = ch.choose(3);
    let cols: Vec<F> = match kind {
        0 => vec![F::Fix('J', 1), F::Fix('I', 2), F::Fix('B', 3)],
        1 => vec![F::Fix('B', 1), F::Fix('I', 1)],
        _ => vec![F::Fix('I', 1), F::Fix('D', 8200), F::Fix('J', 1)],
    };
    let w: u64 = cols.iter().map(|c| c.width() as u64).sum();
    let rows: u64 = ch.pick(&[(1u64 << 31) / w + 2, (1 << 32) / w + 3, (1 << 32) + 3, 1 << 44]);
    let cs: Vec<_> = cols.iter().map(|c| (c.form(), None)).collect();
    let hs = vec![
        (image_cards(Kind::Primary, 8, &[7]), 7),
        (bintable_cards(w as usize, rows as usize, 0, &cs), w * rows),
        small_image(),
    ];
    let (s, offs) = layout(&hs);
    let mut idx: Vec<u64> = vec![0, 1, (1 << 31) / w, (1 << 32) / w, (1 << 32) / w + 1, (1 << 31) - 1, 1 << 31, u32::MAX as u64, 1 << 32, (1 << 32) + 1, rows - 1, rows, u64::MAX];
    idx.sort_unstable();
    idx.dedup();
    let rd = ch.choose(2);
    readers!(s, rd, |f| c12_ops(f, ch, &s, &cols, offs[1], offs[2], rows, &idx, rd)).map_err(|e| format!("{cols:?} x {rows}: {e}"))
}

#[allow(clippy::too_many_arguments)]
fn c12_ops<Rd: Read + Seek + Debug + 'static>(
    mut fits: Fits<Rd>,
    ch: &mut Ch,
    s: &Sparse,
    cols: &[F],
    off: u64,
    after: u64,
    rows: u64,
    idx: &[u64],
    rd: usize,
) -> R {
    let h = super::table::open(&mut fits)?;
    let mut hist: Vec<String> = vec![];
    {
        let mut td = Some(fits.get_data(&h).table_data());
        let sels: [&[usize]; 3] = [&[0], &[1], &[0, 2]];
        let mut sel: Vec<usize> = (0..cols.len()).collect();
        let (mut row, mut item) = (0u64, 0usize);
        for _ in 0..if ch.thorough { 4 } else { 3 } {
            let o = ch.choose(2 + idx.len() + sels.len());
            ch.step();
            match o {
                0 => {
                    hist.push("next".into());
                    let all = if row < rows { cells(s, cols, &sel, off, row) } else { vec![] };
                    let g = td.as_mut().unwrap().next().as_ref().map(cell);
                    let w = all.get(item).cloned();
                    if g != w {
                        return Err(format!("{hist:?}: got {g:?}, expected {w:?}"));
                    }
                    if w.is_some() {
                        item += 1;
                        if item == all.len() {
                            item = 0;
                            row += 1;
                        }
                    }
                }
                1 => {
                    hist.push("row".into());
                    let mut it = td.take().unwrap().row_iter();
                    let g = it.next().map(|x| cell_list(&x));
                    td = Some(it.table_data());
                    let w = (row < rows).then(|| cells(s, cols, &sel, off, row)[item..].to_vec());
                    if g != w {
                        return Err(format!("{hist:?}: got {:?}..., expected {:?}...", g.map(|v| v.into_iter().take(3).collect::<Vec<_>>()), w.map(|v| v.into_iter().take(3).collect::<Vec<_>>())));
                    }
                    if w.is_some() {
                        item = 0;
                        row += 1;
                    }
                }
                o if o < 2 + idx.len() => {
                    let r = idx[o - 2];
                    hist.push(format!("seek {r}"));
                    let g = td.as_mut().unwrap().seek_to_row(r as usize).is_ok();
                    if g != (r < rows) {
                        return Err(format!("{hist:?}: {g}"));
                    }
                    if g {
                        row = r;
                        item = 0;
                    }
                }
                o => {
                    let k = sels[o - 2 - idx.len()];
                    hist.push(format!("select {k:?}"));
                    let ids: Vec<_> = k.iter().map(|i| ColumnId::Index(*i)).collect();
                    td.as_mut().unwrap().select_fields(&ids);
                    sel = k.iter().copied().filter(|i| *i < cols.len()).collect();
                    item = 0;
                }
            }
            ch.visit(&(cols, rows, rd, &sel, row, item));
        }
        let w = if row < rows { cells(s, cols, &sel, off, row).get(item).cloned() } else { None };
        let g = td.unwrap().next().as_ref().map(cell);
        if g != w {
            return Err(format!("{hist:?}: then {g:?}, expected {w:?}"));
        }
        ch.say(|| format!("{cols:?} x {rows}: {hist:?}"));
    }
    check_small(&mut fits, s, after).map_err(|e| format!("{hist:?}: {e}"))
}

// ---------------------------------------------------------------------------------------------- C13

pub fn c13(ch: &mut Ch) -> R {
    let d = ch.pick(&['P', 'Q']);
    let t = ch.pick(&TY);
    let offsets: &[u64] = if d == 'P' {
        &[0, 0x7fff_ffff, 0x8000_0000, 0xffff_fff0, 0xffff_ffff]
    } else {
        &[0, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0x1_0000_0000, 0x1_0000_0001, 1 << 40, 1 << 61]
    };
    let o = ch.pick(offsets);
    // rows: the descriptors that count are in the last two
    let rows: u64 = ch.pick(&[2u64, (1 << 32) / 12 + 3, 1 << 33]);
    let gap: u64 = ch.pick(&[0u64, 5, 0x8000_0000, 0x1_0000_0007]);
    // the second array may be endless
    let n2: u64 = if d == 'P' { ch.pick(&[0u64, 2, 0xffff_ffff]) } else { ch.pick(&[0u64, 2, 0x1_0000_0002, 1 << 58]) };
    let cols = [F::Fix('J', 1), F::Vla(d, 1, t)];
    let w: u64 = cols.iter().map(|c| c.width() as u64).sum();
    let pcount = (1u64 << 62) + gap;
    let mut cards = bintable_cards(w as usize, rows as usize, pcount as usize, &[(cols[0].form(), None), (cols[1].form(), None)]);
    let theap = w * rows + gap;
    if gap > 0 {
        cards.push(int("THEAP", theap as i128));
    }
    let hs = vec![(image_cards(Kind::Primary, 8, &[7]), 7), (cards, w * rows + pcount), small_image()];
    let (mut s, offs) = layout(&hs);
    let r0 = rows - 2;
    let st = Arc::get_mut(&mut s.stored).unwrap();
    let at = |r: u64| offs[1] + r * w + 4;
    st.push((at(r0), desc(d, 3, o)));
    st.push((at(r0 + 1), desc(d, n2, o + 1)));
    let arr = |n: u64, o: u64, k: u64| -> Vec<Cell> {
        let n = if t == 'X' { n.div_ceil(8) } else { n };
        (0..n.min(k))
            .map(|i| (Some(1), Some(i as usize), elem(t, &s.slice(offs[1] + theap + o + i * esize(t) as u64, esize(t)))))
            .collect()
    };
    let int_of = |r: u64| (Some(0), Some(0), elem('J', &s.slice(offs[1] + r * w, 4)));
    let mut first = vec![int_of(r0)];
    first.extend(arr(3, o, 3));
    let mut second = vec![int_of(r0 + 1)];
    let whole = n2 <= 2;
    // a descriptor of 32 bits cannot point further
    let o2 = if d == 'P' { (o + 1) as u32 as u64 } else { o + 1 };
    second.extend(arr(n2, o2, 5));
    let rd = ch.choose(2);
    ch.say(|| format!("{cols:?} x {rows}, heap {gap} after, arrays 3@{o} {n2}@{o2} reader {rd}"));
    ch.visit(&(d, t, o, rows, gap, n2, rd));
    for mode in 0..2 {
        ch.exec();
        readers!(s, rd, |f| c13_read(f, &s, mode, r0, &first, &second, whole, offs[2]))
            .map_err(|e| format!("{cols:?} x {rows}, heap {gap} bytes after the table, arrays 3@{o} {n2}@{o2}, mode {mode}: {e}"))?;
    }
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn c13_read<Rd: Read + Seek + Debug + 'static>(
    mut fits: Fits<Rd>,
    s: &Sparse,
    mode: usize,
    r0: u64,
    first: &[Cell],
    second: &[Cell],
    whole: bool,
    after: u64,
) -> R {
    let h = super::table::open(&mut fits)?;
    {
        let mut td = fits.get_data(&h).table_data();
        td.seek_to_row(r0 as usize).map_err(|e| format!("{e:?}"))?;
        if mode == 0 {
            for w in first.iter().chain(second) {
                let g = td.next().as_ref().map(cell);
                if g.as_ref() != Some(w) {
                    return Err(format!("got {g:?}, expected {w:?}"));
                }
            }
            if whole {
                if let Some(g) = td.next() {
                    return Err(format!("end expected, got {:?}", cell(&g)));
                }
            }
            // back again
            td.seek_to_row(r0 as usize).map_err(|e| format!("{e:?}"))?;
            let g = td.next().as_ref().map(cell);
            if g.as_ref() != Some(&first[0]) {
                return Err(format!("after going back: {g:?}, expected {:?}", first[0]));
            }
        } else {
            let mut it = td.row_iter();
            let g = it.next().map(|r| cell_list(&r));
            if g.as_deref() != Some(first) {
                return Err(format!("row {g:?}, expected {first:?}"));
            }
            if whole {
                let g = it.next().map(|r| cell_list(&r));
                if g.as_deref() != Some(second) {
                    return Err(format!("row {g:?}, expected {second:?}"));
                }
                if it.next().is_some() {
                    return Err("row after the last one".into());
                }
            }
        }
    }
    check_small(&mut fits, s, after)
}

/// Read everything a reader gives, in large pieces: as many bytes as there are, each piece of them from its place.
fn whole(mut d: impl Read, s: &Sparse, off: u64, n: u64) -> R {
    let mut buf = vec![0u8; 1 << 20];
    let mut at = 0u64;
    loop {
        let k = d.read(&mut buf).map_err(|e| format!("after {at} bytes of {n}: {e}"))?;
        if k == 0 {
            break;
        }
        if at + k as u64 > n {
            return Err(format!("more than the {n} bytes of the table"));
        }
        for i in (0..k).step_by(4099).chain([k - 1]) {
            if buf[i] != s.byte(off + at + i as u64) {
                return Err(format!("byte {} of {n} is {:#x}, expected {:#x}", at + i as u64, buf[i], s.byte(off + at + i as u64)));
            }
        }
        at += k as u64;
    }
    if at != n {
        return Err(format!("{at} bytes delivered, expected {n}"));
    }
    Ok(())
}

/// Every byte of tables of more than 2 and 4 GiB.
fn raw_bytes(ch: &mut Ch, ascii: bool) -> R {
    let (w, rows) = ch.pick(&[(1usize << 20, 2049u64), (1000, 4294968), (3 << 30, 1), (10, 429496731), (1, (1 << 32) + 9)]);
    let n = w as u64 * rows;
    let cards = if ascii { ascii_cards(w, rows as usize, &[(1, "A1".into())]) } else { bintable_cards(w, rows as usize, 0, &[(format!("{w}B"), None)]) };
    let hs = vec![(image_cards(Kind::Primary, 8, &[7]), 7), (cards, n), small_image()];
    let (mut s, offs) = layout(&hs);
    s.coarse = true;
    ch.say(|| format!("{rows} rows of {w} bytes"));
    ch.visit(&(w, rows));
    let tag = |e| format!("{rows} rows of {w} bytes: {e}");
    let mut fits = Fits::from_reader(s.clone());
    fits.next();
    match fits.next() {
        Some(Ok(HDU::XASCIITable(h))) if ascii => {
            let x = h.get_header().get_xtension();
            if (x.get_naxis1(), x.get_naxis2(), x.get_num_rows() as u64, h.get_data_unit_byte_size()) != (w as u64, rows, rows, n) {
                return Err(tag(format!("{} rows of {} bytes announced", x.get_naxis2(), x.get_naxis1())));
            }
            whole(fits.get_data(&h), &s, offs[1], n).map_err(tag)?
        }
        Some(Ok(HDU::XBinaryTable(h))) if !ascii => whole(fits.get_data(&h).table_data().bytes(), &s, offs[1], n).map_err(tag)?,
        x => return Err(tag(format!("{x:?}"))),
    }
    check_small(&mut fits, &s, offs[2]).map_err(tag)
}
pub fn c19(ch: &mut Ch) -> R {
    raw_bytes(ch, true)
}
pub fn c11_bytes(ch: &mut Ch) -> R {
    raw_bytes(ch, false)
}

// ---------------------------------------------------------------------------------------------- C05

/// An asynchronous source of the same bytes, not ready before every `wait`-th read.
#[derive(Debug)]
struct Slow {
    s: Sparse,
    reads: u64,
    wait: u64,
}
impl futures::AsyncRead for Slow {
    fn poll_read(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>, buf: &mut [u8]) -> std::task::Poll<std::io::Result<usize>> {
        self.reads += 1;
        if self.wait > 0 && self.reads % self.wait == 0 {
            cx.waker().wake_by_ref();
            return std::task::Poll::Pending;
        }
        std::task::Poll::Ready(self.s.read(buf))
    }
}

/// Data units of more than 2 and 4 GiB, of which some values are read, and the HDU behind them.
pub fn c05(ch: &mut Ch) -> R {
    let n = ch.pick(&[(1u64 << 31) - 1, 1 << 31, (1 << 31) + 1, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 32) + 2881, (1 << 33) + 8]);
    let form = ch.choose(5);
    let (items, wait) = ch.pick(&[(0usize, 0u64), (3, 1000)]);
    let k = n as usize;
    let (kind, cards, n) = match form {
        0 => (Kind::Image, image_cards(Kind::Image, 8, &[k]), n),
        1 => (Kind::Image, image_cards(Kind::Image, -64, &[k / 8 + 1]), (n / 8 + 1) * 8),
        2 => (Kind::BinTable, bintable_cards(1, k, 0, &[("1B".into(), None)]), n),
        3 => (Kind::BinTable, bintable_cards(8, 2, k - 16, &[("1PB".into(), None)]), n),
        _ => (Kind::Ascii, ascii_cards(1, k, &[(1, "A1".into())]), n),
    };
    let (mut s, offs) = layout(&[(image_cards(Kind::Primary, 8, &[7]), 7), (cards, n), small_image()]);
    s.coarse = true;
    let what = format!("{kind:?} (form {form}) of {n} bytes, {items} items read, not ready every {wait} reads");
    ch.say(|| what.clone());
    ch.visit(&(form, n, items));
    let src = Slow { s: s.clone(), reads: 0, wait };
    let fits = fitsrs::async_fits::AsyncFits::from_reader(futures::io::BufReader::with_capacity(1 << 20, src));
    use crate::walk::{observe_async, Item, Take};
    let log = observe_async(fits, &[Take::All, Take::N(items), Take::All]).map_err(|e| format!("{what}: {e}"))?;
    let kinds: Vec<Kind> = log.hdus.iter().map(|h| h.kind).collect();
    if log.err || kinds != [Kind::Primary, kind, Kind::Image] {
        return Err(format!("{what}: HDUs {kinds:?}, then {}", if log.err { "an error" } else { "the end" }));
    }
    let want: Vec<Item> = match form {
        0 => pixels(8, &s.slice(offs[1], items)).into_iter().map(Item::Px).collect(),
        1 => pixels(-64, &s.slice(offs[1], items * 8)).into_iter().map(Item::Px).collect(),
        _ => s.slice(offs[1], items).into_iter().map(Item::Byte).collect(),
    };
    let last: Vec<Item> = pixels(16, &s.slice(offs[2], 10)).into_iter().map(Item::Px).collect();
    if log.hdus[1].items != want || log.hdus[2].items != last {
        return Err(format!("{what}: read {:?} and then {:?}, expected {want:?} and {last:?}", log.hdus[1].items, log.hdus[2].items));
    }
    Ok(())
}
