//! C01: walking the HDUs of a file gives every HDU once, in order, with the right kind, position and size,
//! whatever was done with the data of the previous ones.

use super::Prop;
use crate::engine::{Ch, Space, R};
use crate::gen::*;
use crate::obs::*;
use fitsrs::hdu::data::bintable::data::BinaryTableData;
use fitsrs::hdu::data::bintable::ColumnId;
use fitsrs::hdu::HDU;
use fitsrs::Fits;
use std::fmt::Debug;
use std::io::{BufReader, Cursor, Read, Seek};
use std::sync::Arc;

pub static P: Prop = Prop {
    id: "C01",
    level: "model_checking",
    rule: "one execution = one file (sequence of HDUs by kind, data size, header length, padding) x one access history \
           (what is read of each HDU before asking for the next) x one reader; state = (HDU index, kind, size, action, \
           reader); every combination within the bounds is run on the real iterator and compared with the layout the \
           writer produced",
    assumptions: &["files are well formed up to the padding of the last data unit"],
    spaces: &[
        Space { name: "histories", body: histories },
        Space { name: "layouts", body: layouts },
        Space { name: "mixed", body: mixed },
        Space { name: "many", body: many },
        Space { name: "bystanders", body: super::bystanders::c01 },
        Space { name: "huge", body: super::huge::c01 },
    ],
};

/// Binary table with a heap, so that reading it makes the reader wander: 2 columns (1J, 1PB).
pub fn vla_table(rows: usize, salt: usize) -> H {
    let heap: Vec<u8> = pat(5 * rows.max(1), salt);
    let mut data = vec![];
    for r in 0..rows {
        data.extend_from_slice(&((r as i32 + 7) * 1000).to_be_bytes());
        data.extend_from_slice(&(5u32).to_be_bytes());
        data.extend_from_slice(&((5 * r) as u32).to_be_bytes());
    }
    data.extend(&heap);
    H {
        kind: Kind::BinTable,
        cards: bintable_cards(12, rows, heap.len(), &[("1J".into(), Some("N".into())), ("1PB(5)".into(), Some("V".into()))]),
        data,
    }
}

/// As [`vla_table`], with unused bytes between the rows and the heap, or with arrays said to lie far behind the data unit.
pub fn odd_table(rows: usize, salt: usize, outside: bool) -> H {
    let mut h = vla_table(rows, salt);
    let gap = 7;
    if outside {
        for r in 0..rows {
            h.data[12 * r + 8..12 * r + 12].copy_from_slice(&(6000 * (r as u32 + 1)).to_be_bytes());
        }
        return h;
    }
    let heap = h.data.split_off(12 * rows);
    h.data.extend(vec![0x55; gap]);
    h.data.extend(&heap);
    h.cards = bintable_cards(12, rows, gap + heap.len(), &[("1J".into(), Some("N".into())), ("1PB(5)".into(), Some("V".into()))]);
    h.cards.push(int("THEAP", (12 * rows + gap) as i128));
    h
}

/// Plain binary table of `w` bytes per row.
pub fn flat_table(w: usize, rows: usize, salt: usize) -> H {
    H {
        kind: Kind::BinTable,
        cards: bintable_cards(w, rows, 0, &[(format!("{w}B"), Some("B".into()))]),
        data: pat(w * rows, salt),
    }
}

/// GZIP_1 tile-compressed i16 image (4-byte big-endian integers per pixel), one tile per row of the image.
pub fn tile_table(w: usize, h: usize) -> H {
    use std::io::Write;
    let mut main = vec![];
    let mut heap = vec![];
    for y in 0..h {
        let mut e = flate2::write::GzEncoder::new(vec![], flate2::Compression::default());
        for x in 0..w {
            e.write_all(&((y * w + x) as i32 * 3 - 5).to_be_bytes()).unwrap();
        }
        let z = e.finish().unwrap();
        main.extend_from_slice(&(z.len() as u32).to_be_bytes());
        main.extend_from_slice(&(heap.len() as u32).to_be_bytes());
        heap.extend(z);
    }
    let mut cards = bintable_cards(8, h, heap.len(), &[("1PB".into(), Some("COMPRESSED_DATA".into()))]);
    cards.push(log("ZIMAGE", true));
    cards.push(st("ZCMPTYPE", "GZIP_1"));
    cards.push(int("ZBITPIX", 16));
    cards.push(int("ZNAXIS", 2));
    cards.push(int("ZNAXIS1", w as i128));
    cards.push(int("ZNAXIS2", h as i128));
    main.extend(heap);
    H { kind: Kind::BinTable, cards, data: main }
}

fn small(ch: &mut Ch, first: bool, i: usize) -> H {
    if first {
        match ch.choose(4) {
            0 => empty_primary(),
            1 => image(Kind::Primary, 16, &[3, 2], i),
            2 => image(Kind::Primary, 8, &[2880], i),
            _ => image(Kind::Primary, -32, &[721], i),
        }
    } else {
        match ch.choose(11) {
            0 => image(Kind::Image, 32, &[5], i),
            1 => image(Kind::Image, 8, &[0, 4], i),
            2 => image(Kind::Image, -64, &[1081], i),
            3 => ascii(7, 3, i),
            4 => ascii(0, 0, i),
            5 => ascii(45, 64, i),
            6 => vla_table(2, i),
            7 => flat_table(96, 91, i),
            8 => odd_table(2, i, false),
            9 => odd_table(3, i, true),
            _ => tile_table(3, 2),
        }
    }
}

/// What is done with one HDU before moving on.
fn act<Rd: Read + Seek + Debug + 'static>(fits: &mut Fits<Rd>, hdu: &HDU, ch: &mut Ch) -> Result<usize, String> {
    let kind = kind_of(hdu);
    let n = match kind {
        Kind::Primary | Kind::Image => 6,
        Kind::Ascii => 4,
        Kind::BinTable => 10,
    };
    let a = ch.choose(n);
    if a == 0 {
        return Ok(0); // skip
    }
    match hdu {
        HDU::Primary(h) | HDU::XImage(h) => {
            let npx = h.get_header().get_xtension().get_num_pixels() as usize;
            let d = fits.get_data(h);
            let mut it = pxit(d.pixels());
            match a {
                1 => {}
                2 => {
                    let _ = it.next_px();
                }
                3 => while it.next_px().is_some() {},
                4 => {
                    // last pixel, then the first
                    let _ = it.at(npx.saturating_sub(1));
                    let _ = it.at(0);
                }
                _ => {
                    let _ = it.at(npx / 2);
                    let _ = it.at(npx + 3);
                    while it.next_px().is_some() {}
                }
            }
        }
        HDU::XASCIITable(h) => {
            let mut d = fits.get_data(h);
            match a {
                1 => {}
                2 => {
                    let mut b = [0u8; 3];
                    let _ = d.read(&mut b);
                }
                _ => {
                    let mut v = vec![];
                    let _ = d.read_to_end(&mut v);
                }
            }
        }
        HDU::XBinaryTable(h) => {
            let d = fits.get_data(h);
            match a {
                1 => drop(d),
                2 => match d {
                    BinaryTableData::TileCompressed(mut p) => {
                        let _ = tcpx(&mut p);
                    }
                    BinaryTableData::Table(mut t) => {
                        // one value of the main table, then one of the heap if there is one
                        let _ = t.next();
                        let _ = t.next();
                    }
                },
                3 => match d {
                    BinaryTableData::TileCompressed(mut p) => while tcpx(&mut p).is_some() {},
                    BinaryTableData::Table(mut t) => while t.next().is_some() {},
                },
                4 => {
                    let mut r = d.row_iter();
                    let _ = r.next();
                }
                5 => {
                    let r = d.row_iter();
                    let _ = r.count();
                }
                6 => {
                    let mut t = d.table_data();
                    let _ = t.seek_to_row(1);
                    let _ = t.next();
                    let _ = t.next();
                }
                7 => {
                    let mut t = d.table_data();
                    t.select_fields(&[ColumnId::Index(0)]);
                    let _ = t.seek_to_row(0);
                    let _ = t.next();
                }
                8 => {
                    let mut b = vec![];
                    let _ = d.table_data().bytes().read_to_end(&mut b);
                }
                _ => {
                    let mut b = [0u8; 2];
                    let _ = d.table_data().bytes().read(&mut b);
                }
            }
        }
    }
    Ok(a)
}

fn walk<Rd: Read + Seek + Debug + 'static>(
    mut fits: Fits<Rd>,
    hs: &[H],
    f: &FileB,
    ch: &mut Ch,
    with_actions: bool,
    rd: usize,
) -> R {
    for (i, h) in hs.iter().enumerate() {
        ch.step();
        let hdu = match fits.next() {
            Some(Ok(x)) => x,
            Some(Err(e)) => return Err(format!("HDU {i}: error {e:?} instead of {:?}", h.kind)),
            None => return Err(format!("HDU {i} of {}: end of file reported", hs.len())),
        };
        let (k, o, s) = (kind_of(&hdu), hdu.get_data_unit_byte_offset(), hdu.get_data_unit_byte_size());
        if k != h.kind {
            return Err(format!("HDU {i}: kind {k:?}, expected {:?}", h.kind));
        }
        if o != f.offs[i] as u64 {
            return Err(format!("HDU {i}: data at {o}, expected {}", f.offs[i]));
        }
        if s != h.data.len() as u64 {
            return Err(format!("HDU {i}: data size {s}, expected {}", h.data.len()));
        }
        if fits.get_position_data_unit() as u64 != o {
            return Err(format!("HDU {i}: current data unit position {} differs from {o}", fits.get_position_data_unit()));
        }
        let ncards = h.cards.len() + 1;
        let got = match &hdu {
            HDU::Primary(x) | HDU::XImage(x) => x.get_header().cards().count(),
            HDU::XBinaryTable(x) => x.get_header().cards().count(),
            HDU::XASCIITable(x) => x.get_header().cards().count(),
        };
        if got != ncards {
            return Err(format!("HDU {i}: {got} cards, expected {ncards}"));
        }
        let a = if with_actions { act(&mut fits, &hdu, ch)? } else { 0 };
        ch.say(|| format!("HDU{i} {:?} {}B @{} action {a}", h.kind, h.data.len(), f.offs[i]));
        ch.visit(&(i, h.kind, h.data.len(), ncards, a, rd, hs.len()));
    }
    for k in 0..3 {
        ch.step();
        match fits.next() {
            None => {}
            Some(Ok(h)) => return Err(format!("after the last HDU, call {k}: extra {:?}", kind_of(&h))),
            Some(Err(e)) => return Err(format!("after the last HDU, call {k}: error {e:?}")),
        }
    }
    Ok(())
}

pub fn with_reader(rd: usize, bytes: Vec<u8>, hs: &[H], f: &FileB, ch: &mut Ch, actions: bool) -> R {
    match rd {
        0 => walk(Fits::from_reader(Cursor::new(bytes)), hs, f, ch, actions, rd),
        1 => walk(Fits::from_reader(BufReader::new(Cursor::new(bytes))), hs, f, ch, actions, rd),
        2 => walk(Fits::from_reader(BufReader::with_capacity(7, Cursor::new(bytes))), hs, f, ch, actions, rd),
        _ => walk(Fits::from_reader(Short { data: Arc::new(bytes), pos: 0, max: 1000 }), hs, f, ch, actions, rd),
    }
}

/// Sequences of HDUs x access histories.
fn histories(ch: &mut Ch) -> R {
    let max = if ch.thorough { 4 } else { 3 };
    let n = ch.range(1, max);
    let rd = if n >= 3 && !ch.thorough { 1 } else { ch.choose(4) };
    let mut hs = vec![];
    for i in 0..n {
        hs.push(small(ch, i == 0, i));
    }
    let f = file(&hs, b' ');
    let bytes = f.bytes.clone();
    with_reader(rd, bytes, &hs, &f, ch, true)
}

/// Sizes around the block size, header lengths around the block size, unpadded last data unit, fill bytes.
fn layouts(ch: &mut Ch) -> R {
    let sizes = [0usize, 1, 2, 79, 80, 2878, 2879, 2880, 2881, 5759, 5760, 5761, 8192, 14400];
    let ncards = [0usize, 35, 36, 37, 71, 72, 73];
    let n = ch.range(1, 2);
    let mut hs = vec![];
    for i in 0..n {
        let k = if i == 0 { Kind::Primary } else { ch.pick(&[Kind::Image, Kind::BinTable, Kind::Ascii]) };
        let sz = ch.pick(&sizes);
        let nc = ch.pick(&ncards);
        let h = match k {
            Kind::BinTable => {
                // part of the size as rows, the rest as heap
                let main = sz / 2;
                let mut h = flat_table(1, main, i);
                h.cards = bintable_cards(1, main, sz - main, &[("1B".into(), None)]);
                h.data = pat(sz, i);
                h
            }
            Kind::Ascii => ascii(1, sz, i),
            k => image(k, 8, &[sz], i),
        };
        hs.push(grow(h, nc));
    }
    let fill = ch.pick(&[0u8, b'E', 0xff]);
    let f = file(&hs, fill);
    let mut bytes = f.bytes.clone();
    if ch.flag() {
        // the file stops right after the last data byte
        bytes.truncate(f.data_end);
    }
    let rd = if ch.thorough { ch.choose(4) } else { 1 };
    with_reader(rd, bytes, &hs, &f, ch, false)
}

fn sized(k: Kind, sz: usize, nc: usize, i: usize) -> H {
    let h = match k {
        Kind::BinTable => {
            let main = sz / 2;
            let mut h = flat_table(1, main, i);
            h.cards = bintable_cards(1, main, sz - main, &[("1B".into(), None)]);
            h.data = pat(sz, i);
            h
        }
        Kind::Ascii => ascii(1, sz, i),
        k => image(k, 8, &[sz], i),
    };
    grow(h, nc)
}

/// Sizes and header lengths around the block size together with access histories, the last data unit unpadded or not.
fn mixed(ch: &mut Ch) -> R {
    let rd = ch.choose(4);
    let mut hs = vec![];
    for i in 0..2 {
        let k = if i == 0 { Kind::Primary } else { ch.pick(&[Kind::Image, Kind::BinTable, Kind::Ascii]) };
        let sz = ch.pick(&[0usize, 1, 2879, 2880, 2881, 8193]);
        let nc = ch.pick(&[0usize, 36, 37]);
        hs.push(sized(k, sz, nc, i));
    }
    let f = file(&hs, 0xff);
    let mut bytes = f.bytes.clone();
    if ch.flag() {
        bytes.truncate(f.data_end);
    }
    with_reader(rd, bytes, &hs, &f, ch, true)
}

/// Files of many HDUs, long headers.
fn many(ch: &mut Ch) -> R {
    let n = ch.pick(&[20usize, 255, 256, 257, 1000]);
    let long = ch.flag();
    let every = ch.range(1, 4);
    let rd = ch.choose(4);
    let kinds = [Kind::Image, Kind::BinTable, Kind::Ascii];
    let hs: Vec<H> = (0..n)
        .map(|i| {
            let k = if i == 0 { Kind::Primary } else { kinds[(i / every) % 3] };
            sized(k, [0usize, 5, 2880, 3000][i % 4], if long && i % 5 == 0 { 300 } else { 0 }, i)
        })
        .collect();
    let f = file(&hs, 0xff);
    let bytes = f.bytes.clone();
    with_reader(rd, bytes, &hs, &f, ch, false)
}
