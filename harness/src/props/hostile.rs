//! C17: bytes that are not a well-formed FITS file.

use super::tiles::{self, Cmp};
use super::Prop;
use crate::engine::{Ch, Space, R};
use crate::gen::*;
use crate::obs::*;
use crate::walk::{files, observe_async, Src, Take};
use fitsrs::async_fits::AsyncFits;
use fitsrs::hdu::data::bintable::data::BinaryTableData;
use fitsrs::hdu::data::bintable::ColumnId;
use fitsrs::hdu::header::{Header, Xtension};
use fitsrs::hdu::HDU;
use fitsrs::Fits;
use std::fmt::Debug;
use std::io::{Cursor, Read, Seek};
use std::sync::{Arc, OnceLock};

pub static C17: Prop = Prop {
    id: "C17",
    level: "fault_enumeration",
    rule: "one execution = one sample file with one fault (every byte of its headers, every byte of its descriptors, heap and compressed \
           tiles, each replaced by every byte of a menu; thorough: by every byte), or with one or two header cards replaced by hostile values, \
           or one short byte string, read to the end in every access style by the synchronous and the asynchronous reader and through \
           the image decoder, watched for panic, abort, hang, endless iteration and memory held; state = (file, fault)",
    assumptions: &[
        "an execution may hold at most 4 MiB + 32 times the size of the file; the image decoder gets an allocation limit of 4 MiB through the image crate's own mechanism",
        "an iterator is endless when it gives more than 2 million items for a file of at most 30 kB, an execution hangs when it takes more than 45 s; rows of no byte at all (NAXIS1 = 0) are counted up to that number only",
        "compressed tiles that are valid and large are not hostile: gzip can hold a thousand times its size",
    ],
    spaces: &[
        Space { name: "header_bytes", body: header_bytes },
        Space { name: "data_bytes", body: data_bytes },
        Space { name: "keywords", body: keywords },
        Space { name: "descriptors", body: descriptors },
        Space { name: "rice_streams", body: rice_streams },
        Space { name: "bombs", body: bombs },
        Space { name: "any_bytes", body: any_bytes },
    ],
};

const CAP: u64 = 2_000_000;

#[derive(Clone, Copy, Debug, PartialEq)]
enum How {
    Values,
    Rows,
    Random,
    Bytes,
}

fn touch<X: Xtension + Debug>(h: &Header<X>) {
    let n = h.cards().count();
    let _ = h.history().count();
    for k in ["SIMPLE", "NAXIS1", "TFORM1", "ABSENT"] {
        let _ = h.get(k);
        let _ = h.get_parsed::<i64>(k);
        let _ = h.get_parsed::<Option<f32>>(k);
        let _ = h.get_parsed::<String>(k);
    }
    let m = h.get_xtension().get_num_bytes_data_block();
    std::hint::black_box((n, m));
}
fn count(n: &mut u64) -> Result<(), String> {
    *n += 1;
    if *n > CAP {
        return Err(format!("more than {CAP} items"));
    }
    Ok(())
}

fn consume<Rd: Read + Seek + Debug + 'static>(fits: &mut Fits<Rd>, how: How) -> Result<u64, String> {
    let mut n = 0u64;
    let mut hdus = 0;
    while let Some(h) = fits.next() {
        hdus += 1;
        if hdus > 2000 {
            return Err("endless HDUs".into());
        }
        let Ok(h) = h else { break };
        let _ = (h.get_data_unit_byte_offset(), h.get_data_unit_byte_size());
        match &h {
            HDU::Primary(h) | HDU::XImage(h) => {
                touch(h.get_header());
                let px = h.get_header().get_xtension().get_num_pixels();
                let mut it = pxit(fits.get_data(h).pixels());
                if how == How::Random {
                    for i in [0, px.wrapping_sub(1), px, 1, px / 2, u64::MAX, u64::MAX / 8, 1 << 61] {
                        let _ = it.at(i as usize);
                    }
                }
                while it.next_px().is_some() {
                    count(&mut n)?;
                }
                let _ = it.at(0);
            }
            HDU::XASCIITable(h) => {
                touch(h.get_header());
                let mut d = fits.get_data(h);
                let mut b = [0u8; 512];
                loop {
                    match d.read(&mut b) {
                        Ok(0) | Err(_) => break,
                        Ok(_) => count(&mut n)?,
                    }
                }
            }
            HDU::XBinaryTable(h) => {
                touch(h.get_header());
                let x = h.get_header().get_xtension();
                let rows = x.get_num_rows();
                let empty_rows = h.get_header().get_parsed::<i64>("NAXIS1").ok() == Some(0);
                let d = fits.get_data(h);
                match (how, d) {
                    (How::Bytes, d) => {
                        let mut b = d.table_data().bytes();
                        let mut s = [0u8; 512];
                        loop {
                            match b.read(&mut s) {
                                Ok(0) | Err(_) => break,
                                Ok(_) => count(&mut n)?,
                            }
                        }
                    }
                    (How::Rows, d) => {
                        let mut it = d.row_iter();
                        while let Some(r) = it.next() {
                            n += r.len() as u64;
                            if let Err(e) = count(&mut n) {
                                if empty_rows {
                                    break;
                                }
                                return Err(e);
                            }
                        }
                    }
                    (How::Random, d) => {
                        let mut t = d.table_data();
                        let n_cols = h.get_header().get_xtension().get_num_cols();
                        let mut ids = vec![ColumnId::Index(0), ColumnId::Name("c"), ColumnId::Index(1000), ColumnId::Index(usize::MAX)];
                        ids.extend((1..=3).map(|k| ColumnId::Index((n_cols + 1).wrapping_sub(k))));
                        let t = t.select_fields(&ids);
                        for r in [1, 0, rows.wrapping_sub(1), rows, usize::MAX, usize::MAX / 8, 2] {
                            let _ = t.seek_to_row(r);
                            let _ = t.next();
                        }
                        while t.next().is_some() {
                            if let Err(e) = count(&mut n) {
                                if empty_rows {
                                    break;
                                }
                                return Err(e);
                            }
                        }
                    }
                    (_, BinaryTableData::TileCompressed(mut p)) => {
                        while tcpx(&mut p).is_some() {
                            count(&mut n)?;
                        }
                        let _ = tcpx(&mut p);
                    }
                    (_, BinaryTableData::Table(mut t)) => {
                        while t.next().is_some() {
                            count(&mut n)?;
                        }
                        let _ = t.next();
                    }
                }
            }
        }
    }
    for _ in 0..2 {
        if fits.next().is_some() {
            return Err("an HDU or error is given after the end".into());
        }
    }
    Ok(n)
}

fn open_image(bytes: &[u8]) {
    fitsrs::image_integration::register_fits_decoding_hook();
    let Ok(mut r) = image::ImageReader::new(std::io::BufReader::new(Cursor::new(bytes))).with_guessed_format() else { return };
    let mut l = image::Limits::no_limits();
    l.max_alloc = Some(4 << 20);
    r.limits(l);
    let _ = r.decode();
}

/// Read it in every way.
fn survive(bytes: &[u8], what: impl Fn() -> String) -> R {
    let limit = (4 << 20) + 32 * bytes.len() as i64;
    for how in [How::Values, How::Rows, How::Random, How::Bytes] {
        let b = bytes.to_vec();
        let (r, held) = crate::peak(move || consume(&mut Fits::from_reader(Cursor::new(b)), how));
        r.map_err(|e| format!("{}, {how:?}: {e}", what()))?;
        if held > limit {
            return Err(format!("{}, {how:?}: {held} bytes of memory for a file of {}", what(), bytes.len()));
        }
    }
    let b = Arc::new(bytes.to_vec());
    let (r, held) = crate::peak(|| observe_async(AsyncFits::from_reader(futures::io::BufReader::new(Src::new(b))), &[Take::N(3), Take::All]));
    r.map_err(|e| format!("{}, asynchronous: {e}", what()))?;
    if held > limit + (16 << 20) {
        return Err(format!("{}, asynchronous: {held} bytes of memory for a file of {}", what(), bytes.len()));
    }
    let ((), held) = crate::peak(|| open_image(bytes));
    if held > limit + (16 << 20) {
        return Err(format!("{}, image decoder: {held} bytes of memory for a file of {}", what(), bytes.len()));
    }
    Ok(())
}

/// Sample files, with the places of their header cards and of their data.
struct Sample {
    name: &'static str,
    bytes: Vec<u8>,
    /// places of the header bytes in use
    heads: Vec<usize>,
    datas: Vec<usize>,
}
fn samples() -> &'static Vec<Sample> {
    static T: OnceLock<Vec<Sample>> = OnceLock::new();
    T.get_or_init(|| {
        let mut v = vec![];
        let mut push = |name, f: &FileB, hs: &[H]| {
            let (mut heads, mut datas) = (vec![], vec![]);
            let mut at = 0;
            for (h, off) in hs.iter().zip(&f.offs) {
                // the bytes of the cards in use, up to END and a little behind
                for k in 0..=h.cards.len() {
                    let last = if k < h.cards.len() { h.cards[k].iter().rposition(|b| *b != b' ').unwrap_or(0) + 3 } else { 10 };
                    heads.extend((0..last.min(80)).map(|i| at + 80 * k + i));
                }
                datas.extend(*off..*off + h.data.len());
                at = off + h.data.len().div_ceil(2880) * 2880;
            }
            v.push(Sample { name, bytes: f.bytes.clone(), heads, datas });
        };
        for (name, f, hs) in files().iter() {
            if *name != "full" {
                push(*name, f, hs);
            }
        }
        // long strings, hierarchical and commentary cards
        let mut h = image(Kind::Primary, 16, &[2], 3);
        for c in [
            "STR     = 'abc&'  / com",
            "CONTINUE  'de''f&' / ment",
            "CONTINUE  ' end'",
            "HIERARCH ESO A B = 'x' / [m] unit",
            "HISTORY  some text",
            "R       = -1.5D-03 / real",
            "U       =",
            "        blank",
        ] {
            h.cards.push(raw(c));
        }
        let hs = [h];
        push("cards", &file(&hs, b' '), &hs);
        // a quantised image with dither and columns of scale, zero and blank
        let hs = [empty_primary(), float_tiles()];
        push("dither", &file(&hs, b' '), &hs);
        v
    })
}
fn float_tiles() -> H {
    let px: Vec<i64> = (0..6).map(|i| i * 11 % 7).collect();
    let tl = tiles::tiles(&[3, 2], &[2, 2]);
    let enc = tl.iter().map(|ids| tiles::encode(&ids.iter().map(|i| px[*i]).collect::<Vec<_>>(), Cmp::Rice(4, 4))).collect();
    let mut s = tiles::spec(-32, &[3, 2], Some(vec![2, 2]), Cmp::Rice(4, 4), enc);
    let ex = |name: &'static str, form: &'static str, b: &[u8]| tiles::Extra { name: Some(name), form, rows: vec![b.to_vec(), b.to_vec()] };
    s.before = vec![ex("ZSCALE", "1D", &0.25f64.to_be_bytes())];
    s.after = vec![ex("ZZERO", "1E", &3f32.to_be_bytes()), ex("ZBLANK", "1J", &4i32.to_be_bytes())];
    s.cards = vec![st("ZQUANTIZ", "SUBTRACTIVE_DITHER_2"), int("ZDITHER0", 7)];
    tiles::compressed(&s)
}

const MENU: &[u8] = b" '/&=09-.ETF,()A\0\xff\n";

fn header_bytes(ch: &mut Ch) -> R {
    let s = &samples()[ch.choose(samples().len())];
    let at = s.heads[ch.choose(s.heads.len())];
    let b = if ch.thorough { ch.choose(256) as u8 } else { ch.pick(MENU) };
    if s.bytes[at] == b {
        return Ok(());
    }
    let mut m = s.bytes.clone();
    m[at] = b;
    ch.visit(&(s.name, at, b));
    ch.say(|| format!("{} byte {at}: {:?} -> {:?}", s.name, s.bytes[at] as char, b as char));
    survive(&m, || format!("file {:?}, header byte {at} (card {}, column {}): {:?}", s.name, at % 2880 / 80, at % 80, b as char))
}

fn data_bytes(ch: &mut Ch) -> R {
    let s = &samples()[ch.choose(samples().len())];
    let at = s.datas[ch.choose(s.datas.len())];
    let v = s.bytes[at];
    let b = if ch.thorough { ch.choose(256) as u8 } else { ch.pick(&[0, 1, 0x7f, 0x80, 0xff, v ^ 1, v ^ 2, v ^ 4, v ^ 8, v ^ 16, v ^ 32, v ^ 64, v ^ 128]) };
    if v == b {
        return Ok(());
    }
    let mut m = s.bytes.clone();
    m[at] = b;
    ch.visit(&(s.name, at, b));
    survive(&m, || format!("file {:?}, data byte {at}: {v:#x} -> {b:#x}", s.name))
}

/// A hostile value: None removes the card.
fn hostile(i: usize) -> Option<&'static str> {
    const T: &[Option<&str>] = &[
        None,
        Some("0"),
        Some("1"),
        Some("-1"),
        Some("2"),
        Some("7"),
        Some("999"),
        Some("1000"),
        Some("65536"),
        Some("2147483647"),
        Some("4294967296"),
        Some("1152921504606846976"),
        Some("2305843009213693952"),
        Some("9223372036854775807"),
        Some("-9223372036854775808"),
        Some("9223372036854775808"),
        Some("18446744073709551616"),
        Some("1.5"),
        Some("1E300"),
        Some("T"),
        Some("'1PB(9)'"),
        Some("'1QB(9)'"),
        Some("'2PJ'"),
        Some("'P'"),
        Some("'Q'"),
        Some("'1PZ'"),
        Some("'0J'"),
        Some("'1X'"),
        Some("'18446744073709551615X'"),
        Some("'99999999999999999999999D'"),
        Some("'2305843009213693952D'"),
        Some("'-1J'"),
        Some("''"),
        Some("'A'"),
        Some("'I9999999999999999999999'"),
        Some("'F8.99999999999999999999'"),
        Some("'RICE_1'"),
        Some("'GZIP_1'"),
        Some("'GZIP_2'"),
        Some("'HCOMPRESS_1'"),
        Some("'PLIO_1'"),
        Some("'NO_DITHER'"),
        Some("'SUBTRACTIVE_DITHER_1'"),
        Some("'COMPRESSED_DATA'"),
        Some("'ZSCALE'"),
        Some("'IMAGE'"),
        Some("'BINTABLE'"),
        Some("'TABLE'"),
        Some("1000000000"),
        Some("100000"),
        Some("'144115188075855872M'"),
        Some("'1152921504606846976M'"),
        Some("'4611686018427387905J'"),
        Some("'2305843009213693953C'"),
        Some("'9223372036854775809I'"),
        Some("'2305843009213693952PJ'"),
        Some("'1152921504606846977QB'"),
        Some("'2147483648D'"),
        Some("'100000000A'"),
    ];
    const { assert!(T.len() == NHOSTILE) };
    T[i]
}
const NHOSTILE: usize = 59;
/// In pairs: the numbers that matter for sizes.
const PAIRED: &[usize] = &[0, 1, 2, 3, 6, 9, 10, 11, 13, 16, 20, 23, 28, 48, 51];

/// Keyword cards of a hostile file: those it has and those it could have.
fn subjects() -> &'static Vec<(&'static str, Vec<H>, usize, Vec<String>)> {
    static T: OnceLock<Vec<(&'static str, Vec<H>, usize, Vec<String>)>> = OnceLock::new();
    T.get_or_init(|| {
        let mut v = vec![];
        let mut add = |name: &'static str, hs: Vec<H>, at: usize, more: &[&str]| {
            let mut k: Vec<String> = hs[at].cards.iter().map(|c| String::from_utf8_lossy(&c[..8]).trim().to_string()).collect();
            k.extend(more.iter().map(|s| s.to_string()));
            k.dedup();
            v.push((name, hs, at, k));
        };
        add("image", vec![image(Kind::Primary, 16, &[3, 2, 3], 1), image(Kind::Image, 8, &[3], 2)], 0, &["NAXIS4", "PCOUNT", "GCOUNT", "BSCALE", "BZERO", "BLANK"]);
        add("extension", vec![empty_primary(), image(Kind::Image, -64, &[3, 2], 1), image(Kind::Image, 8, &[3], 2)], 1, &["NAXIS3"]);
        add("ascii", vec![empty_primary(), ascii(7, 3, 7), image(Kind::Image, 8, &[3], 2)], 1, &["TBCOL2", "TFORM2"]);
        for (n, f) in [("flat", 3usize), ("heap", 4), ("gzip", 5), ("rice", 6), ("gzip2", 7)] {
            assert_eq!(files()[f].0, n);
            let more: &[&str] = match n {
                "flat" => &["THEAP", "TDIM1", "TNULL1"],
                "heap" => &["THEAP"],
                _ => &["THEAP", "ZQUANTIZ", "ZDITHER0", "ZBLANK", "BLANK", "ZSCALE", "ZZERO", "ZNAXIS3", "ZTILE3", "BSCALE"],
            };
            add(n, files()[f].2.clone(), 1, more);
        }
        add("dither", vec![empty_primary(), float_tiles()], 1, &["THEAP", "ZSCALE", "ZZERO", "ZBLANK", "BLANK"]);
        v
    })
}
fn replaced(h: &H, k: &str, v: Option<&str>) -> H {
    let mut h = h.clone();
    let c = v.map(|v| if v.starts_with('\'') { raw(&format!("{k:<8}= {v}")) } else { kv(k, v) });
    let at = h.cards.iter().position(|c| String::from_utf8_lossy(&c[..8]).trim() == k);
    match (at, c) {
        (Some(i), Some(c)) => h.cards[i] = c,
        (Some(i), None) => {
            h.cards.remove(i);
        }
        (None, Some(c)) => h.cards.push(c),
        (None, None) => {}
    }
    h
}
fn keywords(ch: &mut Ch) -> R {
    let (name, hs, at, ks) = &subjects()[ch.choose(subjects().len())];
    let a = ch.choose(ks.len());
    let pair = ch.flag();
    let (va, second) = if pair {
        // pairs of size-like values; every value for pairs in thorough
        let va = if ch.thorough { ch.choose(NHOSTILE) } else { ch.pick(PAIRED) };
        let b = ch.choose(ks.len());
        if b <= a {
            return Ok(());
        }
        let vb = ch.pick(PAIRED);
        (va, Some((b, vb)))
    } else {
        (ch.choose(NHOSTILE), None)
    };
    let mut hs = hs.clone();
    hs[*at] = replaced(&hs[*at], &ks[a], hostile(va));
    if let Some((b, vb)) = second {
        hs[*at] = replaced(&hs[*at], &ks[b], hostile(vb));
    }
    let what = || format!("file {name:?}, {} = {:?}{}", ks[a], hostile(va), second.map(|(b, v)| format!(", {} = {:?}", ks[b], hostile(v))).unwrap_or_default());
    ch.visit(&(name, a, va, second));
    ch.say(what);
    survive(&file(&hs, b' ').bytes, what)
}

/// Descriptors of variable-length arrays and tiles, with every pair of hostile counts and offsets.
fn descriptors(ch: &mut Ch) -> R {
    const V: &[u64] = &[0, 1, 2, 3, 8, 100, 2880, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 1 << 32, 1 << 40, 1 << 60, 1 << 61, i64::MAX as u64, 1 << 63, u64::MAX - 8, u64::MAX];
    let wide = ch.flag();
    let kind = ch.choose(5);
    let (n, o) = (ch.pick(V), ch.pick(V));
    let theap = ch.pick(&[None, Some(0i128), Some(7), Some(1 << 31), Some(i64::MAX as i128), Some(-1)]);
    let d: Vec<u8> = if wide { [n.to_be_bytes(), o.to_be_bytes()].concat() } else { [(n as u32).to_be_bytes(), (o as u32).to_be_bytes()].concat() };
    let mut h = if kind < 2 {
        let t = ["B", "D", "X", "C", "A"][ch.choose(5)];
        let form = format!("1{}{t}(9)", if wide { "Q" } else { "P" });
        let w = d.len() + 2;
        let heap = pat(40, 3);
        // a short column on either side, the hostile descriptor in the first or the second row
        let row = |bad: bool| -> Vec<u8> {
            let good: Vec<u8> = if wide { [1u64.to_be_bytes(), 8u64.to_be_bytes()].concat() } else { [1u32.to_be_bytes(), 8u32.to_be_bytes()].concat() };
            [vec![5], if bad { d.clone() } else { good }, vec![6]].concat()
        };
        let data = [row(kind == 0), row(kind == 1), heap].concat();
        H { kind: Kind::BinTable, cards: bintable_cards(w, 2, 40, &[("1B".into(), None), (form, Some("c".into())), ("1B".into(), None)]), data }
    } else {
        // the elements of the compressed tiles are bytes, or should be
        let t = ["B", "J", "D", "M"][ch.choose(4)];
        let cmp = [Cmp::Rice(4, 32), Cmp::Gz1(4), Cmp::Gz2(4)][kind - 2];
        let enc = vec![tiles::encode(&[1, 2, 3, 4], cmp), tiles::encode(&[5, 6], cmp)];
        let mut s = tiles::spec(32, &[3, 2], Some(vec![2, 2]), cmp, enc);
        s.wide = wide;
        let mut h = replaced(&tiles::compressed(&s), "TFORM1", Some(&format!("'1{}{t}(99)'", if wide { "Q" } else { "P" })));
        let row = if ch.flag() { d.len() } else { 0 };
        h.data[row..row + d.len()].copy_from_slice(&d);
        h
    };
    if let Some(t) = theap {
        h.cards.push(int("THEAP", t));
    }
    let bytes = file(&[empty_primary(), h, image(Kind::Image, 8, &[2], 1)], b' ').bytes;
    ch.visit(&(wide, kind, n, o, theap, &bytes));
    survive(&bytes, || format!("descriptor ({n}, {o}) wide {wide} kind {kind} THEAP {theap:?}"))
}

/// Gzip tiles that hold far more than their pixels.
fn bombs(ch: &mut Ch) -> R {
    static Z: OnceLock<[Vec<u8>; 2]> = OnceLock::new();
    let z = Z.get_or_init(|| [tiles::gz(&vec![0; 64 << 20]), tiles::gz(&vec![7; 9 << 20])]);
    let zbitpix = ch.pick(&[8i64, 16, 32, -32, -64]);
    let cmp = ch.pick(&[Cmp::Gz1(4), Cmp::Gz2(4), Cmp::Rice(4, 32)]);
    let (naxis, tile) = ch.pick(&[(vec![2usize, 2], vec![2usize, 1]), (vec![4], vec![4]), (vec![4, 1], vec![4, 100])]);
    let bad = ch.choose(2);
    let n = tiles::tiles(&naxis, &tile).len();
    let enc = (0..n).map(|_| z[bad].clone()).collect();
    let mut s = tiles::spec(zbitpix, &naxis, Some(tile), cmp, enc);
    s.share = true;
    let bytes = file(&[empty_primary(), tiles::compressed(&s), image(Kind::Image, 8, &[2], 1)], b' ').bytes;
    ch.visit(&(zbitpix, cmp, &naxis, bad));
    survive(&bytes, || format!("tiles of {} bytes hold {} MiB: bitpix {zbitpix} {cmp:?} {naxis:?}", z[bad].len(), [64, 9][bad]))
}

/// Every short Rice stream (the first bytes decide the mode of the first blocks).
fn rice_streams(ch: &mut Ch) -> R {
    let (bytepix, block) = ch.pick(&[(1usize, 32usize), (2, 32), (4, 32), (4, 1), (2, 4), (1, 255), (4, 0), (2, 0)]);
    let npix = ch.pick(&[1usize, 3, 6]);
    let lead = ch.range(0, bytepix);
    let mut b = vec![0u8; lead];
    if lead == bytepix {
        // behind the first pixel: mode bits and codes
        let n = ch.range(0, 3);
        for i in 0..n {
            b.push(if i == 0 { ch.choose(256) as u8 } else { ch.pick(if ch.thorough { &[0, 1, 2, 4, 8, 16, 32, 64, 128, 0xff, 0x7f, 0x55, 0xaa][..] } else { &[0, 1, 0x80, 0xff, 0x55][..] }) });
        }
    }
    let s = tiles::spec(32, &[npix, 1], None, Cmp::Rice(bytepix, block), vec![b.clone()]);
    let bytes = file(&[empty_primary(), tiles::compressed(&s)], b' ').bytes;
    ch.visit(&(bytepix, block, npix, &b));
    survive(&bytes, || format!("Rice stream {b:x?}, {npix} pixels, block {block}, {bytepix} bytes per pixel"))
}

/// Arbitrary short files and files of arbitrary cards.
fn any_bytes(ch: &mut Ch) -> R {
    const P: &[&[u8]] = &[b"", b" ", b"S", b"\0", b"\xff", b"SIMPLE  =", b"SIMPLE  =                    T", b"XTENSION= 'IMAGE   '", b"XTENSION= 'BINTABLE'", b"END", b"'", b"=", b"/", b"CONTINUE  '&'", b"HIERARCH =", b"HIERARCH", b"BITPIX  =                    8", b"NAXIS   =                    0", b"\x1f\x8b\x08\0\0\0\0\0\0\0", b"\xc3\x28", b"\xf0\x9f\x98\x80"];
    let n = ch.range(0, if ch.thorough { 4 } else { 3 });
    let mut m = vec![];
    let form = ch.choose(3);
    let mut parts = vec![];
    for _ in 0..n {
        let p = ch.pick(P);
        parts.push(p);
        m.extend_from_slice(p);
        if form > 0 {
            while m.len() % 80 != 0 {
                m.push(b' ');
            }
        }
    }
    if form == 2 {
        while m.len() % 2880 != 0 {
            m.push(b' ');
        }
    }
    ch.visit(&(&parts, form));
    survive(&m, || format!("bytes {parts:x?}, form {form}"))
}
