//! C02 (image pixels) and C03 (random access to pixels).

use super::Prop;
use crate::engine::{Ch, Space, R};
use crate::gen::*;
use crate::obs::*;
use fitsrs::hdu::header::Bitpix;
use fitsrs::hdu::HDU;
use fitsrs::Fits;
use std::fmt::Debug;
use std::io::{BufReader, Cursor, Read, Seek};
use std::sync::Arc;

pub static C02: Prop = Prop {
    id: "C02",
    level: "model_checking",
    rule: "one execution = one image (BITPIX x axis vector x data content x HDU position x reader), read to the end and \
           compared value by value with an independent big-endian decoder; all 8- and 16-bit values occur, other types \
           at their boundary bit patterns; state = (bitpix, axes, content, position, reader)",
    assumptions: &["axis lengths within the enumerated bounds"],
    spaces: &[Space { name: "shapes", body: shapes }, Space { name: "values", body: values }, Space { name: "bystanders", body: bystanders }, Space { name: "huge", body: super::huge::c02 }],
};

pub static C03: Prop = Prop {
    id: "C03",
    level: "model_checking",
    rule: "one execution = one sequence of next / read-by-index operations on one image; model state = (BITPIX, number \
           of pixels, index of the next sequential pixel); every operation sequence up to the depth bound is run on the \
           real iterator and each answer compared with the model",
    assumptions: &["images of at most 4 (thorough: 5) pixels in full, larger ones at the enumerated indices; depth as stated"],
    spaces: &[Space { name: "ops", body: ops }, Space { name: "far", body: far }, Space { name: "huge", body: super::huge::c03 }, Space { name: "faults", body: faults }],
};

pub const BP: [i64; 6] = [8, 16, 32, 64, -32, -64];

pub fn bp(b: Bitpix) -> i64 {
    b as i8 as i64
}

/// Boundary bit patterns of a type, repeated to `n` values.
fn boundary(bitpix: i64) -> Vec<u8> {
    let sz = bitpix_size(bitpix);
    let mut pats: Vec<u64> = vec![0, 1, 0x7f, 0x80, 0xff, 0x100, 0x0102030405060708, 0x8070605040302010, u64::MAX, 1 << 63, (1 << 63) - 1];
    pats.extend([1u64 << 31, (1 << 31) - 1, 0x7f800000, 0xff800000, 0x7fc00001, 0x7f800001, 0x00000001, 0x80000000]);
    pats.extend([0x7ff0000000000000, 0xfff0000000000000, 0x7ff8000000000001, 0x7ff0000000000001, 0x3ff0000000000000, 0x3f800000, 0xdeadbeef]);
    for i in 0..64 {
        pats.push(1 << i);
        pats.push(!(1 << i));
    }
    let mut v = vec![];
    for p in pats {
        v.extend_from_slice(&p.to_be_bytes()[8 - sz..]);
    }
    v
}

fn check_image<Rd: Read + Seek + Debug + 'static>(mut fits: Fits<Rd>, at: usize, bitpix: i64, axes: &[usize], data: &[u8]) -> R {
    let mut hdu = None;
    for i in 0..=at {
        hdu = Some(match fits.next() {
            Some(Ok(h)) => h,
            x => return Err(format!("HDU {i}: {x:?}")),
        });
    }
    let want = pixels(bitpix, data);
    let (HDU::Primary(h) | HDU::XImage(h)) = hdu.unwrap() else { return Err("not an image HDU".into()) };
    let x = h.get_header().get_xtension();
    if bp(x.get_bitpix()) != bitpix || x.get_bitpix().byte_size() != bitpix.unsigned_abs() as usize / 8 {
        return Err(format!("bitpix {:?}, expected {bitpix}", x.get_bitpix()));
    }
    let ax: Vec<u64> = axes.iter().map(|a| *a as u64).collect();
    if x.get_naxis() != ax {
        return Err(format!("axes {:?}, expected {ax:?}", x.get_naxis()));
    }
    if x.get_num_pixels() != want.len() as u64 {
        return Err(format!("{} pixels announced, expected {}", x.get_num_pixels(), want.len()));
    }
    let mut it = pxit(fits.get_data(&h).pixels());
    for (i, w) in want.iter().enumerate() {
        match it.next_px() {
            Some(p) if p == *w => {}
            g => return Err(format!("pixel {i} of {}: got {g:?}, expected {w:?}", want.len())),
        }
    }
    for _ in 0..2 {
        if let Some(p) = it.next_px() {
            return Err(format!("more than {} pixels: {p:?}", want.len()));
        }
    }
    drop(it);
    Ok(())
}

fn check_raw(bytes: Vec<u8>, at: usize, data: &[u8]) -> R {
    let mut fits = Fits::from_reader(Cursor::new(bytes));
    for _ in 0..at {
        fits.next();
    }
    match fits.next() {
        Some(Ok(HDU::Primary(h) | HDU::XImage(h))) => {
            let d = fits.get_data(&h);
            let r = d.raw_bytes();
            if r != data {
                return Err(format!("raw bytes: {} bytes differ from the {} bytes of the data unit", r.len(), data.len()));
            }
        }
        x => return Err(format!("{x:?}")),
    }
    Ok(())
}

fn run(ch: &mut Ch, bitpix: i64, axes: &[usize], data: Vec<u8>, tag: usize) -> R {
    let place = ch.choose(3);
    let mut hs = vec![];
    match place {
        0 => hs.push(H { kind: Kind::Primary, cards: image_cards(Kind::Primary, bitpix, axes), data: data.clone() }),
        1 => {
            hs.push(empty_primary());
            hs.push(H { kind: Kind::Image, cards: image_cards(Kind::Image, bitpix, axes), data: data.clone() });
        }
        _ => {
            hs.push(image(Kind::Primary, 16, &[7], 9));
            hs.push(H { kind: Kind::Image, cards: image_cards(Kind::Image, bitpix, axes), data: data.clone() });
            hs.push(image(Kind::Image, 8, &[5], 8));
        }
    }
    let at = place.min(1);
    let f = file(&hs, 0xAA);
    let rd = ch.choose(5);
    ch.say(|| format!("bitpix {bitpix} axes {axes:?} content {tag} place {place} reader {rd}"));
    ch.visit(&(bitpix, axes, tag, place, rd));
    match rd {
        0 => check_image(Fits::from_reader(Cursor::new(f.bytes)), at, bitpix, axes, &data),
        1 => check_image(Fits::from_reader(BufReader::new(Cursor::new(f.bytes))), at, bitpix, axes, &data),
        2 => check_image(Fits::from_reader(BufReader::with_capacity(13, Cursor::new(f.bytes))), at, bitpix, axes, &data),
        3 => check_image(Fits::from_reader(Short { data: Arc::new(f.bytes), pos: 0, max: 3 }), at, bitpix, axes, &data),
        _ => check_raw(f.bytes, at, &data),
    }
}

fn shapes(ch: &mut Ch) -> R {
    let bitpix = ch.pick(&BP);
    // all axis vectors up to 4 (5) axes of length 0..3, plus some longer ones
    let long: [&[usize]; 7] = [&[360], &[2880], &[1441], &[40, 9], &[17, 3, 7], &[1, 1, 1, 1, 1, 1, 1, 1, 2], &[5, 0, 7]];
    let k = ch.choose(3);
    let axes: Vec<usize> = if k == 2 {
        // many axes, many pixels
        match ch.choose(9) {
            k if k < 6 => {
                let n = [9usize, 10, 11, 99, 100, 999][k];
                (0..n).map(|i| if i + 1 == n { 3 } else if i == n / 2 { 2 } else { 1 }).collect()
            }
            6 => vec![8193],
            7 => vec![65537],
            _ => vec![257, 300],
        }
    } else if k == 0 {
        let n = ch.range(0, if ch.thorough { 5 } else { 4 });
        (0..n).map(|_| ch.range(0, 3)).collect()
    } else {
        ch.pick(&long).to_vec()
    };
    let data = pat(image_len(bitpix, &axes), 3);
    run(ch, bitpix, &axes, data, 0)
}

/// Keywords that say something of the values, or nothing at all: the pixels are those stored.
fn bystanders(ch: &mut Ch) -> R {
    use super::bystanders::*;
    let bitpix = ch.pick(&BP);
    let ext = ch.flag();
    let tw = choose(ch, if ext { On::Image } else { On::Primary }, true);
    let data = match bitpix {
        8 => (0..=255u8).collect(),
        b => boundary(b),
    };
    let axes = [data.len() / bitpix_size(bitpix)];
    let kind = if ext { Kind::Image } else { Kind::Primary };
    let mut h = H { kind, cards: image_cards(kind, bitpix, &axes), data: data.clone() };
    twist(&mut h, &tw);
    let hs = if ext { vec![empty_primary(), h] } else { vec![h] };
    let bytes = file(&hs, 0xAA).bytes;
    ch.say(|| format!("bitpix {bitpix} extension {ext} cards {:?}", tw.id));
    ch.visit(&(bitpix, ext, tw.id));
    let tag = |e: String| format!("with {}: {e}", show(&tw));
    check_image(Fits::from_reader(Cursor::new(bytes.clone())), ext as usize, bitpix, &axes, &data).map_err(tag)?;
    ch.exec();
    check_raw(bytes, ext as usize, &data).map_err(tag)
}

fn values(ch: &mut Ch) -> R {
    let bitpix = ch.pick(&BP);
    let data: Vec<u8> = match bitpix {
        8 => (0..=255u8).collect(),
        16 => (0..=65535u16).flat_map(|v| v.to_be_bytes()).collect(),
        b => boundary(b),
    };
    let n = data.len() / bitpix_size(bitpix);
    run(ch, bitpix, &[n], data, 1)
}

fn ops_on<Rd: Read + Seek + Debug + 'static>(mut fits: Fits<Rd>, ch: &mut Ch, at: usize, bitpix: i64, data: &[u8], rd: usize) -> R {
    let mut hdu = None;
    for i in 0..=at {
        hdu = Some(match fits.next() {
            Some(Ok(h)) => h,
            x => return Err(format!("HDU {i}: {x:?}")),
        });
    }
    let want = pixels(bitpix, data);
    let n = want.len();
    let (HDU::Primary(h) | HDU::XImage(h)) = hdu.unwrap() else { return Err("not an image HDU".into()) };
    {
        let mut it = pxit(fits.get_data(&h).pixels());
        let mut pos = 0usize;
        let depth = if ch.thorough { 7 } else { 5 };
        let mut hist = vec![];
        for _ in 0..depth {
            // 0: next; 1..=n: index; n+1: just out of range; n+2: far out of range
            let op = ch.choose(n + 3);
            ch.step();
            hist.push(op as isize - 1);
            if op == 0 {
                let g = it.next_px();
                let w = want.get(pos).copied();
                if g != w {
                    return Err(format!("ops {hist:?} (-1 = next): sequential read gave {g:?}, expected {w:?} (pixel {pos} of {n})"));
                }
                if pos < n {
                    pos += 1;
                }
            } else {
                let i = if op == n + 2 { usize::MAX / 16 } else { op - 1 };
                let g = it.at(i);
                match (g, want.get(i)) {
                    (Ok(g), Some(w)) if g == *w => pos = i + 1,
                    (Err(_), None) => {}
                    (g, w) => return Err(format!("ops {hist:?} (-1 = next): read of index {i} gave {g:?}, expected {w:?} ({n} pixels)")),
                }
            }
            ch.visit(&(bitpix, n, pos, rd));
        }
        // and what remains is the rest of the array
        while pos < n {
            let g = it.next_px();
            if g != Some(want[pos]) {
                return Err(format!("ops {hist:?} then to the end: pixel {pos} read as {g:?}, expected {:?}", want[pos]));
            }
            pos += 1;
        }
        if let Some(x) = it.next_px() {
            return Err(format!("ops {hist:?}: extra pixel {x:?}"));
        }
        ch.say(|| format!("bitpix {bitpix} n {n} reader {rd} ops {hist:?}"));
    }
    match fits.next() {
        Some(Ok(HDU::XImage(h))) => {
            let mut it = pxit(fits.get_data(&h).pixels());
            if it.next_px() != Some(pixels(8, &pat(5, 8))[0]) {
                return Err("the next HDU does not start with its first pixel".into());
            }
            Ok(())
        }
        x => Err(format!("next HDU after random access: {x:?}")),
    }
}

fn ops(ch: &mut Ch) -> R {
    let bitpix = ch.pick(&BP);
    let n = ch.range(0, if ch.thorough { 5 } else { 4 });
    let data = pat(n * bitpix_size(bitpix), 5);
    let place = ch.choose(2);
    let mut hs = vec![];
    if place == 1 {
        hs.push(image(Kind::Primary, 32, &[3], 1));
    }
    let kind = if place == 0 { Kind::Primary } else { Kind::Image };
    hs.push(H { kind, cards: image_cards(kind, bitpix, &[n]), data: data.clone() });
    hs.push(image(Kind::Image, 8, &[5], 8));
    let f = file(&hs, 0xAA);
    let rd = ch.choose(3);
    match rd {
        0 => ops_on(Fits::from_reader(Cursor::new(f.bytes)), ch, place, bitpix, &data, rd),
        1 => ops_on(Fits::from_reader(BufReader::new(Cursor::new(f.bytes))), ch, place, bitpix, &data, rd),
        _ => ops_on(Fits::from_reader(BufReader::with_capacity(5, Cursor::new(f.bytes))), ch, place, bitpix, &data, rd),
    }
}

/// Larger images: indices around the sizes of blocks and buffers, several reads in between.
fn far(ch: &mut Ch) -> R {
    let bitpix = ch.pick(&BP);
    let axes: Vec<usize> = ch.pick(&[&[9000usize][..], &[130, 70], &[2, 3, 1500]]).to_vec();
    let n: usize = axes.iter().product();
    let data = pat(n * bitpix_size(bitpix), 5);
    let place = ch.choose(2);
    let mut hs = vec![];
    if place == 1 {
        hs.push(image(Kind::Primary, 32, &[3], 1));
    }
    let kind = if place == 0 { Kind::Primary } else { Kind::Image };
    hs.push(H { kind, cards: image_cards(kind, bitpix, &axes), data: data.clone() });
    hs.push(image(Kind::Image, 8, &[5], 8));
    let f = file(&hs, 0xAA);
    let rd = ch.choose(3);
    match rd {
        0 => far_on(Fits::from_reader(Cursor::new(f.bytes)), ch, place, bitpix, &data, rd),
        1 => far_on(Fits::from_reader(BufReader::new(Cursor::new(f.bytes))), ch, place, bitpix, &data, rd),
        _ => far_on(Fits::from_reader(BufReader::with_capacity(1000, Cursor::new(f.bytes))), ch, place, bitpix, &data, rd),
    }
}

fn far_on<Rd: Read + Seek + Debug + 'static>(mut fits: Fits<Rd>, ch: &mut Ch, at: usize, bitpix: i64, data: &[u8], rd: usize) -> R {
    let mut hdu = None;
    for i in 0..=at {
        hdu = Some(match fits.next() {
            Some(Ok(h)) => h,
            x => return Err(format!("HDU {i}: {x:?}")),
        });
    }
    let (HDU::Primary(h) | HDU::XImage(h)) = hdu.unwrap() else { return Err("not an image HDU".into()) };
    let want = |i: usize| {
        let s = bitpix_size(bitpix);
        (i < data.len() / s).then(|| pixels(bitpix, &data[i * s..(i + 1) * s])[0])
    };
    let n = data.len() / bitpix_size(bitpix);
    let idx = [0usize, 1, 130, 359, 360, 1023, 1024, 2047, 2880, 8191, 8192, n - 1, n, n + 1];
    {
        let mut it = pxit(fits.get_data(&h).pixels());
        let mut pos = 0usize;
        let mut hist: Vec<String> = vec![];
        for _ in 0..if ch.thorough { 4 } else { 3 } {
            let o = ch.choose(3 + idx.len());
            ch.step();
            if o < 3 {
                // one, a few or many pixels in order
                let k = [1usize, 3, 1200][o];
                hist.push(format!("next x {k}"));
                for _ in 0..k {
                    let (g, w) = (it.next_px(), want(pos));
                    if g != w {
                        return Err(format!("bitpix {bitpix} {hist:?}: pixel {pos} of {n} read as {g:?}, expected {w:?}"));
                    }
                    if w.is_none() {
                        break;
                    }
                    pos += 1;
                }
            } else {
                let i = idx[o - 3];
                hist.push(format!("at {i}"));
                match (it.at(i), want(i)) {
                    (Ok(g), Some(w)) if g == w => pos = i + 1,
                    (Err(_), None) => {}
                    (g, w) => return Err(format!("bitpix {bitpix} {hist:?}: index {i} of {n} gave {g:?}, expected {w:?}")),
                }
            }
            ch.visit(&(bitpix, n, pos, rd));
        }
        let (g, w) = (it.next_px(), want(pos));
        if g != w {
            return Err(format!("bitpix {bitpix} {hist:?}: then pixel {pos} of {n} read as {g:?}, expected {w:?}"));
        }
        ch.say(|| format!("bitpix {bitpix} n {n} reader {rd} {hist:?}"));
    }
    match fits.next() {
        Some(Ok(HDU::XImage(h))) => {
            let mut it = pxit(fits.get_data(&h).pixels());
            if it.next_px() != Some(pixels(8, &pat(5, 8))[0]) {
                return Err("the next HDU does not start with its first pixel".into());
            }
            Ok(())
        }
        x => Err(format!("next HDU after random access: {x:?}")),
    }
}

/// Sequential and indexed reads around a fault: the source ends or fails (for ever, once) at a byte of the data. What
/// is delivered is the pixel asked for; a pixel is refused only because of the fault or after it.
pub fn faults(ch: &mut Ch) -> R {
    let bitpix = ch.pick(&BP);
    let n = 4usize;
    let sz = bitpix_size(bitpix);
    let data = pat(n * sz, 5);
    let f = file(&[image(Kind::Primary, 32, &[3], 1), H { kind: Kind::Image, cards: image_cards(Kind::Image, bitpix, &[n]), data: data.clone() }], 0xAA);
    let kind = ch.choose(5);
    let k = if kind < 3 { ch.range(0, n * sz) } else { n * sz };
    let at = f.offs[1] + k;
    let rd = ch.choose(3);
    let mut src = crate::walk::Src::new(Arc::new(if kind == 0 { f.bytes[..at].to_vec() } else { f.bytes.clone() }));
    let mut nth = 0;
    if kind > 2 {
        nth = ch.choose(9);
        src.fail_seek = Some(nth);
        src.once = kind == 4;
    } else if kind > 0 {
        src.fail_at = Some(at as u64);
        src.once = kind == 2;
    }
    let what = format!("bitpix {bitpix}, source {} at byte {k} of the data, or seek {nth}", ["ending", "failing for ever", "failing once", "no more seeking", "refusing one seek"][kind]);
    let sf = src.seek_failed.clone();
    match rd {
        0 => faults_on(Fits::from_reader(src), ch, bitpix, &data, k, kind, rd, &sf),
        1 => faults_on(Fits::from_reader(BufReader::with_capacity(5, src)), ch, bitpix, &data, k, kind, rd, &sf),
        _ => faults_on(Fits::from_reader(crate::walk::Src { max: 1, ..src }), ch, bitpix, &data, k, kind, rd, &sf),
    }
    .map_err(|e| format!("{what}: {e}"))
}

fn faults_on<Rd: Read + Seek + Debug + 'static>(mut fits: Fits<Rd>, ch: &mut Ch, bitpix: i64, data: &[u8], k: usize, kind: usize, rd: usize, sf: &std::sync::atomic::AtomicBool) -> R {
    let refused = || sf.load(std::sync::atomic::Ordering::Relaxed);
    fits.next();
    let h = match fits.next() {
        _ if kind > 2 && refused() => return Ok(()),
        Some(Ok(HDU::XImage(h))) => h,
        x => return Err(format!("{x:?}")),
    };
    let want = pixels(bitpix, data);
    let (n, sz) = (want.len(), bitpix_size(bitpix));
    let mut it = pxit(fits.get_data(&h).pixels());
    // the pixels that may come next, and whether a read has failed
    let mut may = vec![0usize];
    let mut failed = false;
    let mut hist: Vec<isize> = vec![];
    for _ in 0..if ch.thorough { 6 } else { 4 } {
        let op = ch.choose(n + 1);
        ch.step();
        hist.push(op as isize - 1);
        let ok = |i: usize| !failed && !refused() && (i + 1) * sz <= k;
        if op == 0 {
            match it.next_px() {
                Some(g) => match may.iter().find(|i| want.get(**i) == Some(&g)) {
                    Some(i) => may = vec![i + 1],
                    None => return Err(format!("ops {hist:?} (-1 = next): sequential read gave {g:?}, which is none of the pixels {may:?}")),
                },
                None if ok(may[0]) && may[0] < n => return Err(format!("ops {hist:?} (-1 = next): pixel {} not delivered", may[0])),
                None if may[0] < n => failed = true,
                None => {}
            }
        } else {
            let i = op - 1;
            match it.at(i) {
                Ok(g) if g == want[i] => may = vec![i + 1],
                Ok(g) => return Err(format!("ops {hist:?} (-1 = next): index {i} gave {g:?}, expected {:?}", want[i])),
                Err(_) if ok(i) => return Err(format!("ops {hist:?} (-1 = next): pixel {i} not delivered")),
                Err(_) => {
                    may.push(i);
                    failed = true;
                }
            }
        }
        ch.visit(&(bitpix, k, kind, rd, may[0], failed));
    }
    ch.say(|| format!("bitpix {bitpix} fault {kind} at {k} reader {rd} ops {hist:?}"));
    Ok(())
}
