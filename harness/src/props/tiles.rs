//! C14 (integer tile compression) and C15 (quantised float tiles), with an independent encoder.

use super::table::{close, open};
use super::Prop;
use crate::engine::{Ch, Space, R};
use crate::gen::*;
use crate::obs::*;
use fitsrs::hdu::data::bintable::data::BinaryTableData;
use fitsrs::Fits;
use std::fmt::Debug;
use std::io::{BufReader, Cursor, Read, Seek, Write};

pub static C14: Prop = Prop {
    id: "C14",
    level: "model_checking",
    rule: "one execution = one compressed image (shape, tiling, pixel type, compression, per-block encoder decisions, \
           heap order, table layout), encoded by an independent encoder, decoded by the real reader and compared pixel by \
           pixel; state = the configuration",
    assumptions: &["pixels are delivered tile after tile, each tile in its own row-major order"],
    spaces: &[
        Space { name: "shapes", body: shapes },
        Space { name: "coding", body: coding },
        Space { name: "layout", body: layout },
        Space { name: "damage", body: damage },
        Space { name: "heap", body: heap },
        Space { name: "params", body: params },
        Space { name: "big", body: big },
        Space { name: "narrow", body: narrow },
        Space { name: "zeros", body: zeros },
        Space { name: "columns", body: columns },
        Space { name: "bystanders", body: bystanders },
    ],
};
pub static C15: Prop = Prop {
    id: "C15",
    level: "model_checking",
    rule: "one execution = one quantised image (scale/zero/blank sources, column order, dither method and seed, tiling, \
           compression), decoded by the real reader and compared with an independent restoration (exact zeros and NaN, \
           otherwise within the rounding of single precision); state = the configuration",
    assumptions: &[
        "dither index as in CFITSIO, with a missing ZDITHER0 taken as 1: with R counted from 0, tile n (from 1) has i0 = n-1+ZDITHER0-1 mod 10000, starts at floor(500 R[i0]) and advances by one per pixel; past the end of R, i0 is incremented and it starts again at floor(500 R[i0])",
        "values are delivered in single precision",
    ],
    spaces: &[Space { name: "options", body: options }, Space { name: "long", body: long }, Space { name: "seeds", body: seeds }, Space { name: "numbers", body: numbers }, Space { name: "many", body: many }, Space { name: "narrow", body: narrow_floats }, Space { name: "blanks", body: blanks }, Space { name: "bystanders", body: float_bystanders }, Space { name: "unusable", body: unusable }, Space { name: "lossless", body: lossless }],
};

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Cmp {
    /// bytes per pixel, block size
    Rice(usize, usize),
    /// bytes per pixel
    Gz1(usize),
    Gz2(usize),
}

struct Bits {
    v: Vec<u8>,
    n: usize,
}
impl Bits {
    fn put(&mut self, x: u64, n: usize) {
        for i in (0..n).rev() {
            if self.n % 8 == 0 {
                self.v.push(0);
            }
            if (x >> i) & 1 == 1 {
                *self.v.last_mut().unwrap() |= 0x80 >> (self.n % 8);
            }
            self.n += 1;
        }
    }
}
fn rice_par(bytepix: usize) -> (usize, i64, usize) {
    match bytepix {
        1 => (3, 6, 8),
        2 => (4, 14, 16),
        _ => (5, 25, 32),
    }
}
/// Mapped differences of a sequence.
fn diffs(px: &[i64], bytepix: usize) -> Vec<u64> {
    let bits = 8 * bytepix;
    let mask = if bits == 64 { u64::MAX } else { (1u64 << bits) - 1 };
    let mut last = px[0];
    px.iter()
        .map(|p| {
            let d = p.wrapping_sub(last) as u64 & mask;
            last = *p;
            // sign-extend
            let sd = if d >> (bits - 1) & 1 == 1 { (d | !mask) as i64 } else { d as i64 };
            (if sd < 0 { !(sd << 1) } else { sd << 1 }) as u64 & mask
        })
        .collect()
}
/// The codings allowed for a block: -1 all equal, fsmax verbatim, otherwise split bits.
fn codings(d: &[u64], bytepix: usize) -> Vec<i64> {
    let (_, fsmax, _) = rice_par(bytepix);
    let mut v = vec![fsmax];
    if d.iter().all(|x| *x == 0) {
        v.push(-1);
    }
    for fs in 0..fsmax {
        if d.iter().all(|x| x >> fs <= 80) {
            v.push(fs);
        }
    }
    v
}
pub fn rice(px: &[i64], bytepix: usize, block: usize, pick: &mut dyn FnMut(&[i64]) -> i64) -> Vec<u8> {
    let (fsbits, fsmax, bbits) = rice_par(bytepix);
    let mut b = Bits { v: px[0].to_be_bytes()[8 - bytepix..].to_vec(), n: 8 * bytepix };
    let d = diffs(px, bytepix);
    for blk in d.chunks(block) {
        let fs = pick(&codings(blk, bytepix));
        b.put((fs + 1) as u64, fsbits);
        if fs < 0 {
            continue;
        }
        for x in blk {
            if fs == fsmax {
                b.put(*x, bbits);
            } else {
                for _ in 0..x >> fs {
                    b.put(0, 1);
                }
                b.put(1, 1);
                b.put(x & ((1 << fs) - 1), fs as usize);
            }
        }
    }
    b.v
}
pub fn gz(bytes: &[u8]) -> Vec<u8> {
    let mut e = flate2::write::GzEncoder::new(vec![], flate2::Compression::default());
    e.write_all(bytes).unwrap();
    e.finish().unwrap()
}
pub fn encode(px: &[i64], c: Cmp) -> Vec<u8> {
    match c {
        // the shortest coding
        Cmp::Rice(b, block) => rice(px, b, block, &mut |c| *c.iter().min_by_key(|f| if **f < 0 { -1 } else { (**f - 3).abs() }).unwrap()),
        Cmp::Gz1(s) => gz(&px.iter().flat_map(|p| p.to_be_bytes()[8 - s..].to_vec()).collect::<Vec<_>>()),
        Cmp::Gz2(s) => {
            let mut v = vec![];
            for k in 0..s {
                v.extend(px.iter().map(|p| p.to_be_bytes()[8 - s + k]));
            }
            gz(&v)
        }
    }
}

/// Pixel indices of every tile, in file order.
pub fn tiles(naxis: &[usize], tile: &[usize]) -> Vec<Vec<usize>> {
    let nt: Vec<usize> = naxis.iter().zip(tile).map(|(n, t)| n.div_ceil(*t)).collect();
    let total: usize = nt.iter().product();
    let mut out = vec![];
    for k in 0..total {
        // position of the tile
        let mut r = k;
        let pos: Vec<usize> = nt
            .iter()
            .map(|n| {
                let p = r % n;
                r /= n;
                p
            })
            .collect();
        let lo: Vec<usize> = pos.iter().zip(tile).map(|(p, t)| p * t).collect();
        let hi: Vec<usize> = lo.iter().zip(tile).zip(naxis).map(|((l, t), n)| (l + t).min(*n)).collect();
        let mut ids = vec![];
        let size: usize = lo.iter().zip(&hi).map(|(l, h)| h - l).product();
        for j in 0..size {
            let mut r = j;
            let mut idx = 0;
            let mut stride = 1;
            for a in 0..naxis.len() {
                let w = hi[a] - lo[a];
                idx += (lo[a] + r % w) * stride;
                r /= w;
                stride *= naxis[a];
            }
            ids.push(idx);
        }
        out.push(ids);
    }
    out
}

/// A column besides the compressed data, with its bytes for every row.
#[derive(Clone)]
pub struct Extra {
    pub form: &'static str,
    pub name: Option<&'static str>,
    pub rows: Vec<Vec<u8>>,
}

pub struct Spec {
    pub zbitpix: i64,
    pub naxis: Vec<usize>,
    /// None: no ZTILE cards
    pub tile: Option<Vec<usize>>,
    pub cmp: Cmp,
    /// compressed bytes of every tile
    pub enc: Vec<Vec<u8>>,
    pub reversed: bool,
    pub wide: bool,
    pub gap: usize,
    /// columns before and after the compressed data
    pub before: Vec<Extra>,
    pub after: Vec<Extra>,
    pub cards: Vec<CardB>,
    pub defaults: bool,
    pub name: &'static str,
    /// order of the tiles in the heap (unless reversed), bytes between them
    pub order: Option<Vec<usize>>,
    pub sep: usize,
    /// tiles with the same bytes share them
    pub share: bool,
    /// ZNAMEn / ZVALn pairs instead of the usual ones
    pub params: Option<Vec<(usize, &'static str, i128)>>,
    pub twist: Option<super::bystanders::Twist>,
}
pub fn compressed(s: &Spec) -> H {
    let n = s.enc.len();
    let mut heap = pat(s.gap, 40);
    let mut at = vec![0; n];
    let order: Vec<usize> = match &s.order {
        Some(o) => o.clone(),
        None if s.reversed => (0..n).rev().collect(),
        None => (0..n).collect(),
    };
    let mut put: Vec<usize> = vec![];
    for k in order {
        match put.iter().find(|p| s.share && s.enc[**p] == s.enc[k]) {
            Some(p) => at[k] = at[*p],
            None => {
                heap.extend(pat(s.sep, 50));
                at[k] = heap.len() - s.gap;
                heap.extend_from_slice(&s.enc[k]);
            }
        }
        put.push(k);
    }
    let mut data = vec![];
    for r in 0..n {
        for e in &s.before {
            data.extend_from_slice(&e.rows[r]);
        }
        if s.wide {
            data.extend((s.enc[r].len() as u64).to_be_bytes());
            data.extend((at[r] as u64).to_be_bytes());
        } else {
            data.extend((s.enc[r].len() as u32).to_be_bytes());
            data.extend((at[r] as u32).to_be_bytes());
        }
        for e in &s.after {
            data.extend_from_slice(&e.rows[r]);
        }
    }
    let main = data.len();
    let w = if n == 0 { 0 } else { main / n };
    data.extend(heap);
    let mut cols = vec![];
    let ex = |e: &Extra| (e.form.to_string(), e.name.map(String::from));
    cols.extend(s.before.iter().map(ex));
    cols.push((if s.wide { "1QB(99)" } else { "1PB(99)" }.to_string(), Some(s.name.to_string())));
    cols.extend(s.after.iter().map(ex));
    let mut c = bintable_cards(w, n, data.len() - main, &cols);
    if s.gap > 0 {
        c.push(int("THEAP", (main + s.gap) as i128));
    }
    c.push(log("ZIMAGE", true));
    c.push(int("ZBITPIX", s.zbitpix as i128));
    c.push(int("ZNAXIS", s.naxis.len() as i128));
    for (i, a) in s.naxis.iter().enumerate() {
        c.push(int(&format!("ZNAXIS{}", i + 1), *a as i128));
    }
    if let Some(t) = &s.tile {
        for (i, a) in t.iter().enumerate() {
            c.push(int(&format!("ZTILE{}", i + 1), *a as i128));
        }
    }
    match s.cmp {
        Cmp::Rice(b, block) => {
            c.push(st("ZCMPTYPE", if s.reversed { "RICE_ONE" } else { "RICE_1" }));
            if let Some(ps) = &s.params {
                for (i, name, v) in ps {
                    c.push(st(&format!("ZNAME{i}"), name));
                    c.push(int(&format!("ZVAL{i}"), *v));
                }
            }
            if s.params.is_none() &&  !(s.defaults && block == 32) {
                c.push(st("ZNAME1", "BLOCKSIZE"));
                c.push(int("ZVAL1", block as i128));
            }
            if s.params.is_none() && !(s.defaults && b == 4) {
                c.push(st("ZNAME2", "BYTEPIX"));
                c.push(int("ZVAL2", b as i128));
            }
        }
        Cmp::Gz1(_) => c.push(st("ZCMPTYPE", "GZIP_1")),
        Cmp::Gz2(_) => c.push(st("ZCMPTYPE", "GZIP_2")),
    }
    c.extend_from_slice(&s.cards);
    let mut h = H { kind: Kind::BinTable, cards: c, data };
    if let Some(t) = &s.twist {
        super::bystanders::twist(&mut h, t);
    }
    h
}

pub fn around(h: H) -> Vec<u8> {
    file(&[image(Kind::Primary, 16, &[3], 4), h, image(Kind::Image, 8, &[5], 8)], 0x5A).bytes
}
fn want_px(bitpix: i64, v: i64) -> Px {
    match bitpix {
        8 => Px::U8(v as u8),
        16 => Px::I16(v as i16),
        _ => Px::I32(v as i32),
    }
}

/// Read the compressed image of a file and hand its pixels to `f`.
fn read<Rd: Read + Seek + Debug + 'static>(
    mut fits: Fits<Rd>,
    s: &Spec,
    stop: Option<usize>,
    f: &mut dyn FnMut(usize, Option<Px>) -> R,
    n: usize,
) -> R {
    let h = open(&mut fits)?;
    {
        let x = h.get_header().get_xtension();
        let Some(z) = x.get_z_image() else { return Err("not recognised as a tile-compressed image".into()) };
        let ax: Vec<u64> = s.naxis.iter().map(|a| *a as u64).collect();
        if z.z_naxisn[..] != ax[..] || z.z_bitpix as i8 as i64 != s.zbitpix {
            return Err(format!("announced {:?} bitpix {:?}, expected {ax:?} {}", z.z_naxisn, z.z_bitpix, s.zbitpix));
        }
        let BinaryTableData::TileCompressed(mut p) = fits.get_data(&h) else { return Err("read as a plain table".into()) };
        use fitsrs::hdu::data::bintable::tile_compressed::pixels::Pixels::*;
        let ty = match &p {
            U8(_) => 8,
            I16(_) => 16,
            I32(_) => 32,
            F32(_) => -32,
            F64(_) => -64,
        };
        if ty != s.zbitpix {
            return Err(format!("pixels of type {ty}, expected {}", s.zbitpix));
        }
        for i in 0..n + 2 {
            if stop == Some(i) {
                break;
            }
            f(i, tcpx(&mut p))?;
        }
    }
    close(&mut fits)
}

fn compare(ch: &mut Ch, s: &Spec, px: &[i64], tl: &[Vec<usize>], readers: usize) -> R {
    let bytes = around(compressed(s));
    let want: Vec<Px> = tl.iter().flatten().map(|i| want_px(s.zbitpix, px[*i])).collect();
    let mut f = |i: usize, g: Option<Px>| {
        if g != want.get(i).copied() {
            return Err(format!("pixel {i} of {}: got {g:?}, expected {:?}", want.len(), want.get(i)));
        }
        Ok(())
    };
    let tag = |e: String| format!("bitpix {} axes {:?} tiles {:?} {:?}: {e}", s.zbitpix, s.naxis, s.tile, s.cmp);
    for k in 0..readers {
        ch.exec();
        match k {
            0 => read(Fits::from_reader(Cursor::new(bytes.clone())), s, None, &mut f, want.len()),
            1 => read(Fits::from_reader(BufReader::with_capacity(17, Cursor::new(bytes.clone()))), s, None, &mut f, want.len()),
            2 => read(Fits::from_reader(BufReader::new(Cursor::new(bytes.clone()))), s, Some(want.len() / 2 + 1), &mut f, want.len()),
            _ => read(Fits::from_reader(Cursor::new(bytes.clone())), s, Some(1), &mut f, want.len()),
        }
        .map_err(tag)?;
    }
    Ok(())
}

fn cmps(bitpix: i64) -> Vec<Cmp> {
    let mut v = vec![Cmp::Rice(4, 32), Cmp::Gz1(4), Cmp::Gz2(4)];
    if bitpix <= 16 {
        v.extend([Cmp::Rice(2, 32), Cmp::Gz1(2), Cmp::Gz2(2)]);
    }
    if bitpix == 8 {
        v.extend([Cmp::Rice(1, 32), Cmp::Gz1(1), Cmp::Gz2(1)]);
    }
    v
}
fn clampv(bitpix: i64, v: i64) -> i64 {
    match bitpix {
        8 => v as u8 as i64,
        16 => v as i16 as i64,
        _ => v as i32 as i64,
    }
}
fn ramp(bitpix: i64, n: usize) -> Vec<i64> {
    (0..n as i64).map(|i| clampv(bitpix, 3 + 7 * i + 1000 * i * (i % 3))).collect()
}
pub fn spec(zbitpix: i64, naxis: &[usize], tile: Option<Vec<usize>>, cmp: Cmp, enc: Vec<Vec<u8>>) -> Spec {
    Spec {
        zbitpix,
        naxis: naxis.to_vec(),
        tile,
        cmp,
        enc,
        reversed: false,
        wide: false,
        gap: 0,
        before: vec![],
        after: vec![],
        cards: vec![],
        defaults: false,
        name: "COMPRESSED_DATA",
        order: None,
        sep: 0,
        share: false,
        params: None,
        twist: None,
    }
}

fn shapes(ch: &mut Ch) -> R {
    let bitpix = ch.pick(&[8i64, 16, 32]);
    let (mx, my) = if ch.thorough { (6, 5) } else { (5, 4) };
    let dims = ch.range(1, 3);
    let naxis: Vec<usize> = match dims {
        1 => vec![ch.range(1, 2 * mx)],
        2 => vec![ch.range(1, mx), ch.range(1, my)],
        _ => vec![ch.range(1, 3), ch.range(1, 3), ch.range(1, 3)],
    };
    let explicit = ch.flag();
    let tile: Vec<usize> = if explicit {
        naxis.iter().map(|n| ch.range(1, n + 1)).collect()
    } else {
        naxis.iter().enumerate().map(|(i, n)| if i == 0 { *n } else { 1 }).collect()
    };
    ch.say(|| format!("bitpix {bitpix} axes {naxis:?} tiles {tile:?} explicit {explicit}"));
    ch.visit(&(bitpix, &naxis, &tile, explicit));
    let px = ramp(bitpix, naxis.iter().product());
    let tl = tiles(&naxis, &tile);
    for (k, cmp) in cmps(bitpix).into_iter().enumerate() {
        let enc = tl.iter().map(|ids| encode(&ids.iter().map(|i| px[*i]).collect::<Vec<_>>(), cmp)).collect();
        let mut s = spec(bitpix, &naxis, explicit.then(|| tile.clone()), cmp, enc);
        s.reversed = k % 2 == 1;
        s.defaults = k % 2 == 0;
        compare(ch, &s, &px, &tl, 2)?;
    }
    Ok(())
}

/// Long tiles (past the buffers the decoders fill at a time) and images of many tiles.
fn big(ch: &mut Ch) -> R {
    let bitpix = ch.pick(&[8i64, 16, 32]);
    let mut cs = cmps(bitpix);
    cs.extend([Cmp::Rice(4, 16), Cmp::Rice(4, 1), Cmp::Rice(4, 255)]);
    let cmp = ch.pick(&cs);
    let shapes: [(&[usize], &[usize]); 9] = [
        (&[1023], &[1023]),
        (&[1025], &[1025]),
        (&[32769], &[32769]),
        (&[70001], &[70001]),
        (&[300, 300], &[300, 300]),
        (&[65537], &[65536]),
        (&[300, 3], &[1, 1]),
        (&[2, 66000], &[2, 1]),
        (&[520, 260], &[257, 129]),
    ];
    let (naxis, tile) = ch.pick(&shapes);
    // smooth, or every pixel far from the one before
    let rough = ch.flag();
    let n: usize = naxis.iter().product();
    let px: Vec<i64> = (0..n as i64)
        .map(|i| clampv(bitpix, if rough { i.wrapping_mul(0x9E3779B97F4A7C15u64 as i64) >> 20 } else { i / 3 + (i % 5) * 2 }))
        .collect();
    ch.say(|| format!("bitpix {bitpix} axes {naxis:?} tiles {tile:?} {cmp:?} rough {rough}"));
    ch.visit(&(bitpix, naxis, tile, cmp, rough));
    let tl = tiles(naxis, tile);
    let enc = tl.iter().map(|ids| encode(&ids.iter().map(|i| px[*i]).collect::<Vec<_>>(), cmp)).collect();
    let s = spec(bitpix, naxis, Some(tile.to_vec()), cmp, enc);
    compare(ch, &s, &px, &tl, 2)
}

/// Gzip tiles of integers narrower than the pixels, each tile with its own width.
/// Keywords that say something of the values or of the uncompressed image, or nothing at all.
fn bystanders(ch: &mut Ch) -> R {
    use super::bystanders::{choose, show, On};
    let bitpix = ch.pick(&[8i64, 16, 32]);
    let cmp = ch.pick(&cmps(bitpix));
    let tw = choose(ch, On::IntTiles, ch.thorough);
    let (naxis, tile) = ([5usize, 3], vec![3usize, 2]);
    let tl = tiles(&naxis, &tile);
    let mut px = ramp(bitpix, 15);
    for (i, x) in [0i64, 255, -32768, -2147483648, 1].iter().enumerate() {
        px[3 * i] = clampv(bitpix, *x);
    }
    let enc = tl.iter().map(|t| encode(&t.iter().map(|i| px[*i]).collect::<Vec<_>>(), cmp)).collect();
    let mut s = spec(bitpix, &naxis, Some(tile), cmp, enc);
    s.twist = Some(tw.clone());
    ch.say(|| format!("bitpix {bitpix} {cmp:?} cards {:?}", tw.id));
    ch.visit(&(bitpix, cmp, tw.id));
    compare(ch, &s, &px, &tl, 1).map_err(|e| format!("with {}: {e}", show(&tw)))
}
/// Tiles that cannot be restored: nothing is delivered from there on, however often it is asked for.
fn unusable(ch: &mut Ch) -> R {
    let bitpix = ch.pick(&[-32i64, -64]);
    let cmp = ch.pick(&[Cmp::Rice(4, 32), Cmp::Gz1(4), Cmp::Gz2(4)]);
    let dither = ch.choose(4);
    // the scaling is not a number, or the bytes of a tile are missing
    let what = ch.choose(6);
    let bad = if what >= 4 { ch.choose(4) } else { 0 };
    let (naxis, tile) = ([4usize, 3], vec![3usize, 2]);
    let tl = tiles(&naxis, &tile);
    let px: Vec<i64> = (0..12).map(|i| 100 + 7 * i).collect();
    let mut enc: Vec<Vec<u8>> = tl.iter().map(|t| encode(&t.iter().map(|i| px[*i]).collect::<Vec<_>>(), cmp)).collect();
    match what {
        4 => enc[bad].clear(),
        5 => enc[bad].truncate(4),
        _ => {}
    }
    let mut s = spec(bitpix, &naxis, Some(tile), cmp, enc);
    let o = Opt { dither, seed: (dither >= 2).then_some(3), scale: vec![0.5; 4], zero: vec![-2.0; 4], blank: vec![None; 4] };
    let num = |n: &'static str, v: &[f64]| Extra { form: "1D", name: Some(n), rows: v.iter().map(|x| x.to_be_bytes().to_vec()).collect() };
    let txt = |n: &'static str, f: &'static str| Extra { form: f, name: Some(n), rows: vec![if f == "1L" { b"T".to_vec() } else { b"1.5".to_vec() }; 4] };
    s.after = match what {
        0 => vec![txt("ZSCALE", "3A"), num("ZZERO", &o.zero)],
        1 => vec![num("ZSCALE", &o.scale), txt("ZZERO", "3A")],
        2 => vec![txt("ZSCALE", "1L"), num("ZZERO", &o.zero)],
        3 => vec![num("ZSCALE", &o.scale), txt("ZZERO", "1L")],
        _ => vec![num("ZSCALE", &o.scale), num("ZZERO", &o.zero)],
    };
    if dither > 0 {
        s.cards.push(st("ZQUANTIZ", ["", "NO_DITHER", "SUBTRACTIVE_DITHER_1", "SUBTRACTIVE_DITHER_2"][dither]));
    }
    if let Some(x) = o.seed {
        s.cards.push(int("ZDITHER0", x as i128));
    }
    ch.say(|| format!("bitpix {bitpix} {cmp:?} dither {dither} unusable {what} tile {bad}"));
    ch.visit(&(bitpix, cmp, dither, what, bad));
    let tag = |e: String| format!("bitpix {bitpix} {cmp:?} dither {dither} unusable {what} tile {bad}: {e}");
    let mut fits = Fits::from_reader(Cursor::new(around(compressed(&s))));
    let h = open(&mut fits).map_err(tag)?;
    let good: Vec<(f64, f64)> = (0..bad).flat_map(|t| tl[t].iter().enumerate().map(|(k, i)| restore(&o, t, k, px[*i])).collect::<Vec<_>>()).collect();
    if let BinaryTableData::TileCompressed(mut p) = fits.get_data(&h) {
        for i in 0..24 {
            let g = tcpx(&mut p);
            let ok = match (&g, good.get(i)) {
                (None, None) => true,
                (Some(Px::F32(b)), Some((w, tol))) => (f32::from_bits(*b) as f64 - w).abs() <= *tol,
                _ => false,
            };
            if !ok {
                return Err(tag(format!("pixel {i}: got {g:?}, {} pixels can be restored", good.len())));
            }
        }
    } else if what >= 4 {
        return Err(tag("read as a plain table".into()));
    }
    close(&mut fits).map_err(tag)
}
/// Floats compressed as they are, without quantisation: no scale and no zero point anywhere. They are not read as
/// integers: the table is given as such (or, were it supported, the floats themselves).
fn lossless(ch: &mut Ch) -> R {
    let bitpix = ch.pick(&[-32i64, -64]);
    let size = bitpix.unsigned_abs() as usize / 8;
    let cmp = if ch.flag() { Cmp::Gz2(size) } else { Cmp::Gz1(size) };
    let (naxis, tile) = ch.pick(&[(vec![5usize, 3], vec![5usize, 1]), (vec![5, 3], vec![3, 2]), (vec![5, 3], vec![5, 3]), (vec![1], vec![1]), (vec![4, 2, 2], vec![3, 1, 2]), (vec![130, 97], vec![130, 97])]);
    let shift = ch.choose(if naxis[0] > 100 { 1 } else { 12 });
    let (quant, blank, cols) = (ch.pick(&["", "NONE", "NO_DITHER"]), ch.choose(3), ch.choose(3));
    // every tile is well, or one is not of floats of this size
    let bad = ch.choose(3);
    let tl = tiles(&naxis, &tile);
    let bad_at = if bad > 0 { Some(ch.choose(tl.len().min(2))) } else { None };
    const V: [f64; 12] = [1.0, -2.5, 0.0, -0.0, 1e-30, 3.4e38, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 123456.789, 1e-45, -32768.0];
    const W: [f64; 6] = [1e300, -1e-300, std::f64::consts::PI, 16777217.0, 5e-324, f64::MAX];
    let vals: Vec<f64> = (0..naxis.iter().product())
        .map(|i: usize| if size == 8 && i % 3 == 1 { W[(i + shift) % 6] } else { V[(i + shift) % 12] } )
        .collect();
    let bits: Vec<i64> = vals.iter().map(|v| if size == 4 { (*v as f32).to_bits() as i64 } else { v.to_bits() as i64 }).collect();
    let mut enc: Vec<Vec<u8>> = tl.iter().map(|t| encode(&t.iter().map(|i| bits[*i]).collect::<Vec<_>>(), cmp)).collect();
    if let Some(k) = bad_at {
        let t: Vec<i64> = tl[k].iter().map(|i| bits[*i]).collect();
        let other = if bad == 1 { 2 } else { 12 - size };
        enc[k] = encode(&t, if matches!(cmp, Cmp::Gz1(_)) { Cmp::Gz1(other) } else { Cmp::Gz2(other) });
    }
    let n = tl.len();
    let mut s = spec(bitpix, &naxis, Some(tile.clone()), cmp, enc);
    if !quant.is_empty() {
        s.cards.push(st("ZQUANTIZ", quant));
    }
    let vec3 = || Extra { form: "3J", name: Some("OTHER"), rows: (0..n).map(|r| pat(12, r)).collect() };
    let blankc = || Extra { form: "1J", name: Some("ZBLANK"), rows: vec![1.0f32.to_bits().to_be_bytes().to_vec(); n] };
    match blank {
        1 => s.cards.push(int("ZBLANK", 1.0f32.to_bits() as i128)),
        2 => s.after.push(blankc()),
        _ => {}
    }
    match cols {
        1 => s.before.push(vec3()),
        2 => s.after.insert(0, vec3()),
        _ => {}
    }
    let what = format!("bitpix {bitpix} {cmp:?} axes {naxis:?} tiles {tile:?} values {shift} {quant:?} blank {blank} columns {cols} bad {bad} {bad_at:?}");
    ch.say(|| what.clone());
    ch.visit(&what);
    let want: Vec<f32> = tl[..bad_at.unwrap_or(n)].iter().flatten().map(|i| vals[*i] as f32).collect();
    let mut f = |i: usize, g: Option<Px>| {
        let ok = match (&g, want.get(i)) {
            (None, None) => true,
            (Some(Px::F32(b)), Some(w)) => *b == w.to_bits() || w.is_nan() && f32::from_bits(*b).is_nan(),
            _ => false,
        };
        if !ok {
            let g = g.map(|p| if let Px::F32(b) = p { f32::from_bits(b) } else { f32::INFINITY });
            return Err(format!("pixel {i}: got {g:?}, expected {:?}", want.get(i)));
        }
        Ok(())
    };
    ch.exec();
    let bytes = around(compressed(&s));
    {
        let mut fits = Fits::from_reader(Cursor::new(bytes.clone()));
        let h = open(&mut fits)?;
        if h.get_header().get_xtension().get_z_image().is_none() {
            let BinaryTableData::Table(t) = fits.get_data(&h) else { return Err(format!("{what}: pixels of an image that is not announced")) };
            let n = t.count();
            let cells: usize = s.enc.iter().map(|e| e.len()).sum::<usize>() + s.enc.len() * ((blank == 2) as usize + 3 * (cols > 0) as usize);
            if n != cells {
                return Err(format!("{what}: {n} values in the table, expected {cells}"));
            }
            return close(&mut fits).map_err(|e| format!("{what}: {e}"));
        }
    }
    if ch.flag() {
        read(Fits::from_reader(BufReader::with_capacity(17, Cursor::new(bytes))), &s, None, &mut f, want.len())
    } else {
        read(Fits::from_reader(Cursor::new(bytes)), &s, None, &mut f, want.len())
    }
    .map_err(|e| format!("{what}: {e}"))
}

/// As `bystanders`, for quantised floats.
fn float_bystanders(ch: &mut Ch) -> R {
    use super::bystanders::{choose, show, On};
    let bitpix = ch.pick(&[-32i64, -64]);
    let cmp = ch.pick(&[Cmp::Rice(4, 32), Cmp::Gz1(4), Cmp::Gz2(4)]);
    let dither = ch.choose(4);
    let tw = choose(ch, On::FloatTiles, ch.thorough);
    let (naxis, tile) = ([5usize, 3], vec![3usize, 2]);
    let tl = tiles(&naxis, &tile);
    let px: Vec<i64> = (0..15).map(|i| [0, 14, 255, 1000 - i, ZERO2 + 7][i as usize % 5]).collect();
    let enc = tl.iter().map(|t| encode(&t.iter().map(|i| px[*i]).collect::<Vec<_>>(), cmp)).collect();
    let mut s = spec(bitpix, &naxis, Some(tile), cmp, enc);
    let o = Opt {
        dither,
        seed: (dither >= 2).then_some(47),
        scale: (0..tl.len()).map(|i| 0.5 + i as f64).collect(),
        zero: (0..tl.len()).map(|i| 10.0 - 3.0 * i as f64).collect(),
        blank: vec![Some(14); tl.len()],
    };
    let col = |n: &'static str, v: &[f64]| Extra { form: "1D", name: Some(n), rows: v.iter().map(|x| x.to_be_bytes().to_vec()).collect() };
    s.after = vec![col("ZSCALE", &o.scale), col("ZZERO", &o.zero)];
    s.twist = Some(tw.clone());
    s.cards.push(int("ZBLANK", 14));
    if dither > 0 {
        s.cards.push(st("ZQUANTIZ", ["", "NO_DITHER", "SUBTRACTIVE_DITHER_1", "SUBTRACTIVE_DITHER_2"][dither]));
    }
    if let Some(x) = o.seed {
        s.cards.push(int("ZDITHER0", x as i128));
    }
    ch.say(|| format!("bitpix {bitpix} {cmp:?} dither {dither} cards {:?}", tw.id));
    ch.visit(&(bitpix, cmp, dither, tw.id));
    check_floats(ch, &s, &o, &tl, &px, &format!("with {}", show(&tw)))
}

fn narrow(ch: &mut Ch) -> R {
    let bitpix = ch.pick(&[8i64, 16, 32]);
    let two = ch.flag();
    let naxis = ch.pick(&[[3usize, 2], [1, 2], [7, 2], [4, 2]]);
    let w = [ch.pick(&[1usize, 2, 4]), ch.pick(&[1usize, 2, 4])];
    let kind = ch.choose(4);
    let n = naxis[0];
    let px: Vec<i64> = (0..2 * n)
        .map(|i| match (w[i / n].min((bitpix.unsigned_abs() / 8) as usize), kind) {
            (1, k) => [0i64, 255, 128, 127][(i + k) % 4],
            (_, _) if bitpix == 8 => [0i64, 255, 128, 127][(i + kind) % 4],
            (2, k) => [-1i64, -32768, 32767, 300, -300, 255, 256][(i * (k + 1) + k) % 7],
            (_, k) => [-1i64, i32::MIN as i64, i32::MAX as i64, 70000, -70000, 65535, -32769][(i * (k + 1) + k) % 7],
        })
        .map(|v| if bitpix == 16 { v as i16 as i64 } else { v })
        .collect();
    let tl = tiles(&naxis, &[n, 1]);
    let c = |w| if two { Cmp::Gz2(w) } else { Cmp::Gz1(w) };
    let enc = tl.iter().enumerate().map(|(t, ids)| encode(&ids.iter().map(|i| px[*i]).collect::<Vec<_>>(), c(w[t]))).collect();
    let s = spec(bitpix, &naxis, Some(vec![n, 1]), c(w[0]), enc);
    ch.say(|| format!("bitpix {bitpix} shuffled {two} widths {w:?} {px:?}"));
    ch.visit(&(bitpix, two, w, &px));
    compare(ch, &s, &px, &tl, 1).map_err(|e| format!("stored on {w:?} bytes: {e}"))
}

/// Long runs of zero bits: every length of the unary part of a Rice code.
fn zeros(ch: &mut Ch) -> R {
    let (bitpix, bp) = ch.pick(&[(16i64, 2usize), (32, 4), (16, 4), (8, 1)]);
    let block = ch.pick(&[1usize, 5, 32]);
    let fs = ch.pick(&[0usize, 1, 3]);
    let hi = ch.choose(if ch.thorough { 160 } else { 42 });
    let lo = ch.choose(8);
    let run = (8 * hi + lo) as u64;
    let place = ch.range(0, 2);
    // the mapped difference of one pixel
    let x = (run << fs) + (run % (1 << fs));
    let d = if x & 1 == 1 { -((x >> 1) as i64) - 1 } else { (x >> 1) as i64 };
    let n = 5;
    let base = if bitpix == 8 { 128 } else { 10 };
    let px: Vec<i64> = (0..n).map(|i| if i > place { base + d } else { base }).collect();
    if px.iter().any(|p| clampv(bitpix, *p) != *p) || bp == 1 && d.abs() > 127 {
        return Ok(());
    }
    // every block coded with that number of split bits
    let mut b = Bits { v: px[0].to_be_bytes()[8 - bp..].to_vec(), n: 8 * bp };
    for blk in diffs(&px, bp).chunks(block) {
        b.put((fs + 1) as u64, rice_par(bp).0);
        for x in blk {
            for _ in 0..x >> fs {
                b.put(0, 1);
            }
            b.put(1, 1);
            b.put(x & ((1 << fs) - 1), fs);
        }
    }
    ch.say(|| format!("bitpix {bitpix} bytepix {bp} block {block} split {fs} run of {run} zeros, pixels {px:?}"));
    ch.visit(&(bitpix, bp, block, fs, run, place));
    let s = spec(bitpix, &[n], Some(vec![n]), Cmp::Rice(bp, block), vec![b.v]);
    compare(ch, &s, &px, &[(0..n).collect()], 1).map_err(|e| format!("block {block} split {fs} run of {run} zeros: {e}"))
}

/// The compressed tiles at every place among many columns.
fn columns(ch: &mut Ch) -> R {
    let bitpix = ch.pick(&[16i64, 32, -32]);
    let cmp = ch.pick(&[Cmp::Rice(4, 32), Cmp::Gz1(4), Cmp::Gz2(4)]);
    let (before, after) = match ch.choose(4) {
        0 => (ch.range(0, 14), ch.range(0, 2)),
        1 => (ch.range(0, 2), ch.range(0, 14)),
        2 => (ch.pick(&[97usize, 98, 99, 100, 126, 127, 128, 254, 255, 256, 300, 990]), 1),
        _ => (1, ch.pick(&[98usize, 99, 255, 990])),
    };
    let naxis = [4usize, 3];
    let px: Vec<i64> = (0..12).map(|i| 7 * i - 3).collect();
    let tl = tiles(&naxis, &[4, 1]);
    let enc = tl.iter().map(|ids| encode(&ids.iter().map(|i| px[*i]).collect::<Vec<_>>(), cmp)).collect();
    let mut s = spec(bitpix, &naxis, Some(vec![4, 1]), cmp, enc);
    let other = |k: usize| Extra { form: ["1B", "1I", "1J", "2A"][k % 4], name: None, rows: (0..3).map(|r| if k % 4 == 3 { b"ab".to_vec() } else { pat([1, 2, 4][k % 4], k + r) }).collect() };
    s.before = (0..before).map(other).collect();
    s.after = (0..after).map(other).collect();
    ch.say(|| format!("bitpix {bitpix} {cmp:?} {before} columns before, {after} after"));
    ch.visit(&(bitpix, cmp, before, after));
    let tag = |e| format!("{before} columns before, {after} after: {e}");
    if bitpix > 0 {
        return compare(ch, &s, &px, &tl, 1).map_err(tag);
    }
    // the scale among the others too, at the far end
    let sc = Extra { form: "1D", name: Some("ZSCALE"), rows: (0..3).map(|t| (0.5 + t as f64).to_be_bytes().to_vec()).collect() };
    let ze = Extra { form: "1D", name: Some("ZZERO"), rows: (0..3).map(|t| (9.0 - t as f64).to_be_bytes().to_vec()).collect() };
    s.before.insert(s.before.len() / 2, sc);
    s.after.push(ze);
    let o = Opt { dither: 0, seed: None, scale: vec![0.5, 1.5, 2.5], zero: vec![9.0, 8.0, 7.0], blank: vec![None; 3] };
    check_floats(ch, &s, &o, &tl, &px, "columns").map_err(tag)
}

/// One tile, all codings of its first blocks.
fn coding(ch: &mut Ch) -> R {
    let (bitpix, bp) = ch.pick(&[(8i64, 1usize), (8, 4), (16, 2), (16, 4), (32, 4)]);
    let block = if ch.thorough { ch.pick(&[32usize, 16, 1, 3, 8, 64, 255]) } else { ch.pick(&[32usize, 16, 3, 1, 255]) };
    let n = match ch.choose(6) {
        0 => 1,
        1 => block,
        2 => block + 1,
        3 => 2 * block - 1,
        4 => 2 * block + 1,
        _ => 3 * block,
    };
    let (lo, hi) = match bitpix {
        8 => (0, 255),
        16 => (i16::MIN as i64, i16::MAX as i64),
        _ => (i32::MIN as i64, i32::MAX as i64),
    };
    let kind = ch.choose(8);
    let noise = pat(n * 8, 12);
    let px: Vec<i64> = (0..n)
        .map(|i| {
            let r = u64::from_be_bytes(noise[8 * i..8 * i + 8].try_into().unwrap()) as i64;
            let v = match kind {
                0 => 5,
                1 => i as i64,
                2 => [lo, hi][i % 2],
                3 => r,
                4 => (r & 7) + 100,
                5 => [0, 0, 0, 77][i % 4],
                6 => [hi, hi - 1, lo, lo + 1][i % 4],
                _ => -(i as i64) * 3,
            };
            clampv(bitpix, v)
        })
        .collect();
    let mut hist = vec![];
    // the coding of the first two blocks and of the last one is chosen freely
    let nb = n.div_ceil(block);
    let mut k = 0;
    let thorough = ch.thorough;
    let enc = rice(&px, bp, block, &mut |c| {
        k += 1;
        // quick: with three blocks the middle one is free among the extreme codings only
        let f = if k == 1 || k == nb || thorough && k <= 3 {
            c[ch.choose(c.len())]
        } else if k == 2 {
            c[ch.choose(c.len().min(4))]
        } else {
            c[0]
        };
        hist.push(f);
        f
    });
    ch.say(|| format!("bitpix {bitpix} bytepix {bp} block {block} n {n} values {kind} codings {hist:?}"));
    ch.visit(&(bitpix, bp, block, n, kind, &hist));
    let s = spec(bitpix, &[n], Some(vec![n]), Cmp::Rice(bp, block), vec![enc]);
    compare(ch, &s, &px, &[(0..n).collect()], 1).map_err(|e| format!("values {kind} codings {hist:?}: {e}"))
}

fn extras(rows: usize) -> Vec<Extra> {
    let e = |form: &'static str, name: Option<&'static str>, w: usize, salt: usize| Extra { form, name, rows: (0..rows).map(|r| pat(w, salt + r)).collect() };
    vec![e("3J", None, 12, 1), e("1I", Some("ROW"), 2, 20), e("0D", Some("NONE"), 0, 30), e("9X", Some("FLAGS"), 2, 40), e("5A", Some("LABEL"), 5, 50), e("1D", Some("ZSCALE"), 8, 60)]
}

/// The table around the tiles: neighbours, descriptor size, heap gap and order, column name.
fn layout(ch: &mut Ch) -> R {
    let bitpix = ch.pick(&[8i64, 16, 32]);
    let naxis = [5usize, 3];
    let tile = ch.pick(&[vec![2usize, 2], vec![5, 1], vec![3, 3]]);
    let cs = cmps(bitpix);
    let cmp = cs[ch.choose(3)];
    let px = ramp(bitpix, 15);
    let tl = tiles(&naxis, &tile);
    let enc: Vec<Vec<u8>> = tl.iter().map(|ids| encode(&ids.iter().map(|i| px[*i]).collect::<Vec<_>>(), cmp)).collect();
    let ex = extras(tl.len());
    let mut s = spec(bitpix, &naxis, Some(tile), cmp, enc);
    for k in 0..2 {
        let v = match ch.choose(ex.len() + 1) {
            0 => vec![],
            i => vec![ex[i - 1].clone()],
        };
        if k == 0 {
            s.before = v;
        } else {
            s.after = v;
        }
    }
    s.wide = ch.flag();
    s.gap = ch.pick(&[0, 3]);
    s.reversed = ch.flag();
    s.name = ch.pick(&["COMPRESSED_DATA", "GZIP_COMPRESSED_DATA"]);
    ch.say(|| format!("{cmp:?} wide {} gap {} reversed {} before {:?} after {:?}", s.wide, s.gap, s.reversed, s.before.first().map(|e| e.form), s.after.first().map(|e| e.form)));
    ch.visit(&(bitpix, &s.tile, cmp, s.wide, s.gap, s.reversed, s.before.first().map(|e| e.form), s.after.first().map(|e| e.form), s.name));
    compare(ch, &s, &px, &tl, 4)
}

fn permutation(ch: &mut Ch, n: usize) -> Vec<usize> {
    let mut left: Vec<usize> = (0..n).collect();
    (0..n).map(|_| left.remove(ch.choose(left.len()))).collect()
}

/// Any order of the tiles in the heap, holes between them, tiles that share their bytes, tiles stored on different widths.
fn heap(ch: &mut Ch) -> R {
    let bitpix = ch.pick(&[8i64, 16, 32]);
    let cs = cmps(bitpix);
    let cmp = ch.pick(&cs);
    let naxis = [4usize, 3];
    let tile = [2usize, 2];
    let same = ch.choose(3);
    let mut px = ramp(bitpix, 12);
    let tl = tiles(&naxis, &tile);
    // tiles with equal pixels
    if same == 1 {
        for (a, b) in tl[0].clone().into_iter().zip(&tl[1]) {
            px[*b] = px[a];
        }
    }
    if same == 2 {
        px.fill(7);
    }
    let mixed = !matches!(cmp, Cmp::Rice(..)) && ch.flag();
    let enc: Vec<Vec<u8>> = tl
        .iter()
        .enumerate()
        .map(|(k, ids)| {
            let c = match cmp {
                Cmp::Gz1(_) if mixed && k % 2 == 1 => Cmp::Gz1(4),
                Cmp::Gz2(_) if mixed && k % 2 == 1 => Cmp::Gz2(4),
                c => c,
            };
            encode(&ids.iter().map(|i| px[*i]).collect::<Vec<_>>(), c)
        })
        .collect();
    let mut s = spec(bitpix, &naxis, Some(tile.to_vec()), cmp, enc);
    s.order = Some(permutation(ch, 4));
    s.sep = ch.pick(&[0usize, 1, 7]);
    s.share = same > 0;
    s.gap = ch.pick(&[0usize, 3]);
    s.wide = ch.flag();
    ch.say(|| format!("bitpix {bitpix} {cmp:?} mixed {mixed} order {:?} sep {} share {same} gap {} wide {}", s.order, s.sep, s.gap, s.wide));
    ch.visit(&(bitpix, cmp, mixed, &s.order, s.sep, same, s.gap, s.wide));
    compare(ch, &s, &px, &tl, 2).map_err(|e| format!("heap order {:?} sep {} same {same} mixed {mixed}: {e}", s.order, s.sep))
}

/// The parameters of the Rice coding: where and in which order they are given.
fn params(ch: &mut Ch) -> R {
    let (bitpix, bp) = ch.pick(&[(8i64, 1usize), (8, 2), (8, 4), (16, 2), (16, 4), (32, 4)]);
    let block = ch.pick(&[16usize, 32]);
    let n = ch.pick(&[16usize, 17, 33, 70]);
    let mut ps: Vec<(usize, &'static str, i128)> = vec![];
    let (b, y) = (("BLOCKSIZE", block as i128), ("BYTEPIX", bp as i128));
    let which = ch.choose(4);
    let mut list = match which {
        0 => vec![b, y],
        1 => vec![b, y, ("NOISEBIT", 4)],
        2 if bp == 4 => vec![b],
        2 => vec![b, y],
        _ if block == 32 => vec![y],
        _ => vec![("SCALE", 8), b, y],
    };
    let o = permutation(ch, list.len());
    let base = ch.pick(&[1usize, 2, 9]);
    for k in o {
        ps.push((base + ps.len(), list[k].0, list[k].1));
    }
    list.clear();
    let px: Vec<i64> = (0..n as i64).map(|i| clampv(bitpix, 100 + (i * 5) % 23)).collect();
    let enc = encode(&px, Cmp::Rice(bp, block));
    let mut s = spec(bitpix, &[n], Some(vec![n]), Cmp::Rice(bp, block), vec![enc]);
    s.params = Some(ps);
    s.reversed = ch.flag();
    ch.say(|| format!("bitpix {bitpix} n {n} {:?} reversed {}", s.params, s.reversed));
    ch.visit(&(bitpix, n, &s.params, s.reversed));
    compare(ch, &s, &px, &[(0..n).collect()], 1).map_err(|e| format!("{:?}: {e}", s.params))
}

/// A tile that is empty, cut short or too long: nothing but the pixels before it may be delivered.
fn damage(ch: &mut Ch) -> R {
    let bitpix = ch.pick(&[8i64, 16, 32]);
    let cs = cmps(bitpix);
    let cmp = cs[ch.choose(cs.len())];
    let naxis = [3usize, 3];
    let tile = [3usize, 1];
    let px = ramp(bitpix, 9);
    let tl = tiles(&naxis, &tile);
    let mut enc: Vec<Vec<u8>> = tl.iter().map(|ids| encode(&ids.iter().map(|i| px[*i]).collect::<Vec<_>>(), cmp)).collect();
    let bad = ch.choose(3);
    let what = ch.choose(3);
    match what {
        0 => enc[bad].clear(),
        1 => {
            let l = enc[bad].len();
            enc[bad].truncate(l - 1);
            // the last byte of a Rice tile may hold padding only: cut into the pixels
            if matches!(cmp, Cmp::Rice(..)) {
                enc[bad].truncate(if let Cmp::Rice(b, _) = cmp { b } else { 0 });
            }
        }
        // a gzip tile that holds another number of pixels
        _ => {
            if matches!(cmp, Cmp::Rice(..)) {
                return Ok(());
            }
            enc[bad] = encode(&[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13], cmp);
        }
    }
    let s = spec(bitpix, &naxis, Some(tile.to_vec()), cmp, enc);
    ch.say(|| format!("bitpix {bitpix} {cmp:?} tile {bad} damage {what}"));
    ch.visit(&(bitpix, cmp, bad, what));
    let good: Vec<Px> = tl.iter().take(bad).flatten().map(|i| want_px(bitpix, px[*i])).collect();
    let bytes = around(compressed(&s));
    let mut f = |i: usize, g: Option<Px>| {
        if g != good.get(i).copied() {
            return Err(format!("tile {bad} damaged ({what}), pixel {i}: got {g:?}, expected {:?}", good.get(i)));
        }
        Ok(())
    };
    ch.exec();
    read(Fits::from_reader(Cursor::new(bytes)), &s, None, &mut f, 9).map_err(|e| format!("{cmp:?} {e}"))
}

// ---------------------------------------------------------------------------------------------- C15

fn random() -> &'static Vec<f64> {
    static T: std::sync::OnceLock<Vec<f64>> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let mut seed: u64 = 1;
        let v: Vec<f64> = (0..10000)
            .map(|_| {
                seed = seed * 16807 % 2147483647;
                seed as f64 / 2147483647.0
            })
            .collect();
        assert!(seed == 1043618065);
        v
    })
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum Src {
    ColE,
    ColD,
    Head,
    Both,
}
const ZERO2: i64 = -2147483647;

struct Opt {
    dither: usize,
    seed: Option<i64>,
    scale: Vec<f64>,
    zero: Vec<f64>,
    blank: Vec<Option<i64>>,
}
/// (expected value, allowed difference)
fn restore(o: &Opt, tile: usize, k: usize, v: i64) -> (f64, f64) {
    if o.blank[tile] == Some(v) {
        return (f64::NAN, 0.0);
    }
    if o.dither == 3 && v == ZERO2 {
        return (0.0, 0.0);
    }
    let (s, z) = (o.scale[tile], o.zero[tile]);
    let mut x = v as f64;
    if o.dither >= 2 {
        // as the reference implementation (CFITSIO) does
        let r = random();
        let mut i0 = (tile as i64 + o.seed.unwrap_or(1) - 1) as usize % 10000;
        let mut i1 = (r[i0] as f32 * 500.0) as usize;
        let mut k = k;
        while i1 + k >= 10000 {
            k -= 10000 - i1;
            i0 = (i0 + 1) % 10000;
            i1 = (r[i0] as f32 * 500.0) as usize;
        }
        x += 0.5 - r[i1 + k];
    }
    let mag = (x * s).abs().max(z.abs()).max((v as f64 * s).abs()).max(s.abs());
    (x * s + z, mag * 2f64.powi(-21))
}

fn check_floats(ch: &mut Ch, s: &Spec, o: &Opt, tl: &[Vec<usize>], px: &[i64], what: &str) -> R {
    let mut want = vec![];
    for (t, ids) in tl.iter().enumerate() {
        for (k, i) in ids.iter().enumerate() {
            want.push((t, px[*i], restore(o, t, k, px[*i])));
        }
    }
    let bytes = around(compressed(s));
    let mut f = |i: usize, g: Option<Px>| {
        let ok = match (&g, want.get(i)) {
            (None, None) => true,
            (Some(Px::F32(b)), Some((_, _, (w, tol)))) => {
                let g = f32::from_bits(*b) as f64;
                if w.is_nan() {
                    g.is_nan()
                } else {
                    (g - w).abs() <= *tol
                }
            }
            _ => false,
        };
        if !ok {
            let g = g.map(|p| if let Px::F32(b) = p { f32::from_bits(b) } else { f32::INFINITY });
            return Err(format!("pixel {i}: got {g:?}, expected (tile, integer, (value, tolerance)) {:?}", want.get(i)));
        }
        Ok(())
    };
    ch.exec();
    read(Fits::from_reader(Cursor::new(bytes)), s, None, &mut f, want.len()).map_err(|e| format!("{what}: {e}"))
}

fn options(ch: &mut Ch) -> R {
    let bitpix = ch.pick(&[-32i64, -64]);
    let cmp = ch.pick(&[Cmp::Rice(4, 32), Cmp::Gz1(4), Cmp::Gz2(4)]);
    let dither = ch.choose(4);
    // a seed without a method of dither means nothing
    let seed = if dither >= 2 { ch.pick(&[Some(1i64), Some(2), Some(47), Some(9999), Some(10000), None]) } else { ch.pick(&[None, Some(5)]) };
    let scale_src = ch.pick(&[Src::ColE, Src::ColD, Src::Head, Src::Both]);
    let zero_src = ch.pick(&[Src::ColE, Src::ColD, Src::Head, Src::Both]);
    // none, header, column J, column I, column K, both
    let blank_src = ch.choose(6);
    let order = ch.choose(6);
    let tile = ch.pick(&[vec![2usize, 2], vec![3, 1]]);
    let naxis = [3usize, 3];
    let tl = tiles(&naxis, &tile);
    let n = tl.len();
    // blanks and zeros in the middle, so that the dither of the next pixels is checked
    let px: Vec<i64> = vec![10, -9999, 12, ZERO2, 14, -9999, 900, -77, 3];
    let scale: Vec<f64> = (0..n).map(|t| 0.25 + 0.5 * t as f64).collect();
    let zero: Vec<f64> = (0..n).map(|t| 100.0 - 30.0 * t as f64).collect();
    let mut cards = vec![];
    let mut cols: Vec<Extra> = vec![];
    for (name, src, vals) in [("ZSCALE", scale_src, &scale), ("ZZERO", zero_src, &zero)] {
        match src {
            Src::ColE | Src::Both => cols.push(Extra { form: "1E", name: Some(name), rows: vals.iter().map(|v| (*v as f32).to_be_bytes().to_vec()).collect() }),
            Src::ColD => cols.push(Extra { form: "1D", name: Some(name), rows: vals.iter().map(|v| v.to_be_bytes().to_vec()).collect() }),
            Src::Head => {}
        }
        if matches!(src, Src::Head | Src::Both) {
            cards.push(kv(name, "2.5"));
        }
    }
    let cst = |src: Src, v: &[f64]| if src == Src::Head { vec![2.5; n] } else { v.to_vec() };
    let bcol: Vec<i64> = (0..n).map(|t| if t == n - 1 { 3 } else { -9999 }).collect();
    let blank: Vec<Option<i64>> = match blank_src {
        0 => vec![None; n],
        1 => vec![Some(-9999); n],
        _ => bcol.iter().map(|b| Some(*b)).collect(),
    };
    if blank_src == 1 || blank_src == 5 {
        cards.push(int("ZBLANK", if blank_src == 1 { -9999 } else { 14 }));
    }
    match blank_src {
        2 | 5 => cols.push(Extra { form: "1J", name: Some("ZBLANK"), rows: bcol.iter().map(|v| (*v as i32).to_be_bytes().to_vec()).collect() }),
        3 => cols.push(Extra { form: "1I", name: Some("ZBLANK"), rows: bcol.iter().map(|v| (*v as i16).to_be_bytes().to_vec()).collect() }),
        4 => cols.push(Extra { form: "1K", name: Some("ZBLANK"), rows: bcol.iter().map(|v| v.to_be_bytes().to_vec()).collect() }),
        _ => {}
    }
    match dither {
        1 => cards.push(st("ZQUANTIZ", "NO_DITHER")),
        2 => cards.push(st("ZQUANTIZ", "SUBTRACTIVE_DITHER_1")),
        3 => cards.push(st("ZQUANTIZ", "SUBTRACTIVE_DITHER_2")),
        _ => {}
    }
    if let Some(z) = seed {
        cards.push(int("ZDITHER0", z as i128));
    }
    let vec3 = Extra { form: "3J", name: Some("OTHER"), rows: (0..n).map(|r| pat(12, r)).collect() };
    let none = Extra { form: "0E", name: Some("EMPTY"), rows: vec![vec![]; n] };
    let enc = tl.iter().map(|ids| encode(&ids.iter().map(|i| px[*i]).collect::<Vec<_>>(), cmp)).collect();
    let mut s = spec(bitpix, &naxis, Some(tile.clone()), cmp, enc);
    s.cards = cards;
    match order {
        0 => s.after = cols,
        1 => s.before = cols,
        2 => {
            cols.reverse();
            s.before = vec![vec3];
            s.after = cols;
        }
        3 => {
            cols.insert(cols.len().min(1), vec3);
            s.before = cols;
        }
        4 => {
            cols.insert(0, none);
            s.before = cols.split_off(cols.len() / 2);
            s.after = cols;
        }
        _ => {
            cols.insert(cols.len().min(1), vec3);
            s.after = cols;
        }
    }
    let o = Opt { dither, seed, scale: cst(scale_src, &scale), zero: cst(zero_src, &zero), blank };
    let what = format!("bitpix {bitpix} {cmp:?} tiles {tile:?} dither {dither} seed {seed:?} scale {scale_src:?} zero {zero_src:?} blank {blank_src} order {order}");
    ch.say(|| what.clone());
    ch.visit(&what);
    check_floats(ch, &s, &o, &tl, &px, &what)
}

/// Tiles longer than the random sequence, and many tiles.
fn long(ch: &mut Ch) -> R {
    let bitpix = ch.pick(&[-32i64, -64]);
    let cmp = ch.pick(&[Cmp::Rice(4, 32), Cmp::Gz1(4), Cmp::Gz2(4)]);
    let dither = ch.range(1, 3);
    let seed = ch.pick(&[9990i64, 9999, 10000, 1]);
    let (naxis, tile) = ch.pick(&[(vec![101usize, 103], vec![101usize, 103]), (vec![30, 30], vec![7, 1]), (vec![213, 101], vec![213, 101]), (vec![400, 101], vec![400, 100])]);
    let tl = tiles(&naxis, &tile);
    let n = tl.len();
    let total: usize = naxis.iter().product();
    let px: Vec<i64> = (0..total as i64).map(|i| (i * 37) % 501 - 100).collect();
    let enc = tl.iter().map(|ids| encode(&ids.iter().map(|i| px[*i]).collect::<Vec<_>>(), cmp)).collect();
    let mut s = spec(bitpix, &naxis, Some(tile), cmp, enc);
    s.cards = vec![st("ZQUANTIZ", ["NO_DITHER", "SUBTRACTIVE_DITHER_1", "SUBTRACTIVE_DITHER_2"][dither - 1]), int("ZDITHER0", seed as i128), kv("ZSCALE", "0.5"), kv("ZZERO", "-8.0")];
    let o = Opt { dither, seed: Some(seed), scale: vec![0.5; n], zero: vec![-8.0; n], blank: vec![None; n] };
    let what = format!("bitpix {bitpix} {cmp:?} {naxis:?} dither {dither} seed {seed}");
    ch.say(|| what.clone());
    ch.visit(&what);
    check_floats(ch, &s, &o, &tl, &px, &what)
}

/// Every seed.
fn seeds(ch: &mut Ch) -> R {
    let dither = ch.range(2, 3);
    let hi = ch.choose(100);
    let lo = ch.choose(100);
    let seed = (hi * 100 + lo + 1) as i64;
    let (naxis, tile) = (vec![2usize, 2], vec![2usize, 1]);
    let tl = tiles(&naxis, &tile);
    let px = vec![0i64, 1, 2, 3];
    let cmp = Cmp::Rice(4, 32);
    let enc = tl.iter().map(|ids| encode(&ids.iter().map(|i| px[*i]).collect::<Vec<_>>(), cmp)).collect();
    let mut s = spec(-32, &naxis, Some(tile), cmp, enc);
    s.cards = vec![st("ZQUANTIZ", ["SUBTRACTIVE_DITHER_1", "SUBTRACTIVE_DITHER_2"][dither - 2]), int("ZDITHER0", seed as i128), kv("ZSCALE", "1.0"), kv("ZZERO", "0.0")];
    let o = Opt { dither, seed: Some(seed), scale: vec![1.0; 2], zero: vec![0.0; 2], blank: vec![None; 2] };
    let what = format!("dither {dither} seed {seed}");
    ch.say(|| what.clone());
    ch.visit(&what);
    check_floats(ch, &s, &o, &tl, &px, &what)
}

/// Scales, zero points, blank values and integers of all sizes.
fn numbers(ch: &mut Ch) -> R {
    let bitpix = ch.pick(&[-32i64, -64]);
    let cmp = ch.pick(&[Cmp::Rice(4, 32), Cmp::Gz1(4), Cmp::Gz2(4)]);
    let dither = ch.choose(4);
    let scale = ch.pick(&[1.0f64, 0.0, -0.5, 1e-12, 123456.0, -3e20, 1e-38]);
    let zero = ch.pick(&[0.0f64, -0.25, 1e10, -7e-20]);
    let head = ch.flag();
    let blank = ch.pick(&[None, Some(i32::MIN as i64), Some(0), Some(-1), Some(i32::MAX as i64), Some(5), Some(ZERO2), Some(-32768), Some(255)]);
    let bhead = blank.is_some() && ch.flag();
    let px: Vec<i64> = vec![0, 1, -1, 5, 255, -32768, 32767, 65536, 8388609, -8388611, i32::MIN as i64, i32::MAX as i64, ZERO2, 2147483646, 0, 5, 7, -1];
    let n = px.len();
    let naxis = [n / 2, 2];
    let tile = [n / 2, 1];
    let tl = tiles(&naxis, &tile);
    let enc = tl.iter().map(|ids| encode(&ids.iter().map(|i| px[*i]).collect::<Vec<_>>(), cmp)).collect();
    let mut s = spec(bitpix, &naxis, Some(tile.to_vec()), cmp, enc);
    let (mut sc, mut ze) = (vec![scale; 2], vec![zero; 2]);
    if head {
        s.cards.push(kv("ZSCALE", &format!("{scale:E}")));
        s.cards.push(kv("ZZERO", &format!("{zero:E}")));
    } else {
        // the second tile has others
        (sc[1], ze[1]) = (zero + 2.0, scale);
        let col = |name, v: &[f64]| Extra { form: "1D", name: Some(name), rows: v.iter().map(|v| v.to_be_bytes().to_vec()).collect() };
        s.after = vec![col("ZSCALE", &sc), col("ZZERO", &ze)];
    }
    let mut bl = vec![blank; 2];
    if let Some(b) = blank {
        if bhead {
            s.cards.push(int("ZBLANK", b as i128));
        } else {
            bl[1] = Some(7);
            s.before = vec![Extra { form: "1J", name: Some("ZBLANK"), rows: bl.iter().map(|v| (v.unwrap() as i32).to_be_bytes().to_vec()).collect() }];
        }
    }
    let seed = (dither >= 2).then_some(3);
    if dither > 0 {
        s.cards.push(st("ZQUANTIZ", ["NO_DITHER", "SUBTRACTIVE_DITHER_1", "SUBTRACTIVE_DITHER_2"][dither - 1]));
    }
    if let Some(z) = seed {
        s.cards.push(int("ZDITHER0", z as i128));
    }
    let o = Opt { dither, seed, scale: sc, zero: ze, blank: bl };
    let what = format!("bitpix {bitpix} {cmp:?} dither {dither} scale {scale} zero {zero} in header {head} blank {blank:?} in header {bhead}");
    ch.say(|| what.clone());
    ch.visit(&what);
    check_floats(ch, &s, &o, &tl, &px, &what)
}

/// More tiles than the random sequence is long, each with its own scale, zero point and blank value; other dimensions.
fn many(ch: &mut Ch) -> R {
    let bitpix = ch.pick(&[-32i64, -64]);
    let cmp = ch.pick(&[Cmp::Rice(4, 32), Cmp::Gz1(4), Cmp::Gz2(4)]);
    let dither = ch.choose(4);
    let (naxis, tile) = ch.pick(&[
        (vec![1usize, 10050], vec![1usize, 1]),
        (vec![20003], vec![2]),
        (vec![300, 2], vec![1, 2]),
        (vec![7], vec![7]),
        (vec![7], vec![3]),
        (vec![3, 4, 2], vec![2, 3, 1]),
        (vec![2, 3, 2, 2], vec![2, 2, 1, 2]),
    ]);
    let seed = if dither >= 2 { Some(ch.pick(&[1i64, 9998])) } else { None };
    let tl = tiles(&naxis, &tile);
    let n = tl.len();
    let px: Vec<i64> = (0..naxis.iter().product::<usize>() as i64).map(|i| (i * 37) % 501 - 100).collect();
    let enc = tl.iter().map(|ids| encode(&ids.iter().map(|i| px[*i]).collect::<Vec<_>>(), cmp)).collect();
    let mut s = spec(bitpix, &naxis, Some(tile), cmp, enc);
    let sc: Vec<f64> = (0..n).map(|t| 1.0 + (t % 97) as f64).collect();
    let ze: Vec<f64> = (0..n).map(|t| -((t % 89) as f64)).collect();
    let bl: Vec<Option<i64>> = (0..n).map(|t| Some((t as i64 * 37) % 501 - 100)).collect();
    s.before = vec![Extra { form: "1E", name: Some("ZSCALE"), rows: sc.iter().map(|v| (*v as f32).to_be_bytes().to_vec()).collect() }];
    s.after = vec![
        Extra { form: "1J", name: Some("ZBLANK"), rows: bl.iter().map(|v| (v.unwrap() as i32).to_be_bytes().to_vec()).collect() },
        Extra { form: "1D", name: Some("ZZERO"), rows: ze.iter().map(|v| v.to_be_bytes().to_vec()).collect() },
    ];
    if dither > 0 {
        s.cards.push(st("ZQUANTIZ", ["NO_DITHER", "SUBTRACTIVE_DITHER_1", "SUBTRACTIVE_DITHER_2"][dither - 1]));
    }
    if let Some(z) = seed {
        s.cards.push(int("ZDITHER0", z as i128));
    }
    let o = Opt { dither, seed, scale: sc, zero: ze, blank: bl };
    let what = format!("bitpix {bitpix} {cmp:?} {naxis:?} dither {dither} seed {seed:?}");
    ch.say(|| what.clone());
    ch.visit(&what);
    check_floats(ch, &s, &o, &tl, &px, &what)
}

/// Gzip tiles of integers narrower than four bytes.
fn narrow_floats(ch: &mut Ch) -> R {
    let bitpix = ch.pick(&[-32i64, -64]);
    let two = ch.flag();
    let w = [ch.pick(&[1usize, 2, 4]), ch.pick(&[1usize, 2, 4])];
    let dither = ch.choose(4);
    let blank = ch.pick(&[None, Some(-1i64), Some(255), Some(300), Some(-32768)]);
    let n = ch.pick(&[3usize, 6]);
    let naxis = [n, 2];
    let px: Vec<i64> = (0..2 * n)
        .map(|i| match w[i / n] {
            1 => [0i64, 255, 128, 127, 1, 200][i % 6],
            2 => [-1i64, -32768, 32767, 300, -300, 255][i % 6],
            _ => [-1i64, 70000, -70000, 65535, -32768, 255][i % 6],
        })
        .collect();
    let tl = tiles(&naxis, &[n, 1]);
    let c = |w| if two { Cmp::Gz2(w) } else { Cmp::Gz1(w) };
    let enc = tl.iter().enumerate().map(|(t, ids)| encode(&ids.iter().map(|i| px[*i]).collect::<Vec<_>>(), c(w[t]))).collect();
    let mut s = spec(bitpix, &naxis, Some(vec![n, 1]), c(w[0]), enc);
    s.cards = vec![kv("ZSCALE", "0.5"), kv("ZZERO", "-8.0")];
    if dither > 0 {
        s.cards.push(st("ZQUANTIZ", ["NO_DITHER", "SUBTRACTIVE_DITHER_1", "SUBTRACTIVE_DITHER_2"][dither - 1]));
    }
    let seed = (dither >= 2).then_some(3i64);
    if let Some(z) = seed {
        s.cards.push(int("ZDITHER0", z as i128));
    }
    if let Some(b) = blank {
        s.cards.push(int("ZBLANK", b as i128));
    }
    let o = Opt { dither, seed, scale: vec![0.5; 2], zero: vec![-8.0; 2], blank: vec![blank; 2] };
    let what = format!("bitpix {bitpix} shuffled {two} widths {w:?} dither {dither} blank {blank:?}");
    ch.say(|| what.clone());
    ch.visit(&what);
    check_floats(ch, &s, &o, &tl, &px, &what)
}

/// Blank values that no pixel can have, and blank values that change from tile to tile, in columns of every integer type.
fn blanks(ch: &mut Ch) -> R {
    let bitpix = ch.pick(&[-32i64, -64]);
    let cmp = ch.pick(&[Cmp::Rice(4, 32), Cmp::Gz1(4), Cmp::Gz2(4)]);
    let form = ch.pick(&["1K", "1J", "1I", "1B"]);
    let vals: &[i64] = match form {
        "1K" => &[5, -7, 1 << 40, -(1 << 33), (1 << 32) + 5, (1 << 32) - 7, i64::MIN, i64::MAX],
        "1J" => &[5, -7, 1 << 20, i32::MIN as i64, i32::MAX as i64],
        "1I" => &[5, -7, -32768, 32767],
        _ => &[5, 7, 0, 255],
    };
    let b: Vec<i64> = (0..3).map(|_| ch.pick(vals)).collect();
    let head = ch.pick(&[None, Some(5i64), Some(255)]);
    let px: Vec<i64> = [5i64, -7, 255, 0, 1].iter().copied().cycle().take(15).collect();
    let naxis = [5usize, 3];
    let tl = tiles(&naxis, &[5, 1]);
    let enc = tl.iter().map(|ids| encode(&ids.iter().map(|i| px[*i]).collect::<Vec<_>>(), cmp)).collect();
    let mut s = spec(bitpix, &naxis, Some(vec![5, 1]), cmp, enc);
    s.cards = vec![kv("ZSCALE", "0.5"), kv("ZZERO", "-8.0")];
    if let Some(h) = head {
        s.cards.push(int("ZBLANK", h as i128));
    }
    let w = match form {
        "1K" => 8,
        "1J" => 4,
        "1I" => 2,
        _ => 1,
    };
    s.after = vec![Extra { form, name: Some("ZBLANK"), rows: b.iter().map(|v| v.to_be_bytes()[8 - w..].to_vec()).collect() }];
    let o = Opt { dither: 0, seed: None, scale: vec![0.5; 3], zero: vec![-8.0; 3], blank: b.iter().map(|b| Some(*b)).collect() };
    let what = format!("bitpix {bitpix} {cmp:?} blank column {form} {b:?}, in the header {head:?}");
    ch.say(|| what.clone());
    ch.visit(&what);
    check_floats(ch, &s, &o, &tl, &px, &what)
}
