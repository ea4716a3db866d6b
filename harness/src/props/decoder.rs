//! C18: images opened through the decoder registered with the `image` crate.

use super::image::BP;
use super::tiles::{compressed, encode, spec, tiles, Cmp, Extra};
use super::Prop;
use crate::engine::{Ch, Space, R};
use crate::gen::*;
use crate::obs::*;
use image::{ColorType, DynamicImage, ImageDecoder, ImageReader};
use std::io::{BufReader, Cursor};

pub static C18: Prop = Prop {
    id: "C18",
    level: "model_checking",
    rule: "one execution = one file opened through the hook registered with the image crate (format guessed from its first \
           bytes), its dimensions, colour type, orientation and every channel of every pixel compared with a reference \
           conversion; state = (bitpix, shape, planes, scaling, place of the HDU, tiling and compression)",
    assumptions: &[
        "conversion as documented in the code: 8-bit to L8/Rgb8 and 16-bit to L16/Rgb16 (scaled value rounded, negative to 0, saturating), 32 and 64-bit integers to Rgb32F divided by the largest value of the type, floats as they are; one plane fills the three channels of Rgb32F",
        "cubes of other depths than 1 and 3 are left open (README and code differ): no crash is required only",
    ],
    spaces: &[
        Space { name: "shapes", body: shapes },
        Space { name: "values", body: values },
        Space { name: "tiled", body: tiled },
        Space { name: "refused", body: refused },
        Space { name: "names", body: names },
        Space { name: "bystanders", body: bystanders },
    ],
};

/// What the pixel becomes: 8 bits, 16 bits, or a float known within a tolerance.
#[derive(Clone, Copy, Debug)]
enum C {
    B(u8),
    W(u16),
    F(f64, f64),
}
fn convert(p: Px, scale: Option<(f64, f64)>) -> C {
    let (z, s) = scale.unwrap_or((0.0, 1.0));
    let sat = |v: f64, max: f64| v.round().clamp(0.0, max);
    let wide = |v: f64, max: f64| {
        let r = (v * s + z) / max;
        C::F(r, r.abs() * 1e-6 + ((v * s).abs().max(z.abs()) / max) * 1e-12 + 1e-30)
    };
    match p {
        Px::U8(v) => C::B(sat(v as f64 * s + z, 255.0) as u8),
        Px::I16(v) => C::W(sat(v as f64 * s + z, 65535.0) as u16),
        Px::I32(v) => wide(v as f64, i32::MAX as f64),
        Px::I64(v) => wide(v as f64, i64::MAX as f64),
        Px::F32(v) => C::F(f32::from_bits(v) as f64, 0.0),
        Px::F64(v) => C::F(f64::from_bits(v) as f32 as f64, 0.0),
    }
}
fn same_f(g: f32, w: f64, tol: f64) -> bool {
    let g = g as f64;
    (g.is_nan() && w.is_nan()) || g == w || (g - w).abs() <= tol
}

fn open(bytes: &[u8], buffered: bool) -> Result<(DynamicImage, (u32, u32), ColorType, String), String> {
    fitsrs::image_integration::register_fits_decoding_hook();
    let cap = if buffered { 8192 } else { 97 };
    let rd = || -> Result<_, String> {
        ImageReader::new(BufReader::with_capacity(cap, Cursor::new(bytes))).with_guessed_format().map_err(|e| format!("guessing the format: {e}"))
    };
    let mut d = rd()?.into_decoder().map_err(|e| format!("{e}"))?;
    let (dim, ct) = (d.dimensions(), d.color_type());
    let or = format!("{:?}", d.orientation().map_err(|e| format!("{e}"))?);
    drop(d);
    let img = rd()?.decode().map_err(|e| format!("{e}"))?;
    Ok((img, dim, ct, or))
}

/// `px`: the pixels of the image in FITS order.
fn check(bytes: &[u8], bitpix: i64, w: usize, h: usize, planes: usize, px: &[C]) -> R {
    for buffered in [true, false] {
        let (img, dim, ct, or) = open(bytes, buffered)?;
        if dim != (w as u32, h as u32) || (img.width(), img.height()) != dim {
            return Err(format!("dimensions {dim:?}, expected {w}x{h}"));
        }
        let want_ct = match (bitpix, planes) {
            (8, 1) => ColorType::L8,
            (8, _) => ColorType::Rgb8,
            (16, 1) => ColorType::L16,
            (16, _) => ColorType::Rgb16,
            _ => ColorType::Rgb32F,
        };
        if ct != want_ct || img.color() != want_ct {
            return Err(format!("colour type {ct:?}, expected {want_ct:?}"));
        }
        if or != "FlipVertical" {
            return Err(format!("orientation {or}: the first row of a FITS image is the bottom one"));
        }
        let n = w * h;
        let bad = |k: usize, c: usize, g: String| Err(format!("pixel ({}, {}) channel {c}: got {g}, expected {:?}", k % w, k / w, px[if planes == 3 { c * n + k } else { k }]));
        let chans = if matches!(want_ct, ColorType::L8 | ColorType::L16) { 1 } else { 3 };
        let at = |k: usize, c: usize| px[if planes == 3 { c * n + k } else { k }];
        macro_rules! cmp {
            ($buf:expr, $v:ident, $ok:expr) => {{
                let buf = $buf;
                if buf.as_raw().len() != n * chans {
                    return Err("size of the decoded image".into());
                }
                for (i, g) in buf.as_raw().iter().enumerate() {
                    if !$ok(*g, at(i / chans, i % chans)) {
                        return bad(i / chans, i % chans, format!("{g:?}"));
                    }
                }
            }};
        }
        let b = |g: u8, w: C| matches!(w, C::B(v) if v == g);
        let wd = |g: u16, w: C| matches!(w, C::W(v) if v == g);
        let f = |g: f32, w: C| matches!(w, C::F(v, t) if same_f(g, v, t));
        match &img {
            DynamicImage::ImageLuma8(i) => cmp!(i, B, b),
            DynamicImage::ImageRgb8(i) => cmp!(i, B, b),
            DynamicImage::ImageLuma16(i) => cmp!(i, W, wd),
            DynamicImage::ImageRgb16(i) => cmp!(i, W, wd),
            DynamicImage::ImageRgb32F(i) => cmp!(i, F, f),
            _ => return Err("unexpected kind of decoded image".into()),
        }
    }
    Ok(())
}

/// The image at several places of the file.
fn place(k: usize, cards_data: (Vec<CardB>, Vec<u8>), bitpix: i64, axes: &[usize]) -> Vec<u8> {
    place_with(k, cards_data, bitpix, axes, &|_| ())
}
fn place_with(k: usize, cards_data: (Vec<CardB>, Vec<u8>), bitpix: i64, axes: &[usize], twist: &dyn Fn(&mut H)) -> Vec<u8> {
    let (extra, data) = cards_data;
    let mk = |kind| {
        let mut c = image_cards(kind, bitpix, axes);
        c.extend(extra.clone());
        let mut h = H { kind, cards: c, data: data.clone() };
        twist(&mut h);
        h
    };
    let decoy = image(Kind::Image, 16, &[3, 2], 9);
    let hs = match k {
        0 => vec![mk(Kind::Primary)],
        1 => vec![mk(Kind::Primary), decoy],
        2 => vec![empty_primary(), mk(Kind::Image)],
        3 => vec![empty_primary(), table(), ascii(5, 3, 2), mk(Kind::Image), decoy],
        _ => vec![image(Kind::Primary, 16, &[0, 4], 1), image(Kind::Image, -32, &[], 1), mk(Kind::Image), decoy],
    };
    file(&hs, 0).bytes
}
fn table() -> H {
    H {
        kind: Kind::BinTable,
        cards: bintable_cards(6, 3, 0, &[("1J".into(), Some("COMPRESSED".into())), ("2A".into(), None)]),
        data: pat(18, 4),
    }
}
fn scale_cards(ch: &mut Ch) -> (Vec<CardB>, Option<(f64, f64)>) {
    match ch.choose(11) {
        9 => (vec![int("BZERO", -16777216)], Some((-16777216.0, 1.0))),
        10 => (vec![kv("BZERO", "-1.0E15"), int("BSCALE", 3)], Some((-1e15, 3.0))),
        0 => (vec![], None),
        1 => (vec![int("BZERO", 32768), int("BSCALE", 1)], Some((32768.0, 1.0))),
        2 => (vec![kv("BZERO", "0.0"), kv("BSCALE", "1.0")], None),
        3 => (vec![kv("BZERO", "10.5")], Some((10.5, 1.0))),
        4 => (vec![kv("BSCALE", "0.5"), kv("BZERO", "-3.0")], Some((-3.0, 0.5))),
        5 => (vec![int("BSCALE", 2)], Some((0.0, 2.0))),
        6 => (vec![kv("BSCALE", "-1.0"), int("BZERO", 255)], Some((255.0, -1.0))),
        7 => (vec![kv("BZERO", "2147483648.0"), kv("BSCALE", "1.0E0")], Some((2147483648.0, 1.0))),
        _ => (vec![kv("BZERO", "3.0"), kv("BSCALE", "0.0")], Some((3.0, 0.0))),
    }
}
fn scaling(bitpix: i64, s: Option<(f64, f64)>) -> Option<(f64, f64)> {
    if bitpix < 0 {
        None
    } else {
        s
    }
}

fn axes_of(w: usize, h: usize, planes: usize) -> Vec<usize> {
    match planes {
        0 => vec![w, h],
        p => vec![w, h, p],
    }
}

fn shapes(ch: &mut Ch) -> R {
    let bitpix = ch.pick(&BP);
    let m = if ch.thorough { 6 } else { 4 };
    // all small sizes, and some on both sides of the powers of two
    let (w, h) = match ch.choose(2) {
        0 => (ch.range(1, m), ch.range(1, m)),
        _ => ch.pick(&[(255usize, 3usize), (3, 256), (257, 257), (1, 65536), (65537, 1), (33, 130)]),
    };
    let planes = ch.pick(&[0usize, 1, 3]);
    let k = ch.choose(5);
    let (cards, sc) = if k == 2 { scale_cards(ch) } else { (vec![], None) };
    let axes = axes_of(w, h, planes);
    let data = pat(image_len(bitpix, &axes), 3);
    ch.say(|| format!("bitpix {bitpix} axes {axes:?} place {k} scale {sc:?}"));
    ch.visit(&(bitpix, &axes, k, format!("{sc:?}")));
    let want: Vec<C> = pixels(bitpix, &data).into_iter().map(|p| convert(p, scaling(bitpix, sc))).collect();
    check(&place(k, (cards, data), bitpix, &axes), bitpix, w, h, planes.max(1), &want).map_err(|e| format!("bitpix {bitpix} axes {axes:?} place {k} scale {sc:?}: {e}"))
}

/// Keywords that change neither the pixels nor the choice of the HDU.
fn bystanders(ch: &mut Ch) -> R {
    let bitpix = ch.pick(&BP);
    let planes = ch.pick(&[0usize, 3]);
    let k = ch.pick(&[0usize, 3]);
    let on = if k == 0 { super::bystanders::On::Primary } else { super::bystanders::On::Image };
    let tw = super::bystanders::choose(ch, on, false);
    if tw.cards.iter().any(|c| c.starts_with(b"BSCALE") || c.starts_with(b"BZERO")) {
        return Ok(());
    }
    let axes = axes_of(3, 2, planes);
    let mut data = pat(image_len(bitpix, &axes), 3);
    data[..bitpix_size(bitpix)].fill(0);
    ch.say(|| format!("bitpix {bitpix} planes {planes} place {k} cards {:?}", tw.id));
    ch.visit(&(bitpix, planes, k, tw.id));
    let want: Vec<C> = pixels(bitpix, &data).into_iter().map(|p| convert(p, None)).collect();
    check(&place_with(k, (vec![], data), bitpix, &axes, &|h| super::bystanders::twist(h, &tw)), bitpix, 3, 2, planes.max(1), &want).map_err(|e| format!("bitpix {bitpix} axes {axes:?} with {}: {e}", super::bystanders::show(&tw)))
}

fn values(ch: &mut Ch) -> R {
    let bitpix = ch.pick(&BP);
    let planes = ch.pick(&[0usize, 3]);
    let (cards, sc) = scale_cards(ch);
    let (w, h, data): (usize, usize, Vec<u8>) = match bitpix {
        8 => (16, 16, (0..=255u8).collect()),
        16 => (256, 256, (0..=65535u16).flat_map(|v| v.to_be_bytes()).collect()),
        32 => {
            let mut v: Vec<i32> = vec![0, i32::MIN, i32::MAX, -1];
            v.extend((0..31).map(|i| 1 << i));
            v.extend([16777217, 16777219, 16777259, -16777217, 123456789]);
            (v.len(), 1, v.iter().flat_map(|v| v.to_be_bytes()).collect())
        }
        64 => {
            let mut v: Vec<i64> = vec![0, i64::MIN, i64::MAX, -1];
            v.extend((0..63).map(|i| 1 << i));
            v.extend([16777217, 16777219, 333333333333335, 333333333333401, -16777217]);
            (v.len(), 1, v.iter().flat_map(|v| v.to_be_bytes()).collect())
        }
        -32 => {
            let v = [0.0f32, -0.0, 1.0, -1.0, 0.25, 255.0, 1e-40, f32::MAX, f32::MIN_POSITIVE, f32::INFINITY, f32::NEG_INFINITY, f32::NAN];
            (v.len(), 1, v.iter().flat_map(|v| v.to_be_bytes()).collect())
        }
        _ => {
            let v = [0.0f64, -0.0, 1.0, -1.0, 0.1, 255.0, 1e-40, 1e300, -1e300, 1e-300, 3.4028235e38, f64::INFINITY, f64::NEG_INFINITY, f64::NAN];
            (v.len(), 1, v.iter().flat_map(|v| v.to_be_bytes()).collect())
        }
    };
    let mut all = data.clone();
    if planes == 3 {
        let sz = bitpix_size(bitpix);
        let mut rev: Vec<u8> = data.chunks(sz).rev().flatten().copied().collect();
        all.append(&mut rev);
        all.extend(&data);
    }
    let axes = axes_of(w, h, planes);
    ch.say(|| format!("bitpix {bitpix} axes {axes:?} scale {sc:?}"));
    ch.visit(&(bitpix, &axes, format!("{sc:?}")));
    let want: Vec<C> = pixels(bitpix, &all).into_iter().map(|p| convert(p, scaling(bitpix, sc))).collect();
    check(&place(0, (cards, all), bitpix, &axes), bitpix, w, h, planes.max(1), &want).map_err(|e| format!("bitpix {bitpix} axes {axes:?} scale {sc:?}: {e}"))
}

fn tiled(ch: &mut Ch) -> R {
    let bitpix = ch.pick(&[8i64, 16, 32, -32, -64]);
    let (mx, my) = if ch.thorough { (6, 5) } else { (4, 3) };
    let big = ch.choose(3);
    let (w, h) = match big {
        0 => (ch.range(1, mx), ch.range(1, my)),
        1 => (300, 70),
        _ => (20, 257),
    };
    let planes = ch.pick(&[0usize, 1, 3]);
    let axes = axes_of(w, h, planes);
    let explicit = ch.flag();
    let tile: Vec<usize> = if explicit && big > 0 {
        let mut t = ch.pick(&[vec![w, h], vec![64, 3], vec![7, h], vec![w, 16]]);
        if planes > 0 {
            t.push(ch.range(1, planes));
        }
        t
    } else if explicit {
        let mut t = vec![ch.range(1, w + 1), ch.range(1, h)];
        if planes > 0 {
            t.push(ch.range(1, planes));
        }
        t
    } else {
        axes.iter().enumerate().map(|(i, n)| if i == 0 { *n } else { 1 }).collect()
    };
    let n: usize = axes.iter().product();
    let tl = tiles(&axes, &tile);
    let px: Vec<i64> = (0..n as i64)
        .map(|i| match bitpix {
            8 => (3 + 11 * i) % 256,
            16 => (3000 * (i % 9) - 5000 + i) as i16 as i64,
            _ => (1_000_003 * i) % 1_999_999_973 - 70_000_000,
        })
        .collect();
    ch.say(|| format!("bitpix {bitpix} axes {axes:?} tiles {tile:?} explicit {explicit}"));
    ch.visit(&(bitpix, &axes, &tile, explicit));
    let (scards, sc) = if bitpix > 0 && big == 0 && (explicit || ch.thorough) { scale_cards(ch) } else { (vec![], None) };
    for cmp in [Cmp::Rice(4, 32), Cmp::Gz1(4), Cmp::Gz2(4)] {
        ch.exec();
        let enc = tl.iter().map(|ids| encode(&ids.iter().map(|i| px[*i]).collect::<Vec<_>>(), cmp)).collect();
        let mut s = spec(bitpix, &axes, explicit.then(|| tile.clone()), cmp, enc);
        s.cards = scards.clone();
        let zs = |t: usize| (0.25 + 0.5 * t as f64, 100.0 - 8.0 * t as f64);
        let mut want = vec![C::B(0); n];
        for (t, ids) in tl.iter().enumerate() {
            for i in ids {
                want[*i] = match bitpix {
                    8 => convert(Px::U8(px[*i] as u8), sc),
                    16 => convert(Px::I16(px[*i] as i16), sc),
                    32 => convert(Px::I32(px[*i] as i32), sc),
                    _ => {
                        let (a, b) = zs(t);
                        let v = px[*i] as f64 * a + b;
                        C::F(v, (px[*i] as f64 * a).abs().max(b.abs()) * 1e-6)
                    }
                };
            }
        }
        if bitpix < 0 {
            s.after = vec![
                Extra { form: "1E", name: Some("ZSCALE"), rows: (0..tl.len()).map(|t| (zs(t).0 as f32).to_be_bytes().to_vec()).collect() },
                Extra { form: "1E", name: Some("ZZERO"), rows: (0..tl.len()).map(|t| (zs(t).1 as f32).to_be_bytes().to_vec()).collect() },
            ];
        }
        let bytes = file(&[empty_primary(), table(), compressed(&s), image(Kind::Image, 8, &[2, 2], 1)], 0).bytes;
        check(&bytes, bitpix, w, h, planes.max(1), &want).map_err(|e| format!("tile compressed {cmp:?} bitpix {bitpix} axes {axes:?} tiles {tile:?}: {e}"))?;
    }
    Ok(())
}

fn refused(ch: &mut Ch) -> R {
    let menu: Vec<H> = vec![
        table(),
        ascii(5, 3, 2),
        image(Kind::Image, 8, &[], 0),
        image(Kind::Image, 16, &[0, 3], 0),
        image(Kind::Image, 16, &[4], 7),
        image(Kind::Image, -64, &[2, 2, 3, 2], 7),
    ];
    let mut hs = vec![if ch.flag() { image(Kind::Primary, 8, &[3], 1) } else { empty_primary() }];
    let mut what = vec![];
    let n = ch.range(0, 2);
    for _ in 0..n {
        let k = ch.choose(menu.len());
        what.push(k);
        hs.push(menu[k].clone());
    }
    ch.visit(&(what.clone(), hs[0].data.len()));
    let mut bytes = file(&hs, 0).bytes;
    // damaged or truncated headers
    let damage = ch.choose(3);
    if damage == 1 {
        bytes.truncate(1000);
    } else if damage == 2 {
        bytes[80..83].copy_from_slice(b"XXX");
    }
    match open(&bytes, true) {
        Err(_) => Ok(()),
        Ok((i, ..)) => Err(format!("a file without two-dimensional image ({} HDUs {what:?}, damage {damage}) was opened as {}x{}", hs.len(), i.width(), i.height())),
    }
}

/// Opened from the file system, the format being told by the name or by the content.
fn names(ch: &mut Ch) -> R {
    fitsrs::image_integration::register_fits_decoding_hook();
    let ext = ch.pick(&["fits", "fit", "fts", "fz", "FITS", "Fits"]);
    let bitpix = ch.pick(&BP);
    ch.visit(&(ext, bitpix));
    let dir = std::env::var("FITSMC_SCRATCH").map_err(|_| "no scratch directory".to_string())?;
    let path = std::path::Path::new(&dir).join(format!("c18-{bitpix}.{ext}"));
    let axes = [3, 2];
    let data = pat(image_len(bitpix, &axes), 6);
    std::fs::write(&path, place(2, (vec![], data), bitpix, &axes)).map_err(|e| format!("scratch file: {e}"))?;
    let r = image::open(&path);
    let _ = std::fs::remove_file(&path);
    match r {
        Ok(i) if (i.width(), i.height()) == (3, 2) => Ok(()),
        Ok(i) => Err(format!("{ext}: opened as {}x{}", i.width(), i.height())),
        Err(e) => Err(format!("a file named .{ext} is not opened: {e}")),
    }
}
