//! C16: gzip-compressed files.

use super::Prop;
use crate::engine::{Ch, Space, R};
use crate::walk::*;
use fitsrs::gz::GzReader;
use fitsrs::{FITSFile, Fits};
use std::io::{Cursor, Write};
use std::sync::{Arc, OnceLock};

pub static C16: Prop = Prop {
    id: "C16",
    level: "model_checking",
    rule: "one execution = one gzip encoding (header flags and fields, compression level, division into members, what follows) of one \
           sample file, or one schedule of the source's answers, or one damaged or cut encoding, read completely in one access style and \
           compared with the plain file; state = (file, encoding, style, schedule or fault)",
    assumptions: &[
        "the gzip container is written by the harness from RFC 1952; the deflate streams come from flate2's raw encoder",
        "the reference is the plain file read from memory by the same library (what that reading gives is the subject of C01-C15)",
        "damage is explored for files of one member: damage to the first byte of a later member cannot be told from what may follow a gzip file",
    ],
    spaces: &[
        Space { name: "headers", body: headers },
        Space { name: "members", body: members },
        Space { name: "schedules", body: schedules },
        Space { name: "large", body: large },
        Space { name: "cuts", body: cuts },
        Space { name: "damage", body: damage },
        Space { name: "files", body: on_disk },
    ],
};

const FTEXT: u8 = 1;
const FHCRC: u8 = 2;
const FEXTRA: u8 = 4;
const FNAME: u8 = 8;
const FCOMMENT: u8 = 16;

fn crc(b: &[u8]) -> u32 {
    let mut c = flate2::Crc::new();
    c.update(b);
    c.sum()
}
fn deflate(b: &[u8], level: u32) -> Vec<u8> {
    let mut e = flate2::write::DeflateEncoder::new(vec![], flate2::Compression::new(level));
    e.write_all(b).expect("memory");
    e.finish().expect("memory")
}
#[derive(Clone, Debug, Hash)]
struct Head {
    flags: u8,
    extra: usize,
    name: usize,
    comment: usize,
    mtime: u32,
    xfl: u8,
    os: u8,
}
const PLAIN: Head = Head { flags: 0, extra: 0, name: 0, comment: 0, mtime: 0, xfl: 0, os: 255 };
fn head(h: &Head) -> Vec<u8> {
    let mut v = vec![0x1f, 0x8b, 8, h.flags];
    v.extend(h.mtime.to_le_bytes());
    v.extend([h.xfl, h.os]);
    if h.flags & FEXTRA != 0 {
        v.extend((h.extra as u16).to_le_bytes());
        v.extend((0..h.extra).map(|i| (i * 37) as u8));
    }
    if h.flags & FNAME != 0 {
        v.extend((0..h.name).map(|i| b'a' + (i % 26) as u8));
        v.push(0);
    }
    if h.flags & FCOMMENT != 0 {
        v.extend((0..h.comment).map(|i| 0x80 + (i % 100) as u8));
        v.push(0);
    }
    if h.flags & FHCRC != 0 {
        v.extend((crc(&v) as u16).to_le_bytes());
    }
    v
}
fn member(h: &Head, content: &[u8], level: u32) -> Vec<u8> {
    let mut v = head(h);
    v.extend(deflate(content, level));
    v.extend(crc(content).to_le_bytes());
    v.extend((content.len() as u32).to_le_bytes());
    v
}

fn same(log: Result<Log, String>, f: usize, style: Style, what: impl Fn() -> String) -> R {
    let want = reference(f, style);
    match log {
        Err(e) => Err(format!("{}: {e}", what())),
        Ok(l) if l == *want => Ok(()),
        Ok(l) => {
            let at = l.hdus.iter().zip(&want.hdus).position(|(a, b)| a != b);
            Err(format!(
                "{}: {} HDUs (error: {}), plain file {} (error: {}), first difference at HDU {at:?}",
                what(), l.hdus.len(), l.err, want.hdus.len(), want.err
            ))
        }
    }
}
fn read_gz<R2: std::io::Read + std::io::Seek + std::fmt::Debug + 'static>(r: R2, style: Style) -> Result<Log, String> {
    let r = GzReader::new(r).map_err(|e| format!("refused: {e:?}"))?;
    observe(&mut Fits::from_reader(r), style, 1)
}

fn headers(ch: &mut Ch) -> R {
    let flags = ch.choose(32) as u8;
    let lens: &[usize] = if ch.thorough { &[0, 1, 2, 9, 80, 255, 256, 2880, 32768, 40000] } else { &[0, 1, 9, 2880, 40000] };
    let extra = if flags & FEXTRA != 0 { ch.pick(lens) } else { 0 };
    let name = if flags & FNAME != 0 { ch.pick(lens) } else { 0 };
    let comment = if flags & FCOMMENT != 0 { ch.pick(lens) } else { 0 };
    let (mtime, xfl, os) = ch.pick(&[(0, 0, 255), (u32::MAX, 2, 3), (0x8b1f, 4, 0)]);
    let h = Head { flags, extra, name, comment, mtime, xfl, os };
    let files: &[usize] = if ch.thorough { &[0, 3, 4, 6] } else { &[4] };
    for &f in files {
        ch.exec();
        let m = member(&h, &files_bytes(f), 6);
        // both ends of what is read at once are met by a source that gives everything and one that gives a byte at a time
        let mut s = Src::new(Arc::new(m.clone()));
        s.max = 1;
        same(read_gz(Cursor::new(m), Style::Values), f, Style::Values, || format!("file {f}, gzip header {h:?}"))?;
        same(read_gz(s, Style::Values), f, Style::Values, || format!("file {f}, gzip header {h:?}, byte by byte"))?;
    }
    ch.visit(&h);
    ch.say(|| format!("{h:?}"));
    Ok(())
}
fn files_bytes(f: usize) -> Vec<u8> {
    all_files()[f].1.bytes.clone()
}

/// A file cut into members at given places, with something behind.
fn members(ch: &mut Ch) -> R {
    let f = ch.choose(files().len());
    let b = files_bytes(f);
    let level = ch.pick(if ch.thorough { &[0u32, 1, 2, 3, 4, 5, 6, 7, 8, 9][..] } else { &[0, 1, 6, 9] });
    let n = b.len();
    let places = [0, 1, 79, 80, 2879, 2880, 2881, n / 2, n - 1, n];
    let k = ch.choose(if ch.thorough { 4 } else { 3 });
    let mut at: Vec<usize> = (0..k).map(|_| places[ch.choose(places.len())]).collect();
    at.sort();
    at.insert(0, 0);
    at.push(n);
    let tail = ch.pick(&[&b""[..], &b"\0"[..], &[0u8; 512][..], &b"trailing words"[..]]);
    let style = if k == 0 { ch.pick(&STYLES) } else { Style::Values };
    let flags = ch.pick(&[0u8, FNAME | FHCRC, FTEXT | FEXTRA]);
    let h = Head { flags, extra: 5, name: 3, ..PLAIN };
    let mut m = vec![];
    for w in at.windows(2) {
        m.extend(member(&h, &b[w[0]..w[1]], level));
    }
    m.extend(tail);
    ch.visit(&(f, level, &at, tail, style, flags));
    ch.say(|| format!("file {f} level {level} members at {at:?}, {} bytes behind, {style:?}", tail.len()));
    same(read_gz(Cursor::new(m), style), f, style, || format!("file {f} level {level} members at {at:?}, {} bytes behind, {style:?}", tail.len()))
}

/// Contents larger than the windows and buffers of the decompression.
fn large(ch: &mut Ch) -> R {
    let f = SMALL + ch.choose(all_files().len() - SMALL);
    let b = files_bytes(f);
    let level = ch.pick(if ch.thorough { &[0u32, 1, 2, 3, 4, 5, 6, 7, 8, 9][..] } else { &[0, 1, 6, 9] });
    let piece = ch.pick(&[usize::MAX, 10000, 32767, 32768, 65535, 65536]);
    let mut m = vec![];
    for c in b.chunks(piece.min(b.len())) {
        m.extend(member(&PLAIN, c, level));
    }
    let mut s = Src::new(Arc::new(m));
    s.max = ch.pick(&[usize::MAX, 1, 100, 1000, 4096, 8191, 8192, 8193, 32768, 65536]);
    let style = ch.pick(&[Style::Values, Style::Rows, Style::One]);
    let what = format!("file {} level {level} in members of {piece} bytes, at most {} bytes per read, {style:?}", all_files()[f].0, s.max);
    ch.visit(&what);
    ch.say(|| what.clone());
    same(read_gz(s, style), f, style, || what.clone())
}

/// A source that gives its bytes in pieces and is interrupted: gzip or plain.
fn schedules(ch: &mut Ch) -> R {
    let zipped = ch.flag();
    let f = ch.choose(files().len());
    let bytes = Arc::new(if zipped {
        let mut m = member(&Head { flags: FEXTRA | FNAME | FHCRC, extra: 7, name: 4, ..PLAIN }, &files_bytes(f), 6);
        if ch.flag() {
            m = [m, member(&PLAIN, b"", 6)].concat();
        }
        m
    } else {
        files_bytes(f)
    });
    let mut s = Src::new(bytes);
    match ch.choose(2) {
        0 => s.max = if ch.thorough { ch.range(1, 400) } else { ch.range(1, 64) },
        _ => {
            s.max = ch.pick(&[1usize, 7, 80, 1000, usize::MAX]);
            let a = ch.choose(if ch.thorough { 120 } else { 40 });
            let n = ch.range(1, 2);
            // one or two interruptions in a row
            s.devs = (0..n).map(|i| (a + i, Dev::Interrupted)).collect();
        }
    }
    let what = format!("file {f} zipped {zipped} max {} devs {:?}", s.max, s.devs);
    ch.visit(&(&what, s.data.len()));
    let style = Style::Values;
    same(read_gz(s, style), f, style, || what.clone())
}

fn zipped(f: usize) -> Arc<Vec<u8>> {
    static T: OnceLock<Vec<Arc<Vec<u8>>>> = OnceLock::new();
    T.get_or_init(|| {
        (0..files().len())
            .map(|f| Arc::new(member(&Head { flags: FEXTRA | FNAME | FCOMMENT | FHCRC, extra: 3, name: 4, comment: 2, ..PLAIN }, &files_bytes(f), 6)))
            .collect()
    })[f]
        .clone()
}
/// Damaged: refused, or nothing delivered, or (what does not bear on the content) the same.
fn refused(r: Result<Log, String>, f: usize, may_be_same: bool, what: impl Fn() -> String) -> R {
    match r {
        Err(e) if e.starts_with("refused") => Ok(()),
        Err(e) => Err(format!("{}: {e}", what())),
        Ok(l) if l.hdus.is_empty() => Ok(()),
        Ok(l) if may_be_same && l == *reference(f, Style::Values) => Ok(()),
        Ok(l) => Err(format!("{}: {} HDUs are delivered", what(), l.hdus.len())),
    }
}
fn cuts(ch: &mut Ch) -> R {
    let f = ch.choose(files().len());
    let z = zipped(f);
    let n = ch.choose(z.len());
    ch.visit(&(f, n));
    let kind = ch.choose(2);
    let mut s = Src::new(if kind == 0 { Arc::new(z[..n].to_vec()) } else { z.clone() });
    if kind == 1 {
        s.fail_at = Some(n as u64);
    }
    refused(read_gz(s, Style::Values), f, false, || format!("file {f} gzipped ({} bytes), {} at {n}", z.len(), ["cut", "failing"][kind]))
}
fn damage(ch: &mut Ch) -> R {
    let nf = if ch.thorough { files().len() } else { 4 };
    let f = ch.choose(nf);
    let z = zipped(f);
    let at = ch.choose(z.len());
    let v = z[at];
    let mut alts: Vec<u8> = if ch.thorough { (0..=255).filter(|x| *x != v).collect() } else { (0..8).map(|b| v ^ (1 << b)).collect() };
    alts.push(!v);
    for a in alts {
        ch.exec();
        let mut m = z.to_vec();
        m[at] = a;
        refused(read_gz(Cursor::new(m), Style::Values), f, true, || format!("file {f} gzipped, byte {at} is {a:#x} instead of {v:#x}"))?;
    }
    ch.visit(&(f, at));
    Ok(())
}

/// Through the file system.
fn on_disk(ch: &mut Ch) -> R {
    let f = ch.choose(files().len());
    let style = ch.pick(&STYLES);
    let form = ch.choose(4);
    let b = files_bytes(f);
    let bytes = match form {
        0 => b,
        1 => member(&PLAIN, &b, 6),
        2 => member(&Head { flags: FNAME, name: 9, ..PLAIN }, &b, 0),
        _ => [member(&PLAIN, &b[..2000], 9), member(&PLAIN, &b[2000..], 1)].concat(),
    };
    let ext = ch.pick(&["fits", "fits.gz", "dat"]);
    let path = crate::scratch().join(format!("c16-{f}-{style:?}-{form}.{ext}"));
    std::fs::write(&path, &bytes).expect("engine: scratch file");
    let log = FITSFile::open(&path).map_err(|e| format!("refused: {e:?}")).and_then(|mut x| observe(&mut x, style, 1));
    let _ = std::fs::remove_file(&path);
    ch.visit(&(f, style, form, ext));
    same(log, f, style, || format!("file {f} form {form} as .{ext}, {style:?}"))
}
