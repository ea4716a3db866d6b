//! C21: the report of the command-line tool.

use super::c01::{flat_table, tile_table, vla_table};
use super::Prop;
use crate::engine::{Ch, Space, R};
use crate::gen::*;
use std::path::PathBuf;
use std::process::{Command, Stdio};

pub static C21: Prop = Prop {
    id: "C21",
    level: "model_checking",
    rule: "one execution = one run of the real binary (built from the repository's own main.rs) on one file, its standard output compared \
           line by line with a report made from the layout the writer produced, and its exit status; state = (sequence of HDUs, \
           header lengths, place of the cut or of the illegal card)",
    assumptions: &["a cut inside a data unit or the first card of a header may be reported as an error or as the end"],
    spaces: &[
        Space { name: "sequences", body: sequences },
        Space { name: "shapes", body: shapes },
        Space { name: "broken", body: broken },
        Space { name: "arguments", body: arguments },
        Space { name: "many", body: many },
        Space { name: "bystanders", body: bystanders },
        Space { name: "huge", body: huge },
    ],
};

/// An HDU and what its header says: axes and type, or columns and rows.
#[derive(Clone)]
enum Head {
    Image(i64, Vec<usize>),
    Table(usize, usize),
}
fn bitpix_name(b: i64) -> &'static str {
    match b {
        8 => "U8",
        16 => "I16",
        32 => "I32",
        64 => "I64",
        -32 => "F32",
        _ => "F64",
    }
}
fn report(i: usize, h: &H, d: &Head, off: usize) -> Vec<String> {
    let kind = match h.kind {
        Kind::Primary => "PRIMARY",
        Kind::Image => "IMAGE",
        Kind::BinTable => "BINTABLE",
        Kind::Ascii => "ASCIITABLE",
    };
    let head = match d {
        Head::Image(b, ax) => {
            let dim = if ax.is_empty() { "0".to_string() } else { ax.iter().map(|a| a.to_string()).collect::<Vec<_>>().join("x") };
            format!(" * HEAD naxis: {ax:?}; bitpix : {}; dimensions: {dim}.", bitpix_name(*b))
        }
        Head::Table(c, r) => format!(" * HEAD n_cols: {c}; n_rows: {r}."),
    };
    vec![
        format!("HDU[{i}]:"),
        format!(" * HDU type: {kind}"),
        head,
        format!(" * DATA starting byte: {off}; byte size: {}.", h.data.len()),
    ]
}

struct Ran {
    ok: bool,
    out: Vec<String>,
    err: String,
}
fn run(args: &[&str], bytes: Option<&[u8]>, name: &str) -> Ran {
    let exe: PathBuf = std::env::current_exe().expect("engine: own path").with_file_name("fits-under-test");
    let path = crate::scratch().join(name);
    if let Some(b) = bytes {
        std::fs::write(&path, b).expect("engine: scratch file");
    }
    let mut c = Command::new(exe);
    c.args(args);
    if bytes.is_some() {
        c.arg(&path);
    }
    let o = c.env_remove("RUST_LOG").env_remove("RUST_BACKTRACE").stdin(Stdio::null()).output().expect("engine: cannot run the tool");
    if bytes.is_some() {
        let _ = std::fs::remove_file(&path);
    }
    Ran {
        ok: o.status.success(),
        out: String::from_utf8_lossy(&o.stdout).lines().map(|l| l.trim_end().to_string()).collect(),
        err: String::from_utf8_lossy(&o.stderr).into_owned(),
    }
}
fn unique() -> String {
    static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    format!("c21-{}-{}.fits", std::process::id(), N.fetch_add(1, std::sync::atomic::Ordering::Relaxed))
}

type Hd = (H, Head);
fn img(k: Kind, b: i64, ax: &[usize]) -> Hd {
    (image(k, b, ax, 3), Head::Image(b, ax.to_vec()))
}
fn primaries() -> Vec<Hd> {
    let p = Kind::Primary;
    vec![img(p, 8, &[]), img(p, 16, &[3, 2]), img(p, -64, &[0]), img(p, 32, &[721])]
}
fn extensions() -> Vec<Hd> {
    let x = Kind::Image;
    let two = {
        let cols = [("1J".to_string(), Some("A".to_string())), ("2I".to_string(), None), ("3A".to_string(), Some("B".to_string()))];
        H { kind: Kind::BinTable, cards: bintable_cards(11, 2, 0, &cols), data: pat(22, 5) }
    };
    let asc = {
        let cols = [(1, "A3".to_string()), (5, "I4".to_string())];
        H { kind: Kind::Ascii, cards: ascii_cards(9, 3, &cols), data: vec![b'1'; 27] }
    };
    vec![
        img(x, 8, &[]),
        img(x, -32, &[4, 1, 2]),
        img(x, 64, &[360]),
        (flat_table(7, 3, 1), Head::Table(1, 3)),
        (flat_table(5, 0, 1), Head::Table(1, 0)),
        (two, Head::Table(3, 2)),
        (vla_table(2, 1), Head::Table(2, 2)),
        (tile_table(3, 2), Head::Table(1, 2)),
        (asc, Head::Table(2, 3)),
        (ascii(6, 0, 1), Head::Table(1, 0)),
        // an HDU with a name and other keywords, over two header blocks
        {
            let (mut h, d) = img(x, 16, &[5]);
            h.cards.push(st("EXTNAME", "SCI"));
            h.cards.push(int("EXTVER", 2));
            (grow(h, 40), d)
        },
    ]
}
fn expected(hs: &[Hd], f: &FileB) -> Vec<String> {
    hs.iter().enumerate().flat_map(|(i, (h, d))| report(i, h, d, f.offs[i])).collect()
}
fn compare(hs: &[Hd], bytes: &[u8], f: &FileB, what: &str) -> R {
    let r = run(&["struct"], Some(bytes), &unique());
    let want = expected(hs, f);
    if !r.ok {
        return Err(format!("{what}: the tool fails: {}", r.err));
    }
    if r.out != want {
        let at = r.out.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(r.out.len().min(want.len()));
        return Err(format!("{what}: {} lines, expected {}; line {at} is {:?}, expected {:?}", r.out.len(), want.len(), r.out.get(at), want.get(at)));
    }
    Ok(())
}
fn sequences(ch: &mut Ch) -> R {
    let ps = primaries();
    let xs = extensions();
    let p = ch.choose(ps.len());
    let n = ch.range(0, if ch.thorough { 3 } else { 2 });
    let ks: Vec<usize> = (0..n).map(|_| ch.choose(xs.len())).collect();
    let mut hs = vec![ps[p].clone()];
    hs.extend(ks.iter().map(|k| xs[*k].clone()));
    let f = file(&hs.iter().map(|h| h.0.clone()).collect::<Vec<_>>(), 0);
    ch.visit(&(p, &ks));
    ch.say(|| format!("primary {p}, extensions {ks:?}"));
    compare(&hs, &f.bytes, &f, &format!("primary {p}, extensions {ks:?}"))
}
fn shapes(ch: &mut Ch) -> R {
    let b = ch.pick(&[8i64, 16, 32, 64, -32, -64]);
    let n = ch.range(0, if ch.thorough { 4 } else { 3 });
    let ax: Vec<usize> = (0..n).map(|_| ch.pick(&[1usize, 0, 3, 12])).collect();
    let second = ch.flag();
    let mut hs = vec![];
    if second {
        hs.push(img(Kind::Primary, 8, &[]));
    }
    hs.push(img(if second { Kind::Image } else { Kind::Primary }, b, &ax));
    let f = file(&hs.iter().map(|h| h.0.clone()).collect::<Vec<_>>(), 0);
    ch.visit(&(b, &ax, second));
    compare(&hs, &f.bytes, &f, &format!("bitpix {b} axes {ax:?} second {second}"))
}
/// Many HDUs, many axes, many columns.
/// Keywords that describe neither the kind nor the layout.
fn bystanders(ch: &mut Ch) -> R {
    use super::bystanders::{twist, in_sample, sample, show};
    let (j, tw) = in_sample(ch, false);
    let heads = [Head::Image(16, vec![3, 2]), Head::Image(-32, vec![4]), Head::Table(1, 3), Head::Table(1, 3), Head::Table(2, 2), Head::Table(1, 2)];
    let mut hs: Vec<Hd> = sample().into_iter().zip(heads).collect();
    twist(&mut hs[j].0, &tw);
    let f = file(&hs.iter().map(|h| h.0.clone()).collect::<Vec<_>>(), 0);
    ch.visit(&(j, tw.id));
    ch.say(|| format!("HDU {j} cards {:?}", tw.id));
    compare(&hs, &f.bytes, &f, &format!("HDU {j} with {}", show(&tw)))
}

fn many(ch: &mut Ch) -> R {
    let k = ch.choose(3);
    let mut hs = vec![img(Kind::Primary, 8, &[])];
    let what = match k {
        0 => {
            let n = ch.pick(&[9usize, 10, 11, 99, 100, 101, 300]);
            let xs = extensions();
            hs.extend((0..n).map(|i| xs[i % xs.len()].clone()));
            format!("{n} extensions")
        }
        1 => {
            let n = ch.pick(&[9usize, 10, 11, 99, 100, 101, 255, 256, 999]);
            let b = ch.pick(&[8i64, 16, 32, 64, -32, -64]);
            let ax: Vec<usize> = (0..n).map(|i| if i + 1 == n { 7 } else if i == 3 { 2 } else { 1 }).collect();
            hs.push(img(Kind::Image, b, &ax));
            format!("{n} axes, bitpix {b}")
        }
        _ => {
            let n = ch.pick(&[9usize, 10, 11, 99, 100, 255, 256, 999]);
            let asc = ch.flag();
            let rows = ch.pick(&[0usize, 1, 300]);
            if asc {
                let cols: Vec<_> = (0..n).map(|i| (i * 3 + 1, "A2".to_string())).collect();
                hs.push((H { kind: Kind::Ascii, cards: ascii_cards(3 * n, rows, &cols), data: vec![b'1'; 3 * n * rows] }, Head::Table(n, rows)));
            } else {
                let cols: Vec<_> = (0..n).map(|i| ("2B".to_string(), (i % 3 > 0).then(|| format!("N{i}")))).collect();
                hs.push((H { kind: Kind::BinTable, cards: bintable_cards(2 * n, rows, 0, &cols), data: pat(2 * n * rows, 5) }, Head::Table(n, rows)));
            }
            format!("{n} columns x {rows}, ascii {asc}")
        }
    };
    hs.push(img(Kind::Image, 16, &[3]));
    let f = file(&hs.iter().map(|h| h.0.clone()).collect::<Vec<_>>(), 0);
    ch.visit(&what);
    ch.say(|| what.clone());
    compare(&hs, &f.bytes, &f, &what)
}
/// Data units of more than 2 and 4 GiB, in a file with holes: only the headers are written.
fn huge(ch: &mut Ch) -> R {
    use std::os::unix::fs::FileExt;
    let big: [(Kind, i64, &[usize]); 9] = [
        (Kind::Image, 8, &[0x7fff_ffff]),
        (Kind::Image, 8, &[0x8000_0000]),
        (Kind::Image, 16, &[0x8000_0001]),
        (Kind::Image, -64, &[0x2000_0001]),
        (Kind::Image, 32, &[1 << 16, 1 << 15, 3]),
        (Kind::BinTable, 8, &[12, 0x2000_0001]),
        (Kind::BinTable, 8, &[12, 3]),
        (Kind::Ascii, 8, &[80, 0x0400_0001]),
        (Kind::Ascii, 8, &[1, 0xffff_ffff]),
    ];
    let (kind, b, ax) = ch.pick(&big);
    // a heap, for the tables
    let pcount = if kind == Kind::BinTable { ch.pick(&[0usize, 7, 0x1_0000_0001]) } else { 0 };
    let (cards, head) = match kind {
        Kind::BinTable => (bintable_cards(ax[0], ax[1], pcount, &[("3J".into(), None)]), format!("n_cols: 1; n_rows: {}.", ax[1])),
        Kind::Ascii => (ascii_cards(ax[0], ax[1], &[(1, "A1".into())]), format!("n_cols: 1; n_rows: {}.", ax[1])),
        _ => {
            let dim = ax.iter().map(|a| a.to_string()).collect::<Vec<_>>().join("x");
            (image_cards(kind, b, ax), format!("naxis: {ax:?}; bitpix : {}; dimensions: {dim}.", bitpix_name(b)))
        }
    };
    let size = (image_len(b, ax) + pcount) as u64;
    let mut at = 0u64;
    let mut want = vec![];
    let path = crate::scratch().join(unique());
    let file = std::fs::File::create(&path).expect("engine: scratch file");
    let parts: [(Vec<CardB>, u64, &str, String); 3] = [
        (image_cards(Kind::Primary, 8, &[]), 0, "PRIMARY", "naxis: []; bitpix : U8; dimensions: 0.".into()),
        (
            cards,
            size,
            match kind {
                Kind::BinTable => "BINTABLE",
                Kind::Ascii => "ASCIITABLE",
                _ => "IMAGE",
            },
            head,
        ),
        (image_cards(Kind::Image, 16, &[3]), 6, "IMAGE", "naxis: [3]; bitpix : I16; dimensions: 3.".into()),
    ];
    for (i, (c, n, k, h)) in parts.iter().enumerate() {
        let hd = header(c);
        file.write_all_at(&hd, at).expect("engine: scratch file");
        at += hd.len() as u64;
        want.extend([format!("HDU[{i}]:"), format!(" * HDU type: {k}"), format!(" * HEAD {h}"), format!(" * DATA starting byte: {at}; byte size: {n}.")]);
        at += n.next_multiple_of(2880);
    }
    let what = format!("{kind:?} {b} {ax:?} heap {pcount}");
    ch.visit(&what);
    ch.say(|| what.clone());
    let r = if file.set_len(at).is_err() {
        None // no place for files of this size here
    } else {
        drop(file);
        Some(run(&["struct", &path.display().to_string()], None, ""))
    };
    let _ = std::fs::remove_file(&path);
    match r {
        Some(r) if !r.ok => Err(format!("{what}: the tool fails: {}", r.err)),
        Some(r) if r.out != want => {
            let at = r.out.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(r.out.len().min(want.len()));
            Err(format!("{what}: line {at} is {:?}, expected {:?}", r.out.get(at), want.get(at)))
        }
        _ => Ok(()),
    }
}

/// A file cut somewhere, or with an illegal card: what is before is reported, and it is not a success.
fn broken(ch: &mut Ch) -> R {
    let hs = vec![img(Kind::Primary, 16, &[3, 2]), extensions()[5].clone(), extensions()[8].clone(), img(Kind::Image, 8, &[3])];
    let f = file(&hs.iter().map(|h| h.0.clone()).collect::<Vec<_>>(), 0);
    let want = expected(&hs, &f);
    if ch.flag() {
        let k = ch.choose(hs.len());
        let mut bad = hs.clone();
        let fault = ch.choose(3);
        let c = &mut bad[k].0.cards;
        match fault {
            0 => c[1] = int("BITPIX", 7),
            1 => c[2] = int("NAXIS", -1),
            _ => c[0] = raw("NOTHING =                    T"),
        }
        let b = file(&bad.iter().map(|h| h.0.clone()).collect::<Vec<_>>(), 0);
        let r = run(&["struct"], Some(&b.bytes), &unique());
        ch.visit(&(k, fault));
        if r.ok || r.err.is_empty() {
            return Err(format!("HDU {k} with fault {fault}: no error is given"));
        }
        if r.out != want[..4 * k] {
            return Err(format!("HDU {k} with fault {fault}: {} lines are printed, expected {}", r.out.len(), 4 * k));
        }
        return Ok(());
    }
    let step = if ch.thorough { 40 } else { 160 };
    let at = ch.choose(f.bytes.len() / step) * step + ch.choose(2);
    ch.visit(&at);
    let r = run(&["struct"], Some(&f.bytes[..at]), &unique());
    // header wholly before the cut
    let whole = f.offs.iter().filter(|o| **o <= at).count();
    if r.out.len() > 4 * whole || r.out[..] != want[..r.out.len()] {
        return Err(format!("cut at {at}: {} lines are printed that are not the first of {}", r.out.len(), 4 * whole));
    }
    if r.out.len() < 4 * whole {
        return Err(format!("cut at {at}: {} lines are printed, {whole} HDUs come before the cut", r.out.len()));
    }
    if r.ok && f.offs.iter().enumerate().any(|(i, o)| at < *o && at >= 80 + if i == 0 { 0 } else { f.offs[i - 1] + hs[i - 1].0.data.len().div_ceil(2880) * 2880 }) {
        return Err(format!("cut at {at}, inside a header: success is reported"));
    }
    Ok(())
}
fn arguments(ch: &mut Ch) -> R {
    let k = ch.choose(5);
    ch.visit(&k);
    let missing = crate::scratch().join("no-such-file.fits").display().to_string();
    let args: Vec<&str> = match k {
        0 => vec![],
        1 => vec!["struct"],
        2 => vec!["struct", &missing],
        3 => vec!["nothing", &missing],
        _ => vec!["struct", &missing, &missing],
    };
    let r = run(&args, None, "");
    if r.ok || r.err.is_empty() || !r.out.is_empty() {
        return Err(format!("arguments {args:?}: success {} with {} lines of output", r.ok, r.out.len()));
    }
    Ok(())
}
