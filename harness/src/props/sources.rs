//! C04 (short and interrupted reads), C05 (asynchronous schedules), C06 (truncation and failures).

use super::Prop;
use crate::engine::{Ch, Space, R};
use crate::gen::*;
use crate::props::table::{decode, desc, esize, table, F, TY};
use crate::walk::*;
use fitsrs::async_fits::AsyncFits;
use fitsrs::gz::GzReader;
use fitsrs::Fits;
use std::collections::HashMap;
use std::io::{BufReader, Cursor};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::sync::{Arc, Mutex, OnceLock};

pub static C04: Prop = Prop {
    id: "C04",
    level: "model_checking",
    rule: "one execution = one file x one way of reading it x one buffering x one schedule of answers of the source \
           (every read full, except the chosen ones which are short or interrupted; or all at most n bytes), compared with \
           the file read from memory; state = (file, style, buffering, schedule)",
    assumptions: &["schedules deviate from full reads in at most 2 (3) places, or have a uniform chunk size"],
    spaces: &[Space { name: "uniform", body: uniform }, Space { name: "deviations", body: deviations }, Space { name: "types", body: u_types }, Space { name: "large", body: large }],
};
pub static C05: Prop = Prop {
    id: "C05",
    level: "model_checking",
    rule: "one execution = one file x one buffer capacity x one choice of consumption per HDU x one schedule of poll \
           answers (not ready, short, full), run on the real streams and compared with the synchronous reading; state = \
           (file, capacity, consumption, schedule)",
    assumptions: &[
        "schedules deviate from full answers in at most 2 (3) polls, or have a uniform chunk size and period of Pending",
        "a source that is not ready wakes the task at once",
    ],
    spaces: &[
        Space { name: "uniform", body: a_uniform },
        Space { name: "deviations", body: a_deviations },
        Space { name: "bystanders", body: a_bystanders },
        Space { name: "consumption", body: a_consumption },
        #[cfg(feature = "inner")]
        Space { name: "skip", body: a_skip },
        Space { name: "large", body: a_large },
        Space { name: "huge", body: super::huge::c05 },
    ],
};
pub static C06: Prop = Prop {
    id: "C06",
    level: "fault_enumeration",
    rule: "one evaluation = one file x one way of reading it x one fault (cut at byte n, or reads of byte n and after \
           failing, permanently or once), for every n of the data units and (quick: 4 per card; thorough: all) of the headers, synchronous and asynchronous; distinct = (file, style, fault)",
    assumptions: &["the fault is a short file or an I/O error returned by the source"],
    spaces: &[
        Space { name: "cut", body: cut },
        Space { name: "fail", body: fail },
        Space { name: "seek", body: fail_seek },
        Space { name: "kinds", body: kinds },
        Space { name: "async", body: a_faults },
        Space { name: "types", body: types },
        Space { name: "large", body: f_large },
        Space { name: "pixel_access", body: super::image::faults },
        Space { name: "table_access", body: super::table::faults },
    ],
};

const CAPS: [usize; 6] = [0, 1, 7, 80, 1000, 8192];

/// Run over the chosen buffering: 0.. = no buffer, capacities, last = the gzip-detecting reader.
fn run_sync(src: Src, buf: usize, style: Style, again: usize) -> Result<Log, String> {
    match buf {
        0 => observe(&mut Fits::from_reader(src), style, again),
        b if b < CAPS.len() => observe(&mut Fits::from_reader(BufReader::with_capacity(CAPS[b], src)), style, again),
        _ => match GzReader::new(src) {
            Ok(r) => observe(&mut Fits::from_reader(r), style, again),
            Err(_) => Ok(Log { hdus: vec![], err: true }),
        },
    }
}

fn bytes(f: usize) -> Arc<Vec<u8>> {
    static T: OnceLock<Vec<Arc<Vec<u8>>>> = OnceLock::new();
    T.get_or_init(|| all_files().iter().map(|f| Arc::new(f.1.bytes.clone())).collect())[f].clone()
}

fn diff(got: &Log, want: &Log) -> R {
    if got == want {
        return Ok(());
    }
    if got.hdus.len() != want.hdus.len() || got.err != want.err {
        return Err(format!("{} HDUs (error: {}), expected {} (error: {})", got.hdus.len(), got.err, want.hdus.len(), want.err));
    }
    for (i, (g, w)) in got.hdus.iter().zip(&want.hdus).enumerate() {
        if (g.kind, g.place) != (w.kind, w.place) {
            return Err(format!("HDU {i}: {:?} at {:?}, expected {:?} at {:?}", g.kind, g.place, w.kind, w.place));
        }
        if g.cards != w.cards {
            return Err(format!("HDU {i}: cards {:?}, expected {:?}", g.cards, w.cards));
        }
        if g.items != w.items {
            let k = g.items.iter().zip(&w.items).take_while(|(a, b)| a == b).count();
            return Err(format!(
                "HDU {i}: item {k} of {}: {:?}, expected {:?} of {}",
                g.items.len(),
                g.items.get(k),
                w.items.get(k),
                w.items.len()
            ));
        }
    }
    unreachable!()
}

/// Number of source reads of the undisturbed run.
fn calls(key: (usize, usize, Style, usize, bool)) -> usize {
    type M = HashMap<(usize, usize, Style, usize, bool), usize>;
    static T: OnceLock<Mutex<M>> = OnceLock::new();
    let m = T.get_or_init(Default::default);
    if let Some(n) = m.lock().unwrap().get(&key) {
        return *n;
    }
    let n = Arc::new(AtomicUsize::new(0));
    let mut src = Src::new(bytes(key.0));
    src.max = key.3;
    src.shared_calls = Some(n.clone());
    if key.4 {
        let t = [if key.2 == Style::Skip { Take::None } else { Take::All }];
        let _ = observe_async(AsyncFits::from_reader(futures::io::BufReader::with_capacity(key.1, src)), &t);
    } else {
        let _ = run_sync(src, key.1, key.2, 0);
    }
    let n = n.load(Relaxed);
    m.lock().unwrap().insert(key, n);
    n
}

fn uniform(ch: &mut Ch) -> R {
    let f = ch.choose(files().len());
    let style = ch.pick(&STYLES);
    let buf = ch.choose(CAPS.len() + 1);
    let max = match ch.choose(if ch.thorough { 1000 } else { 100 }) {
        n if n < 90 || ch.thorough => n + 1,
        n => [239, 240, 241, 1439, 2879, 2880, 2881, 5759, 5760, 5761][n - 90],
    };
    let mut src = Src::new(bytes(f));
    src.max = max;
    let what = format!("file {} {style:?} buffering {buf} at most {max} bytes per read", files()[f].0);
    ch.say(|| what.clone());
    ch.visit(&(f, style, buf, max));
    diff(&run_sync(src, buf, style, 0).map_err(|e| format!("{what}: {e}"))?, &reference(f, style)).map_err(|e| format!("{what}: {e}"))
}

/// Chunk sizes of the source for the large files.
const MAXES: [usize; 15] = [usize::MAX, 1, 3, 100, 1000, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32767, 32768, 65536];

/// Data units larger than the buffers in between, in pieces of many sizes, with one or two deviations anywhere.
fn large(ch: &mut Ch) -> R {
    let f = SMALL + ch.choose(all_files().len() - SMALL);
    let style = ch.pick(&STYLES);
    let buf = ch.choose(CAPS.len() + 1);
    let mut src = Src::new(bytes(f));
    let dev = ch.flag();
    src.max = if dev && !ch.thorough { ch.pick(&[usize::MAX, 5000]) } else { ch.pick(&MAXES) };
    if dev {
        let n = calls((f, buf, style, src.max, false));
        let k = ch.choose(n.min(if ch.thorough { 200 } else { 24 }));
        // from the first reads to the last ones
        let at = k * n / n.min(if ch.thorough { 200 } else { 24 }).max(1);
        src.devs = vec![(at, ch.pick(&[Dev::Interrupted, Dev::Short(1), Dev::Half]))];
        if ch.flag() {
            src.devs.push((at + 1, Dev::Interrupted));
        }
    }
    let what = format!("file {} {style:?} buffering {buf} at most {} bytes per read, deviations {:?}", all_files()[f].0, src.max, src.devs);
    ch.say(|| what.clone());
    ch.visit(&(f, style, buf, src.max, &src.devs));
    diff(&run_sync(src, buf, style, 0).map_err(|e| format!("{what}: {e}"))?, &reference(f, style)).map_err(|e| format!("{what}: {e}"))
}
fn a_large(ch: &mut Ch) -> R {
    let f = SMALL + ch.choose(all_files().len() - SMALL);
    let cap = ch.pick(&[7usize, 80, 1000, 2880, 8192, 20000, 100000]);
    let mut src = Src::new(bytes(f));
    let dev = ch.choose(3);
    src.max = if dev == 1 && !ch.thorough { ch.pick(&[usize::MAX, 5000]) } else { ch.pick(&MAXES) };
    let all = ch.pick(&[Take::All, Take::None, Take::N(1), Take::N(4100), Take::Polls(3)]);
    if dev == 2 {
        src.every(3);
    } else if dev == 1 {
        let n = calls((f, cap, Style::Values, src.max, true));
        let m = n.min(if ch.thorough { 200 } else { 24 });
        let at = ch.choose(m) * n / m.max(1);
        src.devs = vec![(at, ch.pick(&[Dev::Pending, Dev::Short(1), Dev::Half]))];
    }
    let what = format!("file {} buffer of {cap} bytes, at most {} bytes per read, not ready every {}, deviations {:?}, {all:?}", all_files()[f].0, src.max, src.period, src.devs);
    ch.say(|| what.clone());
    ch.visit(&(f, cap, src.max, src.period, &src.devs, all));
    a_check(f, src, cap, &[all], &what)
}
/// Faults at a grid of places of the large files (and around the ends of their data units).
fn f_large(ch: &mut Ch) -> R {
    let f = SMALL + ch.choose(all_files().len() - SMALL);
    let (name, fb, hs) = &all_files()[f];
    let step = if ch.thorough { 61 } else { 997 };
    let mut places: Vec<usize> = (0..fb.bytes.len()).step_by(step).collect();
    for (o, h) in fb.offs.iter().zip(hs) {
        let e = o + h.data.len();
        places.extend([*o, o + 1, o + 2879, o + 2880, o + 4096, o + 8191, o + 8192, o + 8193, o + 16384, o + 65536, e - 1, e, e + 1].iter().filter(|p| **p <= fb.bytes.len()));
    }
    let n = places[pos_in(ch, places.len())];
    let kind = ch.choose(3);
    let what = format!("file {name}, fault {} at byte {n}", ["end", "for ever", "once"][kind]);
    ch.say(|| what.clone());
    ch.visit(&(f, n, kind));
    let mut src = Src::new(if kind == 0 { Arc::new(bytes(f)[..n].to_vec()) } else { bytes(f) });
    if kind > 0 {
        src.fail_at = Some(n as u64);
        src.once = kind == 2;
    }
    sync_fault(ch, f, src, n, &what)
}

/// Tables with fields of every type, read in small pieces or with one deviation anywhere in the data.
fn u_types(ch: &mut Ch) -> R {
    let form = ch.choose(4);
    let (_, data, fb) = typed(form);
    let buf = ch.choose(CAPS.len() + 1);
    let style = ch.pick(&[Style::Values, Style::Rows]);
    let mut src = Src::new(Arc::new(fb.bytes.clone()));
    match ch.choose(4) {
        0 => src.max = ch.range(1, if ch.thorough { 200 } else { 40 }),
        k => {
            src.max = [5, 9, 40][k - 1];
            let n = ch.choose(if ch.thorough { 1500 } else { 300 });
            // the reads of the headers are the first ones
            let d = ch.pick(&[Dev::Interrupted, Dev::Short(1)]);
            src.devs = vec![(fb.offs[1] / src.max.min(80) + n, d)];
        }
    }
    let what = format!("table of form {form} {style:?} buffering {buf}, at most {} bytes, deviations {:?}", src.max, src.devs);
    ch.say(|| what.clone());
    ch.visit(&(form, buf, style, src.max, &src.devs));
    let got = run_sync(src, buf, style, 0).map_err(|e| format!("{what}: {e}"))?;
    let want = typed_items(form, data.len());
    let want = if style == Style::Rows { &want.1 } else { &want.0 };
    let g = got.hdus.get(1).map(|h| &h.items);
    if got.err || got.hdus.len() != 3 || g != Some(want) {
        let g = g.cloned().unwrap_or_default();
        let k = g.iter().zip(want).take_while(|(a, b)| a == b).count();
        return Err(format!("{what}: {} HDUs, item {k} of the table: {:?}, expected {:?}", got.hdus.len(), g.get(k), want.get(k)));
    }
    Ok(())
}

fn deviations(ch: &mut Ch) -> R {
    let f = ch.choose(files().len());
    let style = ch.pick(&STYLES);
    let buf = ch.choose(CAPS.len() + 1);
    let n = calls((f, buf, style, usize::MAX, false));
    let most = if n <= 12 { 3 } else if n <= 200 || ch.thorough { 2 } else { 1 };
    let mut devs: Vec<(usize, Dev)> = vec![];
    let mut from = 0;
    for _ in 0..most {
        // 0 = no more; in long runs the second one is close to the first
        let mut w = n + 2 - from.min(n + 1);
        if !devs.is_empty() && n > if ch.thorough { 120 } else { 40 } {
            w = w.min(if ch.thorough { 6 } else { 3 });
        }
        let p = ch.choose(w);
        if p == 0 {
            break;
        }
        let p = from + p - 1;
        let d = ch.pick(&[Dev::Short(1), Dev::Interrupted, Dev::Half, Dev::Short(3)]);
        devs.push((p, d));
        from = p + 1;
    }
    let mut src = Src::new(bytes(f));
    src.devs = devs.clone();
    let what = format!("file {} {style:?} buffering {buf} deviations {devs:?} of {n} reads", files()[f].0);
    ch.say(|| what.clone());
    ch.visit(&(f, style, buf, &devs));
    diff(&run_sync(src, buf, style, 0).map_err(|e| format!("{what}: {e}"))?, &reference(f, style)).map_err(|e| format!("{what}: {e}"))
}

// ---------------------------------------------------------------------------------------------- C05

/// What the asynchronous API gives of the intact file when everything is read: pixels, and all the bytes of the tables.
fn a_reference(f: usize) -> Arc<Log> {
    static T: OnceLock<Mutex<HashMap<usize, Arc<Log>>>> = OnceLock::new();
    let m = T.get_or_init(Default::default);
    if let Some(l) = m.lock().unwrap().get(&f) {
        return l.clone();
    }
    let mut l = (*reference(f, Style::Values)).clone();
    for (s, h) in l.hdus.iter_mut().zip(&all_files()[f].2) {
        s.place = None;
        if matches!(s.kind, Kind::BinTable | Kind::Ascii) {
            s.items = h.data.iter().map(|b| Item::Byte(*b)).collect();
        }
    }
    let l = Arc::new(l);
    m.lock().unwrap().insert(f, l.clone());
    l
}

fn a_check(f: usize, src: Src, cap: usize, take: &[Take], what: &str) -> R {
    let got = observe_async(AsyncFits::from_reader(futures::io::BufReader::with_capacity(cap, src)), take).map_err(|e| format!("{what}: {e}"))?;
    let mut want = (*a_reference(f)).clone();
    for (i, s) in want.hdus.iter_mut().enumerate() {
        let t = *take.get(i).unwrap_or(take.last().unwrap());
        match t {
            Take::None => s.items.clear(),
            Take::N(n) => s.items.truncate(n),
            Take::All => {}
            Take::Polls(_) => {
                // the number obtained depends on the schedule: they must be the first ones
                let n = got.hdus.get(i).map(|g| g.items.len()).unwrap_or(0);
                s.items.truncate(n);
            }
        }
    }
    diff(&got, &want).map_err(|e| format!("{what}: {e}"))
}

/// Keywords that describe neither the kind nor the layout.
fn a_bystanders(ch: &mut Ch) -> R {
    use super::bystanders::{twist, in_sample, sample, show};
    let (j, tw) = in_sample(ch, true);
    let mut hs = sample();
    twist(&mut hs[j], &tw);
    let bytes = file(&hs, 0).bytes;
    ch.say(|| format!("HDU {j} cards {:?}", tw.id));
    ch.visit(&(j, tw.id));
    let mut want = observe(&mut Fits::from_reader(Cursor::new(bytes.clone())), Style::Values, 0)?;
    for (s, h) in want.hdus.iter_mut().zip(&hs) {
        s.place = None;
        if matches!(s.kind, Kind::BinTable | Kind::Ascii) {
            s.items = h.data.iter().map(|b| Item::Byte(*b)).collect();
        }
    }
    let tag = |e: String| format!("HDU {j} with {}: {e}", show(&tw));
    for (cap, take) in [(8192usize, Take::All), (80, Take::None), (7, Take::N(3))] {
        let got = observe_async(AsyncFits::from_reader(futures::io::BufReader::with_capacity(cap, Src::new(Arc::new(bytes.clone())))), &[take]).map_err(tag)?;
        let mut want = want.clone();
        for s in &mut want.hdus {
            match take {
                Take::None => s.items.clear(),
                Take::N(n) => s.items.truncate(n),
                _ => {}
            }
        }
        ch.exec();
        diff(&got, &want).map_err(tag)?;
    }
    Ok(())
}

fn a_uniform(ch: &mut Ch) -> R {
    let f = ch.choose(files().len());
    let cap = ch.pick(&[1usize, 2, 3, 7, 8, 79, 80, 81, 1000, 2880, 8192]);
    let max = match ch.choose(if ch.thorough { 400 } else { 60 }) {
        n if n < 50 || ch.thorough => n + 1,
        n => [79, 80, 81, 239, 1440, 2879, 2880, 2881, 5760, 100000][n - 50],
    };
    // every k-th answer is "not ready"
    let period = ch.pick(&[0usize, 1, 2, 3]);
    let all = ch.flag();
    let mut src = Src::new(bytes(f));
    src.max = max;
    src.every(period);
    let what = format!("file {} buffer of {cap} bytes, at most {max} bytes per read, not ready every {period}, read data: {all}", files()[f].0);
    ch.say(|| what.clone());
    ch.visit(&(f, cap, max, period, all));
    a_check(f, src, cap, &[if all { Take::All } else { Take::None }], &what)
}

fn a_deviations(ch: &mut Ch) -> R {
    let f = ch.choose(files().len());
    let cap = ch.pick(&[8192usize, 1000, 100, 80, 7]);
    let all = !ch.flag();
    let style = if all { Style::Values } else { Style::Skip };
    let n = calls((f, cap, style, usize::MAX, true));
    let most = if n <= 12 { 3 } else if n <= 200 || ch.thorough { 2 } else { 1 };
    let mut devs: Vec<(usize, Dev)> = vec![];
    let mut from = 0;
    for _ in 0..most {
        let mut w = n + 2 - from.min(n + 1);
        if !devs.is_empty() && n > if ch.thorough { 120 } else { 40 } {
            w = w.min(if ch.thorough { 6 } else { 3 });
        }
        let p = ch.choose(w);
        if p == 0 {
            break;
        }
        let p = from + p - 1;
        let d = ch.pick(&[Dev::Pending, Dev::Short(1), Dev::Half, Dev::Short(3)]);
        devs.push((p, d));
        from = p + 1;
    }
    let mut src = Src::new(bytes(f));
    src.devs = devs.clone();
    let what = format!("file {} buffer of {cap} bytes, deviations {devs:?} of {n} polls, read data: {all}", files()[f].0);
    ch.say(|| what.clone());
    ch.visit(&(f, cap, all, &devs));
    a_check(f, src, cap, &[if all { Take::All } else { Take::None }], &what)
}

/// Every consumption of every HDU, with a source that is not ready after every byte, or always ready.
fn a_consumption(ch: &mut Ch) -> R {
    let f = ch.choose(files().len());
    let cap = ch.pick(&[3usize, 80, 8192]);
    let mode = ch.choose(3);
    let n = files()[f].2.len();
    let mut take = vec![];
    for _ in 0..n {
        let t = match ch.choose(if ch.thorough { 9 } else { 7 }) {
            0 => Take::None,
            1 => Take::All,
            2 => Take::N(1),
            3 => Take::N(2),
            4 => Take::Polls(1),
            5 => Take::Polls(2),
            6 => Take::Polls(6),
            7 => Take::Polls(11),
            _ => Take::N(5),
        };
        take.push(t);
    }
    let mut src = Src::new(bytes(f));
    match mode {
        0 => {}
        1 => {
            src.max = 1;
            src.every(2);
        }
        _ => {
            src.max = 5;
            src.every(3);
        }
    }
    let what = format!("file {} buffer of {cap} bytes, source {mode}, consumption {take:?}", files()[f].0);
    ch.say(|| what.clone());
    ch.visit(&(f, cap, mode, &take));
    a_check(f, src, cap, &take, &what)
}

#[cfg(feature = "inner")]
/// The buffered reader skips exactly the number of bytes asked for, or tells that there are not as many.
fn a_skip(ch: &mut Ch) -> R {
    use fitsrs::hdu::data::AsyncDataBufRead;
    use fitsrs::hdu::header::extension::image::Image;
    use futures::AsyncReadExt;
    let len = ch.range(0, if ch.thorough { 40 } else { 16 });
    let n = ch.range(0, len + 2);
    let cap = ch.pick(&[1usize, 2, 3, 5, 8, 100]);
    let max = ch.pick(&[1usize, 2, 3, 7, 100]);
    let period = ch.choose(4);
    let data = Arc::new(pat(len, 3));
    let mut src = Src::new(data.clone());
    src.max = max;
    src.every(period);
    let what = format!("skip {n} of {len} bytes, buffer of {cap}, at most {max} bytes per read, not ready every {period}");
    ch.say(|| what.clone());
    ch.visit(&(len, n, cap, max, period));
    let mut r = futures::io::BufReader::with_capacity(cap, src);
    let mut rest = vec![];
    let res = wait(async {
        let res = AsyncDataBufRead::<Image>::read_n_bytes_exact(&mut r, n as u64).await;
        r.read_to_end(&mut rest).await.map_err(|e| e.to_string())?;
        Ok::<_, String>(res)
    })
    .map_err(|e| format!("{what}: {e}"))??;
    match (res, n <= len) {
        (Ok(()), true) if rest[..] == data[n..] => Ok(()),
        (Err(_), false) => Ok(()),
        (res, _) => Err(format!("{what}: {res:?}, then {} bytes are left", rest.len())),
    }
}

#[cfg(feature = "inner")]
/// Poll a future that wakes itself to its end.
fn wait<T>(f: impl std::future::Future<Output = T>) -> Result<T, String> {
    let w = futures::task::noop_waker();
    let mut cx = std::task::Context::from_waker(&w);
    let mut f = Box::pin(f);
    for _ in 0..100_000 {
        if let std::task::Poll::Ready(x) = f.as_mut().poll(&mut cx) {
            return Ok(x);
        }
    }
    Err("never ready".into())
}

// ---------------------------------------------------------------------------------------------- C06

/// What was delivered must be the beginning of what the intact file gives; `readable`: bytes before the fault.
fn prefix(f: usize, style: Style, got: &Log, want: &Log, readable: usize, sync: bool) -> R {
    let (_, fb, hs) = &all_files()[f];
    if got.hdus.len() > want.hdus.len() {
        return Err(format!("{} HDUs instead of {}", got.hdus.len(), want.hdus.len()));
    }
    // an HDU whose header lies before the fault is not lost
    let complete = fb.offs.iter().filter(|o| **o <= readable).count();
    if got.hdus.len() < complete {
        return Err(format!("{} HDUs although {complete} headers can be read", got.hdus.len()));
    }
    for (i, (g, w)) in got.hdus.iter().zip(&want.hdus).enumerate() {
        if (g.kind, g.place, &g.cards) != (w.kind, w.place, &w.cards) {
            return Err(format!("HDU {i} is described as {:?} {:?}, expected {:?} {:?}", g.kind, g.place, w.kind, w.place));
        }
        let byref = style == Style::Rows && matches!(g.kind, Kind::Primary | Kind::Image) && sync;
        // the first pixel asked again at the end
        let refused = readable == 0 && style == Style::Bytes && matches!(g.kind, Kind::Primary | Kind::Image) && sync;
        if g.items.len() > w.items.len() {
            return Err(format!("HDU {i}: {} items instead of {}", g.items.len(), w.items.len()));
        }
        for (k, (a, b)) in g.items.iter().zip(&w.items).enumerate() {
            if a != b && !((byref || refused && k == 0) && *a == Item::Byte(0)) {
                return Err(format!("HDU {i} item {k}: {a:?}, expected {b:?}"));
            }
        }
        // what lies wholly before the fault is delivered
        let avail = readable.saturating_sub(fb.offs[i]).min(hs[i].data.len());
        let least = match (g.kind, style) {
            _ if w.items.is_empty() => 0,
            (Kind::Primary | Kind::Image, Style::Values) => avail * w.items.len() / hs[i].data.len(),
            (Kind::Ascii, Style::Values | Style::Rows | Style::Bytes) => avail,
            (Kind::BinTable, Style::Values) if !sync => avail,
            (Kind::BinTable, Style::Bytes) => avail.min(w.items.len()),
            (Kind::BinTable, Style::Values) if fb_tiled(&hs[i]).is_some() => {
                // the tiles that lie wholly before the fault, up to the first that does not
                let t = fb_tiled(&hs[i]).unwrap();
                t.iter().take_while(|(_, end)| *end <= avail).map(|(n, _)| n).sum()
            }
            // fixed rows
            (Kind::BinTable, Style::Rows) if all_files()[f].0 == "flat" => avail * w.items.len() / hs[i].data.len(),
            _ => 0,
        };
        if g.items.len() < least {
            return Err(format!("HDU {i}: only {} items, {least} can be read", g.items.len()));
        }
        if byref {
            let sz = hs[i].data.len() / w.items.len().max(1);
            for (k, a) in g.items.iter().enumerate() {
                if *a == Item::Byte(0) && (k + 1) * sz <= avail {
                    return Err(format!("HDU {i}: pixel {k} cannot be read by its index, although it is there"));
                }
            }
        }
    }
    Ok(())
}

/// Pixels of every tile and the end of its compressed bytes in the data unit, for a table whose only column is 1PB.
fn fb_tiled(h: &H) -> Option<Vec<(usize, usize)>> {
    let get = |k: &str| -> Option<usize> {
        let c = h.cards.iter().find(|c| c[..8] == *format!("{k:<8}").as_bytes())?;
        std::str::from_utf8(&c[10..30]).ok()?.trim().parse().ok()
    };
    let n = get("ZNAXIS")?;
    let naxis: Vec<usize> = (1..=n).map(|i| get(&format!("ZNAXIS{i}")).unwrap()).collect();
    let tile: Vec<usize> = (1..=n).map(|i| get(&format!("ZTILE{i}")).unwrap_or(if i == 1 { naxis[0] } else { 1 })).collect();
    let rows = get("NAXIS2")?;
    let t = super::tiles::tiles(&naxis, &tile);
    let be = |o: usize| u32::from_be_bytes(h.data[o..o + 4].try_into().unwrap()) as usize;
    Some(t.iter().enumerate().map(|(r, ids)| (ids.len(), (8 * rows + be(8 * r + 4) + be(8 * r)).max(8 * (r + 1)))).collect())
}

fn sync_fault(ch: &mut Ch, f: usize, src: Src, readable: usize, what: &str) -> R {
    for buf in [0, 5, 2, 6] {
        for style in STYLES {
            if !ch.thorough && (buf == 2 || buf == 6) && style != Style::Values {
                continue;
            }
            ch.exec();
            let mut s = Src::new(src.data.clone());
            (s.fail_at, s.once, s.kind) = (src.fail_at, src.once, src.kind);
            let got = run_sync(s, buf, style, 2).map_err(|e| format!("{what} buffering {buf} {style:?}: {e}"))?;
            if buf == 6 && got.hdus.is_empty() {
                continue; // refused when opened
            }
            prefix(f, style, &got, &reference(f, style), readable, true).map_err(|e| format!("{what} buffering {buf} {style:?}: {e}"))?;
        }
    }
    Ok(())
}

/// The byte where the fault is: every one of the data units; in the headers every one (thorough), or those around the
/// ends and in the middle of each card.
fn pos(ch: &mut Ch, f: usize) -> usize {
    type P = Vec<Vec<usize>>;
    static T: [OnceLock<P>; 2] = [OnceLock::new(), OnceLock::new()];
    let thorough = ch.thorough;
    let all = &T[thorough as usize].get_or_init(|| {
        files()
            .iter()
            .map(|(_, fb, hs)| {
                (0..=fb.bytes.len())
                    .filter(|n| {
                        thorough
                            || matches!(n % 80, 0 | 1 | 40 | 79)
                            || fb.offs.iter().zip(hs).any(|(o, h)| (*o..o + h.data.len().min(600)).contains(n) || (*o + h.data.len()).abs_diff(*n) < 100)
                    })
                    .collect()
            })
            .collect()
    })[f];
    let hi = ch.choose(all.len().div_ceil(64));
    all[hi * 64 + ch.choose((all.len() - hi * 64).min(64))]
}

/// A table with fields of every type (0: fixed, 1: 32-bit and 2: 64-bit descriptors, 3: arrays in reverse order in the
/// heap), between an empty primary HDU and an image: columns, data, file.
fn typed(form: usize) -> &'static (Vec<F>, Vec<u8>, FileB) {
    static T: [OnceLock<(Vec<F>, Vec<u8>, FileB)>; 4] = [const { OnceLock::new() }; 4];
    T[form].get_or_init(|| {
        let cols: Vec<F> = TY
            .iter()
            .map(|t| match form {
                0 => F::Fix(*t, if *t == 'X' { 11 } else { 2 }),
                1 | 3 => F::Vla('P', 1, *t),
                _ => F::Vla('Q', 1, *t),
            })
            .collect();
        let mut data = vec![];
        let mut heap = vec![];
        for r in 0..TROWS {
            for c in &cols {
                match c {
                    F::Fix('A', _) => data.extend(b"xy"),
                    F::Fix(t, _) => data.extend(pat(c.width(), r * 20 + *t as usize)),
                    F::Vla(d, _, t) => {
                        let n = 2 * esize(*t);
                        let o = if form == 3 { 400 - heap.len() - n } else { heap.len() };
                        data.extend(desc(*d, if *t == 'X' { 16 } else { 2 }, o as u64));
                        heap.extend(if *t == 'A' { b"uv".to_vec() } else { pat(n, r * 30 + *t as usize) });
                    }
                }
            }
        }
        if form == 3 {
            heap.resize(400, 0x55);
            heap.reverse();
        }
        data.extend(heap);
        let fb = file(&[empty_primary(), table(&cols, true, TROWS, None, data.clone()), image(Kind::Image, 8, &[3], 10)], b' ');
        (cols, data, fb)
    })
}
const TROWS: usize = 2;

/// The values and the rows that an independent decoder gives of the first `n` bytes of the data.
fn typed_items(form: usize, n: usize) -> (Vec<Item>, Vec<Item>) {
    let (cols, data, _) = typed(form);
    let w: usize = cols.iter().map(|c| c.width()).sum();
    let t = decode(cols, TROWS, w * TROWS, &data[..n]);
    let (mut v, mut rs) = (vec![], vec![]);
    for r in 0..TROWS {
        for f in &t.fields[r] {
            v.extend(f.0.iter().cloned().map(Item::Cell));
            if !f.1 {
                return (v, rs);
            }
        }
        rs.push(Item::Row(t.row(r)));
    }
    (v, rs)
}

/// Tables with fields of every type, with a fault at every byte of the data, against an independent decoder.
fn types(ch: &mut Ch) -> R {
    let form = ch.choose(4);
    let (_, data, fb) = typed(form);
    let n = pos_in(ch, data.len() + 1);
    let kind = ch.choose(3);
    let at = fb.offs[1] + n;
    let (want, have) = (typed_items(form, data.len()), typed_items(form, n));
    let what = format!("table of form {form}, fault {} at byte {n} of the data", ["end", "for ever", "once"][kind]);
    ch.say(|| what.clone());
    ch.visit(&(form, n, kind));
    for buf in [0, 5, 2] {
        for style in [Style::Values, Style::Rows, Style::One] {
            ch.exec();
            let mut src = Src::new(Arc::new(if kind == 0 { fb.bytes[..at].to_vec() } else { fb.bytes.clone() }));
            if kind > 0 {
                src.fail_at = Some(at as u64);
                src.once = kind == 2;
            }
            let got = run_sync(src, buf, style, 2).map_err(|e| format!("{what} buffering {buf} {style:?}: {e}"))?;
            if got.hdus.len() < 2 {
                return Err(format!("{what} buffering {buf} {style:?}: the table is lost"));
            }
            let g = &got.hdus[1].items;
            let (w, h) = if style == Style::Rows { (&want.1, &have.1) } else { (&want.0, &have.0) };
            let least = if style == Style::One { h.len().min(1) } else { h.len() };
            if let Some(k) = (0..g.len()).find(|k| w.get(*k) != Some(&g[*k])) {
                return Err(format!("{what} buffering {buf} {style:?}: item {k}: {:?}, expected {:?}", g[k], w.get(k)));
            }
            if g.len() < least {
                return Err(format!("{what} buffering {buf} {style:?}: only {} items, {least} can be read", g.len()));
            }
        }
    }
    Ok(())
}

fn pos_in(ch: &mut Ch, n: usize) -> usize {
    let hi = ch.choose(n.div_ceil(64));
    hi * 64 + ch.choose((n - hi * 64).min(64))
}

fn cut(ch: &mut Ch) -> R {
    let f = ch.choose(files().len());
    let n = pos(ch, f);
    let what = format!("file {} cut at {n}", files()[f].0);
    ch.say(|| what.clone());
    ch.visit(&(f, n));
    let b = bytes(f)[..n].to_vec();
    let src = Src::new(Arc::new(b.clone()));
    sync_fault(ch, f, src, n, &what)?;
    // memory: what is there of the raw bytes
    let mut fits = Fits::from_reader(Cursor::new(b));
    let got = observe(&mut fits, Style::Values, 2).map_err(|e| format!("{what} in memory: {e}"))?;
    prefix(f, Style::Values, &got, &reference(f, Style::Values), n, true).map_err(|e| format!("{what} in memory: {e}"))?;
    raw(f, n).map_err(|e| format!("{what}: raw bytes: {e}"))
}

fn raw(f: usize, n: usize) -> R {
    use fitsrs::HDU;
    let (_, fb, hs) = &all_files()[f];
    let mut fits = Fits::from_reader(Cursor::new(fb.bytes[..n].to_vec()));
    let mut i = 0;
    while let Some(Ok(h)) = fits.next() {
        let avail = n.saturating_sub(fb.offs[i]).min(hs[i].data.len());
        let want = &hs[i].data[..avail];
        let same = match &h {
            HDU::Primary(h) | HDU::XImage(h) => fits.get_data(h).raw_bytes() == want,
            HDU::XBinaryTable(h) => fits.get_data(h).table_data().raw_bytes() == want,
            HDU::XASCIITable(_) => true,
        };
        if !same {
            return Err(format!("HDU {i}: not the {avail} bytes which are in the file"));
        }
        i += 1;
    }
    Ok(())
}

fn fail(ch: &mut Ch) -> R {
    let f = ch.choose(files().len());
    let once = ch.flag();
    let n = pos(ch, f);
    let what = format!("file {} failing {} at byte {n}", files()[f].0, if once { "once" } else { "for ever" });
    ch.say(|| what.clone());
    ch.visit(&(f, n, once));
    let mut src = Src::new(bytes(f));
    src.fail_at = Some(n as u64);
    src.once = once;
    sync_fault(ch, f, src, n, &what)
}

/// The error of the source is of another kind: no kind is taken for the end of the data or for a detail to skip.
fn kinds(ch: &mut Ch) -> R {
    use std::io::ErrorKind as K;
    let f = ch.choose(files().len());
    let asynchronous = ch.flag();
    let kind = ch.pick(&[K::UnexpectedEof, K::InvalidData, K::TimedOut, K::PermissionDenied, K::BrokenPipe, K::WouldBlock][..6 - asynchronous as usize]);
    // an early end is not taken back
    let once = kind != K::UnexpectedEof && ch.flag();
    let n = pos(ch, f);
    if !ch.thorough && n % 7 != f % 7 && n % 80 != 0 {
        return Ok(());
    }
    let what = format!("file {} failing {} at byte {n} with {kind:?}", files()[f].0, if once { "once" } else { "for ever" });
    ch.say(|| what.clone());
    ch.visit(&(f, asynchronous, n, once, kind));
    let new = || {
        let mut src = Src::new(bytes(f));
        (src.fail_at, src.once, src.kind) = (Some(n as u64), once, kind);
        src
    };
    if !asynchronous {
        return sync_fault(ch, f, new(), n, &what);
    }
    for (cap, take) in [(8192usize, Take::All), (7, Take::All), (8192, Take::N(1))] {
        ch.exec();
        let got = observe_async(AsyncFits::from_reader(futures::io::BufReader::with_capacity(cap, new())), &[take]).map_err(|e| format!("{what} {take:?}: {e}"))?;
        let style = if take == Take::All { Style::Values } else { Style::One };
        prefix(f, style, &got, &a_reference(f), n, false).map_err(|e| format!("{what} buffer {cap} {take:?}: {e}"))?;
    }
    Ok(())
}

/// One seek of the source, or all from some point on, are refused.
fn fail_seek(ch: &mut Ch) -> R {
    let f = ch.choose(all_files().len());
    let style = ch.pick(&STYLES);
    let buf = ch.pick(&[0usize, 2, 5, 6]);
    let n = ch.choose(if ch.thorough { 200 } else { 40 });
    let once = ch.flag();
    let mut src = Src::new(bytes(f));
    (src.fail_seek, src.once) = (Some(n), once);
    let sf = src.seek_failed.clone();
    let what = format!("file {} {style:?} buffering {buf}, seek {n} refused{}", all_files()[f].0, if once { "" } else { " and all later ones" });
    ch.say(|| what.clone());
    ch.visit(&(f, style, buf, n, once));
    let got = match run_sync(src, buf, style, 2) {
        // the end of the file is looked for again
        Err(e) if sf.load(Relaxed) && e.contains("after the end of the HDUs (error: false) is answered (error: true)") => return Ok(()),
        r => r.map_err(|e| format!("{what}: {e}"))?,
    };
    if sf.load(Relaxed) {
        prefix(f, style, &got, &reference(f, style), 0, true)
    } else {
        diff(&got, &reference(f, style))
    }
    .map_err(|e| format!("{what}: {e}"))
}

fn a_faults(ch: &mut Ch) -> R {
    let f = ch.choose(files().len());
    let kind = ch.choose(3);
    let n = pos(ch, f);
    let what = format!("file {} asynchronous, fault {} at byte {n}", files()[f].0, ["end", "for ever", "once"][kind]);
    ch.say(|| what.clone());
    ch.visit(&(f, n, kind));
    for cap in [7usize, 8192] {
        for take in [Take::All, Take::None, Take::N(1)] {
            ch.exec();
            let mut src = Src::new(if kind == 0 { Arc::new(bytes(f)[..n].to_vec()) } else { bytes(f) });
            if kind > 0 {
                src.fail_at = Some(n as u64);
                src.once = kind == 2;
            }
            let got = observe_async(AsyncFits::from_reader(futures::io::BufReader::with_capacity(cap, src)), &[take]).map_err(|e| format!("{what} {take:?}: {e}"))?;
            let style = if take == Take::All { Style::Values } else { Style::One };
            prefix(f, style, &got, &a_reference(f), n, false).map_err(|e| format!("{what} buffer {cap} {take:?}: {e}"))?;
        }
    }
    Ok(())
}
