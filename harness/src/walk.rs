//! Complete observation of a file through the synchronous or asynchronous API, as a log of plain values,
//! from sources whose every answer (short, interrupted, not ready, failing) is decided by the explorer.

use crate::gen::*;
use crate::obs::*;
use crate::props::c01::{tile_table, vla_table};
use crate::props::table::{table, F};
use crate::props::tiles;
use fitsrs::hdu::data::bintable::data::BinaryTableData;
use fitsrs::hdu::header::{Header, Xtension};
use fitsrs::hdu::HDU;
use fitsrs::Fits;
use std::fmt::Debug;
use std::io::{Read, Seek, SeekFrom};
use std::sync::{Arc, Mutex, OnceLock};

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Item {
    Px(Px),
    Cell(Cell),
    Row(Vec<Cell>),
    Byte(u8),
}

/// What was seen of one HDU.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Seen {
    pub kind: Kind,
    /// None with the asynchronous API, which does not tell
    pub place: Option<(u64, u64)>,
    pub cards: Vec<String>,
    pub items: Vec<Item>,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Log {
    pub hdus: Vec<Seen>,
    /// the iteration over HDUs ended with an error
    pub err: bool,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Style {
    /// headers only
    Skip,
    /// pixels in order, table values, bytes
    Values,
    /// pixels by index from the last one, table rows, bytes
    Rows,
    /// one item of each HDU
    One,
    /// all the bytes of the main table, pixels in order then the first again
    Bytes,
}
pub const STYLES: [Style; 5] = [Style::Values, Style::Rows, Style::Skip, Style::One, Style::Bytes];

fn cards<X: Xtension + Debug>(h: &Header<X>) -> Vec<String> {
    h.cards().map(|c| format!("{c:?}")).collect()
}

/// Most items that can be taken from one HDU: more means an endless iterator.
const CAP: usize = 100_000;

fn drain(items: &mut Vec<Item>, again: usize, mut f: impl FnMut() -> Option<Item>) -> Result<(), String> {
    // an iterator that ended is asked again
    for _ in 0..=again {
        while let Some(i) = f() {
            items.push(i);
            if items.len() > CAP {
                return Err("endless iterator".into());
            }
        }
    }
    Ok(())
}

/// Read everything. `again`: how many times iterators are asked again after their end.
pub fn observe<Rd: Read + Seek + Debug + 'static>(fits: &mut Fits<Rd>, style: Style, again: usize) -> Result<Log, String> {
    let mut log = Log { hdus: vec![], err: false };
    loop {
        let hdu = match fits.next() {
            None => break,
            Some(Err(_)) => {
                log.err = true;
                break;
            }
            Some(Ok(h)) => h,
        };
        if log.hdus.len() > 1000 {
            return Err("endless HDUs".into());
        }
        let kind = kind_of(&hdu);
        let place = Some((hdu.get_data_unit_byte_offset(), hdu.get_data_unit_byte_size()));
        let mut items = vec![];
        let cs = match &hdu {
            HDU::Primary(h) | HDU::XImage(h) => {
                let cs = cards(h.get_header());
                let n = h.get_header().get_xtension().get_num_pixels() as usize;
                if style != Style::Skip {
                    let mut it = pxit(fits.get_data(h).pixels());
                    match style {
                        Style::Rows => {
                            for i in (0..n.min(CAP)).rev() {
                                match it.at(i) {
                                    Ok(p) => items.push(Item::Px(p)),
                                    Err(_) => {
                                        // a refused or failed read is not a value: keep the place
                                        items.push(Item::Byte(0));
                                    }
                                }
                            }
                            items.reverse();
                        }
                        Style::One => items.extend(it.next_px().map(Item::Px)),
                        Style::Bytes => {
                            drain(&mut items, again, || it.next_px().map(Item::Px))?;
                            match it.at(0) {
                                Ok(p) => items.insert(0, Item::Px(p)),
                                // refused: keep the place
                                Err(_) if !items.is_empty() => items.insert(0, Item::Byte(0)),
                                Err(_) => {}
                            }
                        }
                        _ => drain(&mut items, again, || it.next_px().map(Item::Px))?,
                    }
                }
                cs
            }
            HDU::XASCIITable(h) => {
                if style != Style::Skip {
                    let mut d = fits.get_data(h);
                    if style == Style::One {
                        let mut b = [0u8; 1];
                        if d.read_exact(&mut b).is_ok() {
                            items.push(Item::Byte(b[0]));
                        }
                    } else {
                        let mut v = vec![];
                        let _ = d.read_to_end(&mut v);
                        items.extend(v.into_iter().map(Item::Byte));
                    }
                }
                cards(h.get_header())
            }
            HDU::XBinaryTable(h) => {
                if style != Style::Skip {
                    let d = fits.get_data(h);
                    match (style, d) {
                        (Style::Bytes, d) => {
                            let mut v = vec![];
                            let _ = d.table_data().bytes().read_to_end(&mut v);
                            items.extend(v.into_iter().map(Item::Byte));
                        }
                        (Style::Rows, d) => {
                            let mut it = d.row_iter();
                            drain(&mut items, again, || it.next().map(|r| Item::Row(cell_list(&r))))?;
                        }
                        (s, BinaryTableData::TileCompressed(mut p)) => {
                            if s == Style::One {
                                items.extend(tcpx(&mut p).map(Item::Px));
                            } else {
                                drain(&mut items, again, || tcpx(&mut p).map(Item::Px))?;
                            }
                        }
                        (s, BinaryTableData::Table(mut t)) => {
                            if s == Style::One {
                                items.extend(t.next().map(|d| Item::Cell(cell(&d))));
                            } else {
                                drain(&mut items, again, || t.next().map(|d| Item::Cell(cell(&d))))?;
                            }
                        }
                    }
                }
                cards(h.get_header())
            }
        };
        log.hdus.push(Seen { kind, place, cards: cs, items });
    }
    for k in 0..2 {
        if let Some(x) = fits.next() {
            return Err(format!("call {k} after the end of the HDUs (error: {}) is answered (error: {})", log.err, x.is_err()));
        }
    }
    Ok(log)
}

// ------------------------------------------------------------------------------------------ files

fn c(t: char, rep: usize) -> F {
    F::Fix(t, rep)
}

/// Files covering every kind of HDU, small enough for their every byte and read to be enumerated.
pub fn files() -> &'static [(&'static str, FileB, Vec<H>)] {
    &all_files()[..SMALL]
}
pub const SMALL: usize = 9;
/// The small files, then files whose data units are larger than any buffer in between.
pub fn all_files() -> &'static Vec<(&'static str, FileB, Vec<H>)> {
    static T: OnceLock<Vec<(&'static str, FileB, Vec<H>)>> = OnceLock::new();
    T.get_or_init(|| {
        let flat = |salt: usize| {
            let cols = [c('L', 1), c('I', 2), c('A', 3), c('J', 1), c('E', 1), c('D', 1), c('X', 5), c('C', 1)];
            let w: usize = cols.iter().map(|f| f.width()).sum();
            let mut d = pat(w * 3, salt);
            for r in 0..3 {
                d[r * w] = b'T';
                for k in 5..8 {
                    d[r * w + k] = b'a' + (r * 3 + k) as u8;
                }
            }
            table(&cols, true, 3, None, d)
        };
        let rice = |b: i64, cmp: tiles::Cmp| {
            let naxis = [4usize, 3];
            let tile = vec![3usize, 2];
            let tl = tiles::tiles(&naxis, &tile);
            let px: Vec<i64> = (0..12).map(|i| (i * 29 % 64) as i64).collect();
            let enc = tl.iter().map(|ids| tiles::encode(&ids.iter().map(|i| px[*i]).collect::<Vec<_>>(), cmp)).collect();
            let mut s = tiles::spec(b, &naxis, Some(tile), cmp, enc);
            if b < 0 {
                s.cards = vec![kv("ZSCALE", "0.5"), kv("ZZERO", "10.0")];
            }
            tiles::compressed(&s)
        };
        let long_tiles = |b: i64, cmp: tiles::Cmp| {
            let naxis = [150usize, 100];
            let tile = vec![150usize, 70];
            let tl = tiles::tiles(&naxis, &tile);
            let px: Vec<i64> = (0..15000u64).map(|i| (i.wrapping_mul(0x9E3779B97F4A7C15) >> 49) as i64).collect();
            let enc = tl.iter().map(|ids| tiles::encode(&ids.iter().map(|i| px[*i]).collect::<Vec<_>>(), cmp)).collect();
            tiles::compressed(&tiles::spec(b, &naxis, Some(tile), cmp, enc))
        };
        let long_arrays = || {
            let cols = [c('I', 1), F::Vla('P', 1, 'J'), F::Vla('Q', 1, 'B')];
            let mut d = vec![];
            for r in 0..3u64 {
                d.extend(pat(2, r as usize));
                d.extend(crate::props::table::desc('P', 3000 + r, 40000 - 14000 * r));
                d.extend(crate::props::table::desc('Q', 9000 - r, 100 + 8000 * r));
            }
            d.extend(pat(60000, 21));
            table(&cols, true, 3, None, d)
        };
        let many_rows = || {
            let cols = [c('J', 1), c('B', 7), c('D', 2)];
            table(&cols, true, 2000, None, pat(27 * 2000, 22))
        };
        let sets: Vec<(&'static str, Vec<H>)> = vec![
            ("ints", vec![image(Kind::Primary, 8, &[5], 1), image(Kind::Image, 16, &[3, 2], 2), image(Kind::Image, 32, &[2, 2], 3), image(Kind::Image, 64, &[3], 4)]),
            ("floats", vec![image(Kind::Primary, -32, &[3, 2], 5), image(Kind::Image, -64, &[3], 6)]),
            ("ascii", vec![empty_primary(), ascii(7, 3, 7), image(Kind::Image, 16, &[2], 8)]),
            ("flat", vec![empty_primary(), flat(9), image(Kind::Image, 8, &[3], 10)]),
            ("heap", vec![empty_primary(), vla_table(3, 11), image(Kind::Image, 8, &[3], 12)]),
            ("gzip", vec![empty_primary(), tile_table(3, 2), image(Kind::Image, 8, &[3], 13)]),
            ("rice", vec![empty_primary(), rice(32, tiles::Cmp::Rice(4, 32)), rice(16, tiles::Cmp::Rice(2, 4))]),
            ("gzip2", vec![empty_primary(), rice(-32, tiles::Cmp::Gz2(4)), image(Kind::Image, 8, &[3], 14)]),
            ("full", vec![image(Kind::Primary, 8, &[2880], 15), grow(image(Kind::Image, 16, &[1441], 16), 36), grow(ascii(3, 1, 17), 37)]),
            ("large image", vec![grow(image(Kind::Primary, 16, &[201, 100], 18), 400), image(Kind::Image, -64, &[9001], 19), image(Kind::Image, 8, &[3], 20)]),
            ("large tables", vec![empty_primary(), many_rows(), ascii(501, 90, 23), long_arrays(), image(Kind::Image, 8, &[3], 24)]),
            ("large tiles", vec![empty_primary(), long_tiles(32, tiles::Cmp::Gz1(4)), long_tiles(16, tiles::Cmp::Rice(2, 32)), long_tiles(32, tiles::Cmp::Gz2(4)), image(Kind::Image, 8, &[3], 25)]),
        ];
        sets.into_iter().map(|(n, hs)| (n, file(&hs, b' '), hs)).collect()
    })
}

/// The log of an intact file read from memory in one piece.
pub fn reference(f: usize, style: Style) -> Arc<Log> {
    type M = std::collections::HashMap<(usize, Style), Arc<Log>>;
    static T: OnceLock<Mutex<M>> = OnceLock::new();
    let m = T.get_or_init(Default::default);
    if let Some(l) = m.lock().unwrap().get(&(f, style)) {
        return l.clone();
    }
    let mut fits = Fits::from_reader(std::io::Cursor::new(all_files()[f].1.bytes.clone()));
    let l = Arc::new(observe(&mut fits, style, 0).unwrap_or(Log { hdus: vec![], err: true }));
    m.lock().unwrap().insert((f, style), l.clone());
    l
}

// ------------------------------------------------------------------------------------------ source

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Dev {
    /// at most this many bytes
    Short(usize),
    /// at most half of what is asked
    Half,
    Interrupted,
    /// not ready (asynchronous)
    Pending,
}

/// In-memory source that follows a schedule: answers to the n-th read, otherwise everything that is asked.
pub struct Src {
    pub data: Arc<Vec<u8>>,
    pub pos: u64,
    /// no read returns more
    pub max: usize,
    pub devs: Vec<(usize, Dev)>,
    pub calls: usize,
    /// reading the byte at this position (or after) fails
    pub fail_at: Option<u64>,
    /// ... only once
    pub once: bool,
    /// ... with an error of this kind
    pub kind: std::io::ErrorKind,
    /// not ready at every k-th call (0: never), but never twice in a row
    pub period: usize,
    pub waited: bool,
    pub shared_calls: Option<Arc<std::sync::atomic::AtomicUsize>>,
    /// this seek (and, unless `once`, every later one) fails, without moving
    pub fail_seek: Option<usize>,
    pub seeks: usize,
    pub seek_failed: Arc<std::sync::atomic::AtomicBool>,
}
impl Src {
    pub fn new(data: Arc<Vec<u8>>) -> Self {
        Src { data, pos: 0, max: usize::MAX, devs: vec![], calls: 0, fail_at: None, once: false, kind: std::io::ErrorKind::Other, period: 0, waited: false, shared_calls: None, fail_seek: None, seeks: 0, seek_failed: Default::default() }
    }
    /// Not ready every `period`-th poll.
    pub fn every(&mut self, period: usize) {
        self.period = period;
    }
    fn answer(&mut self, want: usize) -> Result<usize, std::io::ErrorKind> {
        let n = self.calls;
        self.calls += 1;
        if let Some(s) = &self.shared_calls {
            s.store(self.calls, std::sync::atomic::Ordering::Relaxed);
        }
        if self.period > 0 && !self.waited && n % self.period == 0 {
            self.waited = true;
            return Err(std::io::ErrorKind::WouldBlock);
        }
        self.waited = false;
        let mut m = want.min(self.max);
        match self.devs.iter().find(|d| d.0 == n).map(|d| d.1) {
            None => {}
            Some(Dev::Short(k)) => m = m.min(k),
            Some(Dev::Half) => m = m.min((want / 2).max(1)),
            Some(Dev::Interrupted) => return Err(std::io::ErrorKind::Interrupted),
            Some(Dev::Pending) => return Err(std::io::ErrorKind::WouldBlock),
        }
        let p = (self.pos as usize).min(self.data.len());
        m = m.min(self.data.len() - p);
        if let Some(f) = self.fail_at {
            if p as u64 >= f && want > 0 {
                if self.once {
                    self.fail_at = None;
                }
                return Err(self.kind);
            }
            m = m.min((f - p as u64) as usize);
        }
        Ok(m)
    }
    fn copy(&mut self, buf: &mut [u8], n: usize) {
        let p = (self.pos as usize).min(self.data.len());
        buf[..n].copy_from_slice(&self.data[p..p + n]);
        self.pos += n as u64;
    }
}
impl Debug for Src {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Src@{}", self.pos)
    }
}
impl Read for Src {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = self.answer(buf.len())?;
        self.copy(buf, n);
        Ok(n)
    }
}
impl Seek for Src {
    fn seek(&mut self, s: SeekFrom) -> std::io::Result<u64> {
        let n = self.seeks;
        self.seeks += 1;
        if self.fail_seek.is_some_and(|f| n == f || n > f && !self.once) {
            self.seek_failed.store(true, std::sync::atomic::Ordering::Relaxed);
            return Err(self.kind.into());
        }
        self.pos = seek_to(self.pos, self.data.len() as u64, s)?;
        Ok(self.pos)
    }
}
impl futures::AsyncRead for Src {
    fn poll_read(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>, buf: &mut [u8]) -> std::task::Poll<std::io::Result<usize>> {
        match self.answer(buf.len()) {
            Err(std::io::ErrorKind::WouldBlock) => {
                cx.waker().wake_by_ref();
                std::task::Poll::Pending
            }
            Err(e) => std::task::Poll::Ready(Err(e.into())),
            Ok(n) => {
                self.copy(buf, n);
                std::task::Poll::Ready(Ok(n))
            }
        }
    }
}

// ------------------------------------------------------------------------------------------ async

use fitsrs::async_fits::AsyncFits;
use fitsrs::hdu::AsyncHDU;
use fitsrs::hdu::data::DataStream;
use futures::Stream;
use std::pin::Pin;
use std::task::{Context, Poll};


/// How much of the data of an HDU is taken before the next HDU is asked for.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Take {
    None,
    /// this many items
    N(usize),
    All,
    /// polled this many times, then dropped even if it was not ready
    Polls(usize),
}

fn noop() -> std::task::Waker {
    futures::task::noop_waker()
}

/// Take items of the stream of a data unit of `full` items. A failed read may be reported once, in place of an item
/// that is missing; nothing follows it.
fn pump<S: Stream + Unpin>(mut s: S, take: Take, full: u64, items: &mut Vec<Item>, f: impl Fn(S::Item) -> Option<Item>) -> Result<(), String> {
    let w = noop();
    let mut cx = Context::from_waker(&w);
    let mut polls = 0;
    let mut ended = 0;
    let mut failed = false;
    loop {
        match take {
            Take::None => return Ok(()),
            Take::N(n) if items.len() >= n => return Ok(()),
            Take::Polls(n) if polls >= n => return Ok(()),
            _ => {}
        }
        polls += 1;
        if polls > 4 * CAP {
            return Err("endless stream".into());
        }
        match Pin::new(&mut s).poll_next(&mut cx) {
            Poll::Pending => {}
            Poll::Ready(None) => {
                // asked again after the end
                ended += 1;
                if ended == 3 {
                    return Ok(());
                }
            }
            Poll::Ready(Some(i)) => {
                if ended > 0 || failed {
                    return Err(format!("the data goes on after its end or a failure, {} of {full} items were delivered", items.len()));
                }
                match f(i) {
                    Some(i) => items.push(i),
                    None if items.len() as u64 >= full => return Err(format!("a failure is reported after the last of the {full} items")),
                    None => failed = true,
                }
            }
        }
    }
}

/// Walk with the asynchronous API; `take` decides for every HDU (by index) what is read of it.
pub fn observe_async<S: futures::AsyncRead + Unpin + Debug + 'static>(mut fits: AsyncFits<futures::io::BufReader<S>>, take: &[Take]) -> Result<Log, String> {
    let mut log = Log { hdus: vec![], err: false };
    let w = noop();
    let mut cx = Context::from_waker(&w);
    let mut polls = 0usize;
    loop {
        let hdu = loop {
            polls += 1;
            if polls > CAP {
                return Err("endless polling for the next HDU".into());
            }
            match Pin::new(&mut fits).poll_next(&mut cx) {
                Poll::Pending => {}
                Poll::Ready(x) => break x,
            }
        };
        let hdu = match hdu {
            None => break,
            Some(Err(_)) => {
                log.err = true;
                break;
            }
            Some(Ok(h)) => h,
        };
        if log.hdus.len() > 1000 {
            return Err("endless HDUs".into());
        }
        let t = *take.get(log.hdus.len()).unwrap_or(take.last().unwrap());
        let mut items = vec![];
        let (kind, cs) = match &hdu {
            AsyncHDU::Primary(h) | AsyncHDU::XImage(h) => {
                let k = if matches!(hdu, AsyncHDU::Primary(_)) { Kind::Primary } else { Kind::Image };
                let x = h.get_header().get_xtension();
                let full = x.get_num_bytes_data_block() / x.get_bitpix().byte_size() as u64;
                match fits.get_data(h) {
                    DataStream::U8(s) => pump(s, t, full, &mut items, |r| r.ok().map(|x| Item::Px(Px::U8(x[0]))))?,
                    DataStream::I16(s) => pump(s, t, full, &mut items, |r| r.ok().map(|x| Item::Px(Px::I16(x[0]))))?,
                    DataStream::I32(s) => pump(s, t, full, &mut items, |r| r.ok().map(|x| Item::Px(Px::I32(x[0]))))?,
                    DataStream::I64(s) => pump(s, t, full, &mut items, |r| r.ok().map(|x| Item::Px(Px::I64(x[0]))))?,
                    DataStream::F32(s) => pump(s, t, full, &mut items, |r| r.ok().map(|x| Item::Px(Px::F32(x[0].to_bits()))))?,
                    DataStream::F64(s) => pump(s, t, full, &mut items, |r| r.ok().map(|x| Item::Px(Px::F64(x[0].to_bits()))))?,
                }
                (k, cards(h.get_header()))
            }
            AsyncHDU::XBinaryTable(h) => {
                let full = h.get_header().get_xtension().get_num_bytes_data_block();
                let s = fits.get_data(h);
                pump(s, t, full, &mut items, |r| r.ok().map(|x| Item::Byte(x[0])))?;
                (Kind::BinTable, cards(h.get_header()))
            }
            AsyncHDU::XASCIITable(h) => {
                let full = h.get_header().get_xtension().get_num_bytes_data_block();
                let s = fits.get_data(h);
                pump(s, t, full, &mut items, |r| r.ok().map(|x| Item::Byte(x[0])))?;
                (Kind::Ascii, cards(h.get_header()))
            }
        };
        log.hdus.push(Seen { kind, place: None, cards: cs, items });
    }
    for k in 0..3 {
        match Pin::new(&mut fits).poll_next(&mut cx) {
            Poll::Ready(None) | Poll::Pending => {}
            Poll::Ready(Some(r)) => return Err(format!("poll {k} after the end of the HDUs (error: {}) is answered with {}", log.err, if r.is_ok() { "an HDU" } else { "an error" })),
        }
    }
    Ok(log)
}
