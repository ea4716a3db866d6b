//! A small FITS writer, written from the FITS standard and independent of the code under test.

pub type CardB = [u8; 80];

pub fn raw(s: &str) -> CardB {
    rawb(s.as_bytes())
}
pub fn rawb(b: &[u8]) -> CardB {
    assert!(b.len() <= 80, "card too long");
    let mut c = [b' '; 80];
    c[..b.len()].copy_from_slice(b);
    c
}
/// Fixed-format card: value right-justified to column 30.
pub fn kv(kw: &str, val: &str) -> CardB {
    raw(&format!("{kw:<8}= {val:>20}"))
}
pub fn int(kw: &str, v: i128) -> CardB {
    kv(kw, &v.to_string())
}
pub fn log(kw: &str, v: bool) -> CardB {
    kv(kw, if v { "T" } else { "F" })
}
pub fn st(kw: &str, v: &str) -> CardB {
    raw(&format!("{kw:<8}= '{:<8}'", v.replace('\'', "''")))
}
pub fn blocks(mut v: Vec<u8>, fill: u8) -> Vec<u8> {
    while v.len() % 2880 != 0 {
        v.push(fill);
    }
    v
}
/// Header bytes: the cards, END, blanks up to the block.
pub fn header(cards: &[CardB]) -> Vec<u8> {
    let mut v = vec![];
    for c in cards {
        v.extend_from_slice(c);
    }
    v.extend_from_slice(&raw("END"));
    blocks(v, b' ')
}
/// Deterministic bytes in which neighbouring and block-shifted positions differ.
pub fn pat(n: usize, salt: usize) -> Vec<u8> {
    (0..n)
        .map(|i| {
            let x = (i as u64).wrapping_mul(0x9E3779B97F4A7C15).wrapping_add((salt as u64 + 1).wrapping_mul(0xD1B54A32D192ED03));
            ((x ^ (x >> 29)).wrapping_mul(0xBF58476D1CE4E5B9) >> 56) as u8
        })
        .collect()
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Kind {
    Primary,
    Image,
    BinTable,
    Ascii,
}

#[derive(Clone, Debug)]
pub struct H {
    pub kind: Kind,
    pub cards: Vec<CardB>,
    pub data: Vec<u8>,
}

pub struct FileB {
    pub bytes: Vec<u8>,
    /// offset of the data unit of every HDU
    pub offs: Vec<usize>,
    /// end of the last data unit (before padding)
    pub data_end: usize,
}

pub fn file(hs: &[H], fill: u8) -> FileB {
    let mut bytes = vec![];
    let mut offs = vec![];
    let mut data_end = 0;
    for h in hs {
        bytes.extend(header(&h.cards));
        offs.push(bytes.len());
        data_end = bytes.len() + h.data.len();
        bytes.extend(blocks(h.data.clone(), fill));
    }
    FileB { bytes, offs, data_end }
}

pub fn bitpix_size(b: i64) -> usize {
    (b.unsigned_abs() / 8) as usize
}

/// Image HDU header cards.
pub fn image_cards(kind: Kind, bitpix: i64, axes: &[usize]) -> Vec<CardB> {
    let mut c = vec![];
    match kind {
        Kind::Primary => c.push(log("SIMPLE", true)),
        _ => c.push(st("XTENSION", "IMAGE")),
    }
    c.push(int("BITPIX", bitpix as i128));
    c.push(int("NAXIS", axes.len() as i128));
    for (i, a) in axes.iter().enumerate() {
        c.push(int(&format!("NAXIS{}", i + 1), *a as i128));
    }
    if kind == Kind::Image {
        c.push(int("PCOUNT", 0));
        c.push(int("GCOUNT", 1));
    }
    c
}
pub fn image_len(bitpix: i64, axes: &[usize]) -> usize {
    if axes.is_empty() {
        0
    } else {
        axes.iter().product::<usize>() * bitpix_size(bitpix)
    }
}
pub fn image(kind: Kind, bitpix: i64, axes: &[usize], salt: usize) -> H {
    H { kind, cards: image_cards(kind, bitpix, axes), data: pat(image_len(bitpix, axes), salt) }
}
/// Primary HDU without data.
pub fn empty_primary() -> H {
    image(Kind::Primary, 8, &[], 0)
}

/// Binary table header cards: (TFORM, optional TTYPE) per column.
pub fn bintable_cards(naxis1: usize, naxis2: usize, pcount: usize, cols: &[(String, Option<String>)]) -> Vec<CardB> {
    let mut c = vec![
        st("XTENSION", "BINTABLE"),
        int("BITPIX", 8),
        int("NAXIS", 2),
        int("NAXIS1", naxis1 as i128),
        int("NAXIS2", naxis2 as i128),
        int("PCOUNT", pcount as i128),
        int("GCOUNT", 1),
        int("TFIELDS", cols.len() as i128),
    ];
    for (i, (f, t)) in cols.iter().enumerate() {
        c.push(st(&format!("TFORM{}", i + 1), f));
        if let Some(t) = t {
            c.push(st(&format!("TTYPE{}", i + 1), t));
        }
    }
    c
}

pub fn ascii_cards(naxis1: usize, naxis2: usize, cols: &[(usize, String)]) -> Vec<CardB> {
    let mut c = vec![
        st("XTENSION", "TABLE"),
        int("BITPIX", 8),
        int("NAXIS", 2),
        int("NAXIS1", naxis1 as i128),
        int("NAXIS2", naxis2 as i128),
        int("PCOUNT", 0),
        int("GCOUNT", 1),
        int("TFIELDS", cols.len() as i128),
    ];
    for (i, (b, f)) in cols.iter().enumerate() {
        c.push(int(&format!("TBCOL{}", i + 1), *b as i128));
        c.push(st(&format!("TFORM{}", i + 1), f));
    }
    c
}
pub fn ascii(naxis1: usize, naxis2: usize, salt: usize) -> H {
    let w = naxis1.max(1);
    H {
        kind: Kind::Ascii,
        cards: ascii_cards(naxis1, naxis2, &[(1, format!("A{w}"))]),
        data: pat(naxis1 * naxis2, salt).iter().map(|b| b' ' + b % 95).collect(),
    }
}

/// Grow the header with blank-comment cards so that it holds exactly `n` cards including END.
pub fn grow(mut h: H, n: usize) -> H {
    let mut k = 0;
    while h.cards.len() + 1 < n {
        h.cards.push(raw(&format!("COMMENT filler {k}")));
        k += 1;
    }
    h
}
