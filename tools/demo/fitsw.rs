//! Small FITS writer for the demonstrations.
#![allow(dead_code)]
pub fn raw(s: &str) -> Vec<u8> {
    let mut v = s.as_bytes().to_vec();
    assert!(v.len() <= 80);
    v.resize(80, b' ');
    v
}
pub fn kv(k: &str, v: impl std::fmt::Display) -> Vec<u8> {
    raw(&format!("{k:<8}= {:>20}", v.to_string()))
}
pub fn st(k: &str, v: &str) -> Vec<u8> {
    raw(&format!("{k:<8}= '{v:<8}'"))
}
pub fn pad(mut v: Vec<u8>, b: u8) -> Vec<u8> {
    while v.len() % 2880 != 0 {
        v.push(b)
    }
    v
}
pub fn hdu(cards: &[Vec<u8>], data: &[u8]) -> Vec<u8> {
    let mut v: Vec<u8> = cards.concat();
    v.extend(raw("END"));
    let mut v = pad(v, b' ');
    v.extend(pad(data.to_vec(), 0));
    v
}
pub fn primary(bitpix: i64, axes: &[usize], data: &[u8]) -> Vec<u8> {
    let mut c = vec![kv("SIMPLE", "T"), kv("BITPIX", bitpix), kv("NAXIS", axes.len())];
    for (i, a) in axes.iter().enumerate() {
        c.push(kv(&format!("NAXIS{}", i + 1), a));
    }
    hdu(&c, data)
}
pub fn ximage(bitpix: i64, axes: &[usize], data: &[u8]) -> Vec<u8> {
    let mut c = vec![st("XTENSION", "IMAGE"), kv("BITPIX", bitpix), kv("NAXIS", axes.len())];
    for (i, a) in axes.iter().enumerate() {
        c.push(kv(&format!("NAXIS{}", i + 1), a));
    }
    c.push(kv("PCOUNT", 0));
    c.push(kv("GCOUNT", 1));
    hdu(&c, data)
}
pub fn bintable(n1: usize, n2: usize, pcount: usize, forms: &[&str], extra: &[Vec<u8>], data: &[u8]) -> Vec<u8> {
    let mut c = vec![st("XTENSION", "BINTABLE"), kv("BITPIX", 8), kv("NAXIS", 2), kv("NAXIS1", n1), kv("NAXIS2", n2),
        kv("PCOUNT", pcount), kv("GCOUNT", 1), kv("TFIELDS", forms.len())];
    for (i, f) in forms.iter().enumerate() {
        c.push(st(&format!("TFORM{}", i + 1), f));
    }
    c.extend(extra.iter().cloned());
    hdu(&c, data)
}
