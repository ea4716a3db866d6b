//! Observation of the code under test through its public API, in plain comparable values.

use crate::gen::Kind;
use fitsrs::hdu::data::bintable::{ColumnId, DataValue};
use fitsrs::hdu::HDU;
use std::io::{Read, Seek, SeekFrom};

pub fn kind_of(h: &HDU) -> Kind {
    match h {
        HDU::Primary(_) => Kind::Primary,
        HDU::XImage(_) => Kind::Image,
        HDU::XBinaryTable(_) => Kind::BinTable,
        HDU::XASCIITable(_) => Kind::Ascii,
    }
}

/// A pixel, by type and bits.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Px {
    U8(u8),
    I16(i16),
    I32(i32),
    I64(i64),
    F32(u32),
    F64(u64),
}

/// A table value, by type and bits, with its column and its index in the field.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum V {
    L(bool),
    X(u8),
    B(u8),
    I(i16),
    J(i32),
    K(i64),
    A(char),
    E(u32),
    D(u64),
    C(u32, u32),
    M(u64, u64),
    P(u32, u32),
    Q(u64, u64),
}
pub type Cell = (Option<usize>, Option<usize>, V);

fn cid(c: &ColumnId) -> Option<usize> {
    match c {
        ColumnId::Index(i) => Some(*i),
        ColumnId::Name(_) => None,
    }
}

pub fn cell(d: &DataValue) -> Cell {
    match d {
        DataValue::Logical { value, column, idx } => (cid(column), Some(*idx), V::L(*value)),
        // bits are given a byte at a time, from its first bit
        DataValue::Bit { byte, bit_idx, column, idx } => (cid(column).filter(|_| *bit_idx == 0), Some(*idx), V::X(*byte)),
        DataValue::UnsignedByte { value, column, idx } => (cid(column), Some(*idx), V::B(*value)),
        DataValue::Short { value, column, idx } => (cid(column), Some(*idx), V::I(*value)),
        DataValue::Integer { value, column, idx } => (cid(column), Some(*idx), V::J(*value)),
        DataValue::Long { value, column, idx } => (cid(column), Some(*idx), V::K(*value)),
        DataValue::Character { value, column, idx } => (cid(column), Some(*idx), V::A(*value)),
        DataValue::Float { value, column, idx } => (cid(column), Some(*idx), V::E(value.to_bits())),
        DataValue::Double { value, column, idx } => (cid(column), Some(*idx), V::D(value.to_bits())),
        DataValue::ComplexFloat { real, imag, column, idx } => {
            (cid(column), Some(*idx), V::C(real.to_bits(), imag.to_bits()))
        }
        DataValue::ComplexDouble { real, imag, column, idx } => {
            (cid(column), Some(*idx), V::M(real.to_bits(), imag.to_bits()))
        }
        DataValue::VariableLengthArray32 { num_elems, offset_byte } => (None, None, V::P(*num_elems, *offset_byte)),
        DataValue::VariableLengthArray64 { num_elems, offset_byte } => (None, None, V::Q(*num_elems, *offset_byte)),
    }
}

/// Decode one big-endian pixel.
pub fn be(bitpix: i64, b: &[u8]) -> Px {
    let mut u: u64 = 0;
    for x in b {
        u = (u << 8) | *x as u64;
    }
    match bitpix {
        8 => Px::U8(u as u8),
        16 => Px::I16(u as u16 as i16),
        32 => Px::I32(u as u32 as i32),
        64 => Px::I64(u as i64),
        -32 => Px::F32(u as u32),
        -64 => Px::F64(u),
        _ => unreachable!(),
    }
}

pub fn pixels(bitpix: i64, data: &[u8]) -> Vec<Px> {
    data.chunks(crate::gen::bitpix_size(bitpix)).map(|c| be(bitpix, c)).collect()
}

/// Image data iterator behind one interface.
pub trait PxIt {
    fn next_px(&mut self) -> Option<Px>;
    fn at(&mut self, i: usize) -> Result<Px, String>;
}
macro_rules! pxit {
    ($t:ty, $v:ident, $f:expr) => {
        impl<R: Read + Seek> PxIt for fitsrs::It<R, $t> {
            fn next_px(&mut self) -> Option<Px> {
                self.next().map(|x| Px::$v($f(x)))
            }
            fn at(&mut self, i: usize) -> Result<Px, String> {
                self.read_value(i).map(|x| Px::$v($f(x))).map_err(|e| format!("{e:?}"))
            }
        }
    };
}
pxit!(u8, U8, |x| x);
pxit!(i16, I16, |x| x);
pxit!(i32, I32, |x| x);
pxit!(i64, I64, |x| x);
pxit!(f32, F32, f32::to_bits);
pxit!(f64, F64, f64::to_bits);

pub fn pxit<'a, R: Read + Seek + 'a>(p: fitsrs::Pixels<R>) -> Box<dyn PxIt + 'a> {
    use fitsrs::Pixels::*;
    match p {
        U8(i) => Box::new(i),
        I16(i) => Box::new(i),
        I32(i) => Box::new(i),
        I64(i) => Box::new(i),
        F32(i) => Box::new(i),
        F64(i) => Box::new(i),
    }
}

/// Tile-compressed pixels behind one interface.
pub fn tcpx<R: Read + Seek + std::fmt::Debug>(
    p: &mut fitsrs::hdu::data::bintable::tile_compressed::pixels::Pixels<R>,
) -> Option<Px> {
    use fitsrs::hdu::data::bintable::tile_compressed::pixels::Pixels::*;
    match p {
        U8(i) => i.next().map(Px::U8),
        I16(i) => i.next().map(Px::I16),
        I32(i) => i.next().map(Px::I32),
        F32(i) => i.next().map(|x| Px::F32(x.to_bits())),
        F64(i) => i.next().map(|x| Px::F32(x.to_bits())),
    }
}

/// In-memory seekable source that hands out its bytes in pieces of at most `max`.
pub struct Short {
    pub data: std::sync::Arc<Vec<u8>>,
    pub pos: u64,
    pub max: usize,
}
impl std::fmt::Debug for Short {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Short@{}", self.pos)
    }
}
impl Read for Short {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let p = (self.pos as usize).min(self.data.len());
        let n = buf.len().min(self.max).min(self.data.len() - p);
        buf[..n].copy_from_slice(&self.data[p..p + n]);
        self.pos += n as u64;
        Ok(n)
    }
}
impl Seek for Short {
    fn seek(&mut self, s: SeekFrom) -> std::io::Result<u64> {
        self.pos = seek_to(self.pos, self.data.len() as u64, s)?;
        Ok(self.pos)
    }
}
pub fn seek_to(pos: u64, len: u64, s: SeekFrom) -> std::io::Result<u64> {
    let n: i128 = match s {
        SeekFrom::Start(n) => n as i128,
        SeekFrom::Current(d) => pos as i128 + d as i128,
        SeekFrom::End(d) => len as i128 + d as i128,
    };
    if n < 0 || n > u64::MAX as i128 {
        return Err(std::io::Error::new(std::io::ErrorKind::InvalidInput, "seek out of range"));
    }
    Ok(n as u64)
}

pub fn cell_list(d: &[DataValue]) -> Vec<Cell> {
    d.iter().map(cell).collect()
}

/// A file too big to be stored: the headers are stored, every other byte is computed from its position
/// (all 64 bits of it count).
#[derive(Clone)]
pub struct Sparse {
    pub stored: std::sync::Arc<Vec<(u64, Vec<u8>)>>,
    pub len: u64,
    pub pos: u64,
    /// at most so many bytes per read
    pub max: usize,
    /// pieces of 64 KiB of equal bytes (quick to read)
    pub coarse: bool,
}
impl std::fmt::Debug for Sparse {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Sparse@{}", self.pos)
    }
}
impl Sparse {
    pub fn byte(&self, p: u64) -> u8 {
        for (o, b) in self.stored.iter() {
            if p >= *o && p - o < b.len() as u64 {
                return b[(p - o) as usize];
            }
        }
        let p = if self.coarse { p >> 16 } else { p };
        let x = p.wrapping_mul(0x9E3779B97F4A7C15).wrapping_add(0xD1B54A32D192ED03);
        let x = (x ^ (x >> 29)).wrapping_mul(0xBF58476D1CE4E5B9);
        ((x ^ (x >> 32)).wrapping_mul(0x94D049BB133111EB) >> 56) as u8
    }
    pub fn slice(&self, p: u64, n: usize) -> Vec<u8> {
        (0..n as u64).map(|i| self.byte(p + i)).collect()
    }
}
impl Read for Sparse {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = (buf.len().min(self.max) as u64).min(self.len.saturating_sub(self.pos)) as usize;
        if self.coarse && !self.stored.iter().any(|(o, b)| self.pos < o + b.len() as u64 && self.pos + n as u64 > *o) {
            let mut i = 0;
            while i < n {
                let p = self.pos + i as u64;
                let k = (((p | 0xffff) + 1 - p) as usize).min(n - i);
                buf[i..i + k].fill(self.byte(p));
                i += k;
            }
        } else {
            for (i, b) in buf[..n].iter_mut().enumerate() {
                *b = self.byte(self.pos + i as u64);
            }
        }
        self.pos += n as u64;
        Ok(n)
    }
}
impl Seek for Sparse {
    fn seek(&mut self, s: SeekFrom) -> std::io::Result<u64> {
        self.pos = seek_to(self.pos, self.len, s)?;
        // as a file does
        if self.pos > i64::MAX as u64 {
            return Err(std::io::Error::new(std::io::ErrorKind::InvalidInput, "seek out of range"));
        }
        Ok(self.pos)
    }
}
