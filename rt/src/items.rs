//! Items: one value of a built-in zserio type, its model encoding, and the library calls for it.
use crate::model::{bit_len, half_to_f32, Bits, Var};
use bitreader::BitReader;
use proptest::prelude::*;
use rust_bitwriter::BitWriter;
use serde::{Deserialize, Serialize};
use zserio::ztype::array_traits::array_trait::ArrayTrait;
use zserio::ztype::array_traits::*;
use zserio::ztype::{self, BytesType, ExternType};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Item {
    U(u8, u64),
    I(u8, i64),
    Bits(u8, u64),
    SBits(u8, i64),
    Bool(bool),
    Str(String),
    Bytes(Vec<u8>),
    Ext(u32, Vec<u8>),
    Var(Var, i128),
    /// half pattern
    F16(u16),
    F32(u32),
    F64(u64),
    Align(u8),
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Kind {
    U(u8),
    I(u8),
    Bits(u8),
    SBits(u8),
    Bool,
    Str,
    Bytes,
    Ext,
    Var(Var),
    F16,
    F32,
    F64,
    Align(u8),
}

pub fn kind_of(i: &Item) -> Kind {
    match i {
        Item::U(n, _) => Kind::U(*n),
        Item::I(n, _) => Kind::I(*n),
        Item::Bits(n, _) => Kind::Bits(*n),
        Item::SBits(n, _) => Kind::SBits(*n),
        Item::Bool(_) => Kind::Bool,
        Item::Str(_) => Kind::Str,
        Item::Bytes(_) => Kind::Bytes,
        Item::Ext(..) => Kind::Ext,
        Item::Var(v, _) => Kind::Var(*v),
        Item::F16(_) => Kind::F16,
        Item::F32(_) => Kind::F32,
        Item::F64(_) => Kind::F64,
        Item::Align(n) => Kind::Align(*n),
    }
}

/// Numeric value for delta packing; None for types that are never packed.
pub fn numeric(i: &Item) -> Option<i128> {
    Some(match i {
        Item::U(_, v) | Item::Bits(_, v) => *v as i128,
        Item::I(_, v) | Item::SBits(_, v) => *v as i128,
        Item::Var(_, v) => *v,
        _ => return None,
    })
}

pub fn put_varsize(b: &mut Bits, v: usize) {
    b.put_bytes(&Var::Size.encode(v as i128).unwrap());
}

pub fn model_write(b: &mut Bits, i: &Item) {
    match i {
        Item::U(n, v) | Item::Bits(n, v) => b.put(*v, *n as u32),
        Item::I(n, v) | Item::SBits(n, v) => b.put(*v as u64, *n as u32),
        Item::Bool(x) => b.put(*x as u64, 1),
        Item::Str(s) => {
            put_varsize(b, s.len());
            b.put_bytes(s.as_bytes());
        }
        Item::Bytes(d) => {
            put_varsize(b, d.len());
            b.put_bytes(d);
        }
        Item::Ext(n, d) => {
            put_varsize(b, *n as usize);
            for k in 0..*n as usize {
                b.0.push(d[k / 8] >> (7 - k % 8) & 1 == 1);
            }
        }
        Item::Var(t, v) => b.put_bytes(&t.encode(*v).expect("generated out of range")),
        Item::F16(h) => b.put(*h as u64, 16),
        Item::F32(x) => b.put(*x as u64, 32),
        Item::F64(x) => b.put(*x, 64),
        Item::Align(n) => b.pad_to(*n as usize),
    }
}

pub fn model_size(i: &Item, pos: usize) -> usize {
    let mut b = Bits(vec![false; pos]);
    model_write(&mut b, i);
    b.0.len() - pos
}

/// Reads from model bits.
pub struct Cur<'a> {
    pub bits: &'a [bool],
    pub pos: usize,
}
impl Cur<'_> {
    pub fn get(&mut self, n: usize) -> Result<u64, String> {
        if self.pos + n > self.bits.len() {
            return Err("eof".into());
        }
        let mut v = 0u64;
        for k in 0..n {
            v = v << 1 | self.bits[self.pos + k] as u64;
        }
        self.pos += n;
        Ok(v)
    }
    pub fn gets(&mut self, n: usize) -> Result<i64, String> {
        let v = self.get(n)?;
        if n == 0 || n == 64 {
            return Ok(v as i64);
        }
        Ok(((v << (64 - n)) as i64) >> (64 - n))
    }
    pub fn var(&mut self, t: Var) -> Result<i128, String> {
        let save = self.pos;
        let mut bytes = vec![];
        for _ in 0..t.max_bytes() {
            match self.get(8) {
                Ok(b) => bytes.push(b as u8),
                Err(_) => break,
            }
        }
        match t.decode(&bytes) {
            Ok((v, used)) => {
                self.pos = save + used * 8;
                Ok(v)
            }
            Err(()) => Err("eof".into()),
        }
    }
    pub fn size(&mut self) -> Result<usize, String> {
        let v = self.var(Var::Size)?;
        if v > u32::MAX as i128 {
            return Err("range".into());
        }
        Ok(v as usize)
    }
}

pub fn model_read(c: &mut Cur, k: Kind) -> Result<Item, String> {
    Ok(match k {
        Kind::U(n) => Item::U(n, c.get(n as usize)?),
        Kind::Bits(n) => Item::Bits(n, c.get(n as usize)?),
        Kind::I(n) => Item::I(n, c.gets(n as usize)?),
        Kind::SBits(n) => Item::SBits(n, c.gets(n as usize)?),
        Kind::Bool => Item::Bool(c.get(1)? == 1),
        Kind::Str => {
            let n = c.size()?;
            if c.pos + n * 8 > c.bits.len() {
                return Err("eof".into());
            }
            let v: Vec<u8> = (0..n).map(|_| c.get(8).unwrap() as u8).collect();
            Item::Str(String::from_utf8(v).map_err(|_| "utf8".to_string())?)
        }
        Kind::Bytes => {
            let n = c.size()?;
            if c.pos + n * 8 > c.bits.len() {
                return Err("eof".into());
            }
            Item::Bytes((0..n).map(|_| c.get(8).unwrap() as u8).collect())
        }
        Kind::Ext => {
            let n = c.size()?;
            if c.pos + n > c.bits.len() {
                return Err("eof".into());
            }
            let b = Bits(c.bits[c.pos..c.pos + n].to_vec());
            c.pos += n;
            Item::Ext(n as u32, b.bytes())
        }
        Kind::Var(t) => Item::Var(t, c.var(t)?),
        Kind::F16 => Item::F16(c.get(16)? as u16),
        Kind::F32 => Item::F32(c.get(32)? as u32),
        Kind::F64 => Item::F64(c.get(64)?),
        Kind::Align(n) => {
            let to = c.pos.div_ceil(n as usize) * n as usize;
            if to > c.bits.len() {
                return Err("eof".into());
            }
            c.pos = to;
            Item::Align(n)
        }
    })
}

// ---- library calls -------------------------------------------------------------------------

pub fn half_value(h: u16) -> f32 {
    match half_to_f32(h) {
        Some(b) => f32::from_bits(b),
        // NaN: an f32 NaN with the payload in the top mantissa bits
        None => f32::from_bits(((h as u32 & 0x8000) << 16) | 0x7f80_0000 | ((h as u32 & 0x3ff) << 13)),
    }
}

pub type R<T> = Result<T, String>;
fn e<T>(r: Result<T, zserio::ZserioError>) -> R<T> {
    r.map_err(|e| format!("{e:?}"))
}

pub fn lib_write(w: &mut BitWriter, i: &Item) -> R<()> {
    e(match i {
        Item::U(8, v) => ztype::write_uint8(w, *v as u8),
        Item::U(16, v) => ztype::write_uint16(w, *v as u16),
        Item::U(32, v) => ztype::write_uint32(w, *v as u32),
        Item::U(_, v) => ztype::write_uint64(w, *v),
        Item::I(8, v) => ztype::write_int8(w, *v as i8),
        Item::I(16, v) => ztype::write_int16(w, *v as i16),
        Item::I(32, v) => ztype::write_int32(w, *v as i32),
        Item::I(_, v) => ztype::write_int64(w, *v),
        Item::Bits(n, v) => ztype::write_unsigned_bits(w, *v, *n),
        Item::SBits(n, v) => ztype::write_signed_bits(w, *v, *n),
        Item::Bool(b) => BooleanArrayTrait {}.write(w, b),
        Item::Str(s) => ztype::write_string(w, s),
        Item::Bytes(d) => ztype::write_bytes_type(
            w,
            &BytesType { byte_size: d.len() as u32, data_blob: d.clone() },
        ),
        Item::Ext(n, d) => {
            ztype::write_extern_type(w, &ExternType { bit_size: *n, data_blob: d.clone() })
        }
        Item::Var(t, v) => match t {
            Var::I16 => ztype::write_varint16(w, *v as i16),
            Var::I32 => ztype::write_varint32(w, *v as i32),
            Var::I64 => ztype::write_varint64(w, *v as i64),
            Var::I => ztype::write_varint(w, *v as i64),
            Var::U16 => ztype::write_varuint16(w, *v as u16),
            Var::U32 => ztype::write_varuint32(w, *v as u32),
            Var::U64 => ztype::write_varuint64(w, *v as u64),
            Var::U => ztype::write_varuint(w, *v as u64),
            Var::Size => ztype::write_varsize(w, *v as u32),
        },
        Item::F16(h) => ztype::write_float16(w, half_value(*h)),
        Item::F32(b) => ztype::write_float32(w, f32::from_bits(*b)),
        Item::F64(b) => ztype::write_float64(w, f64::from_bits(*b)),
        Item::Align(n) => ztype::align_writer(w, *n as u64),
    })
}

/// f32 -> half pattern for values that are exact halves (NaNs: canonical payload mapping).
pub fn exact_half(v: f32) -> u16 {
    let b = v.to_bits();
    if v.is_nan() {
        return ((b >> 16) & 0x8000) as u16 | 0x7c00 | ((b >> 13) & 0x3ff) as u16;
    }
    crate::model::f32_to_half(b).unwrap()
}

pub fn lib_read(r: &mut BitReader, k: Kind) -> R<Item> {
    Ok(match k {
        Kind::U(8) => Item::U(8, e(ztype::read_uint8(r))? as u64),
        Kind::U(16) => Item::U(16, e(ztype::read_uint16(r))? as u64),
        Kind::U(32) => Item::U(32, e(ztype::read_uint32(r))? as u64),
        Kind::U(n) => Item::U(n, e(ztype::read_uint64(r))?),
        Kind::I(8) => Item::I(8, e(ztype::read_int8(r))? as i64),
        Kind::I(16) => Item::I(16, e(ztype::read_int16(r))? as i64),
        Kind::I(32) => Item::I(32, e(ztype::read_int32(r))? as i64),
        Kind::I(n) => Item::I(n, e(ztype::read_int64(r))?),
        Kind::Bits(n) => Item::Bits(n, e(ztype::read_unsigned_bits(r, n))?),
        Kind::SBits(n) => Item::SBits(n, e(ztype::read_signed_bits(r, n))?),
        Kind::Bool => {
            let mut b = false;
            e(BooleanArrayTrait {}.read(r, &mut b))?;
            Item::Bool(b)
        }
        Kind::Str => Item::Str(e(ztype::read_string(r))?),
        Kind::Bytes => {
            let b = e(ztype::read_bytes_type(r))?;
            ensure_eq(b.byte_size as usize, b.data_blob.len())?;
            Item::Bytes(b.data_blob)
        }
        Kind::Ext => {
            let b = e(ztype::read_extern_type(r))?;
            Item::Ext(b.bit_size, b.data_blob)
        }
        Kind::Var(t) => Item::Var(
            t,
            match t {
                Var::I16 => e(ztype::read_varint16(r))? as i128,
                Var::I32 => e(ztype::read_varint32(r))? as i128,
                Var::I64 => e(ztype::read_varint64(r))? as i128,
                Var::I => e(ztype::read_varint(r))? as i128,
                Var::U16 => e(ztype::read_varuint16(r))? as i128,
                Var::U32 => e(ztype::read_varuint32(r))? as i128,
                Var::U64 => e(ztype::read_varuint64(r))? as i128,
                Var::U => e(ztype::read_varuint(r))? as i128,
                Var::Size => e(ztype::read_varsize(r))? as i128,
            },
        ),
        Kind::F16 => Item::F16(exact_half(e(ztype::read_float16(r))?)),
        Kind::F32 => Item::F32(e(ztype::read_float32(r))?.to_bits()),
        Kind::F64 => Item::F64(e(ztype::read_float64(r))?.to_bits()),
        Kind::Align(n) => {
            e(ztype::align_reader(r, n as u64))?;
            Item::Align(n)
        }
    })
}

fn ensure_eq(a: usize, b: usize) -> R<()> {
    if a == b {
        Ok(())
    } else {
        panic!("byte_size {a} of a decoded blob differs from its data length {b}")
    }
}

/// The library's size function for the item, if it has one.
pub fn lib_size(i: &Item, pos: u64) -> Option<R<u64>> {
    Some(match i {
        Item::Str(s) => e(ztype::bitsize_string(s)),
        Item::Bytes(d) => Ok(ztype::bitsize_of_bytes(&BytesType {
            byte_size: d.len() as u32,
            data_blob: d.clone(),
        })),
        Item::Ext(n, d) => {
            Ok(ztype::bitsize_of_extern(&ExternType { bit_size: *n, data_blob: d.clone() }))
        }
        Item::Var(t, v) => match t {
            Var::I16 => e(ztype::varint16_bitsize(*v as i16)).map(|x| x as u64),
            Var::I32 => e(ztype::varint32_bitsize(*v as i32)).map(|x| x as u64),
            Var::I64 => e(ztype::varint64_bitsize(*v as i64)).map(|x| x as u64),
            Var::I => e(ztype::varint_bitsize(*v as i64)).map(|x| x as u64),
            Var::U16 => e(ztype::varuint16_bitsize(*v as u16)).map(|x| x as u64),
            Var::U32 => e(ztype::varuint32_bitsize(*v as u32)).map(|x| x as u64),
            Var::U64 => e(ztype::varuint64_bitsize(*v as u64)).map(|x| x as u64),
            Var::U => e(ztype::varuint_bitsize(*v as u64)).map(|x| x as u64),
            Var::Size => e(ztype::varsize_bitsize(*v as u32)).map(|x| x as u64),
        },
        Item::Align(n) => Ok(ztype::align_bitsize(pos, *n as u64)),
        _ => return None,
    })
}

// ---- strategies ----------------------------------------------------------------------------

/// Unsigned value of n bits, biased to boundaries and to every magnitude.
pub fn uval(n: u8) -> BoxedStrategy<u64> {
    if n == 0 {
        return Just(0u64).boxed();
    }
    let max = if n == 64 { u64::MAX } else { (1u64 << n) - 1 };
    prop_oneof![
        2 => Just(0u64),
        1 => Just(1u64.min(max)),
        2 => Just(max),
        1 => Just(max - 1),
        4 => (0u32..n as u32, any::<u64>(), 0u64..4).prop_map(move |(sh, r, k)| match k {
            0 => (1u64 << sh) & max,
            1 => (1u64 << sh).wrapping_sub(1) & max,
            2 => (1u64 << sh).wrapping_add(1) & max,
            _ => (r >> (63 - sh)) & max,
        }),
        3 => any::<u64>().prop_map(move |r| r & max),
    ]
    .boxed()
}
pub fn sval(n: u8) -> BoxedStrategy<i64> {
    if n == 0 {
        return Just(0i64).boxed();
    }
    uval(n).prop_map(move |u| ((u << (64 - n)) as i64) >> (64 - n)).boxed()
}
pub fn var_strategy(t: Var) -> BoxedStrategy<i128> {
    let (min, max) = (t.min(), t.max());
    let bits = bit_len(max as u128);
    prop_oneof![
        1 => Just(0i128),
        1 => Just(max),
        1 => Just(min),
        8 => (0u32..=bits, -2i128..=2, any::<bool>()).prop_map(move |(s, d, neg)| {
            let v = (1i128 << s) + d;
            (if neg { -v } else { v }).clamp(min, max)
        }),
        6 => (0u32..=bits, any::<u64>(), any::<bool>()).prop_map(move |(s, r, neg)| {
            let v = if s == 0 { 0 } else { (r >> (64 - s)) as i128 };
            (if neg { -v } else { v }).clamp(min, max)
        }),
    ]
    .boxed()
}
pub fn string_strategy() -> BoxedStrategy<String> {
    prop_oneof![
        1 => Just(String::new()),
        4 => proptest::collection::vec(any::<char>(), 0..12).prop_map(|v| v.into_iter().collect()),
        2 => "[a-z \\x00\\xff]{0,20}",
        1 => (120usize..140).prop_map(|n| "x".repeat(n)),
        1 => (60usize..70, any::<char>()).prop_map(|(n, c)| c.to_string().repeat(n)),
        1 => (16380usize..16388).prop_map(|n| "y".repeat(n)),
    ]
    .boxed()
}
pub fn bytes_strategy() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        6 => proptest::collection::vec(any::<u8>(), 0..10),
        1 => (126usize..130, any::<u8>()).prop_map(|(n, b)| vec![b; n]),
    ]
    .boxed()
}
pub fn ext_strategy() -> BoxedStrategy<(u32, Vec<u8>)> {
    prop_oneof![6 => 0u32..70, 1 => 120u32..140, 1 => 16380u32..16390]
        .prop_flat_map(|n| {
            proptest::collection::vec(any::<u8>(), n.div_ceil(8) as usize).prop_map(move |mut d| {
                if n % 8 != 0 {
                    *d.last_mut().unwrap() &= 0xffu8 << (8 - n % 8);
                }
                (n, d)
            })
        })
        .boxed()
}
pub fn half_strategy() -> BoxedStrategy<u16> {
    prop_oneof![
        any::<u16>(),
        Just(0u16), Just(0x8000), Just(0x7c00), Just(0xfc00), Just(0x7e01), Just(0x0001), Just(0x03ff), Just(0x0400),
    ]
    .prop_map(|h| if h & 0x7c00 == 0x7c00 && h & 0x3ff != 0 { h | 0x200 } else { h })
    .boxed()
}
pub fn f32_strategy() -> BoxedStrategy<u32> {
    prop_oneof![
        4 => any::<u32>(),
        1 => Just(0u32), 1 => Just(0x8000_0000), 1 => Just(0x7f80_0000), 1 => Just(0xff80_0000),
        1 => Just(0x7fc0_0001), 1 => Just(0x7f80_0001), 1 => Just(1), 1 => Just(0x7f7f_ffff),
        4 => any::<f32>().prop_map(|f| f.to_bits()),
    ]
    .boxed()
}
pub fn f64_strategy() -> BoxedStrategy<u64> {
    prop_oneof![
        4 => any::<u64>(),
        1 => Just(0u64), 1 => Just(1u64 << 63), 1 => Just(0x7ff0_0000_0000_0000),
        1 => Just(0x7ff0_0000_0000_0001), 1 => Just(0xfff8_0000_0000_0001), 1 => Just(1),
        4 => any::<f64>().prop_map(|f| f.to_bits()),
    ]
    .boxed()
}

pub fn var_kind() -> BoxedStrategy<Var> {
    proptest::sample::select(crate::model::VARS.to_vec()).boxed()
}

pub fn kind_strategy(vars: bool, floats: bool, fixed: bool, align: bool) -> BoxedStrategy<Kind> {
    let w = || proptest::sample::select(vec![8u8, 16, 32, 64]);
    let mut v: Vec<(u32, BoxedStrategy<Kind>)> = vec![];
    if fixed {
        v.push((3, w().prop_map(Kind::U).boxed()));
        v.push((3, w().prop_map(Kind::I).boxed()));
        v.push((4, (0u8..=64).prop_map(Kind::Bits).boxed()));
        v.push((4, (0u8..=64).prop_map(Kind::SBits).boxed()));
        v.push((2, Just(Kind::Bool).boxed()));
        v.push((3, Just(Kind::Str).boxed()));
        v.push((2, Just(Kind::Bytes).boxed()));
        v.push((3, Just(Kind::Ext).boxed()));
    }
    if vars {
        v.push((9, var_kind().prop_map(Kind::Var).boxed()));
    }
    if floats {
        v.push((2, Just(Kind::F16).boxed()));
        v.push((2, Just(Kind::F32).boxed()));
        v.push((2, Just(Kind::F64).boxed()));
    }
    if align {
        v.push((3, (1u8..=67).prop_map(Kind::Align).boxed()));
    }
    proptest::strategy::Union::new_weighted(v).boxed()
}

pub fn item_strategy(k: Kind) -> BoxedStrategy<Item> {
    match k {
        Kind::U(n) => uval(n).prop_map(move |v| Item::U(n, v)).boxed(),
        Kind::I(n) => sval(n).prop_map(move |v| Item::I(n, v)).boxed(),
        Kind::Bits(n) => uval(n).prop_map(move |v| Item::Bits(n, v)).boxed(),
        Kind::SBits(n) => sval(n).prop_map(move |v| Item::SBits(n, v)).boxed(),
        Kind::Bool => any::<bool>().prop_map(Item::Bool).boxed(),
        Kind::Str => string_strategy().prop_map(Item::Str).boxed(),
        Kind::Bytes => bytes_strategy().prop_map(Item::Bytes).boxed(),
        Kind::Ext => ext_strategy().prop_map(|(n, d)| Item::Ext(n, d)).boxed(),
        Kind::Var(t) => var_strategy(t).prop_map(move |v| Item::Var(t, v)).boxed(),
        Kind::F16 => half_strategy().prop_map(Item::F16).boxed(),
        Kind::F32 => f32_strategy().prop_map(Item::F32).boxed(),
        Kind::F64 => f64_strategy().prop_map(Item::F64).boxed(),
        Kind::Align(n) => Just(Item::Align(n)).boxed(),
    }
}
