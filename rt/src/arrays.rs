//! Arrays of one element kind: model of plain and delta packed arrays, and library calls.
use crate::items::*;
use crate::model::{bit_len, Bits, Var};
use bitreader::BitReader;
use proptest::prelude::*;
use rust_bitwriter::BitWriter;
use serde::{Deserialize, Serialize};
use zserio::ztype::array_traits::array_trait::ArrayTrait;
use zserio::ztype::array_traits::*;
use zserio::ztype::{Array, BytesType, ExternType};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Arr {
    pub kind: Kind,
    pub items: Vec<Item>,
    pub packed: bool,
    pub fixed: bool,
    pub offsets: bool,
    pub start: u8,
}

pub fn packable(k: Kind) -> bool {
    matches!(k, Kind::U(_) | Kind::I(_) | Kind::Bits(_) | Kind::SBits(_) | Kind::Var(_))
}

/// The delta packing decision of the zserio specification.
pub struct Delta {
    pub packed: bool,
    pub bits: u32,
}
pub fn delta_of(items: &[Item]) -> Delta {
    let vals: Vec<i128> = items.iter().map(|i| numeric(i).unwrap()).collect();
    let sizes: Vec<usize> = items.iter().map(|i| model_size(i, 0)).collect();
    let mut width = 0;
    for w in vals.windows(2) {
        width = width.max(bit_len((w[1] - w[0]).unsigned_abs()));
    }
    if vals.len() < 2 || width > 62 {
        return Delta { packed: false, bits: 0 };
    }
    let each = if width == 0 { 0 } else { width as usize + 1 };
    let with = 1 + 6 + sizes[0] + (vals.len() - 1) * each;
    let without = 1 + sizes.iter().sum::<usize>();
    Delta { packed: with < without, bits: width }
}

pub fn model_array(b: &mut Bits, a: &Arr) {
    if !a.fixed {
        put_varsize(b, a.items.len());
    }
    let d = if a.packed && packable(a.kind) && !a.items.is_empty() {
        Some(delta_of(&a.items))
    } else {
        None
    };
    for (i, it) in a.items.iter().enumerate() {
        if a.offsets {
            b.pad_to(8);
        }
        match &d {
            None => model_write(b, it),
            Some(d) => {
                if i == 0 {
                    b.put(d.packed as u64, 1);
                    if d.packed {
                        b.put(d.bits as u64, 6);
                    }
                }
                if i == 0 || !d.packed {
                    model_write(b, it);
                } else if d.bits > 0 {
                    let delta = numeric(it).unwrap() - numeric(&a.items[i - 1]).unwrap();
                    b.put(delta as u64, d.bits + 1);
                }
            }
        }
    }
}

/// Decode model; Ok(None) marks inputs outside the specified domain (a delta chain leaving the
/// element type), for which only "no panic" is required.
pub fn model_array_read(c: &mut Cur, k: Kind, packed: bool, n: usize, offsets: bool) -> Result<Option<Vec<Item>>, String> {
    let mut out: Vec<Item> = vec![];
    let mut d: Option<u32> = None;
    let mut wild = false;
    for i in 0..n {
        if offsets {
            model_read(c, Kind::Align(8))?;
        }
        if packed && packable(k) {
            if i == 0 && c.get(1)? == 1 {
                d = Some(c.get(6)? as u32);
            }
            if i > 0 && d.is_some() {
                let w = d.unwrap();
                let prev = numeric(&out[i - 1]).unwrap();
                let delta = if w == 0 { 0 } else { c.gets(w as usize + 1)? as i128 };
                let v = prev + delta;
                let (it, ok) = make(k, v);
                if !ok {
                    wild = true;
                }
                out.push(it);
                continue;
            }
        }
        let it = model_read(c, k)?;
        out.push(it);
    }
    Ok(if wild { None } else { Some(out) })
}

fn make(k: Kind, v: i128) -> (Item, bool) {
    match k {
        Kind::U(n) => (Item::U(n, v as u64), v >= 0 && v >> n == 0),
        Kind::Bits(n) => (Item::Bits(n, v as u64), v >= 0 && v >> n == 0),
        Kind::I(n) => (Item::I(n, v as i64), in_signed(v, n)),
        Kind::SBits(n) => (Item::SBits(n, v as i64), in_signed(v, n)),
        Kind::Var(t) => {
            let ok = v >= t.min() && v <= t.max();
            (Item::Var(t, v.clamp(t.rust_min(), t.rust_max())), ok)
        }
        _ => unreachable!(),
    }
}
fn in_signed(v: i128, n: u8) -> bool {
    if n == 0 {
        return v == 0;
    }
    v >= -(1i128 << (n - 1)) && v < 1i128 << (n - 1)
}

/// What one visits with the concrete library element type and trait.
pub trait Visit {
    type Out;
    fn visit<T: Default + Clone, A: ArrayTrait<T> + 'static>(
        self,
        mk: &dyn Fn() -> A,
        to: &dyn Fn(&Item) -> T,
        from: &dyn Fn(&T) -> Item,
    ) -> Self::Out;
}

pub fn dispatch<V: Visit>(k: Kind, v: V) -> V::Out {
    macro_rules! num {
        ($t:ty, $mk:expr, $item:expr) => {
            v.visit::<$t, _>(&$mk, &|i| numeric(i).unwrap() as $t, &|x| $item(*x))
        };
    }
    match k {
        Kind::U(8) => num!(u8, || UnsignedBitFieldArrayTrait { num_bits: 8 }, |x| Item::U(8, x as u64)),
        Kind::U(16) => num!(u16, || UnsignedBitFieldArrayTrait { num_bits: 16 }, |x| Item::U(16, x as u64)),
        Kind::U(32) => num!(u32, || UnsignedBitFieldArrayTrait { num_bits: 32 }, |x| Item::U(32, x as u64)),
        Kind::U(n) => num!(u64, || UnsignedBitFieldArrayTrait { num_bits: 64 }, |x| Item::U(n, x)),
        Kind::Bits(n) => num!(u64, || UnsignedBitFieldArrayTrait { num_bits: n }, |x| Item::Bits(n, x)),
        Kind::I(8) => num!(i8, || BitFieldArrayTrait { num_bits: 8 }, |x| Item::I(8, x as i64)),
        Kind::I(16) => num!(i16, || BitFieldArrayTrait { num_bits: 16 }, |x| Item::I(16, x as i64)),
        Kind::I(32) => num!(i32, || BitFieldArrayTrait { num_bits: 32 }, |x| Item::I(32, x as i64)),
        Kind::I(n) => num!(i64, || BitFieldArrayTrait { num_bits: 64 }, |x| Item::I(n, x)),
        Kind::SBits(n) => num!(i64, || BitFieldArrayTrait { num_bits: n }, |x| Item::SBits(n, x)),
        Kind::Var(t) => match t {
            Var::I16 => num!(i16, || VarInt16ArrayTrait {}, |x| Item::Var(t, x as i128)),
            Var::I32 => num!(i32, || VarInt32ArrayTrait {}, |x| Item::Var(t, x as i128)),
            Var::I64 => num!(i64, || VarInt64ArrayTrait {}, |x| Item::Var(t, x as i128)),
            Var::I => num!(i64, || VarIntArrayTrait {}, |x| Item::Var(t, x as i128)),
            Var::U16 => num!(u16, || VarUint16ArrayTrait {}, |x| Item::Var(t, x as i128)),
            Var::U32 => num!(u32, || VarUint32ArrayTrait {}, |x| Item::Var(t, x as i128)),
            Var::U64 => num!(u64, || VarUint64ArrayTrait {}, |x| Item::Var(t, x as i128)),
            Var::U => num!(u64, || VarUintArrayTrait {}, |x| Item::Var(t, x as i128)),
            Var::Size => num!(u32, || VarSizeArrayTrait {}, |x| Item::Var(t, x as i128)),
        },
        Kind::Bool => v.visit::<bool, _>(
            &|| BooleanArrayTrait {},
            &|i| matches!(i, Item::Bool(true)),
            &|x| Item::Bool(*x),
        ),
        Kind::Str => v.visit::<String, _>(
            &|| StringArrayTrait {},
            &|i| if let Item::Str(s) = i { s.clone() } else { unreachable!() },
            &|x| Item::Str(x.clone()),
        ),
        Kind::Bytes => v.visit::<BytesType, _>(
            &|| ByteBufferArrayTrait {},
            &|i| {
                if let Item::Bytes(s) = i {
                    BytesType { byte_size: s.len() as u32, data_blob: s.clone() }
                } else {
                    unreachable!()
                }
            },
            &|x| {
                assert_eq!(x.byte_size as usize, x.data_blob.len());
                Item::Bytes(x.data_blob.clone())
            },
        ),
        Kind::Ext => v.visit::<ExternType, _>(
            &|| BitBufferArrayTrait {},
            &|i| {
                if let Item::Ext(n, s) = i {
                    ExternType { bit_size: *n, data_blob: s.clone() }
                } else {
                    unreachable!()
                }
            },
            &|x| Item::Ext(x.bit_size, x.data_blob.clone()),
        ),
        Kind::F16 => v.visit::<f32, _>(
            &|| Float16ArrayTrait {},
            &|i| if let Item::F16(h) = i { half_value(*h) } else { unreachable!() },
            &|x| Item::F16(exact_half(*x)),
        ),
        Kind::F32 => v.visit::<f32, _>(
            &|| Float32ArrayTrait {},
            &|i| if let Item::F32(h) = i { f32::from_bits(*h) } else { unreachable!() },
            &|x| Item::F32(x.to_bits()),
        ),
        Kind::F64 => v.visit::<f64, _>(
            &|| Float64ArrayTrait {},
            &|i| if let Item::F64(h) = i { f64::from_bits(*h) } else { unreachable!() },
            &|x| Item::F64(x.to_bits()),
        ),
        Kind::Align(_) => unreachable!(),
    }
}

pub struct WriteOut {
    pub bits: u64,
    pub bytes: Vec<u8>,
    pub size: Result<u64, String>,
    /// size when asked with the explicit packed-size function
    pub size_packed: Result<u64, String>,
}

pub struct DoWrite<'a> {
    pub a: &'a Arr,
    pub fixed_len: Option<usize>,
}
impl Visit for DoWrite<'_> {
    type Out = R<WriteOut>;
    fn visit<T: Default + Clone, A: ArrayTrait<T> + 'static>(
        self,
        mk: &dyn Fn() -> A,
        to: &dyn Fn(&Item) -> T,
        _from: &dyn Fn(&T) -> Item,
    ) -> Self::Out {
        let a = self.a;
        let data: Vec<T> = a.items.iter().map(to).collect();
        let offs: Vec<u32> = vec![0; data.len()];
        let off = if a.offsets { Some(&offs) } else { None };
        let new = || Array::<T> {
            array_trait: Box::new(mk()),
            is_packed: a.packed,
            fixed_size: self.fixed_len,
        };
        let size =
            new().zserio_bitsize(&data, off, a.start as u64).map_err(|e| format!("{e:?}"));
        let size_packed = if packable(a.kind) {
            new().zserio_bitsize_packed(&data, off, a.start as u64).map_err(|e| format!("{e:?}"))
        } else {
            size.clone()
        };
        let mut w = BitWriter::new();
        for i in 0..a.start {
            w.write_bool(i % 2 == 0).unwrap();
        }
        new().zserio_write(&mut w, &data, off).map_err(|e| format!("{e:?}"))?;
        let bits = w.bit_count();
        w.close().unwrap();
        Ok(WriteOut { bits, bytes: w.data().clone(), size, size_packed })
    }
}

#[derive(Debug, PartialEq)]
pub struct ReadOut {
    pub items: Vec<Item>,
    pub pos: u64,
    pub cap: usize,
}
pub struct DoRead<'a> {
    pub kind: Kind,
    pub packed: bool,
    pub offsets: bool,
    pub fixed: Option<usize>,
    pub bytes: &'a [u8],
    pub start: u64,
    pub max_len: usize,
    pub one_by_one: bool,
    /// initial contents of the target vector
    pub junk: usize,
}
impl Visit for DoRead<'_> {
    /// Err("toolong") when the claimed length exceeds max_len
    type Out = R<ReadOut>;
    fn visit<T: Default + Clone, A: ArrayTrait<T> + 'static>(
        self,
        mk: &dyn Fn() -> A,
        _to: &dyn Fn(&Item) -> T,
        from: &dyn Fn(&T) -> Item,
    ) -> Self::Out {
        let mut r = BitReader::new(self.bytes);
        r.skip(self.start).map_err(|e| format!("{e:?}"))?;
        let mut arr =
            Array::<T> { array_trait: Box::new(mk()), is_packed: self.packed, fixed_size: self.fixed };
        let offs: Vec<u32> = vec![];
        let off = if self.offsets { Some(&offs) } else { None };
        let n = arr.zserio_read_array_length(&mut r).map_err(|e| format!("{e:?}"))?;
        if n > self.max_len {
            return Err("toolong".into());
        }
        let mut data: Vec<T> = vec![T::default(); self.junk];
        if self.one_by_one {
            data.clear();
            let mut ctx = arr.array_trait.create_context();
            for i in 0..n {
                let mut it = T::default();
                arr.read_one_element(&mut r, &mut ctx, &mut it, i, off)
                    .map_err(|e| format!("{e:?}"))?;
                data.push(it);
            }
        } else {
            crate::alloc::reset();
            let res = arr.zserio_read(&mut r, &mut data, n, off);
            crate::alloc::mark();
            res.map_err(|e| format!("{e:?}"))?;
        }
        Ok(ReadOut { items: data.iter().map(from).collect(), pos: r.position(), cap: data.capacity() })
    }
}

/// Item sequences with the shapes delta packing cares about.
pub fn seq_strategy(k: Kind, max: usize) -> BoxedStrategy<Vec<Item>> {
    let free = proptest::collection::vec(item_strategy(k), 0..max).boxed();
    if !packable(k) {
        return free;
    }
    let near = (item_strategy(k), proptest::collection::vec((0u32..63, any::<bool>(), any::<u64>()), 0..max), 0u32..64)
        .prop_map(move |(first, ds, cap)| {
            let mut out = vec![first.clone()];
            let mut v = numeric(&first).unwrap();
            for (w, neg, r) in ds {
                let w = w.min(cap);
                let d = if w == 0 { 0 } else { (r >> (64 - w)) as i128 };
                let cand = if neg { v - d } else { v + d };
                let (it, ok) = make(k, cand);
                if ok {
                    v = cand;
                    out.push(it);
                } else {
                    let cand = if neg { v + d } else { v - d };
                    let (it, ok) = make(k, cand);
                    if ok {
                        v = cand;
                        out.push(it);
                    }
                }
            }
            out
        });
    let same = (item_strategy(k), 0..max).prop_map(|(i, n)| vec![i; n]);
    let two = (item_strategy(k), item_strategy(k), 0..max)
        .prop_map(|(a, b, n)| (0..n).map(|i| if i % 2 == 0 { a.clone() } else { b.clone() }).collect());
    prop_oneof![3 => free, 5 => near, 1 => same, 2 => two].boxed()
}

pub fn arr_strategy(kinds: BoxedStrategy<Kind>, packed: bool) -> BoxedStrategy<Arr> {
    (kinds, any::<bool>(), prop_oneof![3 => Just(0u8), 2 => 0u8..20], prop_oneof![4 => Just(false), 1 => Just(true)])
        .prop_flat_map(move |(kind, fixed, start, offsets)| {
            let max = if matches!(kind, Kind::Str | Kind::Ext) { 5 } else { 24 };
            (seq_strategy(kind, max), if packed && packable(kind) { any::<bool>().boxed() } else { Just(false).boxed() })
                .prop_map(move |(items, p)| Arr { kind, items, packed: p, fixed, offsets, start })
        })
        .boxed()
}
