//! The properties over the runtime library.
use crate::arrays::*;
use crate::engine::*;
use crate::ensure;
use crate::items::*;
use crate::model::*;
use bitreader::BitReader;
use proptest::prelude::*;
use proptest::sample::select;
use rust_bitwriter::BitWriter;
use serde::{Deserialize, Serialize};
use zserio::ztype;

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

// ---------------------------------------------------------------- sequences of items

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Seq {
    start: u8,
    items: Vec<Item>,
}
fn seq(kinds: BoxedStrategy<Kind>, max: usize) -> BoxedStrategy<Seq> {
    let starts = prop_oneof![2 => Just(0u8), 3 => 0u8..70];
    (starts, proptest::collection::vec(kinds.prop_flat_map(item_strategy), 1..max))
        .prop_map(|(start, items)| Seq { start, items })
        .boxed()
}

fn junk(n: usize) -> Bits {
    Bits((0..n).map(|i| i % 3 != 1).collect())
}
fn writer_with(n: usize) -> BitWriter {
    let mut w = BitWriter::new();
    for b in junk(n).0 {
        w.write_bool(b).unwrap();
    }
    w
}

/// Write all items, compare every position, the whole stream, and read everything back.
fn check_seq(s: &Seq) -> CaseResult {
    let mut m = junk(s.start as usize);
    let mut w = writer_with(s.start as usize);
    let mut ends = vec![];
    for (i, it) in s.items.iter().enumerate() {
        let before = m.0.len();
        model_write(&mut m, it);
        if let Some(sz) = lib_size(it, before as u64) {
            let sz = sz.map_err(|e| format!("item {i}: size function failed: {e}"))?;
            ensure!(sz == (m.0.len() - before) as u64, "item {i}: size function says {sz}, expected {}", m.0.len() - before);
        }
        lib_write(&mut w, it).map_err(|e| format!("item {i}: write of a representable value failed: {e}"))?;
        ensure!(w.bit_count() == m.0.len() as u64, "item {i}: {} bits in the stream, expected {}", w.bit_count(), m.0.len());
        ends.push(m.0.len() as u64);
    }
    w.close().map_err(|e| e.to_string())?;
    ensure!(*w.data() == m.bytes(), "stream is {}, expected {}", hex(w.data()), hex(&m.bytes()));
    let mut bytes = m.bytes();
    bytes.push(0xA5);
    let mut r = BitReader::new(&bytes);
    r.skip(s.start as u64).unwrap();
    for (i, it) in s.items.iter().enumerate() {
        let got = lib_read(&mut r, kind_of(it)).map_err(|e| format!("item {i}: read failed: {e}"))?;
        ensure!(got == *it, "item {i}: wrote {it:?}, read {got:?}");
        ensure!(r.position() == ends[i], "item {i}: reader at {}, expected {}", r.position(), ends[i]);
    }
    let misaligned = s.start % 8 != 0 || ends.iter().any(|e| e % 8 != 0);
    let mut c = Case::nt(misaligned && !s.items.is_empty()).label(format!("len:{}", s.items.len().min(9)));
    for it in &s.items {
        c.labels.push(format!("kind:{}", format!("{:?}", kind_of(it)).split('(').next().unwrap()));
    }
    Ok(c)
}

/// Every proper prefix ends in an error.
fn check_trunc(s: &Seq) -> CaseResult {
    let mut m = junk(s.start as usize);
    let mut last = s.start as usize;
    for it in &s.items {
        let before = m.0.len();
        model_write(&mut m, it);
        if m.0.len() > before {
            last = m.0.len();
        }
    }
    let full = m.bytes();
    let mut cut = 0;
    for n in 0..full.len() {
        if n * 8 >= last || (n > 40 && n + 12 < full.len()) {
            continue;
        }
        cut += 1;
        let mut r = BitReader::new(&full[..n]);
        if r.skip(s.start as u64).is_err() {
            continue;
        }
        let mut failed = false;
        for it in &s.items {
            match lib_read(&mut r, kind_of(it)) {
                Ok(got) => ensure!(got == *it, "truncated to {n} bytes: read {got:?} instead of {it:?}"),
                Err(_) => {
                    failed = true;
                    break;
                }
            }
        }
        ensure!(failed, "truncated to {n} of {} bytes: no error", full.len());
    }
    Ok(Case::nt(cut > 0))
}

// ---------------------------------------------------------------- arbitrary input

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Raw {
    bytes: Vec<u8>,
    start: u8,
    kinds: Vec<Kind>,
}
fn raw_bytes() -> BoxedStrategy<Vec<u8>> {
    let b = prop_oneof![3 => any::<u8>(), 2 => Just(0xffu8), 2 => Just(0u8), 2 => Just(0x80u8), 2 => 0u8..6];
    proptest::collection::vec(b, 0..28).boxed()
}
fn raw(kinds: BoxedStrategy<Kind>) -> BoxedStrategy<Raw> {
    (raw_bytes(), prop_oneof![2 => Just(0u8), 1 => 0u8..16], proptest::collection::vec(kinds, 1..4))
        .prop_map(|(bytes, start, kinds)| Raw { bytes, start, kinds })
        .boxed()
}
fn bits_of(b: &[u8]) -> Vec<bool> {
    b.iter().flat_map(|x| (0..8).map(move |k| x >> (7 - k) & 1 == 1)).collect()
}
/// NaN payloads of halves may be quietened.
fn norm(i: Item) -> Item {
    match i {
        Item::F16(h) if h & 0x7c00 == 0x7c00 && h & 0x3ff != 0 => Item::F16(h | 0x200),
        x => x,
    }
}

fn check_raw(r: &Raw) -> CaseResult {
    let bits = bits_of(&r.bytes);
    let mut c = Cur { bits: &bits, pos: 0 };
    let mut br = BitReader::new(&r.bytes);
    if br.skip(r.start as u64).is_err() || r.start as usize > bits.len() {
        return Ok(Case::nt(false));
    }
    c.pos = r.start as usize;
    let mut case = Case::nt(false);
    for (i, k) in r.kinds.iter().enumerate() {
        let want = model_read(&mut c, *k);
        let got = lib_read(&mut br, *k);
        // a varsize above the specified maximum that still fits may be refused or returned
        if let (Kind::Var(Var::Size), Ok(Item::Var(_, v))) = (k, &want) {
            if *v > u32::MAX as i128 {
                ensure!(got.is_err(), "item {i}: a size of {v} was returned as {got:?}");
                return Ok(Case::nt(true).label("oversize"));
            }
            if *v > Var::Size.max() && got.is_err() {
                return Ok(Case::nt(true).label("oversize"));
            }
        }
        match (want, got) {
            (Ok(a), Ok(b)) => {
                ensure!(norm(a.clone()) == norm(b.clone()), "item {i}: bytes stand for {a:?}, read {b:?}");
                ensure!(c.pos as u64 == br.position(), "item {i}: reader at {}, expected {}", br.position(), c.pos);
                case.nontrivial = true;
            }
            (Err(e), Err(_)) => {
                return Ok(Case::nt(true).label(format!("err:{e}")));
            }
            (Ok(a), Err(b)) => return Err(format!("item {i}: bytes stand for {a:?}, read fails: {b}")),
            (Err(a), Ok(b)) => return Err(format!("item {i}: malformed ({a}) but read as {b:?}")),
        }
    }
    Ok(case.label("ok"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RawArr {
    bytes: Vec<u8>,
    start: u8,
    kind: Kind,
    packed: bool,
    offsets: bool,
    fixed: Option<u16>,
    one_by_one: bool,
    junk: u8,
}
fn raw_arr() -> BoxedStrategy<RawArr> {
    (
        prop_oneof![
            2 => raw_bytes(),
            3 => (0u8..9, raw_bytes()).prop_map(|(n, mut b)| { b.insert(0, n); b }),
        ],
        prop_oneof![3 => Just(0u8), 1 => 0u8..9],
        kind_strategy(true, true, true, false),
        any::<bool>(),
        prop_oneof![5 => Just(false), 1 => Just(true)],
        prop_oneof![3 => Just(None), 1 => (0u16..40).prop_map(Some)],
        any::<bool>(),
        0u8..4,
    )
        .prop_map(|(bytes, start, kind, p, offsets, fixed, one_by_one, junk)| RawArr {
            bytes,
            start,
            kind,
            packed: p && packable(kind),
            offsets,
            fixed,
            one_by_one,
            junk,
        })
        .boxed()
}
const MAXLEN: usize = 5000;
fn check_raw_arr(r: &RawArr) -> CaseResult {
    let bits = bits_of(&r.bytes);
    let mut c = Cur { bits: &bits, pos: r.start as usize };
    let n = match r.fixed {
        Some(n) => Ok(n as usize),
        None if c.pos > bits.len() => Err("eof".to_string()),
        None => c.size(),
    };
    let want = match n {
        Err(e) => Err(e),
        Ok(n) if n > MAXLEN => Err("toolong".into()),
        Ok(n) => {
            if c.pos > bits.len() {
                Err("eof".into())
            } else {
                model_array_read(&mut c, r.kind, r.packed, n, r.offsets)
            }
        }
    };
    let got = dispatch(
        r.kind,
        DoRead {
            kind: r.kind,
            packed: r.packed,
            offsets: r.offsets,
            fixed: r.fixed.map(|x| x as usize),
            bytes: &r.bytes,
            start: r.start as u64,
            max_len: MAXLEN,
            one_by_one: r.one_by_one,
            junk: r.junk as usize,
        },
    );
    match (want, got) {
        (Ok(None), _) => Ok(Case::nt(true).label("wild")),
        (Ok(Some(a)), Ok(b)) => {
            // sizes above the varsize maximum as array elements: either way
            if a.iter().any(|i| matches!(i, Item::Var(Var::Size, v) if *v > Var::Size.max())) {
                return Ok(Case::nt(false));
            }
            let a: Vec<Item> = a.into_iter().map(norm).collect();
            let bi: Vec<Item> = b.items.into_iter().map(norm).collect();
            ensure!(a == bi, "bytes stand for {a:?}, read {bi:?}");
            ensure!(c.pos as u64 == b.pos, "reader at {}, expected {}", b.pos, c.pos);
            Ok(Case::nt(!a.is_empty()).label("ok"))
        }
        (Err(e), Err(_)) => Ok(Case::nt(true).label(format!("err:{e}"))),
        (Ok(Some(a)), Err(b)) => {
            if a.iter().any(|i| matches!(i, Item::Var(Var::Size, v) if *v > Var::Size.max())) {
                return Ok(Case::nt(false));
            }
            Err(format!("bytes stand for {a:?}, read fails: {b}"))
        }
        (Err(a), Ok(b)) => Err(format!("malformed ({a}) but read as {b:?}")),
    }
}

// ---------------------------------------------------------------- arrays

fn check_arr(a: &Arr) -> CaseResult {
    let mut m = Bits((0..a.start).map(|i| i % 2 == 0).collect());
    model_array(&mut m, a);
    let fixed_len = if a.fixed { Some(a.items.len()) } else { None };
    let w = dispatch(a.kind, DoWrite { a, fixed_len }).map_err(|e| format!("write failed: {e}"))?;
    let want = (m.0.len() - a.start as usize) as u64;
    ensure!(w.bytes == m.bytes() && w.bits == m.0.len() as u64, "stream is {} ({} bits), expected {} ({} bits)", hex(&w.bytes), w.bits, hex(&m.bytes()), m.0.len());
    ensure!(w.size == Ok(want), "bit size is {:?}, {} bits were written", w.size, want);
    if packable(a.kind) {
        let mut m2 = Bits((0..a.start).map(|i| i % 2 == 0).collect());
        let mut a2 = a.clone();
        a2.packed = true;
        model_array(&mut m2, &a2);
        let want2 = (m2.0.len() - a.start as usize) as u64;
        ensure!(w.size_packed == Ok(want2), "packed bit size is {:?}, expected {}", w.size_packed, want2);
    }
    for one_by_one in [false, true] {
        let got = dispatch(
            a.kind,
            DoRead {
                kind: a.kind,
                packed: a.packed,
                offsets: a.offsets,
                fixed: fixed_len,
                bytes: &w.bytes,
                start: a.start as u64,
                max_len: usize::MAX,
                one_by_one,
                junk: 3,
            },
        )
        .map_err(|e| format!("read back failed: {e}"))?;
        ensure!(got.items == a.items, "wrote {:?}, read {:?} (one_by_one={one_by_one})", a.items, got.items);
        ensure!(got.pos == m.0.len() as u64, "reader at {}, expected {}", got.pos, m.0.len());
    }
    let mut c = Case::nt(a.items.len() >= 2);
    if a.packed && !a.items.is_empty() {
        let d = delta_of(&a.items);
        c = c.label(if !d.packed { "delta:fallback".into() } else { format!("delta:w{}", d.bits / 8 * 8) });
    }
    Ok(c)
}

/// Fixed length that differs from the data.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BadLen {
    a: Arr,
    len: u8,
}
fn check_badlen(b: &BadLen) -> CaseResult {
    if b.len as usize == b.a.items.len() {
        return Ok(Case::nt(false));
    }
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        dispatch(b.a.kind, DoWrite { a: &b.a, fixed_len: Some(b.len as usize) })
    }));
    if let Ok(Ok(w)) = r {
        return Err(format!("array of {} elements written as fixed length {}: {}", b.a.items.len(), b.len, hex(&w.bytes)));
    }
    Ok(Case::nt(true))
}

// ---------------------------------------------------------------- out of range

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Bad {
    Bits(u8, u64),
    SBits(u8, i64),
    Var(Var, i128),
    VarGeneric(bool, u8, i128),
    Bytes(u32, Vec<u8>),
    Ext(u32, Vec<u8>),
    ArrBits(u8, Vec<u64>, bool),
    ArrSBits(u8, Vec<i64>, bool),
    ArrVar(Var, Vec<i128>, bool),
}
fn wide_var(t: Var) -> BoxedStrategy<i128> {
    let (lo, hi) = (t.rust_min(), t.rust_max());
    (0u32..=64, any::<u64>(), any::<bool>(), -2i128..3)
        .prop_map(move |(s, r, neg, d)| {
            let v = if s == 0 { 0 } else { (r >> (64 - s)) as i128 } + d;
            let v = if r % 3 == 0 { (1i128 << s) + d } else { v };
            (if neg { -v } else { v }).clamp(lo, hi)
        })
        .boxed()
}
fn bad_strategy() -> BoxedStrategy<Bad> {
    prop_oneof![
        3 => (1u8..64, uval(64)).prop_map(|(n, v)| Bad::Bits(n, v)),
        3 => (1u8..64, sval(64)).prop_map(|(n, v)| Bad::SBits(n, v)),
        2 => (1u8..64, -1i64..=1, any::<bool>()).prop_map(|(n, d, neg)| {
            let v = (1i64 << (n - 1)) + d;
            Bad::SBits(n, if neg { -v } else { v })
        }),
        6 => var_kind().prop_flat_map(|t| wide_var(t).prop_map(move |v| Bad::Var(t, v))),
        2 => (any::<bool>(), select(vec![2u8, 4, 5, 8, 9]), wide_var(Var::I)).prop_map(|(s, n, v)| Bad::VarGeneric(s, n, if s { v } else { v.abs() })),
        2 => (0u32..8, proptest::collection::vec(any::<u8>(), 0..8)).prop_map(|(n, d)| Bad::Bytes(n, d)),
        2 => (0u32..60, proptest::collection::vec(any::<u8>(), 0..8)).prop_map(|(n, d)| Bad::Ext(n, d)),
        2 => (1u8..64, proptest::collection::vec(uval(64), 1..5), any::<bool>()).prop_map(|(n, v, p)| Bad::ArrBits(n, v, p)),
        2 => (1u8..64, proptest::collection::vec(sval(64), 1..5), any::<bool>()).prop_map(|(n, v, p)| Bad::ArrSBits(n, v, p)),
        3 => var_kind().prop_flat_map(|t| (proptest::collection::vec(wide_var(t), 1..4), any::<bool>()).prop_map(move |(v, p)| Bad::ArrVar(t, v, p))),
    ]
    .boxed()
}
fn fits_u(n: u8, v: u64) -> bool {
    n >= 64 || v >> n == 0
}
fn fits_s(n: u8, v: i64) -> bool {
    n >= 64 || (v >= -(1i64 << (n - 1)) && v < 1i64 << (n - 1))
}
/// Err(()) = rejected; Ok(bytes,bits)
fn attempt(f: impl FnOnce(&mut BitWriter) -> Result<(), String>) -> Option<(Vec<u8>, u64)> {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let mut w = BitWriter::new();
        f(&mut w)?;
        let n = w.bit_count();
        w.close().unwrap();
        Ok::<_, String>((w.data().clone(), n))
    }));
    match r {
        Ok(Ok(x)) => Some(x),
        _ => None,
    }
}
/// If the written stream reads back as exactly the items, the write was faithful.
fn reads_back(bytes: &[u8], items: &[Item]) -> bool {
    let mut r = BitReader::new(bytes);
    items.iter().all(|i| lib_read(&mut r, kind_of(i)).map(|g| g == *i).unwrap_or(false))
}
fn check_bad(b: &Bad) -> CaseResult {
    let (ok, got, back): (bool, Option<(Vec<u8>, u64)>, Vec<Item>) = match b {
        Bad::Bits(n, v) => (fits_u(*n, *v), attempt(|w| lib_write(w, &Item::Bits(*n, *v))), vec![Item::Bits(*n, *v)]),
        Bad::SBits(n, v) => (fits_s(*n, *v), attempt(|w| lib_write(w, &Item::SBits(*n, *v))), vec![Item::SBits(*n, *v)]),
        Bad::Var(t, v) => {
            let ok = *v >= t.min() && *v <= t.max();
            if !ok {
                if let Some(s) = std::panic::catch_unwind(|| lib_size(&Item::Var(*t, *v), 0)).ok().flatten() {
                    ensure!(s.is_err(), "{t:?}: size function returns {s:?} for the unrepresentable {v}");
                }
            }
            (ok, attempt(|w| lib_write(w, &Item::Var(*t, *v))), vec![Item::Var(*t, *v)])
        }
        Bad::VarGeneric(signed, bytes, v) => {
            let t = match (signed, bytes) {
                (true, 2) => Var::I16,
                (true, 4) => Var::I32,
                (true, 8) => Var::I64,
                (true, _) => Var::I,
                (false, 2) => Var::U16,
                (false, 4) => Var::U32,
                (false, 8) => Var::U64,
                (false, _) => Var::U,
            };
            if *bytes == 5 {
                return Ok(Case::nt(false));
            }
            let ok = *v >= t.min() && *v <= t.max();
            let g = attempt(|w| {
                if *signed {
                    ztype::write_varint_type(w, *v as i64, *bytes).map_err(|e| e.to_string())
                } else {
                    ztype::write_varuint_type(w, *v as u64, *bytes).map_err(|e| e.to_string())
                }
            });
            if let (true, Some((bytes, _))) = (ok, &g) {
                ensure!(*bytes == t.encode(*v).unwrap(), "{t:?}: {v} written as {}", hex(bytes));
            }
            (ok, g, vec![])
        }
        Bad::Bytes(n, d) => {
            let x = ztype::BytesType { byte_size: *n, data_blob: d.clone() };
            (*n as usize == d.len(), attempt(|w| ztype::write_bytes_type(w, &x).map_err(|e| e.to_string())), vec![])
        }
        Bad::Ext(n, d) => {
            let x = ztype::ExternType { bit_size: *n, data_blob: d.clone() };
            (n.div_ceil(8) as usize == d.len(), attempt(|w| ztype::write_extern_type(w, &x).map_err(|e| e.to_string())), vec![])
        }
        Bad::ArrBits(n, v, p) => {
            let items: Vec<Item> = v.iter().map(|x| Item::Bits(*n, *x)).collect();
            let ok = v.iter().all(|x| fits_u(*n, *x));
            let a = Arr { kind: Kind::Bits(*n), items: items.clone(), packed: *p, fixed: true, offsets: false, start: 0 };
            (ok || *p && fits_u(*n, v[0]), wr(&a), if *p { vec![] } else { items })
        }
        Bad::ArrSBits(n, v, p) => {
            let items: Vec<Item> = v.iter().map(|x| Item::SBits(*n, *x)).collect();
            let ok = v.iter().all(|x| fits_s(*n, *x));
            let a = Arr { kind: Kind::SBits(*n), items: items.clone(), packed: *p, fixed: true, offsets: false, start: 0 };
            (ok || *p && fits_s(*n, v[0]), wr(&a), if *p { vec![] } else { items })
        }
        Bad::ArrVar(t, v, p) => {
            let items: Vec<Item> = v.iter().map(|x| Item::Var(*t, *x)).collect();
            let ok = v.iter().all(|x| *x >= t.min() && *x <= t.max());
            let a = Arr { kind: Kind::Var(*t), items: items.clone(), packed: *p, fixed: true, offsets: false, start: 0 };
            (ok || *p && v[0] >= t.min() && v[0] <= t.max(), wr(&a), if *p { vec![] } else { items })
        }
    };
    match (ok, got) {
        (true, None) if !matches!(b, Bad::ArrBits(_, _, true) | Bad::ArrSBits(_, _, true) | Bad::ArrVar(_, _, true)) => {
            Err("a representable value was refused".into())
        }
        (true, Some((bytes, _))) => {
            ensure!(reads_back(&bytes, &back), "representable value written as {} does not read back", hex(&bytes));
            Ok(Case::nt(false).label("fits"))
        }
        (false, Some((bytes, n))) => Err(format!("unrepresentable value was written silently as {} ({n} bits)", hex(&bytes))),
        _ => Ok(Case::nt(true).label("rejected")),
    }
}
fn wr(a: &Arr) -> Option<(Vec<u8>, u64)> {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        dispatch(a.kind, DoWrite { a, fixed_len: Some(a.items.len()) })
    }));
    match r {
        Ok(Ok(w)) => Some((w.bytes, w.bits)),
        _ => None,
    }
}

// ---------------------------------------------------------------- varints: byte patterns

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct VarVal {
    t: Var,
    v: i128,
    start: u8,
}
fn check_var(x: &VarVal) -> CaseResult {
    let enc = x.t.encode(x.v).unwrap();
    // shortest form: no other length of the same type is shorter and decodes to the value
    check_seq(&Seq { start: x.start, items: vec![Item::Var(x.t, x.v), Item::Bits(3, 5)] })?;
    ensure!(x.t.decode(&enc) == Ok((x.v, enc.len())), "model is inconsistent");
    Ok(Case::nt(enc.len() > 1).label(format!("{:?}:{}", x.t, enc.len())))
}

// ---------------------------------------------------------------- floats

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct HalfIn {
    f: u32,
    start: u8,
    array: bool,
}
fn check_half_round(h: &HalfIn) -> CaseResult {
    let f = f32::from_bits(h.f);
    let mut w = writer_with(h.start as usize);
    if h.array {
        use ztype::array_traits::{array_trait::ArrayTrait, Float16ArrayTrait};
        Float16ArrayTrait {}.write(&mut w, &f).map_err(|e| e.to_string())?;
    } else {
        ztype::write_float16(&mut w, f).map_err(|e| e.to_string())?;
    }
    ensure!(w.bit_count() == h.start as u64 + 16, "{} bits", w.bit_count());
    w.close().unwrap();
    let bits = bits_of(w.data());
    let got = Cur { bits: &bits, pos: h.start as usize }.get(16).unwrap() as u16;
    match f32_to_half(h.f) {
        Some(want) => ensure!(got == want, "{f:e} written as half {got:#06x}, nearest is {want:#06x}"),
        None => ensure!(got & 0x7c00 == 0x7c00 && got & 0x3ff != 0, "NaN written as {got:#06x}"),
    }
    let exact = half_to_f32(got).map(|b| b == h.f).unwrap_or(false);
    Ok(Case::nt(!exact && !f.is_nan()).label(if f.is_nan() { "nan" } else if exact { "exact" } else { "rounded" }))
}
fn half_in() -> BoxedStrategy<HalfIn> {
    let near = (any::<u16>(), -3i32..=3, 0u32..3).prop_map(|(h, d, k)| {
        let b = half_to_f32(h & 0x7fff).unwrap_or(0x4770_0000) as i64;
        // the half value, or the midpoint to the next one, plus or minus a few ulps
        let next = half_to_f32((h & 0x7fff).wrapping_add(1)).unwrap_or(0x4780_0000) as i64;
        let base = if k == 0 { b } else { (b + next) / 2 };
        (((base + d as i64).max(0)) as u32) | ((h as u32 & 0x8000) << 16)
    });
    (prop_oneof![3 => near, 1 => f32_strategy(), 2 => (0x3300_0000u32..0x4780_1000)], 0u8..9, any::<bool>())
        .prop_map(|(f, start, array)| HalfIn { f, start, array })
        .boxed()
}
/// All 65536 half patterns (exhaustive, the input is only the start offset).
fn check_half_all(start: &u8) -> CaseResult {
    for h in 0..=u16::MAX {
        let mut b = junk(*start as usize);
        b.put(h as u64, 16);
        let bytes = b.bytes();
        let mut r = BitReader::new(&bytes);
        r.skip(*start as u64).unwrap();
        let f = ztype::read_float16(&mut r).map_err(|e| e.to_string())?;
        match half_to_f32(h) {
            Some(want) => {
                ensure!(f.to_bits() == want, "half {h:#06x} read as {f:e}");
                let mut w = BitWriter::new();
                ztype::write_float16(&mut w, f).map_err(|e| e.to_string())?;
                ensure!(w.data()[..] == h.to_be_bytes(), "half {h:#06x} written back as {}", hex(w.data()));
            }
            None => ensure!(f.is_nan(), "NaN half {h:#06x} read as {f:e}"),
        }
    }
    Ok(Case::nt(true))
}

// ---------------------------------------------------------------- alignment

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct AlignIn {
    n: u8,
    pos: u64,
}
fn check_align(a: &AlignIn) -> CaseResult {
    let pos = a.pos;
    let want = (pos + a.n as u64 - 1) / a.n as u64 * a.n as u64;
    if pos > 0 {
        let got = ztype::align_to(a.n, pos);
        ensure!(got == want, "align_to({}, {pos}) = {got}, expected {want}", a.n);
    }
    let got = ztype::align_bitsize(pos, a.n as u64);
    ensure!(pos + got == want, "align_bitsize({pos}, {}) = {got}, expected {}", a.n, want - pos);
    if pos < 3000 {
        check_seq(&Seq { start: (pos % 200) as u8, items: vec![Item::Align(a.n.max(1)), Item::Bits(5, 21), Item::Align(a.n.max(1)), Item::U(8, 200)] })?;
    }
    Ok(Case::nt(want != pos))
}

// ---------------------------------------------------------------- numbits

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct NumIn {
    v: u64,
    ty: u8,
}
fn check_num(x: &NumIn) -> CaseResult {
    macro_rules! go {
        ($t:ty) => {{
            let v = (x.v & (<$t>::MAX as u64)) as $t;
            (zserio::bit_length(v) as u32, zserio::numbits(v) as u32, v as u64)
        }};
    }
    let (bl, nb, v) = match x.ty {
        0 => go!(u8),
        1 => go!(u16),
        2 => go!(u32),
        3 => go!(u64),
        4 => go!(i8),
        5 => go!(i16),
        6 => go!(i32),
        7 => go!(i64),
        8 => go!(usize),
        _ => go!(isize),
    };
    ensure!(bl == bit_len(v as u128), "bit_length({v}) = {bl}");
    let want = match v {
        0 => 0,
        1 => 1,
        _ => bit_len(v as u128 - 1),
    };
    ensure!(nb == want, "numbits({v}) = {nb}, expected {want}");
    Ok(Case::nt(v > 1).label(format!("ty{}", x.ty)))
}
fn check_num_small(_: &u8) -> CaseResult {
    for v in 0..=65535u64 {
        for ty in 0..10 {
            check_num(&NumIn { v, ty })?;
        }
    }
    Ok(Case::nt(true))
}

// ---------------------------------------------------------------- chunk

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ChunkIn {
    a: Arr,
    chunk: u32,
    claim: Option<u32>,
    drop_bytes: u8,
}
fn chunk_strategy() -> BoxedStrategy<ChunkIn> {
    let kinds = kind_strategy(true, true, true, false)
        .prop_map(|k| match k {
            // zero-width elements make any length valid
            Kind::Bits(0) => Kind::Bits(1),
            Kind::SBits(0) => Kind::SBits(1),
            k => k,
        })
        .boxed();
    (
        arr_strategy(kinds, false),
        prop_oneof![2 => Just(0u32), 2 => 1u32..6, 1 => Just(1000u32), 1 => 6u32..3000, 1 => Just(u32::MAX)],
        prop_oneof![
            2 => Just(None),
            2 => (0u32..31, any::<u32>()).prop_map(|(s, r)| Some((r & 0x7fff_ffff) >> s)),
            1 => Just(Some(0x7fff_ffff)),
        ],
        0u8..6,
    )
        .prop_map(|(mut a, chunk, claim, drop_bytes)| {
            a.fixed = false;
            a.start = 0;
            // an unbounded chunk permits unbounded reservation: keep the claim small there
            let claim = if chunk > 100_000 { claim.map(|c| c % 5000) } else { claim };
            ChunkIn { a, chunk, claim, drop_bytes }
        })
        .boxed()
}
fn check_chunk(x: &ChunkIn) -> CaseResult {
    let mut m = Bits::default();
    let mut payload = x.a.clone();
    payload.fixed = true;
    put_varsize(&mut m, x.claim.map(|c| c as usize).unwrap_or(x.a.items.len()));
    model_array(&mut m, &payload);
    let mut bytes = m.bytes();
    let keep = bytes.len().saturating_sub(if x.claim.is_none() { 0 } else { x.drop_bytes as usize });
    bytes.truncate(keep);
    let read = || {
        crate::alloc::marked();
        let r = dispatch(
            x.a.kind,
            DoRead { kind: x.a.kind, packed: false, offsets: x.a.offsets, fixed: None, bytes: &bytes, start: 0, max_len: usize::MAX, one_by_one: false, junk: 0 },
        );
        (r, crate::alloc::marked())
    };
    zserio::set_array_alloc_chunk(1000);
    let (r0, _) = read();
    zserio::set_array_alloc_chunk(x.chunk as usize);
    let back = zserio::get_array_alloc_chunk();
    let (r1, largest) = read();
    zserio::set_array_alloc_chunk(1000);
    ensure!(back == x.chunk as usize, "chunk set to {} reads back as {back}", x.chunk);
    ensure!(zserio::get_array_alloc_chunk() == 1000, "chunk does not read back as 1000");
    match (&r0, &r1) {
        (Ok(a), Ok(b)) => ensure!(a.items == b.items && a.pos == b.pos, "chunk {} changes the result: {a:?} / {b:?}", x.chunk),
        (Err(a), Err(b)) => ensure!(a == b, "chunk {} changes the error: {a} / {b}", x.chunk),
        (a, b) => return Err(format!("chunk {} changes the outcome: {a:?} / {b:?}", x.chunk)),
    }
    if x.claim.is_none() {
        let got = r1.as_ref().map_err(|e| format!("read failed: {e}"))?;
        ensure!(got.items == x.a.items, "wrong elements");
    }
    // every element takes at least one bit; a string takes a byte. Vec growth at most doubles.
    let elem = elem_size(x.a.kind);
    let claimed = x.claim.map(|c| c as usize).unwrap_or(x.a.items.len());
    let data_elems = bytes.len() * 8;
    let bound = elem * (claimed.min(x.chunk as usize)).max(2 * data_elems.min(claimed)).max(8) + 2 * bytes.len() + 64;
    ensure!(largest <= bound, "one allocation of {largest} bytes while decoding {} bytes (claimed length {claimed}, chunk {}): more than {bound}", bytes.len(), x.chunk);
    if claimed > data_elems {
        ensure!(r1.is_err(), "{claimed} elements claimed, {} bytes of data, but decoding succeeded", bytes.len());
    }
    Ok(Case::nt(claimed > x.chunk as usize || x.claim.is_some()).label(if r1.is_ok() { "ok" } else { "err" }))
}
fn elem_size(k: Kind) -> usize {
    match k {
        Kind::Str => 24,
        Kind::Bytes | Kind::Ext => 32,
        Kind::Bool => 1,
        _ => 8,
    }
}
/// Strings and blobs that claim more than there is.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ClaimIn {
    kind: u8,
    claim: u32,
    data: Vec<u8>,
}
fn check_claim(x: &ClaimIn) -> CaseResult {
    let k = [Kind::Str, Kind::Bytes, Kind::Ext][x.kind as usize % 3];
    let mut m = Bits::default();
    put_varsize(&mut m, x.claim as usize);
    m.put_bytes(&x.data);
    let bytes = m.bytes();
    crate::alloc::reset();
    let mut r = BitReader::new(&bytes);
    let got = lib_read(&mut r, k);
    let largest = crate::alloc::largest();
    ensure!(largest <= 2 * bytes.len() + 256, "one allocation of {largest} bytes for {} bytes of input", bytes.len());
    let unit = if k == Kind::Ext { 1 } else { 8 };
    if x.claim as usize * unit > x.data.len() * 8 {
        ensure!(got.is_err(), "{k:?}: claimed size {} exceeds the data, but read as {got:?}", x.claim);
        return Ok(Case::nt(true));
    }
    Ok(Case::nt(false))
}

// ---------------------------------------------------------------- entry points

use zserio::ztype::array_traits::packing_context_node::PackingContextNode;
use zserio::{Result as ZR, ZserioPackableObject};

/// Hand-written object: a bit count, that many bits, and a string.
#[derive(Default, Debug, Clone, PartialEq)]
struct Obj {
    bits: Vec<bool>,
    s: String,
}
impl ZserioPackableObject for Obj {
    fn zserio_read(&mut self, r: &mut BitReader) -> ZR<()> {
        let n = ztype::read_unsigned_bits(r, 7)?;
        self.bits.clear();
        for _ in 0..n {
            self.bits.push(r.read_bool()?);
        }
        self.s = ztype::read_string(r)?;
        Ok(())
    }
    fn zserio_write(&self, w: &mut BitWriter) -> ZR<()> {
        ztype::write_unsigned_bits(w, self.bits.len() as u64, 7)?;
        for b in &self.bits {
            w.write_bool(*b)?;
        }
        ztype::write_string(w, &self.s)
    }
    fn zserio_read_packed(&mut self, _: &mut PackingContextNode, r: &mut BitReader) -> ZR<()> {
        self.zserio_read(r)
    }
    fn zserio_write_packed(&self, _: &mut PackingContextNode, w: &mut BitWriter) -> ZR<()> {
        self.zserio_write(w)
    }
    fn zserio_bitsize(&self, _: u64) -> ZR<u64> {
        Ok(7 + self.bits.len() as u64 + ztype::bitsize_string(&self.s)?)
    }
    fn zserio_bitsize_packed(&self, _: &mut PackingContextNode, p: u64) -> ZR<u64> {
        self.zserio_bitsize(p)
    }
    fn zserio_create_packing_context(_: &mut PackingContextNode) {}
    fn zserio_init_packing_context(&self, _: &mut PackingContextNode) -> ZR<()> {
        Ok(())
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ApiIn {
    bits: Vec<bool>,
    s: String,
    trailing: Vec<u8>,
    chunks: Vec<u8>,
    interrupt: bool,
    fail_at: Option<u16>,
    cut: Option<u16>,
    file: bool,
}
fn api_strategy() -> BoxedStrategy<ApiIn> {
    (
        proptest::collection::vec(any::<bool>(), 0..40),
        string_strategy(),
        prop_oneof![1 => Just(vec![]), 2 => proptest::collection::vec(any::<u8>(), 0..6)],
        proptest::collection::vec(1u8..20, 1..6),
        any::<bool>(),
        prop_oneof![1 => Just(None), 1 => (0u16..60).prop_map(Some)],
        prop_oneof![1 => Just(None), 1 => (0u16..60).prop_map(Some)],
        prop_oneof![3 => Just(false), 1 => Just(true)],
    )
        .prop_map(|(bits, s, trailing, chunks, interrupt, fail_at, cut, file)| ApiIn { bits, s, trailing, chunks, interrupt, fail_at, cut, file })
        .boxed()
}
struct Io<'a> {
    data: &'a [u8],
    out: Vec<u8>,
    pos: usize,
    k: usize,
    chunks: &'a [u8],
    interrupt: bool,
    flip: bool,
    fail_at: Option<usize>,
}
impl Io<'_> {
    fn step(&mut self, want: usize) -> std::io::Result<usize> {
        if self.interrupt {
            self.flip = !self.flip;
            if self.flip {
                return Err(std::io::ErrorKind::Interrupted.into());
            }
        }
        let c = self.chunks[self.k % self.chunks.len()] as usize;
        self.k += 1;
        let mut n = want.min(c);
        if let Some(f) = self.fail_at {
            if self.pos >= f {
                return Err(std::io::Error::new(std::io::ErrorKind::Other, "injected"));
            }
            n = n.min(f - self.pos);
        }
        Ok(n)
    }
}
impl std::io::Read for Io<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = self.step(buf.len())?.min(self.data.len() - self.pos);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
impl std::io::Write for Io<'_> {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let n = self.step(buf.len())?;
        self.out.extend_from_slice(&buf[..n]);
        self.pos += n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
fn check_api(x: &ApiIn) -> CaseResult {
    let o = Obj { bits: x.bits.clone(), s: x.s.clone() };
    let mut m = Bits::default();
    m.put(o.bits.len() as u64, 7);
    m.0.extend(&o.bits);
    model_write(&mut m, &Item::Str(o.s.clone()));
    let used = m.0.len();
    let want = m.bytes();
    let got = zserio::to_bytes(&o).map_err(|e| e.to_string())?;
    ensure!(got == want, "to_bytes gives {}, expected {}", hex(&got), hex(&want));
    let mk = |data: &'_ [u8], fail: Option<usize>| -> Io<'static> {
        // SAFETY-free: leak-free copies are not needed, data outlives the call below
        Io { data: Box::leak(data.to_vec().into_boxed_slice()), out: vec![], pos: 0, k: 0, chunks: Box::leak(x.chunks.clone().into_boxed_slice()), interrupt: x.interrupt, flip: false, fail_at: fail }
    };
    // writer
    let mut io = mk(&[], None);
    zserio::to_writer(&mut io, &o).map_err(|e| format!("to_writer: {e}"))?;
    ensure!(io.out == want, "to_writer gives {}, expected {}", hex(&io.out), hex(&want));
    if let Some(f) = x.fail_at {
        let mut io = mk(&[], Some(f as usize));
        let r = zserio::to_writer(&mut io, &o);
        if (f as usize) < want.len() {
            ensure!(matches!(r, Err(zserio::ZserioError::IoError(_))), "writer failing after {f} bytes: {r:?}");
            ensure!(want.starts_with(&io.out), "writer received {} which is no prefix", hex(&io.out));
        } else {
            ensure!(r.is_ok(), "writer able to take {f} bytes: {r:?}");
        }
    }
    // readers
    let mut data = want.clone();
    data.extend(&x.trailing);
    let v: Obj = zserio::from_bytes(&data).map_err(|e| format!("from_bytes: {e}"))?;
    ensure!(v == o, "from_bytes gives {v:?}");
    let v: Obj = zserio::from_reader(mk(&data, None)).map_err(|e| format!("from_reader: {e}"))?;
    ensure!(v == o, "from_reader gives {v:?}");
    if let Some(f) = x.fail_at {
        if (f as usize) <= data.len() {
            let r: ZR<Obj> = zserio::from_reader(mk(&data, Some(f as usize)));
            ensure!(matches!(r, Err(zserio::ZserioError::IoError(_))), "stream failing after {f} bytes: {r:?}");
        }
    }
    if let Some(c) = x.cut {
        let c = (c as usize).min(want.len());
        let a: ZR<Obj> = zserio::from_bytes(&want[..c]);
        let b: ZR<Obj> = zserio::from_reader(mk(&want[..c], None));
        if c * 8 < used {
            ensure!(a.is_err() && b.is_err(), "cut to {c} bytes: from_bytes {a:?}, from_reader {b:?}");
        } else {
            ensure!(a.map_err(|e| e.to_string())? == o && b.map_err(|e| e.to_string())? == o, "cut to {c} bytes changes the value");
        }
    }
    if x.file {
        let dir = crate::scratch();
        let p = dir.join("api.bin");
        std::fs::write(&p, &data).unwrap();
        let v: Obj = zserio::from_file(&p).map_err(|e| format!("from_file: {e}"))?;
        ensure!(v == o, "from_file gives {v:?}");
        let r: ZR<Obj> = zserio::from_file(dir.join("does-not-exist"));
        ensure!(matches!(r, Err(zserio::ZserioError::IoError(_))), "missing file: {r:?}");
        let r: ZR<Obj> = zserio::from_file(dir);
        ensure!(r.is_err(), "a directory is read as {r:?}");
        let e = zserio::ztype::ExternType::from_object(&o).map_err(|e| e.to_string())?;
        ensure!(e.bit_size as usize == used && e.data_blob == want, "from_object gives {e:?}");
    }
    Ok(Case::nt(!x.trailing.is_empty() || x.fail_at.is_some() || x.cut.is_some()).label(if x.fail_at.is_some() { "fault" } else { "nofault" }))
}

// ---------------------------------------------------------------- registry

fn b<V, S>(name: &'static str, weight: u32, strategy: S, check: fn(&V) -> CaseResult) -> Box<dyn Test>
where
    V: std::fmt::Debug + Serialize + serde::de::DeserializeOwned + Clone + 'static,
    S: Fn() -> BoxedStrategy<V> + 'static,
{
    Box::new(Prop { name, weight, strategy, check })
}

/// (cases per weight unit are given on the command line)
pub fn tests_of(prop: &str) -> Vec<Box<dyn Test>> {
    let all = || kind_strategy(true, true, true, false);
    match prop {
        "C01" => vec![b("arrays", 10, move || arr_strategy(all(), true), check_arr), b("sequences", 10, move || seq(kind_strategy(true, true, true, true), 14), check_seq)],
        "C02" => vec![b("arrays", 10, move || arr_strategy(all(), false), check_arr), b("sequences", 10, move || seq(kind_strategy(true, true, true, true), 14), check_seq)],
        "C03" => vec![b("arrays", 10, move || arr_strategy(all(), true), check_arr), b("sequences", 10, move || seq(kind_strategy(true, false, true, true), 10), check_seq)],
        "C04" => vec![
            b("packed", 40, || arr_strategy(kind_strategy(true, false, true, false).prop_filter("packable", |k| packable(*k)).boxed(), true), check_arr),
            b("packed_raw", 20, || raw_arr().prop_map(|mut r| { r.packed = packable(r.kind); r }).boxed(), check_raw_arr),
        ],
        "C05" => vec![
            b("raw", 40, move || raw(kind_strategy(true, true, true, true)), check_raw),
            b("raw_array", 40, raw_arr, check_raw_arr),
            b("truncate", 15, move || seq(kind_strategy(true, true, true, true), 6), check_trunc),
        ],
        "C06" => vec![
            b("bad", 60, bad_strategy, check_bad),
            b("badlen", 5, move || (arr_strategy(all(), true), 0u8..26).prop_map(|(a, len)| BadLen { a, len }).boxed(), check_badlen),
        ],
        "C07" => vec![b("api", 20, api_strategy, check_api)],
        "C08" => vec![
            b("values", 60, || (var_kind(), 0u8..17).prop_flat_map(|(t, start)| var_strategy(t).prop_map(move |v| VarVal { t, v, start })).boxed(), check_var),
            b("sequences", 10, || seq(kind_strategy(true, false, false, false), 12), check_seq),
            b("patterns", 40, || raw(var_kind().prop_map(Kind::Var).boxed()), check_raw),
            b("range", 30, || prop_oneof![
                var_kind().prop_flat_map(|t| wide_var(t).prop_map(move |v| Bad::Var(t, v))),
                (any::<bool>(), select(vec![2u8, 4, 8, 9]), wide_var(Var::I)).prop_map(|(s, n, v)| Bad::VarGeneric(s, n, if s { v } else { v.abs() })),
            ].boxed(), check_bad),
        ],
        "C09" => vec![
            b("sequences", 40, || seq(kind_strategy(false, false, true, true), 16), check_seq),
            b("raw", 20, || raw(kind_strategy(false, false, true, true)), check_raw),
            b("truncate", 5, || seq(kind_strategy(false, false, true, true), 5), check_trunc),
        ],
        "C10" => vec![
            b("half_all", 0, || (0u8..9).boxed(), check_half_all),
            b("half_round", 80, half_in, check_half_round),
            b("sequences", 20, || seq(kind_strategy(false, true, false, false), 10), check_seq),
            b("arrays", 10, || arr_strategy(kind_strategy(false, true, false, false), false), check_arr),
            b("raw", 10, || raw(kind_strategy(false, true, false, false)), check_raw),
        ],
        "C11" => vec![
            b("align", 40, || (1u8..=255, prop_oneof![0u64..300, any::<u64>().prop_map(|x| x >> 8)]).prop_map(|(n, pos)| AlignIn { n, pos }).boxed(), check_align),
            b("offset_arrays", 15, move || arr_strategy(all(), true).prop_map(|mut a| { a.offsets = true; a }).boxed(), check_arr),
        ],
        "C20" => vec![
            b("chunk", 25, chunk_strategy, check_chunk),
            b("claim", 15, || (0u8..3, prop_oneof![0u32..40, (0u32..31, any::<u32>()).prop_map(|(s, r)| (r & 0x7fff_ffff) >> s)], proptest::collection::vec(0u8..128, 0..20)).prop_map(|(kind, claim, data)| ClaimIn { kind, claim, data }).boxed(), check_claim),
        ],
        "C21" => vec![b("arrays", 10, move || arr_strategy(all(), true), check_arr)],
        "C22" => vec![
            b("small", 0, || (0u8..1).boxed(), check_num_small),
            b("values", 100, || (uval(64), 0u8..10).prop_map(|(v, ty)| NumIn { v, ty }).boxed(), check_num),
        ],
        _ => vec![],
    }
}
