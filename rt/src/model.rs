//! Independent reference model of the zserio primitives (written from the zserio language
//! specification): a stream is a plain vector of bits.
#[derive(Default, Clone, Debug)]
pub struct Bits(pub Vec<bool>);

impl Bits {
    pub fn put(&mut self, v: u64, n: u32) {
        for i in (0..n).rev() {
            self.0.push(i < 64 && (v >> i) & 1 == 1);
        }
    }
    pub fn pad_to(&mut self, a: usize) {
        while self.0.len() % a != 0 {
            self.0.push(false);
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        self.0
            .chunks(8)
            .map(|c| c.iter().enumerate().fold(0u8, |a, (i, b)| a | ((*b as u8) << (7 - i))))
            .collect()
    }
    pub fn put_bytes(&mut self, b: &[u8]) {
        for x in b {
            self.put(*x as u64, 8);
        }
    }
}

/// Variable-length integer types.
#[derive(Clone, Copy, Debug, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
pub enum Var {
    I16,
    I32,
    I64,
    I,
    U16,
    U32,
    U64,
    U,
    Size,
}
pub const VARS: [Var; 9] =
    [Var::I16, Var::I32, Var::I64, Var::I, Var::U16, Var::U32, Var::U64, Var::U, Var::Size];

impl Var {
    pub fn signed(self) -> bool {
        matches!(self, Var::I16 | Var::I32 | Var::I64 | Var::I)
    }
    pub fn max_bytes(self) -> u32 {
        match self {
            Var::I16 | Var::U16 => 2,
            Var::I32 | Var::U32 => 4,
            Var::I64 | Var::U64 => 8,
            Var::I | Var::U => 9,
            Var::Size => 5,
        }
    }
    pub fn min(self) -> i128 {
        match self {
            Var::I => i64::MIN as i128,
            v if v.signed() => -v.max(),
            _ => 0,
        }
    }
    pub fn max(self) -> i128 {
        match self {
            Var::I16 => (1 << 14) - 1,
            Var::I32 => (1 << 28) - 1,
            Var::I64 => (1i128 << 56) - 1,
            Var::I => i64::MAX as i128,
            Var::U16 => (1 << 15) - 1,
            Var::U32 => (1 << 29) - 1,
            Var::U64 => (1i128 << 57) - 1,
            Var::U => u64::MAX as i128,
            Var::Size => (1i128 << 31) - 1,
        }
    }
    /// Rust value type limits of the API functions.
    pub fn rust_min(self) -> i128 {
        match self {
            Var::I16 => i16::MIN as i128,
            Var::I32 => i32::MIN as i128,
            Var::I64 | Var::I => i64::MIN as i128,
            _ => 0,
        }
    }
    pub fn rust_max(self) -> i128 {
        match self {
            Var::I16 => i16::MAX as i128,
            Var::I32 => i32::MAX as i128,
            Var::I64 | Var::I => i64::MAX as i128,
            Var::U16 => u16::MAX as i128,
            Var::U32 | Var::Size => u32::MAX as i128,
            Var::U64 | Var::U => u64::MAX as i128,
        }
    }
    /// The data bits of each byte of the form with n bytes.
    fn groups(self, n: u32) -> Vec<u32> {
        (0..n)
            .map(|i| {
                let mut g = if i + 1 == self.max_bytes() { 8 } else { 7 };
                if i == 0 && self.signed() {
                    g -= 1;
                }
                g
            })
            .collect()
    }
    /// None: not representable.
    pub fn encode(self, v: i128) -> Option<Vec<u8>> {
        if v < self.min() || v > self.max() {
            return None;
        }
        if self == Var::I && v == i64::MIN as i128 {
            return Some(vec![0x80]); // "negative zero" stands for INT64_MIN
        }
        let mag = v.unsigned_abs();
        for n in 1..=self.max_bytes() {
            let g = self.groups(n);
            let total: u32 = g.iter().sum();
            if mag >> total != 0 {
                continue;
            }
            let mut out = vec![];
            let mut rest = total;
            for (i, w) in g.iter().enumerate() {
                rest -= w;
                let data = ((mag >> rest) as u32) & ((1 << w) - 1);
                let mut b = data;
                if (i as u32) + 1 < n {
                    b |= 1 << w; // continuation flag sits directly above the data bits
                }
                if i == 0 && self.signed() && v < 0 {
                    b |= 0x80;
                }
                out.push(b as u8);
            }
            return Some(out);
        }
        None
    }
    /// Decodes from bytes: Ok((value, used bytes)), Err(()) if truncated.
    pub fn decode(self, b: &[u8]) -> Result<(i128, usize), ()> {
        let mut mag: i128 = 0;
        let mut neg = false;
        for i in 0..self.max_bytes() as usize {
            let x = *b.get(i).ok_or(())? as i128;
            let mut w = if i as u32 + 1 == self.max_bytes() { 8 } else { 7 };
            let mut more = i as u32 + 1 != self.max_bytes() && x & 0x80 != 0;
            if i == 0 && self.signed() {
                w -= 1;
                neg = x & 0x80 != 0;
                more = x & 0x40 != 0;
            }
            mag = (mag << w) | (x & ((1 << w) - 1));
            if !more {
                let v = if neg { -mag } else { mag };
                if self == Var::I && neg && mag == 0 {
                    return Ok((i64::MIN as i128, i + 1));
                }
                return Ok((v, i + 1));
            }
        }
        unreachable!()
    }
}

pub fn bit_len(v: u128) -> u32 {
    128 - v.leading_zeros()
}

/// Nearest half (ties to even) of an f32, computed with exact integer arithmetic.
pub fn f32_to_half(bits: u32) -> Option<u16> {
    let sign = ((bits >> 16) & 0x8000) as u16;
    let exp = ((bits >> 23) & 0xff) as i32;
    let man = bits & 0x7f_ffff;
    if exp == 255 {
        if man != 0 {
            return None; // NaN: any NaN is fine
        }
        return Some(sign | 0x7c00);
    }
    // value = sig * 2^(e)  with integer sig
    let (sig, e) = if exp == 0 { (man as u64, -149) } else { ((man | 0x80_0000) as u64, exp - 150) };
    if sig == 0 {
        return Some(sign);
    }
    // candidate half values: value = m * 2^q where q = max(floor(log2 v) - 10, -24)
    let top = 63 - sig.leading_zeros() as i32 + e; // floor(log2 v)
    let q = std::cmp::max(top - 10, -24);
    // m = round(sig * 2^(e-q))
    let sh = q - e;
    let m = if sh <= 0 {
        sig << (-sh) as u32
    } else if sh > 60 {
        0
    } else {
        let fl = sig >> sh;
        let rem = sig & ((1u64 << sh) - 1);
        let half = 1u64 << (sh - 1);
        if rem > half || (rem == half && fl & 1 == 1) { fl + 1 } else { fl }
    };
    // assemble; carries propagate naturally
    let (m, q) = if m == 2048 { (1024, q + 1) } else { (m, q) };
    if m < 1024 {
        // subnormal (q == -24)
        return Some(sign | m as u16);
    }
    let exp16 = q + 10 + 15;
    if exp16 >= 31 {
        return Some(sign | 0x7c00);
    }
    Some(sign | ((exp16 as u16) << 10) | (m as u16 - 1024))
}

/// The exact f32 bits of a half (non NaN).
pub fn half_to_f32(h: u16) -> Option<u32> {
    let e = ((h >> 10) & 0x1f) as i32;
    let m = (h & 0x3ff) as f64;
    let v = if e == 31 {
        if m != 0.0 {
            return None;
        }
        f64::INFINITY
    } else if e == 0 {
        m * 2f64.powi(-24)
    } else {
        (1024.0 + m) * 2f64.powi(e - 25)
    };
    let v = v as f32;
    Some(v.to_bits() | (((h & 0x8000) as u32) << 16))
}
