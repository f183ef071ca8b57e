//! Drives generated types: values are built from and dumped as whitespace-separated tokens, commands come one per line.
use std::fmt::Write as _;
use std::io::{BufRead, Read, Write as _};
use std::panic::{catch_unwind, AssertUnwindSafe};
pub use zserio::vendor::{BitReader, BitWriter};
pub use zserio::ztype::{BytesType, ExternType};
pub use zserio::{ZserioError, ZserioPackableObject};

pub mod alloc;

pub struct Tok<'a> {
    it: std::iter::Peekable<std::str::SplitAsciiWhitespace<'a>>,
}
impl<'a> Tok<'a> {
    pub fn new(s: &'a str) -> Tok<'a> {
        Tok { it: s.split_ascii_whitespace().peekable() }
    }
    pub fn next(&mut self) -> &'a str {
        self.it.next().expect("GLUE: token expected")
    }
    pub fn opt(&mut self) -> Option<&'a str> {
        self.it.next()
    }
    pub fn peek(&mut self) -> &'a str {
        self.it.peek().copied().unwrap_or("")
    }
    pub fn expect(&mut self, s: &str) {
        let t = self.next();
        assert!(t == s, "GLUE: expected {s}, got {t}");
    }
    pub fn num<T: std::str::FromStr>(&mut self) -> T {
        let t = self.next();
        t.parse().unwrap_or_else(|_| panic!("GLUE: bad number {t}"))
    }
    /// "( value )" or "( ? )", which leaves the member as it is.
    pub fn member<T: G>(&mut self, x: &mut T) {
        self.expect("(");
        if self.peek() == "?" {
            self.next();
        } else {
            x.b(self);
        }
        self.expect(")");
    }
}

/// Build from tokens and dump to tokens.
pub trait G {
    fn b(&mut self, t: &mut Tok);
    fn d(&self, o: &mut String);
}
pub fn member<T: G>(x: &T, o: &mut String) {
    o.push_str("( ");
    x.d(o);
    o.push_str(") ");
}
macro_rules! ints { ($($t:ty)*) => { $(
    impl G for $t {
        fn b(&mut self, t: &mut Tok) { *self = t.num(); }
        fn d(&self, o: &mut String) { let _ = write!(o, "{} ", self); }
    } )* } }
ints!(u8 u16 u32 u64 i8 i16 i32 i64 usize u128 i128);
impl G for bool {
    fn b(&mut self, t: &mut Tok) {
        *self = t.next() == "1";
    }
    fn d(&self, o: &mut String) {
        o.push_str(if *self { "1 " } else { "0 " });
    }
}
impl G for f32 {
    fn b(&mut self, t: &mut Tok) {
        *self = f32::from_bits(u32::from_str_radix(&t.next()[1..], 16).unwrap());
    }
    fn d(&self, o: &mut String) {
        let _ = write!(o, "f{:08x} ", self.to_bits());
    }
}
impl G for f64 {
    fn b(&mut self, t: &mut Tok) {
        *self = f64::from_bits(u64::from_str_radix(&t.next()[1..], 16).unwrap());
    }
    fn d(&self, o: &mut String) {
        let _ = write!(o, "d{:016x} ", self.to_bits());
    }
}
pub fn unhex(s: &str) -> Vec<u8> {
    if s == "-" {
        return vec![];
    }
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
pub fn hex(b: &[u8], o: &mut String) {
    for x in b {
        let _ = write!(o, "{x:02x}");
    }
}
impl G for String {
    fn b(&mut self, t: &mut Tok) {
        *self = String::from_utf8(unhex(&t.next()[1..])).unwrap();
    }
    fn d(&self, o: &mut String) {
        o.push('s');
        hex(self.as_bytes(), o);
        o.push(' ');
    }
}
impl G for &str {
    fn b(&mut self, _: &mut Tok) {}
    fn d(&self, o: &mut String) {
        self.to_string().d(o)
    }
}
impl G for ExternType {
    fn b(&mut self, t: &mut Tok) {
        let (n, h) = t.next()[1..].split_once(':').unwrap();
        *self = ExternType { bit_size: n.parse().unwrap(), data_blob: unhex(h) };
    }
    fn d(&self, o: &mut String) {
        let _ = write!(o, "e{}:", self.bit_size);
        hex(&self.data_blob, o);
        o.push(' ');
    }
}
impl G for BytesType {
    fn b(&mut self, t: &mut Tok) {
        let (n, h) = t.next()[1..].split_once(':').unwrap();
        *self = BytesType { byte_size: n.parse().unwrap(), data_blob: unhex(h) };
    }
    fn d(&self, o: &mut String) {
        let _ = write!(o, "b{}:", self.byte_size);
        hex(&self.data_blob, o);
        o.push(' ');
    }
}
impl<T: G + Default> G for Vec<T> {
    fn b(&mut self, t: &mut Tok) {
        let n: usize = t.next()[1..].parse().unwrap();
        self.clear();
        for _ in 0..n {
            let mut x = T::default();
            x.b(t);
            self.push(x);
        }
    }
    fn d(&self, o: &mut String) {
        let _ = write!(o, "[{} ", self.len());
        for x in self {
            x.d(o);
        }
    }
}
impl<T: G + Default> G for Option<T> {
    fn b(&mut self, t: &mut Tok) {
        if t.next() == "-" {
            *self = None;
        } else {
            let mut x = T::default();
            x.b(t);
            *self = Some(x);
        }
    }
    fn d(&self, o: &mut String) {
        match self {
            None => o.push_str("- "),
            Some(x) => {
                o.push_str("+ ");
                x.d(o)
            }
        }
    }
}

type R<T> = zserio::Result<T>;

/// What the commands need from a compound type.
pub trait C: G {
    /// Sets the parameters.
    fn p(&mut self, _t: &mut Tok) {}
    /// Calls the functions.
    fn f(&self, _i: usize, _o: &mut String) -> bool {
        false
    }
}
pub trait Dy {
    fn build(&mut self, t: &mut Tok);
    fn dump(&self, o: &mut String);
    fn params(&mut self, t: &mut Tok);
    fn func(&self, i: usize, o: &mut String) -> bool;
    fn read(&mut self, r: &mut BitReader) -> R<()>;
    fn write(&self, w: &mut BitWriter) -> R<()>;
    fn size(&self, p: u64) -> R<u64>;
    fn boxed_clone(&self) -> Box<dyn Dy>;
    fn to_bytes(&self) -> R<Vec<u8>>;
    fn to_writer(&self, w: &mut dyn std::io::Write) -> R<()>;
    fn from_bytes(&self, b: &[u8]) -> R<Box<dyn Dy>>;
    fn from_reader(&self, b: &mut dyn Read) -> R<Box<dyn Dy>>;
    fn from_file(&self, b: &str) -> R<Box<dyn Dy>>;
}
impl<T: C + ZserioPackableObject + Clone + Default + 'static> Dy for T {
    fn build(&mut self, t: &mut Tok) {
        G::b(self, t)
    }
    fn dump(&self, o: &mut String) {
        G::d(self, o)
    }
    fn params(&mut self, t: &mut Tok) {
        C::p(self, t)
    }
    fn func(&self, i: usize, o: &mut String) -> bool {
        C::f(self, i, o)
    }
    fn read(&mut self, r: &mut BitReader) -> R<()> {
        self.zserio_read(r)
    }
    fn write(&self, w: &mut BitWriter) -> R<()> {
        self.zserio_write(w)
    }
    fn size(&self, p: u64) -> R<u64> {
        self.zserio_bitsize(p)
    }
    fn boxed_clone(&self) -> Box<dyn Dy> {
        Box::new(self.clone())
    }
    fn to_bytes(&self) -> R<Vec<u8>> {
        zserio::to_bytes(self)
    }
    fn to_writer(&self, w: &mut dyn std::io::Write) -> R<()> {
        zserio::to_writer(w, self)
    }
    fn from_bytes(&self, b: &[u8]) -> R<Box<dyn Dy>> {
        Ok(Box::new(zserio::from_bytes::<T>(b)?))
    }
    fn from_reader(&self, b: &mut dyn Read) -> R<Box<dyn Dy>> {
        Ok(Box::new(zserio::from_reader::<_, T>(b)?))
    }
    fn from_file(&self, b: &str) -> R<Box<dyn Dy>> {
        Ok(Box::new(zserio::from_file::<_, T>(b)?))
    }
}

pub type New = fn() -> Box<dyn Dy>;
pub fn new<T: C + ZserioPackableObject + Clone + Default + 'static>() -> Box<dyn Dy> {
    Box::new(T::default())
}

fn clean(s: &str) -> String {
    s.chars().map(|c| if c == '|' || c == '\n' || c == ' ' { '_' } else { c }).take(160).collect()
}
/// Runs a step; None and a note in the output if it failed.
fn step<T>(o: &mut String, what: &str, f: impl FnOnce() -> R<T>) -> Option<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(x)) => Some(x),
        Ok(Err(e)) => {
            let _ = write!(o, "{what}!err {}|", clean(&e.to_string()));
            None
        }
        Err(e) => {
            let m = if let Some(s) = e.downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = e.downcast_ref::<String>() {
                s.clone()
            } else {
                "?".into()
            };
            if m.starts_with("GLUE") {
                eprintln!("{m}");
                std::process::exit(77);
            }
            let _ = write!(o, "{what}!panic {}|", clean(&m));
            None
        }
    }
}

/// Writes at bit position s (after s zero bits); returns number of bits and the bytes.
fn write_at(x: &dyn Dy, s: u64) -> R<(u64, Vec<u8>)> {
    let mut w = BitWriter::new();
    for _ in 0..s {
        w.write_bool(false)?;
    }
    x.write(&mut w)?;
    let n = w.bit_count();
    w.close()?;
    Ok((n as u64 - s, w.data().clone()))
}
fn do_write(o: &mut String, tag: &str, x: &dyn Dy, s: u64) -> Option<(u64, Vec<u8>)> {
    let r = step(o, tag, || write_at(x, s))?;
    let _ = write!(o, "{tag} {} ", r.0);
    if r.1.is_empty() {
        o.push('-');
    }
    hex(&r.1, o);
    o.push('|');
    Some(r)
}
fn do_size(o: &mut String, tag: &str, x: &dyn Dy, s: u64) {
    if let Some(n) = step(o, tag, || x.size(s)) {
        let _ = write!(o, "{tag} {n}|");
    }
}
fn do_read(o: &mut String, tag: &str, x: &mut dyn Dy, r: &mut BitReader, s: u64) -> bool {
    alloc::reset();
    let ok = step(o, tag, || x.read(r));
    let peak = alloc::largest();
    if ok.is_some() {
        let _ = write!(o, "{tag} {} {peak} ", r.position() - s);
        x.dump(o);
        o.push('|');
        return true;
    }
    let _ = write!(o, "{tag}alloc {peak}|");
    false
}

struct Short<'a> {
    data: &'a [u8],
    chunk: usize,
}
impl Read for Short<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.chunk).min(self.data.len());
        b[..n].copy_from_slice(&self.data[..n]);
        self.data = &self.data[n..];
        Ok(n)
    }
}
struct ShortW {
    data: Vec<u8>,
    chunk: usize,
    limit: usize,
}
impl std::io::Write for ShortW {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.data.len() >= self.limit {
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "full"));
        }
        let n = b.len().min(self.chunk);
        self.data.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn command(types: &[New], consts: &[fn(&mut String)], t: &mut Tok, o: &mut String) {
    let op = t.next();
    if op == "K" {
        // value of a constant
        let i: usize = t.num();
        let mut d = String::new();
        if step(o, "K", || Ok(consts[i](&mut d))).is_some() {
            let _ = write!(o, "K {d}|");
        }
        return;
    }
    let ty: usize = t.num();
    let new = types.get(ty).copied();
    match op {
        // X type start tokens: build, write, size, read back, write again
        "X" => {
            let s: u64 = t.num();
            let mut x = new.unwrap()();
            x.build(t);
            let mut pt = String::new();
            x.dump(&mut pt);
            let _ = write!(o, "B {pt}|");
            do_size(o, "Z", &*x, s);
            if let Some((_, b)) = do_write(o, "W", &*x, s) {
                let mut y = new.unwrap()();
                // parameters come first in the dump
                y.params(&mut Tok::new(&pt));
                let mut r = BitReader::new(&b);
                r.skip(s).unwrap();
                if do_read(o, "D", &mut *y, &mut r, s) {
                    do_write(o, "V", &*y, s);
                    do_size(o, "U", &*y, s);
                }
            }
            let mut i = 0;
            loop {
                let mut d = String::new();
                match step(o, "F", || Ok(x.func(i, &mut d))) {
                    Some(false) => break,
                    Some(true) => {
                        let _ = write!(o, "F {d}|");
                    }
                    None => {}
                }
                i += 1;
            }
        }
        // D type start hex params: read arbitrary bytes, write the result again
        "D" => {
            let s: u64 = t.num();
            let b = unhex(t.next());
            let mut y = new.unwrap()();
            y.params(t);
            let mut r = BitReader::new(&b);
            r.skip(s).unwrap();
            if do_read(o, "D", &mut *y, &mut r, s) {
                do_write(o, "V", &*y, s);
                do_size(o, "U", &*y, s);
            }
        }
        // R type start hex params tokens: read into an object that holds other data
        "R" => {
            let s: u64 = t.num();
            let b = unhex(t.next());
            let rest: String = t.it.clone().collect::<Vec<_>>().join(" ");
            let (p, old) = rest.split_once(';').unwrap();
            let mut y = new.unwrap()();
            y.build(&mut Tok::new(old));
            y.params(&mut Tok::new(p));
            let mut r = BitReader::new(&b);
            r.skip(s).unwrap();
            if do_read(o, "D", &mut *y, &mut r, s) {
                do_write(o, "V", &*y, s);
                do_size(o, "U", &*y, s);
            }
        }
        // S type positions tokens: size and number of bits written at several positions
        "S" => {
            let ps: Vec<u64> = t.next().split(',').map(|x| x.parse().unwrap()).collect();
            let mut x = new.unwrap()();
            x.build(t);
            for p in ps {
                do_size(o, "Z", &*x, p);
                if let Some((n, _)) = step(o, "W", || write_at(&*x, p)) {
                    let _ = write!(o, "N {n}|");
                }
            }
        }
        // Q - hex (type params ;)*: several objects from one stream
        "Q" => {
            let b = unhex(t.next());
            let rest: String = t.it.clone().collect::<Vec<_>>().join(" ");
            let mut r = BitReader::new(&b);
            let mut reuse: Vec<Option<Box<dyn Dy>>> = (0..types.len()).map(|_| None).collect();
            for part in rest.split(';').filter(|x| !x.trim().is_empty()) {
                let mut t = Tok::new(part);
                let ty: usize = t.num();
                let again: u8 = t.num();
                // again: decode into the object used last for this type
                let mut y = match reuse[ty].take() {
                    Some(y) if again == 1 => y,
                    _ => types[ty](),
                };
                y.params(&mut t);
                let p = r.position();
                if !do_read(o, "D", &mut *y, &mut r, p) {
                    break;
                }
                reuse[ty] = Some(y);
            }
        }
        // I type chunk file tokens: the entry points for whole objects
        "I" => {
            let chunk: usize = t.num();
            let path = t.next();
            let mut x = new.unwrap()();
            x.build(t);
            if let Some(b) = step(o, "B", || x.to_bytes()) {
                let _ = write!(o, "B -");
                hex(&b, o);
                o.push('|');
                let mut w = ShortW { data: vec![], chunk, limit: usize::MAX };
                if step(o, "W", || x.to_writer(&mut w)).is_some() {
                    let _ = write!(o, "W -");
                    hex(&w.data, o);
                    o.push('|');
                }
                if !b.is_empty() {
                    let mut w = ShortW { data: vec![], chunk, limit: b.len() - 1 };
                    w.chunk = 1;
                    if step(o, "L", || x.to_writer(&mut w)).is_some() {
                        o.push_str("L ok|");
                    }
                }
                let mut long = b.clone();
                long.extend_from_slice(&[0xa5; 3]);
                std::fs::write(path, &long).unwrap();
                let ways: [(&str, Box<dyn Fn() -> R<Box<dyn Dy>>>); 5] = [
                    ("b", Box::new(|| x.from_bytes(&b))),
                    ("t", Box::new(|| x.from_bytes(&long))),
                    ("r", Box::new(|| x.from_reader(&mut Short { data: &b, chunk }))),
                    ("s", Box::new(|| x.from_reader(&mut Short { data: &long, chunk }))),
                    ("f", Box::new(|| x.from_file(path))),
                ];
                for (n, f) in ways {
                    if let Some(y) = step(o, n, f) {
                        let _ = write!(o, "{n} ");
                        y.dump(o);
                        o.push('|');
                    }
                }
                if !b.is_empty() {
                    let cut = &b[..b.len() - 1];
                    if step(o, "c", || x.from_reader(&mut Short { data: cut, chunk })).is_some() {
                        o.push_str("c ok|");
                    }
                }
                let _ = std::fs::remove_file(path);
                if step(o, "m", || x.from_file(path)).is_some() {
                    o.push_str("m ok|");
                }
            }
        }
        // C - chunk: the allocation chunk
        "C" => {
            zserio::set_array_alloc_chunk(t.num());
            let _ = write!(o, "C {}|", zserio::get_array_alloc_chunk());
        }
        _ => {
            eprintln!("GLUE: bad command {op}");
            std::process::exit(77)
        }
    }
}

/// Reads commands from stdin, one per line, answers on stdout.
pub fn main(types: &[New], consts: &[fn(&mut String)]) {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    let mut out = std::io::BufWriter::new(stdout.lock());
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let mut o = String::new();
        command(types, consts, &mut Tok::new(&line), &mut o);
        o.push('\n');
        out.write_all(o.as_bytes()).unwrap();
        out.flush().unwrap();
    }
}
