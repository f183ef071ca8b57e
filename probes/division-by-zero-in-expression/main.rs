use generated::pk::s::S;
use zserio::ztype::ZserioPackableObject;
use zserio::vendor::{BitReader, BitWriter};

#[allow(dead_code)]
fn encode(s: &S) -> Vec<u8> {
    let mut w = BitWriter::new();
    s.zserio_write(&mut w).unwrap();
    w.close().unwrap();
    w.data().to_vec()
}

fn main() {
    let mut s = S::default();
    let _ = s.zserio_read(&mut BitReader::new(&[1, 0, 0]));
}
