use generated::pk::s::S;
use zserio::ztype::ZserioPackableObject;
use zserio::vendor::{BitReader, BitWriter};

#[allow(dead_code)]
fn encode(s: &S) -> Vec<u8> {
    let mut w = BitWriter::new();
    s.zserio_write(&mut w).unwrap();
    w.close().unwrap();
    w.data().to_vec()
}

fn main() {
    // one bit for f, the presence bit, padding, x
    assert_eq!(encode(&S { f: true, x: Some(0xAB) }), [0b1100_0000, 0xAB]);
    // one bit for f, the presence bit
    assert_eq!(encode(&S { f: true, x: None }), [0b1000_0000]);
}
