use generated::pk::s::S;
use zserio::ztype::ZserioPackableObject;
use zserio::vendor::{BitReader, BitWriter};

#[allow(dead_code)]
fn encode(s: &S) -> Vec<u8> {
    let mut w = BitWriter::new();
    s.zserio_write(&mut w).unwrap();
    w.close().unwrap();
    w.data().to_vec()
}

fn main() {
    assert_eq!(encode(&S { v: 1, rest: vec![2, 3] }), [1, 2, 3]);
}
