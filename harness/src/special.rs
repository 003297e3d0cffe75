//! The special files: (attributes) data and the weak signature.
use crate::refm;
use num_bigint::BigUint;

pub fn crc32(d: &[u8]) -> u32 {
    let mut c = !0u32;
    for b in d {
        c ^= *b as u32;
        for _ in 0..8 {
            c = if c & 1 != 0 { (c >> 1) ^ 0xEDB8_8320 } else { c >> 1 };
        }
    }
    !c
}

pub type Ent = (u32, u64, [u8; 16], bool);

pub fn encode(flags: u32, e: &[Ent]) -> Vec<u8> {
    let mut d = 100u32.to_le_bytes().to_vec();
    d.extend_from_slice(&flags.to_le_bytes());
    if flags & 1 != 0 {
        e.iter().for_each(|x| d.extend_from_slice(&x.0.to_le_bytes()));
    }
    if flags & 2 != 0 {
        e.iter().for_each(|x| d.extend_from_slice(&x.1.to_le_bytes()));
    }
    if flags & 4 != 0 {
        e.iter().for_each(|x| d.extend_from_slice(&x.2));
    }
    if flags & 8 != 0 {
        let mut bits = vec![0u8; e.len().div_ceil(8)];
        for (i, x) in e.iter().enumerate() {
            if x.3 {
                bits[i / 8] |= 1 << (i % 8);
            }
        }
        d.extend_from_slice(&bits);
    }
    d
}
pub fn key() -> (BigUint, BigUint) {
    let h = |s: &str| BigUint::parse_bytes(s.as_bytes(), 16).unwrap();
    let n = h("92627704bfb882cc0523b90cb1ac0459272175968d025eda47dd7c49371bf8faeb0e0a92167557ad51b78ccb68c5426290ee9fb14bc118e430349ea4ed6ad837");
    let p = h("cb96ae248a18c002c35f3fad555f52b4e1b3dd79a1d2811f5025af7bcc555cd9");
    let q = &n / &p;
    let one = BigUint::from(1u32);
    let phi = (&p - &one) * (&q - &one);
    (n, BigUint::from(65537u32).modinv(&phi).unwrap())
}
/// Raw private-key operation on a 64-byte block; the result in the stored (little-endian) order.
pub fn private(block: &[u8; 64]) -> Vec<u8> {
    let (n, d) = key();
    let s = BigUint::from_bytes_be(block).modpow(&d, &n);
    let mut v = s.to_bytes_le();
    v.resize(64, 0);
    v
}
pub const INFO: [u8; 18] = [0x30, 0x20, 0x30, 0x0C, 0x06, 0x08, 0x2A, 0x86, 0x48, 0x86, 0xF7, 0x0D, 0x02, 0x05, 0x05, 0x00, 0x04, 0x10];
pub fn padded(hash: &[u8; 16]) -> [u8; 64] {
    let mut b = [0xFFu8; 64];
    b[0] = 0;
    b[1] = 1;
    b[29] = 0;
    b[30..48].copy_from_slice(&INFO);
    b[48..].copy_from_slice(hash);
    b
}


/// Sign an archive that holds an empty 72-byte signature file at `sp`.
pub fn weak_sign(bytes: &mut [u8], sp: usize) {
    bytes[sp..sp + 72].fill(0);
    let h = refm::md5(bytes);
    bytes[sp + 8..sp + 72].copy_from_slice(&private(&padded(&h)));
}
