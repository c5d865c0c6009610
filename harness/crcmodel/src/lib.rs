//! Stand-in for the `crc` crate inside the symbolic build: the checksum of a byte string is asked
//! of the symbolic engine (`rs_crc`: CRC-32 on concrete bytes, a collision-free function otherwise).
//! Any algorithm other than CRC-32/ISO-HDLC is a different function of the content.

pub use crc_catalog::*;

extern "C" {
    fn rs_crc(p: *const u8, n: usize) -> u32;
}


pub struct Crc<W: crc_catalog::Width> {
    pub algorithm: &'static Algorithm<W>,
}
pub struct Digest<'a, W: crc_catalog::Width> {
    crc: &'a Crc<W>,
    data: Vec<u8>,
    init: W,
}
impl<'a> Clone for Digest<'a, u32> {
    fn clone(&self) -> Self {
        Digest { crc: self.crc, data: self.data.clone(), init: self.init }
    }
}
fn sum(a: &Algorithm<u32>, init: u32, data: &[u8]) -> u32 {
    let k = &CRC_32_ISO_HDLC;
    let same = a.width == k.width && a.poly == k.poly && a.init == k.init && a.refin == k.refin && a.refout == k.refout && a.xorout == k.xorout && init == a.init;
    if same {
        return unsafe { rs_crc(data.as_ptr(), data.len()) };
    }
    let mut v = Vec::with_capacity(data.len() + 20);
    v.extend_from_slice(data);
    v.extend_from_slice(&a.poly.to_le_bytes());
    v.extend_from_slice(&init.to_le_bytes());
    v.extend_from_slice(&a.xorout.to_le_bytes());
    v.extend_from_slice(&[a.width, a.refin as u8, a.refout as u8]);
    unsafe { rs_crc(v.as_ptr(), v.len()) }
}
impl Crc<u32> {
    pub const fn new(algorithm: &'static Algorithm<u32>) -> Self {
        Crc { algorithm }
    }
    pub fn checksum(&self, bytes: &[u8]) -> u32 {
        sum(self.algorithm, self.algorithm.init, bytes)
    }
    pub fn digest(&self) -> Digest<'_, u32> {
        self.digest_with_initial(self.algorithm.init)
    }
    pub fn digest_with_initial(&self, init: u32) -> Digest<'_, u32> {
        Digest { crc: self, data: Vec::new(), init }
    }
}
impl<'a> Digest<'a, u32> {
    pub fn update(&mut self, bytes: &[u8]) {
        self.data.extend_from_slice(bytes);
    }
    pub fn finalize(self) -> u32 {
        sum(self.crc.algorithm, self.init, &self.data)
    }
}
