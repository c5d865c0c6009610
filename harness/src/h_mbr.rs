use crate::common::*;
use crate::dev::{any_kind, Dev};
use crate::rt::*;
use gpt::mbr::*;

fn eq_rec(p: &PartRecord, b: &[u8]) -> bool {
    (p.boot_indicator == b[0]) & (p.start_head == b[1]) & (p.start_sector == b[2]) & (p.start_track == b[3]) & (p.os_type == b[4]) & (p.end_head == b[5]) & (p.end_sector == b[6]) & (p.end_track == b[7])
        & (p.lb_start == u32at(b, 8)) & (p.lb_size == u32at(b, 12))
}
/// decoding and encoding of arbitrary bytes. bits: 0 block size, 1 from a device
pub fn codec(case: u64) {
    let l = lbs(case) as usize;
    let mut v = vec![0u8; l];
    let b: [u8; 512] = nd_arr();
    v[..512].copy_from_slice(&b);
    if l > 512 { let rest: [u8; 3584] = nd_arr(); v[512..].copy_from_slice(&rest); }
    let good = (b[510] == 0x55) & (b[511] == 0xaa);
    let r = if case & 2 == 0 { ProtectiveMBR::from_bytes(&v, lb(case)) } else {
        let dev = Dev::new(10 * l as u64);
        dev.put(0, &v);
        let pos = nd_u64();
        dev.set_pos(pos);
        let r = ProtectiveMBR::from_disk(&mut dev.clone(), lb(case));
        check(dev.pos() == pos, "the device position is kept");
        check(dev.0.borrow().write_calls == 0, "nothing written");
        r
    };
    match r {
        Ok(m) => {
            reach("ok");
            check(good, "accepted only with the boot signature");
            check(m.to_bytes() == b, "encoding gives back the same 512 bytes");
            check(m.bootcode()[..] == b[..440], "boot code");
            check(m.disk_signature()[..] == b[440..444], "disk signature");
            for i in 0..4 { match m.partition(i) { Some(p) => { check(eq_rec(&p, &b[446 + 16 * i..462 + 16 * i]), "partition record fields"); check(p.to_bytes() == b[446 + 16 * i..462 + 16 * i], "partition record bytes"); } None => check(false, "four records") } }
            check(m.partition(4).is_none() && m.partition(usize::MAX).is_none(), "only four records");
        }
        Err(MBRError::InvalidMBRSignature) => { reach("sig"); check(!good, "refused only without the boot signature"); }
        Err(_) => check(false, "unexpected error"),
    }
}
/// buffers and devices of the wrong size
pub fn lengths(case: u64) {
    let n = pick(nd_below(14)) as usize;
    let n = [0usize, 1, 15, 16, 17, 440, 511, 512, 513, 1024, 4095, 4096, 4097, 8192][n];
    let mut v = vec![0u8; n];
    if n >= 512 { v[510] = 0x55; v[511] = 0xaa; }
    check(ProtectiveMBR::from_bytes(&v, lb(case)).is_ok() == (n == lbs(case) as usize), "exactly one block is decoded");
    check(PartRecord::from_bytes(&v).is_ok() == (n == 16), "a record is 16 bytes");
    let len = nd_u64();
    let dev = Dev::new(len);
    dev.put(0, &{ let mut b = [0u8; 512]; b[510] = 0x55; b[511] = 0xaa; b });
    assume((len % 256 == 0) | (len > 4096));
    check(ProtectiveMBR::from_disk(&mut dev.clone(), lb(case)).is_ok() == (len >= lbs(case)), "the device must hold a block");
    check(read_bootcode(&mut dev.clone()).is_ok() == (len >= 440), "boot code needs 440 bytes");
    check(read_disk_signature(&mut dev.clone()).is_ok() == (len >= 444), "signature needs 444 bytes");
    reach("done");
}
fn arbitrary() -> (ProtectiveMBR, [u8; 512]) {
    let mut b: [u8; 512] = nd_arr();
    b[510] = 0x55;
    b[511] = 0xaa;
    match ProtectiveMBR::from_bytes(&b, Lb::Lb512) { Ok(m) => (m, b), Err(_) => { check(false, "decodes"); stop() } }
}
/// updates change exactly the named bytes. bits 1-3: operation
pub fn update(case: u64) {
    let (m, b) = arbitrary();
    let old: [u8; 600] = nd_arr();
    let dev = Dev::new(1 << 20);
    dev.put(0, &old);
    let pos = nd_u64();
    dev.set_pos(pos);
    let mut d = dev.clone();
    let mut boot = [0u8; 440];
    boot.copy_from_slice(&b[..440]);
    let sig = [b[0], b[1], b[2], b[3]];
    let mut want = old;
    let range = match (case >> 1) & 7 {
        0 => { match m.overwrite_lba0(&mut d) { Ok(n) => check(n == 512, "512 bytes"), Err(_) => check(false, "works") } want[..512].copy_from_slice(&b); (0, 512) }
        1 => { match m.update_conservative(&mut d) { Ok(n) => check(n == 66, "66 bytes"), Err(_) => check(false, "works") } want[446..512].copy_from_slice(&b[446..512]); (446, 512) }
        2 => { check(write_bootcode(&mut d, &boot).is_ok(), "works"); want[..440].copy_from_slice(&b[..440]); (0, 440) }
        3 => { check(write_disk_signature(&mut d, &sig).is_ok(), "works"); want[440..444].copy_from_slice(&sig); (440, 444) }
        4 => { match read_bootcode(&mut d) { Ok(x) => check(x[..] == old[..440], "the boot code"), Err(_) => check(false, "works") } (0, 0) }
        _ => { match read_disk_signature(&mut d) { Ok(x) => check(x[..] == old[440..444], "the signature"), Err(_) => check(false, "works") } (0, 0) }
    };
    check(dev.pos() == pos, "the device position is kept");
    check(dev.image().read_at(0, 600) == want, "exactly the named bytes change");
    for (o, w) in dev.writes() { check((o >= range.0) & (o + w.len() as u64 <= range.1), "nothing else is written"); }
    if range.1 > 0 { check(dev.0.borrow().flushed_at == dev.n_writes() && dev.0.borrow().flushes > 0, "flushed"); }
    reach("done");
}
/// in-memory changes
pub fn set(case: u64) {
    let (mut m, mut b) = arbitrary();
    match (case >> 1) & 3 {
        0 => { let c: [u8; 440] = nd_arr(); m.set_bootcode(c); b[..440].copy_from_slice(&c); }
        1 => { let c: [u8; 4] = nd_arr(); m.set_disk_signature(c); b[440..444].copy_from_slice(&c); }
        2 => {
            let r: [u8; 16] = nd_arr();
            let rec = match PartRecord::from_bytes(&r) { Ok(r) => r, Err(_) => { check(false, "a record is 16 bytes"); return; } };
            check(eq_rec(&rec, &r), "fields");
            let i = nd_u64() as usize;
            match m.set_partition(i, rec) {
                Some(o) => { check(i < 4, "four records"); let i = pick(i as u64) as usize; check(eq_rec(&o, &b[446 + 16 * i..462 + 16 * i]), "the previous record"); b[446 + 16 * i..462 + 16 * i].copy_from_slice(&r); }
                None => check(i >= 4, "four records"),
            }
        }
        _ => {
            let n = nd_u32();
            let full = nd_bool();
            let p = if full { ProtectiveMBR::new() } else { ProtectiveMBR::with_lb_size(n) };
            let n = if full { u32::MAX } else { n };
            let mut w = [0u8; 512];
            w[446..462].copy_from_slice(&[0, 0, 2, 0, 0xee, 0xff, 0xff, 0xff, 1, 0, 0, 0, n as u8, (n >> 8) as u8, (n >> 16) as u8, (n >> 24) as u8]);
            w[510] = 0x55;
            w[511] = 0xaa;
            check(p.to_bytes() == w, "one protective partition from block 1 of the given size");
            reach("done");
            return;
        }
    }
    check(m.to_bytes() == b, "exactly the named bytes change");
    reach("done");
}
/// device errors are reported. bits 1-3: operation
pub fn fault(case: u64) {
    let m = ProtectiveMBR::with_lb_size(nd_u32());
    let dev = Dev::new(1 << 20);
    dev.put(0, &m.to_bytes());
    let k = nd_u64();
    assume(k < 30);
    { let mut s = dev.0.borrow_mut(); s.fail_at = k; s.kind = any_kind(); s.chunk = 300; }
    let mut d = dev.clone();
    let ok = match (case >> 1) & 7 {
        0 => m.overwrite_lba0(&mut d).is_ok(),
        1 => m.update_conservative(&mut d).is_ok(),
        2 => write_bootcode(&mut d, &[7; 440]).is_ok(),
        3 => write_disk_signature(&mut d, &[7; 4]).is_ok(),
        4 => read_bootcode(&mut d).is_ok(),
        5 => read_disk_signature(&mut d).is_ok(),
        _ => ProtectiveMBR::from_disk(&mut d, lb(case)).is_ok(),
    };
    if ok { reach("ok"); } else { reach("err"); }
    check(ok == dev.0.borrow().failed.is_none(), "an operation succeeds iff every device access did");
}
