use crate::common::*;
use crate::dev::Dev;
use crate::rt::*;
use gpt::header::HeaderError;

fn craft(g: &Geo, dev: &Dev, at: u64, id: &Uuid, me: u64, other: u64, ps: u64, t: &[u8], hdelta: u32, tdelta: u32) {
    let mut h = raw_header(me, other, g.fu, g.lu, id, ps, g.num, 128, crc32(t) ^ tdelta);
    let c = u32at(&h, 16) ^ hdelta;
    h[16..20].copy_from_slice(&c.to_le_bytes());
    dev.put(ps * g.lbs, t);
    dev.put(at * g.lbs, &h);
}
/// which copy is used, and when a disk is refused. bits: 0 block size, 1 require both headers, 2 few entries, 3 tables without partitions, 4 the device has grown and the old backup is still where it was, 5 damaged signatures, 6 all positions in the headers but the one of the table arbitrary
pub fn policy(case: u64) {
    let num = if case & 4 != 0 { 5 } else { 128 };
    let g = nd_geo(case, num);
    let grown = case & 16 != 0;
    let len = if grown { let n = nd_u64(); assume((n / g.lbs > g.bak + 1) & (n <= 1 << 60)); n } else { g.len };
    let dev = Dev::new(len);
    dev.0.borrow_mut().fill = 0x11;
    dev.set_pos(nd_u64());
    let (i1, i2) = (Uuid::from_bytes(nd_arr()), Uuid::from_bytes(nd_arr()));
    let (mut t1, mut t2) = (vec![0u8; num as usize * 128], vec![0u8; num as usize * 128]);
    let (e1, e2) = (raw_entry(&LINUX, &guid(1), nd_u64(), nd_u64(), 0), raw_entry(&LINUX, &guid(2), nd_u64(), nd_u64(), 0));
    let blank = case & 8 != 0;
    if !blank { t1[..128].copy_from_slice(&e1); t2[128..256].copy_from_slice(&e2); }
    let (d1, d2, c1, c2) = (nd_u32(), nd_u32(), nd_u32(), nd_u32());
    let wild = case & 64 != 0;
    let ([m1, o1, f1, l1], [m2, o2, f2, l2]) = if wild { ([nd_u64(), nd_u64(), nd_u64(), nd_u64()], [nd_u64(), nd_u64(), nd_u64(), nd_u64()]) } else { ([1, g.bak, g.fu, g.lu], [g.bak, 1, g.fu, g.lu]) };
    craft(&Geo { fu: f1, lu: l1, ..g }, &dev, 1, &i1, m1, o1, 2, &t1, d1, c1);
    craft(&Geo { fu: f2, lu: l2, ..g }, &dev, g.bak, &i2, m2, o2, g.bps, &t2, d2, c2);
    let both = case & 2 != 0;
    let (mut s1, mut s2) = (false, grown);
    if case & 32 != 0 {
        // damaged signatures
        s1 = nd_bool();
        s2 |= nd_bool();
        if s1 { dev.put(g.lbs + 3, &[0x2d]); }
        if s2 { dev.put(g.bak * g.lbs + 7, &[0x74]); }
    }
    let (v1, v2) = ((d1 == 0) & !s1, (d2 == 0) & !s2);
    match cfg(case).writable(nd_bool()).only_valid_headers(both).open_from_device(dev.clone()) {
        Ok(d) => {
            check(if both { v1 & v2 } else { v1 | v2 }, "opens only with the valid headers required");
            check(if v1 { c1 == 0 } else { c2 == 0 }, "never shows a table whose checksum does not match");
            check(d.primary_header().is_ok() == v1, "primary header reported valid iff it is");
            check(d.backup_header().is_ok() == v2, "backup header reported valid iff it is");
            match d.primary_header() { Err(HeaderError::InvalidGptSignature) => check(s1, "a missing primary header is reported"), Err(HeaderError::InvalidCRC32Checksum) => check(!s1, "a corrupted primary header is reported"), Err(_) => check(false, "the reason is reported"), Ok(_) => {} }
            match d.backup_header() { Err(HeaderError::InvalidGptSignature) => check(s2, "a missing backup header is reported"), Err(HeaderError::InvalidCRC32Checksum) => check(!s2, "a corrupted backup header is reported"), Err(_) => check(false, "the reason is reported"), Ok(_) => {} }
            check(*d.guid() == if v1 { i1 } else { i2 }, "the disk guid comes from the primary header if valid, else from the backup");
            check(*d.logical_block_size() == lb(case), "block size as configured");
            let p = d.partitions();
            check(p.len() == !blank as usize, "the table of that header");
            if v1 {
                reach("primary");
                if !blank { match p.get(&1) { Some(p) => check(p.part_guid == guid(1) && (p.first_lba == u64at(&e1, 32)) & (p.last_lba == u64at(&e1, 40)), "its partition"), None => check(false, "its partition id") } }
                if let Ok(h) = d.primary_header() { check((h.current_lba == m1) & (h.backup_lba == o1) & (h.first_usable == f1) & (h.last_usable == l1) & (h.part_start == 2), "its header"); check(d.header() == h, "the current header is the primary one"); }
            } else {
                reach("backup");
                if !blank { match p.get(&2) { Some(p) => check(p.part_guid == guid(2) && (p.first_lba == u64at(&e2, 32)) & (p.last_lba == u64at(&e2, 40)), "its partition"), None => check(false, "its partition id") } }
            }
            if let Ok(h) = d.backup_header() { check((h.current_lba == m2) & (h.backup_lba == o2) & (h.first_usable == f2) & (h.last_usable == l2) & (h.part_start == g.bps) & (h.disk_guid == i2), "backup header"); if !v1 { check(d.header() == h, "the current header is the backup one"); } }
        }
        Err(_) => {
            reach("refused");
            let ok = if both { v1 & v2 & (c1 == 0) } else if v1 { c1 == 0 } else { v2 & (c2 == 0) };
            check(!ok, "a disk with valid copies opens");
        }
    }
    check(dev.0.borrow().write_calls == 0 && dev.0.borrow().flushes == 0, "nothing written");
}

/// a header block with arbitrary fields and a right checksum
fn hostile(dev: &Dev, at: u64, n: u64, tcrc: u32, case: u64) -> (u32, u64) {
    let num = match n { 0..=3 => n as u32, 4 => 128, _ => { let x = nd_u32(); assume(x > 1 << 30); x } };
    let ps = nd_u64();
    let size = if case & 128 != 0 { nd_u32() } else { 128 };
    let h = raw_header(nd_u64(), nd_u64(), nd_u64(), nd_u64(), &Uuid::from_bytes(nd_arr()), ps, num, size, tcrc);
    dev.put(at, &h);
    (num, ps)
}
/// the known type with one byte arbitrary, or the unused type
fn ty(i: usize) -> Uuid { if i == 1 { return Uuid::nil(); } let mut b = LINUX.to_bytes_le(); b[0] = nd_u8(); Uuid::from_bytes_le(b) }
/// opens a device of any size with an arbitrary header and arbitrary entries.
/// bits: 0 block size, 1-3 number of entries, 4 the backup header instead of the primary, 7 arbitrary entry size
fn any(case: u64, len: u64) -> (Dev, Result<GptDisk<Dev>, GptError>) {
    let l = lbs(case);
    let n = (case >> 1) & 7;
    let dev = Dev::new(len);
    let cnt = match n { 0..=3 => n as usize, 4 => 128, _ => 2 };
    let mut t = vec![0u8; cnt * 128];
    for i in 0..cnt.min(3) {
        let k = if i == 2 && n == 4 { 127 } else { i };
        let mut e = raw_entry(&ty(i), &Uuid::from_bytes(nd_arr()), nd_u64(), nd_u64(), nd_u64());
        if i == 0 { for x in e[126..].iter_mut() { *x = nd_u8(); } for i in 0..35 { e[56 + 2 * i] = 0x41; } }
        t[k * 128..k * 128 + 128].copy_from_slice(&e);
    }
    let at = if case & 16 == 0 { l } else { (len / l - 1) * l };
    let (_, ps) = hostile(&dev, at, n, crc32(&t), case);
    if n == 4 { assume(len % l == 0); }
    if n > 4 { assume(ps <= 1 << 40); assume(len == ps * l + 512); }
    if case & 0x800 != 0 { assume((ps == 7) & (len >= 1 << 20)); }
    // place the entries where the header says
    if let Some(o) = ps.checked_mul(l) { dev.put(o, &t); }
    dev.set_pos(nd_u64());
    (dev.clone(), cfg(case).change_partition_count(case & 32 != 0).readonly_backup(case & 64 != 0).open_from_device(dev))
}
pub fn open_any(case: u64) {
    let l = lbs(case);
    let len = nd_u64();
    assume(len <= i64::MAX as u64);
    if case & 16 != 0 { assume(len >= 3 * l); }
    let (dev, r) = any(case, len);
    match r {
        Ok(d) => {
            reach("ok");
            let h = d.header();
            check(h.part_size == 128, "only the supported entry size");
            check((h.part_start as u128).wrapping_mul(l as u128) + (h.num_parts as u128).wrapping_mul(128) <= len as u128 || h.num_parts == 0, "the table lies on the device");
            observe(d.partitions().len() as u64);
            for p in d.partitions().values() { hash_part(p); let _ = (p.bytes_len(lb(case)), p.bytes_start(lb(case)), p.is_used()); }
        }
        Err(_) => reach("refused"),
    }
    check(dev.0.borrow().write_calls == 0, "nothing written");
}
/// a device of any size with no or one arbitrary block content at the header position
pub fn open_tiny(case: u64) {
    let l = lbs(case);
    let len = nd_u64();
    assume(len <= 4 * l);
    let dev = Dev::new(len);
    dev.put(l, &{ let b: [u8; 8] = *b"EFI PART"; b });
    check(cfg(case).open_from_device(dev.clone()).is_err(), "a device without a table is refused");
    check(gpt::header::read_header_from_arbitrary_device(&mut dev.clone(), lb(case)).is_err(), "no header");
    reach("refused");
    check(dev.0.borrow().write_calls == 0, "nothing written");
}
/// operations on an opened hostile disk never panic. bits 8-10: operation, 11 the table is whole
pub fn ops_any(case: u64) {
    let l = lbs(case);
    let len = nd_u64();
    assume((len <= 1 << 60) & (len >= 3 * l));
    let (dev, r) = any(case, len);
    let mut d = match r { Ok(d) => d, Err(_) => { reach("refused"); return; } };
    reach("open");
    let mem = d.partitions().clone();
    let h0 = d.header().clone();
    let mut changes = true;
    match (case >> 8) & 7 {
        0 => { let s = nd_u64(); assume(s > 0); changes = d.add_partition("x", s, pt::LINUX_FS, 0, None).is_ok(); }
        1 => { let s = nd_u64(); assume(s > 0); changes = d.add_partition("x", s, pt::LINUX_FS, 0, Some(nd_u8() as u64)).is_ok(); }
        2 => { let (id, n) = (nd_u32(), nd_u64()); assume((id > 0) & (n > 0)); changes = d.add_partition_at("x", id, nd_u64(), n, pt::LINUX_FS, 0).is_ok(); }
        3 => { for (a, n) in d.find_free_sectors() { check(n > 0 && (a >= h0.first_usable) & (a.wrapping_add(n - 1) >= a) & (a.wrapping_add(n - 1) <= h0.last_usable), "free runs lie in the usable area"); } changes = false; }
        4 => { observe(d.calculate_alignment()); observe(d.find_next_partition_id().unwrap_or(0) as u64); changes = false; }
        5 => { let t = d.take_partitions(); changes = d.update_partitions(t).is_ok(); if !changes { check(d.partitions().is_empty(), "a refused update keeps the table"); check(*d.header() == h0, "a refused operation keeps the header"); return; } }
        6 => { let img = dev.image(); img.0.borrow_mut().len = len; if d.write_inplace().is_ok() { reach("saved"); } else { reach("notsaved"); } return; }
        _ => { d.update_guid(None); let c = d.clone(); check(c.partitions() == d.partitions(), "clone"); let _ = d.remove_partition(nd_u32()); let _ = format!("{}", h0.num_parts); }
    }
    if !changes { check(*d.partitions() == mem, "a refused operation keeps the table"); check(*d.header() == h0, "a refused operation keeps the header"); }
    check(dev.0.borrow().write_calls == 0, "nothing written");
}
