use crate::common::*;
use crate::dev::Dev;
use crate::rt::*;






/// length/offset arithmetic: exact or error
pub fn arith(case: u64) {
    let mut p = Partition::zero();
    p.first_lba = nd_u64();
    p.last_lba = nd_u64();
    let s = lbs(case) as u128;
    let (f, l) = (p.first_lba as u128, p.last_lba as u128);
    match p.sectors_len() {
        Ok(n) => { reach("len"); observe(n); check(l >= f && n as u128 == l - f + 1, "sectors_len is last-first+1"); }
        Err(_) => { reach("lenerr"); check(l < f || l - f + 1 > u64::MAX as u128, "sectors_len fails only on an invalid or unrepresentable range"); }
    }
    match p.bytes_len(lb(case)) {
        Ok(n) => { reach("bytes"); observe(n); check(l >= f && n as u128 == (l - f + 1).wrapping_mul(s), "bytes_len is exact"); }
        Err(_) => check(l < f || (l - f + 1).wrapping_mul(s) > u64::MAX as u128, "bytes_len fails only on an invalid or unrepresentable range"),
    }
    match p.bytes_start(lb(case)) {
        Ok(n) => { reach("start"); observe(n); check(n as u128 == f.wrapping_mul(s), "bytes_start is exact"); }
        Err(_) => check(f.wrapping_mul(s) > u64::MAX as u128, "bytes_start fails only when unrepresentable"),
    }
}

fn header_for(table: &[u8], part_start: u64) -> Header {
    Header {
        signature: "EFI PART".to_string(), revision: (1, 0), header_size_le: 92, crc32: 0, reserved: 0, current_lba: 1, backup_lba: 1 << 40, first_usable: 34, last_usable: 1 << 39,
        disk_guid: GUID, part_start, num_parts: (table.len() / 128) as u32, part_size: 128, crc32_parts: crc32(table),
    }
}
/// reads a table holding `e` in slot `slot` (0-based)
fn read_one(dev: &Dev, case: u64, e: &[u8], slot: usize, start: u64) -> Option<BTreeMap<u32, Partition>> {
    let mut t = vec![0u8; 128 * (slot + 2)];
    t[slot * 128..slot * 128 + 128].copy_from_slice(e);
    dev.put(start * lbs(case), &t);
    gpt::partition::file_read_partitions(&mut dev.clone(), &header_for(&t, start), lb(case)).ok()
}

/// entry encoding: bits 0 block size, 1-2 entry size, 3 arbitrary type guid
pub fn entry_write(case: u64) {
    let l = lbs(case);
    let size = [128u32, 256, 129, 512][((case >> 1) & 3) as usize];
    let mut p = Partition::zero();
    p.part_type_guid = pt::Type { guid: Uuid::from_bytes(nd_arr()), os: pt::OperatingSystem::None };
    p.part_guid = Uuid::from_bytes(nd_arr());
    p.first_lba = nd_u64();
    p.last_lba = nd_u64();
    p.flags = nd_u64();
    p.name = "Ab\u{e9}\u{20ac}\u{1f600}".to_string();
    let idx = nd_u64();
    let start = nd_u64();
    let dev = Dev::new(1 << 20);
    dev.set_pos(3);
    let r = p.write_to_device(&mut dev.clone(), idx, start, lb(case), size);
    let mut want = [0u8; 128];
    want[..56].copy_from_slice(&raw_entry(&p.part_type_guid.guid, &p.part_guid, p.first_lba, p.last_lba, p.flags)[..56]);
    for (i, u) in [0x41u16, 0x62, 0xe9, 0x20ac, 0xd83d, 0xde00].iter().enumerate() { want[56 + 2 * i..58 + 2 * i].copy_from_slice(&u.to_le_bytes()); }
    let (s, o) = ((start as u128).wrapping_mul(l as u128), (idx as u128).wrapping_mul(size as u128));
    match r {
        Ok(()) => {
            reach("ok");
            let mut at = s + o;
            let mut got = vec![];
            for (w, d) in dev.writes() { check(w as u128 == at, "entry `i` lies at table start + i * entry size"); at += d.len() as u128; got.extend_from_slice(&d); }
            check(got.len() == size as usize, "one whole entry is written");
            check(got.len() >= 128 && got[..128] == want, "specified layout: mixed-endian guids, little-endian numbers, UTF-16LE name");
            check(got.iter().skip(128).all(|x| *x == 0), "the rest of the entry is zero");
        }
        Err(_) => { reach("refused"); check((s > u64::MAX as u128) | (o > u64::MAX as u128) | (s + o + size as u128 > u64::MAX as u128), "refused only if the position is unrepresentable"); }
    }
}

/// entry decoding. bits: 0 block size, 1 known type, 2 slot
pub fn entry_read(case: u64) {
    let known = case & 2 != 0;
    let ty = if known { pt::EFI.guid } else { let u: Uuid = Uuid::from_bytes(nd_arr()); u };
    let g: [u8; 16] = nd_arr();
    let (f, l, fl) = (nd_u64(), nd_u64(), nd_u64());
    let mut e = raw_entry(&ty, &Uuid::from_bytes_le(g), f, l, fl);
    e[56] = b'x';
    let slot = if case & 4 == 0 { 0 } else { 3 };
    let start = nd_u64();
    assume(start <= 1 << 40);
    let dev = Dev::new(1 << 62);
    let t = match read_one(&dev, case, &e, slot, start) { Some(t) => t, None => { check(false, "a table with the right checksum is read"); return; } };
    reach("ok");
    check(t.len() == 1, "only non-zero entries appear");
    let p = match t.get(&(slot as u32 + 1)) { Some(p) => p, None => { check(false, "entry `i` has id i + 1"); return; } };
    hash_part(p);
    check(p.part_type_guid.guid == ty, "type guid");
    check(p.part_guid == Uuid::from_bytes_le(g), "partition guid");
    check((p.first_lba == f) & (p.last_lba == l) & (p.flags == fl), "blocks and flags");
    check(p.name == "x", "name");
    check(p.is_used() == (ty != Uuid::nil()), "used iff the type is not the nil guid");
    check(dev.0.borrow().write_calls == 0, "nothing written");
}

/// a name of `pre` ASCII units followed by two symbolic characters and a tail: written and read back
pub fn name(case: u64) {
    let pre = [0usize, 33, 34, 35, 36, 5][((case >> 1) & 7) as usize];
    let mut n = String::new();
    for i in 0..pre { n.push((b'a' + (i % 26) as u8) as char); }
    for _ in 0..2 {
        let c = nd_u32();
        assume(c != 0);
        match char::from_u32(c) { Some(c) => n.push(c), None => { assume(false); } }
    }
    n.push('z');
    let mut p = part(40, 50, 1);
    p.name = n.clone();
    let dev = Dev::new(1 << 40);
    check(p.write_to_device(&mut dev.clone(), 0, 2, lb(case), 128).is_ok(), "written");
    let e = dev.image().read_at(2 * lbs(case), 128);
    // longest prefix of whole characters within 36 UTF-16 units
    let mut want = String::new();
    let mut u = 0;
    for c in n.chars() { u += c.len_utf16(); if u > 36 { break; } want.push(c); }
    let dev = Dev::new(1 << 40);
    match read_one(&dev, case, &e, 0, 2) {
        Some(t) => {
            reach("ok");
            match t.get(&1) { Some(q) => {
                check(q.name == want, "the name survives, cut to whole characters within 36 UTF-16 units");
                check(q.first_lba == 40 && q.last_lba == 50 && q.part_guid == p.part_guid, "the name does not spill");
                if want.len() < n.len() { reach("cut") } else { reach("whole") }
            } None => check(false, "present") }
        }
        None => check(false, "read"),
    }
}

/// arbitrary UTF-16 units in a name. bits: 0 block size, 1-2 position, 3 three units instead of two
pub fn name_read(case: u64) {
    let at = [0usize, if case & 8 != 0 { 33 } else { 34 }, 10][((case >> 1) & 3) as usize];
    let mut u = [0u16; 36];
    for i in 0..at { u[i] = 0x61; }
    for i in at..at + if case & 8 != 0 { 3 } else { 2 } { u[i] = nd_u16(); }
    let mut e = raw_entry(&LINUX, &guid(1), 40, 50, 0);
    for i in 0..36 { e[56 + 2 * i..58 + 2 * i].copy_from_slice(&u[i].to_le_bytes()); }
    let dev = Dev::new(1 << 40);
    let t = match read_one(&dev, case, &e, 0, 2) { Some(t) => t, None => { check(false, "read"); return; } };
    let q = match t.get(&1) { Some(q) => q, None => { check(false, "present"); return; } };
    // reference: up to the first NUL, unpaired surrogates become U+FFFD
    let mut want = String::new();
    let mut i = 0;
    while i < 36 && u[i] != 0 {
        let x = u[i] as u32;
        if x >= 0xd800 && x <= 0xdbff && i + 1 < 36 && u[i + 1] >= 0xdc00 && u[i + 1] <= 0xdfff {
            want.push(char::from_u32(0x10000 + ((x - 0xd800) << 10) + (u[i + 1] as u32 - 0xdc00)).unwrap());
            i += 2;
        } else {
            want.push(if x >= 0xd800 && x <= 0xdfff { '\u{fffd}' } else { char::from_u32(x).unwrap() });
            i += 1;
        }
    }
    check(q.name == want, "the name is the UTF-16 text up to the first NUL");
    reach("ok");
}

/// table acceptance: stored checksum off by delta; entry size; truncated device; zero entries skipped
pub fn table_read(case: u64) {
    let l = lbs(case);
    let n = if case & 8 != 0 { [65usize, 128, 130, 200][((case >> 1) & 3) as usize] } else { ((case >> 1) & 3) as usize };
    let mut t = vec![0u8; n * 128];
    let sig = |i: usize| [127, 3, 35, 60, 17][i % 5];
    // one symbolic byte per entry decides whether it is empty
    for i in 0..n { if n < 4 || i == 0 || i == 64 || i >= n - 2 { t[i * 128 + sig(i)] = nd_u8(); } }
    let delta = nd_u32();
    let size = nd_u32();
    let start = nd_u64();
    let len = nd_u64();
    let mut h = header_for(&t, start);
    h.crc32_parts ^= delta;
    h.part_size = size;
    let dev = Dev::new(len);
    assume(start <= 1 << 54);
    dev.put(start.wrapping_mul(l), &t);
    let whole = (len as u128) >= (start as u128).wrapping_mul(l as u128) + (n * 128) as u128;
    if n >= 4 { assume(whole | (len as u128 <= (start as u128).wrapping_mul(l as u128))); }
    match gpt::partition::file_read_partitions(&mut dev.clone(), &h, lb(case)) {
        Ok(m) => {
            reach("ok");
            check(delta == 0, "accepted only with the right checksum");
            check(size == 128, "accepted only with the supported entry size");
            check(whole | (n == 0), "accepted only if the device holds the table");
            for i in 0..n { check(m.contains_key(&(i as u32 + 1)) == (t[i * 128 + sig(i)] != 0), "exactly the non-zero entries appear"); }
            check(m.len() <= n, "no other ids");
        }
        Err(_) => { reach("refused"); check((delta != 0) | (size != 128) | !whole, "refused only for a reason"); }
    }
    check(dev.0.borrow().write_calls == 0, "nothing written");
}

/// zeroing entries. bits: 0 block size; 1-3 entry size
pub fn zero_entries(case: u64) {
    let l = lbs(case);
    let n = nd_below(4);
    let (idx, start) = (nd_u64(), nd_u64());
    let size = [128u32, 256, 132, 384, 1, 640, 127, 0][((case >> 1) & 7) as usize];
    let dev = Dev::new(1 << 20);
    let (s, o) = ((start as u128).wrapping_mul(l as u128), (idx as u128).wrapping_mul(size as u128));
    match Partition::write_zero_entries_to_device(&mut dev.clone(), idx, n, start, lb(case), size) {
        Ok(()) => {
            reach("ok");
            let mut at = s + o;
            for (w, d) in dev.writes() { check(w as u128 == at, "starts at the given entry, contiguous"); check(d.iter().all(|x| *x == 0), "only zeros"); at += d.len() as u128; }
            check(at == s + o + (n as u128).wrapping_mul(size as u128), "exactly the given number of entries");
        }
        Err(_) => { reach("refused"); check(s + o + (n as u128).wrapping_mul(size as u128) > u64::MAX as u128, "refused only if the position is unrepresentable"); }
    }
}
