use crate::common::*;
use crate::dev::Dev;
use crate::rt::*;
use gpt::header::{read_header_from_arbitrary_device, HeaderBuilder, HeaderError};

/// create_from_device on a device of any size
pub fn create(case: u64) {
    let l = lbs(case);
    let len = nd_u64();
    assume(len <= 1 << 62);
    let dev = Dev::new(len);
    dev.set_pos(nd_u16() as u64);
    let ab = 16384 / l;
    let r = cfg(case).readonly_backup(case & 2 != 0).create_from_device(dev.clone(), Some(GUID));
    check(dev.0.borrow().write_calls == 0, "creating writes nothing");
    let blocks = len / l;
    match r {
        Ok(d) => {
            reach("ok");
            check(blocks >= 2 * ab + 4, "accepted only if the metadata and one usable block fit");
            check(*d.guid() == GUID && d.partitions().is_empty(), "given guid, empty table");
            let p = match d.primary_header() { Ok(p) => p, Err(_) => { check(false, "a primary header exists"); return; } };
            observe(p.first_usable); observe(p.last_usable); observe(p.backup_lba);
            check(p.signature == "EFI PART" && p.revision == (1, 0) && p.header_size_le == 92 && p.reserved == 0, "standard fields");
            check(p.num_parts == 128 && p.part_size == 128 && p.disk_guid == GUID, "standard table shape");
            check((p.current_lba == 1) & (p.part_start == 2) & (p.backup_lba == blocks - 1), "primary at block 1, backup at the last block");
            check((p.first_usable == 2 + ab) & (p.last_usable == blocks - 2 - ab), "the usable area is everything between the tables");
            if case & 2 == 0 {
                let b = match d.backup_header() { Ok(p) => p, Err(_) => { check(false, "a backup header exists"); return; } };
                check((b.current_lba == p.backup_lba) & (b.backup_lba == 1), "backup header mirrors the positions");
                check((b.first_usable == p.first_usable) & (b.last_usable == p.last_usable) & (b.disk_guid == GUID), "same usable area and guid");
                check(b.num_parts == 128 && b.part_size == 128, "same table shape");
                check((b.part_start > b.last_usable) & (b.part_start + ab <= b.current_lba), "backup table between the usable area and the backup header");
            } else { check(d.backup_header().is_err(), "no backup header if it is read-only"); }
        }
        Err(_) => { reach("refused"); check(blocks < 2 * ab + 4, "refused only if too small"); }
    }
}

/// HeaderBuilder with arbitrary inputs. bits: 0 block size, 1 backup header, 2-4 shape of the table, 5 explicit bounds
pub fn builder(case: u64) {
    let l = lbs(case) as u128;
    let mut b = HeaderBuilder::new();
    let bak = nd_u64();
    let (num, size): (u32, u32) = match (case >> 2) & 7 {
        0 => (128, 128), 1 => (nd_u32(), 128), 2 => (nd_u32(), 1), 3 => (128, nd_u32()), 4 => (nd_u32(), 4096), 5 => (1000, nd_u32()), 6 => (nd_u32(), u32::MAX), _ => (u32::MAX, nd_u32()),
    };
    b.disk_guid(GUID).backup_lba(bak).num_parts(num).part_size(size).primary(case & 2 == 0);
    let (mut wf, mut wl) = (0, 0);
    if case & 32 != 0 { wf = nd_u64(); wl = nd_u64(); b.first_usable(wf).last_usable(wl); }
    let n = if num < 128 { 128 } else { num } as u128;
    // the array size is at most (2^32-1)^2: no 128-bit wrap
    let ab = n.wrapping_mul(size as u128).wrapping_add(l - 1) / l;
    let r = b.build(lb(case));
    match r {
        Ok(h) => {
            reach("ok");
            observe(h.first_usable); observe(h.last_usable); observe(h.part_start); observe(h.current_lba); observe(h.backup_lba);
            check(h.signature == "EFI PART" && h.revision == (1, 0) && h.header_size_le == 92 && h.reserved == 0 && h.disk_guid == GUID, "standard fields");
            check(h.num_parts as u128 == n && h.part_size == size, "table shape as asked, at least 128 entries");
            let (fu, lu) = (h.first_usable as u128, h.last_usable as u128);
            check(fu >= 2 + ab, "room for the primary table before the usable area");
            check(fu <= lu, "the usable area is not empty");
            check(lu + ab + 1 <= bak as u128, "room for the backup table between the usable area and the backup header");
            if case & 2 == 0 { check((h.current_lba == 1) & (h.backup_lba == bak), "positions"); check(h.part_start == 2, "primary table follows the header"); }
            else { check((h.current_lba == bak) & (h.backup_lba == 1), "positions"); check((h.part_start as u128 > lu) & (h.part_start as u128 + ab <= bak as u128), "backup table between the usable area and the backup header"); }
            if case & 32 != 0 {
                check(((wf as u128) < 2 + ab) | (h.first_usable == wf), "a sufficient first usable block is kept");
                check((wl == 0) | (wl as u128 + ab + 1 > bak as u128) | (h.last_usable == wl), "a sufficient last usable block is kept");
            }
            if (wf as u128) < 2 + ab { check(fu == 2 + ab, "the usable area starts right after the table"); }
            if (wl == 0) | (wl as u128 + ab + 1 > bak as u128) { check(lu + ab + 1 == bak as u128, "the usable area ends right before the backup table"); }
        }
        Err(_) => {
            reach("refused");
            let lo = if wf as u128 > 2 + ab { wf as u128 } else { 2 + ab };
            let fits = (bak as u128 >= lo + ab + 1) & ((wl == 0) | (wl as u128 >= lo));
            check(!fits, "refused only if the layout does not fit");
        }
    }
}

/// from_header of a well-formed header keeps the geometry
pub fn rebuild(case: u64) {
    let g = nd_geo(case, if case & 4 != 0 { 200 } else { 128 });
    let dev = Dev::new(g.len);
    let id = Uuid::from_bytes(nd_arr());
    put_gpt(&dev, &g, &id, &[], true, false);
    let h = match read_header_from_arbitrary_device(&mut dev.clone(), lb(case)) { Ok(h) => h, Err(_) => { check(false, "reads"); return; } };
    for primary in [true, false] {
        match HeaderBuilder::from_header(&h).primary(primary).build(lb(case)) {
            Ok(n) => {
                reach("ok");
                check((n.first_usable == g.fu) & (n.last_usable == g.lu) & (n.disk_guid == id), "usable area and guid kept");
                check(n.num_parts == g.num && n.part_size == 128, "table shape kept");
                let (c, b) = if primary { (1, g.bak) } else { (g.bak, 1) };
                check((n.current_lba == c) & (n.backup_lba == b), "positions kept or mirrored");
                // and back from either side
                match HeaderBuilder::from_header(&n).primary(true).build(lb(case)) {
                    Ok(m) => { check((m.current_lba == 1) & (m.backup_lba == g.bak) & (m.part_start == 2) & (m.first_usable == g.fu) & (m.last_usable == g.lu), "the primary is recovered from either header"); }
                    Err(_) => check(false, "builds again"),
                }
            }
            Err(_) => check(false, "a well-formed header builds"),
        }
    }
}

/// header bytes on disk. bits: 0 block size, 1 backup, 2-3 number of entries
pub fn encode(case: u64) {
    let l = lbs(case);
    let num: u32 = [128, 4, 0, 129][((case >> 2) & 3) as usize];
    let mut h = Header {
        signature: "EFI PART".to_string(), revision: (nd_u16(), nd_u16()), header_size_le: nd_u32(), crc32: nd_u32(), reserved: 0,
        current_lba: nd_u64(), backup_lba: nd_u64(), first_usable: nd_u64(), last_usable: nd_u64(), disk_guid: Uuid::from_bytes(nd_arr()),
        part_start: nd_u64(), num_parts: num, part_size: 128, crc32_parts: nd_u32(),
    };
    let len = nd_u64();
    assume((len <= 1 << 60) & (h.current_lba <= 1 << 40) & (h.part_start <= 1 << 40));
    assume((h.current_lba + 1) * l <= len);
    assume((h.part_start + 40) * l <= len);
    let dev = Dev::new(len);
    dev.0.borrow_mut().fill = 0x5a;
    // one arbitrary entry, the others filler
    let e: [u8; 128] = { let mut e = [0x5a; 128]; for x in e[..24].iter_mut() { *x = nd_u8(); } e };
    if num > 0 { dev.put(h.part_start * l, &e); }
    let mut t = vec![0x5au8; num as usize * 128];
    if num > 0 { t[..128].copy_from_slice(&e); }
    let h0 = h.clone();
    let r = if case & 2 == 0 { h.write_primary(&mut dev.clone(), lb(case)) } else { h.write_backup(&mut dev.clone(), lb(case)) };
    let right = if case & 2 == 0 { h0.current_lba < h0.backup_lba } else { h0.current_lba > h0.backup_lba };
    match r {
        Err(HeaderError::WritingToWrongLba) => { reach("wrong"); check(!right, "refused only on the wrong side"); check(dev.0.borrow().write_calls == 0, "nothing written"); }
        Err(_) => check(false, "unexpected error"),
        Ok(n) => {
            reach("ok");
            check(right, "a primary precedes its backup");
            check(n == l as usize, "reports one block");
            let mut want = vec![0u8; l as usize];
            let x = raw_header(h0.current_lba, h0.backup_lba, h0.first_usable, h0.last_usable, &h0.disk_guid, h0.part_start, num, 128, crc32(&t));
            want[..92].copy_from_slice(&x);
            want[8..10].copy_from_slice(&h0.revision.1.to_le_bytes());
            want[10..12].copy_from_slice(&h0.revision.0.to_le_bytes());
            want[12..16].copy_from_slice(&h0.header_size_le.to_le_bytes());
            want[16..20].fill(0);
            let c = crc32(&want[..92]);
            want[16..20].copy_from_slice(&c.to_le_bytes());
            let mut got = vec![];
            let mut at = h0.current_lba * l;
            for (o, d) in dev.writes() { check(o == at, "writes only its own block"); at = at.wrapping_add(d.len() as u64); got.extend_from_slice(&d); }
            check(got == want, "the block holds the specified header, zero padded");
            check((h.crc32 == c) & (h.crc32_parts == crc32(&t)), "the object records the checksums written");
            // decode
            if case & 2 == 0 && h0.current_lba == 1 {
                reach("decoded");
                let img = dev.image();
                img.set_pos(77);
                match read_header_from_arbitrary_device(&mut img.clone(), lb(case)) { Ok(g) => check(g == h, "reads back equal"), Err(_) => check(false, "reads back") }
                check(img.pos() == 77, "reading keeps the device position");
            }
        }
    }
}

/// acceptance of arbitrary header bytes. bits: 0 block size, 1-4 symbolic signature byte (8: none, 9: all, ASCII)
pub fn accept(case: u64) {
    let l = lbs(case);
    let mut b: [u8; 92] = nd_arr();
    let sig = ((case >> 1) & 15) as usize;
    match sig {
        0..=7 => { let x = b[sig]; b[..8].copy_from_slice(b"EFI PART"); b[sig] = x; }
        8 => b[..8].copy_from_slice(b"EFI PART"),
        9 => for i in 0..8 { assume(b[i] < 128); },
        _ => {}
    }
    let mut z = b;
    z[16..20].fill(0);
    let c = crc32(&z);
    let mut issig = true;
    for i in 0..8 { issig &= b[i] == b"EFI PART"[i]; }
    // an arbitrary stored checksum, expressed relative to the right one
    let delta = nd_u32();
    let stored = c ^ delta;
    b[16..20].copy_from_slice(&stored.to_le_bytes());
    let dev = Dev::new(l * 100);
    dev.put(l, &b);
    match read_header_from_arbitrary_device(&mut dev.clone(), lb(case)) {
        Ok(h) => {
            reach("ok");
            check(issig, "accepted only with the signature");
            check(delta == 0, "accepted only with the right checksum");
            check(h.signature == "EFI PART" && h.crc32 == stored, "signature and checksum");
            check((h.revision.1 == u16::from_le_bytes([b[8], b[9]])) & (h.revision.0 == u16::from_le_bytes([b[10], b[11]])), "revision");
            check((h.header_size_le == u32at(&b, 12)) & (h.reserved == u32at(&b, 20)), "size, reserved");
            check((h.current_lba == u64at(&b, 24)) & (h.backup_lba == u64at(&b, 32)) & (h.first_usable == u64at(&b, 40)) & (h.last_usable == u64at(&b, 48)), "positions");
            let mut g = [0u8; 16];
            g.copy_from_slice(&b[56..72]);
            check(h.disk_guid == Uuid::from_bytes_le(g), "guid");
            check((h.part_start == u64at(&b, 72)) & (h.num_parts == u32at(&b, 80)) & (h.part_size == u32at(&b, 84)) & (h.crc32_parts == u32at(&b, 88)), "table position and shape");
        }
        Err(HeaderError::InvalidGptSignature) => { reach("sig"); check(!issig, "signature refused only if wrong"); }
        Err(HeaderError::InvalidCRC32Checksum) => { reach("crc"); check(delta != 0, "checksum refused only if wrong"); }
        Err(_) => check(false, "unexpected error"),
    }
    check(dev.0.borrow().write_calls == 0, "nothing written");
}
