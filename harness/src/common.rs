#![allow(dead_code)]
use crate::dev::Dev;
use crate::rt::*;
pub use gpt::disk::LogicalBlockSize as Lb;
pub use gpt::header::Header;
pub use gpt::partition::Partition;
pub use gpt::partition_types as pt;
pub use gpt::{GptConfig, GptDisk, GptError};
pub use std::collections::BTreeMap;
pub use uuid::Uuid;

pub fn lb(case: u64) -> Lb { if case & 1 == 0 { Lb::Lb512 } else { Lb::Lb4096 } }
pub fn lbs(case: u64) -> u64 { if case & 1 == 0 { 512 } else { 4096 } }
/// block size that is symbolic in effect: both alternatives explored
pub const GUID: Uuid = Uuid::from_u128(0x1b6a2bfa_e92b_184c_a8a7_ed0610d54821);
/// any guid that is not one of the random ones (whose first byte is 0x5e)
pub fn nd_guid() -> Uuid { let b: [u8; 16] = nd_arr(); assume(b[0] != 0x5e); Uuid::from_bytes(b) }
pub fn guid(n: u128) -> Uuid { Uuid::from_u128(0x11111111_2222_4333_8444_000000000000 + n) }

pub fn part(first: u64, last: u64, n: u128) -> Partition {
    Partition { part_type_guid: pt::LINUX_FS, part_guid: guid(n), first_lba: first, last_lba: last, flags: 0, name: String::new() }
}
/// a type the library does not know
pub const CUSTOM: pt::Type = pt::Type { guid: Uuid::from_u128(0x7d2f_31a5_90c3_4e17_b36e_55aa01fe9c42), os: pt::OperatingSystem::None };
/// types and names of every kind: known, unknown; empty, short, outside the basic plane, of full length
pub fn vtype(i: u32) -> pt::Type { match i % 4 { 0 => pt::LINUX_FS, 1 => pt::EFI, 2 => CUSTOM, _ => pt::BASIC } }
pub fn vname(i: u32) -> String { match i % 5 { 0 => String::new(), 1 => format!("n{}", i), 2 => "\u{e4} \u{1d11e}\u{20ac}\u{1f4be}z".to_string(), 3 => "abcdefghijklmnopqrstuvwxyz0123456789".to_string(), _ => "\u{10ffff}".repeat(18) } }
/// names given in requests: also ones longer than an entry can hold
pub fn rname(i: u32) -> String { match i % 7 { 5 => "\u{e9}".repeat(40), 6 => "\u{10ffff}".repeat(18) + "xy", _ => vname(i % 7) } }
pub fn put_name(e: &mut [u8; 128], name: &str) { for (j, c) in name.encode_utf16().enumerate() { e[56 + 2 * j..58 + 2 * j].copy_from_slice(&c.to_le_bytes()); } }
/// the entry of slot `i`, varied as above
pub fn vpart(i: u32) -> Partition { Partition { part_type_guid: vtype(i), name: vname(i), flags: nd_u64(), ..part(nd_u64(), nd_u64(), i as u128) } }
pub fn cfg(case: u64) -> GptConfig { GptConfig::new().writable(true).logical_block_size(lb(case)) }

/// used spans of a table
pub fn spans(t: &BTreeMap<u32, Partition>) -> Vec<(u64, u64)> { t.values().filter(|p| p.is_used()).map(|p| (p.first_lba, p.last_lba)).collect() }
pub fn overlap(a: (u64, u64), b: (u64, u64)) -> bool { a.0 <= b.1 && b.0 <= a.1 }
/// every used span non-empty, inside [fu, lu], pairwise disjoint
pub fn assume_wf(s: &[(u64, u64)], fu: u64, lu: u64) {
    for i in 0..s.len() {
        assume((s[i].0 >= fu) & (s[i].0 <= s[i].1) & (s[i].1 <= lu));
        for j in 0..i { assume((s[i].1 < s[j].0) | (s[j].1 < s[i].0)); }
    }
}
pub fn in_free(s: &[(u64, u64)], fu: u64, lu: u64, a: u64, b: u64) -> bool {
    let mut ok = (a >= fu) & (a <= b) & (b <= lu);
    for x in s { ok &= (b < x.0) | ((x.1 < a) & (x.0 < a)); }
    ok
}
/// symbolic device length: at least `min` blocks
pub fn nd_len(case: u64, minb: u64, max: u64) -> u64 { let n = nd_u64(); assume((n >= minb * lbs(case)) & (n <= max)); n }

/// raw 92-byte header
pub fn raw_header(current: u64, backup: u64, fu: u64, lu: u64, g: &Uuid, part_start: u64, num: u32, size: u32, pcrc: u32) -> [u8; 92] {
    let mut h = [0u8; 92];
    h[0..8].copy_from_slice(b"EFI PART");
    h[8..12].copy_from_slice(&0x0001_0000u32.to_le_bytes());
    h[12..16].copy_from_slice(&92u32.to_le_bytes());
    h[24..32].copy_from_slice(&current.to_le_bytes());
    h[32..40].copy_from_slice(&backup.to_le_bytes());
    h[40..48].copy_from_slice(&fu.to_le_bytes());
    h[48..56].copy_from_slice(&lu.to_le_bytes());
    h[56..72].copy_from_slice(&g.to_bytes_le());
    h[72..80].copy_from_slice(&part_start.to_le_bytes());
    h[80..84].copy_from_slice(&num.to_le_bytes());
    h[84..88].copy_from_slice(&size.to_le_bytes());
    h[88..92].copy_from_slice(&pcrc.to_le_bytes());
    let c = crc32(&h);
    h[16..20].copy_from_slice(&c.to_le_bytes());
    h
}
pub fn raw_entry(ty: &Uuid, g: &Uuid, first: u64, last: u64, flags: u64) -> [u8; 128] {
    let mut e = [0u8; 128];
    e[0..16].copy_from_slice(&ty.to_bytes_le());
    e[16..32].copy_from_slice(&g.to_bytes_le());
    e[32..40].copy_from_slice(&first.to_le_bytes());
    e[40..48].copy_from_slice(&last.to_le_bytes());
    e[48..56].copy_from_slice(&flags.to_le_bytes());
    e
}
pub fn u64at(b: &[u8], o: usize) -> u64 { let mut x = [0u8; 8]; x.copy_from_slice(&b[o..o + 8]); u64::from_le_bytes(x) }
pub fn u32at(b: &[u8], o: usize) -> u32 { let mut x = [0u8; 4]; x.copy_from_slice(&b[o..o + 4]); u32::from_le_bytes(x) }
pub fn hash_part(p: &Partition) { observe(p.first_lba); observe(p.last_lba); observe(p.flags); }
pub fn _d(_: &Dev) {}

/// Geometry of a crafted, well-formed GPT disk.
#[derive(Clone, Copy)]
pub struct Geo { pub lbs: u64, pub len: u64, pub bak: u64, pub fu: u64, pub lu: u64, pub num: u32, pub ps: u64, pub bps: u64 }
pub fn arr_blocks(num: u32, lbs: u64) -> u64 { (num as u64 * 128 + lbs - 1) / lbs }
/// symbolic device size, usable area symbolic inside it
pub fn nd_geo(case: u64, num: u32) -> Geo {
    let l = lbs(case);
    let n = nd_u64();
    let extra = nd_u16() as u64;
    assume(extra < l);
    let ab = arr_blocks(num, l);
    assume((n >= 2 * ab + 4) & (n <= 1 << 50));
    let bak = n - 1;
    let fu = nd_u64();
    let lu = nd_u64();
    assume((fu >= 2 + ab) & (fu <= lu) & (lu <= bak - 1 - ab));
    Geo { lbs: l, len: n * l + extra, bak, fu, lu, num, ps: 2, bps: lu + 1 }
}
/// writes header + table of a crafted disk
pub fn put_gpt(dev: &Dev, g: &Geo, id: &Uuid, entries: &[(u32, [u8; 128])], primary: bool, backup: bool) {
    let mut t = vec![0u8; g.num as usize * 128];
    for (i, e) in entries { t[(*i as usize - 1) * 128..*i as usize * 128].copy_from_slice(e); }
    let c = crc32(&t);
    if primary {
        dev.put(g.ps * g.lbs, &t);
        dev.put(g.lbs, &raw_header(1, g.bak, g.fu, g.lu, id, g.ps, g.num, 128, c));
    }
    if backup {
        dev.put(g.bps * g.lbs, &t);
        dev.put(g.bak * g.lbs, &raw_header(g.bak, 1, g.fu, g.lu, id, g.bps, g.num, 128, c));
    }
}
pub const LINUX: Uuid = pt::LINUX_FS.guid;
/// symbolic table entries in slots `ids`
pub fn nd_entries(ids: &[u32]) -> Vec<(u32, [u8; 128])> {
    ids.iter().map(|&i| {
        let mut e = raw_entry(&vtype(i).guid, &guid(i as u128), nd_u64(), nd_u64(), nd_u64());
        put_name(&mut e, &vname(i));
        (i, e)
    }).collect()
}
pub fn entry_span(e: &[u8; 128]) -> (u64, u64) { (u64at(e, 32), u64at(e, 40)) }
/// a disk opened from a crafted image with `ids` occupied by symbolic partitions
pub fn open_crafted(case: u64, ids: &[u32], num: u32) -> (GptDisk<Dev>, Dev, Geo, Vec<(u64, u64)>) {
    let g = nd_geo(case, num);
    let dev = Dev::new(g.len);
    let es = nd_entries(ids);
    put_gpt(&dev, &g, &GUID, &es, true, false);
    let s: Vec<_> = es.iter().map(|(_, e)| entry_span(e)).collect();
    match cfg(case).open_from_device(dev.clone()) {
        Ok(d) => (d, dev, g, s),
        Err(_) => { check(false, "a well-formed disk opens"); stop() }
    }
}
pub fn same_headers<D>(a: &GptDisk<D>, b: &GptDisk<D>) -> bool {
    let p = match (a.primary_header(), b.primary_header()) { (Ok(x), Ok(y)) => x == y, (Err(_), Err(_)) => true, _ => false };
    let q = match (a.backup_header(), b.backup_header()) { (Ok(x), Ok(y)) => x == y, (Err(_), Err(_)) => true, _ => false };
    p && q
}
