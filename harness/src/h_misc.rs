use crate::common::*;
use crate::rt::*;
include!("types_list.rs");

/// type lookup by guid
pub fn type_of(case: u64) {
    let u = if case & 1 == 0 { Uuid::from_bytes(nd_arr()) } else { let i = pick(nd_below(TYPES.len() as u64)) as usize; Uuid::from_u128(TYPES[i].2 ^ (nd_u8() as u128) << (8 * (case >> 1))) };
    let t: pt::Type = u.into();
    check(t.guid == u, "the guid is kept");
    let mut known = None;
    for (_, k, g, os) in TYPES { if u == Uuid::from_u128(*g) { known = Some((k, os)); break; } }
    match known {
        Some((k, os)) => { reach("known"); check(t == *k && t.os == *os, "a known guid gives the known type"); }
        None => { reach("other"); check(t.os == pt::OperatingSystem::None, "an unknown guid has no operating system"); }
    }
    let p = Partition { part_type_guid: t, ..part(1, 2, 3) };
    check(p.is_used() == (u != Uuid::nil()), "only the nil guid is unused");
}
/// lookup by name, any letter case; every constant has its published guid
pub fn type_name(case: u64) {
    let n = 8;
    let lo = (case as usize) * n;
    let i = lo + pick(nd_below(n as u64)) as usize;
    if i >= TYPES.len() { reach("done"); return; }
    let (name, t, g, os) = &TYPES[i];
    check(t.guid == Uuid::from_u128(*g) && t.os == *os, "guid and operating system of the constant");
    let mut s = String::new();
    for c in name.bytes() { let low = nd_bool(); s.push((if c.is_ascii_uppercase() { c | (low as u8) << 5 } else { c }) as char); }
    match pt::Type::from_name(&s) { Ok(x) => check(x == *t, "the type of that name"), Err(_) => check(false, "a known name is found") }
    reach("done");
}
fn hex(n: u8, up: bool) -> char { (if n < 10 { b'0' + n } else if up { b'A' + n - 10 } else { b'a' + n - 10 }) as char }
/// lookup by guid text, known or not, either letter case. bits: 0 upper case, 1-2 what is symbolic
pub fn type_text(case: u64) {
    let up = case & 1 == 0;
    let mut b = [0u8; 16];
    match (case >> 1) & 3 {
        0 => { let x = pick(nd_below(TYPES.len() as u64)) as usize; b = TYPES[x].2.to_be_bytes(); }
        1 => { b = TYPES[2].2.to_be_bytes(); b[0] = nd_u8(); b[15] = nd_u8(); }
        _ => { b[3] = nd_u8(); b[8] = nd_u8(); }
    }
    let u = Uuid::from_bytes(b);
    let mut s = String::new();
    for (i, x) in b.iter().enumerate() { if i == 4 || i == 6 || i == 8 || i == 10 { s.push('-'); } s.push(hex(x >> 4, up)); s.push(hex(x & 15, up)); }
    let want: pt::Type = u.into();
    match pt::Type::from_name(&s) { Ok(t) => { reach("ok"); check(t == want, "the text of a guid names the type with this guid"); } Err(_) => check(false, "the text of a guid is a type") }
}
/// block sizes
pub fn blocks(_: u64) {
    let n = nd_u64();
    match Lb::try_from(n) {
        Ok(b) => { reach("ok"); check((n == 512) | (n == 4096), "only 512 and 4096"); check(b.as_u64() == n && b.as_usize() as u64 == n && u64::from(b) == n && usize::from(b) as u64 == n, "conversions agree"); }
        Err(_) => { reach("err"); check((n != 512) & (n != 4096), "512 and 4096 are supported"); }
    }
    check(gpt::disk::DEFAULT_SECTOR_SIZE.as_u64() == 512, "default");
}
fn upper(c: u8) -> u8 { if c >= b'a' && c <= b'z' { c - 32 } else { c } }
fn text(n: usize) -> String { let mut s = String::new(); for _ in 0..n { let c = nd_u8(); assume(c < 0x80); s.push(c as char); } s }
const LENS: [usize; 16] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15];
/// any ASCII text is a type iff it is a known name in some letter case. bits 0-3: length; 4: after a character outside ASCII; 5: 20 characters more;
/// 6: a known name (bits 7-10: which eight) with one arbitrary character in an arbitrary place instead
pub fn type_any(case: u64) {
    let mut s = if case & 16 != 0 { "\u{df}".to_string() } else { String::new() };
    s.push_str(&text(LENS[(case & 15) as usize]));
    if case & 32 != 0 { s.push_str("ABCDEFGHIJKLMNOPQRST"); }
    if case & 64 != 0 {
        let i = (case >> 7) as usize * 8 + pick(nd_below(8)) as usize;
        if i >= TYPES.len() { return; }
        let mut b = TYPES[i].0.as_bytes().to_vec();
        let at = pick(nd_below(b.len() as u64)) as usize;
        b[at] = nd_u8();
        assume(b[at] < 0x80);
        s.clear();
        for x in b { s.push(x as char); }
    }
    let b = s.as_bytes();
    let mut known = None;
    for (name, t, _, _) in TYPES {
        if name.len() != b.len() { continue; }
        let mut same = true;
        for (x, y) in name.bytes().zip(b) { same &= x == upper(*y); }
        if same { known = Some(t); break; }
    }
    match (pt::Type::from_name(&s), known) {
        (Ok(t), Some(k)) => { reach("known"); check(t == *k, "the type of that name"); }
        (Err(_), None) => reach("refused"),
        _ => check(false, "a text is a type exactly if it is a known name"),
    }
}
/// a guid text with one arbitrary character. bits: 0-1 missing / additional character
pub fn type_guid_text(case: u64) {
    let at = pick(nd_below(36)) as usize;
    let c = nd_u8();
    assume(c < 0x80);
    let base = b"3f9a6C1e-0b7D-4a55-9e21-d4c3b2a19087";
    let mut s = String::new();
    let mut b = *base;
    b[at] = c;
    match case & 3 { 0 => for x in b { s.push(x as char); }, 1 => for x in &b[..35] { s.push(*x as char); }, _ => { for x in b { s.push(x as char); } s.push('0'); } }
    let dash = at == 8 || at == 13 || at == 18 || at == 23;
    let hex = ((c >= b'0') & (c <= b'9')) | ((c >= b'a') & (c <= b'f')) | ((c >= b'A') & (c <= b'F'));
    let valid = case & 3 == 0 && if dash { c == b'-' } else { hex };
    match pt::Type::from_name(&s) {
        Ok(t) => {
            reach("ok");
            check(valid, "only the text of a guid is one");
            let mut v = 0u128;
            for x in b { if x != b'-' { v = v << 4 | (if x <= b'9' { x - b'0' } else { upper(x) - b'A' + 10 }) as u128; } }
            check(t.guid == Uuid::from_u128(v) && t.os == pt::OperatingSystem::None, "its guid");
        }
        Err(_) => { reach("refused"); check(!valid, "the text of a guid is a type"); }
    }
}
/// names of operating systems, exactly. case: length
pub fn os_name(case: u64) {
    use pt::OperatingSystem::*;
    let names = [("unused", None), ("android", Android), ("atari", Atari), ("Ceph", Ceph), ("Chrome", Chrome), ("DragonFlyBsd", DragonFlyBsd), ("FreeBsd", FreeBsd), ("FreeDesktop", FreeDesktop), ("Haiku", Haiku), ("HP-UX", HpUnix), ("Linux", Linux), ("MacOS", MacOs), ("MidnightBsd", MidnightBsd), ("Onie", Onie), ("PowerPc", PowerPc), ("Solaris Illumos", Solaris)];
    let s = text(case as usize);
    let mut known = Option::None;
    for (n, o) in &names {
        if n.len() != s.len() { continue; }
        let mut same = true;
        for (x, y) in n.bytes().zip(s.bytes()) { same &= x == y; }
        if same { known = Some(o); break; }
    }
    match (s.parse::<pt::OperatingSystem>(), known) {
        (Ok(o), Some(k)) => { reach("known"); check(o == *k, "the operating system of that name"); }
        (Err(_), Option::None) => reach("refused"),
        _ => check(false, "a text names an operating system exactly if it is listed"),
    }
}
/// Options do what they say, whatever the order they are set in. bits: 0 block size; 1-2 order; 3 every option set to the opposite first; 4 created; 5 one set to the opposite and back; 6 only what differs from the defaults is set; 7 the device is exchanged for one with the opposite permission and back; 8 the same by copies
pub fn options(case: u64) {
    let (w, v, r, c) = (nd_bool(), nd_bool(), nd_bool(), nd_bool());
    let (p, b) = if case & 16 == 0 { (nd_bool(), nd_bool()) } else { (true, true) };
    let mut o = GptConfig::new();
    check(o == GptConfig::default() && o == GptConfig::new().writable(false).only_valid_headers(false).readonly_backup(false).change_partition_count(false).logical_block_size(Lb::Lb512), "the documented defaults");
    if case & 8 != 0 { o = o.writable(!w).only_valid_headers(!v).readonly_backup(!r).change_partition_count(!c).logical_block_size(lb(!case)); }
    o = match (case >> 1) & 3 {
        0 => o.writable(w).only_valid_headers(v).readonly_backup(r).change_partition_count(c).logical_block_size(lb(case)),
        1 => o.logical_block_size(lb(case)).change_partition_count(c).readonly_backup(r).only_valid_headers(v).writable(w),
        2 => o.readonly_backup(r).writable(w).logical_block_size(lb(case)).only_valid_headers(v).change_partition_count(c),
        _ => o.only_valid_headers(v).change_partition_count(c).writable(w).logical_block_size(lb(case)).readonly_backup(r),
    };
    if case & 64 != 0 {
        // only what differs from the defaults is set
        o = GptConfig::new();
        if c { o = o.change_partition_count(true); }
        if w { o = o.writable(true); }
        if case & 1 != 0 { o = o.logical_block_size(lb(1)); }
        if r { o = o.readonly_backup(true); }
        if v { o = o.only_valid_headers(true); }
    }
    if case & 32 != 0 {
        // one is set to the opposite and back
        o = match pick(nd_below(5)) {
            0 => o.writable(!w).writable(w),
            1 => o.only_valid_headers(!v).only_valid_headers(v),
            2 => o.readonly_backup(!r).readonly_backup(r),
            3 => o.change_partition_count(!c).change_partition_count(c),
            _ => o.logical_block_size(lb(!case)).logical_block_size(lb(case)),
        };
    }
    let g = nd_geo(case, 128);
    assume(g.bak > 60 * 4096 / g.lbs + 60);
    let dev = crate::dev::Dev::new(g.len);
    let d = if case & 16 == 0 {
        put_gpt(&dev, &g, &GUID, &nd_entries(&[3]), p, b);
        match o.open_from_device(dev.clone()) {
            Ok(d) => d,
            Err(_) => { reach("invalid"); check((!p & !b) | (v & !(p & b)), "refused only if a required header is missing"); return; }
        }
    } else { match o.create_from_device(dev.clone(), Some(GUID)) { Ok(d) => d, Err(_) => { check(false, "creates"); return; } } };
    let mut d = d;
    check(if v { p & b } else { p | b }, "both headers are required if asked for");
    check(*d.logical_block_size() == lb(case), "block size");
    if case & 128 != 0 { let x = d.update_disk_device(dev.clone(), !w); let _ = d.update_disk_device(x, w); }
    if case & 256 != 0 { d = d.with_disk_device(dev.clone(), !w).with_disk_device(dev.clone(), w); }
    let f = d.header().first_usable;
    let mut t = BTreeMap::new();
    for i in 1..=130u32 { t.insert(i, part(f, f, i as u128)); }
    match d.clone().update_partitions(t) {
        Err(GptError::PartitionCountWouldChange) => { reach("kept"); check(!c, "the count may change only if asked for"); }
        _ => { reach("grown"); check(c, "the count is kept unless asked for"); }
    }
    match d.write_inplace() {
        Ok(()) => {
            reach("saved");
            check(w, "saved only if writable");
            let lu = d.header().last_usable;
            let mut back = false;
            for (x, _) in dev.writes() { back |= x > lu * g.lbs; }
            check(back != r, "the backup is written unless it is read-only");
        }
        Err(GptError::ReadOnly) => { reach("ro"); check(!w, "refused only if not writable"); check(dev.0.borrow().write_calls == 0, "nothing written"); }
        Err(_) => check(false, "saves"),
    }
}
/// requests without meaning end in the documented panic, on any disk. bits: 0-1 request, then as in prep
pub fn refuse(case: u64) {
    let mut p = crate::h_rw::prep((case >> 2) & 511);
    let (size, flags, id, first) = (nd_u64(), nd_u64(), nd_u32(), nd_u64());
    reach("start");
    expect_panic(true);
    match case & 3 {
        0 => { let _ = p.d.add_partition("x", 0, pt::LINUX_FS, flags, Some(nd_u64())); }
        1 => { let _ = p.d.add_partition_at("x", id, first, 0, pt::LINUX_FS, flags); }
        2 => { let _ = p.d.add_partition_at("x", 0, first, size, pt::LINUX_FS, flags); }
        _ => { let mut t = p.d.partitions().clone(); t.insert(0, part(first, size, 1)); let _ = p.d.update_partitions(t); }
    }
    expect_panic(false);
    check(false, "refused by the documented panic");
}
/// texts. bits 0-1: which number is arbitrary; 2: header instead of partition; 3-4 unusual names
pub fn texts(case: u64) {
    let g: Uuid = Uuid::from_bytes(nd_arr());
    let mut n = [7u64, 4096, 99, 10];
    n[(case & 3) as usize] = nd_u64();
    let name = match case >> 3 { 0 => vname(case as u32), 1 => "a\"b\\c'\u{301}\u{e9}".to_string(), 2 => "{}\t\n%s\u{200b}".to_string(), _ => rname(5) };
    let p = Partition { part_type_guid: vtype(case as u32), part_guid: g, first_lba: n[0], last_lba: n[1], flags: n[2], name: name.clone() };
    let (want, got) = if case & 4 == 0 {
        (format!("Partition:\t\t{}\nPartition GUID:\t\t{}\nPartition Type:\t\t{}\nSpan:\t\t\t{} - {}\nFlags:\t\t\t{}", name, g, vtype(case as u32).guid, n[0], n[1], n[2]), p.to_string())
    } else {
        let mut h = gpt::header::HeaderBuilder::new().backup_lba(4096).build(Lb::Lb512).unwrap();
        h.disk_guid = g;
        h.crc32 = n[0] as u32;
        h.crc32_parts = n[1] as u32;
        (format!("Disk:\t\t{}\nCRC32:\t\t{}\nTable CRC:\t{}", g, n[0] as u32, n[1] as u32), h.to_string())
    };
    check(got == want, "the text shows the values");
    check(Lb::Lb512.to_string() == "512" && Lb::Lb4096.to_string() == "4096", "block sizes");
    reach("done");
}
