use crate::common::*;
use crate::dev::{any_kind, Dev, Op};
use crate::rt::*;

pub struct Prep { pub d: GptDisk<Dev>, pub dev: Dev, pub g: Geo, pub want: Vec<Partition>, pub id: Uuid }
fn slots(k: u64) -> Vec<u32> { match k { 0 => vec![], 1 => vec![2], 2 => vec![1, 4], 3 => vec![1, 3, 128], 5 => vec![5, 129, 131, 140], _ => vec![2, 3, 4, 9, 100] } }
pub fn config(case: u64) -> GptConfig { cfg(case).readonly_backup(case & 128 != 0).change_partition_count(case & 16384 != 0) }
/// bits: 0 block size; 1-3 partitions; 4-5 source: created / opened with both, only the backup, only the primary header valid;
/// 6 an unused entry between the others; 7 read-only backup; 8 partition count 200, 13 partition count 5 (opened disks); 14 permission to change the count; 15 the backup is valid but old: other guid, other entries
pub fn prep(case: u64) -> Prep {
    let ids = slots((case >> 1) & 7);
    let src = (case >> 4) & 3;
    let gap = match (case >> 1) & 7 { 0 | 4 => 7, 1 => 1, _ => 2 };
    let id = Uuid::from_bytes(nd_arr());
    let dev;
    let g;
    let mut d;
    if src == 0 {
        let len = nd_len(case, 40, 1 << 60);
        dev = Dev::new(len);
        dev.0.borrow_mut().fill = 0xa5;
        dev.set_pos(nd_u64());
        d = match config(case).create_from_device(dev.clone(), Some(id)) { Ok(d) => d, Err(_) => { assume(false); stop() } };
        let h = d.header();
        g = Geo { lbs: lbs(case), len, bak: h.backup_lba, fu: h.first_usable, lu: h.last_usable, num: 128, ps: 2, bps: h.last_usable + 1 };
        let mut t = BTreeMap::new();
        for &i in &ids { let mut p = vpart(i); p.part_guid = Uuid::from_bytes(nd_arr()); t.insert(i, p); }
        if case & 64 != 0 { t.insert(gap, Partition { part_type_guid: pt::UNUSED, ..part(nd_u64(), nd_u64(), 77) }); }
        match d.update_partitions(t) { Ok(()) => {} Err(_) => { check(false, "accepted"); stop() } }
    } else {
        g = nd_geo(case, if case & 256 != 0 { 200 } else if case & 8192 != 0 { 5 } else { 128 });
        dev = Dev::new(g.len);
        dev.0.borrow_mut().fill = 0xa5;
        let mut es = nd_entries(&ids);
        for (_, e) in es.iter_mut() { for x in e[16..32].iter_mut() { *x = nd_u8(); } }
        if case & 64 != 0 { es.push((gap, raw_entry(&Uuid::nil(), &guid(7), nd_u64(), nd_u64(), 1))); }
        put_gpt(&dev, &g, &id, &es, src != 2, src != 3);
        if case & 32768 != 0 {
            // an old backup, written before the table was last changed
            let old = nd_entries(&[1, 2, 3, 4, 5, 10, g.num - 1, g.num].map(|i| if i > g.num { 1 } else { i }));
            put_gpt(&dev, &g, &guid(0x01d), &old, false, true);
        }
        dev.set_pos(nd_u64());
        d = match config(case).open_from_device(dev.clone()) { Ok(d) => d, Err(_) => { check(false, "opens"); stop() } };
        check(d.partitions().len() == es.len(), "every entry is read");
        for (i, e) in &es {
            match d.partitions().get(i) {
                Some(q) => check((u64at(e, 32) == q.first_lba) & (u64at(e, 40) == q.last_lba) & (u64at(e, 48) == q.flags) && q.part_guid.to_bytes_le() == e[16..32] && (*i == gap || q.part_type_guid == vtype(*i) && q.name == vname(*i)), "entries are read as they are"),
                None => check(false, "every entry is read"),
            }
        }
    }
    let want = d.partitions().values().filter(|p| p.is_used()).cloned().collect();
    Prep { d, dev, g, want, id }
}
pub fn used(t: &BTreeMap<u32, Partition>) -> Vec<Partition> { t.values().filter(|p| p.is_used()).cloned().collect() }
pub fn save(p: &mut Prep) -> bool {
    p.dev.clear_ops();
    p.dev.clear_writes();
    p.dev.set_pos(nd_u64());
    match p.d.write_inplace() { Ok(()) => { reach("saved"); true } Err(_) => { check(false, "saving succeeds"); false } }
}

/// write then reopen reports the same table, from either header
pub fn roundtrip(case: u64) {
    let mut p = prep(case);
    let mem = p.d.partitions().clone();
    let base = p.dev.image();
    if !save(&mut p) { return; }
    check(*p.d.partitions() == mem, "saving keeps the table in memory");
    // final image: old content overlaid with the writes
    let img = base;
    for (o, w) in p.dev.writes() { img.put(o, &w); }
    let r = match config(case).only_valid_headers(case & 128 == 0).open_from_device(img.image()) { Ok(r) => r, Err(_) => { check(false, "reopens"); return; } };
    reach("opened");
    check(*r.guid() == p.id, "disk guid");
    check(used(r.partitions()) == p.want && r.partitions().len() == p.want.len(), "the same used partitions in the same order");
    let ids: Vec<u32> = r.partitions().keys().cloned().collect();
    check(ids == (1..=p.want.len() as u32).collect::<Vec<_>>(), "numbered from 1");
    for q in r.partitions().values() { hash_part(q); }
    match (r.primary_header(), p.d.primary_header()) { (Ok(a), Ok(b)) => check(a == b, "the object's primary header is the one on disk"), _ => check(false, "primary valid") }
    if case & 128 == 0 {
        match (r.backup_header(), p.d.backup_header()) { (Ok(a), Ok(b)) => check(a == b, "the object's backup header is the one on disk"), _ => check(false, "backup valid") }
        // the primary is lost: the backup alone yields the same table
        let lost = img.image();
        lost.put(p.g.lbs, &[0u8; 92]);
        match config(case).open_from_device(lost) {
            Ok(b) => { reach("backup"); check(used(b.partitions()) == p.want && b.partitions().len() == p.want.len() && *b.guid() == p.id, "the backup alone holds the same table"); check(b.primary_header().is_err(), "primary reported invalid"); }
            Err(_) => check(false, "opens from the backup"),
        }
    }
}

/// more partitions than fit a byte: 260 partitions on a disk created with permission to change the count. bits: 0 block size; 1 opened again from the backup
pub fn many(case: u64) {
    let len = if case & 4 == 0 { lbs(case) << 20 } else { nd_len(case, 400, 1 << 50) };
    let dev = Dev::new(len);
    let mut d = match cfg(case).change_partition_count(true).create_from_device(dev.clone(), Some(GUID)) { Ok(d) => d, Err(_) => { check(false, "created"); return; } };
    let mut t = BTreeMap::new();
    for i in 1..=270u32 {
        if i % 27 == 5 { continue; }
        let mut p = part(i as u64 + 100, i as u64 + 100, i as u128);
        if i == 1 || i == 131 || i == 260 { p.first_lba = nd_u64(); p.last_lba = nd_u64(); p.flags = nd_u64(); }
        t.insert(i, p);
    }
    check(d.update_partitions(t.clone()).is_ok(), "accepted with permission");
    let want = used(&t);
    check(d.header().num_parts == 260 && want.len() == 260, "an entry for every partition");
    let (h1, h2) = (d.header().clone(), d.backup_header().ok().cloned());
    if !d.write_inplace().is_ok() { check(false, "saves"); return; }
    reach("saved");
    let img = dev.image();
    if case & 2 != 0 { img.put(lbs(case), &[0u8; 92]); }
    match cfg(case).open_from_device(img) {
        Ok(r) => {
            reach("opened");
            check(used(r.partitions()) == want && r.partitions().len() == 260, "the same partitions in the same order");
            check(r.partitions().keys().cloned().eq(1..=260), "numbered from 1");
            check(r.primary_header().is_ok() == (case & 2 == 0) && r.backup_header().is_ok(), "headers");
            check(r.header().num_parts == 260 && r.header().first_usable == h1.first_usable && Some(r.header().last_usable) == h2.map(|h| h.last_usable), "layout");
        }
        Err(_) => check(false, "reopens"),
    }
}

/// where saving may write: header blocks and tables only
pub fn footprint(case: u64) {
    let mut p = prep(case);
    if !save(&mut p) { return; }
    let g = p.g;
    let rob = case & 128 != 0;
    let w = p.dev.writes();
    check(!w.is_empty(), "something is written");
    for (o, d) in &w {
        let e = *o + d.len() as u64;
        let front = (*o >= g.lbs) & (e <= g.fu * g.lbs);
        let back = (*o >= (g.lu + 1) * g.lbs) & (e <= (g.bak + 1) * g.lbs);
        check(front | back, "only blocks between the MBR and the usable area or behind the usable area are written");
        if rob { check(front, "a read-only backup is not written"); }
    }
    check(p.dev.0.borrow().len == g.len, "the device does not grow");
    // header blocks and tables do not overlap each other
    if let Ok(h) = p.d.primary_header() { check((h.current_lba == 1) & (h.part_start >= 2) & ((h.part_start + arr_blocks(g.num, g.lbs)) <= g.fu), "primary table inside the front area"); }
    else { check(false, "primary"); }
    if rob { let same = match ((case >> 4) & 3, p.d.backup_header()) { (0, Err(_)) | (3, Err(_)) => true, (1, Ok(h)) | (2, Ok(h)) => h.part_start == g.bps && h.current_lba == g.bak, _ => false }; check(same, "a read-only backup header object stays as it was"); }
    else if let Ok(h) = p.d.backup_header() { check((h.current_lba == g.bak) & (h.part_start > g.lu) & ((h.part_start + arr_blocks(g.num, g.lbs)) <= g.bak), "backup table inside the back area"); }
    else { check(false, "backup"); }
}

/// raw image after saving: both copies agree and follow the format; nothing stale remains
pub fn raw(case: u64) {
    let mut p = prep(case);
    if !save(&mut p) { return; }
    let g = p.g;
    let img = p.dev.image();
    let l = g.lbs as usize;
    let h1 = img.read_at(g.lbs, l);
    let h2 = img.read_at(g.bak * g.lbs, l);
    let n = g.num as usize * 128;
    let mut tabs = vec![];
    for (h, me, other) in [(&h1, 1, g.bak), (&h2, g.bak, 1)] {
        check(h[..8] == *b"EFI PART" && h[8..12] == [0, 0, 1, 0] && u32at(h, 12) == 92, "signature, revision 1.0, size 92");
        check(h[20..24] == [0; 4] && h[92..].iter().all(|x| *x == 0), "reserved bytes and the rest of the block are zero");
        let mut z = h[..92].to_vec();
        z[16..20].fill(0);
        check(u32at(h, 16) == crc32(&z), "header checksum");
        check((u64at(h, 24) == me) & (u64at(h, 32) == other), "own and alternate position");
        check((u64at(h, 40) == g.fu) & (u64at(h, 48) == g.lu), "usable area");
        check(h[56..72] == p.id.to_bytes_le(), "disk guid");
        check((u32at(h, 80) == g.num) & (u32at(h, 84) == 128), "table shape");
        let t = img.read_at(u64at(h, 72) * g.lbs, n);
        check(u32at(h, 88) == crc32(&t), "table checksum");
        tabs.push(t);
    }
    check(u64at(&h1, 72) == 2, "primary table after the primary header");
    check(tabs[0] == tabs[1], "both tables are identical");
    let t = &tabs[0];
    for (i, q) in p.want.iter().enumerate() {
        let mut e = raw_entry(&q.part_type_guid.guid, &q.part_guid, q.first_lba, q.last_lba, q.flags);
        put_name(&mut e, &q.name);
        check(t[i * 128..i * 128 + 128] == e, "entries in id order");
    }
    check(t[p.want.len() * 128..].iter().all(|x| *x == 0), "all other entries are zero, whatever was there before");
    reach("done");
}

/// saving twice changes nothing
pub fn idem(case: u64) {
    let mut p = prep(case);
    if !save(&mut p) { return; }
    let (h1, h2) = (p.d.primary_header().ok().cloned(), p.d.backup_header().ok().cloned());
    let n1 = p.dev.n_writes();
    let img1 = p.dev.crash(n1);
    match p.d.write_inplace() { Ok(()) => {} Err(_) => { check(false, "saves again"); return; } }
    let img2 = p.dev.image();
    let g = p.g;
    let n = g.num as usize * 128;
    let l = g.lbs as usize;
    for (o, m) in [(0, 446), (g.lbs, l), (2 * g.lbs, n), (g.bps * g.lbs, n), (g.bak * g.lbs, l)] { check(img1.read_at(o, m) == img2.read_at(o, m), "the second save leaves the same bytes"); }
    check(p.d.primary_header().ok().cloned() == h1 && p.d.backup_header().ok().cloned() == h2, "the same headers");
    // and a save right after reopening too
    let dev3 = img2.image();
    match config(case).open_from_device(dev3.clone()) {
        Ok(mut r) => {
            check(r.write_inplace().is_ok(), "saves after reopening");
            let img3 = dev3.image();
            for (o, m) in [(g.lbs, l), (2 * g.lbs, n), (g.bps * g.lbs, n), (g.bak * g.lbs, l)] { check(img2.read_at(o, m) == img3.read_at(o, m), "opening and saving leaves the same bytes"); }
            reach("done");
        }
        Err(_) => check(false, "reopens"),
    }
}

/// an updated disk guid reaches both headers
pub fn guid_update(case: u64) {
    let mut p = prep(case);
    let new = Uuid::from_bytes(nd_arr());
    let some = nd_bool();
    p.d.update_guid(if some { Some(new) } else { None });
    let now = *p.d.guid();
    if some { check(now == new, "the given guid is reported"); } else { assume(p.id.as_bytes()[0] != 0x5e); check(now.get_version_num() == 4 && now != p.id, "a random guid is generated"); }
    check(p.dev.n_writes() == 0, "nothing written before saving");
    if !save(&mut p) { return; }
    let img = p.dev.image();
    check(img.read_at(p.g.lbs + 56, 16) == now.to_bytes_le(), "primary header");
    check(img.read_at(p.g.bak * p.g.lbs + 56, 16) == now.to_bytes_le(), "backup header");
    check(*p.d.guid() == now && p.d.header().disk_guid == now, "the object agrees");
    match config(case).only_valid_headers(true).open_from_device(img.image()) {
        Ok(r) => { check(*r.guid() == now, "reopened guid"); check(used(r.partitions()) == p.want, "partitions kept"); reach("done"); }
        Err(_) => check(false, "reopens"),
    }
}

/// a read-only disk is never written; nothing but saving writes. bits 9-11: operation
pub fn readonly(case: u64) {
    let mut p = prep(case);
    let dev = p.dev.clone();
    let pos = dev.pos();
    match (case >> 9) & 7 {
        0 => { let s = nd_u64(); assume(s > 0); let _ = p.d.add_partition("a", s, pt::LINUX_FS, nd_u64(), Some(nd_u8() as u64)); }
        1 => { let n = nd_u64(); assume(n > 0); let _ = p.d.add_partition_at("b", 1 + nd_u8() as u32, nd_u64(), n, pt::EFI, nd_u64()); }
        2 => { observe(p.d.find_free_sectors().len() as u64); observe(p.d.calculate_alignment()); let _ = p.d.find_next_partition_id(); let _ = (p.d.header().num_parts, p.d.guid(), p.d.device_ref().pos(), p.d.logical_block_size()); }
        3 => { let _ = p.d.remove_partition(nd_u32()); let _ = p.d.remove_partition_by_guid(Uuid::from_bytes(nd_arr())); let t = p.d.take_partitions(); let _ = p.d.update_partitions(t); }
        4 => { p.d.update_guid(None); p.d.update_guid(Some(GUID)); let c = p.d.clone(); let mut w = c.with_disk_device(dev.clone(), true); let _ = w.update_disk_device(dev.clone(), true); drop(w.take_device()); }
        _ => {}
    }
    check(dev.0.borrow().write_calls == 0 && dev.0.borrow().flushes == 0, "nothing but saving touches the medium");
    let _ = pos;
    // not writable
    let mut ro = p.d.with_disk_device(dev.clone(), false);
    match ro.write_inplace() { Err(GptError::ReadOnly) => reach("ro"), _ => check(false, "saving a read-only disk is refused") }
    if (case >> 9) & 7 < 5 { reach("ops"); } else if (case >> 4) & 3 != 0 {
        match config(case).writable(false).open_from_device(dev.clone()) {
            Ok(d) => match d.write() { Err(GptError::ReadOnly) => reach("ro2"), _ => check(false, "saving a disk opened read-only is refused") },
            Err(_) => check(false, "opens"),
        }
    } else {
        match config(case).writable(false).create_from_device(dev.clone(), None) {
            Ok(d) => match d.write() { Err(GptError::ReadOnly) => reach("ro2"), _ => check(false, "saving a disk created read-only is refused") },
            Err(_) => check(false, "creates"),
        }
    }
    let _ = p.d.update_disk_device(dev.clone(), false);
    match p.d.write_inplace() { Err(GptError::ReadOnly) => reach("ro3"), _ => check(false, "saving after switching to read-only is refused") }
    check(dev.0.borrow().write_calls == 0 && dev.0.borrow().flushes == 0, "a refused save writes nothing");
}

/// a device error during saving is always reported. bits 9: error persists; 10: a transfer moves nothing instead
pub fn fault(case: u64) {
    let mut p = prep(case);
    p.dev.clear_ops();
    p.dev.clear_writes();
    let k = nd_u64();
    assume(k < 200);
    { let mut s = p.dev.0.borrow_mut(); s.fail_at = k; s.kind = any_kind(); s.dead = case & 512 != 0; s.blind = true; s.full = case & 1024 != 0; }
    let mem = p.d.partitions().clone();
    let r = p.d.write_inplace();
    let failed = p.dev.0.borrow().failed;
    match r {
        Ok(()) => { reach("ok"); check(failed.is_none(), "success is reported only if every device operation succeeded"); check(p.dev.0.borrow().flushed_at == p.dev.n_writes() && p.dev.0.borrow().flushes > 0, "everything written is flushed"); }
        Err(GptError::Io(_)) | Err(GptError::Header(gpt::header::HeaderError::Io(_))) => { reach("err"); check(failed.is_some(), "an error is reported only if there was one"); match failed { Some(Op::Read) => reach("read"), Some(Op::Write) => reach("write"), Some(Op::Flush) => reach("flush"), _ => reach("seek") } }
        Err(_) => check(false, "unexpected error"),
    }
    check(*p.d.partitions() == mem, "the table in memory is kept");
    // saving again on a healed device repairs everything
    if failed.is_some() {
        { let mut s = p.dev.0.borrow_mut(); s.fail_at = u64::MAX; s.failed = None; s.dead = false; }
        check(p.d.write_inplace().is_ok(), "saving again succeeds");
        match config(case).only_valid_headers(case & 128 == 0).open_from_device(p.dev.image()) { Ok(r) => { reach("healed"); check(used(r.partitions()) == p.want, "and the table is complete"); } Err(_) => check(false, "and it opens") }
    }
}

/// short transfers and interrupted calls make no difference. bits 9-10: sizes; 11: small ones; 12: instead one arbitrary call is short (bits 9-10: how) and the next one interrupted
pub fn short(case: u64) {
    let mut p = prep(case & 511);
    p.dev.clear_writes();
    let how = (case >> 9) & 3;
    let sizes = |a: [usize; 4], b: [usize; 4]| if case & 4096 != 0 { usize::MAX } else if case & 2048 != 0 { b[how as usize] } else { a[how as usize] };
    let every = if case & 4096 != 0 { 0 } else { [3, 2, 5, 4][how as usize] };
    let side = nd_bool();
    let n = nd_u64();
    assume(n < 400);
    let at = |i: u64| if case & 4096 != 0 && (i == 0) == side { n } else { u64::MAX };
    { let mut s = p.dev.0.borrow_mut(); s.chunk = sizes([7000usize, 512, 777, 16384 + 1], [91, 127, 50, 300]); s.intr_every = every; s.short_at = at(0); s.short_how = how; s.rw = 0; }
    if !p.d.write_inplace().is_ok() { check(false, "saves"); return; }
    let img = p.dev.image();
    { let mut s = img.0.borrow_mut(); s.chunk = sizes([1000, 512, 333, 4096], [50, 91, 127, 64]); s.intr_every = every; s.short_at = at(1); s.short_how = how; s.rw = 0; }
    match config(case).only_valid_headers(true).open_from_device(img) {
        Ok(r) => { reach("done"); check(used(r.partitions()) == p.want && *r.guid() == p.id, "the same table"); }
        Err(_) => check(false, "opens"),
    }
}

/// the medium's state at any crash point during a save never yields a mixed table.
/// bits 9-10: crash model: 0 prefix of the writes, 1 prefix and a torn last write (block granularity), 2 any subset of the writes; 11 recovery by another save; 12 which crashes too; 13 two partitions are dropped and the last is changed
pub fn crash(case: u64) {
    let mut p = prep(case & 511);
    let old = p.want.clone();
    // change the table: drop one, add one
    let base;
    if (case >> 4) & 3 == 0 {
        // a created disk: save the old state first
        if !save(&mut p) { return; }
        base = p.dev.image();
    } else { base = p.dev.image(); }
    let old_id = p.id;
    let mut t = p.d.take_partitions();
    let first = t.keys().next().cloned();
    if let Some(f) = first { t.remove(&f); }
    if case & 8192 != 0 {
        let first = t.keys().next().cloned();
        if let Some(f) = first { t.remove(&f); }
        if let Some(x) = t.values_mut().next() { x.flags = nd_u64(); x.name = "changed".to_string(); }
    } else { t.insert(50, part(nd_u64(), nd_u64(), 50)); }
    match p.d.update_partitions(t) { Ok(()) => {} Err(_) => { check(false, "accepted"); return; } }
    let new_id = Uuid::from_bytes(nd_arr());
    p.d.update_guid(Some(new_id));
    let new = used(p.d.partitions());
    if !save(&mut p) { return; }
    let w = p.dev.writes();
    let img = base;
    match (case >> 9) & 3 {
        2 => for (o, d) in &w { if nd_bool() { img.put(*o, d); } },
        m => {
            let k = nd_u64();
            assume(k <= w.len() as u64);
            let k = pick(k) as usize;
            for (o, d) in &w[..k] { img.put(*o, d); }
            if m == 1 && k < w.len() {
                let (o, d) = &w[k];
                let blocks = d.len() / 512;
                let b = nd_u64();
                assume(b <= blocks as u64);
                let b = pick(b) as usize;
                img.put(*o, &d[..b * 512]);
            }
        }
    }
    let p2 = img.image();
    match config(case & 511).open_from_device(p2.clone()) {
        Ok(r) => {
            let got = used(r.partitions());
            let (o, n) = (got == old && *r.guid() == old_id, got == new && *r.guid() == new_id);
            if o { reach("old"); } else { reach("new"); }
            check(o | n, "a reopened disk shows the old or the new state, never a mixture");
            if case & 2048 != 0 {
                // saving what was found makes the disk whole again
                let mut r = r;
                r.device_ref().clear_writes();
                let before = p2.image();
                check(r.write_inplace().is_ok(), "saves after the crash");
                let mut img2 = p2.clone();
                if case & 4096 != 0 {
                    let w = p2.writes();
                    let k = nd_u64();
                    assume(k <= w.len() as u64);
                    let k = pick(k) as usize;
                    for (o, d) in &w[..k] { before.put(*o, d); }
                    img2 = before;
                }
                match config(case & 511).only_valid_headers(case & 4096 == 0).open_from_device(img2) {
                    Ok(z) => { reach("whole"); check(used(z.partitions()) == got && z.guid() == r.guid(), "the state found after the crash is kept"); }
                    Err(_) => check(case & 4096 != 0, "the disk is whole again"),
                }
            }
        }
        Err(_) => reach("unreadable"),
    }
}
