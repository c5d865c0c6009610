use crate::common::*;
use crate::dev::{any_kind, Dev};
use crate::h_rw::{config, prep, save, used};
use crate::rt::*;

fn inside(s: &[(u64, u64)], fu: u64, lu: u64) -> bool { let mut ok = true; for x in s { ok &= (x.0 >= fu) & (x.1 <= lu); } ok }

/// Growing (or refusing to grow) the partition count.
/// bits: 0 block size, 1-2 operation (0 update, 1 add, 2 add_at), 3 permission, 4-6 entries of the opened disk
/// (0 created with 128, 1: 4, 2: 130, 3: 200, 4: 128, 5: 160), 7 full table, 8 every second entry of the new table is unused, 9 only the backup copy is there
pub fn count(case: u64) {
    let perm = case & 8 != 0;
    let kind = (case >> 4) & 7;
    let num0 = [128u32, 4, 130, 200, 128, 160, 258, 515][kind as usize];
    let l = lbs(case);
    let c = cfg(case).change_partition_count(perm);
    let dev;
    let (mut d, bak) = if kind == 0 {
        let len = nd_len(case, 80, 1 << 50);
        dev = Dev::new(len);
        match c.create_from_device(dev.clone(), Some(GUID)) { Ok(d) => (d, len / l - 1), Err(_) => { check(false, "created"); return; } }
    } else {
        let g = nd_geo(case, num0);
        assume(g.bak > 60 * 4096 / l + 60);
        dev = Dev::new(g.len);
        let mut es = nd_entries(&[1, 3]);
        if case & 128 != 0 { for (_, e) in &es { let x = entry_span(e); assume((x.0 > 1) & (x.0 <= x.1)); } for i in 1..=num0 { if i != 1 && i != 3 { es.push((i, raw_entry(&LINUX, &guid(i as u128), 1, 1, 0))); } } }
        put_gpt(&dev, &g, &GUID, &es, case & 512 == 0, case & 512 != 0);
        match c.open_from_device(dev.clone()) { Ok(d) => (d, g.bak), Err(_) => { check(false, "opened"); return; } }
    };
    if case & 128 != 0 && kind == 0 {
        let mut t = BTreeMap::new();
        let (f, u) = (d.header().first_usable, d.header().last_usable);
        for i in 1..=128u32 { t.insert(i, if i == 1 { part(f, f, 1) } else { part(u, u, i as u128) }); }
        check(d.update_partitions(t).is_ok(), "a table of 128 partitions is accepted");
    }
    let h0 = d.header().clone();
    let b0 = d.backup_header().ok().cloned();
    let before = d.partitions().clone();
    // entries needed for the request
    let mut need = before.len() as u32;
    let mut ids = 0u32;
    for i in before.keys() { if *i > ids { ids = *i; } }
    let res = match (case >> 1) & 3 {
        0 => {
            let n = if kind > 5 { num0 - 1 + pick(nd_below(4)) as u32 } else { [2u32, 4, 126, 127, 128, 129, 130, 131, 160, 161, 200, 201][pick(nd_below(12)) as usize] };
            let mut t = BTreeMap::new();
            for i in 1..=n { let p = part(h0.first_usable, h0.first_usable, i as u128); t.insert(i, if case & 256 != 0 && i % 2 == 0 { Partition { part_type_guid: pt::UNUSED, ..p } } else { p }); }
            need = n;
            ids = 0;
            d.update_partitions(t)
        }
        1 => {
            let free = (1..=num0).find(|i| !before.contains_key(i));
            if free.is_none() { need += 1; }
            ids = 0;
            d.add_partition("n", 1, pt::LINUX_FS, 0, None).map(|i| { check(i == free.unwrap_or(num0 + 1), "the new id"); })
        }
        _ => {
            let id = nd_u32();
            let far = if kind > 5 { num0 - 2 } else { 126 };
            assume((id > 0) & ((id < 6) | (id > far)));
            assume((id < far + 6) | (id == 160) | (id == 161) | (id == 200) | (id == 201) | (id == 1000));
            let id = pick(id as u64) as u32;
            if !before.contains_key(&id) { need += 1; }
            ids = id;
            d.add_partition_at("n", id, h0.first_usable.wrapping_add(1), 1, pt::LINUX_FS, 0).map(|_| ())
        }
    };
    let h = d.header().clone();
    let required = need.max(ids);
    match res {
        Ok(()) => {
            reach("ok");
            check(h.num_parts >= num0, "the entry count never shrinks");
            check(h.num_parts as usize >= d.partitions().len(), "there is an entry for every partition");
            if !perm { check((h.num_parts == num0) & (h.first_usable == h0.first_usable) & (h.last_usable == h0.last_usable) & ((h.part_start == h0.part_start) | (case & 512 != 0) & (h.current_lba == 1) & (h.part_start == 2)), "without permission neither count nor usable area change"); reach("kept"); }
            else {
                check((h.num_parts == num0) | (h.num_parts == need.max(128)), "the count grows to what is needed");
                if h.num_parts > num0 {
                    reach("grown");
                    let ab = arr_blocks(h.num_parts, l);
                    let (fu, lu) = (h0.first_usable.max(2 + ab), h0.last_usable.min(bak.wrapping_sub(1 + ab)));
                    check((h.first_usable == fu) & (h.last_usable == lu), "the usable area gives way to the larger table, by no more than needed");
                    let old: Vec<_> = before.values().filter(|p| p.is_used()).map(|p| (p.first_lba, p.last_lba)).collect();
                    check(!inside(&old, h0.first_usable, h0.last_usable) | inside(&old, h.first_usable, h.last_usable), "kf:KF1 growing the table keeps every partition in the usable area");
                    match d.backup_header() { Ok(b) => check((b.num_parts == h.num_parts) & (b.first_usable == h.first_usable) & (b.last_usable == h.last_usable), "both headers agree"), Err(_) => check(false, "backup header") }
                }
            }
        }
        Err(e) => {
            match e {
                GptError::PartitionCountWouldChange => { reach("refused"); check(!perm, "refused only without permission"); check((required > num0) | (num0 < 128), "refused only if the request needs more entries"); }
                GptError::PartitionIdAlreadyUsed => check(before.get(&ids).map_or(false, |p| p.is_used()), "in use"),
                GptError::NotEnoughSpace => reach("full"),
                GptError::Header(_) => { reach("header"); check(perm, "the layout cannot change without permission"); }
                _ => check(false, "unexpected error"),
            }
            check(*d.partitions() == before, "a refused request keeps the table");
            check(h == h0 && d.backup_header().ok().cloned() == b0, "a refused request keeps the headers");
        }
    }
    check(dev.0.borrow().write_calls == 0, "nothing written");
}

/// Operations failing on a device error, or for lack of room, leave the disk object as it was.
/// bits: 0 block size; 1-3 operation; 4 created / opened; 5 without permission to change the count; 6 two partitions in the table
pub fn failed(case: u64) {
    let mut p = prep((case & 1) | if case & 64 != 0 { 4 } else { 2 } | (case & 16));
    // permit growth through a fresh object over the same medium
    let dev = p.dev.clone();
    let perm = case & 32 == 0;
    let mut keep = p.d.partitions().clone();
    if case & 16 != 0 { p.d = match cfg(case).change_partition_count(perm).open_from_device(dev.clone()) { Ok(d) => d, Err(_) => { check(false, "opens"); return; } }; }
    else { p.d = match cfg(case).change_partition_count(perm).create_from_device(dev.clone(), Some(GUID)) { Ok(d) => d, Err(_) => { check(false, "creates"); return; } }; }
    if case & 64 != 0 && case & 16 == 0 { check(p.d.update_partitions(std::mem::take(&mut keep)).is_ok(), "accepted"); }
    dev.clear_ops();
    let k = nd_u64();
    assume(k < 60);
    { let mut s = dev.0.borrow_mut(); s.fail_at = k; s.kind = any_kind(); }
    let (t0, h0, g0) = (p.d.partitions().clone(), p.d.clone(), *p.d.guid());
    let fu = p.d.header().first_usable;
    let r: Result<(), GptError> = match (case >> 1) & 7 {
        0 => { let mut t = t0.clone(); t.insert(60, part(1, 2, 3)); p.d.update_partitions(t) }
        1 => { let mut t = BTreeMap::new(); for i in 1..=140u32 { t.insert(i, part(fu, fu, 3)); } p.d.update_partitions(t) }
        2 => { let f = p.d.find_free_sectors(); let at = f.first().map_or(0, |x| x.0); p.d.add_partition_at("x", 140, at, 1, pt::LINUX_FS, 0).map(|_| ()) }
        3 => p.d.add_partition("x", 5000, pt::LINUX_FS, 0, None).map(|_| ()),
        _ => { let n = nd_u32(); assume(n > 1000); let f = p.d.find_free_sectors(); let at = f.first().map_or(0, |x| x.0); p.d.add_partition_at("x", n, at, 1, pt::LINUX_FS, 0).map(|_| ()) }
    };
    if r.is_err() {
        reach("err");
        check(*p.d.partitions() == t0, "a failed operation keeps the table");
        check(same_headers(&p.d, &h0), "a failed operation keeps the headers");
        check(*p.d.guid() == g0, "and the guid");
    } else {
        reach("ok");
        check(dev.0.borrow().failed.is_none(), "no device error is swallowed");
    }
    check(dev.0.borrow().write_calls == 0, "nothing written");
}

/// Sequences of operations from an empty disk, then save and reopen.
/// bits: 0 block size; 1-3 sequence; 4 save and reopen after the first operation; 5-6 group of sequences
pub fn history(case: u64) {
    let len = nd_len(case, 40, 1 << 50);
    let mut dev = Dev::new(len);
    let l = lbs(case);
    dev.0.borrow_mut().fill = 0x77;
    let mut d = match cfg(case).create_from_device(dev.clone(), Some(GUID)) { Ok(d) => d, Err(_) => { assume(false); stop() } };
    let (fu, lu) = (d.header().first_usable, d.header().last_usable);
    let seqs: [[&[u8]; 8]; 7] = [
        [b"AAA", b"ARA", b"TAT", b"ATR", b"AGRA", b"TTA", b"ATA", b"TRAT"],
        [b"ASRSA", b"TSTRS", b"AASRA", b"ACRA", b"AUTR", b"SASAS", b"TQA", b"TMRA"],
        [b"GSGS", b"AMSR", b"TUQA", b"CACRS", b"TTSR", b"AUSU", b"ASMS", b"TGSQ"],
        [b"AFA", b"TFRS", b"FTA", b"AFSR", b"TFGS", b"AFM", b"TFQA", b"AFU"],
        [b"AsQ", b"AsR", b"AsG", b"AsU", b"AsT", b"AsAs", b"AsMs", b"AsCQ"],
        [b"AARW", b"ATWA", b"WAsW", b"AWsR", b"TWQs", b"ANA", b"ANSA", b"ANsT"],
        [b"AsN", b"ATNA", b"ANRA", b"TNTs", b"AGNs", b"ANFs", b"AFNA", b"UAsU"],
    ];
    // bits 9-12: instead, a first operation followed by this one and by (bits 13-14) arbitrary ones
    let ops: &[u8] = b"ATRQUGCWMsSFN";
    let seq: Vec<u8> = match (case >> 9) & 15 {
        0 => seqs[((case >> 5) & 7) as usize][((case >> 1) & 7) as usize].to_vec(),
        k => { let mut v = vec![if case & 2 == 0 { b'A' } else { b'T' }, ops[k as usize - 1]]; for _ in 0..(case >> 13) & 3 { v.push(b'?'); } v }
    };
    let mut id_now = GUID;
    for (i, op) in seq.into_iter().enumerate() {
        let op = if op == b'?' { ops[pick(nd_below(ops.len() as u64)) as usize] } else { op };
        let before = d.partitions().clone();
        match op {
            b'A' => { let s = nd_u64(); assume((s > 0) & (s <= 1 << 50)); let al = if i == 1 { Some(nd_u8() as u64 & 7) } else { None }; let _ = d.add_partition(&vname(i as u32), s, vtype(i as u32), i as u64, al); }
            b'T' => { let (id, f, n) = (1 + (nd_u8() & 3) as u32, nd_u64(), nd_u64()); assume((n > 0) & (n <= 1 << 50) & (f <= 1 << 50)); let id = pick(id as u64) as u32; let _ = d.add_partition_at(&vname(i as u32 + 2), id, f, n, pt::EFI, i as u64); }
            b'R' => { let id = pick(nd_below(2) + 1) as u32; let had = d.partitions().contains_key(&id); check(d.remove_partition(id).is_some() == had, "removes what exists"); }
            b'Q' => {
                // remove the last one by its guid
                let last = before.iter().next_back().map(|(i, p)| (*i, p.part_guid));
                match last { Some((i, g)) => check(d.remove_partition_by_guid(g) == Some(i), "removes what exists"), None => check(d.remove_partition_by_guid(GUID).is_none(), "removes what exists") }
            }
            b'U' => {
                // replace the table by one without its first entry
                let mut t = d.take_partitions();
                check(t == before, "takes the table");
                let f = t.keys().next().cloned();
                if let Some(f) = f { t.remove(&f); }
                check(d.update_partitions(t).is_ok(), "a smaller table is accepted");
            }
            b'C' => { d = d.clone(); check(*d.partitions() == before && *d.guid() == id_now, "a copy is equal"); }
            b'W' => { d = d.with_disk_device(dev.clone(), true); check(*d.partitions() == before && *d.guid() == id_now, "a copy is equal"); }
            b's' => { check(d.write_inplace().is_ok(), "saves"); check(*d.partitions() == before && *d.guid() == id_now, "a save changes nothing in memory"); }
            b'N' => {
                // the first entry is no longer in use
                let mut t = d.take_partitions();
                if let Some(p) = t.values_mut().next() { p.part_type_guid = pt::UNUSED; }
                check(d.update_partitions(t).is_ok(), "a table of the same size is accepted");
            }
            b'M' => {
                // move to another device of the same size
                let n = Dev::new(len);
                n.0.borrow_mut().fill = 0x3d;
                let _ = d.update_disk_device(n.clone(), true);
                dev = n;
            }
            b'F' => {
                // a save meets a device error
                dev.clear_ops();
                let k = nd_u64();
                assume(k < 64);
                dev.0.borrow_mut().fail_at = k;
                let ok = d.write_inplace().is_ok();
                check(ok == dev.0.borrow().failed.is_none(), "a failed save is reported");
                if !ok { reach("failed"); }
                { let mut s = dev.0.borrow_mut(); s.fail_at = u64::MAX; s.failed = None; }
                check(*d.partitions() == before && *d.guid() == id_now, "a save changes nothing in memory");
            }
            b'S' => {
                let want = used(d.partitions());
                check(d.write_inplace().is_ok(), "saves");
                d = match cfg(case).only_valid_headers(true).open_from_device(dev.clone()) { Ok(d) => d, Err(_) => { check(false, "reopens"); return; } };
                check(used(d.partitions()) == want && *d.guid() == id_now, "the saved partitions are there");
                reach("mid");
            }
            _ => { id_now = nd_guid(); d.update_guid(Some(id_now)); }
        }
        let gs: Vec<Uuid> = d.partitions().values().map(|p| p.part_guid).collect();
        for a in 0..gs.len() { for b in 0..a { check(gs[a] != gs[b], "every partition has a guid of its own"); } check(gs[a] != *d.guid(), "every partition has a guid of its own"); }
        let s = spans(d.partitions());
        for a in 0..s.len() {
            check((s[a].0 >= fu) & (s[a].0 <= s[a].1) & (s[a].1 <= lu), "every partition lies in the usable area");
            for b in 0..a { check(!overlap(s[a], s[b]), "partitions never overlap"); }
        }
        if i == 0 && case & 16 != 0 {
            let want = used(d.partitions());
            check(d.write_inplace().is_ok(), "saves");
            d = match cfg(case).only_valid_headers(true).open_from_device(dev.clone()) { Ok(d) => d, Err(_) => { check(false, "reopens"); return; } };
            check(used(d.partitions()) == want, "the saved partitions are there");
            reach("mid");
        }
    }
    let want = used(d.partitions());
    observe(want.len() as u64);
    check(d.header().first_usable == fu && d.header().last_usable == lu, "the usable area is unchanged");
    dev.clear_ops();
    let dev2 = match d.write() { Ok(x) => x, Err(_) => { check(false, "saves"); return; } };
    check(std::rc::Rc::ptr_eq(&dev2.0, &dev.0), "saving hands back the device");
    check(dev.0.borrow().flushed_at == dev.n_writes(), "everything written is flushed");
    for (o, w) in dev.writes() {
        let e = o + w.len() as u64;
        for p in &want { check((e <= p.first_lba.wrapping_mul(l)) | (o >= (p.last_lba + 1).wrapping_mul(l)), "saving never touches partition contents"); }
    }
    match cfg(case).only_valid_headers(true).open_from_device(dev.clone()) {
        Ok(r) => { reach("done"); check(used(r.partitions()) == want && *r.guid() == id_now, "a reopened disk shows exactly the surviving partitions"); }
        Err(_) => check(false, "reopens"),
    }
}

/// the permission to change the partition count is kept
fn may_grow(d: &GptDisk<Dev>, case: u64) {
    let mut t = BTreeMap::new();
    for i in 1..=140u32 { t.insert(i, part(1, 1, 3)); }
    match d.clone().update_partitions(t) {
        Err(GptError::PartitionCountWouldChange) => check(case & 16384 == 0, "permission is kept"),
        _ => check(case & 16384 != 0, "permission is not gained"),
    }
}
/// Copies of the object and device replacement. bits as in prep; 9-10: 0 with_disk_device, 1 update_disk_device, 2 clone; 11 an updated guid is pending; 12 the device was read-only
pub fn copies(case: u64) {
    let mut p = prep(case & (511 | 16384));
    let dev2 = Dev::new(p.g.len);
    dev2.0.borrow_mut().fill = 0x3c;
    if case & 2048 != 0 { p.d.update_guid(Some(Uuid::from_bytes(nd_arr()))); }
    if case & 4096 != 0 { let _ = p.d.update_disk_device(p.dev.clone(), false); }
    let (t0, g0) = (p.d.partitions().clone(), *p.d.guid());
    match (case >> 9) & 3 {
        0 => {
            let mut n = p.d.with_disk_device(dev2.clone(), true);
            check(*n.partitions() == t0 && *n.guid() == g0 && same_headers(&n, &p.d) && n.logical_block_size() == p.d.logical_block_size(), "the same table, guid, headers and block size");
            may_grow(&n, case);
            check(n.write_inplace().is_ok(), "saves to the new device");
            check(*p.d.partitions() == t0, "the original object is unchanged");
        }
        1 => {
            let old = p.d.update_disk_device(dev2.clone(), true);
            check(std::rc::Rc::ptr_eq(&old.0, &p.dev.0), "the previous device is returned");
            check(*p.d.partitions() == t0 && *p.d.guid() == g0, "the table and guid are kept");
            may_grow(&p.d, case);
            check(p.d.write_inplace().is_ok(), "saves to the new device");
        }
        _ => {
            let mut c = p.d.clone();
            check(*c.partitions() == t0 && *c.guid() == g0 && same_headers(&c, &p.d) && c.logical_block_size() == p.d.logical_block_size(), "a clone is equal");
            may_grow(&c, case);
            let _ = c.remove_partition(1);
            let _ = c.add_partition("c", 1, pt::LINUX_FS, 0, None);
            c.update_guid(Some(guid(99)));
            check(*p.d.partitions() == t0 && *p.d.guid() == g0, "changing a clone leaves the original alone");
            reach("done");
            return;
        }
    }
    check(p.dev.0.borrow().write_calls == 0, "the old device is not touched");
    if case & 128 != 0 { for (o, w) in dev2.writes() { check(o + w.len() as u64 <= p.g.fu * p.g.lbs, "a read-only backup stays so"); } }
    match config(case).only_valid_headers(case & 128 == 0).open_from_device(dev2.image()) {
        Ok(r) => { reach("done"); check(used(r.partitions()) == p.want && r.partitions().len() == p.want.len() && *r.guid() == g0, "the new device holds the same table"); }
        Err(_) => check(false, "the new device opens"),
    }
}

/// A device that changed size since its table was written. bits: 0 block size; 1 grown / shrunk; 2 update the table before saving; 3 only the backup copy is there (the size is unchanged)
pub fn resized(case: u64) {
    let g = nd_geo(case, 128);
    let l = g.lbs;
    let len2 = nd_u64();
    if case & 2 == 0 { assume((len2 >= g.len) & (len2 <= 1 << 60)); } else { assume((len2 < g.len) & (len2 > (g.lu + 2) * l)); }
    let dev = Dev::new(len2);
    dev.0.borrow_mut().fill = 0x91;
    let es = nd_entries(&[1, 2]);
    let s: Vec<_> = es.iter().map(|(_, e)| entry_span(e)).collect();
    assume_wf(&s, g.fu, g.lu);
    let backup = case & 8 != 0;
    if backup { assume(len2 / l == g.len / l); }
    put_gpt(&dev, &g, &GUID, &es, !backup, backup | (case & 6 == 0));
    let mut d = match cfg(case).open_from_device(dev.clone()) { Ok(d) => d, Err(_) => { check(false, "one copy alone opens"); return; } };
    let want = used(d.partitions());
    check(want.len() == 2, "both partitions");
    let bak2 = len2 / l - 1;
    if case & 4 != 0 {
        let t = d.take_partitions();
        match d.update_partitions(t) {
            Ok(()) => {
                reach("updated");
                let h = d.header().clone();
                observe(h.last_usable);
                check(h.backup_lba == bak2, "the backup moves to the end of the device");
                check((h.first_usable == g.fu) & (h.last_usable + 33 - if l == 4096 { 28 } else { 0 } <= bak2), "room for the backup table");
                if case & 2 == 0 { check((bak2 == g.bak) | (h.last_usable == bak2.wrapping_sub(1 + arr_blocks(128, l))), "new space becomes usable"); check(h.last_usable >= g.lu, "the usable area does not shrink"); check((bak2 != g.bak) | (h.last_usable == g.lu), "a device of the same size keeps its usable area"); }
                match d.backup_header() { Ok(b) => check((b.current_lba == bak2) & (b.first_usable == h.first_usable) & (b.last_usable == h.last_usable), "the backup header agrees"), Err(_) => check(false, "a backup header") }
                check(d.write_inplace().is_ok(), "saves");
                for (o, w) in dev.writes() {
                    let e = o + w.len() as u64;
                    check(e <= len2, "nothing is written behind the end");
                    check((o >= l) & (e <= g.fu * l) | (o >= (h.last_usable + 1) * l) & (e <= (bak2 + 1) * l), "nothing is written into the usable area, the old place of the backup neither");
                }
                match cfg(case).only_valid_headers(true).open_from_device(dev.image()) { Ok(r) => { reach("reopened"); check(used(r.partitions()) == want, "the same partitions"); } Err(_) => check(false, "both headers are found") }
            }
            Err(_) => { reach("refused"); check(case & 2 != 0, "a grown device is accepted"); check(d.partitions().is_empty(), "the table is kept"); }
        }
    } else {
        // saving without updating keeps the primary copy readable and the partitions intact
        if case & 2 == 0 {
            check(d.write_inplace().is_ok(), "saves");
            for (o, w) in dev.writes() {
                check(o + w.len() as u64 <= len2, "nothing is written behind the end");
                let e = o + w.len() as u64;
                for x in &s { check((e <= x.0 * l) | (o >= (x.1 + 1) * l), "partition contents are not touched"); }
            }
            match cfg(case).open_from_device(dev.image()) { Ok(r) => { reach("reopened"); check(used(r.partitions()) == want, "the same partitions"); } Err(_) => check(false, "reopens") }
        }
    }
}

/// A device error while opening or creating never yields a wrong object. bits: 0 block size; 4-5 as in prep; 9 persistent; 10 require both; 11 wrong table checksum; 12 a transfer moves nothing instead
pub fn open_fault(case: u64) {
    let p = prep((case & 0x31) | 2);
    let dev = p.dev.clone();
    // the checksum of the table in the primary header is wrong
    let bad = case & 2048 != 0;
    if bad {
        let t = dev.read_at(2 * p.g.lbs, p.g.num as usize * 128);
        dev.put(p.g.lbs, &raw_header(1, p.g.bak, p.g.fu, p.g.lu, &p.id, 2, p.g.num, 128, crc32(&t).wrapping_add(1)));
    }
    dev.clear_ops();
    let k = nd_u64();
    assume(k < 400);
    { let mut s = dev.0.borrow_mut(); s.fail_at = k; s.kind = any_kind(); s.dead = case & 512 != 0; s.full = case & 4096 != 0; }
    if (case >> 4) & 3 == 0 {
        match cfg(case).create_from_device(dev.clone(), Some(GUID)) {
            Ok(d) => { reach("ok"); check(dev.0.borrow().failed.is_none(), "no device error is swallowed"); check(d.partitions().is_empty() && d.header().backup_lba == p.g.bak && d.header().last_usable == p.g.lu, "the same layout"); }
            Err(_) => { reach("err"); check(dev.0.borrow().failed.is_some(), "fails only on an error"); }
        }
    } else {
        match cfg(case).only_valid_headers(case & 1024 != 0).open_from_device(dev.clone()) {
            Ok(d) => {
                reach("ok");
                check(used(d.partitions()) == p.want && *d.guid() == p.id, "the table is the one on the medium");
                if bad { check(d.primary_header().is_err(), "a table with a wrong checksum is never accepted"); }
                check((d.header().first_usable == p.g.fu) & (d.header().last_usable == p.g.lu), "and the usable area");
            }
            Err(_) => { reach("err"); check(dev.0.borrow().failed.is_some() | (case & 1024 != 0) | bad, "fails only on an error"); }
        }
    }
    check(dev.0.borrow().write_calls == 0, "nothing written");
    let _ = save as fn(&mut crate::h_rw::Prep) -> bool;
}
