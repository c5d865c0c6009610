use crate::common::*;
use crate::dev::Dev;
use crate::rt::*;

fn ids(k: u64) -> Vec<u32> { match k { 0 => vec![], 1 => vec![1], 2 => vec![1, 3], 3 => vec![2, 3, 5], _ => vec![1, 2, 3, 6] } }

/// A created disk of symbolic size holding `k` symbolic partitions.
/// ids beyond the partition count, which a table may hold
fn high_ids(k: u64) -> Vec<u32> { match k { 0 => vec![], 1 => vec![130], 2 => vec![1, 200], 3 => vec![1, 129, u32::MAX], _ => vec![2, 128, 129, 1 << 31] } }

pub fn disk(case: u64, ids: &[u32], wf: bool) -> (GptDisk<Dev>, Vec<(u64, u64)>, u64, u64) {
    let dev = Dev::new(nd_len(case, 40, 1 << 60));
    let mut d = match cfg(case).create_from_device(dev, Some(GUID)) { Ok(d) => d, Err(_) => { assume(false); stop() } };
    let (fu, lu) = (d.header().first_usable, d.header().last_usable);
    let mut t = BTreeMap::new();
    for &i in ids { t.insert(i, vpart(i)); }
    let s = spans(&t);
    if wf { assume_wf(&s, fu, lu); } else if case & 2048 == 0 { for x in &s { assume(x.0 <= x.1); } }
    check(d.update_partitions(t).is_ok(), "a table within the partition count is accepted");
    (d, s, fu, lu)
}
/// pre-state: bit 8 = crafted disk with arbitrary usable area, else a created disk
fn pre(case: u64, wf: bool) -> (GptDisk<Dev>, Vec<(u64, u64)>, u64, u64) {
    let k = ids((case >> 1) & 7);
    let k = if case & 1024 != 0 { high_ids((case >> 1) & 7) } else { k };
    if case & 256 == 0 { return disk(case, &k, wf); }
    let (d, _, g, s) = open_crafted(case, &k, 128);
    if wf { assume_wf(&s, g.fu, g.lu); } else if case & 2048 == 0 { for x in &s { assume(x.0 <= x.1); } }
    (d, s, g.fu, g.lu)
}
fn nd_align(case: u64) -> Option<u64> {
    match (case >> 4) & 15 { 0 => None, 1 => Some(1), 2 => Some(2048), 3 => Some(8), 4 => Some(3), 5 => Some(1000), 6 => Some(nd_u8() as u64), _ => Some(nd_u64()) }
}

/// name and type of the request; 7 in bits 13-15: those of the first partition
fn asked(d: &GptDisk<Dev>, case: u64) -> (pt::Type, String) {
    match d.partitions().values().next() {
        Some(p) if case >> 13 == 7 => (p.part_type_guid.clone(), p.name.clone()),
        _ => (nd_type(), rname((((case & 8191) >> 1) + (case >> 13)) as u32)),
    }
}
/// any type but unused
fn nd_type() -> pt::Type { let g = Uuid::from_bytes(nd_arr()); assume(g != Uuid::nil()); pt::Type { guid: g, os: pt::OperatingSystem::Plan9 } }
/// bits: 0 block size, 1-3 partitions, 4-7 alignment, 13-15 another name, 8 crafted disk, 9 arbitrary (overlapping) table, 11 even inverted, 12 an unused entry at the lowest free id, 10 ids beyond the count (created disks)
pub fn add(case: u64) {
    let wf = case & 512 == 0;
    let (mut d, s, fu, lu) = pre(case, wf);
    if case & 4096 != 0 {
        // an unused entry may be replaced
        let mut t = d.take_partitions();
        let free = (1..).find(|i| !t.contains_key(i)).unwrap();
        t.insert(free, Partition { part_type_guid: pt::UNUSED, part_guid: nd_guid(), ..part(nd_u64(), nd_u64(), 77) });
        check(d.update_partitions(t).is_ok(), "accepted");
    }
    let align = nd_align(case);
    let size = nd_u64();
    assume(size > 0);
    let flags = nd_u64();
    let (ty, name) = asked(&d, case);
    let n = (size - 1) / lbs(case) + 1;
    let before = d.partitions().clone();
    let h0 = d.header().clone();
    // any candidate position
    let c = nd_u64();
    let ce = c.wrapping_add(n - 1);
    let fits = (ce >= c) & in_free(&s, fu, lu, c, ce) & align.map_or(true, |a| if a == 0 { true } else { c % a == 0 });
    match d.add_partition(&name, size, ty.clone(), flags, align) {
        Ok(id) => {
            reach("ok");
            observe(id as u64);
            let want = (1..).find(|i| !before.get(i).map_or(false, |p| p.is_used())).unwrap();
            check(id == want, "place: the lowest free id is used");
            let p = match d.partitions().get(&id) { Some(p) => p.clone(), None => { check(false, "the new partition is in the table"); return; } };
            hash_part(&p);
            check(p.first_lba <= p.last_lba, "safe: non-empty");
            check(p.last_lba - p.first_lba + 1 == n, "safe: size is the request rounded up to whole blocks");
            check((p.first_lba >= fu) & (p.last_lba <= lu), "safe: inside the usable area");
            for x in &s { check((p.last_lba < x.0) | ((x.1 < p.first_lba) & (x.0 < p.first_lba)), "safe: disjoint from every existing partition"); }
            if let Some(a) = align { if a != 0 { check(p.first_lba % a == 0, "place: aligned"); } }
            check(!(fits & (c < p.first_lba)), "place: no lower position would fit");
            check(p.flags == flags && p.name == name && p.part_type_guid == ty, "safe: attributes recorded");
            check(p.part_guid.get_version_num() == 4, "safe: a random partition guid");
            for q in before.values() { check(q.part_guid != p.part_guid, "safe: a partition guid of its own"); }
            check(p.part_guid != *d.guid(), "safe: a partition guid of its own");
            let mut rest = d.partitions().clone();
            rest.remove(&id);
            let mut old = before.clone();
            old.remove(&id);
            check(rest == old, "safe: other partitions untouched");
            check(*d.header() == h0, "header untouched");
        }
        Err(GptError::NotEnoughSpace) => {
            reach("full");
            check(!fits, "place: refused only if no position fits");
            check(*d.partitions() == before, "a refused request changes nothing");
            check(*d.header() == h0, "header untouched");
        }
        Err(_) => check(false, "unexpected error"),
    }
}

/// bits as in add (13-15 too), alignment bits unused
pub fn add_at(case: u64) {
    let wf = case & 512 == 0;
    let (mut d, s, fu, lu) = pre(case, wf);
    let unused = case & 16 != 0;
    if unused {
        // an unused entry may be replaced
        let mut t = d.take_partitions();
        t.insert(4, Partition { part_type_guid: pt::UNUSED, part_guid: nd_guid(), ..part(nd_u64(), nd_u64(), 77) });
        check(d.update_partitions(t).is_ok(), "accepted");
    }
    let before = d.partitions().clone();
    let h0 = d.header().clone();
    let id = nd_u32();
    assume(id > 0);
    let first = nd_u64();
    let n = nd_u64();
    assume(n > 0);
    let flags = nd_u64();
    let (ty, name) = asked(&d, case);
    let last = first.wrapping_add(n - 1);
    let fits = (last >= first) & in_free(&s, fu, lu, first, last);
    let mut taken = false;
    for (i, p) in before.iter() { taken |= p.is_used() & (*i == id); }
    match d.add_partition_at(&name, id, first, n, ty.clone(), flags) {
        Ok(got) => {
            reach("ok");
            check(got == id, "the requested id is returned");
            observe(id as u64);
            check(!taken, "never replaces a used partition");
            check(fits, "accepted only if every requested sector is usable and free");
            check(id <= 128, "no id beyond the partition count without permission");
            let p = match d.partitions().get(&id) { Some(p) => p.clone(), None => { check(false, "the new partition is in the table"); return; } };
            hash_part(&p);
            check((p.first_lba == first) & (p.last_lba == last), "exactly the requested sectors");
            check(p.flags == flags && p.name == name && p.part_type_guid == ty, "attributes recorded");
            check(p.part_guid.get_version_num() == 4 && p.part_guid != *d.guid(), "a random partition guid");
            for q in before.values() { check(q.part_guid != p.part_guid, "a partition guid of its own"); }
            for (i, q) in before.iter() { if *i != id { check(d.partitions().get(i) == Some(q), "other partitions untouched"); } }
            check(d.partitions().len() == before.len() + (!before.contains_key(&id)) as usize, "nothing else added");
        }
        Err(e) => {
            match e {
                GptError::PartitionIdAlreadyUsed => { reach("taken"); check(taken, "id refused only if in use"); }
                GptError::NotEnoughSpace => { reach("full"); check(!fits, "refused only if a requested sector is not free"); }
                GptError::PartitionCountWouldChange => { reach("count"); check(id > 128, "count refused only for an id beyond it"); }
                _ => check(false, "unexpected error"),
            }
            check(*d.partitions() == before, "a refused request changes nothing");
        }
    }
    check(*d.header() == h0, "header untouched");
}

/// find_free_sectors: exact
pub fn free(case: u64) {
    let wf = case & 512 == 0;
    let (mut d, mut s, fu, lu) = pre(case, wf);
    if case & 16 != 0 {
        // an unused entry occupies nothing
        let mut t = d.take_partitions();
        t.insert(4, Partition { part_type_guid: pt::UNUSED, ..part(nd_u64(), nd_u64(), 77) });
        check(d.update_partitions(t).is_ok(), "accepted");
        s = spans(d.partitions());
    }
    let x = nd_u64();
    let runs = d.find_free_sectors();
    observe(runs.len() as u64);
    let mut inside = false;
    let mut end = 0u64;
    for (i, (a, n)) in runs.iter().enumerate() {
        observe(*a);
        observe(*n);
        check(*n > 0, "runs are not empty");
        check(a.checked_add(*n).is_some(), "runs do not wrap");
        if i > 0 { check(*a > end, "runs are ascending, disjoint and not adjacent"); }
        end = a.wrapping_add(*n);
        inside |= (x >= *a) & (x - a.min(&x) < *n);
    }
    check(inside == in_free(&s, fu, lu, x, x), "a sector is reported free iff it is usable and in no used partition");
    reach("done");
}

/// calculate_alignment
pub fn align(case: u64) {
    let k = if case & 1024 != 0 { high_ids((case >> 1) & 7) } else { ids((case >> 1) & 7) };
    let mut d = match cfg(case).create_from_device(Dev::new(1 << 30), Some(GUID)) { Ok(d) => d, Err(_) => { check(false, "created"); return; } };
    let mut t = BTreeMap::new();
    for &i in &k { t.insert(i, part(nd_u64(), nd_u64(), i as u128)); }
    if case & 16 != 0 { t.insert(4, Partition { part_type_guid: pt::UNUSED, ..part(nd_u64(), nd_u64(), 77) }); }
    let all: Vec<u64> = t.values().filter(|p| p.is_used()).map(|p| p.first_lba).collect();
    check(d.update_partitions(t).is_ok(), "accepted");
    let a = d.calculate_alignment();
    observe(a);
    if d.partitions().is_empty() { check(a == 0, "0 for an empty table"); reach("empty"); return; }
    let mut pow = false;
    for e in 0..12 { pow |= a == 1 << e; }
    check(pow, "a power of two up to 2048");
    let mut divides = true;
    let mut twice = true;
    for f in &all { divides &= *f & a.wrapping_sub(1) == 0; twice &= *f & (2 * a).wrapping_sub(1) == 0; }
    check(divides, "divides the start of every used partition");
    check((a == 2048) | !twice, "the largest such");
    reach("some");
}

/// find_next_partition_id: the lowest id not in use, up to the partition count
pub fn next_id(case: u64) {
    let mut d = match cfg(case).create_from_device(Dev::new(1 << 30), Some(GUID)) { Ok(d) => d, Err(_) => { check(false, "created"); return; } };
    let k = (case >> 1) & 7;
    let mut t = BTreeMap::new();
    if k < 5 {
        for i in 0..k {
            let id = nd_u32();
            assume(id > 0);
            t.insert(id, if nd_bool() { part(34, 34, i as u128) } else { Partition { part_type_guid: pt::UNUSED, ..part(1, 1, 7) } });
        }
    } else {
        // all ids but (at most) one
        let hole = nd_below(if k == 5 { 129 } else { 3 }) as u32;
        for i in 1..=128u32 { if k == 5 || i != 100 + hole { t.insert(i, part(34, 34, i as u128)); } }
        if k == 5 && hole > 0 { t.remove(&hole); }
    }
    check(d.update_partitions(t.clone()).is_ok(), "accepted");
    let mut want = None;
    for i in 1..=128u32 { if !t.get(&i).map_or(false, |p| p.is_used()) { want = Some(i); break; } }
    let r = d.find_next_partition_id();
    observe(r.unwrap_or(0) as u64);
    check(r == want, "lowest id not in use, None if all are");
    if r.is_none() { reach("none") } else { reach("some") }
}

/// remove by id / guid, take
pub fn remove(case: u64) {
    let k = ids((case >> 1) & 7);
    let (mut d, dev, _g, _) = open_crafted(case, &k, 128);
    if case & 16 != 0 {
        // duplicate partition guids
        let mut t = d.take_partitions();
        for p in t.values_mut() { p.part_guid = guid(nd_below(3) as u128); }
        check(d.update_partitions(t).is_ok(), "accepted");
    }
    if case & 128 != 0 {
        // an unused entry between the others
        let mut t = d.take_partitions();
        t.insert(2, Partition { part_type_guid: pt::UNUSED, ..part(nd_u64(), nd_u64(), 2) });
        check(d.update_partitions(t).is_ok(), "accepted");
    }
    let before = d.partitions().clone();
    let h0 = d.header().clone();
    let which = (case >> 5) & 3;
    let mut want = before.clone();
    match which {
        0 => {
            let id = nd_u32();
            let r = d.remove_partition(id);
            let hit = want.remove(&id).is_some();
            check(r == if hit { Some(id) } else { None }, "reports the id iff it existed");
            observe(r.is_some() as u64);
        }
        1 => {
            let g = guid(nd_below(8) as u128);
            let hit = before.iter().find(|(_, p)| p.part_guid == g).map(|(i, _)| *i);
            let r = d.remove_partition_by_guid(g);
            check(r == hit, "reports the first id with this guid");
            if let Some(i) = hit { want.remove(&i); }
            observe(r.unwrap_or(0) as u64);
        }
        _ => {
            let t = d.take_partitions();
            check(t == before, "take returns the table");
            want.clear();
        }
    }
    check(*d.partitions() == want, "exactly the named partition is removed");
    check(*d.header() == h0, "header untouched");
    check(dev.0.borrow().write_calls == 0, "nothing written");
    reach("done");
}
