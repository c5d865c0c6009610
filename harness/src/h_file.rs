//! A model file behind the C library's file functions: the descriptors given out for the model path
//! are served from a model device, everything else goes to the system (native build only).
use crate::common::*;
use crate::dev::Dev;
use crate::h_rw::used;
use crate::rt::*;
use std::cell::RefCell;
use std::io::{Read, Write};

const BASE: i32 = 1000;
struct Fd { pos: u64, acc: i32, open: bool }
struct Fs { dev: Option<Dev>, fds: Vec<Fd>, syncs: u32, synced_at: usize, ops: u64, fail_at: u64, errno: i32, failed: bool, intr: bool, last_intr: bool }
struct G(RefCell<Fs>);
unsafe impl Sync for G {}
static FS: G = G(RefCell::new(Fs { dev: None, fds: vec![], syncs: 0, synced_at: 0, ops: 0, fail_at: u64::MAX, errno: 5, failed: false, intr: false, last_intr: false }));
extern "C" {
    fn __errno_location() -> *mut i32;
    #[cfg(not(feature = "sym"))]
    fn syscall(n: i64, ...) -> i64;
}
#[cfg(not(feature = "sym"))]
unsafe fn sys(n: i64, a: i64, b: i64, c: i64) -> i64 { syscall(n, a, b, c) }
#[cfg(feature = "sym")]
unsafe fn sys(_: i64, _: i64, _: i64, _: i64) -> i64 { *__errno_location() = 9; -1 }
fn err(e: i32) -> i64 { unsafe { *__errno_location() = e; } -1 }
/// counts an operation; fails it if it is the chosen one
fn op(can_be_interrupted: bool) -> Result<(), i64> {
    let mut f = FS.0.borrow_mut();
    if f.intr && can_be_interrupted { f.last_intr = !f.last_intr; if f.last_intr { return Err(err(4)); } }
    let i = f.ops;
    f.ops += 1;
    if f.fail_at != u64::MAX && i == f.fail_at { f.failed = true; return Err(err(f.errno)); }
    Ok(())
}
fn dev() -> Dev { FS.0.borrow().dev.clone().unwrap() }
fn modelled(fd: i32) -> bool { fd >= BASE }
const PATH: &[u8] = b"/model/disk\0";
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const u8, flags: i32, mode: u32) -> i32 {
    let mut m = true;
    for (i, c) in PATH.iter().enumerate() { if *p.add(i) != *c { m = false; break; } }
    if !m { return sys(2, p as i64, flags as i64, mode as i64) as i32; }
    if let Err(e) = op(true) { return e as i32; }
    if flags & (0o100 | 0o1000 | 0o2000) != 0 { check(false, "opening neither creates, truncates nor appends"); }
    let mut f = FS.0.borrow_mut();
    f.fds.push(Fd { pos: 0, acc: flags & 3, open: true });
    BASE + f.fds.len() as i32 - 1
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, p: *mut u8, n: usize) -> isize {
    if !modelled(fd) { return sys(0, fd as i64, p as i64, n as i64) as isize; }
    if let Err(e) = op(true) { return e as isize; }
    let mut d = dev();
    let i = (fd - BASE) as usize;
    { let f = FS.0.borrow(); if f.fds[i].acc == 1 { return err(9) as isize; } d.set_pos(f.fds[i].pos); }
    let r = d.read(std::slice::from_raw_parts_mut(p, n)).unwrap_or(0);
    FS.0.borrow_mut().fds[i].pos = d.pos();
    r as isize
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, p: *const u8, n: usize) -> isize {
    if !modelled(fd) { return sys(1, fd as i64, p as i64, n as i64) as isize; }
    if let Err(e) = op(true) { return e as isize; }
    let mut d = dev();
    let i = (fd - BASE) as usize;
    { let f = FS.0.borrow(); if f.fds[i].acc == 0 { return err(9) as isize; } d.set_pos(f.fds[i].pos); }
    let r = match d.write(std::slice::from_raw_parts(p, n)) { Ok(r) => r as isize, Err(_) => err(22) as isize };
    FS.0.borrow_mut().fds[i].pos = d.pos();
    r
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: i32, off: i64, how: i32) -> i64 {
    if !modelled(fd) { return sys(8, fd as i64, off, how as i64); }
    if let Err(e) = op(false) { return e; }
    let i = (fd - BASE) as usize;
    let len = dev().0.borrow().len as i64;
    let mut f = FS.0.borrow_mut();
    let b = match how { 0 => 0, 1 => f.fds[i].pos as i64, _ => len };
    match b.checked_add(off) { Some(x) if x >= 0 => { f.fds[i].pos = x as u64; x } _ => { drop(f); err(22) } }
}
unsafe fn sync(fd: i32, n: i64) -> i32 {
    if !modelled(fd) { return sys(n, fd as i64, 0, 0) as i32; }
    if let Err(e) = op(true) { return e as i32; }
    let w = dev().n_writes();
    let mut f = FS.0.borrow_mut();
    f.syncs += 1;
    f.synced_at = w;
    0
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: i32) -> i32 { sync(fd, 74) }
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: i32) -> i32 { sync(fd, 75) }
#[no_mangle]
pub unsafe extern "C" fn close(fd: i32) -> i32 {
    if !modelled(fd) { return sys(3, fd as i64, 0, 0) as i32; }
    FS.0.borrow_mut().fds[(fd - BASE) as usize].open = false;
    0
}
#[cfg(not(feature = "sym"))]
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: i32, c: i32, a: i64) -> i32 { if modelled(fd) { 0 } else { sys(72, fd as i64, c as i64, a) as i32 } }
fn mount(d: Dev) { *FS.0.borrow_mut() = Fs { dev: Some(d), fds: vec![], syncs: 0, synced_at: 0, ops: 0, fail_at: u64::MAX, errno: 5, failed: false, intr: false, last_intr: false }; }
const P: &str = "/model/disk";

/// A disk in a file. bits: 0 block size; 1 open an existing table; 2 a failing system call while saving; 3 read-only; 4 interrupted calls; 5 `write` instead of `write_inplace`; 6 opened read-only, then given a writable file
pub fn file(case: u64) {
    let g = nd_geo(case, 128);
    let d = Dev::new(g.len);
    let es = nd_entries(&[1, 2]);
    if case & 2 != 0 { put_gpt(&d, &g, &GUID, &es, true, true); }
    mount(d.clone());
    FS.0.borrow_mut().intr = case & 16 != 0;
    let c = || cfg(case).writable(case & (8 | 64) == 0);
    let r = if case & 2 != 0 { c().open(P) } else { c().create(P) };
    let mut disk = match r { Ok(d) => d, Err(_) => { check(false, "opens"); return; } };
    check(d.0.borrow().write_calls == 0, "opening or creating does not touch the file");
    check(FS.0.borrow().fds.len() == 1 && FS.0.borrow().fds[0].open && FS.0.borrow().fds[0].acc == if case & (8 | 64) == 0 { 2 } else { 0 }, "opened for writing only if asked");
    if case & 64 != 0 {
        match std::fs::OpenOptions::new().read(true).write(true).open(P) { Ok(f) => drop(disk.update_disk_device(f, true)), Err(_) => { check(false, "opens for writing"); return; } }
    }
    let mut t = disk.take_partitions();
    t.insert(5, part(nd_u64(), nd_u64(), 5));
    check(disk.update_partitions(t).is_ok(), "accepted");
    let want = used(disk.partitions());
    let id = *disk.guid();
    if case & 4 != 0 { let k = nd_u64(); assume(k < 400); let mut f = FS.0.borrow_mut(); f.ops = 0; f.fail_at = k; let e = nd_u8(); assume(e > 0 && e <= 133 && e != 4); f.errno = e as i32; }
    let r = if case & 32 != 0 { disk.write().map(|f| drop(f)) } else { disk.write_inplace() };
    let f = FS.0.borrow();
    match r {
        Ok(()) => {
            reach("saved");
            check(case & 8 == 0, "a read-only disk is not saved");
            check(!f.failed, "success only if every system call succeeded");
            check(f.syncs > 0 && f.synced_at == d.n_writes(), "everything written is synced before success is reported");
            drop(f);
            FS.0.borrow_mut().fail_at = u64::MAX;
            match cfg(case).writable(false).only_valid_headers(true).open(P) { Ok(r) => { reach("reopened"); check(used(r.partitions()) == want && *r.guid() == id, "the same table is read back"); } Err(_) => check(false, "reopens") }
        }
        Err(GptError::ReadOnly) => { reach("ro"); check(case & 8 != 0, "read-only"); check(d.0.borrow().write_calls == 0, "nothing written"); }
        Err(_) => { reach("err"); check(f.failed, "fails only on an error"); }
    }
}
/// helpers working on a path. bits: 0 block size; 1-2 which; 3-4 the primary header is damaged: 1 checksum, 2 signature, 3 wrong checksum of the table
pub fn paths(case: u64) {
    let l = lbs(case);
    let g = nd_geo(case, 128);
    let d = Dev::new(g.len);
    let es = nd_entries(&[1, 3]);
    let new = (case >> 1) & 3;
    if new != 1 { put_gpt(&d, &g, &GUID, &es, true, true); } else { d.0.borrow_mut().fill = 0x42; }
    let bad = (case >> 3) & 3;
    match bad {
        0 => {}
        1 => { let x = nd_u8(); assume(x != 0); let c = d.read_at(l + 16, 1)[0]; d.put(l + 16, &[c ^ x]); }
        2 => { let x = nd_u8(); assume(x != b'P'); d.put(l + 4, &[x]); }
        _ => { let t = d.read_at(2 * l, 16384); d.put(l, &raw_header(1, g.bak, g.fu, g.lu, &GUID, 2, 128, 128, crc32(&t).wrapping_add(1))); }
    }
    mount(d.clone());
    if bad != 0 {
        match gpt::header::read_header(P, lb(case)) {
            Ok(h) => { check(bad == 3 && h.current_lba == 1, "only a valid primary header is returned"); check(gpt::partition::read_partitions(P, &h, lb(case)).is_err(), "only a table with the right checksum is returned"); }
            Err(_) => check(bad != 3, "a valid header is returned"),
        }
        check(gpt::header::read_header_from_arbitrary_device(&mut d.clone(), lb(case)).is_ok() == (bad == 3), "the same from a device");
        if case & 1 == 0 {
            match gpt::disk::read_disk(P) {
                Ok(k) => { check(bad != 3, "a table with a wrong checksum is refused"); check(used(k.partitions()).len() == 2 && k.primary_header().is_err(), "found through the backup"); }
                Err(_) => check(bad == 3, "opens through the backup"),
            }
        }
        check(d.0.borrow().write_calls == 0, "nothing written");
        check(FS.0.borrow().fds.iter().all(|f| f.acc == 0 && !f.open), "read-only and closed");
        reach("done");
        return;
    }
    match new {
        0 => {
            let h = match gpt::header::read_header(P, lb(case)) { Ok(h) => h, Err(_) => { check(false, "header"); return; } };
            check((h.current_lba == 1) & (h.backup_lba == g.bak) & (h.first_usable == g.fu) & (h.last_usable == g.lu) & (h.disk_guid == GUID), "the primary header");
            match gpt::partition::read_partitions(P, &h, lb(case)) {
                Ok(t) => { check(t.len() == 2, "both"); for (i, e) in &es { match t.get(i) { Some(p) => check((p.first_lba, p.last_lba) == entry_span(e) && p.flags == u64at(e, 48), "the entry"), None => check(false, "present") } } }
                Err(_) => check(false, "table"),
            }
            check(d.0.borrow().write_calls == 0, "nothing written");
            check(FS.0.borrow().fds.iter().all(|f| f.acc == 0 && !f.open), "read-only and closed");
        }
        1 => {
            let id = Uuid::from_bytes(nd_arr());
            let some = nd_bool();
            match gpt::header::write_header(P, if some { Some(id) } else { None }, lb(case)) {
                Ok(u) => {
                    if some { check(u == id, "the given guid"); } else { check(u.get_version_num() == 4, "a random guid"); }
                    for (o, w) in d.writes() { check((o >= l) & (o + w.len() as u64 <= 2 * l), "only the header block is written"); }
                    match gpt::header::read_header(P, lb(case)) { Ok(h) => { check(h.disk_guid == u && (h.backup_lba == g.bak) & (h.current_lba == 1) & (h.part_start == 2) & (h.first_usable == 2 + arr_blocks(128, l)) & (h.last_usable == g.bak - 1 - arr_blocks(128, l)), "a standard header"); check(h.crc32_parts == crc32(&vec![0x42; 16384]), "checksum of the table as it is"); } Err(_) => check(false, "reads back") }
                }
                Err(_) => check(false, "works"),
            }
        }
        2 => {
            let (i, s) = (nd_u8() as u64, nd_u64());
            assume(s <= 1 << 40);
            let p = part(nd_u64(), nd_u64(), 9);
            check(p.write(std::path::Path::new(P), i, s, lb(case)).is_ok(), "works");
            let mut at = s * l + 128 * i;
            let mut got = vec![];
            for (o, w) in d.writes() { check(o == at, "at the entry"); at += w.len() as u64; got.extend_from_slice(&w); }
            check(got == raw_entry(&LINUX, &guid(9), p.first_lba, p.last_lba, 0), "one entry");
        }
        _ => {
            if case & 1 != 0 { check(gpt::disk::read_disk(P).is_err(), "another block size"); return; }
            match gpt::disk::read_disk(P) {
                Ok(mut k) => { check(used(k.partitions()).len() == 2 && *k.guid() == GUID, "the table"); check(k.write_inplace().is_err() && d.0.borrow().write_calls == 0, "read-only"); check(FS.0.borrow().fds[0].acc == 0, "opened read-only"); }
                Err(_) => check(false, "opens"),
            }
        }
    }
    reach("done");
}
