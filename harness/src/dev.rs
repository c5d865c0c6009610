//! Model block device: a sparse write log over sparse base content, with (possibly symbolic) length
//! and position, optional injected failures and transfer-size limits.
#![allow(dead_code)]
use crate::rt::*;
use std::cell::RefCell;
use std::fmt;
use std::io::{self, Read, Seek, SeekFrom, Write};
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Op { Read, Write, Seek, Flush }

pub struct State {
    pub len: u64,
    pub pos: u64,
    pub base: Vec<(u64, Vec<u8>)>,
    pub writes: Vec<(u64, Vec<u8>)>,
    /// the writes, adjacent ones merged
    pub view: Vec<(u64, Vec<u8>)>,
    /// a stretch (offset, region, start in the region, length) of one region that nothing newer hides and the device contains; length 0: known not to be one
    win: Option<(u64, usize, usize, u64)>,
    pub flushed_at: usize,
    pub flushes: u32,
    pub ops: u64,
    pub reads: u64,
    /// index of the operation that fails (u64::MAX: none)
    pub fail_at: u64,
    /// kind of the injected error (a discriminant of ErrorKind)
    pub kind: u8,
    pub failed: Option<Op>,
    /// operations after the failing one fail too
    pub dead: bool,
    /// reads after the failing operation yield filler instead of content
    pub blind: bool,
    /// longest transfer of one read/write call
    pub chunk: usize,
    /// content never written reads as this
    pub fill: u8,
    /// every n-th read/write call is interrupted once (0: never)
    pub intr_every: u64,
    pub intr_n: u64,
    /// index of the read/write call that is short, `short_how`: 0 one byte, 1 half, 2 all but one, 3 fifty; the call after it is interrupted
    pub short_at: u64,
    pub short_how: u64,
    pub rw: u64,
    /// failing transfers move nothing instead of reporting an error
    pub full: bool,
    /// count attempts
    pub write_calls: u64,
}
#[derive(Clone)]
pub struct Dev(pub Rc<RefCell<State>>);
impl fmt::Debug for Dev { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) } }

impl Dev {
    pub fn new(len: u64) -> Dev {
        Dev(Rc::new(RefCell::new(State { len, pos: 0, base: vec![], writes: vec![], view: vec![], win: None, flushed_at: 0, flushes: 0, ops: 0, reads: 0, fail_at: u64::MAX, kind: io::ErrorKind::PermissionDenied as u8, failed: None, dead: false, blind: false, chunk: usize::MAX, fill: 0, write_calls: 0, intr_every: 0, intr_n: 0, short_at: u64::MAX, short_how: 0, rw: 0, full: false })))
    }
    pub fn put(&self, off: u64, data: &[u8]) { self.0.borrow_mut().base.push((off, data.to_vec())); self.0.borrow_mut().win = None; }
    pub fn writes(&self) -> Vec<(u64, Vec<u8>)> { self.0.borrow().writes.clone() }
    pub fn clear_writes(&self) { let mut s = self.0.borrow_mut(); s.writes.clear(); s.view.clear(); s.win = None; }
    pub fn n_writes(&self) -> usize { self.0.borrow().writes.len() }
    /// the same medium after the first `k` writes reached it
    pub fn crash(&self, k: usize) -> Dev {
        let s = self.0.borrow();
        let d = Dev::new(s.len);
        { let mut t = d.0.borrow_mut(); t.base = s.base.clone(); for (o, w) in &s.writes[..k] { lay(&mut t.base, *o, w); } t.fill = s.fill; }
        d
    }
    /// a fresh handle on the medium with everything written so far
    pub fn image(&self) -> Dev { let n = self.n_writes(); self.crash(n) }
    pub fn read_at(&self, off: u64, n: usize) -> Vec<u8> { let mut v = vec![0u8; n]; self.0.borrow().fetch(off, &mut v); v }
    pub fn pos(&self) -> u64 { self.0.borrow().pos }
    pub fn set_pos(&self, p: u64) { self.0.borrow_mut().pos = p; }
    pub fn clear_ops(&self) { let mut s = self.0.borrow_mut(); s.ops = 0; s.reads = 0; s.flushes = 0; s.failed = None; s.write_calls = 0; }
}
/// any kind but Interrupted, which is not a failure but a request to try again
pub fn any_kind() -> u8 {
    let k = nd_u8();
    assume(k < io::ErrorKind::Other as u8 && k != io::ErrorKind::Interrupted as u8);
    k
}
fn kind_of(k: u8) -> io::ErrorKind {
    if k >= io::ErrorKind::Other as u8 { return io::ErrorKind::Other; }
    // SAFETY: the kinds before Other have consecutive discriminants
    unsafe { std::mem::transmute(k) }
}
/// appends written data, merged with the last region if it certainly continues or lies inside it
fn lay(v: &mut Vec<(u64, Vec<u8>)>, off: u64, data: &[u8]) {
    if let Some((o, d)) = v.last_mut() {
        let (k, m, n) = (off.wrapping_sub(*o), d.len() as u64, data.len() as u64);
        if known(k == m) { d.extend_from_slice(data); return; }
        if m >= n && known(k <= m - n) { let k = pick(k) as usize; d[k..k + data.len()].copy_from_slice(data); return; }
    }
    v.push((off, data.to_vec()));
}
fn overlay(off: u64, buf: &mut [u8], w: u64, data: &[u8]) {
    let n = buf.len() as u64;
    let m = data.len() as u64;
    if w.wrapping_sub(off) < n {
        // data starts inside the buffer
        let d = pick(w.wrapping_sub(off)) as usize;
        let k = data.len().min(buf.len() - d);
        buf[d..d + k].copy_from_slice(&data[..k]);
    } else if off.wrapping_sub(w) < m {
        let d = pick(off.wrapping_sub(w)) as usize;
        let k = buf.len().min(data.len() - d);
        buf[..k].copy_from_slice(&data[d..d + k]);
    }
}
impl State {
    fn region(&self, i: usize) -> &(u64, Vec<u8>) { if i < self.base.len() { &self.base[i] } else { &self.view[i - self.base.len()] } }
    /// reads from one region if no other can matter
    fn direct(&mut self, off: u64, buf: &mut [u8]) -> bool {
        let n = buf.len() as u64;
        let miss = match self.win { Some((o, _, _, m)) => m < n || !known(off.wrapping_sub(o) <= m - n), None => true };
        if miss {
            let total = self.base.len() + self.view.len();
            let mut f = None;
            for i in (0..total).rev() {
                let (w, d) = self.region(i);
                let (k, m) = (off.wrapping_sub(*w), d.len() as u64);
                if m >= n && known(k <= m - n) { f = Some((i, pick(k))); break; }
            }
            let Some((i, k)) = f else { return false };
            // known to fail for the rest of this region
            if let Some((_, j, s, 0)) = self.win { if j == i && s as u64 <= k { return false; } }
            let m = self.region(i).1.len() as u64 - k;
            let mut ok = surely((off < self.len) & (self.len.wrapping_sub(off) >= m));
            for j in i + 1..total {
                if !ok { break; }
                let (w, d) = self.region(j);
                ok = surely((w.wrapping_sub(off) >= m) & (off.wrapping_sub(*w) >= d.len() as u64));
            }
            self.win = Some((off, i, k as usize, if ok { m } else { 0 }));
            if !ok { return false; }
        }
        let (o, i, s, _) = self.win.unwrap();
        let k = s + pick(off.wrapping_sub(o)) as usize;
        let n = buf.len();
        buf.copy_from_slice(&self.region(i).1[k..k + n]);
        true
    }
    pub fn fetch(&self, off: u64, buf: &mut [u8]) {
        if self.fill != 0 { for b in buf.iter_mut() { *b = self.fill; } }
        let (n, b) = (buf.len() as u64, self.base.len());
        let at = |i: usize| self.region(i);
        // the newest region that certainly holds all of it hides the older ones
        let mut from = b + self.view.len();
        while from > 0 {
            from -= 1;
            let (w, d) = at(from);
            let (k, m) = (off.wrapping_sub(*w), d.len() as u64);
            if m >= n && known(k <= m - n) { break; }
        }
        for i in from..b + self.view.len() { let (w, d) = at(i); overlay(off, buf, *w, d); }
    }
    /// the most this call transfers
    fn limit(&mut self, n: usize) -> io::Result<usize> {
        let i = self.rw;
        self.rw += 1;
        if self.short_at == u64::MAX || n == 0 { return Ok(n); }
        if i == self.short_at { return Ok(match self.short_how { 0 => 1, 1 => n / 2, 2 => n - 1, _ => 50 }.clamp(1, n)); }
        if i > 0 && i - 1 == self.short_at { return Err(io::Error::from(io::ErrorKind::Interrupted)); }
        Ok(n)
    }
    fn intr(&mut self) -> io::Result<()> {
        if self.intr_every == 0 { return Ok(()); }
        self.intr_n += 1;
        if self.intr_n % self.intr_every == 0 { Err(io::Error::from(io::ErrorKind::Interrupted)) } else { Ok(()) }
    }
    fn op(&mut self, o: Op) -> io::Result<()> {
        let i = self.ops;
        self.ops += 1;
        if self.full && !matches!(o, Op::Read | Op::Write) { return Ok(()); }
        if (self.dead && self.failed.is_some()) || (self.fail_at != u64::MAX && i == self.fail_at) {
            if self.failed.is_none() { self.failed = Some(o); }
            return Err(io::Error::from(kind_of(self.kind)));
        }
        Ok(())
    }
}
impl Read for Dev {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let mut s = self.0.borrow_mut();
        s.intr()?;
        if let Err(e) = s.op(Op::Read) { return if s.full { Ok(0) } else { Err(e) }; }
        s.reads += 1;
        let (pos, len) = (s.pos, s.len);
        let c = s.chunk;
        let mut n = s.limit(buf.len().min(c))?;
        if !(s.blind && s.failed.is_some()) && n > 0 && s.direct(pos, &mut buf[..n]) { s.pos = pos + n as u64; return Ok(n); }
        if pos >= len { return Ok(0); }
        if (n as u64) > len - pos { n = pick(len - pos) as usize; }
        if s.blind && s.failed.is_some() { for b in buf[..n].iter_mut() { *b = s.fill; } } else { s.fetch(pos, &mut buf[..n]); }
        s.pos = pos + n as u64;
        Ok(n)
    }
}
impl Write for Dev {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let mut s = self.0.borrow_mut();
        s.write_calls += 1;
        s.intr()?;
        if let Err(e) = s.op(Op::Write) { return if s.full { Ok(0) } else { Err(e) }; }
        let pos = s.pos;
        let c = s.chunk;
        let n = s.limit(buf.len().min(c))?;
        if n == 0 { return Ok(0); }
        match pos.checked_add(n as u64) {
            None => return Err(io::Error::from(io::ErrorKind::InvalidInput)),
            Some(e) => { if e > s.len { s.len = e; } s.pos = e; }
        }
        s.win = None;
        lay(&mut s.view, pos, &buf[..n]);
        s.writes.push((pos, buf[..n].to_vec()));
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        let mut s = self.0.borrow_mut();
        s.op(Op::Flush)?;
        s.flushes += 1;
        s.flushed_at = s.writes.len();
        Ok(())
    }
}
impl Seek for Dev {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        let mut s = self.0.borrow_mut();
        s.op(Op::Seek)?;
        let (b, d) = match p { SeekFrom::Start(x) => { s.pos = x; return Ok(x); } SeekFrom::End(d) => (s.len, d), SeekFrom::Current(d) => (s.pos, d) };
        match b.checked_add_signed(d) {
            Some(x) => { s.pos = x; Ok(x) }
            None => Err(io::Error::from(io::ErrorKind::InvalidInput)),
        }
    }
}
