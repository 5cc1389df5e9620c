//! Documents: byte strings, possibly huge and sparse, and the readers that deliver them.
use std::borrow::Cow;
use std::io::{self, Read, Seek, SeekFrom};

#[derive(Clone, Debug, PartialEq)]
pub struct Seg {
    pub off: u64,
    pub data: Vec<u8>,
    pub times: u64,
}

/// `len` bytes of `fill`, overlaid by the segments (later ones win).
#[derive(Clone, Debug, PartialEq)]
pub struct Doc {
    pub len: u64,
    pub fill: u8,
    pub segs: Vec<Seg>,
}

#[derive(Debug)]
pub struct Eof;

impl From<Vec<u8>> for Doc {
    fn from(v: Vec<u8>) -> Doc {
        Doc { len: v.len() as u64, fill: 0, segs: vec![Seg { off: 0, data: v, times: 1 }] }
    }
}

impl Doc {
    pub fn sparse(len: u64, fill: u8) -> Doc {
        Doc { len, fill, segs: vec![] }
    }
    /// Makes the content at least `len` long.
    pub fn put_len(mut self, len: u64) -> Doc {
        self.len = self.len.max(len);
        self
    }
    pub fn put(mut self, off: u64, data: impl AsRef<[u8]>) -> Doc {
        self.segs.push(Seg { off, data: data.as_ref().to_vec(), times: 1 });
        self
    }
    pub fn rep(mut self, off: u64, data: impl AsRef<[u8]>, times: u64) -> Doc {
        self.segs.push(Seg { off, data: data.as_ref().to_vec(), times });
        self
    }
    /// The content as one slice, if it is stored that way.
    pub fn slice(&self) -> Option<&[u8]> {
        match &self.segs[..] {
            [s] if s.off == 0 && s.times == 1 && s.data.len() as u64 == self.len => Some(&s.data),
            [] if self.len == 0 => Some(&[]),
            _ => None,
        }
    }
    pub fn small(&self) -> bool {
        self.len <= 80 << 20
    }
    /// Cheap to have in memory.
    pub fn tiny(&self) -> bool {
        self.slice().is_some() || self.len <= 1 << 18
    }
    pub fn bytes(&self) -> Cow<'_, [u8]> {
        if let Some(s) = self.slice() {
            return Cow::Borrowed(s);
        }
        assert!(self.small());
        let mut v = vec![0; self.len as usize];
        self.read_at(0, &mut v);
        Cow::Owned(v)
    }
    /// Calls `f` with the whole content as one slice, however long (up to 2^42 bytes): the untouched parts are
    /// pages that were never written. `None` if the content has another filling or the address space is short.
    pub fn with_slice<T>(&self, f: impl FnOnce(&[u8]) -> T) -> Option<T> {
        if self.tiny() || (self.fill != 0 && self.small()) {
            return Some(f(&self.bytes()));
        }
        if self.fill != 0 || self.len > 1 << 42 || self.segs.iter().map(|s| s.data.len() as u64 * s.times).sum::<u64>() > 64 << 20 {
            return None;
        }
        let mut m = Pages::new(self.len as usize)?;
        for s in &self.segs {
            let mut o = s.off;
            for _ in 0..s.times {
                let n = (s.data.len() as u64).min(self.len.saturating_sub(o)) as usize;
                if n == 0 {
                    break;
                }
                m.slice()[o as usize..o as usize + n].copy_from_slice(&s.data[..n]);
                o += s.data.len() as u64;
            }
        }
        Some(f(m.slice()))
    }
    /// Fills `buf` from `off`; returns the number of bytes available.
    pub fn read_at(&self, off: u64, buf: &mut [u8]) -> usize {
        if off >= self.len {
            return 0;
        }
        let n = (buf.len() as u64).min(self.len - off) as usize;
        let buf = &mut buf[..n];
        if let Some(s) = self.slice() {
            buf.copy_from_slice(&s[off as usize..off as usize + n]);
            return n;
        }
        buf.fill(self.fill);
        let end = off + n as u64;
        for s in &self.segs {
            let dl = s.data.len() as u64;
            let s_end = s.off.saturating_add(dl.saturating_mul(s.times));
            let (a, b) = (off.max(s.off), end.min(s_end));
            if a >= b || dl == 0 {
                continue;
            }
            let mut p = a;
            while p < b {
                let i = ((p - s.off) % dl) as usize;
                let m = ((b - p) as usize).min(s.data.len() - i);
                let d = (p - off) as usize;
                buf[d..d + m].copy_from_slice(&s.data[i..i + m]);
                p += m as u64;
            }
        }
        n
    }
    /// Exactly `n` bytes at `off`, or `Eof`.
    pub fn get(&self, off: u64, n: usize) -> Result<Cow<'_, [u8]>, Eof> {
        // An empty read always succeeds.
        if n == 0 {
            return Ok(Cow::Borrowed(&[]));
        }
        if off.checked_add(n as u64).is_none_or(|e| e > self.len) {
            return Err(Eof);
        }
        if let Some(s) = self.slice() {
            return Ok(Cow::Borrowed(&s[off as usize..off as usize + n]));
        }
        let mut v = vec![0; n];
        self.read_at(off, &mut v);
        Ok(Cow::Owned(v))
    }
    /// At most `n` bytes at `off`.
    pub fn window(&self, off: u64, n: usize) -> Cow<'_, [u8]> {
        let n = (n as u64).min(self.len.saturating_sub(off)) as usize;
        self.get(off, n).unwrap_or(Cow::Borrowed(&[]))
    }
    pub fn hash(&self) -> u64 {
        let mut h: u64 = 0xcbf29ce484222325 ^ self.len.wrapping_mul(0x9E3779B97F4A7C15) ^ self.fill as u64;
        let mut mix = |x: u64| {
            h = (h ^ x).wrapping_mul(0x9E3779B97F4A7C15);
            h ^= h >> 29;
        };
        for s in &self.segs {
            mix(s.off);
            mix(s.times);
            mix(s.data.len() as u64);
            for c in s.data.chunks(8) {
                let mut b = [0; 8];
                b[..c.len()].copy_from_slice(c);
                mix(u64::from_le_bytes(b));
            }
        }
        h
    }
    pub fn describe(&self) -> String {
        let mut s = format!("len={} fill={:02x}", self.len, self.fill);
        for g in self.segs.iter().take(6) {
            let d = &g.data[..g.data.len().min(96)];
            s += &format!(" [@{} x{} n={}: {}]", g.off, g.times, g.data.len(), d.escape_ascii());
        }
        s
    }
    pub fn to_text(&self) -> String {
        let mut s = format!("doc {} {}\n", self.len, self.fill);
        for g in &self.segs {
            s += &format!("seg {} {} ", g.off, g.times);
            for b in &g.data {
                s += &format!("{b:02x}");
            }
            s.push('\n');
        }
        s
    }
    pub fn from_text(t: &str) -> Doc {
        let mut d = Doc::sparse(0, 0);
        for l in t.lines() {
            let w: Vec<&str> = l.split(' ').collect();
            match w[0] {
                "doc" => d = Doc::sparse(w[1].parse().unwrap(), w[2].parse().unwrap()),
                "seg" => {
                    let h = w[3].as_bytes();
                    let data = (0..h.len() / 2)
                        .map(|i| u8::from_str_radix(&w[3][2 * i..2 * i + 2], 16).unwrap())
                        .collect();
                    d.segs.push(Seg { off: w[1].parse().unwrap(), times: w[2].parse().unwrap(), data });
                }
                _ => {}
            }
        }
        d
    }
}

/// A departure from the default environment answer (everything asked for is delivered at once).
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Dev {
    Short(usize),
    Interrupt,
    Fail(io::ErrorKind),
    /// An error that is nothing but its kind.
    FailBare(io::ErrorKind),
    /// An error of the operating system.
    FailOs(i32),
}

/// What the environment does: `chunk` bounds every read; at operation `k` the deviation `dev` happens;
/// from operation `from` on, every operation fails.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Plan {
    pub chunk: Option<usize>,
    pub devs: Vec<(usize, Dev)>,
    pub fail_from: Option<(usize, Option<io::ErrorKind>)>,
    /// Largest position the stream accepts (file systems reject seeks past their limit).
    pub max_pos: Option<u64>,
    /// A bad sector that begins at a position: once the leading bytes are delivered no read goes
    /// across it, and that many of the reads at it fail.
    pub sector: Option<(u64, usize, io::ErrorKind)>,
}

impl Plan {
    pub fn text(&self) -> String {
        format!("{self:?}")
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Read { at: u64, want: usize, got: usize },
    Seek { to: u64 },
}

/// Delivers a document under a plan, counting operations.
pub struct EnvReader<'a> {
    pub doc: &'a Doc,
    pub pos: u64,
    pub plan: &'a Plan,
    pub ops: usize,
    pub bytes: u64,
    pub seeks: usize,
    pub trace: Option<Vec<Op>>,
    /// The first injected error.
    pub injected: Option<Injected>,
    pub op_limit: usize,
    /// Heap mark and limits on heap and bytes.
    pub limits: Option<(i64, u64, u64)>,
    /// Scribbles over the part of the buffer that is not delivered.
    pub dirty: bool,
    sector_hits: usize,
    eof_seen: bool,
    seeks_at_cover: usize,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Injected {
    pub kind: io::ErrorKind,
    /// Position in the operation sequence.
    pub op: usize,
    /// Whether it hit the reading of the leading bytes.
    pub head: bool,
    pub seek: bool,
}

/// The leading bytes that decide the signature.
const LEAD: u64 = 36_870;

pub const BUDGET: &str = "operation budget exceeded";

impl<'a> EnvReader<'a> {
    pub fn new(doc: &'a Doc, plan: &'a Plan) -> Self {
        EnvReader { doc, pos: 0, plan, ops: 0, bytes: 0, seeks: 0, trace: None, injected: None, op_limit: usize::MAX, limits: None, dirty: false, sector_hits: 0, eof_seen: false, seeks_at_cover: 0 }
    }
    fn inject(&mut self, kind: io::ErrorKind, op: usize, seek: bool) -> io::Error {
        self.inject_this(io::Error::new(kind, "injected"), op, seek)
    }
    fn inject_this(&mut self, e: io::Error, op: usize, seek: bool) -> io::Error {
        let lead = self.doc.len.min(LEAD);
        // Before the leading bytes are delivered, or before their end was seen if the content is shorter.
        let head = self.bytes < lead
            || (self.doc.len < LEAD && !self.eof_seen && !seek && self.pos == self.doc.len && self.seeks == self.seeks_at_cover);
        self.injected.get_or_insert(Injected { kind: e.kind(), op, head, seek });
        e
    }
    fn step(&mut self, seek: bool) -> Result<Option<Dev>, io::Error> {
        let k = self.ops;
        self.ops += 1;
        if self.ops > self.op_limit {
            panic!("{BUDGET}");
        }
        if let Some((mark, heap, bytes)) = self.limits {
            let h = crate::alloc::peak_since(mark);
            if h > heap {
                panic!("{h} bytes of heap used");
            }
            if self.bytes > bytes {
                panic!("{} bytes read", self.bytes);
            }
        }
        if let Some((f, kind)) = self.plan.fail_from
            && k >= f
        {
            return Err(self.inject(kind.unwrap_or(io::ErrorKind::Other), k, seek));
        }
        let devs = &self.plan.devs;
        // Many deviations are in order.
        let first = if devs.len() < 8 { 0 } else { devs.partition_point(|d| d.0 < k) };
        for &(i, d) in devs[first..].iter().take(8) {
            if i == k {
                return match d {
                    Dev::Fail(kind) => Err(self.inject(kind, k, seek)),
                    Dev::FailBare(kind) => Err(self.inject_this(kind.into(), k, seek)),
                    Dev::FailOs(code) => Err(self.inject_this(io::Error::from_raw_os_error(code), k, seek)),
                    Dev::Short(_) | Dev::Interrupt => Ok(Some(d)),
                };
            }
        }
        Ok(None)
    }
}

impl Read for EnvReader<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let d = self.step(false)?;
        let mut want = buf.len();
        if let Some(c) = self.plan.chunk {
            want = want.min(c);
        }
        match d {
            Some(Dev::Interrupt) => return Err(io::ErrorKind::Interrupted.into()),
            Some(Dev::Short(n)) => want = want.min(n.max(1)),
            _ => {}
        }
        let lead = self.doc.len.min(LEAD);
        if let Some((at, times, kind)) = self.plan.sector
            && self.bytes >= lead
            && (self.doc.len >= LEAD || self.eof_seen || self.seeks > self.seeks_at_cover)
        {
            if self.pos == at && want > 0 && self.sector_hits < times {
                self.sector_hits += 1;
                let op = self.ops - 1;
                self.injected.get_or_insert(Injected { kind, op, head: false, seek: false });
                return Err(io::Error::new(kind, "injected"));
            }
            if self.pos < at {
                want = want.min((at - self.pos) as usize);
            }
        }
        let n = self.doc.read_at(self.pos, &mut buf[..want]);
        if let Some(t) = &mut self.trace {
            t.push(Op::Read { at: self.pos, want: buf.len(), got: n });
        }
        self.pos += n as u64;
        if self.bytes < lead && self.bytes + n as u64 >= lead {
            self.seeks_at_cover = self.seeks;
        }
        self.bytes += n as u64;
        self.eof_seen |= n == 0 && want > 0;
        if self.dirty {
            // Allowed by the contract of `Read`: what lies beyond the delivered bytes is unspecified.
            buf[n..].fill(0x50);
        }
        Ok(n)
    }
}

impl Seek for EnvReader<'_> {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        // A short read or an interrupted read does not apply to a seek.
        self.step(true)?;
        let new = match p {
            SeekFrom::Start(n) => Some(n),
            SeekFrom::End(n) => self.doc.len.checked_add_signed(n),
            SeekFrom::Current(n) => self.pos.checked_add_signed(n),
        };
        // Like a file: no positions that an i64 cannot hold.
        let new = new.filter(|&n| n <= self.plan.max_pos.unwrap_or(i64::MAX as u64));
        self.seeks += 1;
        match new {
            Some(n) => {
                self.pos = n;
                if let Some(t) = &mut self.trace {
                    t.push(Op::Seek { to: n });
                }
                Ok(n)
            }
            None => Err(io::ErrorKind::InvalidInput.into()),
        }
    }
}

/// Zeroed memory that takes no room until it is written.
struct Pages {
    p: *mut u8,
    n: usize,
}

unsafe extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn munmap(addr: *mut u8, len: usize) -> i32;
    fn madvise(addr: *mut u8, len: usize, advice: i32) -> i32;
}

impl Pages {
    fn new(n: usize) -> Option<Pages> {
        // PROT_READ | PROT_WRITE; MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE; MADV_NOHUGEPAGE.
        let p = unsafe { mmap(std::ptr::null_mut(), n, 3, 0x4022, -1, 0) };
        if p as isize == -1 {
            return None;
        }
        unsafe { madvise(p, n, 15) };
        Some(Pages { p, n })
    }
    fn slice(&mut self) -> &mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.p, self.n) }
    }
}

impl Drop for Pages {
    fn drop(&mut self) {
        unsafe { munmap(self.p, self.n) };
    }
}
