//! C05: histories of calls in fresh and old processes, interleavings of threads, nested calls.
use crate::doc::{Doc, EnvReader, Plan};
use crate::fmt::*;
use crate::model;
use crate::space;
use crate::run::{guarded, silent_panics, Case, Judge, Space, Verdict, W};
use crate::subject;
use std::cell::RefCell;
use std::collections::HashMap;
use std::io::{self, Cursor, Read, Seek, SeekFrom};
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::{Arc, Condvar, LazyLock, Mutex};

/// Contents, many of them twins: of equal length, beginning and end, but of different formats.
pub static DOCS: LazyLock<Vec<Vec<u8>>> = LazyLock::new(|| {
    let mut v: Vec<Vec<u8>> = vec![];
    let trak = |k: &[u8]| mp4_box(b"trak", &mp4_box(b"mdia", &hdlr(k)));
    // Small ones first.
    v.push(exe(b"MZ", 64, b"PE\0\0", 0x2000));
    v.push(exe(b"MZ", 64, b"PE\0\0", 0x0002));
    v.push(zips(&[ent("word/document.xml")]));
    v.push(zips(&[ent("1234567890abc.xml")]));
    v.push(Buf(ftyp(b"mp42")).b(mp4_box(b"moov", &trak(b"vide"))).0);
    v.push(Buf(ftyp(b"mp42")).b(mp4_box(b"moov", &trak(b"soun"))).0);
    v.push(b"plain text \xC3\xA9\n".to_vec());
    v.push(b"plain text \xC3\x00\n".to_vec());
    v.push(vec![]);
    v.push(b"<?xml version=\"1.0\"?><svg ></svg>".to_vec());
    v.push(b"<?xml version=\"1.0\"?><svh ></svh>".to_vec());
    v.push(b"\x89PNG\r\n\x1A\n".to_vec());
    v.push(zips(&[mime_ent("application/epub+zip")]));
    v.push(ebml(b"matroska", &el(E_TRACKS, 0, &track(b"A_AAC"))));
    v.push(ebml(b"matroska", &el(E_TRACKS, 0, &track(b"V_AAC"))));
    v.push(asf(None, &[asf_stream(&model::G_VIDEO)]));
    v.push(asf(None, &[asf_stream(&model::G_AUDIO)]));
    v.push(rm(None, &[mdpr(b"s", b"video/x-pn-realvideo")]));
    v.push(rm(None, &[mdpr(b"s", b"audio/x-pn-realaudio")]));
    v.push(Buf(id3(3, 0, 30)).b(b"fLaC").0);
    v.push(Buf(id3(3, 0, 30)).b([0xFF, 0xFB, 0, 0]).0);
    v.push(cfb(3, 0, &model::guid(model::CLSIDS[7].0), b"", b""));
    v.push(cfb(3, 0, &[0; 16], b"", model::XLR_NAME));
    // Twins that differ far from their ends.
    let big = |head: &[u8], at: usize, what: &[u8], len: usize| Buf(head.to_vec()).to(at, b' ').b(what).to(len, b' ').0;
    v.push(big(b"%PDF-1.5\n", 50_000, AI, 100_000));
    v.push(big(b"%PDF-1.5\n", 50_000, b"AIPrivateDatb", 100_000));
    v.push(big(b"SQLite format 3\0", 10_000, SKETCH, 40_000));
    v.push(big(b"SQLite format 3\0", 10_000, b"com.bohemiancoding.sketch4", 40_000));
    v.push(big(b"text", 60_000, b"\xC2\xA0", 70_000));
    v.push(big(b"text", 60_000, b"\xC2\x80", 70_000));
    let mp = |k: &[u8]| Buf(ftyp(b"mp42")).b(mp4_box(b"mdat", &vec![0; 40_000])).b(mp4_box(b"moov", &trak(k))).b(mp4_box(b"free", &vec![0; 5000])).0;
    v.push(mp(b"vide"));
    v.push(mp(b"sbtl"));
    let zp = |n: &str| zip(&[ent("a"), ent(n), ent("b")], &ZipOpt { gap: 40_000, comment: vec![b'c'; 3000], ..ZipOpt::default() });
    v.push(zp("xl/workbook.xml"));
    v.push(zp("xl_workbook.xml"));
    let mut iso = vec![0; 36_870];
    v.push(iso.clone());
    iso[36_865..].copy_from_slice(b"CD001");
    v.push(iso);
    // Twins of the same bytes in another order.
    v.push(b"<?xml version=\"1.0\"?><gpx a=\"1\">".to_vec());
    v.push(b"<?xml version=\"1.0\"?><xpg a=\"1\">".to_vec());
    v.push(zips(&[ent("ppt/slide.xml")]));
    v.push(zips(&[ent("slide/ppt.xml")]));
    v.push(Buf(ftyp(b"mp42")).b(mp4_box(b"moov", &trak(b"edvi"))).0);
    v.push(rm(None, &[mdpr(b"s", b"video/x-pn-audiorealx")]));
    v.push(rm(None, &[mdpr(b"s", b"audio/x-pn-videorealx")]));
    v.push(b"GIF89a\x01\x02".to_vec());
    v.push(b"FIG89a\x01\x02".to_vec());
    v.push(exe(b"MZ", 64, b"EP\0\0", 0x2000));
    v
});
/// The contents detected after others, by family: its representatives, and one of every other family.
static AFTER: LazyLock<HashMap<u16, Vec<(Vec<u8>, u16)>>> = LazyLock::new(|| {
    let one: Vec<Vec<u8>> = model::FEATURES.iter().map(|f| space::reps(f.1)[0].clone()).collect();
    model::FEATURES.iter().map(|f| {
        let v = space::reps(f.1).into_iter().chain(one.clone()).map(|b| { let w = model::detect(&b.clone().into(), model::ALL) as u16; (b, w) }).collect();
        (f.1, v)
    }).collect()
});

/// The number of small documents at the beginning.
const SMALL: usize = 23;

/// The document next to this one that is of the same length, if any.
pub fn twin(d: usize) -> usize {
    let n = DOCS.len();
    [d + 1, d.wrapping_sub(1)].into_iter().find(|&e| e < n && DOCS[e].len() == DOCS[d].len()).unwrap_or((d ^ 1).min(n - 1))
}

static WANT: LazyLock<Vec<u16>> = LazyLock::new(|| DOCS.iter().map(|d| model::detect(&d.clone().into(), model::ALL) as u16).collect());

/// What a step of a history does with its document.
const FORMS: [&str; 9] = ["bytes", "reader", "file", "buffer", "fail-head", "panic", "fault", "file-same-time", "chunks"];

thread_local! {
    static BUFFER: RefCell<Vec<u8>> = RefCell::new(vec![0; 1 << 17]);
}

struct Panicking<'a>(EnvReader<'a>, usize);
impl Read for Panicking<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if self.0.ops == self.1 {
            panic!("reader");
        }
        self.0.read(b)
    }
}
impl Seek for Panicking<'_> {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        if self.0.ops == self.1 {
            panic!("reader");
        }
        self.0.seek(p)
    }
}

/// Performs one step; None if what it gives is as required.
fn step(form: usize, doc: usize, dir: &Path) -> Option<String> {
    let b = &DOCS[doc];
    let want = WANT[doc];
    let d: Doc = b.clone().into();
    let path = dir.join("history.bin");
    let none = Plan::default();
    let got: io::Result<u16> = match FORMS[form] {
        "bytes" => Ok(subject::full::bytes(b)),
        "reader" => subject::full::reader(Cursor::new(b)),
        "file" => {
            std::fs::write(&path, b).unwrap();
            subject::full::file(&path)
        }
        "file-same-time" => {
            // Rewritten in place, with the modification time of before.
            let f = std::fs::OpenOptions::new().write(true).create(true).truncate(false).open(&path).unwrap();
            let t = std::time::UNIX_EPOCH + std::time::Duration::from_secs(1_000_000_000);
            (&f).write_all_(b);
            f.set_len(b.len() as u64).unwrap();
            f.set_modified(t).unwrap();
            drop(f);
            subject::full::file(&path)
        }
        "buffer" => BUFFER.with_borrow_mut(|x| {
            // The same memory for every content.
            x[..b.len()].copy_from_slice(b);
            Ok(subject::full::bytes(&x[..b.len()]))
        }),
        "chunks" => {
            let plan = Plan { chunk: Some(97), ..Plan::default() };
            subject::full::env(&mut EnvReader::new(&d, &plan))
        }
        "fail-head" => {
            let plan = Plan { fail_from: Some((0, Some(io::ErrorKind::InvalidData))), ..Plan::default() };
            return match subject::full::env(&mut EnvReader::new(&d, &plan)) {
                Err(e) if e.kind() == io::ErrorKind::InvalidData => None,
                g => Some(format!("{g:?} from a failing reader")),
            };
        }
        "fault" => {
            // Fails behind the leading bytes.
            let plan = Plan { fail_from: Some((if b.is_empty() { 1 } else { 3 }, None)), ..Plan::default() };
            let mut r = EnvReader::new(&d, &plan);
            let g = subject::full::env(&mut r);
            return crate::env::judge_fault(&d, want, &r, g).err();
        }
        _ => {
            for k in [0, 1, 3] {
                let mut r = Panicking(EnvReader::new(&d, &none), k);
                let _ = guarded(|| subject::full::reader(&mut r));
            }
            return None;
        }
    };
    match got {
        Ok(g) if g == want => None,
        g => Some(format!("{} {doc}: {}, must be {}", FORMS[form], g.map_or_else(|e| e.to_string(), subject::name), subject::name(want))),
    }
}

trait WriteAll {
    fn write_all_(&mut self, b: &[u8]);
}
impl WriteAll for &std::fs::File {
    fn write_all_(&mut self, b: &[u8]) {
        io::Write::write_all(self, b).unwrap();
    }
}

/// The child process of a history: `dir form.doc form.doc ...`.
pub fn child(args: &[&str]) -> ! {
    silent_panics();
    let dir = PathBuf::from(args[0]);
    for (i, s) in args[1..].iter().enumerate() {
        let (f, d) = s.split_once('.').unwrap();
        if let Some(e) = step(f.parse().unwrap(), d.parse().unwrap(), &dir) {
            println!("step {i}: {e}");
            std::process::exit(3);
        }
    }
    println!("same");
    std::process::exit(0)
}

unsafe extern "C" {
    fn setrlimit(resource: i32, limit: *const [u64; 2]) -> i32;
}

/// Lets this process have no more than 256 files open, so that files left open are noticed.
fn few_files() {
    // RLIMIT_NOFILE; SAFETY: two numbers are what the call reads.
    unsafe { setrlimit(7, &[256, 256]) };
}

fn steps_of(c: &Case) -> Vec<(usize, usize)> {
    c.aux.iter().map(|a| ((a / 100) as usize, (a % 100) as usize)).collect()
}

fn fresh_judge() -> Arc<Judge> {
    Arc::new(|w: &W, c: &Case| {
        let dir = w.ctx.scratch.join(format!("h{}", w.id));
        std::fs::create_dir_all(&dir).unwrap();
        let out = Command::new(std::env::current_exe().unwrap()).arg("history").arg(&dir)
            .args(steps_of(c).iter().map(|(f, d)| format!("{f}.{d}"))).output().map_err(|e| format!("cannot run: {e}"))?;
        let text = String::from_utf8_lossy(&out.stdout);
        if out.status.success() && text.trim() == "same" {
            return Ok(c.aux.len() as u64);
        }
        Err(format!("history {:?} in a fresh process: {} {}", steps_of(c).iter().map(|(f, d)| format!("{} {d}", FORMS[*f])).collect::<Vec<_>>(), out.status, text.trim()))
    })
}

// ---------------------------------------------------------------- threads

struct State {
    segs: Vec<(usize, usize)>,
    cur: usize,
    done: Vec<bool>,
}
struct Sched {
    m: Mutex<State>,
    cv: Condvar,
}

impl Sched {
    /// Called by thread `t` before every operation and once before it starts.
    fn turn(&self, t: usize, start: bool) {
        let mut s = self.m.lock().unwrap();
        if !start {
            let c = s.cur;
            if s.segs[c].1 == 0 {
                s.next();
                self.cv.notify_all();
            } else {
                s.segs[c].1 -= 1;
            }
        }
        while s.segs[s.cur].0 != t {
            s = self.cv.wait(s).unwrap();
        }
        // The switch back costs this thread its pending operation.
    }
    fn finish(&self, t: usize) {
        let mut s = self.m.lock().unwrap();
        s.done[t] = true;
        s.next();
        self.cv.notify_all();
    }
}
impl State {
    fn next(&mut self) {
        loop {
            self.cur += 1;
            if self.cur >= self.segs.len() {
                match self.done.iter().position(|d| !d) {
                    Some(t) => self.segs.push((t, usize::MAX)),
                    None => self.segs.push((usize::MAX, 0)),
                }
                return;
            }
            if !self.done[self.segs[self.cur].0] {
                return;
            }
        }
    }
}

struct Stepped<'a> {
    r: EnvReader<'a>,
    s: &'a Sched,
    t: usize,
}
impl Read for Stepped<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.s.turn(self.t, false);
        self.r.read(b)
    }
}
impl Seek for Stepped<'_> {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.s.turn(self.t, false);
        self.r.seek(p)
    }
}

/// Runs one detection per thread under a schedule: runs of (thread, operations), then to the end in order.
fn interleave(docs: &[usize], chunk: Option<usize>, segs: Vec<(usize, usize)>) -> Verdict {
    let n = docs.len();
    let sched = Sched { m: Mutex::new(State { segs: segs.clone(), cur: 0, done: vec![false; n] }), cv: Condvar::new() };
    let plan = Plan { chunk, ..Plan::default() };
    let all: Vec<Doc> = docs.iter().map(|&d| DOCS[d].clone().into()).collect();
    let run = |t: usize| {
        sched.turn(t, true);
        let mut r = Stepped { r: EnvReader::new(&all[t], &plan), s: &sched, t };
        let g = guarded(|| subject::full::reader(&mut r));
        sched.finish(t);
        g
    };
    let res: Vec<_> = std::thread::scope(|sc| {
        let hs: Vec<_> = (1..n).map(|t| { let run = &run; sc.spawn(move || run(t)) }).collect();
        let mut v = vec![run(0)];
        v.extend(hs.into_iter().map(|h| h.join().unwrap()));
        v
    });
    for (t, r) in res.into_iter().enumerate() {
        match r? {
            Ok(g) if g == WANT[docs[t]] => {}
            g => return Err(format!("thread {t} of {docs:?} under schedule {segs:?}: {}, must be {}",
                g.map_or_else(|e| e.to_string(), subject::name), subject::name(WANT[docs[t]]))),
        }
    }
    Ok(docs.iter().fold(0, |a, &d| a * 1000 + WANT[d] as u64))
}

/// The number of operations of a detection alone.
fn ops(doc: usize, chunk: Option<usize>) -> usize {
    let d: Doc = DOCS[doc].clone().into();
    let plan = Plan { chunk, ..Plan::default() };
    let mut r = EnvReader::new(&d, &plan);
    let _ = guarded(|| subject::full::env(&mut r));
    r.ops
}

struct Nesting<'a> {
    r: EnvReader<'a>,
    at: usize,
    inner: &'a mut dyn FnMut(),
}
impl Nesting<'_> {
    fn call(&mut self) {
        if self.r.ops == self.at {
            self.at = usize::MAX;
            (self.inner)();
        }
    }
}
impl Read for Nesting<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.call();
        self.r.read(b)
    }
}
impl Seek for Nesting<'_> {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.call();
        self.r.seek(p)
    }
}

fn nested(doc: usize, at: usize, inner: &mut dyn FnMut()) -> Result<(), String> {
    let d: Doc = DOCS[doc].clone().into();
    let plan = Plan::default();
    let mut r = Nesting { r: EnvReader::new(&d, &plan), at, inner };
    match subject::full::reader(&mut r) {
        Ok(g) if g == WANT[doc] => Ok(()),
        g => Err(format!("document {doc} with a nested detection at operation {at}: {}, must be {}", g.map_or_else(|e| e.to_string(), subject::name), subject::name(WANT[doc]))),
    }
}

pub fn spaces(t: bool) -> Vec<Space> {
    let nd = DOCS.len();
    let blank = || Doc::from(vec![]);
    let mut v = race_spaces(t);
    v.push(Space {
        name: "fresh-process-pairs".into(),
        body: Arc::new(move |ch| {
            // Every pair of documents by the same form, and of forms with the twin of the document.
            let aux = if ch.flag() {
                let (a, b) = (ch.choose(nd), ch.choose(nd));
                let f = if t { ch.choose(FORMS.len()) } else { ch.pick(&[0, 2, 3]) } as u64;
                vec![f * 100 + a as u64, f * 100 + b as u64]
            } else {
                let d = ch.choose(nd);
                let (f, g) = (ch.choose(FORMS.len()) as u64, ch.choose(FORMS.len()) as u64);
                vec![f * 100 + twin(d) as u64, g * 100 + d as u64]
            };
            Some(Case { aux, ..Case::from(blank()) })
        }),
        judge: fresh_judge(),
    });
    v.push(Space {
        name: "fresh-process-triples".into(),
        body: Arc::new(move |ch| {
            // Steps of all kinds over a few documents.
            let steps: &[u64] = &[0, 101, 202, 203, 304, 305, 406, 502, 604, 209, 210, 711, 702, 823, 224, 331, 332, 133, 34];
            let n = if t { steps.len() } else { 12 };
            let k = ch.range(1, if t { 4 } else { 3 });
            Some(Case { aux: (0..k).map(|_| steps[ch.choose(n)]).collect(), ..Case::from(blank()) })
        }),
        judge: fresh_judge(),
    });
    let long = if t { 2_000_000u64 } else { 500_000 };
    v.push(Space {
        name: "long-histories".into(),
        body: Arc::new(move |ch| {
            // Stride through all (form, document) pairs, so that every ordered pair occurs over and over.
            let stride = ch.pick(&[1u64, 7, 11, 13, 17, 19, 23, 29]);
            let files = ch.flag();
            Some(Case { aux: vec![stride, files as u64, if files { long / 30 } else { long }], ..Case::from(blank()) })
        }),
        judge: Arc::new(move |w: &W, c: &Case| {
            let dir = w.ctx.scratch.join(format!("l{}", w.id));
            std::fs::create_dir_all(&dir).unwrap();
            let forms: &[usize] = if c.aux[1] == 1 { &[2, 7, 0, 3] } else { &[0, 1, 3, 4, 6, 8] };
            let m = (forms.len() * SMALL) as u64;
            if c.aux[1] == 1 {
                few_files();
            }
            let run = || {
                let mut x = 0;
                for i in 0..c.aux[2] {
                    x = (x + c.aux[0] + i / m) % m;
                    // The big documents now and then.
                    let doc = if i % 64 == 63 { SMALL + (i / 64) as usize % (nd - SMALL) } else { x as usize % SMALL };
                    let f = forms[x as usize / SMALL];
                    if let Some(e) = step(f, doc, &dir) {
                        return Err(format!("after {i} calls: {e}"));
                    }
                    w.beat();
                }
                Ok(c.aux[2])
            };
            let r = run();
            w.ctx.extra_exec.fetch_add(c.aux[2], std::sync::atomic::Ordering::Relaxed);
            r
        }),
    });
    v.push(Space {
        name: "many-contents".into(),
        body: Arc::new(move |ch| {
            // Every content differs from all before; some of those come again, at any distance.
            let (kind, form, again) = (ch.choose(3) as u64, ch.choose(4) as u64, ch.choose(4) as u64);
            Some(Case { aux: vec![kind, form, again, if form == 3 { 4_000 } else { 60_000 } * if t { 10 } else { 1 }], ..Case::from(blank()) })
        }),
        judge: Arc::new(move |w: &W, c: &Case| {
            let (kind, form, again, n) = (c.aux[0], c.aux[1], c.aux[2], c.aux[3]);
            let small: Vec<usize> = (0..nd).filter(|&d| DOCS[d].len() < 2000).collect();
            let dir = w.ctx.scratch.join(format!("m{}", w.id));
            std::fs::create_dir_all(&dir).unwrap();
            let make = |i: u64| -> (usize, Vec<u8>) {
                let d = small[i as usize % small.len()];
                let mut x = DOCS[d].clone();
                let k = i / small.len() as u64;
                match kind {
                    0 => x.extend(format!("{k:08x}").bytes()),
                    1 => x.resize(x.len() + k as usize % 40_000, b' '),
                    _ => {
                        x.extend([b'.'; 600]);
                        x.extend(format!("{k:08x}").bytes());
                    }
                }
                (d, x)
            };
            for i in 0..n {
                // One of those before comes again, or its twin.
                let j = match again {
                    0 => i,
                    1 => if i % 3 == 2 { i - 1 } else { i },
                    2 => if i % 5 == 4 { i.saturating_sub(1 << (i / 5 % 14)) } else { i },
                    _ => if i % 4 == 3 { i / 2 } else { i },
                };
                let (d, x) = make(j);
                let w0 = model::detect(&x.clone().into(), model::ALL) as u16;
                let got = match form {
                    0 => Ok(subject::full::bytes(&x)),
                    1 => subject::full::reader(Cursor::new(&x)),
                    2 => BUFFER.with_borrow_mut(|b| {
                        b[..x.len()].copy_from_slice(&x);
                        Ok(subject::full::bytes(&b[..x.len()]))
                    }),
                    _ => {
                        let p = dir.join(format!("{}.bin", j % 1500));
                        std::fs::write(&p, &x).unwrap();
                        subject::full::file(&p)
                    }
                };
                if !matches!(got, Ok(g) if g == w0) {
                    return Err(format!("the answer for content {j} after {i} others (document {d}) is {}, must be {}", got.map_or_else(|e| e.to_string(), subject::name), subject::name(w0)));
                }
                w.beat();
            }
            w.ctx.extra_exec.fetch_add(n, std::sync::atomic::Ordering::Relaxed);
            let _ = std::fs::remove_dir_all(&dir);
            Ok(n)
        }),
    });
    // Within a process: anything that may leave something behind, then any content of that family.
    let before: Arc<Vec<(u16, Vec<u8>)>> = Arc::new(model::FEATURES.iter().flat_map(|f| space::variants(f.1).into_iter().chain(space::reps(f.1)).chain(crate::words::fresh_docs()).map(|x| (f.1, x))).collect());
    v.push(Space {
        name: "in-process-pairs".into(),
        body: Arc::new(move |ch| {
            let a = ch.choose(before.len());
            let (bit, x) = &before[a];
            let how = if t { ch.choose(80) } else { ch.choose(40) };
            let doc = if how < 16 {
                // Intact or cut.
                let n = x.len() - (x.len() * how / 16).min(x.len());
                x[..n].to_vec()
            } else {
                x.clone()
            };
            // A fault behind the leading bytes, once or from there on.
            let plan = if how < 16 { Plan::default() } else if how % 2 == 0 {
                Plan { fail_from: Some((2 + (how - 16) / 2, None)), ..Plan::default() }
            } else {
                Plan { devs: vec![(2 + (how - 16) / 2, crate::doc::Dev::Fail(io::ErrorKind::Other))], ..Plan::default() }
            };
            Some(Case { doc: doc.into(), plan, aux: vec![*bit as u64] })
        }),
        judge: Arc::new(|_: &W, c: &Case| {
            let mut n = 0;
            for (b, want) in &*AFTER[&(c.aux[0] as u16)] {
                let _ = guarded(|| subject::full::env(&mut EnvReader::new(&c.doc, &c.plan)));
                let got = subject::full::bytes(b);
                if got != *want {
                    return Err(format!("then {:?}: detected {}, must be {}", String::from_utf8_lossy(b), subject::name(got), subject::name(*want)));
                }
                n = n * 7 + got as u64;
            }
            Ok(n)
        }),
    });
    // Two threads, every pair of documents, every schedule with up to `bound` preemptions.
    let pool: Arc<Vec<usize>> = Arc::new(if t { (0..nd).collect() } else { vec![0, 1, 2, 3, 4, 5, 6, 8, 9, 11, 12, 13, 14, 15, 17, 20, 21, 23, 24, 27, 31, 34] });
    for chunk in [None, Some(4000)] {
        let n: Arc<Vec<usize>> = Arc::new((0..nd).map(|d| ops(d, chunk)).collect());
        let pool = pool.clone();
        let cap = if t { 60 } else if chunk.is_none() { 24 } else { 10 };
        v.push(Space {
            name: format!("two-threads{}", if chunk.is_some() { "-short-reads" } else { "" }),
            body: Arc::new(move |ch| {
                let (a, b) = (pool[ch.choose(pool.len())], pool[ch.choose(pool.len())]);
                let (na, nb) = (n[a].min(cap), n[b].min(cap));
                let k = ch.choose(3);
                // (thread, operations) runs; thread 0 first (the other order is the swapped pair).
                let mut segs = vec![];
                if k >= 1 {
                    segs.push((0, ch.choose(na.max(1))));
                }
                if k >= 2 {
                    segs.push((1, ch.choose(nb.max(1))));
                }
                if k == 0 {
                    segs.push((0, usize::MAX));
                }
                let mut aux = vec![a as u64, b as u64, chunk.unwrap_or(0) as u64];
                aux.extend(segs.iter().flat_map(|s| [s.0 as u64, s.1 as u64]));
                Some(Case { aux, ..Case::from(blank()) })
            }),
            judge: sched_judge(2),
        });
    }
    if t {
        let n: Arc<Vec<usize>> = Arc::new((0..nd).map(|d| ops(d, None)).collect());
        v.push(Space {
            name: "two-threads-three-preemptions".into(),
            body: Arc::new(move |ch| {
                let pool = [0usize, 2, 4, 6, 9, 12, 13, 15, 20, 21, 23];
                let (a, b) = (ch.pick(&pool), ch.pick(&pool));
                let (na, nb) = (n[a].min(16), n[b].min(16));
                let i = ch.choose(na);
                let j = ch.choose(nb);
                let k = ch.choose(na - i);
                Some(Case { aux: vec![a as u64, b as u64, 0, 0, i as u64, 1, j as u64, 0, k as u64], ..Case::from(blank()) })
            }),
            judge: sched_judge(2),
        });
    }
    let n: Arc<Vec<usize>> = Arc::new((0..nd).map(|d| ops(d, None)).collect());
    v.push(Space {
        name: "three-threads".into(),
        body: Arc::new(move |ch| {
            let pool: &[usize] = if t { &[0, 1, 2, 5, 6, 9, 12, 14, 15, 20, 23] } else { &[0, 2, 5, 6, 14, 20] };
            let ds = [ch.pick(pool), ch.pick(pool), ch.pick(pool)];
            let m = if t { 14 } else { 8 };
            // 0 runs, then 1, then 2 to its end or 0 again.
            let i = ch.choose(n[ds[0]].min(m));
            let j = ch.choose(n[ds[1]].min(m));
            let mut aux: Vec<u64> = ds.iter().map(|&d| d as u64).collect();
            aux.extend([0, 0, i as u64, 1, j as u64, 2, if ch.flag() { u64::MAX } else { 1 }]);
            if ch.flag() {
                aux.extend([1, 1]);
            }
            Some(Case { aux, ..Case::from(blank()) })
        }),
        judge: sched_judge(3),
    });
    let n: Arc<Vec<usize>> = Arc::new((0..nd).map(|d| ops(d, None)).collect());
    v.push(Space {
        name: "nested-detections".into(),
        body: Arc::new(move |ch| {
            let (a, b) = (ch.choose(nd), ch.choose(nd));
            let at = ch.choose(n[a].clamp(1, if t { 100 } else { 24 }));
            let form = ch.choose(FORMS.len() + 1);
            Some(Case { aux: vec![a as u64, b as u64, at as u64, form as u64], ..Case::from(blank()) })
        }),
        judge: Arc::new(|w: &W, c: &Case| {
            let (a, b, at, form) = (c.aux[0] as usize, c.aux[1] as usize, c.aux[2] as usize, c.aux[3] as usize);
            let dir = w.ctx.scratch.join(format!("n{}", w.id));
            std::fs::create_dir_all(&dir).unwrap();
            let mut inner = Ok(());
            let mut run = || {
                inner = if form < FORMS.len() {
                    step(form, b, &dir).map_or(Ok(()), Err)
                } else {
                    // Two levels deep.
                    let mut deepest = Ok(());
                    let r = nested(b, 2, &mut || deepest = step(0, a, &dir).map_or(Ok(()), Err));
                    r.and(deepest)
                };
            };
            nested(a, at, &mut run)?;
            inner.map_err(|e| format!("nested in document {a} at operation {at}: {e}"))?;
            Ok(WANT[a] as u64 * 1000 + WANT[b] as u64)
        }),
    });
    v
}

// ---------------------------------------------------------------- synchronisation operations

/// The program with the crate built against controlled synchronisation primitives (harness/race), if it can be built.
fn race(args: &[String]) -> Result<String, String> {
    let out = Command::new(std::env::current_exe().unwrap().with_file_name("ffrace")).args(args).output().map_err(|e| format!("cannot run: {e}"))?;
    let text = String::from_utf8_lossy(&out.stdout).trim().to_string();
    if out.status.success() { Ok(text) } else { Err(format!("{} {text}", out.status)) }
}
/// The number of synchronisation operations of the crate per document; None without that program.
pub static SYNCS: LazyLock<Option<Vec<u64>>> = LazyLock::new(|| {
    std::env::var_os("FFMC_RACE")?;
    let t = race(&["count".into()]).ok()?;
    t.lines().map(|l| l.parse().ok()).collect()
});

/// The operations of two threads where another may step in.
type Places = [Vec<usize>; 2];

/// All synchronisation operations, and some of the I/O.
fn places(cap: usize, before: &str, form: usize, a: usize, b: usize) -> Places {
    static SEEN: LazyLock<Mutex<HashMap<String, Places>>> = LazyLock::new(Mutex::default);
    let args: Vec<String> = ["points".into(), before.into(), form.to_string(), a.to_string(), b.to_string()].into();
    let key = format!("{args:?}");
    if let Some(p) = SEEN.lock().unwrap().get(&key) {
        return p.clone();
    }
    // What fails here fails in the case without switches, too.
    let text = race(&args).unwrap_or_default();
    let mut lines = text.lines();
    let p: Places = std::array::from_fn(|_| {
        let l = lines.next().unwrap_or("i").as_bytes();
        let of = |k: u8| (0..l.len()).filter(move |&i| l[i] == k).collect::<Vec<_>>();
        let (s, i) = (of(b's'), of(b'i'));
        // From both ends, and what may be more in another order.
        let mut v: Vec<usize> = s.iter().take(cap).chain(s.iter().rev().take(cap / 2)).copied().collect();
        v.extend(i.iter().take(cap / 4).chain(i.last()).copied());
        v.extend([l.len(), l.len() + 1]);
        v.sort();
        v.dedup();
        v
    });
    SEEN.lock().unwrap().insert(key, p.clone());
    p
}

fn race_spaces(t: bool) -> Vec<Space> {
    let Some(n) = &*SYNCS else { return vec![] };
    let with: Vec<usize> = (0..DOCS.len()).filter(|&d| n[d] > 0).collect();
    // Without any such operation, a few schedules of I/O operations are all there is.
    let pool: Arc<Vec<usize>> = Arc::new(if with.is_empty() { vec![2, 5, 7] } else { with.into_iter().take(if t { 14 } else { 7 }).collect() });
    let none = n.iter().all(|&n| n == 0);
    vec![Space {
        name: "synchronisation".into(),
        body: Arc::new(move |ch| {
            let (a, b) = (ch.pick(&pool), ch.pick(&pool));
            // Nothing before, or either of the contents.
            let before = if none { 0 } else { ch.choose(3) };
            let first = ["-".to_string(), a.to_string(), b.to_string()][before].clone();
            // By readers or as slices.
            let form = if none { 0 } else { ch.choose(2) };
            let p = places(if none { 8 } else if t { 32 } else { 12 }, &first, form, a, b);
            let mut aux = vec![before as u64, form as u64, a as u64, b as u64];
            let k = ch.choose(if none { 2 } else if t { 4 } else { 3 });
            for x in 0..k {
                let i = ch.pick(&p[x % 2]);
                // The third run goes on where the first one ended.
                aux.extend([x as u64 % 2, i as u64]);
            }
            Some(Case { aux, ..Case::from(Doc::from(vec![])) })
        }),
        judge: Arc::new(|_: &W, c: &Case| {
            let before = if c.aux[0] == 0 { "-".into() } else { c.aux[c.aux[0] as usize + 1].to_string() };
            let mut args = vec!["run".to_string(), before, c.aux[1].to_string(), c.aux[2].to_string(), c.aux[3].to_string()];
            args.extend(c.aux[4..].iter().map(|x| x.to_string()));
            match race(&args) {
                Ok(t) if t == "same" => Ok(c.aux.len() as u64),
                g => Err(format!("documents {} and {} in two threads of a fresh process, schedule of synchronisation operations {args:?}: {}", c.aux[2], c.aux[3], g.unwrap_or_else(|e| e))),
            }
        }),
    }]
}

fn sched_judge(threads: usize) -> Arc<Judge> {
    Arc::new(move |_: &W, c: &Case| {
        let docs: Vec<usize> = c.aux[..threads].iter().map(|&d| d as usize).collect();
        let chunk = if threads == 2 || c.aux[threads] != 0 { Some(c.aux[threads] as usize).filter(|&x| x != 0) } else { None };
        let segs = c.aux[threads + 1..].chunks(2).map(|s| (s[0] as usize, s[1] as usize)).collect();
        interleave(&docs, chunk, segs)
    })
}
