//! C02, C03 and C04: the environment of a detection, its deliveries, its faults and its costs.
use crate::alloc;
use crate::doc::{Dev, Doc, EnvReader, Plan};
use crate::explore::Ch;
use crate::fmt::*;
use crate::judge::OPS;
use crate::model::{self, FEATURES};
use crate::run::{Case, Judge, Space, Verdict, W};
use crate::space::{self, BIG};
use crate::subject;
use std::fs::File;
use std::io::{BufReader, Cursor, ErrorKind, Read, Seek, SeekFrom};
use std::sync::{Arc, LazyLock};

fn space_of(name: &str, body: impl Fn(&mut Ch) -> Option<Case> + Sync + Send + 'static, judge: &Arc<Judge>) -> Space {
    Space { name: name.into(), body: Arc::new(body), judge: judge.clone() }
}

/// Representatives of every family and contents without or with another signature.
pub fn small_docs() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = FEATURES.iter().flat_map(|f| space::reps(f.1)).collect();
    v.extend([
        vec![],
        b"x".to_vec(),
        b"\x89PNG\r\n\x1A\n\0\0\0\x0DIHDR".to_vec(),
        b"\0\x01\x02\x03 binary".to_vec(),
        b"ID3".to_vec(),
        b"MZ".to_vec(),
        b"PK\x03\x04".to_vec(),
        b"caf\xC3\xA9 \xE2\x82\xAC \xF0\x9F\x98\x80\n".repeat(3),
    ]);
    v.extend(crate::words::fresh_docs());
    v
}

/// Contents whose deciding bytes lie across or beyond the boundaries of buffers and windows.
pub fn edge_docs() -> Vec<Vec<u8>> {
    let mut v = vec![];
    let text = |n: usize, what: &[u8], m: usize| Buf(vec![b't'; n]).b(what).fill(m, b'y').0;
    for n in [511, 4095, 8190, 8191, 8192, 16_383, 36_868, 36_869, 36_870, 65_533, 65_534, 65_535] {
        v.push(text(n, "\u{20ac}".as_bytes(), 5));
    }
    v.push(text(8191, b"\0", 5));
    v.push(text(65_535, b"\0", 5));
    v.push(text(65_536, b"\0", 5));
    v.push(text(65_535, b"\xFF", 5));
    for n in [4080, 8178, 8186, 8187, 8190, 16_375, 40_000] {
        v.push(Buf::new().b(b"%PDF-1.4\n").to(n, b'p').b(AI).fill(40, b'q').0);
    }
    for n in [8178, 8188, 8189, 8191, 8196] {
        let m = b"<svg ";
        v.push(Buf::new().b(b"<?xml version=\"1.0\"?>").to(n, b' ').b(m).fill(40, b'q').0);
    }
    for n in [100, 512, 8180, 8200, 32_768 + 100 - SKETCH.len() - 1, 32_768 + 100 - SKETCH.len(), 32_768 + 100 - SKETCH.len() + 1] {
        v.push(Buf(sqlite(n, 0)).b(SKETCH).fill(20, 3).0);
    }
    for n in [0, 1, 500, 8170, 65_513, 65_535] {
        v.push(zip(&[ent("a"), ent("word/document.xml")], &ZipOpt { comment: vec![b'c'; n], ..ZipOpt::default() }));
    }
    // A directory far beyond the head buffer.
    for n in [8100, 36_800, 40_000, 70_000] {
        v.push(zip(&[ent("b"), mime_ent("application/epub+zip")], &ZipOpt { gap: n, ..ZipOpt::default() }));
        v.push(Buf(id3(3, 0, n)).b([0xFF, 0xFB, 0x90, 0]).0);
        v.push(exe(b"MZ", n as u64, b"PE\0\0", 0x2000));
        let moov = mp4_box(b"moov", &mp4_box(b"trak", &mp4_box(b"mdia", &hdlr(b"soun"))));
        v.push(Buf(ftyp(b"mp42")).b(mp4_box(b"mdat", &vec![0; n])).b(moov).0);
        v.push(ebml(b"matroska", &Buf(el(E_VOID, 0, &vec![0; n])).b(el(E_TRACKS, 0, &track(b"A_AAC"))).0));
        v.push(asf(None, &[asf_obj(&guid_other(), None, &vec![0; n]), asf_stream(&model::G_VIDEO)]));
        v.push(rm(None, &[rm_chunk(b"DATA", None, &vec![0; n]), mdpr(b"Audio", b"audio/x-pn-realaudio")]));
        v.push(cfb(3, (n / 512) as u64, &model::guid(model::CLSIDS[7].0), b"", b""));
    }
    // A signature at the very end of the head region, complete or one byte short of it.
    let iso = |n: usize| {
        let mut x = vec![0; 36_870];
        x[36_865..].copy_from_slice(b"CD001");
        x.truncate(n);
        x
    };
    v.push(iso(36_870));
    v.push(iso(36_869));
    let mut y = iso(36_870);
    y.extend([0; 100]);
    v.push(y);
    v
}

/// Contents in which several structures count, so that the answer changes if one of them is missed,
/// close together and with gaps between them.
pub fn layered_docs() -> Vec<Vec<u8>> {
    let mut v = vec![];
    for gap in [0, 9000, 40_000] {
        let pad = asf_obj(&guid_other(), None, &vec![0; gap]);
        let (aud, vid) = (asf_stream(&model::G_AUDIO), asf_stream(&model::G_VIDEO));
        let dvr = asf_ext(3, &[asf_desc(b"T\0i\0", b"abc"), asf_desc(&[b'n'; 300], &[1; 20]), asf_desc(model::DVR, b"9")]);
        v.push(asf(None, &[aud.clone(), pad.clone(), vid.clone()]));
        v.push(asf(None, &[aud.clone(), pad.clone(), asf_obj(&guid_other(), None, b""), vid.clone(), pad.clone()]));
        v.push(asf(None, &[aud, vid, pad, dvr]));
        let at = (gap / 512) as u64;
        v.push(cfb(3, at, &[0; 16], b"", model::XLR_NAME));
        v.push(cfb(3, at, &[0; 16], model::WPS_NAME, model::XLR_NAME));
        v.push(cfb(3, at, &model::guid(model::CLSIDS[7].0), b"", b""));
        let void = el(E_VOID, 0, &vec![0; gap]);
        let t = |c: &[u8]| el(E_TRACKS, 8, &Buf(track(c)).b(&void).0);
        v.push(ebml(b"matroska", &Buf(t(b"S_TEXT/UTF8")).b(t(b"A_AAC")).b(t(b"V_VP8")).b(&void).0));
        let stereo = el(E_TRACKS, 0, &el(E_TRACK, 0, &Buf(el(E_CODEC, 2, b"V_VP8")).b(el(E_VIDEO, 4, &el(E_STEREO, 0, &[0, 0, 1]))).0));
        v.push(ebml(b"matroska", &Buf(t(b"A_AAC")).b(&stereo).0));
        v.push(exe(b"MZ", 64 + gap as u64, b"PE\0\0", 0x2000));
        for tail in [&b"fLaC\0\0\0"[..], b"\xFF\xFB\x90\0"] {
            v.push(Buf(id3(3, 0, gap)).b(id3(4, 0x10, 20)).b(id3(2, 0x40, gap)).b(tail).0);
        }
        let trak = |k: &[u8]| mp4_box(b"trak", &Buf(mp4_box64(b"free", &vec![0; gap])).b(mp4_box(b"mdia", &hdlr(k))).0);
        let moov = |t: &[&[u8]]| mp4_box(b"moov", &t.iter().map(|k| trak(k)).collect::<Vec<_>>().concat());
        v.push(Buf(ftyp(b"mp42")).b(moov(&[b"text", b"soun", b"vide"])).0);
        v.push(Buf(ftyp(b"mp42")).b(moov(&[b"text"])).b(mp4_box(b"mdat", b"")).b(moov(&[b"soun"])).0);
        v.push(Buf::new().b(b"%PDF-1.4\n").z(gap).b(AI).fill(40, b'q').0);
        let data = rm_chunk(b"DATA", None, &vec![0; gap]);
        v.push(rm(None, &[mdpr(b"Audio", b"audio/x-pn-realaudio"), data.clone(), rm_chunk(b"CONT", None, b"x"), mdpr(&[b'n'; 200], b"video/x-pn-realvideo")]));
        v.push(rm(None, &[mdpr(b"", b"x"), data, mdpr(b"V", b"audio/x-pn-realaudio")]));
        v.push(Buf(sqlite(100 + gap.min(32_000), 0)).b(SKETCH).z(30).0);
        v.push(Buf::new().b(b"<?xml version=\"1.0\"?>").fill(gap.min(8000), b' ').b(b"<tt>").fill(20, b' ').b(b"xmlns=\"http://www.w3.org/ns/ttml\"").0);
        let o = ZipOpt { gap, comment: vec![b'c'; 30], ..ZipOpt::default() };
        v.push(zip(&[ent("META-INF/MANIFEST.MF"), ent("a"), ent("word/document.xml")], &o));
        v.push(zip(&[ent("META-INF/MANIFEST.MF"), ent("a/b"), ent("c")], &ZipOpt { zip64: true, ..o.clone() }));
        v.push(zip(&[ent("META-INF/MANIFEST.MF"), Ent { local_extra: 9, ..mime_ent("application/vnd.sun.xml.writer.global") }], &o));
        v.push(zip(&[ent("a"), Ent { extra: 20, comment: 9, ..ent("b") }, ent("xl/workbook.xml")], &ZipOpt { zip64: true, ..o }));
        v.push(Buf(b"text\n".repeat(3)).fill(gap, b't').b(b"\n").fill(gap.min(20_000), b'u').b(b"\n\0\n").0);
        v.push(Buf(b"text\n".repeat(3)).fill(gap, b't').b(b"\n").b("\u{20ac}\n").b(b"last").0);
    }
    v
}

fn guid_other() -> [u8; 16] {
    model::guid(G_OTHER)
}

const SIZES: [usize; 24] = [
    1, 2, 3, 5, 7, 8, 13, 16, 64, 100, 511, 512, 513, 1000, 4095, 4096, 8191, 8192, 8193, 32_768, 36_869, 36_870, 36_871, 65_536,
];
pub static CHUNKS: LazyLock<Vec<usize>> = LazyLock::new(|| SIZES.into_iter().chain(crate::words::fresh_sizes().into_iter().filter(|n| (1..1 << 20).contains(n)).map(|n| n as usize)).collect());

/// Detects through the planned environment; the answer must be the one for the bytes.
fn same_judge() -> Arc<Judge> {
    Arc::new(|_: &W, c: &Case| {
        let want = subject::full::bytes(&c.doc.bytes());
        let mut r = EnvReader::new(&c.doc, &c.plan);
        r.op_limit = 4_000_000;
        r.dirty = c.aux.first() == Some(&1);
        let got = subject::full::env(&mut r).map_err(|e| format!("unexpected error {e}"))?;
        if got != want {
            return Err(format!("detected {} through this reader, {} from the bytes", subject::name(got), subject::name(want)));
        }
        Ok(got as u64)
    })
}

fn dev(ch: &mut Ch) -> Dev {
    ch.pick(&[Dev::Short(1), Dev::Interrupt, Dev::Short(7), Dev::Short(4097)])
}

pub fn delivery_spaces(t: bool) -> Vec<Space> {
    let j = same_judge();
    let small = Arc::new(small_docs());
    let edge = Arc::new(edge_docs());
    let all: Arc<Vec<Vec<u8>>> = Arc::new(small.iter().chain(edge.iter()).cloned().collect());
    let fix: Arc<Vec<Vec<u8>>> = Arc::new(space::fixtures().into_iter().map(|x| x.1).filter(|x| x.len() < 1 << 20).collect());
    let case = |x: &Vec<u8>, plan: Plan, aux: Vec<u64>| Some(Case { doc: x.clone().into(), plan, aux });
    let mut v = vec![];
    let d = all.clone();
    v.push(space_of("constant-chunks", move |ch| {
        let x = &d[ch.choose(d.len())];
        let chunk = Some(ch.pick(&CHUNKS[..]));
        case(x, Plan { chunk, ..Plan::default() }, vec![ch.choose(2) as u64])
    }, &j));
    let d = small.clone();
    let n = if t { 4200 } else { 700 };
    v.push(space_of("every-chunk-size", move |ch| {
        let x = &d[ch.choose(d.len())];
        let n = if x.len() < 2 * n { x.len() + 2 } else { n };
        case(x, Plan { chunk: Some(1 + ch.choose(n)), ..Plan::default() }, vec![])
    }, &j));
    let d = fix.clone();
    v.push(space_of("fixtures-constant-chunks", move |ch| {
        let x = &d[ch.choose(d.len())];
        let chunk = Some(ch.pick(if t { &CHUNKS[..] } else { &[1, 7, 512, 4095, 8192, 36_869] }));
        case(x, Plan { chunk, ..Plan::default() }, vec![1])
    }, &j));
    let d = all.clone();
    let k1 = if t { 300 } else { 60 };
    v.push(space_of("one-deviation", move |ch| {
        let x = &d[ch.choose(d.len())];
        let chunk = ch.pick(&[None, Some(512), Some(100)]);
        let k = ch.choose(k1);
        let devs = vec![(k, dev(ch))];
        case(x, Plan { chunk, devs, ..Plan::default() }, vec![])
    }, &j));
    let d = if t { all.clone() } else { small.clone() };
    v.push(space_of("two-deviations", move |ch| {
        let x = &d[ch.choose(d.len())];
        let a = ch.choose(23);
        let b = a + 1 + ch.choose(23 - a);
        let devs = vec![(a, dev(ch)), (b, dev(ch))];
        case(x, Plan { devs, ..Plan::default() }, vec![])
    }, &j));
    if t {
        let d = small.clone();
        v.push(space_of("three-deviations", move |ch| {
            let x = &d[ch.choose(d.len())];
            let a = ch.choose(16);
            let b = a + 1 + ch.choose(16 - a);
            let c = b + 1 + ch.choose(17 - b);
            let devs = vec![(a, dev(ch)), (b, dev(ch)), (c, dev(ch))];
            case(x, Plan { devs, ..Plan::default() }, vec![])
        }, &j));
    }
    let d = all.clone();
    v.push(space_of("interrupt-patterns", move |ch| {
        let x = &d[ch.choose(d.len())];
        let chunk = ch.pick(&[None, Some(7), Some(512), Some(8192)]);
        let (period, run) = ch.pick(&[(2, 1), (3, 2), (2, 2), (5, 4), (7, 1)]);
        // `run` interrupted operations out of every `period + 1`, forever enough.
        let devs = (0..12_000).filter(|k| k % (period + 1) < run).map(|k| (k, Dev::Interrupt)).collect::<Vec<_>>();
        let n = (x.len() / chunk.unwrap_or(4096) + 60) * (period + 1) / (period + 1 - run) + 20;
        let devs = devs.into_iter().take_while(|d| d.0 < n).collect();
        case(x, Plan { chunk, devs, ..Plan::default() }, vec![])
    }, &j));
    let d: Arc<Vec<Vec<u8>>> = Arc::new(all.iter().cloned().chain(layered_docs()).collect());
    let mut bursts = if t { vec![5, 8, 9, 10, 16, 32, 33, 64, 100, 128, 129, 255, 256, 257, 1000, 1024, 1025, 5000, 20_000] } else { vec![8, 10, 33, 100, 129, 257, 1025] };
    bursts.extend(crate::words::fresh_sizes().into_iter().filter(|n| (1..70_000).contains(n)).map(|n| n as usize));
    v.push(space_of("interrupt-bursts", move |ch| {
        // An operation that is interrupted over and over before it succeeds.
        let x = &d[ch.choose(d.len())];
        let k = ch.choose(if t { 60 } else { 20 });
        let n = ch.pick(&bursts);
        let chunk = ch.pick(if t { &[None, Some(1000)] } else { &[None][..] });
        case(x, Plan { chunk, devs: (k..k + n).map(|i| (i, Dev::Interrupt)).collect(), ..Plan::default() }, vec![])
    }, &j));
    // Huge contents: a byte slice of any length against a reader.
    let huge: Arc<Judge> = Arc::new(|_: &W, c: &Case| {
        let both = c.doc.with_slice(|b| (subject::full::bytes(b), subject::full::reader(BufReader::new(Cursor::new(b))).map_err(|e| e.to_string())));
        let Some((want, cursor)) = both else { return Ok(u64::MAX) };
        for dirty in [false, true] {
            let plan = Plan { chunk: dirty.then_some(1000), ..Plan::default() };
            let mut r = EnvReader::new(&c.doc, &plan);
            r.op_limit = 4_000_000;
            r.dirty = dirty;
            let got = subject::full::env(&mut r).map_err(|e| format!("unexpected error {e}"))?;
            if got != want {
                return Err(format!("detected {} through a reader, {} from the bytes", subject::name(got), subject::name(want)));
            }
        }
        if cursor != Ok(want) {
            return Err(format!("{cursor:?} through a buffered cursor, {} from the bytes", subject::name(want)));
        }
        Ok(want as u64)
    });
    for s in crate::far::spaces(t) {
        if s.name.ends_with("-offsets") || s.name.ends_with("-ends") || s.name == "long-tails" {
            v.push(Space { name: format!("huge-{}", s.name), body: s.body, judge: huge.clone() });
        }
    }
    // Every content of every grammar: a slice against readers that seek like files.
    let alike: Arc<Judge> = Arc::new(|_: &W, c: &Case| {
        if !c.doc.tiny() {
            return Ok(u64::MAX);
        }
        let want = subject::full::bytes(&c.doc.bytes());
        for (chunk, dirty) in [(None, false), (Some(97), true)] {
            let plan = Plan { chunk, ..Plan::default() };
            let mut r = EnvReader::new(&c.doc, &plan);
            r.op_limit = 4_000_000;
            r.dirty = dirty;
            let got = subject::full::env(&mut r).map_err(|e| format!("unexpected error {e}"))?;
            if got != want {
                return Err(format!("detected {} through a reader (chunks {chunk:?}), {} from the bytes", subject::name(got), subject::name(want)));
            }
        }
        Ok(want as u64)
    });
    for (_, bit) in FEATURES {
        for s in space::family_spaces(bit, 0) {
            if !t && ["id3-chains", "xml-marker-surroundings", "xml-bom-marker-surroundings", "zip-comment-lengths", "txt-characters", "cfb-wide", "cfb-insert"].contains(&&*s.name) {
                continue;
            }
            v.push(Space { name: format!("contents-{}", s.name), body: s.body, judge: alike.clone() });
        }
        // Real files and contents near the representatives.
        for s in space::mutations(bit, 0) {
            if s.name.ends_with("-variants") || s.name.ends_with("-wide") && (t || ![model::CFB, model::PDF, model::XML, model::TXT, model::SQL].contains(&bit)) {
                v.push(Space { name: format!("file-{}", s.name), body: s.body, judge: file_judge() });
            }
        }
    }
    v.push(space_of("special-files", |ch| Some(Case { aux: vec![ch.choose(14) as u64], ..Case::from(Doc::from(vec![])) }), &special_judge()));
    for (name, d) in [("delivery-forms", all.clone()), ("fixture-delivery-forms", fix.clone())] {
        let n = if t || name.starts_with("del") { MODES } else { 8 };
        v.push(space_of(name, move |ch| {
            let x = &d[ch.choose(d.len())];
            let mode = if n == MODES { ch.choose(n) } else { ch.pick(&[0, 2, 5, 13, 14, 16, 22, 24]) };
            case(x, Plan::default(), vec![mode as u64])
        }, &form_judge()));
    }
    v
}

trait ReadSeek: Read + Seek {}
impl<T: Read + Seek> ReadSeek for T {}

/// Names under which a content is stored; none of them may matter.
const FILE_NAMES: [&str; 14] = [
    "plain", "x.txt", "x.png", "x.zip", "x.docx", "x.exe", "x.mp3", "x.PDF", ".hidden", "x.tar.gz", "\u{e9}\u{1f600} \u{4e16}.xml", "x.", "a b;c.svg", "-x.mp4",
];
const MODES: usize = 18 + FILE_NAMES.len();

/// A file rewritten in place for every content against a slice.
fn file_judge() -> Arc<Judge> {
    Arc::new(|w: &W, c: &Case| {
        let b = c.doc.bytes();
        let want = subject::full::bytes(&b);
        let dir = w.ctx.scratch.join(format!("f{}", w.id));
        std::fs::create_dir_all(&dir).unwrap();
        let p = dir.join("x.bin");
        std::fs::write(&p, &b).unwrap();
        match subject::full::file(&p) {
            Ok(g) if g == want => Ok(g as u64),
            g => Err(format!("detected {} from a file, {} from the bytes", g.map_or_else(|e| e.to_string(), subject::name), subject::name(want))),
        }
    })
}

/// Files whose length the system does not know, or that are not stored in the usual way.
fn special_judge() -> Arc<Judge> {
    Arc::new(|w: &W, c: &Case| {
        let dir = w.ctx.scratch.join(format!("s{}", w.id));
        std::fs::create_dir_all(&dir).unwrap();
        let p = dir.join("x.bin");
        let _ = std::fs::remove_file(&p);
        let text = b"some text\n".to_vec();
        let archive = zip(&[ent("a"), ent("word/document.xml")], &ZipOpt { gap: 40_000, ..ZipOpt::default() });
        // The path to detect and what it holds.
        let mut keep = None;
        let (path, bytes): (std::path::PathBuf, Vec<u8>) = match c.aux[0] {
            k @ 0..=3 => {
                // Their length is zero for the system, yet they have content.
                let p: std::path::PathBuf = ["/proc/version", "/proc/cpuinfo", "/proc/self/cmdline", "/proc/filesystems"][k as usize].into();
                match std::fs::read(&p) {
                    Ok(b) if !b.is_empty() => (p, b),
                    _ => return Ok(0),
                }
            }
            4 => ("/dev/null".into(), vec![]),
            5 => ("/dev/zero".into(), vec![0; 1 << 17]),
            6 => {
                // Nothing but a hole.
                let f = File::create(&p).unwrap();
                f.set_len(200_000).unwrap();
                (p, vec![0; 200_000])
            }
            7 => {
                // Content, a hole, content.
                let mut b = archive[..4].to_vec();
                b.resize(1 << 20, 0);
                b.extend(&archive[4..]);
                let f = File::create(&p).unwrap();
                std::os::unix::fs::FileExt::write_at(&f, &archive[..4], 0).unwrap();
                std::os::unix::fs::FileExt::write_at(&f, &archive[4..], 1 << 20).unwrap();
                (p, b)
            }
            8 => {
                // Deleted, but open.
                std::fs::write(&p, &archive).unwrap();
                let f = File::open(&p).unwrap();
                std::fs::remove_file(&p).unwrap();
                let q = format!("/proc/self/fd/{}", std::os::fd::AsRawFd::as_raw_fd(&f));
                keep = Some(f);
                (q.into(), archive)
            }
            9 => {
                // Open elsewhere, at another position.
                std::fs::write(&p, &archive).unwrap();
                let mut f = File::open(&p).unwrap();
                f.seek(SeekFrom::Start(77)).unwrap();
                keep = Some(f);
                (p, archive)
            }
            10 => {
                // A second name for the same file.
                let q = dir.join("hard.txt");
                let _ = std::fs::remove_file(&q);
                std::fs::write(&p, &archive).unwrap();
                std::fs::hard_link(&p, &q).unwrap();
                (q, archive)
            }
            11 => {
                // Read-only.
                std::fs::write(&p, &text).unwrap();
                let mut m = std::fs::metadata(&p).unwrap().permissions();
                m.set_readonly(true);
                std::fs::set_permissions(&p, m).unwrap();
                (p, text)
            }
            12 => {
                // Executable, dated before the epoch.
                std::fs::write(&p, &archive).unwrap();
                std::fs::set_permissions(&p, std::os::unix::fs::PermissionsExt::from_mode(0o755)).unwrap();
                let _ = File::options().write(true).open(&p).unwrap().set_modified(std::time::UNIX_EPOCH - std::time::Duration::from_secs(1000));
                (p, archive)
            }
            _ => {
                // Open for writing elsewhere.
                std::fs::write(&p, &archive).unwrap();
                keep = Some(File::options().append(true).open(&p).unwrap());
                (p, archive)
            }
        };
        let want = subject::full::bytes(&bytes);
        let got = subject::full::file(&path);
        drop(keep);
        match got {
            Ok(g) if g == want => Ok(g as u64),
            g => Err(format!("{path:?}: detected {}, {} from the bytes", g.map_or_else(|e| e.to_string(), subject::name), subject::name(want))),
        }
    })
}

fn form_judge() -> Arc<Judge> {
    Arc::new(|w: &W, c: &Case| {
        let b = c.doc.bytes();
        let want = subject::full::bytes(&b);
        let mode = c.aux[0] as usize;
        let dir = w.ctx.scratch.join(format!("w{}", w.id));
        let file = |name: &str| {
            std::fs::create_dir_all(&dir).unwrap();
            let p = dir.join(name);
            std::fs::write(&p, &b).unwrap();
            p
        };
        let caps = [1, 2, 7, 16, 100, 512, 8192, 65_536];
        let got = match mode {
            0 => Ok(subject::full::from(&b)),
            1 => subject::full::reader(Cursor::new(&b[..])),
            2 => subject::full::reader(&mut Cursor::new(b.to_vec())),
            3..=10 => subject::full::reader(BufReader::with_capacity(caps[mode - 3], Cursor::new(&b[..]))),
            11 => {
                let r: Box<dyn ReadSeek> = Box::new(Cursor::new(b.to_vec()));
                subject::full::reader(r)
            }
            12 => {
                // A buffered reader over a reader that delivers little at a time.
                let plan = Plan { chunk: Some(5), ..Plan::default() };
                subject::full::reader(BufReader::with_capacity(64, EnvReader::new(&c.doc, &plan)))
            }
            13 => subject::full::reader(File::open(file("r.bin")).unwrap()),
            14 => subject::full::reader(BufReader::new(File::open(file("s.bin")).unwrap())),
            15 => {
                // A reader used before and rewound by the caller.
                let mut r = Cursor::new(b.to_vec());
                let a = subject::full::reader(&mut r);
                r.seek(SeekFrom::Start(0)).unwrap();
                let again = subject::full::reader(&mut r);
                if a.as_ref().ok() != again.as_ref().ok() {
                    return Err(format!("detected {a:?} first, {again:?} after rewinding the reader"));
                }
                again
            }
            16 => {
                let p = file("target.bin");
                let l = dir.join("link.txt");
                let _ = std::fs::remove_file(&l);
                std::os::unix::fs::symlink(&p, &l).unwrap();
                let l2 = dir.join("link2.zip");
                let _ = std::fs::remove_file(&l2);
                std::os::unix::fs::symlink("link.txt", &l2).unwrap();
                let r = subject::full::file(&l);
                let r2 = subject::full::file(&l2);
                if r.as_ref().ok() != r2.as_ref().ok() {
                    return Err(format!("{r:?} through one link, {r2:?} through two"));
                }
                r
            }
            17 => {
                let p = file("kinds.bin");
                let s = p.to_str().unwrap().to_string();
                let rs = [
                    subject::full::file(s.as_str()).ok(),
                    subject::full::file(s.clone()).ok(),
                    subject::full::file(&p).ok(),
                    subject::full::file(p.clone()).ok(),
                    subject::full::file(std::ffi::OsString::from(&s)).ok(),
                    subject::full::file(dir.join("./../").join(dir.file_name().unwrap()).join("kinds.bin")).ok(),
                ];
                if rs.iter().any(|r| *r != Some(want)) {
                    return Err(format!("from_file gives {rs:?} for kinds of paths, {want} from the bytes"));
                }
                Ok(want)
            }
            m => subject::full::file(file(FILE_NAMES[m - 18])),
        };
        match got {
            Ok(g) if g == want => Ok(g as u64),
            g => Err(format!("form {mode}: detected {}, {} from the bytes", g.map_or_else(|e| e.to_string(), subject::name), subject::name(want))),
        }
    })
}

// ---------------------------------------------------------------- C03

pub const KINDS: [ErrorKind; 12] = [
    ErrorKind::Other, ErrorKind::UnexpectedEof, ErrorKind::InvalidData, ErrorKind::PermissionDenied, ErrorKind::NotFound, ErrorKind::WouldBlock,
    ErrorKind::TimedOut, ErrorKind::BrokenPipe, ErrorKind::InvalidInput, ErrorKind::OutOfMemory, ErrorKind::WriteZero, ErrorKind::ConnectionReset,
];

const ALL_KINDS: [ErrorKind; 37] = [
    ErrorKind::NotFound, ErrorKind::PermissionDenied, ErrorKind::ConnectionRefused, ErrorKind::ConnectionReset, ErrorKind::HostUnreachable,
    ErrorKind::NetworkUnreachable, ErrorKind::ConnectionAborted, ErrorKind::NotConnected, ErrorKind::AddrInUse, ErrorKind::AddrNotAvailable,
    ErrorKind::NetworkDown, ErrorKind::BrokenPipe, ErrorKind::AlreadyExists, ErrorKind::WouldBlock, ErrorKind::NotADirectory, ErrorKind::IsADirectory,
    ErrorKind::DirectoryNotEmpty, ErrorKind::ReadOnlyFilesystem, ErrorKind::StaleNetworkFileHandle, ErrorKind::InvalidInput, ErrorKind::InvalidData,
    ErrorKind::TimedOut, ErrorKind::WriteZero, ErrorKind::StorageFull, ErrorKind::NotSeekable, ErrorKind::QuotaExceeded, ErrorKind::FileTooLarge,
    ErrorKind::ResourceBusy, ErrorKind::ExecutableFileBusy, ErrorKind::Deadlock, ErrorKind::TooManyLinks, ErrorKind::ArgumentListTooLong,
    ErrorKind::Unsupported, ErrorKind::UnexpectedEof, ErrorKind::OutOfMemory, ErrorKind::Other, ErrorKind::InvalidFilename,
];

fn fault_judge() -> Arc<Judge> {
    Arc::new(|_: &W, c: &Case| {
        let b = c.doc.bytes();
        let want = subject::full::bytes(&b);
        let mut r = EnvReader::new(&c.doc, &c.plan);
        r.op_limit = 1_000_000;
        let got = subject::full::env(&mut r);
        judge_fault(&c.doc, want, &r, got)
    })
}

pub fn judge_fault(d: &Doc, want: u16, r: &EnvReader, got: std::io::Result<u16>) -> Verdict {
    let Some(i) = r.injected else {
        return match got {
            Ok(g) if g == want => Ok(g as u64),
            g => Err(format!("{g:?} without any fault, {} from the bytes", subject::name(want))),
        };
    };
    let what = format!("{:?} at operation {} ({})", i.kind, i.op, if i.seek { "seek" } else { "read" });
    if i.head {
        return match got {
            Err(e) if e.kind() == i.kind => Ok(1 << 16),
            Err(e) => Err(format!("{what} while reading the leading bytes is reported as {:?}", e.kind())),
            Ok(g) => Err(format!("{what} while reading the leading bytes is answered {}", subject::name(g))),
        };
    }
    match got {
        Err(e) => Err(format!("{what} behind the leading bytes surfaces as {e:?}")),
        Ok(g) if g == want || g == ff::FileFormat::ArbitraryBinaryData as u16 => Ok(g as u64 | 2 << 16),
        Ok(g) if g == model::generic(d, model::ALL) as u16 => Ok(g as u64 | 2 << 16),
        Ok(g) => Err(format!("{what} changes the answer from {} to {}", subject::name(want), subject::name(g))),
    }
}

/// Every position at or shortly behind a change of the bytes.
pub fn sector_positions(x: &[u8]) -> Vec<u64> {
    (0..=x.len()).filter(|&p| p < 40 || (p.saturating_sub(9)..(p + 2).min(x.len())).any(|q| q == 0 || x[q] != x[q - 1])).map(|p| p as u64).collect()
}

pub fn fault_spaces(t: bool) -> Vec<Space> {
    let j = fault_judge();
    let small = small_docs();
    let all: Arc<Vec<Vec<u8>>> = Arc::new(small.iter().cloned().chain(edge_docs()).collect());
    let fix: Arc<Vec<Vec<u8>>> = Arc::new(space::fixtures().into_iter().map(|x| x.1)
        .filter(|x| x.len() < 1 << 20 && (t || crate::judge::family_of(x) != 0)).collect());
    let mut v = vec![];
    let ops = if t { 400 } else { 60 };
    for (name, d) in [("faults", all.clone()), ("fixture-faults", fix)] {
        v.push(space_of(name, move |ch| {
            let x = &d[ch.choose(d.len())];
            let k = ch.choose(ops);
            let kind = ch.pick(&KINDS);
            let chunk = ch.pick(if name == "faults" { &[None, Some(512), Some(64)][..] } else { &[None] });
            let plan = if ch.flag() {
                Plan { chunk, devs: vec![(k, Dev::Fail(kind))], ..Plan::default() }
            } else {
                Plan { chunk, fail_from: Some((k, Some(kind))), ..Plan::default() }
            };
            Some(Case { doc: x.clone().into(), plan, aux: vec![] })
        }, &j));
    }
    let d = Arc::new(small.clone());
    v.push(space_of("fault-kinds", move |ch| {
        // All kinds there are.
        let x = &d[ch.choose(d.len())];
        let k = ch.choose(if t { 60 } else { 12 });
        let kind = ch.pick(&ALL_KINDS);
        let plan = if ch.flag() {
            Plan { devs: vec![(k, Dev::Fail(kind))], ..Plan::default() }
        } else {
            Plan { chunk: Some(40), devs: vec![(k, Dev::Fail(kind))], ..Plan::default() }
        };
        Some(Case { doc: x.clone().into(), plan, aux: vec![] })
    }, &j));
    let d = Arc::new(small.clone());
    v.push(space_of("fault-forms", move |ch| {
        // Errors that are nothing but a kind, and all of the operating system.
        let x = &d[ch.choose(d.len())];
        let k = ch.choose(if t { 60 } else { 12 });
        let dev = if ch.flag() {
            Dev::FailBare(ch.pick(&ALL_KINDS))
        } else {
            match 1 + ch.choose(134) {
                4 => return None, // EINTR
                code => Dev::FailOs(code as i32),
            }
        };
        Some(Case { doc: x.clone().into(), plan: Plan { devs: vec![(k, dev)], ..Plan::default() }, aux: vec![] })
    }, &j));
    let d: Arc<Vec<Vec<u8>>> = Arc::new(all.iter().cloned().chain(layered_docs()).collect());
    let lists: Arc<Vec<Vec<u64>>> = Arc::new(d.iter().map(|x| sector_positions(x)).collect());
    v.push(space_of("bad-sectors", move |ch| {
        // The medium fails at one place, once, some times or for good, when the readers come to it.
        let i = ch.choose(d.len());
        if lists[i].is_empty() {
            return None;
        }
        let at = lists[i][ch.choose(lists[i].len())];
        let times = ch.pick(&[1, usize::MAX, 2]);
        let kind = ch.pick(&[ErrorKind::Other, ErrorKind::UnexpectedEof, ErrorKind::TimedOut]);
        Some(Case { doc: d[i].clone().into(), plan: Plan { sector: Some((at, times, kind)), ..Plan::default() }, aux: vec![] })
    }, &j));
    let d = all.clone();
    v.push(space_of("fault-after-deviation", move |ch| {
        // A short or interrupted read, then a fault; two separate faults.
        let x = &d[ch.choose(d.len())];
        let n = if t { 30 } else { 14 };
        let a = ch.choose(n);
        let b = a + 1 + ch.choose(n - a);
        let first = ch.pick(&[Dev::Short(1), Dev::Interrupt, Dev::Short(600), Dev::Fail(ErrorKind::Other), Dev::Fail(ErrorKind::UnexpectedEof)]);
        let kind = ch.pick(&[ErrorKind::Other, ErrorKind::UnexpectedEof, ErrorKind::InvalidData]);
        Some(Case { doc: x.clone().into(), plan: Plan { devs: vec![(a, first), (b, Dev::Fail(kind))], ..Plan::default() }, aux: vec![] })
    }, &j));
    let d = all.clone();
    v.push(space_of("seeks-past-the-end-rejected", move |ch| {
        let x = &d[ch.choose(d.len())];
        let chunk = ch.pick(&[None, Some(100)]);
        let mut doc = x.clone();
        let cut = ch.choose(40.min(doc.len() + 1));
        doc.truncate(x.len() - cut);
        let max_pos = Some(doc.len() as u64 + ch.pick(&[0, 1, 100]));
        Some(Case { doc: doc.into(), plan: Plan { chunk, max_pos, ..Plan::default() }, aux: vec![] })
    }, &(Arc::new(|_: &W, c: &Case| {
        // A reader may reject such seeks: a later error like any other.
        let want = subject::full::bytes(&c.doc.bytes());
        match subject::full::env(&mut EnvReader::new(&c.doc, &c.plan)) {
            Ok(g) if g == want || g == ff::FileFormat::ArbitraryBinaryData as u16 || g == model::generic(&c.doc, model::ALL) as u16 => Ok(g as u64),
            g => Err(format!("{g:?}, {} from a reader that accepts all seeks", subject::name(want))),
        }
    }) as Arc<Judge>)));
    let d = Arc::new(small);
    v.push(space_of("faults-in-buffered-readers", move |ch| {
        let x = &d[ch.choose(d.len())];
        let k = ch.choose(if t { 100 } else { 30 });
        let kind = ch.pick(&KINDS[..6]);
        let cap = ch.pick(&[16u64, 512, 8192]);
        Some(Case { doc: x.clone().into(), plan: Plan { devs: vec![(k, Dev::Fail(kind))], ..Plan::default() }, aux: vec![cap] })
    }, &(Arc::new(|_: &W, c: &Case| {
        // The fault may hit at any time relative to what the buffer has handed out: never another format.
        let want = subject::full::bytes(&c.doc.bytes());
        let got = subject::full::reader(BufReader::with_capacity(c.aux[0] as usize, EnvReader::new(&c.doc, &c.plan)));
        let Dev::Fail(kind) = c.plan.devs[0].1 else { unreachable!() };
        match got {
            Err(e) if e.kind() == kind => Ok(1 << 16),
            Ok(g) if g == want || g == ff::FileFormat::ArbitraryBinaryData as u16 || g == model::generic(&c.doc, model::ALL) as u16 => Ok(g as u64),
            g => Err(format!("{g:?}, {} without the fault", subject::name(want))),
        }
    }) as Arc<Judge>)));
    v.push(space_of("paths-that-cannot-be-read", |ch| Some(Case { aux: vec![ch.choose(10) as u64], ..Case::from(Doc::from(vec![])) }),
        &(Arc::new(|w: &W, c: &Case| {
            let dir = w.ctx.scratch.join("paths");
            std::fs::create_dir_all(&dir).unwrap();
            std::fs::write(dir.join("file"), b"x").unwrap();
            for (l, to) in [("loop1", "loop2"), ("loop2", "loop1"), ("dangling", "nothing")] {
                let _ = std::os::unix::fs::symlink(to, dir.join(l));
            }
            let long = "n".repeat(300);
            let p = match c.aux[0] {
                0 => dir.join("missing.png"),
                1 => dir.join("no/such/dir"),
                2 => dir.clone(),
                3 => dir.join("nul\0byte.txt"),
                4 => dir.join("loop1"),
                5 => dir.join("dangling"),
                6 => dir.join("file/below"),
                7 => dir.join(long),
                8 => "".into(),
                _ => dir.join("missing.zip/"),
            };
            // What opening and reading the path says.
            let want = File::open(&p).and_then(|mut f| f.read(&mut [0; 8])).map(|_| ()).map_err(|e| (e.kind(), e.raw_os_error()));
            let got = subject::full::file(&p).map(|_| ()).map_err(|e| (e.kind(), e.raw_os_error()));
            if got != want || want.is_ok() {
                return Err(format!("{p:?}: {got:?}, the system says {want:?}"));
            }
            Ok(c.aux[0])
        }) as Arc<Judge>)));
    v
}

// ---------------------------------------------------------------- C04

pub const MAX_BYTES: u64 = 256 << 20;
pub const MAX_HEAP: u64 = 2 << 20;

fn cost_judge() -> Arc<Judge> {
    Arc::new(|_: &W, c: &Case| {
        let mut r = EnvReader::new(&c.doc, &c.plan);
        r.op_limit = OPS;
        let m = alloc::mark();
        r.limits = Some((m, MAX_HEAP, MAX_BYTES));
        let got = subject::full::env(&mut r).map_err(|e| format!("unexpected error {e}"))?;
        let heap = alloc::peak_since(m);
        if heap > MAX_HEAP {
            return Err(format!("{heap} bytes of heap used"));
        }
        if r.bytes > MAX_BYTES {
            return Err(format!("{} bytes read", r.bytes));
        }
        // Orders of magnitude of the costs are the outcomes.
        Ok(got as u64 | (64 - (r.ops as u64).leading_zeros() as u64) << 16 | (64 - heap.leading_zeros() as u64) << 24 | (64 - r.bytes.leading_zeros() as u64) << 32)
    })
}

/// Contents that never end: a beginning and a period repeated up to any length.
fn endless() -> Vec<(u16, Vec<u8>, Vec<u8>)> {
    let mut v: Vec<(u16, Vec<u8>, Vec<u8>)> = vec![];
    let other = guid_other();
    let mut add = |bit, head: Vec<u8>, periods: Vec<Vec<u8>>| {
        for p in periods {
            v.push((bit, head.clone(), p));
        }
    };
    add(model::ASF, asf_head(0xFFFF_FFFF), vec![
        asf_obj(&other, None, &[]),
        asf_obj(&other, Some(0), &[]),
        asf_obj(&other, Some(24), &[1; 7]),
        asf_stream(&G_NONE),
        asf_stream(&model::G_AUDIO),
        asf_ext(0xFFFF, &vec![asf_desc(b"a", b"b"); 40]),
        asf_obj(&model::G_EXT, Some(u64::MAX), &Buf::new().b(le2(0xFFFF)).b(le2(0xFFFF)).fill(65535, b'n').b(le2(0)).b(le2(0xFFFF)).fill(65535, 0).0),
    ]);
    add(model::EBML, Buf(ebml_head(b"matroska")).b(el_id(E_SEGMENT)).b([0x01, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF]).0, vec![
        el(E_VOID, 0, &[]),
        el(E_VOID, 8, &[0; 3]),
        el_sized(E_TRACKS, &[0x01, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF], &[]),
        track(b"S_TEXT"),
        track(&vec![b'V'; 70_000]),
        el(E_CODEC, 0, &[b'x'; 2000]),
        el(E_DOCTYPE, 8, &vec![b'w'; 100_000]),
        vec![0xFF, 0xFF],
        vec![0x80, 0x81, 0x40],
        vec![0],
    ]);
    add(model::ID3, vec![], vec![
        id3(3, 0, 0), id3(4, 0x10, 1), id3(2, 0xC0, 127), id3(4, 0, 70_000), id3_head(3, 0x40, 0), id3_head(4, 0xFF, 0),
    ]);
    add(model::MP4, ftyp(b"mp42"), vec![
        mp4_box(b"free", &[]),
        mp4_box(b"mdat", &[9; 50]),
        mp4_box64(b"mdat", &[]),
        Buf::new().b(be4(0)).b(b"free").0,
        Buf::new().b(be4(1)).b(b"free").b(be8(0)).0,
        Buf::new().b(be4(1)).b(b"moov").b(be8(u64::MAX)).0,
        Buf::new().b(be4(u32::MAX as u64)).b(b"trak").0,
        hdlr(b"meta"),
        hdlr(b"text"),
        Buf::new().b(be4(8)).b(b"hdlr").0,
        Buf::new().b(be4(u32::MAX as u64)).b(b"hdlr").z(8).b(b"meta").0,
    ]);
    add(model::RM, rm_head(0xFFFF_FFFF), vec![
        rm_chunk(b"CONT", None, &[]),
        rm_chunk(b"CONT", Some(0), &[]),
        rm_chunk(b"MDPR", Some(0), &mdpr_payload(b"", b"")),
        mdpr(&[b'n'; 255], &[b'm'; 255]),
        mdpr(b"", b"audio/x-pn-realaudio"),
        rm_chunk(b"DATA", Some(u32::MAX as u64), &[0; 30]),
    ]);
    add(model::PDF, b"%PDF-1.3".to_vec(), vec![vec![b'A'], b"AIPrivateDat".to_vec(), b"AI".to_vec(), b"AIPrivateDataX".to_vec()]);
    add(model::SQL, sqlite(100, 0), vec![b"com.bohemiancoding.sketch".to_vec(), b"c".to_vec()]);
    add(model::XML, b"<?xml version=\"1.0\"?>".to_vec(), vec![b" ".to_vec(), b"<a>".to_vec(), b"<!--".to_vec(), b"<rs".to_vec(), b"\xFF".to_vec()]);
    add(model::TXT, vec![], vec![b"a".to_vec(), b"\n".to_vec(), b"line\r\n".to_vec(), "\u{1f600}".as_bytes().to_vec(), b"\0".to_vec(), b" \t".to_vec(), b"\xFF".to_vec(), b"a".repeat(4095)]);
    let eocd = Buf::new().b(b"PK\x05\x06").z(8).b([0xFF; 8]).z(2).0;
    add(model::ZIP, b"PK\x03\x04".to_vec(), vec![
        b"PK\x05\x06".to_vec(),
        b"PK\x06\x07".to_vec(),
        b"PK\x01\x02".to_vec(),
        b"P".to_vec(),
        eocd,
        Buf::new().b(b"PK\x01\x02").fill(42, 0xFF).fill(65_535, b'n').0,
        vec![0],
    ]);
    add(model::CFB, CFB_SIG.to_vec(), vec![vec![0], vec![0xFF], vec![3, 0]]);
    add(model::EXE, b"MZ".to_vec(), vec![vec![0], vec![0xFF], vec![0x40, 0, 0, 0]]);
    v
}
const G_NONE: [u8; 16] = [0x11; 16];

const LENGTHS: [u64; 9] = [100, 4096, 70_000, 1 << 20, 1 << 31, (1 << 32) + 7, 1 << 40, 1 << 44, (1 << 62) + 3];

pub fn cost_spaces(t: bool) -> Vec<Space> {
    let j = cost_judge();
    let mut v = vec![];
    let e = Arc::new(endless());
    v.push(space_of("endless-contents", move |ch| {
        let (bit, head, p) = &e[ch.choose(e.len())];
        let len = ch.pick(&LENGTHS);
        if *bit == model::PDF && len > 1 << 32 && !t {
            return None;
        }
        let h = head.len() as u64;
        let times = len.saturating_sub(h) / p.len() as u64 + 1;
        let mut d = Doc::sparse(len, 0).rep(h, p, times).put(0, head);
        if *bit == model::ZIP && ch.flag() {
            // A real end record over everything.
            let off = ch.pick(&[4, 0, len / 2]);
            let x = Buf::new().b(b"PK\x05\x06").z(4).b(le2(0xFFFE)).b(le2(0xFFFE)).b(le4(0)).b(le4(off & 0xFFFF_FFFE)).b(le2(0)).0;
            d = d.put(len.saturating_sub(22), x);
        }
        Some(d.into())
    }, &j));
    for (name, bit) in FEATURES {
        let r = space::reps(bit);
        v.push(space_of(&format!("{name}-wide-fields-endless-tail"), move |ch| {
            // Every field position holds an extreme value, and whatever it points to exists.
            let mut x = r[ch.choose(r.len())].clone();
            let w = ch.pick(&[2, 4, 8]);
            if x.len() < w {
                return None;
            }
            let dense = x.len() < 900;
            let i = if dense { ch.choose(x.len() - w + 1) } else { w * ch.choose((x.len() - w) / w + 1) };
            let val = ch.pick(if t || !matches!(bit, model::PDF) { &BIG[..] } else { &BIG[18..] });
            if w < 8 && val >> (8 * w) != 0 {
                return None;
            }
            let y = if ch.flag() { val.to_be_bytes()[8 - w..].to_vec() } else { val.to_le_bytes()[..w].to_vec() };
            x[i..i + w].copy_from_slice(&y);
            let pdf = bit == model::PDF;
            let len = ch.pick(if pdf { &[50u64 << 20, 1 << 62][..1 + t as usize] } else { &[1u64 << 33, 1 << 62] });
            let fill = ch.pick(if pdf { &[0u8][..] } else { &[0, 0xFF, b'a'] });
            if pdf && i % 3 != 0 && !t {
                return None;
            }
            Some(Doc::sparse(len, fill).put(0, x).into())
        }, &j));
    }
    v.push(space_of("largest-structures", move |ch| {
        // Structures with truthful sizes, each as large as its fields allow, one after the other without end.
        let kind = ch.choose(12);
        let n = ch.pick(&[0usize, 7, 8, 9, 63, 64, 65, 255, 4096, 65_535, 65_536, 1 << 20, 1 << 23]);
        if n > 1 << 20 && !t && !matches!(kind, 1 | 6) {
            return None;
        }
        let open = [0x01, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF];
        let eb = || Buf(ebml_head(b"matroska")).b(el_id(E_SEGMENT)).b(open).0;
        let asf = || asf_head(0xFFFF_FFFF);
        let text = |p: &[u8]| Buf(p.to_vec()).to(n.max(p.len()), b'x').0;
        let (head, unit) = match kind {
            0 => {
                let count = ch.pick(&[1usize, 31, 32, 33, 64, 400]);
                let value = ch.pick(&[0usize, 2, 65_535]);
                if n > 65_535 || count * (n + value + 6) > if t { 48 << 20 } else { 9 << 20 } {
                    return None;
                }
                let declared = ch.pick(&[count as u64, 32, 65_535]);
                (asf(), asf_ext(declared, &vec![asf_desc(&vec![b'n'; n], &vec![0; value]); count]))
            }
            1 => (eb(), track(&text(b"S_"))),
            2 => (eb(), el(E_DOCTYPE, 8, &text(b"matroska"))),
            3 => (eb(), el(E_STEREO, 8, &vec![0; n])),
            4 => (asf(), asf_obj(&model::G_STREAM, None, &Buf(G_NONE.to_vec()).z(n).0)),
            5 => (asf(), asf_obj(&guid_other(), None, &vec![0; n])),
            6 => (ftyp(b"mp42"), mp4_box(b"hdlr", &Buf::new().z(8).b(b"meta").z(n).0)),
            7 => (ftyp(b"mp42"), mp4_box64(b"mdat", &vec![0; n])),
            8 => (rm_head(u32::MAX as u64), rm_chunk(b"MDPR", None, &Buf(mdpr_payload(&vec![b'n'; n.min(255)], &vec![b'm'; n.min(255)])).z(n).0)),
            9 => (rm_head(u32::MAX as u64), rm_chunk(b"DATA", None, &vec![0; n])),
            10 => (vec![], id3(4, 0x10, n)),
            _ => (vec![], Buf::new().fill(n, b'l').b(b"\n").0),
        };
        let len = ch.pick(&[1u64 << 26, 1 << 40]);
        let h = head.len() as u64;
        let times = (len - h) / unit.len() as u64 + 1;
        Some(Doc::sparse(len, 0).rep(h, unit, times).put(0, head).into())
    }, &j));
    // The other forms: a slice of any length, and files that are mostly holes.
    let forms: Arc<Judge> = Arc::new(|w: &W, c: &Case| {
        let (what, got, bytes) = if c.aux[0] == 0 {
            let Some((g, h)) = c.doc.with_slice(|b| {
                let m = alloc::mark();
                (subject::full::bytes(b), alloc::peak_since(m))
            }) else { return Ok(u64::MAX) };
            if h > MAX_HEAP {
                return Err(format!("{h} bytes of heap used for a slice"));
            }
            ("slice", g, 0)
        } else {
            let dir = w.ctx.scratch.join(format!("c{}", w.id));
            std::fs::create_dir_all(&dir).unwrap();
            let p = dir.join("x.bin");
            let _ = std::fs::remove_file(&p);
            let f = File::create(&p).unwrap();
            for s in &c.doc.segs {
                std::os::unix::fs::FileExt::write_all_at(&f, &s.data, s.off).unwrap();
            }
            // Not every file system has files that large.
            if f.set_len(c.doc.len).is_err() {
                return Ok(u64::MAX);
            }
            drop(f);
            let read = || -> Option<u64> {
                let t = std::fs::read_to_string("/proc/thread-self/io").ok()?;
                t.lines().find_map(|l| l.strip_prefix("rchar: "))?.trim().parse().ok()
            };
            let before = read();
            let m = alloc::mark();
            let g = subject::full::file(&p).map_err(|e| format!("unexpected error {e}"))?;
            let h = alloc::peak_since(m);
            let after = read();
            let _ = std::fs::remove_file(&p);
            if h > MAX_HEAP {
                return Err(format!("{h} bytes of heap used for a file"));
            }
            ("file", g, before.zip(after).map_or(0, |(a, b)| b - a))
        };
        if bytes > MAX_BYTES {
            return Err(format!("{bytes} bytes read from a {what}"));
        }
        Ok(got as u64 | (64 - bytes.leading_zeros() as u64) << 16)
    });
    let docs: Arc<Vec<Vec<u8>>> = Arc::new(small_docs().into_iter().chain(layered_docs()).collect());
    v.push(space_of("slices-and-files", move |ch| {
        let x = docs[ch.choose(docs.len())].clone();
        let form = ch.choose(2);
        let len = if form == 0 { ch.pick(&[1u64 << 22, 1 << 26, 1 << 33]) } else { ch.pick(&[1 << 22, 1 << 33, 1 << 42]) };
        if form == 0 && len == 1 << 33 && x.starts_with(b"%PDF") {
            return None;
        }
        Some(Case { aux: vec![form as u64], ..Case::from(Doc::sparse(len.max(x.len() as u64), 0).put(0, x)) })
    }, &forms));
    // What a detection leaves behind.
    let leak: Arc<Judge> = Arc::new(move |w: &W, c: &Case| {
        let n = match c.doc.len { 0..4000 if c.plan == Plan::default() => 5000, 0..4000 => 1000, _ => 300 } * if t { 10 } else { 1 };
        let b = c.doc.bytes();
        let mut first = None;
        let once = || {
            let mut r = EnvReader::new(&c.doc, &c.plan);
            r.op_limit = OPS;
            let _ = subject::full::env(&mut r);
            if c.plan == Plan::default() {
                subject::full::bytes(&b);
            }
        };
        for _ in 0..n {
            once();
            let m = *first.get_or_insert_with(alloc::mark);
            let g = alloc::grown_since(m);
            if g > MAX_HEAP as i64 {
                return Err(format!("{g} bytes of heap are kept by up to {n} detections"));
            }
            w.beat();
        }
        w.ctx.extra_exec.fetch_add(n, std::sync::atomic::Ordering::Relaxed);
        Ok(0)
    });
    let docs: Arc<Vec<Vec<u8>>> = Arc::new(small_docs().into_iter().chain(edge_docs()).chain(layered_docs()).collect());
    v.push(space_of("repeated-detections", move |ch| {
        let x = &docs[ch.choose(docs.len())];
        let from = ch.choose(if x.len() < 4000 { 14 } else { 4 });
        let fail_from = (from > 0).then(|| (from - 1, None));
        Some(Case { doc: x.clone().into(), plan: Plan { fail_from, ..Plan::default() }, aux: vec![] })
    }, &leak));
    v.push(space_of("asf-descriptor-counts", |ch| {
        // Objects of up to 65,535 small descriptors.
        let count = ch.pick(&[255usize, 256, 4096, 60_000, 65_535]);
        let desc = asf_desc(&vec![b'n'; ch.pick(&[0, 2, 64])], &vec![0; ch.pick(&[0, 60])]);
        let unit = asf_ext(count as u64, &vec![desc; count]);
        let len = 1u64 << 40;
        let head = asf_head(0xFFFF_FFFF);
        let h = head.len() as u64;
        let times = len / unit.len() as u64;
        Some(Doc::sparse(len, 0).rep(h, unit, times).put(0, head).into())
    }, &j));
    v.push(space_of("zip-largest-directories", |ch| {
        // Up to 65,535 entries with names, extra fields and comments of any size up to 65,535 bytes.
        let n = ch.pick(&[1usize, 255, 1023, 1024, 1025, 5000, 65_534]);
        let (name, extra, comment) = ch.pick(&[(0, 0, 0), (65_535, 0, 0), (0, 65_535, 0), (0, 0, 65_535), (65_535, 65_535, 65_535), (1, 1, 1), (8, 0, 0)]);
        let zip64 = ch.flag();
        let one = Buf::new().b(b"PK\x01\x02").z(24).b(le2(name)).b(le2(extra)).b(le2(comment)).z(12)
            .b(if name == 8 { b"mimetype".to_vec() } else { vec![b'n'; name as usize] }).fill(extra as usize, b'e').fill(comment as usize, b'c').0;
        let dir = 4;
        let size = one.len() as u64 * n as u64;
        let count = if zip64 && ch.flag() { u64::MAX } else { n as u64 };
        let d = Doc::sparse(0, 0).put(0, b"PK\x03\x04").rep(dir, &one, n as u64);
        let at = dir + size;
        let end = if zip64 {
            Buf::new().b(b"PK\x06\x06").b(le8(44)).z(12).b(le8(count)).b(le8(count)).b(le8(size)).b(le8(dir))
                .b(b"PK\x06\x07").z(4).b(le8(at)).b(le4(1))
                .b(b"PK\x05\x06").z(4).b([0xFF; 12]).z(2).0
        } else {
            Buf::new().b(b"PK\x05\x06").z(4).b(le2(count)).b(le2(count)).b(le4(size)).b(le4(dir)).z(2).0
        };
        let len = at + end.len() as u64;
        Some(d.put(at, end).put_len(len).into())
    }, &j));
    v.push(space_of("zip-mimetype-sizes", |ch| {
        // The media type entry declares any size, and that much data exists.
        let size = ch.pick(&[0u64, 255, 256, 257, 4096, 65_536, 1 << 20, 1 << 24, 1 << 28, 1 << 30, 0x7FFF_FFFF, 0xFFFF_FFFE, 0xFFFF_FFFF]);
        let fill = ch.pick(&[b'a', 0, b' ']);
        let entries = ch.pick(&[1u64, 2, 1024]);
        let dir = 38 + size;
        let one = Buf::new().b(b"PK\x01\x02").z(16).b(le4(size)).b(le4(size)).b(le2(8)).z(16).b(b"mimetype").0;
        let len1 = one.len() as u64;
        let local = Buf::new().b(b"PK\x03\x04").z(14).b(le4(size)).b(le4(size)).b(le2(8)).b(le2(0)).b(b"mimetype").0;
        let at = dir + len1 * entries;
        let end = Buf::new().b(b"PK\x06\x06").b(le8(44)).z(12).b(le8(entries)).b(le8(entries)).b(le8(len1 * entries)).b(le8(dir))
            .b(b"PK\x06\x07").z(4).b(le8(at)).b(le4(1))
            .b(b"PK\x05\x06").z(4).b([0xFF; 12]).z(2).0;
        let len = at + end.len() as u64;
        Some(Doc::sparse(len, fill).put(0, local).rep(dir, &one, entries).put(at, end).into())
    }, &j));
    v.push(space_of("long-elements", |ch| {
        // Strings of any declared length, with that much data behind them.
        let n = ch.pick(&[0u64, 1, 255, 256, 4096, 65_535, 65_536, 1 << 20, 1 << 24, 1 << 28, (1 << 32) - 2, 1 << 32, 1 << 40, (1 << 56) - 2]);
        let fill = ch.pick(&[b'V', 0, b'w', 0xFF]);
        let kind = ch.choose(6);
        let head = match kind {
            0 => Buf::new().b(el_id(E_EBML)).b(vsize((n + 20).min((1 << 56) - 2), 8)).b(el_id(E_DOCTYPE)).b(vsize(n, 8)).0,
            1 => Buf(ebml_head(b"matroska")).b(el_id(E_SEGMENT)).b(vsize((1 << 56) - 2, 8)).b(el_id(E_TRACKS)).b(vsize((1 << 56) - 2, 8))
                .b(el_id(E_TRACK)).b(vsize((1 << 56) - 2, 8)).b(el_id(E_CODEC)).b(vsize(n, 8)).0,
            2 => Buf(ebml_head(b"matroska")).b(el_id(E_SEGMENT)).b(vsize((1 << 56) - 2, 8)).b(el_id(E_STEREO)).b(vsize(n, 8)).0,
            3 => Buf(asf_head(9)).b(*model::G_EXT).b(le8(n)).b(le2(0xFFFF)).b(le2(n & 0xFFFF)).0,
            4 => Buf(ftyp(b"mp42")).b(be4(1)).b(b"hdlr").b(be8(n)).0,
            _ => Buf(rm_head(9)).b(b"MDPR").b(be4(n & 0xFFFF_FFFF)).z(32).b([0xFF]).0,
        };
        let len = ch.pick(&[1u64 << 20, 1 << 33, 1 << 62]);
        Some(Doc::sparse(len, fill).put(0, head).into())
    }, &j));
    v
}
