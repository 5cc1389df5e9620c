//! Spaces over vocabularies: words of the file formats that the detection must not mind, and the literals that
//! the sources under check use today but did not use when the literals were last written down (`literals.txt`).
//! The latter only say where to look; what is right is decided by the model alone.
use crate::doc::Doc;
use crate::fmt::*;
use crate::model::*;
use crate::space::{ds, DS};
use std::collections::BTreeSet;
use std::sync::OnceLock;

fn v(x: Vec<u8>) -> Option<Doc> {
    Some(x.into())
}

// ---------------------------------------------------------------- literals

#[derive(Default, Clone)]
pub struct Literals {
    pub words: BTreeSet<Vec<u8>>,
    pub ints: BTreeSet<u64>,
}

/// The string, byte string, character and integer literals of a Rust source, and the arrays of bytes.
pub fn literals(src: &str) -> Literals {
    let s = src.as_bytes();
    let mut l = Literals::default();
    let mut i = 0;
    // Bytes of the bracketed list of integers that is being read, if it is one.
    let mut list: Option<Vec<u8>> = None;
    // The value of a product, shift or sum of integers that is being read.
    let mut value: Option<u64> = None;
    let mut op = 0u8;
    let ident = |c: u8| c.is_ascii_alphanumeric() || c == b'_';
    while i < s.len() {
        let c = s[i];
        if s[i..].starts_with(b"//") {
            while i < s.len() && s[i] != b'\n' {
                i += 1;
            }
        } else if s[i..].starts_with(b"/*") {
            i += 2;
            let mut depth = 1;
            while i < s.len() && depth > 0 {
                if s[i..].starts_with(b"*/") {
                    depth -= 1;
                    i += 1;
                } else if s[i..].starts_with(b"/*") {
                    depth += 1;
                    i += 1;
                }
                i += 1;
            }
        } else if c == b'r' && (s.get(i + 1) == Some(&b'"') || s.get(i + 1) == Some(&b'#')) && (i == 0 || !ident(s[i - 1]) || s[i - 1] == b'b') {
            let mut j = i + 1;
            while s.get(j) == Some(&b'#') {
                j += 1;
            }
            if s.get(j) != Some(&b'"') {
                i += 1;
                continue;
            }
            let end = [&b"\""[..], &vec![b'#'; j - i - 1]].concat();
            let n = s[j + 1..].windows(end.len()).position(|w| w == end).unwrap_or(0);
            l.words.insert(s[j + 1..j + 1 + n].to_vec());
            i = j + 1 + n + end.len();
            list = None;
        } else if c == b'"' {
            let (w, n) = unescape(&s[i + 1..], b'"');
            l.words.insert(w);
            i += 1 + n;
            list = None;
        } else if c == b'\'' {
            // A character, or a lifetime.
            let (w, n) = unescape(&s[i + 1..], b'\'');
            if n > 0 && w.len() <= 4 && String::from_utf8_lossy(&w).chars().count() == 1 {
                i += 1 + n;
                match &mut list {
                    Some(b) if w.len() == 1 => b.push(w[0]),
                    _ => list = None,
                }
                l.words.insert(w);
            } else {
                i += 1;
            }
        } else if c.is_ascii_digit() && (i == 0 || !ident(s[i - 1])) {
            let mut j = i;
            while j < s.len() && ident(s[j]) {
                j += 1;
            }
            let t: String = s[i..j].iter().filter(|c| **c != b'_').map(|c| *c as char).collect();
            let t = ["usize", "u8", "u16", "u32", "u64", "i64", "i32", "u128"].iter().find_map(|x| t.strip_suffix(x)).unwrap_or(&t);
            let n = match (t.get(..2), t.get(2..)) {
                (Some("0x"), Some(r)) => u64::from_str_radix(r, 16),
                (Some("0b"), Some(r)) => u64::from_str_radix(r, 2),
                (Some("0o"), Some(r)) => u64::from_str_radix(r, 8),
                _ => t.parse(),
            };
            match n {
                Ok(n) => {
                    l.ints.insert(n);
                    value = match (value, op) {
                        (Some(a), b'*') => a.checked_mul(n),
                        (Some(a), b'<') => a.checked_shl(n as u32),
                        (Some(a), b'+') => a.checked_add(n),
                        (Some(a), b'-') => a.checked_sub(n),
                        _ => Some(n),
                    };
                    op = 0;
                    l.ints.extend(value);
                    match &mut list {
                        Some(b) if n < 256 => b.push(n as u8),
                        _ => list = None,
                    }
                }
                Err(_) => list = None,
            }
            i = j;
        } else {
            match c {
                b'*' | b'+' | b'-' | b'<' => op = c,
                b' ' => {}
                _ => (value, op) = (None, 0),
            }
            match c {
                b'[' => list = Some(vec![]),
                b']' => {
                    if let Some(b) = list.take()
                        && b.len() > 1
                    {
                        l.words.insert(b);
                    }
                }
                b',' | b' ' | b'\n' | b'|' => {}
                _ if ident(c) && !(c == b'b' && matches!(s.get(i + 1), Some(b'\'' | b'"'))) => {
                    while i + 1 < s.len() && ident(s[i + 1]) {
                        i += 1;
                    }
                    list = None;
                }
                b'b' => {}
                _ => list = None,
            }
            i += 1;
        }
    }
    l
}

/// The text up to the closing quote, and the bytes read including it (0: there is none).
fn unescape(s: &[u8], quote: u8) -> (Vec<u8>, usize) {
    let mut w = vec![];
    let mut i = 0;
    while i < s.len() {
        match s[i] {
            c if c == quote => return (w, i + 1),
            b'\\' => {
                i += 1;
                match s.get(i) {
                    Some(b'n') => w.push(b'\n'),
                    Some(b'r') => w.push(b'\r'),
                    Some(b't') => w.push(b'\t'),
                    Some(b'0') => w.push(0),
                    Some(b'x') => {
                        let h = s.get(i + 1..i + 3).and_then(|h| u8::from_str_radix(std::str::from_utf8(h).ok()?, 16).ok());
                        w.push(h.unwrap_or(0));
                        i += 2;
                    }
                    Some(b'u') => {
                        let e = s[i..].iter().position(|c| *c == b'}').unwrap_or(0);
                        let c = s.get(i + 2..i + e).and_then(|h| u32::from_str_radix(std::str::from_utf8(h).ok()?, 16).ok()).and_then(char::from_u32);
                        w.extend(c.map_or(String::new(), String::from).bytes());
                        i += e;
                    }
                    Some(b'\n') => {
                        while s.get(i + 1).is_some_and(|c| c.is_ascii_whitespace()) {
                            i += 1;
                        }
                    }
                    Some(c) => w.push(*c),
                    None => {}
                }
                i += 1;
            }
            c => {
                w.push(c);
                i += 1;
            }
        }
        if quote == b'\'' && i > 12 {
            break;
        }
    }
    (w, 0)
}

/// All literals of the present sources.
pub fn present() -> Literals {
    let mut l = Literals::default();
    let mut dirs = vec![std::path::PathBuf::from("/repo/src")];
    while let Some(d) = dirs.pop() {
        for p in std::fs::read_dir(d).into_iter().flatten().flatten().map(|e| e.path()) {
            if p.is_dir() {
                dirs.push(p);
            } else if p.extension().is_some_and(|e| e == "rs") && !p.ends_with("formats.rs") {
                let x = literals(&std::fs::read_to_string(p).unwrap_or_default());
                l.words.extend(x.words);
                l.ints.extend(x.ints);
            }
        }
    }
    l
}

/// The literals as text, one a line.
pub fn written(l: &Literals) -> String {
    let mut o = String::new();
    for n in &l.ints {
        o += &format!("{n}\n");
    }
    for w in &l.words {
        o += "=";
        for b in w {
            o += &format!("{b:02x}");
        }
        o += "\n";
    }
    o
}

/// The literals that are new: words, and integers.
pub fn fresh() -> &'static (Vec<Vec<u8>>, Vec<u64>) {
    static F: OnceLock<(Vec<Vec<u8>>, Vec<u64>)> = OnceLock::new();
    F.get_or_init(|| {
        let known: BTreeSet<&str> = include_str!("../literals.txt").lines().collect();
        let mut words = vec![];
        let mut ints = vec![];
        for l in written(&present()).lines().filter(|l| !known.contains(l)) {
            match l.strip_prefix('=') {
                Some(h) => {
                    let w: Vec<u8> = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
                    if !w.is_empty() && w.len() <= 256 {
                        words.push(w);
                    }
                }
                None => ints.push(l.parse::<u64>().unwrap()),
            }
        }
        // Numbers may be words, in either byte order.
        for &n in &ints {
            let b = n.to_be_bytes();
            let b = b[(n | 1).leading_zeros() as usize / 8..].to_vec();
            let r: Vec<u8> = b.iter().rev().copied().collect();
            for w in [b, r] {
                if !words.contains(&w) {
                    words.push(w);
                }
            }
        }
        // Messages of errors and the like: too many words are not looked for.
        words.sort_by_key(|w| w.iter().filter(|b| **b == b' ').count() > 3);
        words.truncate(48);
        ints.truncate(32);
        (words, ints)
    })
}

/// The new integers and their neighbours.
pub fn fresh_sizes() -> Vec<u64> {
    let mut v: Vec<u64> = fresh().1.iter().flat_map(|&n| [n.saturating_sub(1), n, n.saturating_add(1)]).collect();
    v.sort();
    v.dedup();
    v
}

// ---------------------------------------------------------------- helpers

fn with(base: &[&str]) -> Vec<Vec<u8>> {
    base.iter().map(|s| s.as_bytes().to_vec()).chain(fresh().0.iter().cloned()).collect()
}
fn cut4(w: &[u8]) -> [u8; 4] {
    let mut x = [b' '; 4];
    let n = w.len().min(4);
    x[..n].copy_from_slice(&w[..n]);
    x
}
/// Lengths around which something might change.
pub fn lens(max: u64) -> Vec<u64> {
    let mut n: BTreeSet<u64> = (1..64).collect();
    for p in 6..40u32 {
        n.extend([(1u64 << p) - 1, 1 << p, (1 << p) + 1, 3 << p, 5 << p]);
    }
    let mut k = 100u64;
    while k < 1 << 34 {
        n.extend([k - 1, k, k + 1, 2 * k, 5 * k]);
        k *= 10;
    }
    n.extend([36_869, 36_870, 36_871]);
    n.extend(fresh_sizes());
    n.into_iter().filter(|&n| n <= max).collect()
}
/// Numbers of repeated elements.
fn counts(max: u64) -> Vec<u64> {
    let mut n: BTreeSet<u64> = (0..34).collect();
    n.extend([40, 48, 50, 62, 63, 64, 65, 66, 99, 100, 101, 127, 128, 129, 199, 200, 201, 254, 255, 256, 257, 258, 500, 511, 512, 513, 1000, 1022, 1023, 1024, 1025, 1026, 2000, 2048]);
    n.extend(fresh_sizes());
    n.into_iter().filter(|&n| n <= max).collect()
}

// ---------------------------------------------------------------- ASF

fn asf_words() -> Vec<DS> {
    let mut ids: Vec<[u8; 16]> = crate::space::ASF_IDS.iter().map(|g| guid(g)).collect();
    for w in &fresh().0 {
        if w.len() == 36 && w.iter().all(|b| b.is_ascii_hexdigit() || *b == b'-') {
            ids.push(guid(&String::from_utf8_lossy(w).to_lowercase()));
        } else if w.len() <= 16 {
            let mut x = [0; 16];
            x[..w.len()].copy_from_slice(w);
            ids.push(x);
        }
    }
    let names: Vec<Vec<u8>> = with(&["WM/EncodingTime", "WM/MediaClassPrimaryID", "WMFSDKVersion", "IsVBR", "DVR", "DVR File", "DVR File Versio", "DVR File Version", "dvr file version", "DVR FILE VERSION", "xDVR File Version", "DVR File  Version", "DVR_File_Version", "WM/SubTitle", "Title", "DeviceConformanceTemplate"]);
    let lens1 = lens(1 << 44);
    let cn = counts(2000);
    vec![
        ds(ASF, "asf-words-between", move |ch| {
            let id = ch.pick(&ids);
            let p: Vec<u8> = match ch.choose(8) {
                0 => vec![],
                1 => vec![0; 6],
                2 => vec![0; 22],
                3 => Buf::new().z(22).b(asf_stream(&G_VIDEO)).0,
                4 => Buf::new().z(18).b(le4(asf_stream(&G_VIDEO).len() as u64)).b(asf_stream(&G_VIDEO)).0,
                5 => asf_ext(1, &[asf_desc(DVR, b"1")]),
                6 => vec![0xFF; 100],
                _ => Buf::new().b(*G_VIDEO).z(38).0,
            };
            let x = asf_obj(&id, None, &p);
            let (a, w, d) = (asf_stream(&G_AUDIO), asf_stream(&G_VIDEO), asf_ext(1, &[asf_desc(DVR, b"1")]));
            v(asf(None, &match ch.choose(10) {
                0 => vec![x],
                1 => vec![a, x],
                2 => vec![x, a],
                3 => vec![x, w],
                4 => vec![a, x, w],
                5 => vec![w, x, a],
                6 => vec![a, x, d],
                7 => vec![x.clone(), a, x],
                8 => vec![x.clone(), x, w],
                _ => vec![a, asf_obj(&guid(G_OTHER), None, &[7; 9]), x, w],
            }))
        }),
        ds(ASF, "asf-words-of-descriptors", move |ch| {
            let w = ch.pick(&names);
            let mut n: Vec<u8> = if ch.flag() { w.iter().flat_map(|b| [*b, 0]).collect() } else { w };
            if ch.flag() {
                n.extend([0, 0]);
            }
            let val: Vec<u8> = match ch.choose(4) {
                0 => vec![],
                1 => n.clone(),
                2 => DVR.to_vec(),
                _ => vec![1, 0, 0, 0],
            };
            let x = asf_desc(&n, &val);
            let d = asf_desc(DVR, b"1");
            let e = match ch.choose(3) {
                0 => asf_ext(1, &[x]),
                1 => asf_ext(2, &[x, d]),
                _ => asf_ext(2, &[asf_desc(b"T\0", b"xy"), x]),
            };
            let s = ch.pick(&[asf_stream(&G_AUDIO), asf_stream(&G_VIDEO)]);
            v(asf(None, &if ch.flag() { vec![e, s] } else { vec![s, e] }))
        }),
        ds(ASF, "asf-lengths", move |ch| {
            let n = ch.pick(&lens1);
            let kind = ch.choose(3);
            let (last, pre) = (ch.pick(&[asf_stream(&G_VIDEO), asf_stream(&G_AUDIO), asf_ext(1, &[asf_desc(DVR, b"x")])]), asf_stream(&G_AUDIO));
            let at = 30 + pre.len() as u64;
            Some(match kind {
                // An object of the given size, of the given content, or the given number of bytes behind all.
                0 => {
                    let size = n.max(24);
                    Doc::sparse(at + size + last.len() as u64, 0).put(0, asf_head(3)).put(30, pre).put(at, asf_obj(&guid(G_OTHER), Some(size), &[])).put(at + size, last)
                }
                1 => {
                    let size = 24 + n;
                    Doc::sparse(at + size + last.len() as u64, 0).put(0, asf_head(3)).put(30, pre).put(at, asf_obj(&G_STREAM, Some(size), &[])).put(at + size, last)
                }
                _ => Doc::sparse(at + last.len() as u64 + n, 0).put(0, asf_head(2)).put(30, pre).put(at, last),
            })
        }),
        ds(ASF, "asf-counts", move |ch| {
            let n = ch.pick(&cn);
            let f = ch.pick(&[asf_obj(&guid(G_OTHER), None, &[]), asf_stream(&[3; 16]), asf_stream(&G_AUDIO), asf_ext(0, &[]), asf_ext(1, &[asf_desc(b"T\0", b"")])]);
            let last = ch.pick(&[asf_stream(&G_VIDEO), asf_ext(1, &[asf_desc(DVR, b"x")])]);
            let c = ch.pick(&[n + 1, n, 0xFFFF_FFFF]);
            v(Buf(asf_head(c)).b(f.repeat(n as usize)).b(last).0)
        }),
    ]
}

// ---------------------------------------------------------------- CFB

fn cfb_words() -> Vec<DS> {
    let utf16 = |w: &[u8]| w.iter().flat_map(|b| [*b, 0]).collect::<Vec<u8>>();
    let mut names: Vec<Vec<u8>> = vec![];
    for w in with(&["WordDocument", "1Table", "0Table", "Workbook", "Book", "PowerPoint Document", "Current User", "Pictures", "VisioDocument", "Quill", "Contents", "CONTENTS", "\x05SummaryInformation", "\x05DocumentSummaryInformation", "\x01CompObj", "\x01Ole", "__properties_version1.0", "__nameid_version1.0", "__substg1.0_001A001E", "__recip_version1.0_#00000000", "EncryptedPackage", "EncryptionInfo", "Catalog", "StarCalcDocument", "StarDrawDocument", "StarWriterDocument", "SwDocContentMgr", "SwDocMgrTempStorage", "VBA", "_VBA_PROJECT", "MatOST", "WksSSWorkBook", "SPELLING", "Props9", "Props", "NativeContent_MAIN", "PerfectOffice_MAIN", "FileHeader", "BodyText", "RSeDb", "Dgn~H", "Scene", "ClassDirectory3", "\u{4840}\u{3b3f}"]) {
        names.push(w.clone());
        names.push(utf16(&w));
    }
    let mut ids: Vec<[u8; 16]> = ["00020830-0000-0000-c000-000000000046", "00020d0b-0000-0000-c000-000000000046", "0003000c-0000-0000-c000-000000000046", "0002123d-0000-0000-c000-000000000046", "00020832-0000-0000-c000-000000000046", "000c1086-0000-0000-c000-000000000046", "000c1082-0000-0000-c000-000000000046", "00020810-0000-0000-c000-000000000047", "00020907-0000-0000-c000-000000000046", "00020901-0000-0000-c000-000000000046", "00021a15-0000-0000-c000-000000000046", "ffffffff-ffff-ffff-ffff-ffffffffffff", "00000000-0000-0000-c000-000000000046", "00020803-0000-0000-c000-000000000046", "d3e34b21-9d75-101a-8c3d-00aa001a1652"].iter().map(|g| guid(g)).collect();
    for w in &fresh().0 {
        if w.len() == 36 && w.iter().all(|b| b.is_ascii_hexdigit() || *b == b'-') {
            ids.push(guid(&String::from_utf8_lossy(w).to_lowercase()));
        } else if w.len() <= 16 {
            let mut x = [0; 16];
            x[..w.len()].copy_from_slice(w);
            ids.push(x);
        }
    }
    let (n2, i2) = (names.clone(), ids.clone());
    let sizes: Vec<u64> = lens(1 << 33);
    vec![
        ds(CFB, "cfb-words-of-names", move |ch| {
            let w = ch.pick(&names);
            let place = ch.choose(5);
            let ver = ch.pick(&[3u64, 4]);
            let id = ch.pick(&[[0; 16], [1; 16], guid(CLSIDS[13].0)]);
            let other = ch.pick(&[&b""[..], WPS_NAME, XLR_NAME, b"S\0t\0"]);
            let mut n = [other; 5];
            n[place] = &w;
            if place != 0 {
                n[0] = ROOT;
            }
            let base = if ver == 3 { 512 } else { 4096 };
            let z = [0; 16];
            v(Buf(cfb_head(ver, 0)).to(base, 0).b(cfb_entry(n[0], &id)).b(cfb_entry(n[1], &z)).b(cfb_entry(n[2], &z)).b(cfb_entry(n[3], &z)).b(cfb_entry(n[4], &z)).0)
        }),
        ds(CFB, "cfb-words-of-classes", move |ch| {
            // Other class identifiers, of the root and of the entries below.
            let id = ch.pick(&ids);
            let below = ch.pick(&[[0; 16], guid(CLSIDS[7].0), id]);
            let second = ch.pick(&[&b""[..], WPS_NAME]);
            let third = ch.pick(&[&b""[..], XLR_NAME]);
            v(Buf(cfb_head(3, 0)).b(cfb_entry(ROOT, &id)).b(cfb_entry(second, &below)).b(cfb_entry(third, &below)).b(cfb_entry(b"", &[0; 16])).0)
        }),
        ds(CFB, "cfb-words-behind", move |ch| {
            // Streams and remains of text behind the directory do not count, nor the rest of the header.
            let w = ch.pick(&n2);
            let id = ch.pick(&i2);
            let c = ch.choose(4);
            let real = ch.pick(&[guid(CLSIDS[0].0), [0; 16]]);
            let mut x = cfb(3, 1, &real, b"", b"");
            match c {
                0 => x.extend(Buf::new().b(&w).b(id).0),
                1 => x[512..512 + w.len().min(400)].copy_from_slice(&w[..w.len().min(400)]),
                2 => x[512 + 80..512 + 96].copy_from_slice(&id),
                // The class identifier of the header is not used.
                _ => x[8..24].copy_from_slice(&id),
            }
            v(x)
        }),
        ds(CFB, "cfb-lengths", move |ch| {
            let n = ch.pick(&sizes);
            let ver = ch.pick(&[3u64, 4]);
            let s = if ver == 3 { 512 } else { 4096 };
            let (id, second): (_, &[u8]) = ch.pick(&[(guid(CLSIDS[7].0), b""), ([0; 16], WPS_NAME)]);
            let dir = Buf::new().b(cfb_entry(ROOT, &id)).b(cfb_entry(second, &[0; 16])).b(cfb_entry(b"", &[0; 16])).b(cfb_entry(b"", &[0; 16])).0;
            let (sector, tail) = match ch.choose(3) {
                0 => (n.min(0xFFFF_FFFF), 0),
                1 => (n / s, 0),
                _ => (1, n),
            };
            let at = s * (1 + sector);
            Some(Doc::sparse(at + 512 + tail, 0).put(0, cfb_head(ver, sector)).put(at, dir))
        }),
    ]
}

// ---------------------------------------------------------------- EBML

fn ebml_words() -> Vec<DS> {
    let mut ids: Vec<Vec<u8>> = crate::space::EBML_IDS.iter().map(|&i| el_id(i)).collect();
    for w in &fresh().0 {
        // A word that is an identifier.
        if (1..=4).contains(&w.len()) && w[0].leading_zeros() as usize + 1 == w.len() {
            ids.push(w.clone());
        }
    }
    let codecs = with(&["A_AC3", "A_DTS", "A_EAC3", "A_FLAC", "A_VORBIS", "A_PCM/INT/LIT", "A_MS/ACM", "A_", "A", "V_MS/VFW/FOURCC", "V_UNCOMPRESSED", "V_THEORA", "V_MJPEG", "V_MPEGH/ISO/HEVC", "S_TEXT/SSA", "S_TEXT/ASS", "S_TEXT/WEBVTT", "S_VOBSUB", "S_HDMV/TEXTST", "S_DVBSUB", "S_KATE", "D_WEBVTT/SUBTITLES", "D_WEBVTT/CAPTIONS", "B_VOBBTN", "T_", "M_", "a_", "v_", "_", "AV_", "VS_", " V_", "\0V_", "V\0_", "V"]);
    let docs = with(&["matroska", "webm", "matrosk", "matroska2", "Matroska", "WEBM", "webma", "web", "mkv", "mka", "ebml", "mks", "", "divx", "video/x-matroska", "xmatroska", "matroska\0\0", "webm\0\0\0\0"]);
    let sizes = lens(1 << 44);
    let cn = counts(2000);
    vec![
        ds(EBML, "ebml-words-between", move |ch| {
            let id = ch.pick(&ids);
            let p: Vec<u8> = match ch.choose(6) {
                0 => vec![],
                1 => vec![1],
                2 => b"V_X".to_vec(),
                3 => el(E_CODEC, 0, b"V_X"),
                4 => vec![0; 8],
                _ => vec![0xFF; 200],
            };
            let x = Buf(id).b(vsize(p.len() as u64, 0)).b(p).0;
            let (first, second) = ch.pick(&[(&b"A_1"[..], &b"V_2"[..]), (b"S_1", b"A_2"), (b"", b"V_2"), (b"V_1", b"S_2")]);
            let (f, s) = (if first.is_empty() { vec![] } else { track(first) }, track(second));
            let stereo = el(E_TRACK, 0, &el(E_VIDEO, 0, &el(E_STEREO, 0, &[1])));
            let s = if ch.flag() { stereo } else { s };
            v(match ch.choose(8) {
                0 => ebml(b"matroska", &Buf(el(E_TRACKS, 0, &f)).b(x).b(el(E_TRACKS, 0, &s)).0),
                1 => ebml(b"matroska", &el(E_TRACKS, 0, &Buf(f).b(x).b(s).0)),
                2 => ebml(b"matroska", &el(E_TRACKS, 0, &Buf(f).b(el(E_TRACK, 0, &Buf(x).b(el(E_CODEC, 0, second)).0)).b(s).0)),
                3 => ebml(b"matroska", &Buf(el(E_TRACKS, 0, &Buf(f).b(s).0)).b(x).0),
                4 => Buf(el(E_EBML, 0, &Buf(x).b(el(E_DOCTYPE, 0, b"matroska")).0)).b(el(E_SEGMENT, 0, &Buf(f).b(s).0)).0,
                5 => Buf(el(E_EBML, 0, &Buf(el(E_DOCTYPE, 0, b"matroska")).b(x).0)).b(el(E_SEGMENT, 0, &Buf(f).b(s).0)).0,
                6 => Buf(ebml_head(b"matroska")).b(x).b(el(E_SEGMENT, 0, &Buf(f).b(s).0)).0,
                _ => ebml(b"matroska", &el(E_TRACKS, 0, &Buf(f).b(x.repeat(3)).b(s).b(x).0)),
            })
        }),
        ds(EBML, "ebml-words-of-codecs", move |ch| {
            let c = ch.pick(&codecs);
            let other = ch.pick(&[&b""[..], b"A_Y", b"V_Y", b"S_Y", b"B_Y"]);
            let t = |c: &[u8]| if c.is_empty() { vec![] } else { track(c) };
            let b = if ch.flag() { Buf(t(&c)).b(t(other)) } else { Buf(t(other)).b(t(&c)) };
            v(ebml(b"matroska", &el(E_TRACKS, 0, &b.0)))
        }),
        ds(EBML, "ebml-words-of-documents", move |ch| {
            let d = ch.pick(&docs);
            let d: Vec<u8> = d.into_iter().take(100).collect();
            let second = ch.pick(&[&b""[..], b"webm", b"matroska"]);
            let h = Buf(el(E_DOCTYPE, 0, &d)).b(if second.is_empty() { vec![] } else { el(E_DOCTYPE, 0, second) }).0;
            v(Buf(el(E_EBML, 0, &h)).b(el(E_SEGMENT, 0, &el(E_TRACKS, 0, &track(b"A_X")))).0)
        }),
        ds(EBML, "ebml-lengths", move |ch| {
            let n = ch.pick(&sizes);
            let id = ch.pick(&[E_VOID, 0x1941A469, 0x55EE, E_CODEC, E_STEREO]);
            let last = ch.pick(&[el(E_TRACKS, 0, &track(b"V_X")), track(b"A_X"), el(E_STEREO, 0, &[1])]);
            let head = Buf(ebml_head(b"matroska")).b(el_id(E_SEGMENT)).b(vsize((1 << 56) - 2, 8)).0;
            let o = head.len() as u64;
            let e = Buf(el_id(id)).b(vsize(n, 8)).0;
            let at = o + e.len() as u64 + n;
            Some(if ch.flag() {
                Doc::sparse(at + last.len() as u64, 0).put(0, head).put(o, e).put(at, last)
            } else {
                Doc::sparse(o + last.len() as u64 + n, 0).put(0, head).put(o, last)
            })
        }),
        ds(EBML, "ebml-counts", move |ch| {
            let n = ch.pick(&cn);
            let f = ch.pick(&[el(E_VOID, 0, &[]), track(b"S_X"), track(b"A_X"), el(E_CODEC, 0, b"B_"), el(0x55EE, 0, &[1]), el(E_DOCTYPE, 0, b"matroska"), el(E_TRACK, 0, &[])]);
            let last = ch.pick(&[track(b"V_X"), el(E_STEREO, 0, &[1])]);
            v(ebml(b"matroska", &Buf(f.repeat(n as usize)).b(last).0))
        }),
    ]
}

// ---------------------------------------------------------------- EXE

fn exe_words() -> Vec<DS> {
    let sigs = with(&["PE\0\0", "NE", "LE", "LX", "W3", "W4", "P2", "P3", "MP", "DX", "BW", "PL", "AD", "DL", "ZM", "MZ", "\x7fELF", "PMW1", "PE", "PE\0", "PE\0\x01", "NE\0\0", "LE\0\0", "LX\0\0", "VZ", "TE", "Adam"]);
    let sizes = lens(0xFFFF_FFFF);
    vec![
        ds(EXE, "exe-words", move |ch| {
            let w = ch.pick(&sigs);
            let at = ch.pick(&[4u64, 64, 128, 4096]);
            let c = ch.pick(&[0u64, 0x2000, 0x2102]);
            let magic = ch.pick(&[b"MZ", b"ZM"]);
            let x = exe(magic, at.max(64), &cut4(&w), c);
            let mut y = x.clone();
            y[60..64].copy_from_slice(&le4(at));
            y.resize(y.len() + 100, 0);
            // Also right behind the DOS header, where no address points to.
            if ch.flag() && at > 100 {
                y[64..68].copy_from_slice(&cut4(&w));
            }
            v(y)
        }),
        ds(EXE, "exe-header-fields", |ch| {
            // Fields of the portable executable header other than the characteristics do not matter.
            let machine = ch.pick(&[0u64, 0x14C, 0x166, 0x1A2, 0x1C0, 0x1C4, 0x1F0, 0x200, 0x268, 0xEBC, 0x5064, 0x8664, 0xAA64, 0xA641, 0xC0EE, 0xFFFF]);
            let c = ch.pick(&[0u64, 2, 0x102, 0x2000, 0x2002, 0x2102, 0x210E, 0xDFFF, 0xFFFF, 0x1000, 0x1102]);
            let magic = ch.pick(&[0u64, 0x10B, 0x20B, 0x107]);
            let subsystem = ch.pick(&[0u64, 1, 2, 3, 10, 14, 16]);
            let dll = ch.pick(&[0u64, 0x2000, 0x8160]);
            let opt = ch.pick(&[0u64, 224, 240]);
            let sections = ch.pick(&[0u64, 3, 96]);
            let x = Buf(exe_head(b"MZ", 64)).b(b"PE\0\0").b(le2(machine)).b(le2(sections)).b(le4(0x6000_0000)).b(le4(0)).b(le4(0)).b(le2(opt)).b(le2(c)).b(le2(magic)).z(66).b(le2(subsystem)).b(le2(dll)).z(150).0;
            v(x)
        }),
        ds(EXE, "exe-lengths-behind", move |ch| {
            let n = ch.pick(&sizes);
            let sig = ch.pick(&[b"PE\0\0", b"NE\0\0", b"LX\0\0"]);
            let c = ch.pick(&[0u64, 0x2000]);
            let x = Buf::new().b(sig).z(18).b(le2(c)).z(8).0;
            let (at, tail) = if ch.flag() { (n.max(64), 0) } else { (64, n) };
            Some(Doc::sparse(at + x.len() as u64 + tail, 0x20).put(0, exe_head(b"MZ", at)).put(at, x))
        }),
    ]
}

// ---------------------------------------------------------------- ID3v2

fn id3_words() -> Vec<DS> {
    let frames = with(&["TIT2", "TPE1", "TALB", "APIC", "COMM", "PRIV", "TXXX", "TT2", "PIC", "fLaC", "\u{ff}", "ID3", "3DI", "TAG", "APETAGEX", "OggS", "LYRICSBEGIN", "RIFF", "Xing", "Info", "LAME", "VBRI", "GEOB", "CHAP", "CTOC", "SEEK", "\0\0\0\0", "#EXTM3U", "MPCK", "wvpk", "MAC ", "TTA1", "ADIF", "FORM", "ftyp"]);
    let f2 = frames.clone();
    let mp3: [&[u8]; 5] = [b"fLaC\0\0\0\x22", b"\xFF\xFB\x90\0", b"\xFF\xF3\x40\0", b"\xFF\xE3\x18\0", b"\xFF\xFA\x90\0"];
    let sizes = lens((1 << 28) - 1);
    let tails = lens(1 << 40);
    let cn = counts(300);
    vec![
        ds(ID3, "id3-words", move |ch| {
            // Whatever stands in a tag.
            let w = ch.pick(&frames);
            let at = ch.pick(&[0usize, 1, 10, 20, 100]);
            let n = ch.pick(&[160usize, 300]);
            let ver = ch.pick(&[2u8, 3, 4]);
            let flags = ch.pick(&[0u8, 0x10, 0x40, 0x80]);
            let mut x = id3(ver, flags, n);
            let k = w.len().min(n - at);
            x[10 + at..10 + at + k].copy_from_slice(&w[..k]);
            v(Buf(x).b(ch.pick(&mp3)).0)
        }),
        ds(ID3, "id3-words-behind", move |ch| {
            // Whatever stands between the tag and the audio, or instead of it.
            let w = ch.pick(&f2);
            let rest = ch.pick(&[&b""[..], b"fLaC\0\0\0\x22", b"\xFF\xFB\x90\0", b"\0\0\0\0\0\0\0\0\0\0\0\0fLaC"]);
            let again = ch.flag();
            let x = Buf(id3(3, 0, 7)).b(&w).0;
            v(if again { Buf(x).b(id3(4, 0, 5)).b(rest).0 } else { Buf(x).b(rest).0 })
        }),
        ds(ID3, "id3-padding-behind", move |ch| {
            // Padding behind the tag belongs to the audio, which is none then.
            let n = match ch.choose(2) {
                0 => ch.choose(2100),
                _ => ch.pick(&[4096, 8192, 10_000, 65_536]),
            };
            let b = ch.pick(&[0u8, 0xFF, b' ']);
            v(Buf(id3(3, 0, 7)).fill(n, b).b(ch.pick(&mp3)).z(4).0)
        }),
        ds(ID3, "id3-lengths", move |ch| {
            let foot = ch.pick(&[0u8, 0x10]);
            let m = ch.pick(&mp3);
            Some(if ch.flag() {
                let n = ch.pick(&sizes);
                let at = 10 + n + if foot > 0 { 10 } else { 0 };
                Doc::sparse(at + 20, 0).put(0, id3_head(4, foot, n)).put(at, m)
            } else {
                let n = ch.pick(&tails);
                let at = 30 + if foot > 0 { 10 } else { 0 };
                Doc::sparse(at + m.len() as u64 + n, 0).put(0, id3_head(4, foot, 20)).put(at, m)
            })
        }),
        ds(ID3, "id3-counts", move |ch| {
            let n = ch.pick(&cn) as usize;
            let one = ch.pick(&[id3(3, 0, 0), id3(4, 0x10, 3), id3(2, 0, 200)]);
            v(Buf(one.repeat(n.max(1))).b(ch.pick(&mp3)).0)
        }),
    ]
}

// ---------------------------------------------------------------- MP4

fn mp4_words() -> Vec<DS> {
    let mut kinds: Vec<[u8; 4]> = crate::space::MP4_BOXES.iter().map(|b| cut4(b.as_bytes())).collect();
    kinds.extend(crate::space::MP4_HANDLERS.iter().map(|b| cut4(b.as_bytes())));
    kinds.extend(fresh().0.iter().map(|w| cut4(w)));
    kinds.sort();
    kinds.dedup();
    kinds.retain(|k| !matches!(k, b"moov" | b"trak" | b"mdia" | b"hdlr"));
    let mut handlers: Vec<[u8; 4]> = crate::space::MP4_HANDLERS.iter().map(|b| cut4(b.as_bytes())).collect();
    handlers.extend(fresh().0.iter().map(|w| cut4(w)));
    let k2 = kinds.clone();
    let sizes = lens(1 << 44);
    let cn = counts(2000);
    let tr = |k: &[u8]| if k.is_empty() { vec![] } else { mp4_box(b"trak", &mp4_box(b"mdia", &hdlr(k))) };
    vec![
        ds(MP4, "mp4-words-between", move |ch| {
            let k = ch.pick(&kinds);
            let p: Vec<u8> = match ch.choose(5) {
                0 => vec![],
                1 => vec![0; 4],
                2 => vec![0; 16],
                3 => hdlr(b"vide"),
                _ => vec![0xFF; 50],
            };
            let x = if ch.flag() { mp4_box64(&k, &p) } else { mp4_box(&k, &p) };
            let (a, b) = ch.pick(&[(&b"soun"[..], &b"vide"[..]), (b"text", b"soun"), (b"", b"vide"), (b"vide", b"soun"), (b"soun", b"sbtl")]);
            let (ta, tb) = (tr(a), tr(b));
            let m = |p: Vec<u8>| mp4_box(b"moov", &p);
            v(Buf(ftyp(b"mp42")).b(match ch.choose(8) {
                0 => Buf(m(ta)).b(x).b(m(tb)).0,
                1 => Buf(x).b(m(Buf(ta).b(tb).0)).0,
                2 => Buf(m(Buf(ta).b(tb).0)).b(x).0,
                3 => m(Buf(ta).b(x).b(tb).0),
                4 => m(Buf(ta).b(mp4_box(b"trak", &Buf(x).b(mp4_box(b"mdia", &hdlr(b))).0)).0),
                5 => m(Buf(ta).b(mp4_box(b"trak", &mp4_box(b"mdia", &Buf(x).b(hdlr(b)).0))).0),
                6 => m(Buf(ta).b(mp4_box(b"trak", &mp4_box(b"mdia", &Buf(hdlr(b"meta")).b(x).b(hdlr(b)).0))).0),
                _ => Buf(m(ta)).b(x.repeat(3)).b(m(tb)).b(x).0,
            }).0)
        }),
        ds(MP4, "mp4-words-of-handlers", move |ch| {
            let k = ch.pick(&handlers);
            let other = ch.pick(&[&b""[..], b"soun", b"sbtl", b"vide", b"meta"]);
            let name: &[u8] = ch.pick(&[&b""[..], b"VideoHandler\0", b"SoundHandler\0", b"vide"]);
            let h = mp4_box(b"hdlr", &Buf::new().z(8).b(k).z(12).b(name).0);
            let x = mp4_box(b"trak", &mp4_box(b"mdia", &h));
            let b = if ch.flag() { Buf(x).b(tr(other)) } else { Buf(tr(other)).b(x) };
            v(Buf(ftyp(b"mp42")).b(mp4_box(b"moov", &b.0)).0)
        }),
        ds(MP4, "mp4-words-of-brands", move |ch| {
            // Compatible brands, of every kind, do not matter.
            let k = ch.pick(&k2);
            let k = ch.pick(&[k, *b"isom", *b"M4A ", *b"M4V ", *b"qt  ", *b"heic", *b"avif", *b"3gp4", *b"dash", *b"cmfc"]);
            let n = ch.pick(&[1usize, 2, 5]);
            let t = ch.pick(&[&b"vide"[..], b"soun", b"text", b"meta"]);
            let f = mp4_box(b"ftyp", &Buf::new().b(b"mp42").b(if ch.flag() { k } else { [0; 4] }).b(k.repeat(n)).0);
            v(Buf(f).b(mp4_box(b"moov", &tr(t))).0)
        }),
        ds(MP4, "mp4-lengths", move |ch| {
            let n = ch.pick(&sizes);
            let k = ch.pick(&[b"free", b"mdat", b"hdlr", b"uuid"]);
            let wide = n > 0xFFFF_0000 || ch.flag();
            let head = if wide { Buf::new().b(be4(1)).b(k).b(be8(16 + n)).0 } else { Buf::new().b(be4(8 + n)).b(k).0 };
            let pre = Buf(ftyp(b"mp42")).b(tr(b"soun")).0;
            let last = mp4_box(b"moov", &tr(ch.pick(&[&b"vide"[..], b"soun"])));
            let o = pre.len() as u64;
            let at = o + head.len() as u64 + n;
            Some(if ch.flag() {
                Doc::sparse(at + last.len() as u64, 0).put(0, pre).put(o, head).put(at, last)
            } else {
                Doc::sparse(o + last.len() as u64 + head.len() as u64 + n, 0).put(0, pre).put(o, &last).put(o + last.len() as u64, head)
            })
        }),
        ds(MP4, "mp4-counts", move |ch| {
            let n = ch.pick(&cn);
            let f = ch.pick(&[mp4_box(b"free", &[]), mp4_box(b"trak", &[]), hdlr(b"meta"), hdlr(b"soun"), tr(b"text"), mp4_box64(b"mdat", &[1])]);
            v(Buf(ftyp(b"mp42")).b(f.repeat(n as usize)).b(hdlr(ch.pick(&[b"vide", b"soun"]))).0)
        }),
    ]
}

// ---------------------------------------------------------------- RealMedia

fn rm_words() -> Vec<DS> {
    let mut kinds: Vec<[u8; 4]> = ["PROP", "CONT", "DATA", "INDX", "RMMD", "RJMD", "RMJE", ".RMF", ".rmf", "MDPS", "mdpr", "MLTI", "LSD:", ".ra4", "TAG ", "RMJD", "FLUS", "\0\0\0\0", "ID3\x03", "XXXX"].iter().map(|k| cut4(k.as_bytes())).collect();
    kinds.extend(fresh().0.iter().map(|w| cut4(w)));
    let mimes = with(&["audio/x-pn-realaudio", "audio/x-pn-multirate-realaudio", "audio/x-ralf-mpeg4-generic", "audio/X-MP3-draft-00", "video/x-pn-realvideo", "video/x-pn-multirate-realvideo", "video/x-pn-realvideo-encrypted", "logical-fileinfo", "logical-audio/x-pn-multirate-realaudio", "logical-video/x-pn-multirate-realvideo", "application/x-rn-gzip", "image/vnd.rn-realpix", "text/vnd.rn-realtext", "syncMM/x-pn-realvideo", "audio", "video", "audio/", "video/", "Audio/x", "VIDEO/x", " audio/x", "xvideo/x", "application/video/", "application/x-pn-realevent", "event/x"]);
    let names = with(&["Audio Stream", "Video Stream", "video/x-pn-realvideo", "", "logical stream"]);
    let sizes = lens(0xFFFF_FFFF);
    let tails = lens(1 << 40);
    let cn = counts(200);
    vec![
        ds(RM, "rm-words-between", move |ch| {
            let k = ch.pick(&kinds);
            let p: Vec<u8> = match ch.choose(6) {
                0 => vec![],
                1 => vec![0; 10],
                2 => mdpr_payload(b"n", b"video/x"),
                3 => mdpr(b"n", b"video/x"),
                4 => vec![0xFF; 60],
                _ => vec![0; 42],
            };
            let x = rm_chunk(&k, None, &p);
            let (a, w, o) = (mdpr(b"a", b"audio/x"), mdpr(b"v", b"video/x"), mdpr(b"l", b"logical-fileinfo"));
            v(rm(None, &match ch.choose(9) {
                0 => vec![x],
                1 => vec![a, x],
                2 => vec![x, a],
                3 => vec![x, w],
                4 => vec![a, x, w],
                5 => vec![w, x, a],
                6 => vec![o, x, a],
                7 => vec![a, x.clone(), x, w],
                _ => vec![x.clone(), x.clone(), o, x, w],
            }))
        }),
        ds(RM, "rm-words-of-types", move |ch| {
            let m = ch.pick(&mimes);
            let m: Vec<u8> = m.into_iter().take(255).collect();
            let n: Vec<u8> = ch.pick(&names).into_iter().take(255).collect();
            let other = ch.pick(&[&b""[..], b"audio/y", b"video/y", b"logical-fileinfo"]);
            let x = mdpr(&n, &m);
            let c = if other.is_empty() {
                vec![x]
            } else if ch.flag() {
                vec![x, mdpr(b"o", other)]
            } else {
                vec![mdpr(b"o", other), x]
            };
            v(rm(None, &c))
        }),
        ds(RM, "rm-stream-fields", |ch| {
            // The other fields of the media properties do not matter, nor does the type specific data.
            let mut p = mdpr_payload(b"s", b"audio/x");
            let i = ch.choose(8) * 4;
            let n = ch.pick(&[0u64, 1, 0xFF, 0xFFFF, 0x8000_0000, 0xFFFF_FFFF]);
            p[i..i + 4].copy_from_slice(&be4(n));
            let spec = ch.pick(&[&b""[..], b"VIDORV40video/x", b".ra\xFD\0\x05", b"MDPR\0\0\0\x08"]);
            let l = p.len();
            p[l - 4..].copy_from_slice(&be4(spec.len() as u64));
            p.extend_from_slice(spec);
            let c = rm_chunk(b"MDPR", None, &p);
            v(rm(None, &if ch.flag() { vec![c, mdpr(b"v", b"video/x")] } else { vec![c] }))
        }),
        ds(RM, "rm-lengths", move |ch| {
            let a = mdpr(b"a", b"audio/x");
            let w = mdpr(b"v", b"video/x");
            Some(if ch.flag() {
                let n = ch.pick(&sizes).max(8);
                let k = ch.pick(&[b"DATA", b"PROP"]);
                let o = 18 + a.len() as u64;
                Doc::sparse(o + n + w.len() as u64, 0).put(0, rm_head(4)).put(18, &a).put(o, Buf::new().b(k).b(be4(n)).0).put(o + n, w)
            } else {
                let n = ch.pick(&tails);
                Doc::sparse(18 + w.len() as u64 + n, 0).put(0, rm_head(2)).put(18, w)
            })
        }),
        ds(RM, "rm-counts", move |ch| {
            let n = ch.pick(&cn);
            let f = ch.pick(&[rm_chunk(b"CONT", None, &[]), mdpr(b"l", b"logical-fileinfo"), mdpr(b"a", b"audio/x")]);
            let h = ch.pick(&[n + 2, n + 1, n, 0xFFFF_FFFF]);
            v(Buf(rm_head(h)).b(f.repeat(n as usize)).b(mdpr(b"v", b"video/x")).0)
        }),
    ]
}

// ---------------------------------------------------------------- markers

const PDF_WORDS: &[&str] = &["%%EOF", "%%EOF\n", "startxref", "xref", "trailer", "endobj", "obj", "stream", "endstream", "/Linearized", "/Encrypt", "/Type /Catalog", "/Type/ObjStm", "/FlateDecode", "%PDF-1.4", "%!PS-Adobe-3.0", "%AI5_", "/Illustrator", "Adobe Illustrator", "AIMetaData", "AIPrivate", "PrivateData", "aiprivatedata", "AIPRIVATEDATA", "/PieceInfo", "<?xpacket", "\0", "\u{ff}", "\r\n", "\n\n", "1.7\n", "2.0", "0 R", ">>", "<<", "%", "BT", "/XRef", "/FDF", "%FDF-"];
const SQL_WORDS: &[&str] = &["CREATE TABLE", "SQLite format 3\0", "com.bohemiancoding.sketch", "com.bohemiancoding", "sketch3", "bohemiancoding.sketch3", "COM.BOHEMIANCODING.SKETCH3", "metadata", "payload", "\0", "sqlite_master", "PRAGMA", "com.bohemiancoding.sketch4", "com.bohemiancoding.sketch2", "GPKG", "MBTiles"];
const XML_WORDS: &[&str] = &["<!--", "-->", "<!-- -->", "<!---->", "<![CDATA[", "]]>", "<![CDATA[]]>", "<!DOCTYPE", "<!DOCTYPE html>", "<!DOCTYPE x [", "<!ENTITY", "<?xml-stylesheet", "<?xml version=\"1.0\"?>", "?>", "version=\"1.0\"", "version=\"1.1\"", "encoding=\"UTF-8\"", "encoding=\"UTF-16\"", "encoding=\"ISO-8859-1\"", "encoding='utf-8'", "standalone=\"yes\"", "<html", "</html>", "<root>", "</root>", "</", "/>", ">", "<", "\"", "'", "&amp;", "&lt;", "&#60;", "xmlns=", "xmlns:xsi=", "<x:", "\0", "\0\0", "\u{feff}", "\r\n", "\n", "\r", "\t", " ", "<?php", "<script", "<body", "<head", "<plist", "<manifest", "<project", "<configuration", "<?mso-application", "<office:document", "<w:wordDocument", "<rdf:RDF", "<opml", "<urlset", "<package", "<ncx", "<wml", "<xs:schema", "<definitions", "<beans", "<Workbook", "<nowpls:"];

fn marker_words(bit: u16, name: &str, heads: Vec<Vec<u8>>, words: Vec<Vec<u8>>, markers: Vec<Vec<u8>>, window: u64) -> Vec<DS> {
    let (w2, h2, m2) = (words.clone(), heads.clone(), markers.clone());
    let (h3, m3) = (heads.clone(), markers.clone());
    let (h4, m4) = (heads.clone(), markers.clone());
    let mut sizes: Vec<u64> = lens(if bit == PDF { 34 << 20 } else { 1 << 22 });
    let tails = lens(if bit == PDF { 40 << 20 } else { 1 << 40 });
    sizes.extend((0..40).map(|d| window + 20 - d));
    let cn = counts(600);
    // The readers search in pieces: a word and the marker share one or not.
    let gaps: &[usize] = if bit == XML { &[0, 1, 60, 4000, 8000] } else { &[0, 1, 60, 4000, 8200, 20_000, 70_000] };
    vec![
        ds(bit, &format!("{name}-words-around"), move |ch| {
            // A word before or behind the marker, or on both sides, near or far.
            let w = ch.pick(&words);
            let m = &markers[ch.choose(markers.len())];
            let h = &heads[ch.choose(heads.len())];
            let gap = ch.pick(gaps);
            let b = Buf(h.clone());
            v(match ch.choose(5) {
                0 => b.b(&w).fill(gap, b' ').b(m).0,
                1 => b.b(m).fill(gap, b' ').b(&w).0,
                2 => b.fill(gap, b'\n').b(&w).b(m).b(&w).0,
                3 => b.b(&w).fill(gap, b'x').b(&w).b(m).b(b"\n").0,
                // The marker alone, not whole.
                _ => b.b(&w).fill(gap, b' ').b(&m[..m.len() - 1]).b(&w).0,
            })
        }),
        ds(bit, &format!("{name}-word-pairs"), move |ch| {
            // Two words around the marker, without and with it.
            let (x, y) = (ch.pick(&w2), ch.pick(&w2));
            let h = &h2[0];
            let m: &[u8] = if ch.flag() { &m2[ch.choose(m2.len().min(2))] } else { b"" };
            v(Buf(h.clone()).b(&x).b(b" ").b(m).b(b" ").b(&y).0)
        }),
        ds(bit, &format!("{name}-lengths"), move |ch| {
            let m = &m3[ch.choose(m3.len().min(3))];
            let h = &h3[ch.choose(h3.len())];
            let l = h.len() as u64;
            Some(if ch.flag() {
                let n = ch.pick(&sizes);
                Doc::sparse(l + n + m.len() as u64, b' ').put(0, h).put(l + n, m)
            } else {
                let n = ch.pick(&tails);
                Doc::sparse(l + m.len() as u64 + n, b' ').put(0, h).put(l, m)
            })
        }),
        ds(bit, &format!("{name}-counts"), move |ch| {
            // Beginnings of the marker, many times, before the whole one.
            let n = ch.pick(&cn) as usize;
            let m = &m4[ch.choose(m4.len().min(3))];
            let k = ch.pick(&[1usize, m.len() / 2, m.len() - 1]);
            v(Buf(h4[0].clone()).b(m[..k].repeat(n)).b(m).0)
        }),
    ]
}

// ---------------------------------------------------------------- ZIP

const MEMBERS: &[&str] = &["[Content_Types].xml", "_rels/.rels", "_rels/", "docProps/app.xml", "docProps/core.xml", "META-INF/", "META-INF/container.xml", "META-INF/manifest.xml", "META-INF/MANIFEST.MF", "META-INF/CERT.RSA", "META-INF/CERT.SF", "META-INF/INDEX.LIST", "META-INF/services/x", "META-INF/versions/9/A.class", "META-INF/maven/pom.xml", "META-INF/mozilla.sf", "META-INF/application-client.xml", "META-INF/ejb-jar.xml", "META-INF/ra.xml", "META-INF/signatures.xml", "word/", "word", "word/a", "Word/a", "WORD/A", "xl/", "xl", "ppt/", "visio/", "xl/worksheets/", "Documents/", "Documents/1/", "FixedDocSeq.fdseq", "FixedDocumentSequence.fdseq", "mimetype", "Mimetype", "mimetype.txt", "dir/mimetype", "classes.dex", "resources.arsc", "AndroidManifest.xml", "androidmanifest.xml", "res/AndroidManifest.xml", "base/manifest/AndroidManifest.xml", "Info.plist", "Payload/", "Payload/a.app/", "Payload/a.app/Info.plist", "iTunesMetadata.plist", "iTunesArtwork", "install.rdf", "chrome.manifest", "manifest.json", "package.json", "composer.json", "Podfile", ".git/", ".DS_Store", "__MACOSX/", "__MACOSX/._a", "Thumbs.db", "README", "readme.txt", "a/", "a/b/", "a.xml", "content.xml", "styles.xml", "meta.xml", "settings.xml", "OEBPS/content.opf", "Contents/header.hpf", "maindoc.xml", "book.fb2", "x.fb2", "x.FB2", "dir/book.fb2", "a.kml", "doc.kml", "dir/doc.kml", "files/a.png", "3D/", "3D/3dmodel.model", "3d/a.model", "Metadata/x", "scene.usd", "dir/scene.usda", "a.usdz", "designmap.xml", "preview.png", "document.json", "pages/", "meta.json", "user.json", "canvas.fig", "thumbnail.png", "images/", "score.xml", "a.musicxml", "dir/a.musicxml", "AppManifest.xaml", "AppManifest.xml", "AppxManifest.xml", "AppxBlockMap.xml", "AppxSignature.p7x", "AppxMetadata/", "AppxMetadata/AppxBundleManifest.xml", "BundleConfig.pb", "WEB-INF/", "WEB-INF/web.xml", "WEB-INF/classes/", "web-inf/web.xml", "extension.vsixmanifest", "extension/package.json", "Manifest.bin", "FusionAssetName[Active]/", "circuitdiagram/Document.xml", "dwf/", "dwf/documents/", "SpaceClaim/", "SpaceClaim/doc.xml", "DOMDocument.xml", "library/a.xml", "a\\b", "..\\x", "../word/x", "./word/x", "/word/x", "word\\x", "\u{e9}", "\u{1f600}/x", " ", "\0", "-", "mimetype\0", " mimetype", "mimetype/"];

fn zip_words() -> Vec<DS> {
    let mut members = with(MEMBERS);
    for w in &fresh().0 {
        members.push(Buf(w.clone()).b(b"/").0);
        members.push(Buf(w.clone()).b(b"x.xml").0);
        members.push(Buf(b"x".to_vec()).b(w).0);
        members.push(Buf(b"a/".to_vec()).b(w).0);
    }
    let deciding: Vec<Vec<u8>> = ["", "word/document.xml", "xl/workbook.xml", "META-INF/MANIFEST.MF", "doc.kml", "AndroidManifest.xml", "x.fb2", "scene.usdc", "3D/a.model", "META-INF/application.xml"].iter().map(|s| s.as_bytes().to_vec()).collect();
    let mimes = with(&["application/epub+zip", "application/vnd.oasis.opendocument.text", "application/zip", "application/epub", "application/epub+zip;x", "Application/epub+zip", "application/vnd.oasis.opendocument.chart", "application/vnd.oasis.opendocument.image", "application/vnd.oasis.opendocument.text-web", "application/vnd.oasis.opendocument.graphics-flat-xml", "application/x-krita", "application/vnd.adobe.indesign-idml-package", "application/vnd.recordare.musicxml", "application/hwp+zip", "application/java-archive", "application/prs.vcf", "image/openraster", "text/plain", "image/svg+xml", "application/vnd.sun.xml.writer.web", "application/vnd.sun.xml.base", "\u{feff}application/epub+zip", "\0application/epub+zip", "application/epub+zip\0", "", " ", "\n"]);
    let members2 = members.clone();
    let (d2, d3) = (deciding.clone(), deciding.clone());
    let extras: Vec<u64> = {
        let mut e = vec![0x0001u64, 0x0007, 0x0009, 0x000A, 0x000D, 0x0017, 0x5455, 0x5855, 0x6375, 0x7075, 0x7875, 0x9901, 0xA11E, 0xCAFE, 0xD935, 0xFACA, 0x4154, 0xFFFF, 0];
        e.extend(fresh().1.iter().filter(|n| **n < 65536));
        e
    };
    let words = with(&["PK\x01\x02", "PK\x03\x04", "PK\x05\x06", "PK\x06\x06", "PK\x06\x07", "PK\x07\x08", "PK\x05\x05", "PK", "PK00PK\x03\x04", "%PDF-", "#!/bin/sh", "MZ", "\0", "\u{ff}", "mimetype", "word/", "APK Sig Block 42", "commit"]);
    let sizes = lens(0xFFFF_0000);
    let tails = lens(65_535);
    let cn = counts(1100);
    vec![
        ds(ZIP, "zip-members", move |ch| {
            // Any member before, behind, or on both sides of a deciding one.
            let m = ch.pick(&members);
            let d = ch.pick(&deciding);
            let x = if ch.flag() { Ent { data: b"some data".to_vec(), ..ent(&m) } } else { ent(&m) };
            let mut e = match ch.choose(4) {
                0 => vec![x, ent(&d)],
                1 => vec![ent(&d), x],
                2 => vec![ent("a.txt"), x.clone(), ent(&d), x],
                _ => vec![Ent { deflated: true, ..x }, ent(&d)],
            };
            e.retain(|e| !e.name.is_empty());
            v(zip(&e, &ZipOpt { zip64: ch.flag(), ..Default::default() }))
        }),
        ds(ZIP, "zip-member-pairs", move |ch| {
            let (a, b) = (ch.pick(&members2), ch.pick(&members2));
            v(zips(&[ent(&a), ent(&b)]))
        }),
        ds(ZIP, "zip-media-types", move |ch| {
            let m = ch.pick(&mimes);
            let (pre, post) = (ch.pick(&[&b""[..], b" ", b"\n", b"\r\n", b"\0", b"\xEF\xBB\xBF", b"\xC2\xA0", b"x"]), ch.pick(&[&b""[..], b" ", b"\n", b"\r\n", b"\0", b";", b" x"]));
            let first = ch.pick(&[&b""[..], b"META-INF/MANIFEST.MF", b"a/"]);
            let behind = ch.pick(&[&b"word/x"[..], b"META-INF/container.xml"]);
            let mut e = vec![ent(first), mime_ent(Buf::new().b(pre).b(&m).b(post).0), ent(behind)];
            e.retain(|e| !e.name.is_empty());
            v(zips(&e))
        }),
        ds(ZIP, "zip-extra-kinds", move |ch| {
            // Extra fields of every kind, one of which could hold another name.
            let id = ch.pick(&extras);
            let what: &[u8] = ch.pick(&[&b""[..], b"\x01\0\0\0\0word/document.xml", b"word/document.xml", &[0; 28], &[0xFF; 24]]);
            let f = Buf::new().b(le2(id)).b(le2(what.len() as u64)).b(what).0;
            let mime = ch.flag();
            let first = if mime { mime_ent(b"application/epub+zip") } else { ent(b"a.bin") };
            let first = Ent { extra: f.len(), local_extra: f.len(), ..first };
            let d = ch.pick(&d2);
            let mut e = vec![first, ent(&d)];
            e.retain(|e| !e.name.is_empty());
            let mut x = zip(&e, &ZipOpt { zip64: ch.flag(), ..Default::default() });
            for b in [b'x', b'e'] {
                let run = vec![b; f.len()];
                if let Some(p) = x.windows(run.len()).position(|w| w == run) {
                    x[p..p + f.len()].copy_from_slice(&f);
                }
            }
            v(x)
        }),
        ds(ZIP, "zip-entry-flags", |ch| {
            // General purpose flags, versions, methods, times and attributes of a deciding entry do not matter.
            let mime = ch.flag();
            let e = if mime { [mime_ent(b"image/openraster"), ent(b"stack.xml")] } else { [ent(b"a"), ent(b"visio/document.xml")] };
            let mut x = zips(&e);
            let first = x.windows(4).position(|w| w == b"PK\x01\x02").unwrap();
            let second = x.windows(4).rposition(|w| w == b"PK\x01\x02").unwrap();
            let at = if mime { first } else { second };
            let (off, n) = ch.pick(&[(4usize, 2usize), (6, 2), (8, 2), (10, 2), (12, 2), (14, 2), (16, 4), (34, 2), (36, 2), (38, 4)]);
            let val = match ch.choose(2) {
                0 => 1u64 << ch.choose(8 * n),
                _ => ch.pick(&[0, 0xFFFF_FFFF, 8, 12, 14, 95, 99, 0x0808, 0x81ED_0000, 0x10, 0x031E, 45, 46, 51, 63]),
            };
            x[at + off..at + off + n].copy_from_slice(&val.to_le_bytes()[..n]);
            v(x)
        }),
        ds(ZIP, "zip-words-of-contents", move |ch| {
            // Words in the data, between the parts, and in the comment.
            let w = ch.pick(&words);
            let d = ch.pick(&d3);
            let w: Vec<u8> = w.into_iter().take(200).collect();
            let pad = ch.pick(&[0usize, 1, 30]);
            let p = Buf(w.clone()).fill(pad, b' ').0;
            let mut e = vec![Ent { data: p.clone(), ..ent("data.bin") }, ent(&d)];
            e.retain(|e| !e.name.is_empty());
            v(match ch.choose(4) {
                0 => zips(&e),
                1 => zip(&e, &ZipOpt { comment: p, ..Default::default() }),
                2 => {
                    let mut x = zips(&e);
                    x.extend(&p);
                    x
                }
                _ => {
                    let run = vec![0xEE; p.len()];
                    let mut x = zip(&e, &ZipOpt { gap: p.len(), gap_fill: 0xEE, ..Default::default() });
                    let at = x.windows(run.len()).position(|w| w == run).unwrap();
                    x[at..at + p.len()].copy_from_slice(&p);
                    x
                }
            })
        }),
        ds(ZIP, "zip-lengths", move |ch| {
            let name: &[u8] = ch.pick(&[&b"word/document.xml"[..], b"doc.kml"]);
            let one = Buf::new().b(b"PK\x01\x02").z(24).b(le2(name.len() as u64)).z(16).b(name).0;
            let (at, tail) = if ch.flag() { (ch.pick(&sizes).max(4), 0) } else { (4, ch.pick(&tails)) };
            let e = at + one.len() as u64;
            let end = Buf::new().b(b"PK\x05\x06").z(4).b(le2(1)).b(le2(1)).b(le4(one.len() as u64)).b(le4(at)).b(le2(tail)).0;
            Some(Doc::sparse(e + 22 + tail, 0).put(0, b"PK\x03\x04").put(at, one).put(e, end))
        }),
        ds(ZIP, "zip-counts-of-members", move |ch| {
            let n = ch.pick(&cn) as usize;
            let f = ch.pick(&["a", "META-INF/MANIFEST.MF", "dir/", "x.usd/"]);
            let mut e = vec![ent(f); n];
            e.push(if ch.flag() { ent("doc.kml") } else { mime_ent("image/openraster") });
            v(zip(&e, &ZipOpt { zip64: ch.flag(), ..Default::default() }))
        }),
    ]
}

// ---------------------------------------------------------------- text, and contents without signature

/// Beginnings that mean something elsewhere.
const STARTS: &[&[u8]] = &[
    b"\xFF\xFE", b"\xFE\xFF", b"\xEF\xBB\xBF", b"\xFF\xFE\0\0", b"\0\0\xFE\xFF", b"\x2B\x2F\x76\x38", b"\x0E\xFE\xFF", b"#!/bin/sh", b"#!", b"%!PS", b"<html", b"<!DOCTYPE html", b"<svg", b"{", b"[", b"---\n", b"//", b"/*", b"; ", b"# ", b"\x1A", b"\x04", b"\x1B[0m", b"\x7F",
    b"\x0C", b"\x0B", b"\x08", b"\x07", b"\x00", b"\xC2\xA0", b"\xE2\x80\xA8", b"\xC2\x85", b"\xE2\x80\x8B", b"\xED\xA0\x80", b"\xF4\x90\x80\x80", b"\xC0\x80", b"From: ", b"From ", b"begin 644", b"=ybegin", b"diff ", b"BEGIN:VCARD", b"-----BEGIN", b"GIF8", b"%PDF", b"PK\x03", b"PK\x07", b"Rar!", b"7z\xBC\xAF", b"\x1F\x8B",
    b"BZ", b"\xFD7zXZ", b"\x89PNG", b"\xFF\xD8", b"RIFF", b"MThd", b"OggS", b"ID", b"fLa", b"\x7FEL", b"MIT", b"CWS", b"\xCA\xFE", b"SQLite", b"<?xm", b"\x30\x26\xB2\x75", b"\xD0\xCF\x11\xE0", b"\x1A\x45\xDF", b".RM", b"FORM", b"\0\0\0\x18fty", b"\0\0\x01", b"GMT", b"\xFF\xFB", b"\xFF\xF1", b"TAG", b"APETAGEX",
];
const TXT_WORDS: &[&[u8]] = &[
    b"\x1A", b"\x04", b"\x03", b"\x1B[0m", b"\x1B", b"\x08", b"\x07", b"\x0C", b"\x0B", b"\x7F", b"\0", b"\r", b"\r\n", b"\n", b"\n\n", b"\n\r", b"\t", b" ", b"\xEF\xBB\xBF", b"\xEF\xBF\xBE", b"\xEF\xBF\xBF", b"\xEF\xBF\xBD", b"\xC2\x80", b"\xC2\x85", b"\xC2\x9F", b"\xC2\xA0", b"\xC2\xAD", b"\xE2\x80\x8B", b"\xE2\x80\x8E",
    b"\xE2\x80\xA8", b"\xE2\x80\xA9", b"\xE2\x80\xAE", b"\xE2\x81\xA0", b"\xE3\x80\x80", b"\xEE\x80\x80", b"\xF3\xA0\x80\x81", b"\xF4\x8F\xBF\xBF", b"\xED\xA0\x80", b"\xED\xBF\xBF", b"\xC0\x80", b"\xF4\x90\x80\x80", b"\xF8\x88\x80\x80\x80", b"\xFF", b"\xFE", b"\x80", b"\xE9", b"<?php", b"EOF", b"%%EOF", b"__END__", b"exit 0", b"-----", b"Content-Type: application/octet-stream",
];

pub fn all_starts() -> Vec<Vec<u8>> {
    STARTS.iter().map(|w| w.to_vec()).chain(fresh().0.iter().cloned()).collect()
}

fn txt_words() -> Vec<DS> {
    let starts = all_starts();
    let mut words: Vec<Vec<u8>> = TXT_WORDS.iter().map(|w| w.to_vec()).collect();
    words.extend(fresh().0.iter().cloned());
    let w2 = words.clone();
    let sizes = lens(1 << 17);
    let tails = lens(1 << 40);
    let cn = counts(2100);
    vec![
        ds(TXT, "txt-starts", move |ch| {
            let s = ch.pick(&starts);
            let s: Vec<u8> = if ch.flag() { s.into_iter().rev().collect() } else { s };
            let rest: &[u8] = ch.pick(&[&b""[..], b" text", b"a\0b\0\n\0", b"\0a\0b\0\n", b"\n", b"line\nline\n", b"\0", b"\0\0\0\0\0\0\0\0", b"\xFF\xFF", b"\x01", b"a\0\0\0b\0\0\0"]);
            let n = ch.pick(&[1usize, 2, 300]);
            v(Buf(s).b(rest.repeat(n)).0)
        }),
        ds(TXT, "txt-words", move |ch| {
            // A word somewhere in the lines, alone in its line or not, with good or bad text behind.
            let w = ch.pick(&words);
            let line = ch.pick(&[0usize, 1, 2, 14, 15, 16, 17]);
            let (pre, post) = ch.pick(&[(&b""[..], &b""[..]), (b"ab", b""), (b"", b"cd"), (b"ab", b"cd"), (b"\t", b"\r")]);
            let end = ch.pick(&[&b"\nend"[..], b"", b"\n\0\n", b"\n\xFF", b"\0"]);
            v(Buf(b"line\n".repeat(line)).b(pre).b(&w).b(post).b(end).0)
        }),
        ds(TXT, "txt-word-pairs", move |ch| {
            let (a, b) = (ch.pick(&w2), ch.pick(&w2));
            let mid = ch.pick(&[&b""[..], b"text", b"\n"]);
            v(Buf(a).b(mid).b(b).0)
        }),
        ds(TXT, "txt-beginnings", |ch| {
            // Every pair of first bytes, with some continuations.
            let (a, b) = (ch.choose(256) as u8, ch.choose(256) as u8);
            let rest: &[u8] = ch.pick(&[&b"text\n"[..], b"a\0b\0", b"\0\0\0\0\0\0\0\0"]);
            v(Buf(vec![a, b]).b(rest).0)
        }),
        ds(TXT, "txt-lengths-of-lines", move |ch| {
            // A line of any length, then another, then good or bad bytes; and long tails.
            let b = ch.pick(&[&b"\n\0"[..], b"\0", b"\nok\n", b"\xC3", b"\xC3\xA9", b""]);
            Some(if ch.flag() {
                let n = ch.pick(&sizes);
                Doc::sparse(n + b.len() as u64, b'l').put(n, b)
            } else {
                let n = ch.pick(&tails);
                Doc::sparse(4 + b.len() as u64 + n, b' ').put(0, b"line").put(4, b)
            })
        }),
        ds(TXT, "txt-counts-of-lines", move |ch| {
            let n = ch.pick(&cn) as usize;
            let l = ch.pick(&[&b"\n"[..], b"a\n", b"\r\n", b"\r", b"some longer line\n", b"\xC3\xA9\n", b"\t", b" "]);
            v(Buf(l.repeat(n)).b(ch.pick(&[&b"\0"[..], b"\xFF", b"ok", b"\x1B"])).0)
        }),
    ]
}

/// The spaces over words of a family.
pub fn words(bit: u16) -> Vec<DS> {
    match bit {
        ASF => asf_words(),
        CFB => cfb_words(),
        EBML => ebml_words(),
        EXE => exe_words(),
        ID3 => id3_words(),
        MP4 => mp4_words(),
        RM => rm_words(),
        PDF => marker_words(PDF, "pdf", vec![b"%PDF-".to_vec(), b"%PDF-1.4\n%\xE2\xE3\xCF\xD3\n".to_vec()], with(PDF_WORDS), vec![AI.to_vec()], 33_554_432),
        SQL => {
            let mut h = sqlite(100, 0);
            h[16] = 2;
            marker_words(SQL, "sqlite", vec![sqlite(100, 0), h, sqlite(100, b'z')], with(SQL_WORDS), vec![SKETCH.to_vec()], 32_768)
        }
        XML => {
            let m: Vec<Vec<u8>> = XML_MARKERS.iter().map(|(_, m)| m.join(" ").into_bytes()).collect();
            marker_words(XML, "xml", vec![b"<?xml version=\"1.0\"?>".to_vec(), b"\xEF\xBB\xBF<?xml ".to_vec()], with(XML_WORDS), m, 8192)
        }
        TXT => txt_words(),
        ZIP => zip_words(),
        _ => vec![],
    }
}

/// Short contents around the new words and of the new lengths.
pub fn fresh_docs() -> Vec<Vec<u8>> {
    let mut d: Vec<Vec<u8>> = vec![];
    for w in fresh().0.iter().take(16) {
        d.extend([w.clone(), Buf(w.clone()).b(b" text").0, Buf(b"text\n".to_vec()).b(w).b(b"\n\0").0]);
        d.push(zips(&[ent("a"), Ent { name: w.clone(), ..ent("b") }, ent("doc.kml")]));
    }
    for n in fresh_sizes().into_iter().filter(|n| *n < 200_000).take(24) {
        d.push(Buf(vec![b't'; n as usize]).b(b"\n\0").0);
        d.push(vec![b'u'; n as usize]);
    }
    d
}
