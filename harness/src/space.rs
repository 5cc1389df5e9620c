//! The spaces of contents: every path of a body's choice tree is one content.
use crate::doc::Doc;
use crate::explore::Ch;
use crate::fmt::*;
use crate::model::*;
use crate::run::{Body, Case};
use std::sync::{Arc, LazyLock};

#[derive(Clone)]
pub struct DS {
    pub name: String,
    pub bit: u16,
    pub body: Arc<Body>,
}

pub fn ds(bit: u16, name: &str, f: impl Fn(&mut Ch) -> Option<Doc> + Sync + Send + 'static) -> DS {
    DS { name: name.into(), bit, body: Arc::new(move |ch| f(ch).map(Case::from)) }
}
fn v(x: Vec<u8>) -> Option<Doc> {
    Some(x.into())
}

/// Interesting 64-bit values.
const VALUES: [u64; 22] = [
    0x7F, 0x80, 0xFF, 0x100, 0x7FFF, 0x8000, 0xFFFF, 0x10000, 0x7FFF_FFFF, 0x8000_0000, 0xFFFF_FFFF, 0x1_0000_0000,
    1 << 40, 1 << 44, (1 << 62) - 1, 1 << 62, (1 << 63) - 1, 1 << 63, (1 << 63) + 1, u64::MAX - 100, u64::MAX - 1, u64::MAX,
];

/// The interesting values, and the numbers that the sources use since recently.
pub static BIG: LazyLock<Vec<u64>> = LazyLock::new(|| VALUES.into_iter().chain(crate::words::fresh_sizes()).collect());

// ---------------------------------------------------------------- generic mutations

/// Well-formed representatives of each family, deciding structures near the start.
pub fn reps(bit: u16) -> Vec<Vec<u8>> {
    let vid = asf_stream(&G_VIDEO);
    let aud = asf_stream(&G_AUDIO);
    match bit {
        ASF => vec![
            asf(None, &[]),
            asf(None, &[asf_obj(&guid(G_OTHER), None, &[7; 10]), aud.clone(), vid.clone()]),
            asf(None, &[aud.clone()]),
            asf(None, &[asf_ext(2, &[asf_desc(b"W\0M\0", b"abc"), asf_desc(DVR, b"9")]), vid]),
            asf(Some(5), &[aud]),
        ],
        CFB => vec![
            cfb(3, 0, &guid(CLSIDS[7].0), b"", b""),
            cfb(3, 0, &[0; 16], b"", b""),
            cfb(3, 1, &[0; 16], WPS_NAME, b""),
            cfb(3, 0, &[0; 16], b"", XLR_NAME),
            cfb(4, 0, &guid(CLSIDS[24].0), b"", b""),
        ],
        EBML => {
            let t = |c: &[&[u8]]| ebml(b"matroska", &el(E_TRACKS, 0, &c.iter().map(|c| track(c)).collect::<Vec<_>>().concat()));
            let stereo = |s: &[u8]| ebml(b"matroska", &el(E_TRACKS, 8, &Buf(track(b"V_VP8")).b(el(E_TRACK, 0, &el(E_VIDEO, 0, &el(E_STEREO, 0, s)))).0));
            vec![
                ebml(b"webm", &el(E_TRACKS, 0, &track(b"V_VP9"))),
                t(&[b"A_OPUS", b"V_VP8", b"S_TEXT/UTF8"]),
                t(&[b"S_TEXT/UTF8", b"A_AAC"]),
                t(&[b"S_TEXT/UTF8"]),
                stereo(&[1]),
                stereo(&[0, 0]),
                ebml(b"other", &[]),
                Buf(ebml(b"matroska", &Buf(el(E_VOID, 0, &[0x86; 9])).b(el(E_CLUSTER, 0, &[1, 2, 3])).b(track(b"V_X")).0)).0,
            ]
        }
        EXE => vec![
            exe(b"MZ", 64, b"PE\0\0", 0x2000),
            exe(b"MZ", 80, b"PE\0\0", 0x0102),
            exe(b"ZM", 70, b"LX\0\0", 0),
            exe(b"MZ", 100, b"NE\x05\x01", 0),
            exe(b"MZ", 64, b"LE\0\0", 0),
            exe(b"MZ", 64, b"XX\0\0", 0),
        ],
        ID3 => vec![
            Buf(id3(3, 0, 20)).b(b"fLaC\0\0\0\x22").0,
            Buf(id3(4, 0x10, 12)).b([0xFF, 0xFB, 0x90, 0x00]).0,
            Buf(id3(2, 0xC0, 5)).b(id3(4, 0x50, 3)).b([0xFF, 0xF3, 0x90, 0x00]).0,
            Buf(id3(3, 0x40, 140)).b([0xFF, 0xFA]).0,
            id3(4, 0, 9),
        ],
        MP4 => {
            let trak = |k: &[u8]| mp4_box(b"trak", &Buf(mp4_box(b"tkhd", &[0; 5])).b(mp4_box(b"mdia", &Buf(mp4_box(b"mdhd", &[])).b(hdlr(k)).0)).0);
            let moov = |t: &[&[u8]]| mp4_box(b"moov", &t.iter().map(|k| trak(k)).collect::<Vec<_>>().concat());
            vec![
                Buf(ftyp(b"mp42")).b(moov(&[b"soun", b"vide"])).0,
                Buf(ftyp(b"mp41")).b(mp4_box(b"free", &[3; 7])).b(moov(&[b"soun"])).0,
                Buf(ftyp(b"mp42")).b(mp4_box64(b"mdat", b"hdlr....")).b(moov(&[b"sbtl"])).0,
                Buf(ftyp(b"mp42")).b(moov(&[b"meta"])).0,
                Buf(ftyp(b"mp42")).b(moov(&[b"text"])).b(mp4_box(b"mdat", &hdlr(b"vide"))).0,
            ]
        }
        PDF => vec![
            Buf::new().b(b"%PDF-1.7\n%\xE2\xE3\xCF\xD3\n1 0 obj <</AIPrivateData1 2 0 R>> endobj\n%%EOF").0,
            Buf::new().b(b"%PDF-1.7\n1 0 obj <</AIPrivateDat 2 0 R>> endobj\n%%EOF").0,
            Buf::new().b(b"%PDF-AIAIPAIPrAIPrivateDataAIPrivateData").0,
        ],
        RM => vec![
            rm(None, &[rm_chunk(b"PROP", None, &[0; 40]), mdpr(b"Audio Stream", b"audio/x-pn-realaudio"), mdpr(b"V", b"video/x-pn-realvideo")]),
            rm(None, &[mdpr(b"", b"audio/x-pn-realaudio"), rm_chunk(b"CONT", None, &[0; 8])]),
            rm(None, &[mdpr(b"logical", b"logical-fileinfo"), rm_chunk(b"DATA", None, &[0; 10])]),
        ],
        SQL => vec![
            Buf(sqlite(140, 0)).b(SKETCH).z(8).0,
            Buf(sqlite(140, b'c')).b(SKETCH).0,
            sqlite(130, 1),
            Buf(sqlite(90, 0)).b(SKETCH).b(b"com.bohemiancoding.com.bohemiancoding.sketch2").0,
        ],
        XML => vec![
            Buf::new().b(b"<?xml version=\"1.0\"?>\n<!-- <rs --><gpx version=\"1.1\"><ma></gpx>\n").0,
            Buf::new().b(b"\xEF\xBB\xBF<?xml version=\"1.0\"?>\r\n<tt xml:lang=\"en\" xmlns=\"http://www.w3.org/ns/ttml\">").0,
            Buf::new().b(b"<?xml version=\"1.0\"?><uof:UOF xmlns:uof=\"u\" uof:mimetype=\"vnd.uof.text\"><svg>").0,
            Buf::new().b(b"<?xml version=\"1.0\"?><abiword template=\"false\">").0,
            Buf::new().b(b"<?xml version=\"1.0\" encoding=\"utf-8\"?><root attr=\"1\"/>").0,
        ],
        ZIP => vec![
            zips(&[ent("a.txt"), ent("word/document.xml")]),
            zips(&[mime_ent("application/epub+zip")]),
            zip(&[ent("META-INF/MANIFEST.MF"), ent("x/y")], &ZipOpt { comment: b"PK cm".to_vec(), ..Default::default() }),
            zip(&[Ent { extra: 4, comment: 3, ..ent("b") }, ent("book.fb2")], &ZipOpt { zip64: true, ..Default::default() }),
            zips(&[]),
            zips(&[Ent { local_extra: 6, ..mime_ent(" application/vnd.sun.xml.calc\n") }, ent("xl/workbook.xml")]),
        ],
        TXT => vec![
            b"Hello, world\r\nsecond line\twith tab\n".to_vec(),
            "h\u{e9}llo \u{4e16}\u{754c} \u{1f600}\n".as_bytes().to_vec(),
            b"\0\x01\x02binary".to_vec(),
            b"line\n".repeat(20),
        ],
        _ => vec![],
    }
}

/// One well-formed file of every way to name every sub-format of a family.
pub fn variants(bit: u16) -> Vec<Vec<u8>> {
    let mut o = reps(bit);
    match bit {
        ASF => {
            for x in [asf_stream(&G_VIDEO), asf_stream(&G_AUDIO), asf_ext(1, &[asf_desc(DVR, b"1")])] {
                o.push(asf(None, &[x.clone()]));
                o.push(asf(None, &[asf_obj(&guid(G_OTHER), None, &[9; 30]), x.clone(), asf_stream(&G_AUDIO)]));
                o.push(asf(None, &[asf_ext(1, &[asf_desc(b"T\0", b"12345")]), asf_stream(&G_AUDIO), x]));
            }
        }
        CFB => {
            for (i, (g, _)) in CLSIDS.iter().enumerate() {
                o.push(cfb(3, 0, &guid(g), b"", b""));
                o.push(cfb(4, i as u64 % 3, &guid(g), WPS_NAME, XLR_NAME));
            }
            o.push(cfb(4, 0, &[0; 16], WPS_NAME, XLR_NAME));
            o.push(cfb(4, 1, &[0; 16], b"a", XLR_NAME));
        }
        EBML => {
            for c in [&b"A_AAC"[..], b"V_VP9", b"S_TEXT/UTF8", b"A_MPEG/L3", b"V_MPEG4/ISO/AVC", b"S_HDMV/PGS", b"B_VOBBTN", b"V_", b"A_", b"S_"] {
                for d in [&b"matroska"[..], b"webm"] {
                    o.push(ebml(d, &el(E_TRACKS, 0, &track(c))));
                    o.push(ebml(d, &Buf(el(0x114D9B74, 0, &[1; 20])).b(el(0x1549A966, 0, &[2; 20])).b(el(E_TRACKS, 8, &Buf(track(b"S_X")).b(track(c)).b(track(b"A_Y")).0)).b(el(E_CLUSTER, 0, &[1])).0));
                }
            }
            for n in 1..9 {
                let mut m = vec![0; n];
                m[n - 1] = 1;
                o.push(ebml(b"matroska", &el(E_TRACKS, 0, &Buf(track(b"V_A")).b(el(E_TRACK, 0, &el(E_VIDEO, 0, &el(E_STEREO, 0, &m)))).0)));
            }
        }
        EXE => {
            for s in [&b"PE\0\0"[..], b"LE\0\0", b"LX\0\0", b"NE\0\0", b"PE\0\x01", b"\0\0\0\0", b"PK\x03\x04"] {
                for c in [0u64, 0x2000, 0xDFFF, 0xFFFF] {
                    for at in [64, 65, 128, 240] {
                        o.push(exe(b"MZ", at, s, c));
                    }
                }
            }
        }
        ID3 => {
            for v in [2u8, 3, 4] {
                for f in [0u8, 0x10, 0x80] {
                    for t in [&b"fLaC\0\0\0\x22"[..], b"\xFF\xFB\x90\0", b"\xFF\xF3\x90\0", b"\xFF\xE3\x90\0", b"RIFF....", b"OggS...."] {
                        o.push(Buf(id3(v, f, 40)).b(t).z(4).0);
                        o.push(Buf(id3(v, f, 3)).b(id3(4, f, 200)).b(t).z(4).0);
                    }
                }
            }
        }
        MP4 => {
            for k in [b"vide", b"soun", b"sbtl", b"subt", b"text", b"meta", b"hint"] {
                for w in 0..4 {
                    let bx = |i: u32, n: &[u8], p: &[u8]| if w >> i & 1 == 1 { mp4_box64(n, p) } else { mp4_box(n, p) };
                    let trak = bx(0, b"trak", &Buf(mp4_box(b"tkhd", &[0; 84])).b(bx(1, b"mdia", &Buf(mp4_box(b"mdhd", &[0; 24])).b(hdlr(k)).0)).0);
                    o.push(Buf(ftyp(b"mp42")).b(bx(0, b"moov", &Buf(mp4_box(b"mvhd", &[0; 100])).b(trak).0)).b(mp4_box(b"mdat", &[1; 20])).0);
                }
            }
        }
        PDF => {
            for n in [0, 1, 13, 100] {
                o.push(Buf::new().b(b"%PDF-").fill(n, b'A').b(AI).fill(n, b'I').0);
            }
        }
        RM => {
            for m in [&b"audio/x-pn-realaudio"[..], b"video/x-pn-realvideo", b"audio/", b"video/", b"application/x", b"", b"audio", b"VIDEO/x"] {
                for n in [0, 1, 12, 255] {
                    o.push(rm(None, &[rm_chunk(b"PROP", None, &[0; 40]), mdpr(&vec![b'n'; n], m), mdpr(b"l", b"logical-fileinfo")]));
                    o.push(rm(None, &[mdpr(b"l", b"audio/l"), mdpr(&vec![b'n'; n], m)]));
                }
            }
        }
        SQL => {
            for n in [100, 101, 125, 126, 500] {
                o.push(Buf(sqlite(n, 0)).b(SKETCH).0);
                o.push(Buf(sqlite(n, b'x')).b(SKETCH).fill(40, b'y').0);
            }
        }
        TXT => {}
        XML => {
            for (_, m) in XML_MARKERS {
                o.push(Buf::new().b(b"<?xml version=\"1.0\"?>\n").b(m.join(" ")).b(b">").0);
                let r: Vec<_> = m.iter().rev().copied().collect();
                o.push(Buf::new().b(b"\xEF\xBB\xBF<?xml?><r>").b(r.join("\n")).b(b"/></r>").0);
            }
        }
        ZIP => {
            for n in zip_names() {
                o.push(zips(&[ent(&n)]));
                o.push(zip(&[ent("x"), ent(MANIFEST), ent(&n)], &ZipOpt { zip64: true, comment: b"c".to_vec(), ..Default::default() }));
            }
            for (m, _) in ZIP_MIMES {
                o.push(zips(&[mime_ent(m)]));
                o.push(zip(&[ent("META-INF/x"), mime_ent(format!("{m}\n"))], &ZipOpt { zip64: true, ..Default::default() }));
            }
            o.push(zips(&[ent(MANIFEST)]));
        }
        _ => {}
    }
    o
}

/// Every prefix; every byte replaced; every byte deleted; a byte inserted everywhere, of every representative.
pub fn mutations(bit: u16, l: u8) -> Vec<DS> {
    let t = l > 0;
    let nm = |s: &str| format!("{}-{s}", feature_name(bit));
    let r = Arc::new(reps(bit));
    let n = r.len();
    let (a, b, c, d, e) = (r.clone(), r.clone(), r.clone(), r.clone(), r.clone());
    let w = Arc::new(variants(bit));
    let mut out = vec![
        ds(bit, &nm("variants"), move |ch| {
            // Every way to every sub-format, whole, cut a little, or followed by something.
            let mut x = w[ch.choose(w.len())].clone();
            let tail = ch.choose(28);
            if tail < 20 {
                x.truncate(x.len() - tail.min(x.len()));
            } else {
                x.extend_from_slice([&b"\0"[..], b"\n", b"tail", b"\xFF\xFF", &[0; 512], &[b' '; 40_000], b"PK\x05\x06", b"%%EOF"][tail - 20]);
            }
            v(x)
        }),
        ds(bit, &nm("truncate"), move |ch| {
            let x = &a[ch.choose(n)];
            v(x[..ch.choose(x.len() + 1)].to_vec())
        }),
        ds(bit, &nm("substitute"), move |ch| {
            let mut x = b[ch.choose(n)].clone();
            let i = ch.choose(x.len());
            let o = x[i];
            x[i] = if t || x.len() < 400 {
                ch.choose(256) as u8
            } else {
                ch.pick(&[0, 1, 0x7F, 0x80, 0xFF, o ^ 1, o ^ 2, o ^ 4, o ^ 0x20, o ^ 0x80, o.wrapping_add(1), o.wrapping_sub(1)])
            };
            v(x)
        }),
        ds(bit, &nm("delete"), move |ch| {
            let mut x = c[ch.choose(n)].clone();
            let i = ch.choose(x.len());
            let k = ch.pick(&[1, 2, 4, 8]).min(x.len() - i);
            x.drain(i..i + k);
            v(x)
        }),
        ds(bit, &nm("insert"), move |ch| {
            let mut x = d[ch.choose(n)].clone();
            let i = ch.choose(x.len() + 1);
            let k = ch.pick(&[1, 2, 4, 8]);
            let b = ch.pick(&[0, 1, 0x20, 0x41, 0x80, 0xFF]);
            x.splice(i..i, std::iter::repeat_n(b, k));
            v(x)
        }),
        ds(bit, &nm("wide"), move |ch| {
            // Every 2-, 4- and 8-byte field position overwritten by extreme values in both byte orders.
            let mut x = e[ch.choose(n)].clone();
            let w = ch.pick(&[2, 4, 8]);
            if x.len() < w {
                return None;
            }
            let i = ch.choose(x.len() - w + 1);
            let val = ch.pick(&BIG[..]);
            if w < 8 && val >> (8 * w) != 0 {
                return None;
            }
            let y = if ch.flag() { val.to_be_bytes()[8 - w..].to_vec() } else { val.to_le_bytes()[..w].to_vec() };
            x[i..i + w].copy_from_slice(&y);
            v(x)
        }),
    ];
    let (g, h) = (Arc::new(variants(bit)), Arc::new(variants(bit).into_iter().filter(|x| x.len() < 1200).collect::<Vec<_>>()));
    if !g.is_empty() {
        out.push(ds(bit, &nm("substitute-in-variants"), move |ch| {
            // The same in every way to every sub-format, with fewer values.
            let mut x = g[ch.choose(g.len())].clone();
            let i = ch.choose(x.len());
            let o = x[i];
            x[i] = if x.len() < 400 { ch.pick(&[0, 1, 0x7F, 0x80, 0xFF, o ^ 1, o ^ 2, o ^ 0x20, o.wrapping_add(1), o.wrapping_sub(1)]) } else { ch.pick(&[o ^ 1, 0xFF, 0]) };
            v(x)
        }));
    }
    if !h.is_empty() {
        out.push(ds(bit, &nm("wide-in-variants"), move |ch| {
            let mut x = h[ch.choose(h.len())].clone();
            let w = ch.pick(&[2usize, 4]).min(x.len());
            let i = ch.choose(x.len() - w + 1);
            let val = ch.pick(&[[0u8; 4], [0xFF; 4], [0, 0, 0, 0x80], [0x7F, 0xFF, 0xFF, 0xFF], [1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1]]);
            x[i..i + w].copy_from_slice(&val[..w]);
            v(x)
        }));
    }
    if t {
        let f = r.clone();
        out.push(ds(bit, &nm("substitute2"), move |ch| {
            let mut x = f[ch.choose(n)].clone();
            if x.len() > 700 {
                return None;
            }
            let i = ch.choose(x.len());
            let j = i + 1 + ch.choose((x.len() - i).max(1));
            if j >= x.len() {
                return None;
            }
            for k in [i, j] {
                let o = x[k];
                let few = [0, 1, 0xFF, 0x80, o ^ 1, o ^ 0x20, o.wrapping_add(1), o ^ 2, o ^ 4, o ^ 8, o ^ 0x10, o ^ 0x40, o ^ 0x80, 0x7F, o.wrapping_sub(1)];
                x[k] = ch.pick(if l >= 2 { &few } else { &few[..7] });
            }
            v(x)
        }));
    }
    out
}

pub fn feature_name(bit: u16) -> &'static str {
    FEATURES.iter().find(|f| f.1 == bit).map_or("none", |f| f.0)
}

// ---------------------------------------------------------------- ASF

fn asf_spaces(l: u8) -> Vec<DS> {
    let depth = 5 + l as usize;
    let nested = asf_obj(&guid(G_OTHER), None, &asf_stream(&G_VIDEO));
    let alpha: Vec<Vec<u8>> = vec![
        asf_stream(&G_AUDIO),
        asf_stream(&G_VIDEO),
        asf_stream(&guid(G_OTHER)),
        asf_ext(1, &[asf_desc(b"W\0M\0/\0G\0", b"xy")]),
        asf_obj(&guid(G_OTHER), None, &[]),
        nested,
        asf_ext(2, &[asf_desc(b"a", b""), asf_desc(DVR, b"")]),
    ];
    let mut s = vec![ds(ASF, "asf-sequences", move |ch| {
        let n = ch.choose(depth + 1);
        let objs: Vec<_> = (0..n).map(|_| ch.pick(&alpha)).collect();
        let c = ch.pick(&[n as i64, n as i64 + 1, n as i64 - 1, 0, 0xFFFF_FFFF]);
        if c < 0 {
            return None;
        }
        v(asf(Some(c as u64), &objs))
    })];
    s.push(ds(ASF, "asf-mixed", move |ch| {
        // Objects of every kind in every shape (exact, with a rest that looks like an object, cut, of odd length) after and before any other.
        let k = |i: usize| -> Vec<u8> {
            let many = |n: usize, last: &[u8]| (0..n).map(|i| if i + 1 == n { asf_desc(last, b"v") } else { asf_desc(b"W\0", b"") }).collect::<Vec<_>>();
            match i {
                0 => asf_stream(&G_AUDIO),
                1 => asf_stream(&G_VIDEO),
                2 => asf_stream(&guid(G_OTHER)),
                3 => asf_obj(&G_STREAM, None, &*G_AUDIO),
                4 => asf_obj(&G_STREAM, None, &Buf::new().b(*G_AUDIO).b(asf_stream(&G_VIDEO)).0),
                5 => asf_obj(&G_STREAM, None, &Buf::new().b(*G_VIDEO).b(asf_stream(&G_AUDIO)).z(1).0),
                6 => asf_obj(&G_STREAM, None, &Buf::new().b(guid(G_OTHER)).b(asf_ext(1, &[asf_desc(DVR, b"1")])).0),
                7 => asf_ext(1, &[asf_desc(b"W\0", b"x")]),
                8 => asf_ext(2, &[asf_desc(b"W\0", b"xy"), asf_desc(DVR, b"1")]),
                9 => asf_ext(1, &[asf_desc(b"W\0", b"x"), asf_stream(&G_VIDEO)]),
                10 => asf_ext(0, &[asf_stream(&G_AUDIO), vec![0]]),
                11 => asf_ext(33, &many(33, DVR)),
                12 => asf_ext(32, &many(32, DVR)),
                13 => asf_obj(&G_EXT, Some(26), &Buf::new().b(le2(1)).b(asf_desc(b"W\0", b"")).b(asf_stream(&G_VIDEO)).0),
                14 => asf_obj(&guid(G_OTHER), None, &[0]),
                15 => asf_obj(&guid(G_OTHER), None, &asf_stream(&G_VIDEO)),
                16 => asf_obj(&guid(G_OTHER), None, &[]),
                _ => asf_obj(&G_STREAM, Some(24), &*G_AUDIO),
            }
        };
        let objs: Vec<_> = (0..ch.choose(4 + l as usize)).map(|_| k(ch.choose(18))).collect();
        v(asf(None, &objs))
    }));
    s.push(ds(ASF, "asf-guid-bytes", move |ch| {
        // Every value of every byte of every identifier that matters, and every transposition.
        let mut parts = [*G_STREAM, *G_AUDIO, *G_STREAM, *G_VIDEO, *G_EXT];
        let k = ch.choose(5);
        let i = ch.choose(16);
        if ch.flag() {
            let j = ch.choose(16);
            parts[k].swap(i, j);
        } else {
            parts[k][i] = ch.choose(256) as u8;
        }
        let obj = |a: &[u8; 16], b: &[u8; 16]| asf_obj(a, None, &Buf::new().b(b).z(20).0);
        let ext = asf_obj(&parts[4], None, &Buf::new().b(le2(1)).b(asf_desc(DVR, b"1")).0);
        v(asf(None, &match k {
            0 | 1 => vec![obj(&parts[0], &parts[1])],
            2 | 3 => vec![obj(&parts[2], &parts[3])],
            _ => vec![ext, obj(&G_STREAM, &G_AUDIO)],
        }))
    }));
    s.push(ds(ASF, "asf-descriptors", |ch| {
        let n = ch.choose(37);
        let k = ch.choose(38);
        let count = match ch.choose(4) {
            0 => n as u64,
            1 => n as u64 + 1,
            2 => (n as u64).saturating_sub(1),
            _ => 0xFFFF,
        };
        let descs: Vec<_> = (0..n).map(|i| if i == k { asf_desc(DVR, b"v") } else { asf_desc(b"W\0M\0", &[i as u8; 3]) }).collect();
        v(asf(None, &[asf_ext(count, &descs), asf_stream(&G_AUDIO)]))
    }));
    s.push(ds(ASF, "asf-descriptor-names", |ch| {
        // A first name of any length, then the deciding one, modified at any place or not.
        let l1 = ch.pick(&[0usize, 1, 2, 31, 32, 33, 62, 63, 64, 65, 66, 67, 127, 128, 129, 200, 255, 256, 257, 1000, 32767, 32768, 65535]);
        let v1 = ch.pick(&[0usize, 1, 2, 3, 255, 256, 257, 32768, 65535]);
        let mut name = DVR.to_vec();
        match ch.choose(5) {
            0 => {}
            1 => name.truncate(ch.choose(DVR.len())),
            2 => {
                let i = ch.choose(DVR.len());
                name[i] ^= ch.pick(&[1, 0x20, 0x80]);
            }
            3 => name.resize(DVR.len() + ch.pick(&[1, 2, 3, 30, 31, 32, 33, 34, 35, 36, 100]), 0),
            _ => name.insert(0, 0),
        }
        let d = [asf_desc(&vec![b'D'; l1], &vec![7; v1]), asf_desc(&name, b"z")];
        v(asf(None, &[asf_ext(2, &d), asf_stream(&G_VIDEO)]))
    }));
    s.push(ds(ASF, "asf-object-limit", |ch| {
        let n = ch.range(1, 262);
        let first = ch.flag();
        let last = if ch.flag() { asf_stream(&G_VIDEO) } else { asf_ext(1, &[asf_desc(DVR, b"")]) };
        let mut o = vec![asf_obj(&guid(G_OTHER), None, &[]); n];
        if first {
            o[0] = asf_stream(&G_AUDIO);
        }
        o.push(last);
        let c = ch.pick(&[None, Some(255), Some(256), Some(257), Some(0xFFFF_FFFF)]);
        v(asf(c, &o))
    }));
    s.push(ds(ASF, "asf-sizes", |ch| {
        // The first object declares any size; a deciding object follows at its true end.
        let kind = ch.choose(3);
        let size = if ch.flag() { ch.pick(&BIG[..]) } else { ch.choose(160) as u64 };
        let tail = ch.pick(&[0usize, 1, 16, 24, 40, 62]);
        let o = match kind {
            0 => asf_obj(&G_STREAM, Some(size), &Buf::new().b(*G_AUDIO).z(tail).0),
            1 => asf_obj(&guid(G_OTHER), Some(size), &asf_stream(&G_AUDIO)),
            _ => asf_obj(&G_EXT, Some(size), &Buf::new().b(le2(1)).b(asf_desc(b"q", &vec![1; tail])).0),
        };
        v(asf(Some(2), &[o, asf_stream(&G_VIDEO)]))
    }));
    s.push(ds(ASF, "asf-sizes-near-the-largest", |ch| {
        // Such a size leads beyond the end, never back into an object that was skipped.
        let inner = if ch.flag() { asf_stream(&G_VIDEO) } else { asf_ext(1, &[asf_desc(DVR, b"1")]) };
        let a = asf_obj(&guid(G_OTHER), None, &inner);
        let back = 30 + a.len() as u64 + 70;
        let id = ch.pick(&[guid(G_OTHER), *G_STREAM, *G_EXT]);
        let o = asf_obj(&id, Some(0u64.wrapping_sub(ch.choose(back as usize) as u64)), &asf_stream(&G_AUDIO));
        let count = ch.pick(&[2, 3, 4, 9]);
        v(asf(Some(count), &[a, o, asf_stream(&G_VIDEO)]))
    }));
    s.push(ds(ASF, "asf-opaque-objects", |ch| {
        // Deciding structures inside of objects of any other kind, or named otherwise, are not looked for.
        let id = guid(ch.pick(&ASF_IDS));
        let pad = ch.pick(&[0usize, 2, 4, 16, 22, 46]);
        let inner = match ch.choose(3) {
            0 => asf_stream(&G_VIDEO),
            1 => asf_ext(1, &[asf_desc(DVR, b"1")]),
            _ => Buf::new().b(le2(1)).b(asf_desc(DVR, b"1")).0,
        };
        let o = asf_obj(&id, None, &Buf::new().z(pad).b(&inner).z(30).0);
        let a = asf_stream(&G_AUDIO);
        v(asf(None, &match ch.choose(3) {
            0 => vec![o],
            1 => vec![o, a],
            _ => vec![a, o],
        }))
    }));
    s.push(ds(ASF, "asf-stream-kinds", |ch| {
        // Streams of every kind, before and after another.
        let k = guid(ch.pick(&ASF_IDS));
        let other = ch.pick(&[*G_AUDIO, *G_VIDEO, [0; 16]]);
        let payload = Buf::new().b(k).b(*G_VIDEO).b(*G_AUDIO).z(20).0;
        let x = asf_obj(&G_STREAM, None, &payload);
        let y = asf_stream(&other);
        v(asf(None, &match ch.choose(3) {
            0 => vec![x],
            1 => vec![x, y],
            _ => vec![y, x],
        }))
    }));
    s
}

/// Identifiers of the other objects and stream kinds of ASF.
pub const ASF_IDS: [&str; 40] = [
    "75b22630-668e-11cf-a6d9-00aa0062ce6c", "75b22636-668e-11cf-a6d9-00aa0062ce6c", "33000890-e5b1-11cf-89f4-00a0c90349cb", "d6e229d3-35da-11d1-9034-00a0c90349be",
    "feb103f8-12ad-4c64-840f-2a1d2f7ad48c", "3cb73fd0-0c4a-4803-953d-edf7b6228f0c", "8cabdca1-a947-11cf-8ee4-00c00c205365", "5fbf03b5-a92e-11cf-8ee3-00c00c205365",
    "86d15240-311d-11d0-a3a4-00a0c90348f6", "1efb1a30-0b62-11d0-a39b-00a0c90348f6", "f487cd01-a951-11cf-8ee6-00c00c205365", "d6e229dc-35da-11d1-9034-00a0c90349be",
    "75b22633-668e-11cf-a6d9-00aa0062ce6c", "7bf875ce-468d-11d1-8d82-006097c9a2b2", "2211b3fa-bd23-11d2-b4b7-00a0c955fc6e", "1806d474-cadf-4509-a4ba-9aabcb96aae8",
    "2211b3fb-bd23-11d2-b4b7-00a0c955fc6e", "298ae614-2622-4c17-b935-dae07ee9289c", "14e6a5cb-c672-4332-8399-a96952065b5a", "a08649cf-4775-4670-8a16-6e35357566cd",
    "d1465a40-5a79-4338-b71b-e36b8fd6c249", "d4fed15b-88d3-454f-81f0-ed5c45999e24", "a69609e6-517b-11d2-b6af-00c04fd908e9", "c5f8cbea-5baf-4877-8467-aa8c44fa4cca",
    "44231c94-9498-49d1-a141-1d134e457054", "d6e229df-35da-11d1-9034-00a0c90349be", "6b203bad-3f11-48e4-aca8-d7613de2cfa7", "d0860d15-c2b6-4bf5-92a0-1c0e9c1b4a5b",
    "59dacfc0-59e6-11d0-a3ac-00a0c90348f6", "b61be100-5b4e-11cf-a8fd-00805f5c442b", "35907de0-e415-11cf-a917-00805f5c442b", "91bd222c-f21c-497a-8b6d-5aa86bfc0185",
    "3afb65e2-47ef-40f2-ac2c-70a90d71d343", "20fb5700-5b55-11cf-a8fd-00805f5c442b", "bfc3cd50-618f-11cf-8bb2-00aa00b4e220", "abd3d211-a9ba-11cf-8ee6-00c00c205365",
    "7c4346a9-efe0-4bfc-b229-393ede415c85", "c6dabec5-4d13-4d55-9e9e-4b8d2f0f3b0e", "00000000-0000-0000-0000-000000000000", "b7dc0791-a9b7-11cf-8ee6-00c00c205364",
];

// ---------------------------------------------------------------- CFB

fn cfb_spaces(l: u8) -> Vec<DS> {
    let t = l > 0;
    vec![
        ds(CFB, "cfb-versions-sectors", |ch| {
            let ver = ch.pick(&[3u64, 4, 0, 1, 2, 5, 0x0300, 0x0103, 0x0304, 0xFFFF]);
            let sector = ch.choose(12) as u64;
            let place = ch.choose(2);
            let id = if place == 0 { guid(CLSIDS[ch.choose(CLSIDS.len())].0) } else { [0; 16] };
            // Written where the version says, with a decoy where the other sector size would be.
            let s = if ver == 3 { 512 } else { 4096 };
            let o = if ver == 3 { 4096 } else { 512 };
            let at = s * (1 + sector);
            let decoy = o * (1 + sector);
            let len = at.max(decoy) + 1024;
            let mut b = Buf(cfb_head(ver, sector)).to(len as usize, 0).0;
            let w = guid("0ea45ab2-9e0a-11d1-a407-00c04fb932ba");
            b[decoy as usize + 80..decoy as usize + 96].copy_from_slice(&w);
            b[at as usize + 80..at as usize + 96].copy_from_slice(&id);
            v(b)
        }),
        ds(CFB, "cfb-clsid-bytes", move |ch| {
            let mut id = guid(CLSIDS[ch.choose(CLSIDS.len())].0);
            let i = ch.choose(16);
            if t {
                id[i] = ch.choose(256) as u8;
            } else {
                let o = id[i];
                id[i] = ch.pick(&[o, o ^ 1, o ^ 2, o ^ 4, o ^ 8, o ^ 16, o ^ 32, o ^ 64, o ^ 128, 0, 0xFF, o.wrapping_add(1), o.wrapping_sub(1), o.rotate_left(4)]);
            }
            v(cfb(3, 0, &id, b"", b""))
        }),
        ds(CFB, "cfb-clsid-orders", |ch| {
            let id = guid(CLSIDS[ch.choose(CLSIDS.len())].0);
            let mut x = id;
            match ch.choose(8) {
                0 => x[..4].reverse(),
                1 => x[4..6].reverse(),
                2 => x[6..8].reverse(),
                3 => x[8..].reverse(),
                4 => {
                    x[..4].reverse();
                    x[4..6].reverse();
                    x[6..8].reverse();
                }
                5 => x.reverse(),
                6 => x.rotate_left(1),
                _ => x.rotate_right(1),
            }
            v(cfb(ch.pick(&[3, 4]), 0, &x, b"", b""))
        }),
        ds(CFB, "cfb-clsid-names", |ch| {
            // Every class with every name the other entries could decide by, wherever the directory is.
            let id = guid(CLSIDS[ch.choose(CLSIDS.len())].0);
            let ver = ch.pick(&[3u64, 4]);
            let s = if ver == 3 { 512 } else { 4096 };
            let sector = ch.pick(&[0usize, 1, 2, 5, 100]);
            let names: [&[u8]; 4] = [ROOT, WPS_NAME, XLR_NAME, b""];
            let (a, b, c) = (ch.pick(&names), ch.pick(&names), ch.pick(&names));
            v(Buf(cfb_head(ver, sector as u64)).to(s * (1 + sector), 0).b(cfb_entry(a, &id)).b(cfb_entry(b, &[0; 16])).b(cfb_entry(c, &[1; 16])).0)
        }),
        ds(CFB, "cfb-names", |ch| {
            let names: [&[u8]; 9] = [
                b"", WPS_NAME, XLR_NAME, b"M\0a\0t\0O\0S\0T\0 \x002\0", b"W\0k\0s\0S\0S\0W\0o\0r\0k\0B\0o\0o\0k\x002\0",
                b"W\0o\0r\0d\0", b"MatOST", b"\0M\0a\0t\0O\0S\0T", b"m\0a\0t\0o\0s\0t\0",
            ];
            let s = ch.pick(&[3u64, 4]);
            let z = [0; 16];
            let id = ch.pick(&[z, guid(CLSIDS[0].0), guid(CLSIDS[13].0), [1; 16]]);
            let n = [ch.pick(&names), ch.pick(&names), ch.pick(&names[..4]), ch.pick(&names[..3])];
            let root = ch.pick(&[ROOT, WPS_NAME, XLR_NAME]);
            let base = if s == 3 { 512 } else { 4096 };
            let extra = ch.pick(&[z, guid(CLSIDS[5].0)]);
            v(Buf(cfb_head(s, 0)).to(base, 0).b(cfb_entry(root, &id)).b(cfb_entry(n[0], &extra)).b(cfb_entry(n[1], &extra)).b(cfb_entry(n[2], &z)).b(cfb_entry(n[3], &z)).0)
        }),
        ds(CFB, "cfb-name-bytes", |ch| {
            let third = ch.flag();
            let base = if third { XLR_NAME } else { WPS_NAME };
            let mut n = base.to_vec();
            if ch.flag() {
                n.truncate(ch.choose(n.len() + 1));
                let f = ch.pick(&[0u8, 1, b'T', 0xFF]);
                n.resize(64, f);
            } else {
                let i = ch.choose(n.len());
                n[i] = ch.choose(256) as u8;
            }
            v(if third { cfb(3, 0, &[0; 16], b"x", &n) } else { cfb(3, 0, &[0; 16], &n, b"x") })
        }),
        ds(CFB, "cfb-cuts", |ch| {
            // Every length from the directory on, for files decided by each entry.
            let k = ch.choose(4);
            let ver = ch.pick(&[3, 4]);
            let x = match k {
                0 => cfb(ver, 0, &guid(CLSIDS[30].0), b"", b""),
                1 => cfb(ver, 0, &[0; 16], WPS_NAME, b""),
                2 => cfb(ver, 0, &[0; 16], b"", XLR_NAME),
                _ => cfb(ver, 0, &[0; 16], b"a", b"b"),
            };
            let base = if ver == 3 { 512 } else { 4096 };
            let n = base + ch.choose(513);
            v(x[..n].to_vec())
        }),
    ]
}

// ---------------------------------------------------------------- EBML

fn ebml_spaces(l: u8) -> Vec<DS> {
    let t = l > 0;
    let depth = 4 + l as usize;
    let item = |k: usize| -> Vec<u8> {
        match k {
            0 => el(E_CODEC, 0, b"A_AAC"),
            1 => el(E_CODEC, 0, b"V_VP8"),
            2 => el(E_CODEC, 0, b"S_TEXT/UTF8"),
            3 => el(E_STEREO, 0, &[1]),
            4 => el(E_STEREO, 0, &[0]),
            5 => el(E_VIDEO, 0, &[]),
            6 => el(E_TRACK, 0, &[]),
            7 => el(E_CLUSTER, 0, &el(E_CODEC, 0, b"V_X")),
            8 => el(E_VOID, 0, &el(E_CODEC, 0, b"V_X")),
            9 => el(E_TRACKS, 0, &[]),
            10 => el(0x114D9B74, 2, &el(E_STEREO, 0, &[1])),
            11 => el(0x2AD7B1, 3, &[1, 2, 3]),
            12 => el(E_CODEC, 0, b"B_VOBBTN"),
            _ => el(0x4489, 4, &[0x86, 0x82, b'V', b'_']),
        }
    };
    let mut s = vec![];
    s.push(ds(EBML, "ebml-sequences", move |ch| {
        let doctype: &[u8] = ch.pick(&[&b"matroska"[..], b"webm", b"mkv", b""]);
        let n = ch.choose(depth + 1);
        let b: Vec<u8> = (0..n).flat_map(|_| item(ch.choose(14))).collect();
        v(ebml(doctype, &b))
    }));
    s.push(ds(EBML, "ebml-tracks", move |ch| {
        // Well-nested tracks in every order, each with its fields in either order.
        let n = ch.choose(4 + l as usize);
        let codecs: [&[u8]; 5] = [b"A_OPUS", b"V_AV1", b"S_VOBSUB", b"B_X", b""];
        let mut b = vec![];
        for _ in 0..n {
            let c = el(E_CODEC, 0, ch.pick(&codecs));
            let st = ch.choose(4);
            let video = match st {
                0 => vec![],
                1 => el(E_VIDEO, 0, &el(0xB0, 0, &[2, 128])),
                2 => el(E_VIDEO, 0, &Buf(el(E_STEREO, 0, &[0])).b(el(0xB0, 0, &[1])).0),
                _ => el(E_VIDEO, 0, &Buf(el(0xB0, 0, &[1])).b(el(E_STEREO, 0, &[3])).0),
            };
            let e = if ch.flag() { Buf(video).b(c) } else { Buf(c).b(video) };
            b.extend(el(E_TRACK, 0, &e.0));
        }
        v(ebml(b"matroska", &Buf(el(0x1549A966, 0, &[0xD7, 0x81, 1])).b(el(E_TRACKS, 0, &b)).b(el(E_CLUSTER, 0, &[])).b(track(b"V_LATE")).0))
    }));
    s.push(ds(EBML, "ebml-mixed", move |ch| {
        // Elements of every kind in every shape (short, with a rest beyond what is read, of odd and even sizes) after and before any other.
        let deco = el(E_CODEC, 0, b"V_IN");
        let long = |head: &[u8], n: usize| {
            let mut x = head.to_vec();
            x.resize(n, b' ');
            Buf(x).b(&deco).b(track(b"A_IN")).0
        };
        let k = |i: usize| -> Vec<u8> {
            match i {
                0 => el(E_CODEC, 0, b"A_X"),
                1 => el(E_CODEC, 0, b"V_X4"),
                2 => el(E_CODEC, 0, b"S_"),
                3 => el(E_CODEC, 0, b"B_"),
                4 => el(E_CODEC, 0, &long(b"A_LONG", 64)),
                5 => el(E_CODEC, 0, &long(b"S_LONG", 65)),
                6 => el(E_CODEC, 2, &long(b"V_LONG", 66)),
                7 => el(E_CODEC, 0, &long(b"D_LONG", 64)),
                8 => el(E_STEREO, 0, &[1]),
                9 => el(E_STEREO, 0, &[0, 0]),
                10 => el(E_STEREO, 0, &long(&[0; 8], 8)),
                11 => el(E_DOCTYPE, 0, b"webm"),
                12 => el(E_DOCTYPE, 0, b"webm\0"),
                13 => el(E_DOCTYPE, 0, b"matroska"),
                14 => el(E_DOCTYPE, 0, &long(b"matroska", 8)),
                15 => el(E_DOCTYPE, 8, &long(b"matroska", 9)),
                16 => el(E_DOCTYPE, 0, b"other"),
                17 => el(E_DOCTYPE, 0, b"mk"),
                18 => el(E_VOID, 0, &[0]),
                19 => el(E_VOID, 0, &deco),
                20 => el(E_VIDEO, 0, &[]),
                21 => el(E_TRACK, 4, &[]),
                22 => el(E_CLUSTER, 0, &deco),
                _ => el(0x4489, 3, &deco),
            }
        };
        let b: Vec<u8> = (0..ch.choose(4 + l as usize)).flat_map(|_| k(ch.choose(24))).collect();
        v(match ch.choose(3) {
            0 => ebml(b"matroska", &b),
            1 => Buf(el(E_EBML, 0, &[])).b(el(E_SEGMENT, 0, &b)).0,
            _ => Buf(el_sized(E_EBML, &[0xFF], &[])).b(b).0,
        })
    }));
    s.push(ds(EBML, "ebml-size-heads", |ch| {
        // Every first byte of a size at every meaningful element, the rest of the size zero or the true one, after any track.
        let id = ch.pick(&[E_EBML, E_SEGMENT, E_TRACKS, E_TRACK, E_CODEC, E_VIDEO, E_STEREO, E_CLUSTER, E_DOCTYPE, E_VOID, 0x4489]);
        let payload: &[u8] = ch.pick(&[&b"A_X"[..], b"V_X", b"S_X", b"webm", b"matroska", b"other", &[1], &[0, 0]]);
        let b = ch.choose(256) as u8;
        let w = (b.leading_zeros() as usize).min(8);
        let mut size = vec![0u8; w];
        if w > 0 && ch.flag() {
            size[w - 1] = payload.len() as u8;
        }
        let pre: &[u8] = ch.pick(&[&b""[..], b"A_P", b"V_P", b"S_P"]);
        let pre = if pre.is_empty() { vec![] } else { el(E_CODEC, 0, pre) };
        let tail = if ch.flag() { el(E_CODEC, 0, b"V_OUT") } else { el(E_CODEC, 0, b"A_OUT") };
        v(Buf(el(E_EBML, 0, &[])).b(pre).b(el_id(id)).b([b]).b(size).b(payload).b(tail).z(ch.pick(&[0, 64])).0)
    }));
    s.push(ds(EBML, "ebml-widths", |ch| {
        // The size of each element written in each width.
        let k = ch.choose(8);
        let w = ch.choose(9) as u32;
        let w2 = ch.choose(9) as u32;
        let ww = |i: usize| if i == k { w } else if i == (k + 1) % 8 { w2 } else { 0 };
        let codec = ch.pick(&[&b"V_VP8"[..], b"A_AAC", b"S_X"]);
        let tr = el(E_TRACK, ww(0), &Buf(el(E_CODEC, ww(1), codec)).b(el(E_VIDEO, ww(2), &el(E_STEREO, ww(3), &[0]))).0);
        let seg = Buf(el(E_VOID, ww(4), &[0x86; 200])).b(el(E_TRACKS, ww(5), &tr)).0;
        let head = el(E_EBML, ww(6), &el(E_DOCTYPE, ww(7), b"matroska"));
        v(Buf(head).b(el(E_SEGMENT, 8, &seg)).0)
    }));
    s.push(ds(EBML, "ebml-doctypes", |ch| {
        let base: &[u8] = ch.pick(&[&b"matroska"[..], b"webm"]);
        let mut d = base.to_vec();
        match ch.choose(5) {
            0 => d.truncate(ch.choose(d.len() + 1)),
            1 => {
                let i = ch.choose(d.len());
                d[i] = ch.choose(256) as u8;
            }
            2 => d.resize(d.len() + ch.choose(10), ch.pick(&[0, b' ', b'x'])),
            3 => d.insert(0, ch.pick(&[0, b' ', b'm', b'w'])),
            _ => d.make_ascii_uppercase(),
        }
        let w = ch.choose(9) as u32;
        let h = el(E_EBML, 0, &el(E_DOCTYPE, w, &d));
        v(Buf(h).b(el(E_SEGMENT, 0, &el(E_TRACKS, 0, &track(b"A_X")))).0)
    }));
    s.push(ds(EBML, "ebml-codecs", |ch| {
        let p: &[u8] = ch.pick(&[&b"A_"[..], b"V_", b"S_", b"A", b"V", b"", b"a_", b"_A", b" A_", b"\0A_", b"VA_", b"A-"]);
        let n = ch.choose(72);
        let mut c = p.to_vec();
        c.resize(n, b'V');
        let second = ch.pick(&[&b""[..], b"S_2", b"A_2"]);
        v(ebml(b"matroska", &el(E_TRACKS, 0, &Buf(track(&c)).b(if second.is_empty() { vec![] } else { track(second) }).0)))
    }));
    s.push(ds(EBML, "ebml-codec-bytes", |ch| {
        let a = ch.choose(256) as u8;
        let b = ch.pick(&[b'_', b'-', b'^', 0x5E, 0xDF, 0, b'A', b'V', b'S']);
        v(ebml(b"matroska", &el(E_TRACKS, 0, &track(&[a, b, b'X']))))
    }));
    s.push(ds(EBML, "ebml-stereo", |ch| {
        let n = ch.choose(12);
        let k = ch.choose(13);
        let mut d = vec![0; n];
        if k < n {
            d[k] = ch.pick(&[1, 2, 0x80, 0xFF]);
        }
        let w = ch.choose(9) as u32;
        let e = el(E_VIDEO, 0, &Buf(el(E_STEREO, w, &d)).b(el(E_CODEC, 0, b"A_Z")).0);
        v(ebml(b"matroska", &el(E_TRACKS, 0, &Buf(track(b"V_VP8")).b(el(E_TRACK, 0, &e)).0)))
    }));
    s.push(ds(EBML, "ebml-limit", |ch| {
        let n = ch.choose(263);
        let empty = ch.flag();
        let fill = if empty { el(E_VOID, 0, &[]) } else { el(0x4DBB, 0, &[1]) };
        let mut b: Vec<u8> = fill.repeat(n);
        if ch.flag() {
            b = Buf(track(b"A_FIRST")).b(b).0;
        }
        let last = match ch.choose(3) {
            0 => track(b"V_VP8"),
            1 => el(E_STEREO, 0, &[1]),
            _ => el(E_CODEC, 0, b"S_X"),
        };
        v(ebml(b"matroska", &Buf(b).b(last).0))
    }));
    s.push(ds(EBML, "ebml-heads", |ch| {
        // Every first byte of an identifier and of a size.
        let pre = ebml(b"matroska", &track(b"A_X"));
        if ch.flag() {
            let b = ch.choose(256) as u8;
            let n = ch.choose(5);
            v(Buf(pre).b([b]).b(vec![0x81; n]).b([0x80]).b(track(b"V_X")).0)
        } else {
            let b = ch.choose(256) as u8;
            let n = ch.choose(9);
            let z = ch.pick(&[0u8, 1, 0xFF]);
            v(Buf(pre).b(el_id(ch.pick(&[E_VOID, E_CODEC, E_STEREO, E_DOCTYPE, E_TRACKS, E_CLUSTER, 0x4DBB]))).b([b]).b(vec![z; n]).b(track(b"V_X")).0)
        }
    }));
    s.push(ds(EBML, "ebml-ids", |ch| {
        // Each meaningful identifier with any byte changed or its width changed, around a decoy.
        let ids = [E_SEGMENT, E_TRACKS, E_TRACK, E_CODEC, E_VIDEO, E_STEREO, E_CLUSTER, E_DOCTYPE];
        let id = ch.pick(&ids);
        let mut b = el_id(id);
        match ch.choose(3) {
            0 => {
                let i = ch.choose(b.len());
                b[i] ^= 1 << ch.choose(8);
            }
            1 => {
                let i = ch.choose(b.len());
                b[i] = ch.choose(256) as u8;
            }
            _ => {}
        }
        let payload: Vec<u8> = match ch.choose(4) {
            0 => el(E_CODEC, 0, b"V_IN"),
            1 => b"A_IN".to_vec(),
            2 => vec![1],
            _ => b"webm".to_vec(),
        };
        let tail = ch.flag();
        let x = Buf(ebml_head(b"matroska")).b(el_sized(E_SEGMENT, &[0x01, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF], &[])).b(b).b(vsize(payload.len() as u64, 0)).b(payload);
        v(if tail { x.b(track(b"S_OUT")).0 } else { x.0 })
    }));
    s.push(ds(EBML, "ebml-oversize", |ch| {
        // Elements that declare more than there is.
        let id = ch.pick(&[E_VOID, E_CODEC, E_STEREO, E_DOCTYPE, E_TRACKS, E_TRACK, E_SEGMENT, E_CLUSTER, 0x4DBB]);
        let w = ch.range(1, 8) as u32;
        let max = (1u64 << (7 * w)) - 1;
        let n = ch.pick(&[max, max - 1, max / 2, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 63, 64, 65]).min(max);
        let have = ch.pick(&[0usize, 1, 4, 8, 64, 65]);
        let head = ch.pick(&[&b"matroska"[..], b"webm"]);
        let pre = if ch.flag() { track(b"A_X") } else { vec![] };
        v(Buf(ebml_head(head)).b(el_sized(E_SEGMENT, &[0xFF], &[])).b(pre).b(el_id(id)).b(vsize(n, w)).b(vec![b'V'; have]).0)
    }));
    s.push(ds(EBML, "ebml-opaque-elements", |ch| {
        // Elements of every other kind are not entered, wherever they are.
        let id = ch.pick(&EBML_IDS);
        let inner: Vec<u8> = match ch.choose(6) {
            0 => el(E_CODEC, 0, b"V_IN"),
            1 => track(b"V_IN"),
            2 => el(E_TRACKS, 0, &track(b"V_IN")),
            3 => el(E_STEREO, 0, &[1]),
            4 => el(E_DOCTYPE, 0, b"webm"),
            _ => el(E_CLUSTER, 0, &[]),
        };
        let o = el(id, ch.pick(&[0, 4, 8]), &inner);
        let a = el(E_CODEC, 0, b"A_OUT");
        let parts = if ch.flag() { Buf(o.clone()).b(&a).0 } else { Buf(a.clone()).b(&o).0 };
        v(match ch.choose(5) {
            0 => ebml(b"matroska", &Buf(o).b(track(b"A_OUT")).0),
            1 => ebml(b"matroska", &el(E_TRACKS, 0, &Buf(o).b(track(b"A_OUT")).0)),
            2 => ebml(b"matroska", &el(E_TRACKS, 0, &el(E_TRACK, 0, &parts))),
            3 => ebml(b"matroska", &el(E_TRACKS, 0, &el(E_TRACK, 0, &Buf(a).b(el(E_VIDEO, 0, &o)).0))),
            _ => Buf(el(E_EBML, 0, &Buf(o).b(el(E_DOCTYPE, 0, b"matroska")).0)).b(el(E_SEGMENT, 0, &track(b"A_OUT"))).0,
        })
    }));
    s.push(ds(EBML, "ebml-all-ids", move |ch| {
        // Every identifier of one and two bytes, and a sample of the longer ones by their tables.
        let id: Vec<u8> = match ch.choose(if t { 3 } else { 2 }) {
            0 => vec![0x80 + ch.choose(128) as u8],
            1 => vec![0x40 + ch.choose(64) as u8, ch.choose(256) as u8],
            _ => vec![0x20 + ch.choose(32) as u8, ch.choose(256) as u8, ch.pick(&[0xD7, 0xB1, 0, 1, 0xFF])],
        };
        let payload: &[u8] = &match ch.choose(3) {
            0 => el(E_CODEC, 0, b"V_IN"),
            1 => b"V_IN".to_vec(),
            _ => vec![0, 1],
        };
        let o = Buf(id).b(vsize(payload.len() as u64, 0)).b(payload).0;
        v(ebml(b"matroska", &el(E_TRACKS, 0, &el(E_TRACK, 0, &Buf(o).b(el(E_CODEC, 0, b"S_OUT")).0))))
    }));
    s
}

/// Identifiers of the other elements of Matroska.
pub const EBML_IDS: [u32; 118] = [
    0x4286, 0x42F7, 0x42F2, 0x42F3, 0x4287, 0x4285, 0x4281, 0x4283, 0x4284, 0xEC, 0xBF, 0x114D9B74, 0x4DBB, 0x53AB, 0x53AC, 0x1549A966, 0x73A4, 0x7384, 0x3CB923, 0x3C83AB,
    0x3EB923, 0x3E83BB, 0x4444, 0x6924, 0x69FC, 0x69BF, 0x69A5, 0x2AD7B1, 0x4489, 0x4461, 0x7BA9, 0x4D80, 0x5741, 0xE7, 0xA7, 0xAB, 0xA3, 0xA0, 0xA1, 0x75A1, 0xA6, 0xEE,
    0xA5, 0x9B, 0xFA, 0xFB, 0xA4, 0x75A2, 0x8E, 0xE8, 0xAF, 0xD7, 0x73C5, 0x83, 0xB9, 0x88, 0x55AA, 0x9C, 0x6DE7, 0x23E383, 0x23314F, 0x55EE, 0x536E, 0x22B59C, 0x63A2, 0x258688,
    0x7446, 0xAA, 0x56AA, 0x56BB, 0x9A, 0x53B9, 0xB0, 0xBA, 0x54AA, 0x54B0, 0x55B0, 0x55D0, 0x7670, 0xE1, 0xB5, 0x9F, 0x6264, 0xE2, 0xE3, 0xE4, 0xE9, 0x6D80, 0x6240,
    0x5031, 0x5034, 0x4254, 0x5035, 0x47E1, 0x1C53BB6B, 0xBB, 0xB3, 0xB7, 0xF7, 0x1941A469, 0x61A7, 0x467E, 0x466E, 0x4660, 0x465C, 0x1043A770, 0x45B9, 0xB6, 0x80, 0x85,
    0x1254C367, 0x7373, 0x63C0, 0x67C8, 0x45A3, 0x4487, 0x3A9697, 0x26B240,
];

// ---------------------------------------------------------------- EXE

fn exe_spaces(l: u8) -> Vec<DS> {
    let t = l > 0;
    let sigs: [&[u8]; 16] = [
        b"PE\0\0", b"LE\0\0", b"LX\0\0", b"NE\0\0", b"PE\0\x01", b"PE\x01\0", b"LE\x01\x02", b"LX\xFF\xFF", b"NEAB", b"PX\0\0",
        b"EP\0\0", b"XL\0\0", b"le\0\0", b"\0PE\0", b"MZ\0\0", b"NX\0\0",
    ];
    vec![
        ds(EXE, "exe-addresses", move |ch| {
            let magic: &[u8] = ch.pick(&[&b"MZ"[..], b"ZM"]);
            let sig = ch.pick(&sigs);
            let tail = ch.choose(30);
            // Header address relative to the place of the signature.
            let at = ch.pick(&[64usize, 65, 72, 128, 4096]);
            let d = ch.pick(&[0i64, -1, 1, -2, 2, -3, 3, -4, 4, 0x1_0000, 0x100_0000, 0x7000_0000, 0xF000_0000]);
            let chars = ch.pick(&[0x2000u64, 0xDFFF]);
            let mut x = Buf(exe_head(magic, (at as i64 + d) as u64)).to(at, 0).b(sig).fill(18, 0).b(le2(chars)).0;
            x.truncate(at + tail);
            v(x)
        }),
        ds(EXE, "exe-low-addresses", |ch| {
            // The header address may point into the DOS header itself.
            let at = ch.choose(130);
            let len = ch.range(60, 140);
            let sig: &[u8] = ch.pick(&[&b"PE\0\0"[..], b"NE\0\0", b"LX\0\0"]);
            let mut x = Buf(exe_head(b"MZ", at as u64)).to(200, 0x20).0;
            for (i, &b) in sig.iter().enumerate() {
                let p = at + i;
                if p >= 2 && !(60..64).contains(&p) {
                    x[p] = b;
                }
            }
            x.truncate(len);
            v(x)
        }),
        ds(EXE, "exe-characteristics", |ch| {
            let c = ch.choose(65536) as u64;
            v(exe(b"MZ", 64, b"PE\0\0", c))
        }),
        ds(EXE, "exe-signatures", move |ch| {
            let a = ch.choose(256) as u8;
            let b = ch.choose(256) as u8;
            let r = if t { ch.pick(&[[0u8, 0], [1, 0], [0, 1], [0xFF, 0xFF]]) } else { [0, 0] };
            v(exe(b"MZ", 96, &[a, b, r[0], r[1]], 0x2000))
        }),
        ds(EXE, "exe-signature-tails", |ch| {
            let s: &[u8] = ch.pick(&[&b"PE"[..], b"NE", b"LE", b"LX"]);
            let k = ch.choose(2);
            let b = ch.choose(256) as u8;
            let mut x = Buf::new().b(s).z(2).0;
            x[2 + k] = b;
            v(exe(b"ZM", 64, &x, ch.pick(&[0, 0x2000])))
        }),
        ds(EXE, "exe-lengths", |ch| {
            // All short files, with every address.
            let len = ch.range(2, 100);
            let at = ch.choose(101) as u64;
            let x = exe(b"MZ", 100, b"PE\0\0", 0x2000);
            let mut y = x[..len].to_vec();
            for (i, b) in le4(at).iter().enumerate() {
                if let Some(p) = y.get_mut(60 + i) {
                    *p = *b;
                }
            }
            v(y)
        }),
    ]
}

// ---------------------------------------------------------------- ID3v2

fn id3_spaces(l: u8) -> Vec<DS> {
    let tails: [&[u8]; 14] = [
        b"fLaC\0\0\0\x22", b"\xFF\xFB\x90\0", b"\xFF\xE3\x90\0", b"", b"f", b"\xFF", b"fLa", b"ID", b"ID3\x03\0\0\0\0\0", b"TAG", b"\0\0fLaC", b"\xFF\xFF\xFB",
        b"fLaC", b"\xFF\xF2",
    ];
    let depth = 3 + (l >= 2) as usize;
    vec![
        ds(ID3, "id3-chains", move |ch| {
            let n = ch.range(1, depth);
            let mut x = Buf::new();
            for i in 0..n {
                let ver = if i == 0 { ch.pick(&[3u8, 2, 4]) } else { ch.pick(&[3u8, 4, 0, 255]) };
                let few = n == 4;
                let flags = ch.pick(if few { &[0u8, 0x10, 0x50] } else { &[0, 0x10, 0x40, 0x80, 0x50][..] });
                let size = ch.pick(if few { &[0usize, 10, 128] } else { &[0, 1, 10, 127, 128][..] });
                x = x.b(id3(ver, flags, size));
            }
            v(x.b(ch.pick(&tails)).0)
        }),
        ds(ID3, "id3-flags", move |ch| {
            let flags = ch.choose(256) as u8;
            let ver = ch.pick(&[2u8, 3, 4]);
            let rev = ch.pick(&[0u8, 1, 255]);
            let mut x = id3(ver, flags, ch.pick(&[0usize, 10, 20]));
            x[4] = rev;
            v(Buf(x).b(ch.pick(&tails)).0)
        }),
        ds(ID3, "id3-tail-pairs", |ch| {
            let (a, b) = (ch.choose(256) as u8, ch.choose(256) as u8);
            v(Buf(id3(3, 0, 2)).b([a, b]).b(ch.pick(&[&b""[..], b"\x90"])).0)
        }),
        ds(ID3, "id3-tail-flac", |ch| {
            let mut f = b"fLaC".to_vec();
            let i = ch.choose(4);
            f[i] = ch.choose(256) as u8;
            v(Buf(id3(4, ch.pick(&[0, 0x10]), 3)).b(f).0)
        }),
        ds(ID3, "id3-sizes", move |ch| {
            // Every size around the byte boundaries; the audio is where the size says, or off by a little.
            let base = ch.pick(&[0i64, 127, 128, 255, 256, 16383, 16384, 16385, 32768, 65536]);
            let size = base + ch.choose(5) as i64 - 2;
            if size < 0 {
                return None;
            }
            let off = ch.choose(23) as i64 - 11;
            let at = 10 + size + off;
            if at < 10 {
                return None;
            }
            let flags = ch.pick(&[0u8, 0x10]);
            let tail = ch.pick(&tails[..3]);
            v(Buf(id3_head(4, flags, size as u64)).to(at as usize, 0).b(tail).z(12).0)
        }),
        ds(ID3, "id3-size-bytes", |ch| {
            // The top bit of each size byte is ignored.
            let k = ch.choose(4);
            let b = ch.choose(256) as u8;
            let mut x = id3_head(3, 0, 0);
            x[6 + k] = b;
            let n = ((b & 0x7F) as usize) << (7 * (3 - k));
            if n > 1 << 20 {
                return Some(Doc::from(x).put_len(10 + n as u64 + 4).put(10 + n as u64, b"fLaC"));
            }
            v(Buf(x).z(n).b(b"fLaC").0)
        }),
        ds(ID3, "id3-limit", |ch| {
            let n = ch.choose(261);
            let size = ch.pick(&[0usize, 3]);
            v(Buf::new().b(id3(3, 0, size).repeat(n)).b(ch.pick(&[&b"fLaC"[..], b"\xFF\xFB", b""])).0)
        }),
        ds(ID3, "id3-short-tails", |ch| {
            // Fewer than ten bytes behind the tag.
            let n = ch.choose(12);
            let t: &[u8] = ch.pick(&[&b"fLaC........"[..], b"\xFF\xFB..........", b"ID3\x03\0\0\0\0\0\0fLaC", b"............"]);
            let flags = ch.pick(&[0u8, 0x10]);
            v(Buf(id3(3, flags, 4)).b(&t[..n.min(t.len())]).0)
        }),
        ds(ID3, "id3-inner", |ch| {
            // The tag content is not searched.
            let inner: &[u8] = ch.pick(&[&b"fLaC"[..], b"\xFF\xFB\x90\0", b"ID3\x03\0\0\0\0\0\0fLaC"]);
            let pad = ch.choose(6);
            let ext = ch.pick(&[0u8, 0x40, 0x80]);
            let n = pad + inner.len();
            v(Buf(id3_head(3, ext, n as u64)).z(pad).b(inner).b(ch.pick(&[&b"........."[..], b"fLaC....", b"\xFF\xFA"])).0)
        }),
        ds(ID3, "id3-between", |ch| {
            // Something between the tags and the audio: the audio is not right behind the tags.
            let between: Vec<u8> = match ch.choose(12) {
                0 => vec![0; ch.range(1, 40)],
                1 => b"3DI\x04\0\0\0\0\0\0".to_vec(),
                2 => Buf::new().b(b"APETAGEX").b(le4(2000)).b(le4(32)).b(le4(0)).b(le4(0)).z(8).0,
                3 => Buf::new().b(b"TAG").fill(125, b' ').0,
                4 => b"LYRICSBEGIN".to_vec(),
                5 => b"RIFF\0\0\0\0WAVEfmt ".to_vec(),
                6 => b"OggS".to_vec(),
                7 => vec![0xFF; ch.range(1, 9)],
                8 => b"ID3".to_vec(),
                9 => b"id3\x03\0\0\0\0\0\0".to_vec(),
                10 => b"\xEF\xBB\xBF".to_vec(),
                _ => vec![],
            };
            let tail = ch.pick(&[&b"fLaC\0\0\0\x22........"[..], b"\xFF\xFB\x90\0........", b"\xFF\xE2\x90\0........", b"ID3\x03\0\0\0\0\0\0fLaC"]);
            let x = id3(ch.pick(&[2, 3, 4]), ch.pick(&[0u8, 0x10]), ch.pick(&[0usize, 30]));
            v(Buf(x).b(between).b(tail).0)
        }),
        ds(ID3, "id3-next-magic", |ch| {
            // A second tag whose magic has any byte changed.
            let mut x = id3(3, 0, 6);
            let i = ch.choose(6);
            x[i] = ch.choose(256) as u8;
            v(Buf(id3(3, 0, 1)).b(x).b(b"fLaC").0)
        }),
    ]
}

// ---------------------------------------------------------------- MP4

fn mp4_spaces(l: u8) -> Vec<DS> {
    let depth = 4 + l as usize;
    let item = |k: usize| -> Vec<u8> {
        match k {
            0 => hdlr(b"vide"),
            1 => hdlr(b"soun"),
            2 => hdlr(b"sbtl"),
            3 => mp4_box(b"moov", &[]),
            4 => mp4_box(b"free", &hdlr(b"vide")),
            5 => mp4_box64(b"mdat", &hdlr(b"vide")),
            6 => mp4_box64(b"moov", &[]),
            7 => mp4_box64(b"hdlr", &hdlr_payload(b"vide")),
            8 => mp4_box64(b"hdlr", &hdlr_payload(b"soun")),
            9 => mp4_box(b"trak", &[]),
            10 => mp4_box(b"mdia", &[]),
            11 => hdlr(b"meta"),
            12 => hdlr(b"subt"),
            13 => hdlr(b"text"),
            14 => mp4_box(b"udta", &mp4_box(b"meta", &hdlr(b"vide"))),
            15 => mp4_box64(b"trak", &[]),
            _ => mp4_box64(b"mdia", &[]),
        }
    };
    vec![
        ds(MP4, "mp4-sequences", move |ch| {
            let n = ch.choose(depth + 1);
            let b: Vec<u8> = (0..n).flat_map(|_| item(ch.choose(17))).collect();
            v(Buf(ftyp(b"mp42")).b(b).0)
        }),
        ds(MP4, "mp4-mixed", move |ch| {
            // Boxes of every kind in every shape (with a rest that looks like a box, too short for what they hold, of odd length) after and before any other.
            let k = |i: usize| -> Vec<u8> {
                let rest = |kind: &[u8], r: &[u8]| Buf(hdlr_payload(kind)).b(r).0;
                match i {
                    0 => hdlr(b"vide"),
                    1 => hdlr(b"soun"),
                    2 => hdlr(b"sbtl"),
                    3 => hdlr(b"meta"),
                    4 => mp4_box(b"hdlr", &rest(b"soun", &hdlr(b"vide"))),
                    5 => mp4_box(b"hdlr", &Buf(rest(b"text", &hdlr(b"soun"))).z(1).0),
                    6 => mp4_box64(b"hdlr", &rest(b"tmcd", &hdlr(b"vide"))),
                    7 => mp4_box64(b"hdlr", &rest(b"vide", &[])),
                    8 => mp4_box64(b"hdlr", &rest(b"subt", &hdlr(b"soun"))),
                    9 => mp4_box(b"hdlr", &hdlr_payload(b"soun")[..12]),
                    10 => Buf::new().b(be4(12)).b(b"hdlr").z(8).b(b"soun").0,
                    11 => mp4_box(b"moov", &[]),
                    12 => mp4_box64(b"trak", &[]),
                    13 => mp4_box(b"mdia", &[0; 3]),
                    14 => mp4_box(b"free", &[0]),
                    15 => mp4_box(b"free", &hdlr(b"vide")),
                    16 => mp4_box64(b"mdat", &hdlr(b"vide")),
                    17 => mp4_box(b"udta", &mp4_box(b"meta", &hdlr(b"vide"))),
                    18 => mp4_box(b"skip", &[]),
                    _ => Buf::new().b(be4(0)).b(b"mdat").b(hdlr(b"soun")).0,
                }
            };
            let n = ch.choose(4 + l as usize);
            v(Buf(ftyp(b"mp42")).b((0..n).flat_map(|_| k(ch.choose(20))).collect::<Vec<u8>>()).0)
        }),
        ds(MP4, "mp4-tracks", move |ch| {
            let n = ch.choose(4 + l as usize);
            let kinds: [&[u8]; 7] = [b"vide", b"soun", b"sbtl", b"subt", b"text", b"hint", b"meta"];
            let wide = ch.choose(8);
            let bx = |k: usize, n: &[u8], p: &[u8]| if wide >> k & 1 == 1 { mp4_box64(n, p) } else { mp4_box(n, p) };
            let mut b = mp4_box(b"mvhd", &[0; 20]);
            for _ in 0..n {
                let h = bx(0, b"hdlr", &hdlr_payload(ch.pick(&kinds)));
                b.extend(bx(1, b"trak", &Buf(mp4_box(b"tkhd", &[1; 8])).b(mp4_box(b"mdia", &Buf(mp4_box(b"mdhd", &[2; 4])).b(h).b(mp4_box(b"minf", &hdlr(b"vide"))).0)).0));
            }
            let before = ch.flag();
            let moov = bx(2, b"moov", &b);
            let mdat = mp4_box(b"mdat", &[9; 33]);
            v(if before { Buf(ftyp(b"mp41")).b(mdat).b(moov).0 } else { Buf(ftyp(b"mp41")).b(moov).b(mdat).0 })
        }),
        ds(MP4, "mp4-handler-bytes", |ch| {
            // Every other byte of a handler, and of the brand, whatever the kind.
            let kind: &[u8] = ch.pick(&[&b"vide"[..], b"soun", b"sbtl", b"subt", b"text", b"meta"]);
            let mut p = hdlr_payload(kind);
            let i = ch.choose(p.len());
            if (8..12).contains(&i) {
                return None;
            }
            p[i] = ch.choose(256) as u8;
            let b = if ch.flag() { mp4_box64(b"hdlr", &p) } else { mp4_box(b"hdlr", &p) };
            v(Buf(ftyp(ch.pick(&[b"mp41", b"mp42"]))).b(b).b(ch.pick(&[vec![], hdlr(b"text")])).0)
        }),
        ds(MP4, "mp4-box-sizes", |ch| {
            // A box of any declared size, with a handler at its true end.
            let kind: &[u8] = ch.pick(&[&b"free"[..], b"hdlr", b"moov", b"mdat"]);
            let wide = ch.flag();
            let size = if ch.flag() { ch.pick(&BIG[..]) } else { ch.choose(90) as u64 };
            if !wide && size > 0xFFFF_FFFF {
                return None;
            }
            let mut b = if wide { Buf::new().b(be4(1)).b(kind).b(be8(size)) } else { Buf::new().b(be4(size)).b(kind) };
            b = b.b(hdlr_payload(b"soun"));
            let tail = ch.choose(3);
            v(Buf(ftyp(b"mp42")).b(b.0).b(match tail {
                0 => vec![],
                1 => hdlr(b"vide"),
                _ => mp4_box(b"moov", &hdlr(b"text")),
            }).0)
        }),
        ds(MP4, "mp4-sizes-near-the-largest", |ch| {
            // Such a size leads beyond the end, never back into a box that was skipped.
            let a = ch.pick(&[mp4_box(b"free", &hdlr(b"vide")), mp4_box64(b"mdat", &mp4_box(b"trak", &hdlr(b"sbtl")))]);
            let back = ftyp(b"mp42").len() + a.len() + 40;
            let kind: &[u8] = ch.pick(&[&b"free"[..], b"hdlr", b"moov"]);
            let size = 0u64.wrapping_sub(ch.choose(back) as u64);
            let b = Buf::new().b(be4(1)).b(kind).b(be8(size)).b(hdlr_payload(b"soun")).0;
            v(Buf(ftyp(b"mp42")).b(a).b(b).b(hdlr(b"text")).0)
        }),
        ds(MP4, "mp4-first-box", |ch| {
            // The size of the file type box decides where the boxes begin.
            let size = if ch.flag() { ch.pick(&BIG[..]) } else { ch.choose(120) as u64 };
            if size > 0xFFFF_FFFF {
                return None;
            }
            let at = ch.pick(&[8usize, 12, 16, 17, 24, 64]);
            let k: &[u8] = ch.pick(&[&b"vide"[..], b"soun"]);
            v(Buf::new().b(be4(size)).b(b"ftypmp42").to(at.max(12), 0).b(hdlr(k)).0)
        }),
        ds(MP4, "mp4-opaque-boxes", |ch| {
            // Boxes of every other kind are not entered, wherever they are.
            let name = ch.pick(&MP4_BOXES).as_bytes();
            let pad = ch.pick(&[0usize, 4, 8, 16]);
            let trak = mp4_box(b"trak", &mp4_box(b"mdia", &hdlr(b"vide")));
            let inner = match ch.choose(4) {
                0 => hdlr(b"vide"),
                1 => trak,
                2 => mp4_box(b"moov", &trak),
                _ => hdlr_payload(b"vide"),
            };
            let p = Buf::new().z(pad).b(inner).0;
            let o = if ch.flag() { mp4_box64(name, &p) } else { mp4_box(name, &p) };
            let h = if ch.flag() { hdlr(b"soun") } else { vec![] };
            let m = mp4_box(b"moov", &mp4_box(b"trak", &mp4_box(b"mdia", &h)));
            v(Buf(ftyp(b"mp42")).b(match ch.choose(6) {
                0 => Buf(o).b(m).0,
                1 => Buf(m).b(o).0,
                2 => mp4_box(b"moov", &Buf(o).b(mp4_box(b"trak", &mp4_box(b"mdia", &h))).0),
                3 => mp4_box(b"moov", &mp4_box(b"trak", &Buf(o).b(mp4_box(b"mdia", &h)).0)),
                4 => mp4_box(b"moov", &mp4_box(b"trak", &mp4_box(b"mdia", &Buf(o).b(h).0))),
                _ => mp4_box(b"moov", &mp4_box(b"trak", &mp4_box(b"mdia", &Buf(h).b(o).0))),
            }).0)
        }),
        ds(MP4, "mp4-handler-kinds", |ch| {
            // Every known handler, alone and with another.
            let k = ch.pick(&MP4_HANDLERS).as_bytes();
            let other = ch.pick(&[&b""[..], b"soun", b"sbtl", b"vide", b"hint"]);
            let tr = |k: &[u8]| if k.is_empty() { vec![] } else { mp4_box(b"trak", &mp4_box(b"mdia", &hdlr(k))) };
            let order = ch.flag();
            let b = if order { Buf(tr(k)).b(tr(other)).0 } else { Buf(tr(other)).b(tr(k)).0 };
            v(Buf(ftyp(b"mp42")).b(mp4_box(b"moov", &b)).0)
        }),
        ds(MP4, "mp4-handler-fields", |ch| {
            // Only the handler type counts, not the other fields of the handler box; QuickTime writes a component type.
            let pre: &[u8] = ch.pick(&[&b"mhlr"[..], b"dhlr", b"\0\0\0\0", b"vide", b"\xFF\xFF\xFF\xFF"]);
            let full: &[u8] = ch.pick(&[&[0u8; 4][..], &[1, 0, 0, 1], b"soun"]);
            let k: &[u8] = ch.pick(&[&b"vide"[..], b"soun", b"sbtl", b"alis", b"\0\0\0\0"]);
            let post: &[u8] = ch.pick(&[&[0u8; 13][..], b"appl\0\0\0\0\0\0\0\0\0", b"videvidevidevide", b""]);
            let h = mp4_box(b"hdlr", &Buf::new().b(full).b(pre).b(k).b(post).0);
            v(Buf(ftyp(b"mp41")).b(mp4_box(b"moov", &mp4_box(b"trak", &mp4_box(b"mdia", &h)))).b(mp4_box(b"mdat", &[5; 9])).0)
        }),
        ds(MP4, "mp4-handler-bytes", |ch| {
            let mut k: Vec<u8> = ch.pick(&[&b"vide"[..], b"soun", b"sbtl", b"subt", b"text"]).to_vec();
            let i = ch.choose(4);
            k[i] = ch.choose(256) as u8;
            v(Buf(ftyp(b"mp42")).b(mp4_box(b"moov", &mp4_box(b"trak", &mp4_box(b"mdia", &hdlr(&k))))).0)
        }),
        ds(MP4, "mp4-kind-bytes", |ch| {
            let mut k: Vec<u8> = ch.pick(&[&b"moov"[..], b"trak", b"mdia", b"hdlr"]).to_vec();
            let name = k.clone();
            let i = ch.choose(4);
            k[i] = ch.choose(256) as u8;
            let inner = if name == b"hdlr" { hdlr_payload(b"vide") } else { hdlr(b"vide") };
            v(Buf(ftyp(b"mp42")).b(mp4_box(&k, &inner)).b(hdlr(b"soun")).0)
        }),
        ds(MP4, "mp4-limit", |ch| {
            let n = ch.choose(261);
            let fill = match ch.choose(3) {
                0 => mp4_box(b"free", &[]),
                1 => mp4_box(b"trak", &[]),
                _ => mp4_box64(b"skip", &[1]),
            };
            let first = if ch.flag() { hdlr(b"soun") } else { vec![] };
            v(Buf(ftyp(b"mp42")).b(first).b(fill.repeat(n)).b(hdlr(b"vide")).0)
        }),
        ds(MP4, "mp4-tails", |ch| {
            // Bytes that do not make a box, at the end.
            let k: &[u8] = ch.pick(&[&b"vide"[..], b"soun", b"text", b"meta"]);
            let n = ch.choose(20);
            let b = ch.pick(&[0u8, 1, b'a', 0xFF]);
            v(Buf(ftyp(b"mp42")).b(mp4_box(b"moov", &hdlr(k))).fill(n, b).0)
        }),
        ds(MP4, "mp4-brands", |ch| {
            let alts: Vec<_> = crate::sigtable::SIGS.iter().filter(|s| s.2.iter().any(|a| a.len() == 1 && a[0].0 == 4 && a[0].1.starts_with(b"ftyp"))).flat_map(|s| s.2.iter()).filter(|a| a[0].0 == 4).collect();
            let a = alts[ch.choose(alts.len())];
            let mut brand = a[0].1[4..].to_vec();
            brand.resize(4, b' ');
            let k: &[u8] = ch.pick(&[&b"vide"[..], b"soun", b"sbtl", b"none"]);
            v(Buf(ftyp(&brand)).b(mp4_box(b"moov", &hdlr(k))).0)
        }),
    ]
}

/// Boxes that are not entered, some of which contain others by the specifications.
pub const MP4_BOXES: [&str; 96] = [
    "ftyp", "styp", "sidx", "pdin", "free", "skip", "wide", "mdat", "uuid", "udta", "meta", "minf", "stbl", "dinf", "dref", "edts", "elst", "moof", "traf", "tfhd", "trun", "mvex",
    "trex", "mehd", "mfra", "tfra", "mfro", "mvhd", "tkhd", "mdhd", "vmhd", "smhd", "nmhd", "hmhd", "sthd", "stsd", "stts", "stsc", "stsz", "stco", "co64", "ctts", "stss", "sbgp",
    "sgpd", "iprp", "ipco", "ipma", "ipro", "sinf", "schi", "schm", "frma", "tref", "trgr", "ilst", "wave", "gmhd", "gmin", "strk", "stri", "strd", "meco", "mere", "iods", "pssh",
    "iinf", "iloc", "pitm", "iref", "idat", "grpl", "cprt", "titl", "auth", "kind", "tsel", "clip", "crgn", "matt", "kmat", "imap", "load", "cmov", "dcom", "cmvd", "rmra", "rmda",
    "mvcn", "jp2c", "elng", "ludt", "alis", "----", "\0\0\0\0", "hdlx",
];
pub const MP4_HANDLERS: [&str; 40] = [
    "vide", "soun", "sbtl", "subt", "text", "hint", "meta", "auxv", "pict", "tmcd", "clcp", "mdir", "mdta", "subp", "sdsm", "odsm", "crsm", "m7sm", "ocsm", "ipsm", "mjsm", "camm",
    "null", "alis", "url ", "qtvr", "twen", "nmhd", "priv", "fdsm", "volm", "hapt", "cldm", "VIDE", "Soun", "soum", "text\0", "TEXT", "capt", "\0\0\0\0",
];

// ---------------------------------------------------------------- marker search: PDF, SQLite, XML

/// Surroundings that are hard for a substring search: partial markers before, after and instead of the marker.
fn marker_space(bit: u16, name: &str, head: Vec<u8>, markers: Vec<Vec<u8>>) -> DS {
    ds(bit, name, move |ch| {
        let m = markers[ch.choose(markers.len())].clone();
        let n = m.len();
        match ch.choose(5) {
            0 => {
                // Prefix of any length, then any other, then the whole marker, then a suffix.
                let (i, j) = (ch.choose(n), ch.choose(n));
                let s = ch.choose(n);
                v(Buf(head.clone()).b(&m[..i]).b(&m[..j]).b(&m).b(&m[s..]).0)
            }
            1 => {
                // No whole marker: two overlapping parts, one byte missing at any place.
                let i = ch.choose(n);
                let k = ch.choose(n);
                v(Buf(head.clone()).b(&m[..i]).b(&m[i + 1..]).b(&m[..k]).b(&m[(k + 1).min(n)..]).0)
            }
            2 => {
                // One byte changed.
                let i = ch.choose(n);
                let mut x = m.clone();
                x[i] = ch.choose(256) as u8;
                let pre = ch.choose(n);
                v(Buf(head.clone()).b(&m[..pre]).b(x).0)
            }
            3 => {
                // Fill with each byte of the marker, at every alignment.
                let b = m[ch.choose(n)];
                let k = ch.choose(2 * n + 2);
                let e = ch.choose(n + 1);
                v(Buf(head.clone()).fill(k, b).b(&m).fill(e, b).0)
            }
            _ => {
                // Cut at every place.
                let k = ch.choose(n + 1);
                let pad = ch.choose(40);
                v(Buf(head.clone()).fill(pad, b' ').b(&m[..k]).0)
            }
        }
    })
}

/// The marker at any given position of a filled content, whole or cut by the end.
fn at(head: &[u8], pos: usize, m: &[u8], tail: usize, fill: u8) -> Option<Doc> {
    if pos < head.len() {
        return None;
    }
    v(Buf(head.to_vec()).to(pos, fill).b(m).fill(tail, fill).0)
}

fn pdf_spaces(l: u8) -> Vec<DS> {
    let t = l > 0;
    let head = b"%PDF-".to_vec();
    let (h1, h2) = (head.clone(), head.clone());
    let mut s = vec![
        marker_space(PDF, "pdf-marker-surroundings", head.clone(), vec![AI.to_vec()]),
        ds(PDF, "pdf-marker-positions", move |ch| {
            let near = ch.flag();
            let pos = if near { 5 + ch.choose(600) } else { ch.pick(&[1usize, 2, 3]) * 32768 + 5 - 40 + ch.choose(80) };
            let tail = ch.pick(&[0usize, 1, 40, 32768]);
            let fill = ch.pick(&[b' ', b'A', b'a']);
            at(&h1, pos, AI, tail, fill)
        }),
        ds(PDF, "pdf-marker-power-positions", move |ch| {
            // Around every multiple of 512 up to 128 KiB.
            let pos = 512 * ch.range(1, 256) + ch.choose(28) - 20;
            at(&h2, pos, AI, ch.pick(&[0, 100]), b'P')
        }),
    ];
    let h3 = head.clone();
    s.push(ds(PDF, "pdf-marker-limit", move |ch| {
        // Around chunk boundaries far away and around the 32 MiB limit; the content may end right there.
        let k = match l {
            0 => ch.pick(&[31usize, 512, 1023, 1024]),
            1 if ch.flag() => ch.range(1, 64),
            1 => ch.pick(&[128, 512, 1000, 1022, 1023, 1024, 1025]),
            _ => ch.range(1, 1025),
        };
        let d = ch.choose(32);
        let pos = (5 + 32768 * k + d - 18) as u64;
        let tail = ch.pick(&[0u64, 40_000]);
        Some(Doc::sparse(pos + 13 + tail, 0x20).put(0, &h3).put(pos, AI))
    }));
    if t {
        let h4 = head;
        s.push(ds(PDF, "pdf-marker-all-positions", move |ch| at(&h4, 5 + ch.choose(70_000), AI, 20, b'i')));
    }
    s
}

fn sql_spaces(l: u8) -> Vec<DS> {
    let t = l > 0;
    let h = sqlite(100, 0);
    let h0 = h.clone();
    let mut s = vec![
        marker_space(SQL, "sqlite-marker-surroundings", h.clone(), vec![SKETCH.to_vec()]),
        ds(SQL, "sqlite-marker-positions", move |ch| {
            let pos = 16 + ch.choose(32768 + 100 + 60);
            let tail = ch.pick(&[0usize, 50]);
            at(b"SQLite format 3\0", pos, SKETCH, tail, b'o')
        }),
        ds(SQL, "sqlite-marker-two", move |ch| {
            // A broken marker first, a whole one later.
            let i = ch.choose(SKETCH.len());
            let mut m = SKETCH.to_vec();
            m[i] ^= ch.pick(&[1u8, 0x20, 0x40]);
            let gap = ch.choose(60);
            v(Buf(h0.clone()).b(m).fill(gap, b'c').b(SKETCH).0)
        }),
    ];
    if t {
        s.push(ds(SQL, "sqlite-marker-cuts", move |ch| {
            let pos = 16 + ch.choose(32768 + 100 + 60);
            let cut = ch.choose(SKETCH.len() + 1);
            at(b"SQLite format 3\0", pos, &SKETCH[..cut], 0, b'.')
        }));
    }
    s
}

fn xml_marker_list() -> Vec<Vec<u8>> {
    let mut m: Vec<Vec<u8>> = vec![];
    for (_, ms) in XML_MARKERS {
        for x in *ms {
            let b = x.as_bytes().to_vec();
            if !m.contains(&b) {
                m.push(b);
            }
        }
    }
    m
}

fn xml_spaces(l: u8) -> Vec<DS> {
    let t = l > 0;
    let ms = Arc::new(xml_marker_list());
    let head = b"<?xml version='1.0'?>".to_vec();
    let full: Vec<Vec<u8>> = XML_MARKERS.iter().map(|(_, m)| m.join(" ").into_bytes()).collect();
    let full = Arc::new(full);
    let (a, b, c, d, f1, f2) = (ms.clone(), ms.clone(), ms.clone(), ms.clone(), full.clone(), full.clone());
    let mut s = vec![
        marker_space(XML, "xml-marker-surroundings", head.clone(), full.to_vec()),
        marker_space(XML, "xml-bom-marker-surroundings", b"\xEF\xBB\xBF<?xml?>".to_vec(), ms.to_vec()),
        ds(XML, "xml-marker-positions", move |ch| {
            let m = &f1[ch.choose(f1.len())];
            let fine = ch.flag();
            let pos = if fine { 5 + ch.choose(300) } else { 8192 + 5 - 80 + ch.choose(90) };
            let head: &[u8] = ch.pick(&[&b"<?xml"[..], b"\xEF\xBB\xBF<?xml"]);
            at(head, pos, m, ch.pick(&[0, 30]), ch.pick(b" <"))
        }),
        ds(XML, "xml-marker-pairs", move |ch| {
            // Every pair of markers in both orders, at small and large distance.
            let (x, y) = (a[ch.choose(a.len())].clone(), a[ch.choose(a.len())].clone());
            let gap = ch.pick(&[1usize, 0, 100, 8000]);
            v(Buf(b"<?xml?>".to_vec()).b(&x).fill(gap, b' ').b(&y).b(b">").0)
        }),
        ds(XML, "xml-marker-combinations", move |ch| {
            // Two whole formats and one loose marker.
            let x = ch.pick(&f2[..]);
            let y = ch.pick(&f2[..]);
            let z = ch.pick(&["<tt", "<uof:UOF", "xmlns=\"http://www.w3.org/ns/ttml\"", "uof:mimetype=\"vnd.uof.text\"", "<math"]);
            v(Buf(b"<?xml?>".to_vec()).b(z).b(b" ").b(&x).b(b" ").b(&y).0)
        }),
        ds(XML, "xml-marker-case", move |ch| {
            // The case of any single letter, and of all.
            let mut m = b[ch.choose(b.len())].clone();
            let k = ch.choose(m.len() + 2);
            if k == m.len() {
                m.make_ascii_uppercase();
            } else if k == m.len() + 1 {
                m.make_ascii_lowercase();
            } else {
                m[k] ^= 0x20;
            }
            let extra = ch.pick(&["", "<tt", "<uof:UOF", "<uof:UOF uof:mimetype=\"vnd.uof.text\""]);
            v(Buf(b"<?xml?>".to_vec()).b(extra).b(b" ").b(m).0)
        }),
        ds(XML, "xml-split-markers", move |ch| {
            // A marker split by any byte at any place.
            let m = c[ch.choose(c.len())].clone();
            let k = 1 + ch.choose(m.len() - 1);
            let b = ch.pick(&[0u8, b' ', b'<', b'\n', 0xFF]);
            v(Buf(b"<?xml?>".to_vec()).b(&m[..k]).b([b]).b(&m[k..]).0)
        }),
        ds(XML, "xml-without-declaration", move |ch| {
            // Markers without the XML signature: only the signature table decides.
            let m = &d[ch.choose(d.len())];
            let pre: &[u8] = ch.pick(&[&b""[..], b"\xEF\xBB\xBF", b" ", b"<?xm", b"<?XML?>", b"\n<?xml?>", b"<!-- -->"]);
            v(Buf(pre.to_vec()).b(m).b(b">").0)
        }),
    ];
    if t {
        let g = ms.clone();
        s.push(ds(XML, "xml-marker-all-positions", move |ch| {
            let m = &g[ch.choose(g.len())];
            at(b"<?xml", 5 + ch.choose(8250), m, ch.pick(&[0, 9]), b' ')
        }));
    }
    s
}

// ---------------------------------------------------------------- RealMedia

fn rm_spaces(l: u8) -> Vec<DS> {
    let depth = 5 + l as usize;
    let alpha: Vec<Vec<u8>> = vec![
        mdpr(b"Audio", b"audio/x-pn-realaudio"),
        mdpr(b"Video", b"video/x-pn-realvideo"),
        mdpr(b"Info", b"logical-fileinfo"),
        rm_chunk(b"PROP", None, &[0; 42]),
        rm_chunk(b"CONT", None, &mdpr(b"", b"video/x")),
        rm_chunk(b"DATA", None, &[]),
        mdpr(b"", b""),
    ];
    vec![
        ds(RM, "rm-sequences", move |ch| {
            let n = ch.choose(depth + 1);
            let c: Vec<_> = (0..n).map(|_| ch.pick(&alpha)).collect();
            let h = ch.pick(&[n as u64 + 1, n as u64, n as u64 + 2, 0, 1, 0xFFFF_FFFF, 0x8000_0000]);
            v(rm(Some(h), &c))
        }),
        ds(RM, "rm-mixed", move |ch| {
            // Chunks of every kind in every shape (with a rest that looks like a chunk, too short for what they hold, of odd length) after and before any other.
            let k = |i: usize| -> Vec<u8> {
                let rest = |name: &[u8], mime: &[u8], rest: &[u8]| rm_chunk(b"MDPR", None, &Buf(mdpr_payload(name, mime)).b(rest).0);
                let long = |head: &[u8], tail: &[u8]| Buf::new().b(head).fill(255 - head.len() - tail.len(), b'/').b(tail).0;
                match i {
                    0 => mdpr(b"", b"audio/x"),
                    1 => mdpr(b"v", b"video/"),
                    2 => mdpr(b"nn", b"text"),
                    3 => rest(b"a", b"audio/", &mdpr(b"", b"video/x")),
                    4 => rest(b"", b"video/xy", &mdpr(b"q", b"audio/")),
                    5 => rest(b"o", b"logical-audio/x", &Buf(mdpr(b"", b"video/")).z(1).0),
                    6 => mdpr(&long(b"video/", b"video/"), b"audio/y"),
                    7 => mdpr(b"", &long(b"audio/", b"video/")),
                    8 => mdpr(b"", &long(b"", b"video/")),
                    9 => mdpr(&mdpr(b"", b"video/x"), b"a"),
                    10 => rm_chunk(b"MDPR", Some(8), &[]),
                    11 => rm_chunk(b"MDPR", Some(42), &mdpr_payload(b"", b"")[..34]),
                    12 => rm_chunk(b"PROP", None, &[0]),
                    13 => rm_chunk(b"CONT", None, &mdpr(b"", b"video/x")),
                    14 => rm_chunk(b"DATA", None, &[]),
                    _ => rm_chunk(b"DATA", Some(0), &[]),
                }
            };
            let n = ch.choose(4 + l as usize);
            let c: Vec<_> = (0..n).map(|_| k(ch.choose(16))).collect();
            v(rm(Some(n as u64 + ch.pick(&[1, 0, 9])), &c))
        }),
        ds(RM, "rm-name-lengths", |ch| {
            let n = ch.choose(256);
            let m = ch.pick(&[&b"video/x"[..], b"audio/x", b"audio/", b"video/", b"video", b"text/video/"]);
            let tail = ch.pick(&[&b"audio/x"[..], b"x"]);
            v(rm(None, &[mdpr(&vec![b'n'; n], m), mdpr(b"", tail)]))
        }),
        ds(RM, "rm-mime-lengths", |ch| {
            let n = ch.choose(256);
            let p: &[u8] = ch.pick(&[&b"video/"[..], b"audio/"]);
            let mut m = p.to_vec();
            m.resize(n, b'/');
            let after = ch.pick(&[&b"audio/x"[..], b"other", b"video/y"]);
            v(rm(None, &[mdpr(b"abc", &m), mdpr(b"q", after)]))
        }),
        ds(RM, "rm-mime-bytes", |ch| {
            let mut m: Vec<u8> = ch.pick(&[&b"video/x"[..], b"audio/x"]).to_vec();
            let i = ch.choose(m.len());
            m[i] = ch.choose(256) as u8;
            v(rm(None, &[mdpr(b"s", &m)]))
        }),
        ds(RM, "rm-kind-bytes", |ch| {
            let mut c = mdpr(b"s", b"video/x");
            let i = ch.choose(4);
            c[i] = ch.choose(256) as u8;
            v(rm(None, &[c, mdpr(b"t", b"audio/x")]))
        }),
        ds(RM, "rm-sizes", |ch| {
            // Any declared size, with a deciding chunk at the true end.
            let size = if ch.flag() { ch.pick(&BIG[..]) } else { ch.choose(130) as u64 };
            if size > 0xFFFF_FFFF {
                return None;
            }
            let m = ch.flag();
            let c = if m { rm_chunk(b"MDPR", Some(size), &mdpr_payload(b"st", b"audio/x")) } else { rm_chunk(b"PROP", Some(size), &mdpr(b"in", b"audio/x")) };
            let h = ch.pick(&[3u64, 70]);
            v(rm(Some(h), &[c, mdpr(b"", b"video/x")]))
        }),
        ds(RM, "rm-limit", |ch| {
            let n = ch.choose(71);
            let first = if ch.flag() { vec![mdpr(b"", b"audio/x")] } else { vec![] };
            let mut c = first;
            c.extend(vec![rm_chunk(b"CONT", None, &[]); n]);
            c.push(mdpr(b"", b"video/x"));
            let h = ch.pick(&[None, Some(63), Some(64), Some(65), Some(66), Some(0xFFFF_FFFF)]);
            v(rm(h, &c))
        }),
        ds(RM, "rm-opaque-chunks", |ch| {
            // Chunks of every other kind are not read as media properties.
            let k: &[u8] = ch.pick(&[&b"PROP"[..], b"CONT", b"DATA", b"INDX", b"RJMD", b"RMMD", b".RMF", b"MDPS", b"mdpr", b"MDPR", b"RMJE", b"MLTI", b".ra\xFD", b"TAG\0"]);
            let c = rm_chunk(k, None, &mdpr_payload(b"n", ch.pick(&[&b"video/x"[..], b"audio/x", b"audio/video/x"])));
            let nested = rm_chunk(k, None, &mdpr(b"n", b"video/x"));
            let a = mdpr(b"a", ch.pick(&[&b"audio/y"[..], b"logical-audio/", b"x-audio/x", b" video/x"]));
            v(rm(None, &match ch.choose(4) {
                0 => vec![c],
                1 => vec![c, a],
                2 => vec![a, c],
                _ => vec![nested, a],
            }))
        }),
        ds(RM, "rm-lying-lengths", |ch| {
            // Name and media type lengths that lie.
            let mut c = mdpr(b"name", b"video/x-rv");
            c[40] = ch.choose(256) as u8;
            c[45] = ch.pick(&[0u8, 5, 6, 7, 10, 11, 60, 200, 255]);
            v(rm(None, &[c, mdpr(b"", b"audio/x"), rm_chunk(b"DATA", None, &[1; 100])]))
        }),
    ]
}

// ---------------------------------------------------------------- ZIP

/// Names that decide, one or more per rule.
pub fn zip_names() -> Vec<String> {
    let mut n: Vec<String> = ZIP_NAMES.iter().map(|x| x.0.to_string()).collect();
    for (d, _) in ZIP_DIRS {
        n.push(d.to_string());
        n.push(format!("{d}a.xml"));
    }
    n.extend(["book.fb2", ".fb2", "Payload/x.app/Info.plist", "Payload/.app/", "Documents/1/Pages/1.fpage", "Documents/.fpage",
        "3D/3dmodel.model", "3D/.model", "a.usd", "a.usda", "a.usdc", ".usd"].map(String::from));
    n
}
/// Names that do not decide but nearly do.
pub fn zip_near() -> Vec<Vec<u8>> {
    ["dir/book.fb2", "book.fb2x", "book.fb", "Payload/", "Payload/x.app", "payload/x.app/", "x/Payload/y.app/", "Documents/1.fpag", "documents/1.fpage",
        "Document/1.fpage", "3d/a.model", "3D/a.modelx", "3Da.model", "dir/a.usd", "a.usdz", "usd", "word", "Word/x", "x/word/y", "words/x", "META-INF/manifest.mf",
        "META-INF/", "mimetypes", "mimetype ", "Mimetype", "WEB-INF/web.xmlx", "/doc.kml", "doc.kml/", "doc.kmz", "xl", "xl\\a", "visio", "ppt", "dwf", "SpaceClaim",
        "circuitdiagram", "Fusion[Active]", "FusionAssetName[Active]", "FusionAssetName/", "AppxManifest.xm", "canvas.fig2", "document.jso", "[Content_Types].xml", "", "/", "a"]
        .iter().map(|s| s.as_bytes().to_vec())
        .chain([b"word\xFF/".to_vec(), b"\xFFword/".to_vec(), b"xl/\xFF\xFE".to_vec(), b"\xFF.usd".to_vec(), b"a\0.fb2".to_vec()])
        .collect()
}
const MANIFEST: &str = "META-INF/MANIFEST.MF";

fn zip_spaces(l: u8) -> Vec<DS> {
    let names: Arc<Vec<Vec<u8>>> = Arc::new(zip_names().into_iter().map(|s| s.into_bytes()).collect());
    let near = Arc::new(zip_near());
    let mut all: Vec<Vec<u8>> = names.to_vec();
    all.extend(near.iter().cloned());
    all.push(MANIFEST.as_bytes().to_vec());
    all.push(b"mimetype".to_vec());
    let all = Arc::new(all);
    let reduced: Arc<Vec<Ent>> = Arc::new(vec![
        ent("a.txt"), ent(MANIFEST), ent("word/document.xml"), ent("WEB-INF/web.xml"), mime_ent("application/epub+zip"), mime_ent("text/plain"),
        Ent { deflated: true, ..mime_ent("application/epub+zip") }, ent("book.fb2"), Ent { extra: 9, comment: 5, ..ent("dir/b") },
        ent("Payload/a.app/x"), ent("META-INF/application.xml"), ent("[Content_Types].xml"), ent("xl/"), ent(""),
    ]);
    let depth = 3 + l as usize;
    let (a, b, c) = (all.clone(), names.clone(), reduced.clone());
    let mut s = vec![
        ds(ZIP, "zip-name-pairs", move |ch| {
            let n = ch.range(1, 2);
            let e: Vec<_> = (0..n).map(|_| ent(&a[ch.choose(a.len())])).collect();
            v(zips(&e))
        }),
        ds(ZIP, "zip-sequences", move |ch| {
            let n = ch.choose(depth + 1);
            let e: Vec<_> = (0..n).map(|_| c[ch.choose(c.len())].clone()).collect();
            let z = ch.flag();
            v(zip(&e, &ZipOpt { zip64: z, ..Default::default() }))
        }),
        ds(ZIP, "zip-mixed", move |ch| {
            // Entries of every kind in every shape (with rests that look like entries, of odd lengths) after and before any other, in both directories.
            let k = |i: usize| -> Ent {
                let m = |x: &str| mime_ent(x);
                match i {
                    0 => ent("a"),
                    1 => ent(MANIFEST),
                    2 => m("application/epub+zip"),
                    3 => Ent { local_extra: 3, ..m(" image/openraster\n") },
                    4 => Ent { deflated: true, ..m("application/epub+zip") },
                    5 => m("application/epub"),
                    6 => Ent { local_name: Some(11), ..m("application/vnd.oasis.opendocument.text") },
                    7 => Ent { extra: 5, comment: 2, ..ent("dir/b.c") },
                    8 => Ent { extra: 46, ..ent("word") },
                    9 => Ent { comment: 51, ..ent("xl") },
                    10 => ent("word/document.xml"),
                    11 => ent("book.fb2"),
                    12 => ent("Payload/a.app/x"),
                    13 => ent("Documents/1/Pages/1.fpage"),
                    14 => ent("3D/3dmodel.model"),
                    15 => ent("scene.usda"),
                    16 => ent("WEB-INF/web.xml"),
                    17 => ent("META-INF/application.xml"),
                    18 => ent("AndroidManifest.xml"),
                    19 => ent("classes.dex"),
                    20 => ent("doc.kml"),
                    21 => ent("[Content_Types].xml"),
                    22 => ent(b"\xFF\xFE"),
                    _ => ent("mimetype/"),
                }
            };
            let n = ch.choose(4 + l as usize);
            let e: Vec<_> = (0..n).map(|_| k(ch.choose(24))).collect();
            v(zip(&e, &ZipOpt { zip64: ch.flag(), ..Default::default() }))
        }),
        ds(ZIP, "zip-short-names", move |ch| {
            // Every name of up to four (five) bytes over a few, many of them no characters.
            let n = ch.choose(5 + l as usize);
            let name: Vec<u8> = (0..n).map(|_| ch.pick(b".fb2/u\xC3\xA9\xFFxl")).collect();
            v(zips(&[ent(name)]))
        }),
        ds(ZIP, "zip-long-names", |ch| {
            // Long names that decide at their end or only seem to.
            let n = ch.pick(&[1usize, 2, 5, 127, 128, 255, 256, 1000, 4096, 8192, 32_767, 32_768, 65_400]);
            let fill = ch.pick(&["a", "/", "\u{e9}", "\u{1f600}", ".app/", "\\"]);
            let (pre, post) = ch.pick(&[
                ("", ".fb2"), ("", ".usd"), ("", ".usda"), ("", ".usdc"), ("Payload/", ".app/x"), ("Payload/", "x"), ("Documents/", ".fpage"), ("Documents/", ".fpag"),
                ("3D/", ".model"), ("3D/", ".mode"), ("word/", ""), ("xl/", ""), ("", "word/"), ("META-INF/MANIFEST.MF", ""), ("mimetype", ""), ("dwf/", ".fb2"),
            ]);
            let name = format!("{pre}{}{post}", fill.repeat(n / fill.len()));
            let more = if ch.flag() { vec![ent("visio/x")] } else { vec![] };
            v(zips(&[vec![ent(name)], more].concat()))
        }),
        ds(ZIP, "zip-near-names", move |ch| {
            // Every deciding name with one change at any place.
            let mut n = b[ch.choose(b.len())].clone();
            match ch.choose(6) {
                0 => {
                    let i = ch.choose(n.len());
                    n[i] ^= ch.pick(&[1u8, 2, 0x20, 0x80]);
                }
                1 => {
                    n.remove(ch.choose(n.len()));
                }
                2 => n.insert(ch.choose(n.len() + 1), ch.pick(b"/\\a \0.")),
                3 => n = Buf::new().b(ch.pick(&["a/", "/", "./", "\\", "META-INF/", "word/", "3D/", "Documents/"])).b(n).0,
                4 => n.extend_from_slice(ch.pick(&[&b"/"[..], b"x", b".xml", b" ", b"\0", b".fb2", b".usd", b".model", b".fpage", b".app/"])),
                _ => {
                    let i = ch.choose(n.len());
                    n.truncate(i);
                }
            }
            let tail = ch.pick(&["", MANIFEST, "xl/x"]);
            let mut e = vec![ent(&n)];
            if !tail.is_empty() {
                e.push(ent(tail));
            }
            v(zips(&e))
        }),
        ds(ZIP, "zip-mimetypes", |ch| {
            let m = ZIP_MIMES[ch.choose(ZIP_MIMES.len())].0;
            let pre = ch.pick(&["", " ", "\n", "\r\n", "\u{feff}", "\u{a0}", "\u{3000}", "x", "\0"]);
            let post = ch.pick(&["", " ", "\n", "\r\n", "\t\t", "\u{b}", "\u{85}", "x", "\0", "; charset=utf-8"]);
            let first = ch.flag();
            let e = Ent { deflated: ch.flag(), local_extra: ch.pick(&[0, 1, 4, 255, 256]), ..mime_ent(format!("{pre}{m}{post}")) };
            let o = ent("ppt/x");
            v(zips(&if first { vec![e, o] } else { vec![o, e] }))
        }),
        ds(ZIP, "zip-mimetype-bytes", move |ch| {
            // One change at any place of a media type.
            let mut m = ZIP_MIMES[ch.choose(ZIP_MIMES.len())].0.as_bytes().to_vec();
            match ch.choose(3) {
                0 => {
                    let i = ch.choose(m.len());
                    let o = m[i];
                    m[i] = ch.pick(&[o ^ 1, o ^ 0x20, b' ', 0xFF, 0]);
                }
                1 => {
                    m.remove(ch.choose(m.len()));
                }
                _ => m.insert(ch.choose(m.len() + 1), ch.pick(b" -.x\n")),
            }
            v(zips(&[mime_ent(m), ent("x")]))
        }),
        ds(ZIP, "zip-mimetype-sizes", |ch| {
            // White space around up to the limit, local headers with other name lengths.
            let m = ch.pick(&["application/epub+zip", "image/openraster"]);
            let n = ch.pick(&[0usize, 1, 30, 200, 229, 230, 234, 235, 236, 237, 238, 239, 240, 241, 256, 1000, 70000]);
            let before = ch.flag();
            let pad = " ".repeat(n);
            let d = if before { format!("{pad}{m}") } else { format!("{m}{pad}") };
            let e = Ent { local_name: ch.pick(&[None, Some(0), Some(7), Some(9), Some(300)]), local_extra: ch.pick(&[0, 3, 65535]), ..mime_ent(d) };
            v(zips(&[e]))
        }),
        ds(ZIP, "zip-mimetype-fields", |ch| {
            // Sizes of the entry that lie, and local headers that are elsewhere.
            let d = b"application/epub+zip";
            let mut x = zips(&[mime_ent(d), ent("xl/a")]);
            let dir = x.windows(4).position(|w| w == b"PK\x01\x02").unwrap();
            let size = ch.pick(&[20u64, 0, 1, 19, 21, 255, 256, 257, 1000, 0x7FFF_FFFF, 0xFFFF_FFFF]);
            let other = ch.pick(&[0u64, 1, 0xFFFF_FFFF]);
            x[dir + 20..dir + 24].copy_from_slice(&le4(size));
            x[dir + 24..dir + 28].copy_from_slice(&le4(size.wrapping_add(other)));
            let off = ch.pick(&[0u64, 1, 26, 30, 60, 1000, 0x7FFF_FFFF, 0xFFFF_FFFF]);
            x[dir + 42..dir + 46].copy_from_slice(&le4(off));
            v(x)
        }),
        ds(ZIP, "zip-comments", move |ch| {
            // All short comments over the bytes of the end record signature.
            let n = ch.choose(8 + l as usize);
            let c: Vec<u8> = (0..n).map(|_| ch.pick(b"PK\x05\x06x")).collect();
            let z = ch.flag();
            v(zip(&[ent("a"), ent("word/x")], &ZipOpt { comment: c, zip64: z, ..Default::default() }))
        }),
        ds(ZIP, "zip-comment-lengths", |ch| {
            let n = match ch.choose(3) {
                0 => ch.choose(120),
                1 => 65_535 - 40 + ch.choose(80),
                _ => 512 * ch.range(1, 127) - 24 + ch.choose(8),
            };
            let gap = ch.pick(&[0usize, 1, 3, 20, 65_500, 65_536, 66_000]);
            let f = ch.pick(&[b'c', b'P', 6u8]);
            v(zip(&[ent("a"), ent("visio/x")], &ZipOpt { comment: vec![f; n], gap, gap_fill: f, ..Default::default() }))
        }),
        ds(ZIP, "zip-fields", |ch| {
            // Extra fields and entry comments of any length before the deciding entry.
            let x = ch.pick(&[0usize, 1, 2, 4, 9, 28, 255, 256, 257, 32767, 32768, 65535]);
            let c = ch.pick(&[0usize, 1, 3, 255, 256, 32768, 65535]);
            let l = ch.pick(&[0usize, 1, 255, 256, 1000, 65535]);
            let z = ch.flag();
            v(zip(&[Ent { extra: x, comment: c, ..ent(vec![b'n'; l]) }, ent("canvas.fig")], &ZipOpt { zip64: z, ..Default::default() }))
        }),
        ds(ZIP, "zip-counts", |ch| {
            let n = ch.choose(4);
            let mut e = vec![ent("a"); n];
            e.push(ent("dwf/x"));
            let c = ch.pick(&[0u64, 1, 2, 3, 4, 5, 6, 255, 256, 1023, 1024, 1025, 65535, 65536, 0xFFFF_FFFF, 0x1_0000_0001, 1 << 63, u64::MAX]);
            let z = c > 65535 || ch.flag();
            v(zip(&e, &ZipOpt { count: Some(c), zip64: z, ..Default::default() }))
        }),
        ds(ZIP, "zip-limit", move |ch| {
            let n = 1 + ch.choose(1028);
            let near = (n + 2) & (n + 2).wrapping_sub(1) & (n + 1) & n & n.wrapping_sub(1) == 0;
            if l == 0 && !near && n % 10 != 0 && n < 1018 || l == 1 && !near && n % 3 != 0 && n < 1018 {
                return None;
            }
            let first = ch.pick(&["a", MANIFEST]);
            let mut e = vec![ent("b"); n];
            e[0] = ent(first);
            e.push(ch.pick(&[ent("xl/x"), ent(MANIFEST), mime_ent("image/openraster")]));
            v(zip(&e, &ZipOpt { zip64: ch.flag(), ..Default::default() }))
        }),
        ds(ZIP, "zip-declared-directory-offsets", |ch| {
            let z = ch.flag();
            let e = [ent("aa"), ent("ppt/x")];
            let base = zip(&e, &ZipOpt { zip64: z, ..Default::default() });
            let dir = base.windows(4).position(|w| w == b"PK\x01\x02").unwrap() as i64;
            let off = if ch.flag() { ch.pick(&BIG[..]) } else { (dir + ch.choose(140) as i64 - 70).max(0) as u64 };
            let e64 = if z { ch.pick(&[None, Some(0), Some(1), Some(dir as u64), Some(1 << 32), Some((1 << 63) - 33), Some((1 << 63) - 32), Some(u64::MAX - 32), Some(u64::MAX - 31), Some(u64::MAX)]) } else { None };
            v(zip(&e, &ZipOpt { zip64: z, dir_offset: Some(off), eocd64_offset: e64, ..Default::default() }))
        }),
        ds(ZIP, "zip64-records-near-the-largest", |ch| {
            // A record so far away is not there, whatever stands where its address would wrap to.
            let second = ch.pick(&["word/d", "xl/d", "doc.kml"]);
            let at = 14 + ch.choose(24) as u64;
            let mut e = [ent([0; 40]), ent(second)];
            let o = |off: u64| ZipOpt { zip64: true, eocd64_offset: Some(off), ..Default::default() };
            let base = zip(&e, &o(0));
            let dir = base.windows(4).position(|w| w == b"PK\x01\x02").unwrap() as u64;
            let far = 0u64.wrapping_sub(32).wrapping_add(at);
            let name = &mut e[0].name;
            if at >= 30 {
                name[at as usize - 30..at as usize - 22].copy_from_slice(&le8(2));
            }
            if (14..38).contains(&at) {
                name[at as usize + 16 - 30..at as usize + 24 - 30].copy_from_slice(&le8(dir));
            }
            let mut x = zip(&e, &o(if ch.flag() { far } else { u64::MAX - ch.choose(40) as u64 }));
            x[14..18].copy_from_slice(&le4(2));
            v(x)
        }),
        ds(ZIP, "zip-locators", |ch| {
            // The ZIP64 locator with any byte of its signature changed, at the start of the file or not.
            let mut x = zip(&[ent("aa"), ent("3D/a.model")], &ZipOpt { zip64: true, ..Default::default() });
            let p = x.windows(4).rposition(|w| w == b"PK\x06\x07").unwrap();
            let i = ch.choose(4);
            x[p + i] = ch.choose(256) as u8;
            v(x)
        }),
        ds(ZIP, "zip-end-only", |ch| {
            // End records at the very start: empty archives with any bytes around.
            let sig = ch.pick(&[*b"PK\x03\x04", *b"PK\x05\x06"]);
            let n = ch.choose(64);
            let c = ch.pick(&[0u64, 1, 2]);
            let off = ch.pick(&[0u64, 4, 22]);
            let z = ch.flag();
            let x = Buf::new().b(sig).z(n);
            let x = if z { x.b(b"PK\x06\x07").z(16) } else { x };
            v(x.b(b"PK\x05\x06").z(4).b(le2(c)).b(le2(c)).b(le4(0)).b(le4(off)).b(le2(0)).0)
        }),
        ds(ZIP, "zip-end-cuts", |ch| {
            // End records that are cut, doubled, or preceded by another one.
            let x = zips(&[ent("a"), ent("Documents/p.fpage")]);
            match ch.choose(3) {
                0 => v(x[..x.len() - ch.choose(30)].to_vec()),
                1 => v(Buf(x).b(b"PK\x05\x06").z(ch.choose(30)).0),
                _ => {
                    let y = zips(&[ent("xl/z")]);
                    let g = ch.choose(10);
                    v(Buf(x).z(g).b(y).0)
                }
            }
        }),
        ds(ZIP, "zip-signature-anywhere", |ch| {
            // The end record signature at every offset relative to the search window and its parts.
            let n = 65_557 - 30 + ch.choose(60);
            let at = ch.choose(40);
            let mut x = vec![b'K'; n + 60];
            x[..4].copy_from_slice(b"PK\x03\x04");
            let e = Buf::new().b(b"PK\x05\x06").z(12).b(le4(4)).b(le2(0)).0;
            let p = 4 + at;
            x[p..p + 22].copy_from_slice(&e);
            x.truncate(n);
            v(x)
        }),
    ];
    let nr = near.clone();
    // Every entry that decides, with what its directory entry says of it otherwise.
    let deciding: Arc<Vec<Ent>> = Arc::new(
        names.iter().map(ent).chain(ZIP_MIMES.iter().map(|m| mime_ent(m.0))).chain([ent(MANIFEST), mime_ent("text/plain"), ent("a")]).collect(),
    );
    let (e1, e2, e3) = (deciding.clone(), deciding.clone(), deciding.clone());
    s.push(ds(ZIP, "zip-deciding-header-bytes", move |ch| {
        // Any byte of the directory entry but the lengths has any value (for a media type, not those it is found by).
        let e = &e1[ch.choose(e1.len())];
        let i = 4 + ch.choose(42);
        let mime = e.name == b"mimetype";
        if (28..34).contains(&i) || mime && ((20..28).contains(&i) || i >= 42) {
            return None;
        }
        let b = if mime { ch.pick(&[1u8, 2, 8, 0x80, 0xFF]) } else { ch.choose(256) as u8 };
        let mut x = zips(&[e.clone(), ent("visio/x")]);
        let dir = x.windows(4).position(|w| w == b"PK\x01\x02").unwrap();
        x[dir + i] = b;
        v(x)
    }));
    s.push(ds(ZIP, "zip-deciding-sizes", move |ch| {
        // Sizes and places around the numbers that occur otherwise.
        let e = &e2[ch.choose(e2.len())];
        let first = ch.flag();
        let mut x = if first { zips(&[e.clone(), ent("dwf/x")]) } else { zips(&[ent("b"), e.clone()]) };
        let n = e.name.len();
        let mut dirs = x.windows(4).enumerate().filter(|(_, w)| w == b"PK\x01\x02").map(|w| w.0);
        let dir = if first { dirs.next() } else { dirs.nth(1) }.unwrap();
        let end = x.len() - 22;
        let places = [0usize, 1, 2, n - n.min(1), n, n + 1, 46, dir - 1, dir, dir + 1, dir + 46, end - 1, end, end + 1, x.len() - 1, x.len(), x.len() + 1, 0xFFFF, 0x7FFF_FFFF, 0xFFFF_FFFF];
        for at in [20, 24, 42] {
            let k = ch.choose(places.len() + 1);
            if let Some(p) = places.get(k) {
                x[dir + at..dir + at + 4].copy_from_slice(&le4(*p as u64));
            }
        }
        v(x)
    }));
    s.push(ds(ZIP, "zip-deciding-lengths", move |ch| {
        // Contents, extra fields and comments of the deciding entry itself.
        let lens = [0usize, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 28, 255, 256];
        let mut e = e3[ch.choose(e3.len())].clone();
        e.extra = ch.pick(&lens);
        e.comment = ch.pick(&lens);
        if e.name != b"mimetype" {
            e.data = vec![b'd'; ch.pick(&[0usize, 1, 4, 300])];
        }
        e.deflated = ch.flag();
        let z = ch.flag();
        let e = match ch.choose(3) {
            0 => vec![e, ent("xl/x")],
            1 => vec![ent(MANIFEST), e],
            _ => vec![Ent { extra: 3, ..ent("b") }, e, ent("b")],
        };
        v(zip(&e, &ZipOpt { zip64: z, ..Default::default() }))
    }));
    s.push(ds(ZIP, "zip-near-then-deciding", move |ch| {
        let n = &nr[ch.choose(nr.len())];
        let m = &names[ch.choose(names.len())];
        let man = ch.choose(3);
        let mut e = vec![ent(n), ent(m)];
        if man > 0 {
            e.insert(man - 1, ent(MANIFEST));
        }
        v(zips(&e))
    }));
    s
}

// ---------------------------------------------------------------- TXT

fn txt_spaces(l: u8) -> Vec<DS> {
    let t = l > 0;
    let classes: &[u8] = &[
        b'a', b'\n', 0x00, b'\t', b'\r', 0x0B, 0x1F, b' ', 0x7E, 0x7F, 0x80, 0x84, 0x85, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xED, 0xEF,
        0xF0, 0xF1, 0xF4, 0xF5, 0xFF,
    ];
    let n = 4 + l as usize;
    let mut s = vec![
        ds(TXT, "txt-characters", |ch| {
            let c = char::from_u32(ch.choose(0x110000) as u32)?;
            let mut b = [0; 4];
            let e = c.encode_utf8(&mut b).as_bytes();
            v(Buf(b"a".to_vec()).b(e).b(b"b").0)
        }),
        ds(TXT, "txt-byte-classes", move |ch| {
            let k = ch.range(1, n);
            v((0..k).map(|_| ch.pick(classes)).collect())
        }),
        ds(TXT, "txt-pairs", |ch| {
            let x = [ch.choose(256) as u8, ch.choose(256) as u8];
            v(x.to_vec())
        }),
        ds(TXT, "txt-lines", |ch| {
            // A bad byte in any of the first 20 lines, at its start or end.
            let k = ch.choose(21);
            let end: &[u8] = ch.pick(&[&b"\n"[..], b"\r\n", b"\n\n", b"\r"]);
            let bad: &[u8] = ch.pick(&[&b"\0"[..], b"\xFF", b"\x1B", b"\xC3", b"\xE2\x82", b"\x7F", b"\xC2\x85", b"\xC2\x80", b"\x0C"]);
            let start = ch.flag();
            let mut x = Buf::new();
            for i in 0..22 {
                x = if i == k { if start { x.b(bad).b(b"text") } else { x.b(b"text").b(bad) } } else { x.b(b"text") };
                x = x.b(end);
            }
            v(x.0)
        }),
        ds(TXT, "txt-limit", |ch| {
            // Anything around the 64 KiB limit, in one line or a few.
            let what: &[u8] = ch.pick(&[&b"\0"[..], b"\xFF", "\u{e9}".as_bytes(), "\u{20ac}".as_bytes(), "\u{1f600}".as_bytes(), b"\xE2\x82", b"\xF0\x9F", b"\xC3", b"\x80", b"\n\0", b"\xE2\x28", "\u{80}".as_bytes()]);
            let pos = 65_536 - 8 + ch.choose(14);
            let tail = ch.pick(&[0usize, 1, 2, 3, 100]);
            let nl = ch.choose(4);
            let mut x = vec![b't'; pos];
            for i in 0..nl {
                x[1000 * (i + 1)] = b'\n';
            }
            if nl == 3 {
                x[pos - 1] = b'\n';
            }
            v(Buf(x).b(what).fill(tail, b'y').0)
        }),
        ds(TXT, "txt-buffers", |ch| {
            // Multi-byte characters and bad bytes across every buffer boundary.
            let what: &[u8] = ch.pick(&[&"\u{e9}"[..], "\u{20ac}", "\u{1f600}", "\u{9f}", "\0", "\u{feff}"]).as_bytes();
            let cut = ch.choose(what.len() + 1);
            let base = ch.pick(&[512usize, 1024, 4096, 8192, 16384, 24576, 32768, 36_870, 40_960, 49_152, 57_344]);
            let pos = base - 6 + ch.choose(10);
            v(Buf(vec![b'q'; pos]).b(&what[..cut]).fill(ch.pick(&[0, 1, 20]), b'z').0)
        }),
        ds(TXT, "txt-lengths", |ch| {
            let n = match ch.choose(3) {
                0 => ch.choose(100),
                1 => 36_870 - 30 + ch.choose(60),
                _ => 65_536 - 30 + ch.choose(60),
            };
            v(vec![ch.pick(&[b'a', b' ', b'\n', 0x09, 0x00, 0x80]); n])
        }),
        ds(TXT, "txt-line-limit", |ch| {
            // Very long and very short lines before the bad byte.
            let n = ch.range(12, 19);
            let len = ch.pick(&[0usize, 1, 100, 4095, 4096, 5000]);
            let mut x = Buf::new();
            for _ in 0..n {
                x = x.fill(len, b'l').b(b"\n");
            }
            v(x.b(ch.pick(&[&b"\0"[..], b"\xFE", b"ok"])).0)
        }),
    ];
    if t {
        s.push(ds(TXT, "txt-triples", |ch| v(vec![ch.choose(256) as u8, ch.choose(256) as u8, ch.choose(256) as u8])));
    }
    s
}

/// All spaces of a family, at level 0 to 3.
pub fn family_spaces(bit: u16, l: u8) -> Vec<DS> {
    let mut s = match bit {
        ASF => asf_spaces(l),
        CFB => cfb_spaces(l),
        EBML => ebml_spaces(l),
        EXE => exe_spaces(l),
        ID3 => id3_spaces(l),
        MP4 => mp4_spaces(l),
        PDF => pdf_spaces(l),
        RM => rm_spaces(l),
        SQL => sql_spaces(l),
        TXT => txt_spaces(l),
        XML => xml_spaces(l),
        ZIP => zip_spaces(l),
        _ => vec![],
    };
    s.extend(mutations(bit, l));
    s.extend(crate::words::words(bit));
    s
}

/// All fixture files of the repository.
pub fn fixtures() -> Vec<(String, Vec<u8>)> {
    let mut v = vec![];
    let mut dirs = vec![std::path::PathBuf::from("/repo/fixtures")];
    while let Some(d) = dirs.pop() {
        for e in std::fs::read_dir(&d).into_iter().flatten().flatten() {
            let p = e.path();
            if p.is_dir() {
                dirs.push(p);
            } else if let Ok(b) = std::fs::read(&p)
                && b.len() < 8 << 20
            {
                v.push((p.strip_prefix("/repo/fixtures").unwrap().display().to_string(), b));
            }
        }
    }
    v.sort();
    v
}
