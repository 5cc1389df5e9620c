//! Builders of (well-formed and malformed) contents of the refined families.
use crate::model::*;

pub fn le2(v: u64) -> [u8; 2] {
    (v as u16).to_le_bytes()
}
pub fn le4(v: u64) -> [u8; 4] {
    (v as u32).to_le_bytes()
}
pub fn le8(v: u64) -> [u8; 8] {
    v.to_le_bytes()
}
pub fn be2(v: u64) -> [u8; 2] {
    (v as u16).to_be_bytes()
}
pub fn be4(v: u64) -> [u8; 4] {
    (v as u32).to_be_bytes()
}
pub fn be8(v: u64) -> [u8; 8] {
    v.to_be_bytes()
}

#[derive(Clone, Default)]
pub struct Buf(pub Vec<u8>);
impl Buf {
    pub fn new() -> Buf {
        Buf(vec![])
    }
    pub fn b(mut self, x: impl AsRef<[u8]>) -> Buf {
        self.0.extend_from_slice(x.as_ref());
        self
    }
    pub fn z(mut self, n: usize) -> Buf {
        self.0.resize(self.0.len() + n, 0);
        self
    }
    pub fn fill(mut self, n: usize, v: u8) -> Buf {
        self.0.resize(self.0.len() + n, v);
        self
    }
    pub fn to(mut self, len: usize, v: u8) -> Buf {
        assert!(len >= self.0.len());
        self.0.resize(len, v);
        self
    }
}

// ASF

pub const G_ASF: &str = "75b22630-668e-11cf-a6d9-00aa0062ce6c";
pub const G_OTHER: &str = "59dacfc0-59e6-11d0-a3ac-00a0c90348f6";

pub fn asf_head(count: u64) -> Vec<u8> {
    Buf::new().b(guid(G_ASF)).b(le8(30)).b(le4(count)).b([1, 2]).0
}
/// An object with its true size or the given one.
pub fn asf_obj(id: &[u8; 16], size: Option<u64>, payload: &[u8]) -> Vec<u8> {
    Buf::new().b(id).b(le8(size.unwrap_or(24 + payload.len() as u64))).b(payload).0
}
pub fn asf_stream(kind: &[u8; 16]) -> Vec<u8> {
    asf_obj(&G_STREAM, None, &Buf::new().b(kind).z(38).0)
}
pub fn asf_desc(name: &[u8], value: &[u8]) -> Vec<u8> {
    Buf::new().b(le2(name.len() as u64)).b(name).b(le2(3)).b(le2(value.len() as u64)).b(value).0
}
pub fn asf_ext(count: u64, descs: &[Vec<u8>]) -> Vec<u8> {
    asf_obj(&G_EXT, None, &Buf::new().b(le2(count)).b(descs.concat()).0)
}
pub fn asf(count: Option<u64>, objs: &[Vec<u8>]) -> Vec<u8> {
    Buf(asf_head(count.unwrap_or(objs.len() as u64))).b(objs.concat()).0
}

// CFB

pub const CFB_SIG: [u8; 8] = [0xD0, 0xCF, 0x11, 0xE0, 0xA1, 0xB1, 0x1A, 0xE1];
pub fn cfb_head(version: u64, sector: u64) -> Vec<u8> {
    Buf::new().b(CFB_SIG).z(16).b(le2(0x3E)).b(le2(version)).b([0xFE, 0xFF, 9, 0, 6, 0]).z(10).b(le4(1)).b(le4(sector)).to(512, 0xFF).0
}
/// A directory entry.
pub fn cfb_entry(name: &[u8], id: &[u8]) -> Vec<u8> {
    let n = &name[..name.len().min(64)];
    Buf::new().b(n).to(64, 0).b(le2(n.len() as u64 + 2)).b([5, 1]).fill(12, 0xFF).b(id).to(128, 0).0
}
pub const ROOT: &[u8] = b"R\0o\0o\0t\0 \0E\0n\0t\0r\0y\0";
pub fn cfb(version: u64, sector: u64, id: &[u8], second: &[u8], third: &[u8]) -> Vec<u8> {
    let s = if version == 3 { 512 } else { 4096 };
    let z = [0; 16];
    Buf(cfb_head(version, sector))
        .to(s * (1 + sector as usize), 0)
        .b(cfb_entry(ROOT, id)).b(cfb_entry(second, &z)).b(cfb_entry(third, &z)).b(cfb_entry(b"", &z)).0
}

// EBML

/// Size `n` in `w` bytes (0: as few as possible).
pub fn vsize(n: u64, w: u32) -> Vec<u8> {
    let w = if w == 0 { (1..=8).find(|&w| n < (1u64 << (7 * w)) - 1).unwrap() } else { w };
    let v = n | 1 << (7 * w);
    v.to_be_bytes()[8 - w as usize..].to_vec()
}
pub fn el_id(id: u32) -> Vec<u8> {
    let n = (4 - id.leading_zeros() / 8) as usize;
    id.to_be_bytes()[4 - n..].to_vec()
}
pub fn el(id: u32, w: u32, payload: &[u8]) -> Vec<u8> {
    Buf(el_id(id)).b(vsize(payload.len() as u64, w)).b(payload).0
}
pub fn el_sized(id: u32, size: &[u8], payload: &[u8]) -> Vec<u8> {
    Buf(el_id(id)).b(size).b(payload).0
}
pub const E_EBML: u32 = 0x1A45DFA3;
pub const E_DOCTYPE: u32 = 0x4282;
pub const E_SEGMENT: u32 = 0x18538067;
pub const E_TRACKS: u32 = 0x1654AE6B;
pub const E_TRACK: u32 = 0xAE;
pub const E_CODEC: u32 = 0x86;
pub const E_VIDEO: u32 = 0xE0;
pub const E_STEREO: u32 = 0x53B8;
pub const E_CLUSTER: u32 = 0x1F43B675;
pub const E_VOID: u32 = 0xEC;
pub fn ebml_head(doctype: &[u8]) -> Vec<u8> {
    el(E_EBML, 0, &Buf(el(0x4286, 0, &[1])).b(el(E_DOCTYPE, 0, doctype)).b(el(0x4287, 0, &[4])).0)
}
pub fn ebml(doctype: &[u8], segment: &[u8]) -> Vec<u8> {
    Buf(ebml_head(doctype)).b(el(E_SEGMENT, 0, segment)).0
}
pub fn track(codec: &[u8]) -> Vec<u8> {
    el(E_TRACK, 0, &Buf(el(0xD7, 0, &[1])).b(el(E_CODEC, 0, codec)).0)
}

// EXE

pub fn exe_head(magic: &[u8], at: u64) -> Vec<u8> {
    Buf::new().b(magic).fill(58, 0x41).b(le4(at)).0
}
pub fn exe(magic: &[u8], at: u64, sig: &[u8], chars: u64) -> Vec<u8> {
    Buf(exe_head(magic, at)).to(at as usize, 0x42).b(sig).fill(18, 0x43).b(le2(chars)).fill(8, 0x44).0
}

// ID3v2

pub fn syncsafe(n: u64) -> [u8; 4] {
    [(n >> 21) as u8 & 0x7F, (n >> 14) as u8 & 0x7F, (n >> 7) as u8 & 0x7F, n as u8 & 0x7F]
}
pub fn id3_head(ver: u8, flags: u8, size: u64) -> Vec<u8> {
    Buf::new().b(b"ID3").b([ver, 0, flags]).b(syncsafe(size)).0
}
pub fn id3(ver: u8, flags: u8, size: usize) -> Vec<u8> {
    let f = if flags & 0x10 != 0 { 10 } else { 0 };
    Buf(id3_head(ver, flags, size as u64)).fill(size, 0).fill(f, 0x33).0
}

// MP4

pub fn mp4_box(kind: &[u8], payload: &[u8]) -> Vec<u8> {
    Buf::new().b(be4(8 + payload.len() as u64)).b(kind).b(payload).0
}
pub fn mp4_box64(kind: &[u8], payload: &[u8]) -> Vec<u8> {
    Buf::new().b(be4(1)).b(kind).b(be8(16 + payload.len() as u64)).b(payload).0
}
pub fn hdlr_payload(kind: &[u8]) -> Vec<u8> {
    Buf::new().z(8).b(kind).z(13).0
}
pub fn hdlr(kind: &[u8]) -> Vec<u8> {
    mp4_box(b"hdlr", &hdlr_payload(kind))
}
pub fn ftyp(brand: &[u8]) -> Vec<u8> {
    mp4_box(b"ftyp", &Buf::new().b(brand).z(4).b(b"isommp42").0)
}

// RealMedia

pub fn rm_head(headers: u64) -> Vec<u8> {
    Buf::new().b(b".RMF").b(be4(18)).b(be2(0)).b(be4(0)).b(be4(headers)).0
}
pub fn rm_chunk(kind: &[u8], size: Option<u64>, payload: &[u8]) -> Vec<u8> {
    Buf::new().b(kind).b(be4(size.unwrap_or(8 + payload.len() as u64))).b(payload).0
}
pub fn mdpr_payload(name: &[u8], mime: &[u8]) -> Vec<u8> {
    Buf::new().z(32).b([name.len() as u8]).b(name).b([mime.len() as u8]).b(mime).b(be4(0)).0
}
pub fn mdpr(name: &[u8], mime: &[u8]) -> Vec<u8> {
    rm_chunk(b"MDPR", None, &mdpr_payload(name, mime))
}
pub fn rm(headers: Option<u64>, chunks: &[Vec<u8>]) -> Vec<u8> {
    Buf(rm_head(headers.unwrap_or(chunks.len() as u64 + 1))).b(chunks.concat()).0
}

// SQLite

pub fn sqlite(len: usize, fill: u8) -> Vec<u8> {
    Buf::new().b(b"SQLite format 3\0").to(16, fill).to(len.max(16), fill).0
}
pub const SKETCH: &[u8] = b"com.bohemiancoding.sketch3";

// PDF

pub const AI: &[u8] = b"AIPrivateData";

// ZIP

#[derive(Clone, Default)]
pub struct Ent {
    pub name: Vec<u8>,
    pub data: Vec<u8>,
    /// Difference between the compressed and uncompressed size fields (0: stored).
    pub deflated: bool,
    pub extra: usize,
    pub comment: usize,
    pub local_extra: usize,
    /// Length of the name in the local header, if another.
    pub local_name: Option<usize>,
}
pub fn ent(name: impl AsRef<[u8]>) -> Ent {
    Ent { name: name.as_ref().to_vec(), ..Ent::default() }
}
pub fn mime_ent(data: impl AsRef<[u8]>) -> Ent {
    Ent { name: b"mimetype".to_vec(), data: data.as_ref().to_vec(), ..Ent::default() }
}
#[derive(Clone, Default)]
pub struct ZipOpt {
    pub count: Option<u64>,
    pub zip64: bool,
    pub comment: Vec<u8>,
    /// Bytes between the last local entry and the directory.
    pub gap: usize,
    pub dir_offset: Option<u64>,
    pub eocd64_offset: Option<u64>,
    pub sig: Option<[u8; 4]>,
    pub gap_fill: u8,
}
pub fn zip(ents: &[Ent], o: &ZipOpt) -> Vec<u8> {
    let mut v = vec![];
    let mut offs = vec![];
    for e in ents {
        offs.push(v.len());
        let un = e.data.len() as u64 + if e.deflated { 7 } else { 0 };
        let ln = e.local_name.unwrap_or(e.name.len());
        let mut name = e.name.clone();
        name.resize(ln, b'n');
        v = Buf(v).b(b"PK\x03\x04").b(le2(20)).b(le2(0)).b(le2(if e.deflated { 8 } else { 0 })).z(8)
            .b(le4(e.data.len() as u64)).b(le4(un)).b(le2(ln as u64)).b(le2(e.local_extra as u64))
            .b(&name).fill(e.local_extra, 0x78).b(&e.data).0;
    }
    if v.is_empty() {
        v = b"PK\x03\x04".to_vec();
    }
    v.resize(v.len() + o.gap, o.gap_fill);
    let dir = v.len();
    for (e, off) in ents.iter().zip(offs) {
        let un = e.data.len() as u64 + if e.deflated { 7 } else { 0 };
        v = Buf(v).b(b"PK\x01\x02").b(le2(20)).b(le2(20)).b(le2(0)).b(le2(if e.deflated { 8 } else { 0 })).z(8)
            .b(le4(e.data.len() as u64)).b(le4(un)).b(le2(e.name.len() as u64)).b(le2(e.extra as u64))
            .b(le2(e.comment as u64)).z(8).b(le4(off as u64)).b(&e.name).fill(e.extra, 0x65).fill(e.comment, 0x63).0;
    }
    let size = v.len() - dir;
    let n = o.count.unwrap_or(ents.len() as u64);
    let dir_offset = o.dir_offset.unwrap_or(dir as u64);
    if o.zip64 {
        let at = v.len() as u64;
        v = Buf(v).b(b"PK\x06\x06").b(le8(44)).b(le2(45)).b(le2(45)).b(le4(0)).b(le4(0)).b(le8(n)).b(le8(n))
            .b(le8(size as u64)).b(le8(dir_offset))
            .b(b"PK\x06\x07").b(le4(0)).b(le8(o.eocd64_offset.unwrap_or(at))).b(le4(1)).0;
        v = Buf(v).b(b"PK\x05\x06").z(4).b(le2(0xFFFF)).b(le2(0xFFFF)).b(le4(0xFFFFFFFF)).b(le4(0xFFFFFFFF)).0;
    } else {
        v = Buf(v).b(b"PK\x05\x06").z(4).b(le2(n)).b(le2(n)).b(le4(size as u64)).b(le4(dir_offset)).0;
    }
    v = Buf(v).b(le2(o.comment.len() as u64)).b(&o.comment).0;
    if let Some(s) = o.sig {
        v[..4].copy_from_slice(&s);
    }
    v
}
pub fn zips(ents: &[Ent]) -> Vec<u8> {
    zip(ents, &ZipOpt::default())
}
