"""The planted bugs: edits of /repo's sources, each with a demonstration."""

PRELUDE = r'''#![allow(dead_code, unused_imports)]
use file_format::FileFormat as F;
use std::io::{self, Cursor, Read, Seek, SeekFrom};

fn of(bytes: &[u8]) -> F { F::from_reader(Cursor::new(bytes)).unwrap() }
fn check(bytes: &[u8], want: F) { assert_eq!(of(bytes), want); }
fn cat(parts: &[&[u8]]) -> Vec<u8> { parts.concat() }

/// A sparse content: some pieces at offsets, zeros elsewhere.
#[derive(Clone)]
struct Sparse { pos: u64, len: u64, parts: Vec<(u64, Vec<u8>)> }
impl Read for Sparse {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = buf.len().min(self.len.saturating_sub(self.pos).min(1 << 20) as usize);
        buf[..n].fill(0);
        for (at, p) in &self.parts {
            for (i, b) in p.iter().enumerate() {
                let q = at + i as u64;
                if q >= self.pos && q < self.pos + n as u64 { buf[(q - self.pos) as usize] = *b; }
            }
        }
        self.pos += n as u64;
        Ok(n)
    }
}
impl Seek for Sparse {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        let p = match to {
            SeekFrom::Start(p) => p as i128,
            SeekFrom::End(d) => self.len as i128 + d as i128,
            SeekFrom::Current(d) => self.pos as i128 + d as i128,
        };
        if p < 0 || p > u64::MAX as i128 { return Err(io::ErrorKind::InvalidInput.into()); }
        self.pos = p as u64;
        Ok(self.pos)
    }
}

fn guid(s: &str) -> Vec<u8> {
    let h: Vec<u8> = s.bytes().filter(|b| *b != b'-').collect();
    let b: Vec<u8> = h.chunks(2).map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap()).collect();
    [3, 2, 1, 0, 5, 4, 7, 6, 8, 9, 10, 11, 12, 13, 14, 15].iter().map(|&i| b[i]).collect()
}
const ASF_SIG: &[u8] = b"\x30\x26\xB2\x75\x8E\x66\xCF\x11\xA6\xD9\x00\xAA\x00\x62\xCE\x6C";
fn asf_object(id: &str, body: &[u8]) -> Vec<u8> {
    cat(&[&guid(id), &(24 + body.len() as u64).to_le_bytes(), body])
}
fn asf_stream(kind: &str) -> Vec<u8> { asf_object("b7dc0791-a9b7-11cf-8ee6-00c00c205365", &cat(&[&guid(kind), &[0; 24]])) }
const ASF_AUDIO: &str = "f8699e40-5b4d-11cf-a8fd-00805f5c442b";
const ASF_VIDEO: &str = "bc19efc0-5b4d-11cf-a8fd-00805f5c442b";
fn asf_descriptors(names: &[(&[u8], usize)]) -> Vec<u8> {
    let mut body = (names.len() as u16).to_le_bytes().to_vec();
    for (n, v) in names {
        body.extend((n.len() as u16).to_le_bytes()); body.extend(*n);
        body.extend([0, 0]); body.extend((*v as u16).to_le_bytes()); body.extend(vec![0; *v]);
    }
    asf_object("d2d0a440-e307-11d2-97f0-00a0c95ea850", &body)
}
fn asf(objects: &[Vec<u8>]) -> Vec<u8> {
    let n = (objects.len() as u32).to_le_bytes();
    let size = (30 + objects.iter().map(Vec::len).sum::<usize>() as u64).to_le_bytes();
    cat(&[ASF_SIG, &size, &n, &[1, 2], &objects.concat()])
}

fn cfb(version: u16, dir: u32, clsid: &[u8], names: [&[u8]; 2], cut: usize) -> Sparse {
    let size: u64 = if version == 3 { 512 } else { 4096 };
    let root = size * (1 + dir as u64);
    let mut head = b"\xD0\xCF\x11\xE0\xA1\xB1\x1A\xE1".to_vec();
    head.resize(64, 0);
    head[26..28].copy_from_slice(&version.to_le_bytes());
    head[48..52].copy_from_slice(&dir.to_le_bytes());
    let mut parts = vec![(0, head), (root + 80, clsid.to_vec())];
    for (i, n) in names.iter().enumerate() { parts.push((root + 128 * (i as u64 + 1), n.to_vec())); }
    Sparse { pos: 0, len: root + 1024 - cut as u64, parts }
}

fn vint(size: u64, width: u32) -> Vec<u8> { (size | 1 << (7 * width)).to_be_bytes()[8 - width as usize..].to_vec() }
fn el(id: &[u8], width: u32, body: &[u8]) -> Vec<u8> { cat(&[id, &vint(body.len() as u64, width), body]) }
fn track(codec: &[u8], extra: &[u8]) -> Vec<u8> { el(&[0xAE], 4, &cat(&[&el(&[0x86], 1, codec), extra])) }
fn mkv(doc: &[u8], segment: &[u8]) -> Vec<u8> {
    cat(&[&el(b"\x1A\x45\xDF\xA3", 1, &el(b"\x42\x82", 1, doc)), &el(b"\x18\x53\x80\x67", 8, segment)])
}
fn tracks(t: &[Vec<u8>]) -> Vec<u8> { el(b"\x16\x54\xAE\x6B", 4, &t.concat()) }

fn exe(addr: u32, len: usize, at: usize, ext: &[u8]) -> Vec<u8> {
    let mut v = vec![0; len];
    v[..2].copy_from_slice(b"MZ");
    v[60..64].copy_from_slice(&addr.to_le_bytes());
    v[at..at + ext.len()].copy_from_slice(ext);
    v
}

fn id3(version: u8, flags: u8, size: u32) -> Vec<u8> {
    let s = |n: u32| (size >> n & 0x7F) as u8;
    let mut v = cat(&[b"ID3", &[version, 0, flags, s(21), s(14), s(7), s(0)]]);
    v.resize(10 + size as usize, 0);
    if flags & 0x10 != 0 { v.extend(cat(&[b"3DI", &[version, 0, flags, s(21), s(14), s(7), s(0)]])); }
    v
}

fn bx(kind: &[u8], body: &[u8]) -> Vec<u8> { cat(&[&(8 + body.len() as u32).to_be_bytes(), kind, body]) }
fn hdlr(kind: &[u8]) -> Vec<u8> { bx(b"hdlr", &cat(&[&[0; 8], kind, &[0; 12]])) }
fn trak(kind: &[u8]) -> Vec<u8> { bx(b"trak", &bx(b"mdia", &hdlr(kind))) }
fn ftyp() -> Vec<u8> { bx(b"ftyp", b"isom\0\0\0\0isom") }

fn mdpr(name: &[u8], mime: &[u8]) -> Vec<u8> {
    let body = cat(&[&[0; 32], &[name.len() as u8], name, &[mime.len() as u8], mime, &[0; 4]]);
    cat(&[b"MDPR", &(8 + body.len() as u32).to_be_bytes(), &body])
}
fn rmf(headers: u32, chunks: &[Vec<u8>]) -> Vec<u8> {
    cat(&[b".RMF\0\0\0\x12\0\0\0\0\0\0", &headers.to_be_bytes(), &chunks.concat()])
}

struct Entry<'a> { name: &'a [u8], data: &'a [u8], local_extra: usize, extra: usize, comment: usize, csize: Option<u32> }
fn entry<'a>(name: &'a [u8], data: &'a [u8]) -> Entry<'a> { Entry { name, data, local_extra: 0, extra: 0, comment: 0, csize: None } }
fn zip_with(entries: &[Entry], zip64: bool, count: u64, comment: &[u8]) -> Vec<u8> {
    let mut out = Vec::new();
    let mut dir = Vec::new();
    for e in entries {
        let off = out.len() as u32;
        let size = e.data.len() as u32;
        let csize = e.csize.unwrap_or(size);
        let common = cat(&[&[0; 2], &[0; 2], &[0; 4], &[0; 4], &csize.to_le_bytes(), &size.to_le_bytes(), &(e.name.len() as u16).to_le_bytes()]);
        out.extend(cat(&[b"PK\x03\x04\x14\0", &common, &(e.local_extra as u16).to_le_bytes(), e.name, &vec![b'x'; e.local_extra], e.data]));
        dir.extend(cat(&[b"PK\x01\x02\x14\0\x14\0", &common, &(e.extra as u16).to_le_bytes(), &(e.comment as u16).to_le_bytes(),
            &[0; 8], &off.to_le_bytes(), e.name, &vec![b'y'; e.extra], &vec![b'z'; e.comment]]));
    }
    let start = out.len();
    out.extend(&dir);
    if zip64 {
        let end = out.len() as u64;
        out.extend(cat(&[b"PK\x06\x06", &44u64.to_le_bytes(), &[45, 0, 45, 0], &[0; 8], &count.to_le_bytes(), &count.to_le_bytes(), &(dir.len() as u64).to_le_bytes(), &(start as u64).to_le_bytes()]));
        out.extend(cat(&[b"PK\x06\x07", &[0; 4], &end.to_le_bytes(), &[1, 0, 0, 0]]));
        out.extend(cat(&[b"PK\x05\x06", &[0; 4], &[0xFF; 12], &(comment.len() as u16).to_le_bytes(), comment]));
    } else {
        out.extend(cat(&[b"PK\x05\x06", &[0; 4], &(count as u16).to_le_bytes(), &(count as u16).to_le_bytes(), &(dir.len() as u32).to_le_bytes(), &(start as u32).to_le_bytes(), &(comment.len() as u16).to_le_bytes(), comment]));
    }
    out
}
fn zip(entries: &[Entry]) -> Vec<u8> { zip_with(entries, false, entries.len() as u64, b"") }
'''

L, R, S, FM, MA = "src/lib.rs", "src/readers.rs", "src/signatures.rs", "src/formats.rs", "src/macros.rs"
SEEDS = []

# Only changes lines that the repairs added: tried, not kept.
NOT_KEPT = {"c19-c1-controls", "c19-white-space", "c19-cut-tail"}

def seed(id, edits, demo, needs, breaks, **kw):
    SEEDS.append(dict(id=id, property=id.split("-")[0].upper(), edits=edits, demo="fn main() {\n" + demo.strip("\n") + "\n}" if "fn main" not in demo else demo, needs=needs, breaks=breaks, **kw))

# --- C01 -----------------------------------------------------------------------------------------
seed("c01-ebml-size-width", [(R, "if number_of_bytes > 8 {", "if number_of_bytes > 9 {")], r'''
    let file = cat(&[&el(b"\x1A\x45\xDF\xA3", 1, &el(b"\x42\x82", 1, b"matroska")), &[0xEC, 0x00, 1, 2, 3, 4, 5, 6, 7, 8]]);
    of(&file);
''', "An EBML element whose size begins with a zero byte, in a build with overflow checks.",
 "A size of reserved width is no longer refused: computing its mask shifts a u8 by 8 bits, which panics where the build checks for overflow.")
seed("c01-exe-address-add", [(R, "if offset as u64 + 4 < len {", "if ((offset + 4) as u64) < len {")], r'''
    for addr in [u32::MAX - 4, u32::MAX - 3, u32::MAX] { check(&exe(addr, 256, 128, b"PE\0\0"), F::MsDosExecutable); }
''', "A DOS executable whose extended header address is one of the last four 32-bit values.",
 "The bounds check of the header address is computed in 32 bits: it panics with overflow checks and wraps around without.")
seed("c01-cfb-sector-add", [(R, "directory_sector_size * (1 + first_directory_sector_location as u64) + 80", "directory_sector_size * u64::from(1 + first_directory_sector_location) + 80")], r'''
    let mut head = b"\xD0\xCF\x11\xE0\xA1\xB1\x1A\xE1".to_vec();
    head.resize(4096, 0);
    head[26] = 3; head[48..52].fill(0xFF);
    head[80..96].copy_from_slice(&guid("00020810-0000-0000-c000-000000000046"));
    check(&head, F::ArbitraryBinaryData);
''', "A compound file whose first directory sector is 0xFFFFFFFF (the free-sector marker).",
 "The directory offset overflows in 32 bits: panic with overflow checks; without, the header itself is read as the directory.")
seed("c01-rm-chunk-size", [(R, "reader.seek(SeekFrom::Current(chunk_size as i64 - 8))?;", "reader.seek(SeekFrom::Current((chunk_size - 8) as i64))?;")], r'''
    for n in 0..8u32 { of(&rmf(3, &[cat(&[b"PROP", &n.to_be_bytes(), &[0; 64]])])); }
''', "A RealMedia chunk that declares a size below its own 8 byte header.",
 "The rest of the chunk is computed in u32 and underflows for declared sizes below 8.")
seed("c01-zip-skip-sum", [(R, "                extra_field_len as i64 + file_comment_len as i64,\n", "                (extra_field_len + file_comment_len) as i64,\n")], r'''
    let mut e = entry(b"a", b""); e.extra = 40_000; e.comment = 40_000;
    check(&zip(&[e, entry(b"doc.kml", b"")]), F::KeyholeMarkupLanguageZip);
''', "A central directory entry whose extra field and comment are together 64 KiB or longer.",
 "The lengths are added in 16 bits: overflow panic, or (unchecked) the next entries are missed.")

# --- C02 -----------------------------------------------------------------------------------------
seed("c02-guid-short-read", [(R, "        let buf = self.read_bytes(16)?;\n        Ok([3, 2,", "        let mut buf = vec![0; 16];\n        let nread = self.read(&mut buf)?;\n        if nread == 0 {\n            return Err(ErrorKind::UnexpectedEof.into());\n        }\n        Ok([3, 2,")], r'''
    struct Slow(Cursor<Vec<u8>>);
    impl Read for Slow { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { let n = b.len().min(5); self.0.read(&mut b[..n]) } }
    impl Seek for Slow { fn seek(&mut self, p: SeekFrom) -> io::Result<u64> { self.0.seek(p) } }
    let file = asf(&[asf_stream(ASF_VIDEO)]);
    check(&file, F::WindowsMediaVideo);
    assert_eq!(F::from_reader(Slow(Cursor::new(file))).unwrap(), F::WindowsMediaVideo);
''', "A reader that delivers a GUID in two pieces, such as a pipe or a network file.",
 "A GUID is read with a single read: when the reader delivers less than 16 bytes, the rest is taken as zeros.")
seed("c02-bytes-window", [(L, "Self::from_reader(Cursor::new(value)).unwrap_or_default()", "// Files keep their deciding structures near the beginning.\n        let value = &value[..value.len().min(16 * 1024 * 1024)];\n        Self::from_reader(Cursor::new(value)).unwrap_or_default()")], r'''
    let mut pdf = b"%PDF-1.5\n".to_vec();
    pdf.resize(20 << 20, b' ');
    pdf.extend(b"AIPrivateData1");
    assert_eq!(F::from_bytes(&pdf), of(&pdf));
''', "A byte slice above 16 MiB whose deciding structure lies beyond.",
 "Byte slices are only considered up to 16 MiB while files and readers are considered in full.")
seed("c02-u32-interrupted", [(R, "    fn read_u32_be(&mut self) -> Result<u32> {\n        let mut buf = [0; 4];\n        self.read_exact(&mut buf)?;", "    fn read_u32_be(&mut self) -> Result<u32> {\n        let mut buf = [0; 4];\n        let mut nread = 0;\n        while nread < 4 {\n            match self.read(&mut buf[nread..])? {\n                0 => return Err(ErrorKind::UnexpectedEof.into()),\n                count => nread += count,\n            }\n        }")], r'''
    struct I(Cursor<Vec<u8>>, u32);
    impl Read for I {
        fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
            self.1 += 1;
            if self.1 % 2 == 1 { return Err(io::ErrorKind::Interrupted.into()); }
            self.0.read(b)
        }
    }
    impl Seek for I { fn seek(&mut self, p: SeekFrom) -> io::Result<u64> { self.0.seek(p) } }
    let mp4 = cat(&[&ftyp(), &bx(b"moov", &trak(b"vide"))]);
    assert_eq!(F::from_reader(I(Cursor::new(mp4.clone()), 0)).unwrap(), of(&mp4));
''', "A read that is interrupted (ErrorKind::Interrupted) while a 32-bit big-endian number is read.",
 "Interrupted reads are not retried in one of the number readers, so the answer depends on the delivery.")

# --- C03 -----------------------------------------------------------------------------------------
FAULTY = r'''
    struct Flt(Cursor<Vec<u8>>, u64);
    impl Read for Flt {
        fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
            if self.1 == 0 { return Err(io::ErrorKind::Other.into()); }
            self.1 -= 1;
            self.0.read(b)
        }
    }
    impl Seek for Flt { fn seek(&mut self, p: SeekFrom) -> io::Result<u64> { self.0.seek(p) } }
'''
seed("c03-ebml-eof-break", [(R, "        while element_count < ELEMENT_LIMIT && reader.stream_position()? < len {\n            // Reads the first byte of the element ID.\n            let first_byte = reader.read_u8()?;", "        while element_count < ELEMENT_LIMIT && reader.stream_position()? < len {\n            // Reads the first byte of the element ID.\n            let Ok(first_byte) = reader.read_u8() else {\n                break;\n            };")], FAULTY + r'''
    // The audio track is read, then the device fails before the video track.
    let file = mkv(b"matroska", &cat(&[&tracks(&[track(b"A_AAC", b"")]), &el(&[0xEC], 4, &vec![0; 100_000]), &tracks(&[track(b"V_VP8", b"")])]));
    check(&file, F::MatroskaVideo);
    for n in 2..8 {
        let got = F::from_reader(Flt(Cursor::new(file.clone()), n)).unwrap();
        assert!(got == F::MatroskaVideo || got == F::ArbitraryBinaryData, "{got:?}");
    }
''', "A read error at the first byte of an EBML element after some tracks were read.",
 "An I/O error between elements is taken for the end of the file: the answer is made of the tracks read so far.")
seed("c03-rm-mime-default", [(R, "                let mime_type = reader.read_bytes(mime_type_size as usize)?;", "                let mime_type = reader\n                    .read_bytes(mime_type_size as usize)\n                    .unwrap_or_default();")], FAULTY + r'''
    // The media type arrives in pieces, and one of them fails.
    struct Once(Cursor<Vec<u8>>, u64, u64);
    impl Read for Once {
        fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
            self.2 += 1;
            if self.2 == self.1 { return Err(io::ErrorKind::Other.into()); }
            let n = b.len().min(if self.2 < 3 { 1 << 20 } else { 16 });
            self.0.read(&mut b[..n])
        }
    }
    impl Seek for Once { fn seek(&mut self, p: SeekFrom) -> io::Result<u64> { self.0.seek(p) } }
    let file = rmf(2, &[mdpr(&[b'n'; 40], b"video/x-pn-realvideo")]);
    check(&file, F::Realvideo);
    for n in 3..20 {
        let got = F::from_reader(Once(Cursor::new(file.clone()), n, 0)).unwrap();
        assert!(got == F::Realvideo || got == F::ArbitraryBinaryData, "{n} {got:?}");
    }
''', "A single failing read while the media type of a stream is read.",
 "An I/O error while a media type is read counts as a stream without type: the answer misses that stream.")
seed("c03-open-kind", [(L, "Self::from_reader(File::open(path)?)", "let file =\n            File::open(path).map_err(|_| Error::new(ErrorKind::NotFound, \"cannot open the file\"))?;\n        Self::from_reader(file)"), (L, "io::{Cursor, Read, Result, Seek},", "io::{Cursor, Error, ErrorKind, Read, Result, Seek},")], r'''
    // A path through a regular file: not a directory.
    let want = std::fs::File::open("Cargo.toml/x").unwrap_err().kind();
    assert_eq!(F::from_file("Cargo.toml/x").unwrap_err().kind(), want);
''', "A path whose opening fails for another reason than not being there.", "The kind of the error of opening the file is lost.")

# --- C04 -----------------------------------------------------------------------------------------
seed("c04-codec-limit", [(R, "reader.read_bytes(std::cmp::min(CODEC_ID_LIMIT, size as usize))?;", "reader.read_bytes(std::cmp::min(len, size) as usize)?;"), (R, "        // Maximum size of a Codec ID that can be processed by the reader.\n        const CODEC_ID_LIMIT: usize = 64;\n\n", "")], r'''
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
    static MAX: AtomicUsize = AtomicUsize::new(0);
    struct A;
    unsafe impl GlobalAlloc for A {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 { MAX.fetch_max(l.size(), SeqCst); unsafe { System.alloc(l) } }
        unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { MAX.fetch_max(l.size(), SeqCst); unsafe { System.alloc_zeroed(l) } }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) { unsafe { System.dealloc(p, l) } }
    }
    #[global_allocator]
    static G: A = A;
    let head = cat(&[&el(b"\x1A\x45\xDF\xA3", 1, &el(b"\x42\x82", 1, b"matroska")), &[0x86], &vint(65 << 20, 8), b"V_VP8"]);
    let s = Sparse { pos: 0, len: 65 << 20, parts: vec![(0, head)] };
    assert_eq!(F::from_reader(s).unwrap(), F::MatroskaVideo);
    assert!(MAX.load(SeqCst) < 2 << 20, "{}", MAX.load(SeqCst));
''', "A codec identifier element that declares a large size, in a large file.", "The codec identifier is read into memory in full, whatever size it declares.")
seed("c04-mp4-free-uncounted", [(R, "                b\"moov\" | b\"trak\" | b\"mdia\" => {}\n", "                b\"moov\" | b\"trak\" | b\"mdia\" => {}\n                b\"free\" | b\"skip\" => {\n                    // Padding does not count as a box.\n                    reader.seek(SeekFrom::Start(std::cmp::min(\n                        len,\n                        offset.saturating_add(std::cmp::max(8, size)),\n                    )))?;\n                    continue;\n                }\n")], r'''
    struct Count(Cursor<Vec<u8>>, u64);
    impl Read for Count { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { self.1 += 1; self.0.read(b) } }
    impl Seek for Count { fn seek(&mut self, p: SeekFrom) -> io::Result<u64> { self.1 += 1; self.0.seek(p) } }
    let mut v = ftyp();
    for _ in 0..300 { v.extend(bx(b"free", b"")); }
    v.extend(bx(b"moov", &trak(b"vide")));
    check(&v, F::Mpeg4Part14);
    let mut c = Count(Cursor::new(cat(&[&ftyp(), &bx(b"free", b"").repeat(1 << 20)])), 0);
    F::from_reader(&mut c).unwrap();
    assert!(c.1 < 5000, "{}", c.1);
''', "An MP4 file with an endless run of padding boxes.", "Padding boxes do not count towards the limit of 256 boxes, so a file of padding is read to its end.")
seed("c04-zip64-entries", [(R, "for _ in 0..std::cmp::min(ENTRY_LIMIT, number_of_entries) {", "for _ in 0..if zip64 {\n            number_of_entries\n        } else {\n            std::cmp::min(ENTRY_LIMIT, number_of_entries)\n        } {")], r'''
    let mut names: Vec<Entry> = (0..1100).map(|_| entry(b"a", b"")).collect();
    names.push(entry(b"doc.kml", b""));
    check(&zip_with(&names, true, 1101, b""), F::Zip);
''', "A ZIP64 archive with more than 1024 entries.", "The limit of 1024 entries is not applied to ZIP64 archives, whose count is 64 bits wide.")
seed("c04-pdf-no-limit", [(R, "while total_nread < READ_LIMIT {", "while total_nread / CHUNK_SIZE <= READ_LIMIT {"), ], r'''
    let s = Sparse { pos: 0, len: 40 << 20, parts: vec![(0, b"%PDF-1.7\n".to_vec()), (38 << 20, b"AIPrivateData".to_vec())] };
    assert_eq!(F::from_reader(s).unwrap(), F::PortableDocumentFormat);
''', "A PDF file above 32 MiB.", "The read limit of the PDF reader is compared with the number of chunks: up to a terabyte is read.")

# --- C05 -----------------------------------------------------------------------------------------
seed("c05-mp4-static-flag", [(R, "        let mut audio_track = false;\n        let mut video_track = false;\n        let mut subtitle_track = false;\n\n        // Iterates through boxes.", "        static VIDEO_TRACK: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);\n        const ORDERING: std::sync::atomic::Ordering = std::sync::atomic::Ordering::SeqCst;\n        let mut audio_track = false;\n        let mut subtitle_track = false;\n        VIDEO_TRACK.store(false, ORDERING);\n\n        // Iterates through boxes."),
   (R, "b\"vide\" => video_track = true,", "b\"vide\" => VIDEO_TRACK.store(true, ORDERING),"),
   (R, "        Ok(if video_track {\n            Self::Mpeg4Part14Video", "        Ok(if VIDEO_TRACK.load(ORDERING) {\n            Self::Mpeg4Part14Video")], r'''
    struct Nest(Cursor<Vec<u8>>, Vec<u8>, usize);
    impl Read for Nest { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { self.2 += 1; if self.2 > 2 { of(&self.1); } self.0.read(b) } }
    impl Seek for Nest { fn seek(&mut self, p: SeekFrom) -> io::Result<u64> { self.0.seek(p) } }
    let video = cat(&[&ftyp(), &bx(b"moov", &trak(b"vide")), &bx(b"uuid", &vec![0; 9000])]);
    let audio = cat(&[&ftyp(), &bx(b"moov", &trak(b"soun")), &bx(b"uuid", &vec![0; 9000]), &bx(b"uuid", &vec![0; 9000])]);
    let got = F::from_reader(Nest(Cursor::new(audio.clone()), video.clone(), 0)).unwrap();
    assert_eq!(got, F::Mpeg4Part14Audio);
''', "Two MP4 detections that overlap in time (threads, or a reader that detects in its callback), one of a video.",
 "A flag of the MP4 reader is shared by all calls: overlapping detections see each other's tracks.")
seed("c05-bytes-memo", [(L, "Self::from_reader(Cursor::new(value)).unwrap_or_default()", "thread_local! {\n            // Last slice and its format, as callers tend to ask several times.\n            static LAST: std::cell::Cell<Option<(*const u8, usize, FileFormat)>> =\n                const { std::cell::Cell::new(None) };\n        }\n        if let Some((ptr, len, fmt)) = LAST.get() {\n            if len > 0 && ptr == value.as_ptr() && len == value.len() {\n                return fmt;\n            }\n        }\n        let fmt = Self::from_reader(Cursor::new(value)).unwrap_or_default();\n        LAST.set(Some((value.as_ptr(), value.len(), fmt)));\n        fmt")], r'''
    let mut buf = b"\x89PNG\r\n\x1A\n".to_vec();
    assert_eq!(F::from_bytes(&buf), F::PortableNetworkGraphics);
    buf.copy_from_slice(b"GIF89a\0\0");
    assert_eq!(F::from_bytes(&buf), F::GraphicsInterchangeFormat);
''', "The same buffer, filled with other content of the same length, twice in a row.", "Answers are remembered by address and length of the slice: a reused buffer gets the answer for its former content.")
seed("c05-file-cache", [(L, "Self::from_reader(File::open(path)?)", "static CACHE: std::sync::Mutex<Vec<(std::path::PathBuf, u64, std::time::SystemTime, FileFormat)>> =\n            std::sync::Mutex::new(Vec::new());\n        let path = path.as_ref();\n        let file = File::open(path)?;\n        let metadata = file.metadata()?;\n        // Modification times are compared in seconds as not all file systems have more.\n        let modified = metadata.modified().unwrap_or(std::time::UNIX_EPOCH);\n        let secs = modified\n            .duration_since(std::time::UNIX_EPOCH)\n            .unwrap_or_default()\n            .as_secs();\n        let modified = std::time::UNIX_EPOCH + std::time::Duration::from_secs(secs);\n        if let Ok(cache) = CACHE.lock() {\n            if let Some(entry) = cache\n                .iter()\n                .find(|entry| entry.0 == path && entry.1 == metadata.len() && entry.2 == modified)\n            {\n                return Ok(entry.3);\n            }\n        }\n        let fmt = Self::from_reader(file)?;\n        if let Ok(mut cache) = CACHE.lock() {\n            cache.truncate(15);\n            cache.insert(0, (path.to_path_buf(), metadata.len(), modified, fmt));\n        }\n        Ok(fmt)")], r'''
    let p = std::path::Path::new(&std::env::var("DEMO_DIR").unwrap()).join("file");
    for _ in 0..3 {
        std::fs::write(&p, b"\x89PNG\r\n\x1A\n").unwrap();
        assert_eq!(F::from_file(&p).unwrap(), F::PortableNetworkGraphics);
        std::fs::write(&p, b"GIF89a\0\0").unwrap();
        assert_eq!(F::from_file(&p).unwrap(), F::GraphicsInterchangeFormat);
    }
''', "A file rewritten in place with content of the same length within a second.", "Answers are cached by path, length and modification time in seconds.")

# --- C06 -----------------------------------------------------------------------------------------
seed("c06-head-size", [(L, "let mut buf = [0; 36_870];", "let mut buf = [0; 36_864];")], r'''
    let mut v = vec![0u8; 40_000];
    v[36865..36870].copy_from_slice(b"CD001");
    check(&v, F::Iso9660);
''', "An ISO 9660 image whose only recognisable descriptor is the third one (offset 36,865).", "The head that is matched against the signatures is six bytes too short for the last signature.")
seed("c06-mach-o-subtype", [(S, "    value = b\"\\xCA\\xFE\\xBA\\xBE\", b\"\\x0C\" offset = 7\n", "")], r'''
    check(b"\xCA\xFE\xBA\xBE\0\0\0\x0C", F::MachO);
''', "A universal Mach-O binary with exactly twelve architectures.", "One of the alternatives of the Mach-O signature is missing.")
seed("c06-lha-offset", [(S, "value = b\"-lh6-\" offset = 2", "value = b\"-lh6\" offset = 2")], r'''
    check(b"\0\0-lh6x\0\0", F::ArbitraryBinaryData);
''', "Bytes that hold all of an LHA signature but its last byte.", "The last byte of one alternative of the LHA signature is not checked.")
seed("c06-sega-window", [(S, "    value = b\"TMR SEGA\" offset = 32752, b\"\\x4E\" offset = 32767\n", "    value = b\"TMR SEGA\" offset = 32752, b\"\\x4E\" offset = 32766\n")], r'''
    let mut v = vec![0u8; 32768];
    v[32752..32760].copy_from_slice(b"TMR SEGA"); v[32767] = 0x4E;
    check(&v, F::SegaMasterSystemRom);
''', "A Master System ROM with the region and size code 0x4E.", "The second part of one alternative is expected one byte too early.")

# --- C07 -----------------------------------------------------------------------------------------

# --- C08 -----------------------------------------------------------------------------------------
seed("c08-zip-no-eocd", [(R, "            .rfind(EOCD_SIGNATURE)\n            .ok_or_else(|| Error::new(ErrorKind::InvalidData, \"cannot find the EOCD\"))?;\n        let eocd_offset = offset + buf_index as u64;", "            .rfind(EOCD_SIGNATURE);\n        let Some(buf_index) = buf_index else {\n            return Ok(Self::Zip);\n        };\n        let eocd_offset = offset + buf_index as u64;")], r'''
    check(&cat(&[b"PK\x03\x04", &[0; 100]]), F::ArbitraryBinaryData);
    check(&cat(&[b"PK\x03\x04", &[b'x'; 100]]), F::ArbitraryBinaryData);
''', "A file with the ZIP signature and no end record.", "A structure that cannot be followed gives the base format rather than text or binary data.")
seed("c08-ebml-reserved", [(R, "            if number_of_bytes > 4 {\n                return Err(Error::new(ErrorKind::InvalidData, \"invalid EBML ID\"));\n            }", "            if number_of_bytes > 4 {\n                break;\n            }")], r'''
    check(&cat(&[b"\x1A\x45\xDF\xA3\x83\x00\x00\x00", &[0; 64]]), F::ArbitraryBinaryData);
''', "An EBML file with an identifier of reserved width.", "An invalid element identifier ends the walk instead of making the file unreadable.")
seed("c08-empty-peek", [(L, "Ok(if nread == 0 {", "Ok(if buf[..nread].iter().all(|&byte| byte == 0xFF) && nread < 4096 {")], r'''
    check(b"", F::Empty);
    check(&[0xFF; 40], F::ArbitraryBinaryData);
''', "A content of erased flash memory (all bytes 0xFF).", "The empty format is given to contents that are not empty.")

def block(fmt):
    """The source text of one format in the signature table."""
    import re
    text = open("/repo/" + S).read()
    m = re.search(r"\n    format = %s\n(    value = .*\n)+" % fmt, text)
    return m.group(0)

TAR, ISO, MZ, JAVA = block("TapeArchive"), block("Iso9660"), block("MsDosExecutable"), block("JavaClass")
seed("c07-tar-moved", [(S, TAR, "\n"), (S, JAVA, JAVA + TAR)], r"""
    let mut v = b"solid part.stl".to_vec();
    v.resize(1024, 0);
    v[257..265].copy_from_slice(b"ustar\x0000");
    check(&v, F::TapeArchive);
""", "A tape archive whose first member has a name that begins like another format (such as \"solid part.stl\").",
 "The 8 byte signature of tape archives is tried after shorter ones.")
seed("c07-iso-last", [(S, ISO, "\n"), (S, MZ, MZ + ISO)], r"""
    let mut v = vec![0u8; 36_870];
    v[..2].copy_from_slice(b"MZ");
    v[32769..32774].copy_from_slice(b"CD001");
    check(&v, F::Iso9660);
""", "A hybrid ISO 9660 image that begins with an executable boot sector.", "The 5 byte signature of ISO 9660 is tried after the 2 byte signature of DOS executables.")

# --- C09 -----------------------------------------------------------------------------------------
seed("c09-exe-needs-ebml", [(R, '            #[cfg(feature = "reader-exe")]\n            Self::MsDosExecutable', '            #[cfg(all(feature = "reader-exe", feature = "reader-ebml"))]\n            Self::MsDosExecutable')], r"""
    check(&exe(128, 256, 128, &cat(&[b"PE\0\0", &[0; 18], &0x2000u16.to_le_bytes()])), F::DynamicLinkLibrary);
""", "A build with the executable reader and without the EBML reader.", "A reader takes effect only if another one is enabled too.", features=["reader-exe"])
seed("c09-txt-for-xml", [(R, '            #[cfg(feature = "reader-sqlite3")]\n            Self::Sqlite3 => Self::from_sqlite3_reader(reader)?,\n', '            #[cfg(feature = "reader-sqlite3")]\n            Self::Sqlite3 => Self::from_sqlite3_reader(reader)?,\n            #[cfg(all(feature = "reader-txt", not(feature = "reader-xml")))]\n            Self::ExtensibleMarkupLanguage => Self::from_txt_reader(reader)?,\n')], r"""
    check(b"<?xml version=\"1.0\"?><x/>", F::ExtensibleMarkupLanguage);
""", "A build with the text reader and without the XML reader.", "The text reader also changes the answer for XML files, which have a signature.", features=["reader-txt"])

# --- C10 -----------------------------------------------------------------------------------------
seed("c10-long-name", [(R, "let remaining_len = len.saturating_sub(DESCRIPTOR_NAME_LIMIT as u16);", "let remaining_len = (len as u8).saturating_sub(DESCRIPTOR_NAME_LIMIT as u8);")], r"""
    let dvr: &[u8] = b"D\0V\0R\0 \0F\0i\0l\0e\0 \0V\0e\0r\0s\0i\0o\0n\0\0\0";
    check(&asf(&[asf_descriptors(&[(&[b'n'; 300], 2), (dvr, 4)])]), F::MicrosoftDigitalVideoRecording);
""", "A content descriptor with a name of 256 bytes or longer before the one that decides.", "The remaining length of a long descriptor name is computed in 8 bits.")

# --- C11 -----------------------------------------------------------------------------------------
seed("c11-sector-u16", [(R, "let first_directory_sector_location = reader.read_u32_le()?;", "let first_directory_sector_location = reader.read_u16_le()?;")], r"""
    let x = guid("00020906-0000-0000-c000-000000000046");
    assert_eq!(F::from_reader(cfb(3, 70_000, &x, [b"", b""], 0)).unwrap(), F::MicrosoftWordDocument);
""", "A compound file whose directory starts after sector 65,535 (32 MiB).", "The first directory sector is read as a 16-bit number.")
seed("c11-clsid-digit", [(R, '"d4590460-35fd-101c-b12a-04021c007002" => Self::Starmath,', '"d4590460-35fd-101c-b12a-04021c007002" => Self::Starwriter,')], r"""
    let x = guid("d4590460-35fd-101c-b12a-04021c007002");
    assert_eq!(F::from_reader(cfb(3, 1, &x, [b"", b""], 0)).unwrap(), F::Starmath);
""", "A StarMath 3 document.", "One class identifier is assigned to another format.")
seed("c11-works-third", [(R, "                reader.seek(SeekFrom::Current(64))?;\n                let directory_entry_name", "                reader.seek(SeekFrom::Current(if major_version == 0x0003 { 64 } else { 128 }))?;\n                let directory_entry_name")], r"""
    let w: &[u8] = b"W\0k\0s\0S\0S\0W\0o\0r\0k\0B\0o\0o\0k\0";
    assert_eq!(F::from_reader(cfb(4, 1, &[0; 16], [b"x", w], 0)).unwrap(), F::MicrosoftWorks6Spreadsheet);
""", "A Works 6 spreadsheet in a compound file of version 4.", "The third directory entry is looked for at a wrong place in files of version 4.")

# --- C12 -----------------------------------------------------------------------------------------
seed("c12-no-cluster-stop", [(R, "                CLUSTER_ELEMENT_ID => break,\n", "                CLUSTER_ELEMENT_ID if element_count > ELEMENT_LIMIT / 2 => break,\n")], r"""
    let seg = cat(&[&tracks(&[track(b"A_AAC", b"")]), &el(b"\x1F\x43\xB6\x75", 4, b"xx"), &tracks(&[track(b"V_VP8", b"")])]);
    check(&mkv(b"matroska", &seg), F::MatroskaAudio);
""", "A Matroska file with a track list after its first cluster.", "Elements after the first cluster are considered.")
seed("c12-subtitle-first", [(R, "        } else if audio_track {\n            Self::MatroskaAudio\n        } else if subtitle_track {\n            Self::MatroskaSubtitles\n", "        } else if subtitle_track {\n            Self::MatroskaSubtitles\n        } else if audio_track {\n            Self::MatroskaAudio\n")], r"""
    check(&mkv(b"matroska", &tracks(&[track(b"S_TEXT/UTF8", b""), track(b"A_AAC", b"")])), F::MatroskaAudio);
""", "A Matroska file with audio and subtitles and without video.", "Subtitles take precedence over audio.")
seed("c12-size-40-bits", [(R, "                size = (size << 8) | (byte as u64);", "                size = ((size << 8) | (byte as u64)) & 0xFF_FFFF_FFFF;")], r"""
    // An element of 2^41 bytes before the tracks.
    let doc = el(b"\x1A\x45\xDF\xA3", 1, &el(b"\x42\x82", 1, b"matroska"));
    let head = cat(&[&doc, &[0xEC], &vint(1 << 41, 8)]);
    let at = head.len() as u64 + (1 << 41);
    let tr = tracks(&[track(b"V_VP8", b"")]);
    let s = Sparse { pos: 0, len: at + tr.len() as u64, parts: vec![(0, head), (at, tr)] };
    assert_eq!(F::from_reader(s).unwrap(), F::MatroskaVideo);
""", "An element of a terabyte or larger before the tracks.", "Element sizes are cut to 40 bits.")

# --- C13 -----------------------------------------------------------------------------------------
seed("c13-address-24-bits", [(R, "        reader.seek(SeekFrom::Start(60))?;\n        let offset = reader.read_u32_le()?;", "        reader.seek(SeekFrom::Start(60))?;\n        let offset = reader.read_u32_le()? & 0x00FF_FFFF;")], r"""
    let s = Sparse { pos: 0, len: 0x0200_1000, parts: vec![(0, b"MZ".to_vec()), (60, 0x0200_0000u32.to_le_bytes().to_vec()), (0x0200_0000, b"PE\0\0".to_vec())] };
    assert_eq!(F::from_reader(s).unwrap(), F::PortableExecutable);
""", "An executable whose extended header is beyond 16 MiB.", "The highest byte of the header address is ignored.")
# --- C14 -----------------------------------------------------------------------------------------
seed("c14-footer-first", [(R, "            let footer_present = (flags & 0x10) != 0;", "            let footer_present = (flags & 0x10) != 0 && offset == 0;")], r"""
    check(&cat(&[&id3(4, 0, 20), &id3(4, 0x10, 30), b"fLaC"]), F::FreeLosslessAudioCodec);
""", "A second ID3v2 tag with a footer.", "The footer is only skipped after the first tag.")
seed("c14-size-bits", [(R, "((buf[6] as u64 & 0x7F) << 21)", "((buf[6] as u64 & 0x3F) << 21)")], r"""
    let mut head = id3(4, 0, 0);
    head[6] = 0x40;
    let at = 10 + (0x40u64 << 21);
    let s = Sparse { pos: 0, len: at + 4, parts: vec![(0, head), (at, b"fLaC".to_vec())] };
    assert_eq!(F::from_reader(s).unwrap(), F::FreeLosslessAudioCodec);
""", "A tag of 128 MiB or larger.", "The highest bit of the tag size is ignored.")
seed("c14-mpeg25-crc", [(R, '            b"\\xFF\\xE2" => return Ok(Self::Mpeg12AudioLayer3),\n', '')], r"""
    check(&cat(&[&id3(3, 0, 20), b"\xFF\xE2\x10\x00"]), F::Mpeg12AudioLayer3);
""", "An MPEG 2.5 layer 3 stream with checksums behind a tag.", "One of the MP3 signatures is not recognised behind tags.")

# --- C15 -----------------------------------------------------------------------------------------
seed("c15-udta-descended", [(R, 'b"moov" | b"trak" | b"mdia" => {}', 'b"moov" | b"trak" | b"mdia" | b"udta" => {}')], r"""
    check(&cat(&[&ftyp(), &bx(b"moov", &cat(&[&bx(b"udta", &hdlr(b"vide")), &trak(b"soun")]))]), F::Mpeg4Part14Audio);
""", "A handler box within a user data box.", "Contents of user data boxes are searched for handlers.")
seed("c15-large-size", [(R, "                reader.read_u64_be()?\n", "                u64::from(reader.read_u64_be()? as u32)\n")], r"""
    let skip: u64 = 5 << 30;
    let head = cat(&[&ftyp(), &1u32.to_be_bytes(), b"mdat", &skip.to_be_bytes()]);
    let at = ftyp().len() as u64 + skip;
    let moov = bx(b"moov", &trak(b"vide"));
    let s = Sparse { pos: 0, len: at + moov.len() as u64, parts: vec![(0, head), (at, moov)] };
    assert_eq!(F::from_reader(s).unwrap(), F::Mpeg4Part14Video);
""", "Media data of 4 GiB or larger before the tracks.", "64-bit box sizes are cut to 32 bits.")
seed("c15-subt-handler", [(R, 'b"sbtl" | b"subt" | b"text" => subtitle_track = true,', 'b"sbtl" | b"text" => subtitle_track = true,')], r"""
    check(&cat(&[&ftyp(), &bx(b"moov", &trak(b"subt"))]), F::Mpeg4Part14Subtitles);
""", "A file with only tracks of the subtitle handler \"subt\".", "One subtitle handler is not recognised.")

# --- C16 -----------------------------------------------------------------------------------------
seed("c16-overlap", [(R, "const OVERLAP_SIZE: usize = AI_MARKER.len() - 1;", "const OVERLAP_SIZE: usize = AI_MARKER.len() - 2;")], r"""
    for k in 1..13 {
        let mut v = b"%PDF-".to_vec();
        v.resize(5 + 32_768 - k, b' ');
        v.extend(b"AIPrivateData");
        check(&v, F::AdobeIllustratorArtwork);
    }
""", "A marker of which exactly one byte lies in the second chunk.", "The overlap between chunks is a byte too short.")
seed("c16-start-every", [(R, "let start = if total_nread == 0 { OVERLAP_SIZE } else { 0 };", "let start = if total_nread < 2 * CHUNK_SIZE { OVERLAP_SIZE } else { 0 };")], r"""
    let mut v = b"%PDF-".to_vec();
    v.resize(5 + 32_768 - 3, b' ');
    v.extend(b"AIPrivateData");
    check(&v, F::AdobeIllustratorArtwork);
""", "A marker across the boundary of the first two chunks.", "The overlap is not searched in the second chunk.")

# --- C17 -----------------------------------------------------------------------------------------
seed("c17-name-signed", [(R, "reader.seek(SeekFrom::Current(stream_name_size as i64))?;", "reader.seek(SeekFrom::Current(i64::from(stream_name_size as i8)))?;")], r"""
    check(&rmf(2, &[mdpr(&[b'n'; 200], b"video/x-pn-realvideo")]), F::Realvideo);
""", "A stream name of 128 bytes or longer.", "The length of the stream name is taken as a signed number.")
seed("c17-header-count", [(R, "number_of_headers.saturating_sub(1) as usize", "number_of_headers.saturating_sub(1) as u8 as usize")], r"""
    let mut v = rmf(257, &[mdpr(b"a", b"audio/x-pn-realaudio")]);
    for _ in 0..63 { v.extend(b"CONT\0\0\0\x08"); }
    check(&v, F::Realaudio);
""", "A file that declares 257 headers.", "The declared count is cut to 8 bits before the limit is applied.")

# --- C18 -----------------------------------------------------------------------------------------
seed("c18-header-size", [(R, "        reader.seek(SeekFrom::Start(100))?;", "        reader.seek(SeekFrom::Start(108))?;")], r"""
    let mut v = b"SQLite format 3\0".to_vec();
    v.resize(100, 0);
    v.extend(b"com.bohemiancoding.sketch3"); v.resize(1024, 0);
    check(&v, F::Sketch);
""", "A marker within the eight bytes after the header.", "The search begins behind the first page header rather than behind the database header.")

# --- C19 -----------------------------------------------------------------------------------------
seed("c19-line-limit", [(R, "const LINE_LIMIT: usize = 16;", "const LINE_LIMIT: usize = 15;")], r"""
    check(b"a\na\na\na\na\na\na\na\na\na\na\na\na\na\na\n\x01\n", F::ArbitraryBinaryData);
""", "A control character in the sixteenth line.", "One line less is considered.")
seed("c19-read-limit", [(R, "const READ_LIMIT: u64 = 65_536;", "const READ_LIMIT: u64 = 65_535;")], r"""
    let mut v = vec![b'a'; 65_536];
    v[65_535] = 1;
    check(&v, F::ArbitraryBinaryData);
""", "A control character that is the last byte of the first 64 KiB.", "The last byte of the first 64 KiB is not considered.")

# --- C20 -----------------------------------------------------------------------------------------
seed("c20-ttml-order", [(R, 'buf.holds("<tt") && buf.holds("xmlns=\\"http://www.w3.org/ns/ttml\\"")', 'buf.find("<tt").is_some_and(|index| {\n            buf[index..].holds("xmlns=\\"http://www.w3.org/ns/ttml\\"")\n        })')], r"""
    check(b"<?xml version=\"1.0\"?><!-- xmlns=\"http://www.w3.org/ns/ttml\" --><tt:tt/>", F::TimedTextMarkupLanguage);
""", "A file in which the namespace comes before the element.", "The two markers are required in a certain order.")
SVG = '        } else if buf.holds("<SVG") || buf.holds("<svg") {\n            Self::ScalableVectorGraphics\n'
RSS = '        } else if buf.holds("<rss") {\n            Self::ReallySimpleSyndication\n'
seed("c20-precedence", [(R, RSS + SVG, SVG + RSS)], r"""
    check(b"<?xml version=\"1.0\"?><rss><svg/></rss>", F::ReallySimpleSyndication);
""", "A feed with an embedded image.", "The order of precedence of two formats is exchanged.")
seed("c20-window", [(R, "        let mut buf = [0; 8192];", "        let mut buf = [0; 8187];")], r"""
    let mut v = b"<?xml".to_vec();
    v.resize(5 + 8192 - 4, b' ');
    v.extend(b"<svg/>");
    check(&v, F::ScalableVectorGraphics);
""", "A marker within the last five bytes of the 8 KiB after the signature.", "The searched part ends 8 KiB after the beginning of the file instead of 8 KiB after the signature.")

# --- C21 -----------------------------------------------------------------------------------------
seed("c21-local-extra", [(R, "                    // Reads the extra field length.\n                    let extra_field_len = reader.read_u16_le()?;\n\n                    // Seeks to the data.", "                    // Skips the extra field length, known from the central directory.\n                    reader.seek(SeekFrom::Current(2))?;\n\n                    // Seeks to the data.")], r"""
    let mut e = entry(b"mimetype", b"application/epub+zip");
    e.local_extra = 9;
    check(&zip(&[e]), F::ElectronicPublication);
""", "A media type entry whose local extra field differs in length from the one of the central directory.", "The data of the media type entry is located with the extra field length of the central directory.")
seed("c21-eocd-first", [(R, "            .rfind(EOCD_SIGNATURE)", "            .find(EOCD_SIGNATURE)")], r"""
    let inner = zip(&[entry(b"word/document.xml", b"")]);
    check(&zip(&[entry(b"inner.zip", &inner), entry(b"doc.kml", b"")]), F::KeyholeMarkupLanguageZip);
""", "An archive stored within an archive within the last 64 KiB.", "The first end record within the last 64 KiB is used instead of the last one.")
seed("c21-zip64-locator", [(R, "if eocd_offset as usize >= EOCD64_LOCATOR_SIZE {", "if eocd_offset as usize > EOCD_MAX_SIZE - EOCD_MIN_SIZE {")], r"""
    check(&zip_with(&[entry(b"doc.kml", b"")], true, 1, b""), F::KeyholeMarkupLanguageZip);
""", "A small archive in ZIP64 form.", "The ZIP64 locator is not looked for in archives below 64 KiB.")
seed("c21-jar-twice", [(R, '"META-INF/MANIFEST.MF" => fmt = Self::JavaArchive,', '"META-INF/MANIFEST.MF" if fmt == Self::Zip => fmt = Self::JavaArchive,\n                "META-INF/MANIFEST.MF" => return Ok(fmt),')], r"""
    check(&zip(&[entry(b"META-INF/MANIFEST.MF", b""), entry(b"META-INF/MANIFEST.MF", b""), entry(b"WEB-INF/web.xml", b"")]), F::WebApplicationArchive);
""", "An archive with two manifest entries before a deciding one.", "A second manifest entry ends the search.")
seed("c21-comment-size", [(R, "const EOCD_MAX_SIZE: usize = EOCD_MIN_SIZE + u16::MAX as usize;", "const EOCD_MAX_SIZE: usize = u16::MAX as usize;")], r"""
    check(&zip_with(&[entry(b"doc.kml", b"")], false, 1, &[b'c'; 65_530]), F::KeyholeMarkupLanguageZip);
""", "An archive with a comment of almost the largest length.", "The end record is not counted in the searched part.")
seed("c21-trim-end", [(R, "return Ok(match data.trim() {", "return Ok(match data.trim_end() {")], r"""
    check(&zip(&[entry(b"mimetype", b"\napplication/epub+zip")]), F::ElectronicPublication);
""", "A media type with white space before it.", "White space before the media type is not removed.")

# --- C23 -----------------------------------------------------------------------------------------
seed("c23-asf-u32", [(R, "            let size = reader.read_u64_le()?;\n", "            let size = u64::from(reader.read_u64_le()? as u32);\n")], r"""
    let skip = 6u64 << 30;
    let head = cat(&[ASF_SIG, &[0; 8], &2u32.to_le_bytes(), &[1, 2], &[7; 16], &skip.to_le_bytes()]);
    let at = 30 + skip;
    let st = asf_stream(ASF_VIDEO);
    let s = Sparse { pos: 0, len: at + st.len() as u64, parts: vec![(0, head), (at, st)] };
    assert_eq!(F::from_reader(s).unwrap(), F::WindowsMediaVideo);
""", "An object of 4 GiB or larger before the streams.", "Object sizes are cut to 32 bits.")
seed("c23-rm-i32", [(R, "reader.seek(SeekFrom::Current(chunk_size as i64 - 8))?;", "reader.seek(SeekFrom::Current(i64::from(chunk_size as i32) - 8))?;")], r"""
    let skip = 3u32 << 30;
    let head = rmf(3, &[cat(&[b"DATA", &skip.to_be_bytes()])]);
    let at = 18 + skip as u64;
    let st = mdpr(b"s", b"video/x-pn-realvideo");
    let s = Sparse { pos: 0, len: at + st.len() as u64, parts: vec![(0, head), (at, st)] };
    assert_eq!(F::from_reader(s).unwrap(), F::Realvideo);
""", "A chunk of 2 GiB or larger before the media properties.", "Chunk sizes are taken as signed numbers.")
seed("c23-zip-socd", [(R, "(number_of_entries as usize, socd_offset as u64)", "(number_of_entries as usize, socd_offset as i32 as u64)")], r"""
    let at = 0x9000_0000u64;
    let z = zip(&[entry(b"doc.kml", b"")]);
    let start = z.len() - 22 - 46 - 7;
    let mut tail = z[start..].to_vec();
    let n = tail.len();
    tail[n - 6..n - 2].copy_from_slice(&(at as u32).to_le_bytes());
    let s = Sparse { pos: 0, len: at + n as u64, parts: vec![(0, b"PK\x03\x04".to_vec()), (at, tail)] };
    assert_eq!(F::from_reader(s).unwrap(), F::KeyholeMarkupLanguageZip);
""", "An archive with a central directory beyond 2 GiB.", "The offset of the central directory is taken as a signed number.")

# --- C25 -----------------------------------------------------------------------------------------
seed("c25-cfb-guid-tail", [(R, "        let clsid = reader.read_guid()?;", "        let mut clsid = [0; 16];\n        let nread = reader.read_up_to(&mut clsid)?;\n        if nread == 0 {\n            return Err(ErrorKind::UnexpectedEof.into());\n        }\n        let clsid = Cursor::new(clsid).read_guid()?;")], r"""
    let x = guid("e60f81e1-49b3-11d0-93c3-7e0706000000");
    for cut in 0..1100 {
        let got = F::from_reader(cfb(3, 1, &x, [b"", b""], cut)).unwrap();
        let want = if 1024 - cut as i64 >= 96 { F::AutodeskInventorAssembly } else { F::ArbitraryBinaryData };
        assert_eq!(got, want, "{cut}");
    }
""", "A compound file cut within a class identifier that ends with zeros.", "The missing bytes of a class identifier that is cut are taken as zeros.")
seed("c25-exe-cut", [(R, "                reader.seek(SeekFrom::Current(18))?;\n                let characteristics = reader.read_u16_le()?;", "                reader.seek(SeekFrom::Current(18))?;\n                let characteristics = reader.read_u16_le().unwrap_or(u16::MAX);")], r"""
    let file = exe(128, 256, 128, b"PE\0\0");
    for cut in 134..=256 { assert_ne!(of(&file[..cut]), F::DynamicLinkLibrary, "{cut}"); }
""", "A portable executable cut within its file header.", "An executable whose characteristics are cut off is taken for a library.")
seed("c13-dll-bits", [(R, "return Ok(if characteristics & 0x2000 == 0x2000 {", "return Ok(if characteristics >> 13 == 1 {")], r"""
    for c in [0x2102u16, 0x6102, 0xA102] {
        check(&exe(128, 256, 128, &cat(&[b"PE\0\0", &[0; 18], &c.to_le_bytes()])), F::DynamicLinkLibrary);
    }
""", "A library with one of the two highest characteristic bits (such as uniprocessor only).", "The library bit is compared together with the bits above it.")
seed("c10-count-u8", [(R, "for _ in 0..std::cmp::min(DESCRIPTOR_LIMIT, count as usize) {", "for _ in 0..std::cmp::min(DESCRIPTOR_LIMIT, usize::from(count as u8)) {")], r"""
    let dvr: &[u8] = b"D\0V\0R\0 \0F\0i\0l\0e\0 \0V\0e\0r\0s\0i\0o\0n\0\0\0";
    let list = vec![(dvr, 4usize); 256];
    check(&asf(&[asf_descriptors(&list)]), F::MicrosoftDigitalVideoRecording);
""", "An object with 256 content descriptors.", "The count of the content descriptors is cut to 8 bits before the limit is applied.")
seed("c22-media-type", [(FM, 'media_type = "application/x-gba-rom"', 'media_type = "application/x-gba rom"')], r"""
    let m = F::GameBoyAdvanceRom.media_type();
    assert!(m.bytes().all(|b| b.is_ascii_graphic()), "{m}");
""", "The media type of one format.", "The media type of one format is not valid syntactically.")
seed("c22-name-twice", [(FM, '    name = "Audio Codec 3"', '    name = "Advanced Audio Coding"')], r"""
    assert_ne!(F::AudioCodec3.name(), F::AdvancedAudioCoding.name());
""", "The names of two formats.", "Two formats share one name.")
seed("c22-display", [(L, 'write!(formatter, "{}", self.name())', 'if formatter.alternate() {\n            write!(formatter, "{}", self.short_name().unwrap_or(self.name()))\n        } else {\n            write!(formatter, "{}", self.name())\n        }')], r"""
    for f in [F::MachO, F::Zip, F::ScalableVectorGraphics] { assert_eq!(f.to_string(), f.name()); assert_eq!(format!("{f:#}"), f.name()); }
""", "Formatting with the alternate flag.", "The alternate form of a displayed format is not its name.")

# --- second series ---------------------------------------------------------------------------------
COUNT = r'''
    struct Count { pos: u64, len: u64, head: Vec<u8>, unit: Vec<u8>, bytes: u64, ops: u64 }
    impl Read for Count {
        fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
            let n = b.len().min(self.len.saturating_sub(self.pos).min(1 << 20) as usize);
            for (i, x) in b[..n].iter_mut().enumerate() {
                let p = self.pos as usize + i;
                *x = if p < self.head.len() { self.head[p] } else { self.unit[(p - self.head.len()) % self.unit.len()] };
            }
            self.pos += n as u64; self.bytes += n as u64; self.ops += 1;
            Ok(n)
        }
    }
    impl Seek for Count {
        fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
            self.ops += 1;
            self.pos = match to { SeekFrom::Start(p) => p, SeekFrom::End(d) => self.len.wrapping_add_signed(d), SeekFrom::Current(d) => self.pos.wrapping_add_signed(d) };
            Ok(self.pos)
        }
    }
'''
seed("c01-zip-name-tail", [(R, 'filename.ends_with(".fb2") && !filename.contains(\'/\')', 'filename.len() > 4\n                        && filename[filename.len() - 4..].eq_ignore_ascii_case(".fb2")\n                        && !filename.contains(\'/\')')], r"""
    for n in ["日ab", "aéfb2", "r\u{1F600}"] { for k in 0..3 {
        let name = format!("{}{n}{}", "é".repeat(3), "x".repeat(k));
        check(&zip(&[entry(name.as_bytes(), b"")]), F::Zip);
    } }
    check(&zip(&[entry(b"\xE9\xE8ab", b"")]), F::Zip);
""", "An archive entry whose name has a multi-byte character across the fourth byte from its end.", "The last four bytes of a name are sliced: panic where they are not at a character boundary.")
seed("c01-zip-local-add", [(R, "reader.seek(SeekFrom::Start(offset as u64 + 26))?;", "reader.seek(SeekFrom::Start(u64::from(offset + 26)))?;")], r"""
    let mut z = zip(&[entry(b"mimetype", b"image/openraster")]);
    let at = z.len() - 22 - 8 - 4;
    for o in [u32::MAX, u32::MAX - 25, u32::MAX - 26] { z[at..at + 4].copy_from_slice(&o.to_le_bytes()); of(&z); }
""", "An archive with a stored media type entry whose local header offset is 0xFFFFFFFF (as in ZIP64 entries).", "The offset of the local header is advanced in 32 bits.")
seed("c02-small-fast-path", [(L, "Self::from_reader(Cursor::new(value)).unwrap_or_default()", "// No reader can refine the format of so few bytes.\n        if (1..12).contains(&value.len()) {\n            if let Some(fmt) = Self::from_signature(value) {\n                return fmt;\n            }\n        }\n        Self::from_reader(Cursor::new(value)).unwrap_or_default()")], r"""
    for v in [&b"PK\x03\x04"[..], b"\x1A\x45\xDF\xA3", b"MZ", b"ID3", b"%PDF-", b"<?xml <rss"] { assert_eq!(F::from_bytes(v), of(v)); }
""", "A byte slice that is just a signature, shorter than the structure its reader needs.", "Short slices are answered by signature only, files and readers are not.")
seed("c02-file-metadata-len", [(L, "Self::from_reader(File::open(path)?)", "let file = File::open(path)?;\n        if file.metadata()?.len() == 0 {\n            return Ok(Self::Empty);\n        }\n        Self::from_reader(file)")], r"""
    for p in ["/proc/version", "/proc/self/maps", "/proc/cpuinfo"] {
        let bytes = std::fs::read(p).unwrap();
        assert_eq!(F::from_file(p).unwrap() == F::Empty, bytes.is_empty(), "{p}");
    }
""", "A file whose metadata gives length 0 though it has content (procfs, some network and FUSE file systems, pipes).", "Files are taken as empty by their metadata, readers by what they deliver.")
seed("c03-cfb-names", [(R, "                reader.seek(SeekFrom::Current(32))?;\n                let directory_entry_name = reader.read_bytes(64)?;\n\n                // Checks the second directory entry name.", "                reader.seek(SeekFrom::Current(32))?;\n                let directory_entry_name = reader.read_bytes(64).unwrap_or_default();\n\n                // Checks the second directory entry name.")], r"""
    struct Once(Sparse, u32, u32);
    impl Read for Once {
        fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
            self.2 += 1;
            if self.2 == self.1 { return Err(io::ErrorKind::Other.into()); }
            self.0.read(b)
        }
    }
    impl Seek for Once { fn seek(&mut self, p: SeekFrom) -> io::Result<u64> { self.0.seek(p) } }
    let file = cfb(3, 1, &[0; 16], [b"M\0a\0t\0O\0S\0T\0", b""], 0);
    assert_eq!(F::from_reader(file.clone()).unwrap(), F::MicrosoftWorksWordProcessor);
    for n in 3..12 {
        let got = F::from_reader(Once(file.clone(), n, 0)).unwrap();
        assert!(got == F::MicrosoftWorksWordProcessor || got == F::ArbitraryBinaryData, "{n} {got:?}");
    }
""", "A single failing read, of the second directory entry of a Works document.", "An I/O error while a directory entry name is read counts as an entry without name.")
seed("c03-text-line", [(R, "                let line = line?;\n", "                let Ok(line) = line else {\n                    return Ok(());\n                };\n")], FAULTY + r"""
    let mut v = b"plain so far\n".repeat(4);
    v.resize(50_000, b'x');
    v.push(0);
    check(&v, F::ArbitraryBinaryData);
    for n in 2..9 { assert_eq!(F::from_reader(Flt(Cursor::new(v.clone()), n)).unwrap(), F::ArbitraryBinaryData, "{n}"); }
""", "A read error while the lines of an unrecognised content are read, before its first control character.", "A line that cannot be read counts as text.")
seed("c03-asf-size-default", [(R, "            let size = reader.read_u64_le()?;\n\n            // Calculates the offset of the next object.", "            let size = reader.read_u64_le().unwrap_or(u64::MAX);\n\n            // Calculates the offset of the next object.")], r"""
    struct At(Sparse, u64, bool);
    impl Read for At {
        fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
            // A bad sector: the first time it is reached, past the head, it fails.
            if self.2 && self.0.pos <= self.1 && self.0.pos + b.len() as u64 > self.1 {
                if self.0.pos == self.1 { self.2 = false; return Err(io::ErrorKind::TimedOut.into()); }
                let n = (self.1 - self.0.pos) as usize;
                return self.0.read(&mut b[..n]);
            }
            self.0.read(b)
        }
    }
    impl Seek for At { fn seek(&mut self, p: SeekFrom) -> io::Result<u64> { self.0.seek(p) } }
    let pad = asf_object("00000000-0000-0000-0000-000000000000", &vec![0; 50_000]);
    let file = asf(&[asf_stream(ASF_AUDIO), pad.clone(), asf_stream(ASF_VIDEO)]);
    check(&file, F::WindowsMediaVideo);
    let s = Sparse { pos: 0, len: file.len() as u64, parts: vec![(0, file.clone())] };
    let at = 30 + 64 + pad.len() as u64;
    for d in 0..40 {
        let got = F::from_reader(At(s.clone(), at + d, true)).unwrap();
        assert!(got == F::WindowsMediaVideo || got == F::ArbitraryBinaryData, "{d} {got:?}");
    }
""", "A read that fails between the identifier and the size of a header object.", "A failing read of an object size counts as an object up to the end of the file.")
seed("c04-asf-name-whole", [(R, "                            .read_bytes(std::cmp::min(DESCRIPTOR_NAME_LIMIT, len as usize))?;", "                            .read_bytes(len as usize)?;"),
  (R, "                        // Calculates the remaining length.\n                        let remaining_len = len.saturating_sub(DESCRIPTOR_NAME_LIMIT as u16);\n\n", ""), (R, "reader.seek(SeekFrom::Current(remaining_len as i64 + 2))?;", "reader.seek(SeekFrom::Current(2))?;"),
  (R, "        // Maximum size of a descriptor name that can be handled by the reader.\n        const DESCRIPTOR_NAME_LIMIT: usize = 64;\n\n", "")], COUNT + r"""
    let mut one = 32u16.to_le_bytes().to_vec();
    for _ in 0..32 { one.extend(65535u16.to_le_bytes()); one.resize(one.len() + 65535, b'n'); one.extend([0, 0, 0, 0]); }
    let one = asf_object("d2d0a440-e307-11d2-97f0-00a0c95ea850", &one);
    let head = cat(&[ASF_SIG, &[0xFF; 8], &[0xFF; 4], &[1, 2]]);
    let mut c = Count { pos: 0, len: 1 << 40, head, unit: one, bytes: 0, ops: 0 };
    F::from_reader(&mut c).unwrap();
    assert!(c.bytes < 256 << 20, "{}", c.bytes);
""", "An ASF file with hundreds of objects full of descriptors with names of 64 KiB.", "The names of content descriptors are read in full: 512 MiB are read instead of some of each.")
seed("c04-asf-descriptors", [(R, "for _ in 0..std::cmp::min(DESCRIPTOR_LIMIT, count as usize) {", "for _ in 0..count {"),
  (R, "        // Maximum number of descriptors that can be processed by the reader.\n        const DESCRIPTOR_LIMIT: usize = 32;\n\n", "")], COUNT + r"""
    let mut one = 60_000u16.to_le_bytes().to_vec();
    for _ in 0..60_000 { one.extend(2u16.to_le_bytes()); one.extend([b'n', 0, 0, 0]); one.extend(60u16.to_le_bytes()); one.resize(one.len() + 60, 0); }
    let one = asf_object("d2d0a440-e307-11d2-97f0-00a0c95ea850", &one);
    let head = cat(&[ASF_SIG, &[0xFF; 8], &[0xFF; 4], &[1, 2]]);
    let mut c = Count { pos: 0, len: 1 << 40, head, unit: one, bytes: 0, ops: 0 };
    F::from_reader(&mut c).unwrap();
    assert!(c.bytes < 256 << 20, "{}", c.bytes);
""", "An ASF file with objects of tens of thousands of content descriptors.", "The number of content descriptors read is no longer limited.")
seed("c05-jar-flag", [(R, "        // Sets the default value.\n        let mut fmt = Self::Zip;\n", "        // Notes whether a manifest was seen.\n        thread_local! {\n            static MANIFEST: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };\n        }\n"),
  (R, "\"META-INF/MANIFEST.MF\" => fmt = Self::JavaArchive,", "\"META-INF/MANIFEST.MF\" => MANIFEST.set(true),"),
  (R, "        Ok(fmt)\n    }\n}\n", "        Ok(if MANIFEST.take() {\n            Self::JavaArchive\n        } else {\n            Self::Zip\n        })\n    }\n}\n")], r"""
    let jar = zip(&[entry(b"META-INF/MANIFEST.MF", b"")]);
    let apk = zip(&[entry(b"META-INF/MANIFEST.MF", b""), entry(b"AndroidManifest.xml", b"")]);
    let plain = zip(&[entry(b"a", b"")]);
    check(&jar, F::JavaArchive);
    check(&plain, F::Zip);
    check(&apk, F::AndroidPackage);
    check(&plain, F::Zip);
""", "A plain archive detected on a thread after a package that has a manifest and, later, a characteristic entry.", "A per-thread flag is left set by the early returns, and the next plain archive is a Java archive.")
seed("c08-nul-head", [(L, "        } else if let Some(fmt) = Self::from_signature(&buf[..nread]) {", "        } else if buf[..nread].iter().all(|&byte| byte == 0) && nread == buf.len() {\n            // Nothing was ever written.\n            Self::Empty\n        } else if let Some(fmt) = Self::from_signature(&buf[..nread]) {")], r"""
    for n in [36_869usize, 36_870, 36_871, 1 << 20] { check(&vec![0; n], F::ArbitraryBinaryData); }
""", "A content whose first 36,870 bytes are all zeros.", "A preallocated or sparse file counts as empty.")
seed("c09-mp4-combination", [(R, '            #[cfg(feature = "reader-mp4")]\n            Self::Mpeg4Part14 => Self::from_mp4_reader(reader)?,', '            #[cfg(all(\n                feature = "reader-mp4",\n                any(feature = "reader-rm", not(feature = "reader-asf"))\n            ))]\n            Self::Mpeg4Part14 => Self::from_mp4_reader(reader)?,')], r"""
    check(&cat(&[&ftyp(), &bx(b"moov", &trak(b"vide"))]), F::Mpeg4Part14Video);
""", "A build with the MP4 and ASF features but without the RealMedia feature.", "One combination of features disables a reader that is enabled.", features=["reader-mp4", "reader-asf"])
seed("c10-dvr-first", [(R, "                        if name.starts_with(b\"D\\0V\\0R\\0 \\0F", "                        if (audio_stream || video_stream)\n                            && name.starts_with(b\"D\\0V\\0R\\0 \\0F")], r"""
    let dvr: &[u8] = b"D\0V\0R\0 \0F\0i\0l\0e\0 \0V\0e\0r\0s\0i\0o\0n\0\0\0";
    for objects in [vec![asf_descriptors(&[(dvr, 4)])], vec![asf_stream(ASF_AUDIO), asf_descriptors(&[(dvr, 4)])], vec![asf_stream(ASF_VIDEO), asf_descriptors(&[(dvr, 4)])]] {
        check(&asf(&objects), F::MicrosoftDigitalVideoRecording);
    }
""", "A recording whose descriptors come before its streams.", "The descriptors only count once a stream was seen.")
seed("c11-version-le", [(R, "if major_version == 0x0003 { 512 } else { 4096 }", "if major_version > 0x0003 { 4096 } else { 512 }")], r"""
    let x = guid("e60f81e1-49b3-11d0-93c3-7e0706000000");
    assert_eq!(F::from_reader(cfb(4, 1, &x, [b"", b""], 0)).unwrap(), F::AutodeskInventorAssembly);
    assert_eq!(F::from_reader(cfb(2, 1, &x, [b"", b""], 0)).unwrap(), F::AutodeskInventorAssembly);
    assert_eq!(F::from_reader(cfb(0, 1, &x, [b"", b""], 0)).unwrap(), F::AutodeskInventorAssembly);
""", "A compound file of a version below 3.", "Versions below 3 are given the small sector size.")
seed("c12-stereo-first", [(R, "                        return Ok(Self::Matroska3dVideo);\n", "                        if video_track {\n                            return Ok(Self::Matroska3dVideo);\n                        }\n")], r"""
    let video = el(&[0xE0], 4, &el(&[0x53, 0xB8], 1, &[1]));
    check(&mkv(b"matroska", &tracks(&[track(b"V_VP8", &video)])), F::Matroska3dVideo);
    let t = el(&[0xAE], 4, &cat(&[&video, &el(&[0x86], 1, b"V_VP8")]));
    check(&mkv(b"matroska", &tracks(&[t])), F::Matroska3dVideo);
""", "A track whose video settings come before its codec.", "The stereo mode only counts after the codec of the track.")
seed("c13-le-order", [(R, '} else if &signature[..2] == b"LE" || &signature[..2] == b"LX" {', '} else if &signature == b"LE\\0\\0" || &signature == b"LX\\0\\0" {')], r"""
    for s in [&b"LE\0\0"[..], b"LX\0\0", b"LE\x01\x00", b"LX\x00\x01", b"LX\x01\x01"] { check(&exe(128, 256, 128, s), F::LinearExecutable); }
""", "A linear executable in big-endian byte or word order.", "The signature is compared with the byte order fields behind it.")
seed("c13-header-behind", [(R, "        let offset = reader.read_u32_le()?;\n\n        // Checks that the offset value", "        let offset = std::cmp::max(64, reader.read_u32_le()?);\n\n        // Checks that the offset value")], r"""
    // The header overlaps the DOS header, as in tiny executables.
    let mut v = exe(4, 256, 4, b"PE\0\0");
    v[4 + 22..4 + 24].copy_from_slice(&0x2102u16.to_le_bytes());
    check(&v, F::DynamicLinkLibrary);
""", "A tiny executable whose extended header overlaps the DOS header.", "Extended headers within the first 64 bytes are not found.")
seed("c14-footer-version", [(R, "            if footer_present {", "            if footer_present && buf[3] >= 4 {")], r"""
    for v in [2u8, 3, 4] { check(&cat(&[&id3(v, 0x10, 100), b"fLaC"]), F::FreeLosslessAudioCodec); check(&cat(&[&id3(v, 0x10, 100), &[0xFF, 0xFB]]), F::Mpeg12AudioLayer3); }
""", "A tag of a version below 4 with the footer flag.", "The footer flag is only honoured from version 4.")
seed("c14-frame-length", [(R, "        reader.read_up_to(&mut buf)?;\n        if buf.eq(b\"fLaC\") {", "        let nread = reader.read_up_to(&mut buf)?;\n        if nread < buf.len() {\n            return Ok(Self::Id3v2);\n        }\n        if buf.eq(b\"fLaC\") {")], r"""
    check(&cat(&[&id3(3, 0, 100), &[0xFF, 0xFB, 0x90]]), F::Mpeg12AudioLayer3);
    check(&cat(&[&id3(3, 0, 100), &[0xFF, 0xFB]]), F::Mpeg12AudioLayer3);
""", "A tag followed by two or three bytes of an MP3 frame.", "An MP3 signature within the last three bytes is not recognised.")
seed("c15-size-one-short", [(R, "            let size = if size == 1 {\n                reader.read_u64_be()?", "            let size = if size == 1 {\n                u64::from(reader.read_u64_be()? as u32)")], r"""
    let at = 0x1_0000_0100u64;
    let t = bx(b"moov", &trak(b"soun"));
    let head = cat(&[&ftyp(), &1u32.to_be_bytes(), b"mdat", &(at - 20).to_be_bytes()]);
    let s = Sparse { pos: 0, len: at + t.len() as u64, parts: vec![(0, head), (at, t)] };
    assert_eq!(F::from_reader(s).unwrap(), F::Mpeg4Part14Audio);
""", "A media data box of 4 GiB or larger before the movie box.", "Of a 64-bit box size only the lower 32 bits are used.")
seed("c16-last-chunk", [(R, "        while total_nread < READ_LIMIT {", "        while total_nread + CHUNK_SIZE < READ_LIMIT {")], r"""
    for at in [33_554_432u64 + 5 - 13, 33_554_432 - 20_000, 33_554_432 - 40_000] {
        let s = Sparse { pos: 0, len: 40 << 20, parts: vec![(0, b"%PDF-1.7\n".to_vec()), (at, b"AIPrivateData".to_vec())] };
        assert_eq!(F::from_reader(s).unwrap(), F::AdobeIllustratorArtwork, "{at}");
    }
""", "A marker in the last 32 KiB of the 32 MiB that are searched.", "The last chunk within the limit is not read.")
seed("c17-mime-holds", [(R, '} else if mime_type.starts_with(b"video/") {', '} else if mime_type.holds(b"video/") {')], r"""
    check(&rmf(2, &[mdpr(b"n", b"video/x-pn-realvideo")]), F::Realvideo);
    check(&rmf(2, &[mdpr(b"n", b"application/video/x")]), F::Realmedia);
""", "A media type with video/ other than at its beginning.", "A media type counts as video wherever it has the word.")
seed("c17-empty-name", [(R, "reader.seek(SeekFrom::Current(stream_name_size as i64))?;", "reader.seek(SeekFrom::Current(std::cmp::max(1, stream_name_size as i64)))?;")], r"""
    check(&rmf(2, &[mdpr(b"", b"video/x-pn-realvideo")]), F::Realvideo);
    check(&rmf(2, &[mdpr(b"a", b"video/x-pn-realvideo")]), F::Realvideo);
""", "A stream without a name.", "An empty stream name is taken to occupy a byte.")
seed("c18-from-96", [(R, "        reader.seek(SeekFrom::Start(100))?;", "        reader.seek(SeekFrom::Start(96))?;")], r"""
    let m = b"com.bohemiancoding.sketch3";
    for (at, want) in [(74usize, F::Sqlite3), (96, F::Sqlite3), (97, F::Sqlite3), (99, F::Sqlite3), (100, F::Sketch), (32_868 - 26, F::Sketch), (32_868 - 25, F::Sqlite3)] {
        let mut v = vec![0; 40_000];
        v[..16].copy_from_slice(b"SQLite format 3\0");
        v[at..at + 26].copy_from_slice(m);
        check(&v, want);
    }
""", "A marker at one of the last bytes of the window, or overlapping the header.", "The window starts four bytes early.")
seed("c19-c1-controls", [(R, ".find(|char| char.is_control() && !char.is_whitespace())", ".find(|char| char.is_ascii_control() && !char.is_whitespace())")], r"""
    for c in '\u{80}'..'\u{a0}' { check(format!("text {c} text").as_bytes(), if c == '\u{85}' { F::PlainText } else { F::ArbitraryBinaryData }); }
""", "A text with a control character of the second block (U+0080 to U+009F).", "The control characters beyond ASCII count as text.")
seed("c19-white-space", [(R, ".find(|char| char.is_control() && !char.is_whitespace())", ".find(|char| char.is_control() && !char.is_ascii_whitespace())")], r"""
    for c in ["\u{85}", "\u{b}", "\t", "\u{c}", "\r"] { check(format!("text{c} text\n").as_bytes(), F::PlainText); }
""", "A text with a vertical tab or a next-line character (U+0085).", "White space beyond the ASCII white space characters no longer counts as such.")
seed("c20-ttml-prefix", [(R, 'buf.holds("xmlns=\\"http://www.w3.org/ns/ttml\\"")', 'buf.holds("=\\"http://www.w3.org/ns/ttml\\"")')], r"""
    check(b"<?xml version=\"1.0\"?><tt xmlns=\"http://www.w3.org/ns/ttml\">", F::TimedTextMarkupLanguage);
    check(b"<?xml version=\"1.0\"?><a:tt xmlns:a=\"http://www.w3.org/ns/ttml\"><tt/>", F::ExtensibleMarkupLanguage);
""", "A document that declares the name space under a prefix.", "The second marker is shortened and occurs in other documents.")
seed("c20-short-buffer", [(R, "        let nread = reader.read_up_to(&mut buf)?;\n        let buf = &buf[..nread];\n\n        // Checks if the buffer holds markers", "        let nread = reader.read_up_to(&mut buf)?;\n        let buf = &buf[..nread.saturating_sub(1)];\n\n        // Checks if the buffer holds markers")], r"""
    check(b"<?xml version=\"1.0\"?><rss", F::ReallySimpleSyndication);
""", "A marker that ends at the very end of the window or of the file.", "The last byte of the window is not searched.")
seed("c21-latin1-names", [(R, "        Ok(String::from_utf8_lossy(&self.read_bytes(size)?).to_string())", "        String::from_utf8(self.read_bytes(size)?)\n            .map_err(|err| Error::new(ErrorKind::InvalidData, err))")], r"""
    check(&zip(&[entry(b"r\xE9sum\xE9.txt", b""), entry(b"word/document.xml", b"")]), F::OfficeOpenXmlDocument);
""", "An archive with an entry name that is not UTF-8 before the characteristic one.", "Names that are not UTF-8 make the archive unreadable.")
seed("c21-trim-ascii", [(R, "return Ok(match data.trim() {", "return Ok(match data.trim_matches(|char: char| char.is_ascii_whitespace()) {")], r"""
    for s in ["\n", "\u{b}", "\u{85}", "\u{a0}", "\u{2028}", "\u{3000}"] {
        check(&zip(&[entry(b"mimetype", format!("{s}image/openraster{s}").as_bytes())]), F::Openraster);
    }
""", "A media type entry with a vertical tab, a no-break space or other Unicode white space around it.", "Only ASCII white space is trimmed.")
seed("c21-stored-both", [(R, '"mimetype" if compressed_size == uncompressed_size => {', '"mimetype" if compressed_size == uncompressed_size && uncompressed_size < 128 => {')], r"""
    let m = format!("image/openraster{}", " ".repeat(150));
    check(&zip(&[entry(b"mimetype", m.as_bytes())]), F::Openraster);
""", "A media type entry with more than a hundred bytes of white space.", "Long media type entries are not looked at.")
seed("c22-feature-extension", [(MA, "            pub const fn extension(&self) -> &str {\n                match self {\n", "            pub const fn extension(&self) -> &str {\n                match self {\n                    #[cfg(not(feature = \"reader-mp4\"))]\n                    Self::Mpeg4Part14 => \"m4v\",\n                    #[allow(unreachable_patterns)]\n                    Self::Mpeg4Part14 => \"mp4\",\n                    #[allow(unreachable_patterns)]\n")], r"""
    assert_eq!(F::Mpeg4Part14.extension(), "mp4");
""", "A build without the MP4 feature.", "The extension of a format depends on the enabled features.", features=["reader-zip"])
seed("c23-exe-signed", [(R, "            reader.seek(SeekFrom::Start(offset as u64))?;\n\n            // Reads the signature.\n            let signature = reader.read_bytes(4)?;\n\n            // Checks the signature.\n            if &signature == b\"PE", "            reader.seek(SeekFrom::Current((offset as i32 - 64).into()))?;\n\n            // Reads the signature.\n            let signature = reader.read_bytes(4)?;\n\n            // Checks the signature.\n            if &signature == b\"PE")], r"""
    let at = 0x9000_0000u64;
    let s = Sparse { pos: 0, len: at + 64, parts: vec![(0, exe(at as u32, 64, 0, b"")), (0, b"MZ".to_vec()), (at, b"NE".to_vec())] };
    assert_eq!(F::from_reader(s).unwrap(), F::NewExecutable);
""", "An extended header beyond 2 GiB.", "The extended header is sought relative to the address field, in signed 32 bits.")
seed("c19-cut-tail", [(R, "Err(err) if err.error_len().is_none() && total_nread > READ_LIMIT => {", "Err(err) if err.error_len().is_none() && err.valid_up_to() + 4 > line.len() => {")], r"""
    check("caf\u{e9}\n".as_bytes(), F::PlainText);
    check(&"caf\u{e9}".as_bytes()[..4], F::ArbitraryBinaryData);
    check(b"abc\xC3\ndef\n", F::ArbitraryBinaryData);
""", "A text cut within its last character.", "Any incomplete last character of a line is tolerated, not only one at the read limit.")

# --- third series ----------------------------------------------------------------------------------
seed("c01-rm-short-mime", [(R, 'if mime_type.starts_with(b"audio/") {', 'if &mime_type[..6] == b"audio/" {')], r"""
    for m in [&b"video/x"[..], b"audio/", b"audio", b"x", b""] { of(&rmf(2, &[mdpr(b"n", m)])); }
""", "A RealMedia stream whose media type has fewer than six bytes.", "A media type is sliced without regard to its length.")
seed("c01-id3-offset-u32", [(R, "        let mut offset = 0;\n        for _ in 0..TAG_LIMIT {\n            // Reads first 10 bytes.\n            reader.seek(SeekFrom::Start(offset))?;", "        let mut offset = 0_u32;\n        for _ in 0..TAG_LIMIT {\n            // Reads first 10 bytes.\n            reader.seek(SeekFrom::Start(offset.into()))?;"),
  (R, "            let tag_size = ((buf[6] as u64 & 0x7F) << 21)\n                | ((buf[7] as u64 & 0x7F) << 14)\n                | ((buf[8] as u64 & 0x7F) << 7)\n                | (buf[9] as u64 & 0x7F);", "            let tag_size = ((buf[6] as u32 & 0x7F) << 21)\n                | ((buf[7] as u32 & 0x7F) << 14)\n                | ((buf[8] as u32 & 0x7F) << 7)\n                | (buf[9] as u32 & 0x7F);"),
  (R, "        // Skips ID3v2 segment.\n        reader.seek(SeekFrom::Start(offset))?;", "        // Skips ID3v2 segment.\n        reader.seek(SeekFrom::Start(offset.into()))?;")], r"""
    let tag = b"ID3\x04\0\0\x7F\x7F\x7F\x7F".to_vec();
    let step = 10 + 0x0FFF_FFFFu64;
    let mut parts: Vec<_> = (0..20).map(|i| (i * step, tag.clone())).collect();
    parts.push((20 * step, b"fLaC".to_vec()));
    assert_eq!(F::from_reader(Sparse { pos: 0, len: 20 * step + 4, parts }).unwrap(), F::FreeLosslessAudioCodec);
""", "Sixteen or more consecutive tags of the largest size.", "The offset of the next tag is kept in 32 bits.")
NEST = r'''
    struct Nest(Cursor<Vec<u8>>, Vec<u8>, usize);
    impl Read for Nest { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { self.2 += 1; if self.2 == 3 { of(&self.1); } self.0.read(b) } }
    impl Seek for Nest { fn seek(&mut self, p: SeekFrom) -> io::Result<u64> { self.0.seek(p) } }
'''
seed("c05-scratch-borrow", [(R, "        let mut buf = [0; 32_768];\n        let nread = reader.read_up_to(&mut buf)?;\n\n        // Checks if the buffer holds the Sketch file format marker.\n        if buf[..nread].holds(SKETCH_MARKER) {\n            return Ok(Self::Sketch);\n        }\n\n        // Returns the default value.\n        Ok(Self::Sqlite3)", "        thread_local! {\n            static SCRATCH: std::cell::RefCell<Vec<u8>> = const { std::cell::RefCell::new(Vec::new()) };\n        }\n        SCRATCH.with_borrow_mut(|buf| {\n            buf.resize(32_768, 0);\n            let nread = reader.read_up_to(buf)?;\n\n            // Checks if the buffer holds the Sketch file format marker.\n            if buf[..nread].holds(SKETCH_MARKER) {\n                return Ok(Self::Sketch);\n            }\n\n            // Returns the default value.\n            Ok(Self::Sqlite3)\n        })")], NEST + r"""
    let mut db = b"SQLite format 3\0".to_vec();
    db.resize(4096, 0);
    for n in 0..6 { assert_eq!(F::from_reader(Nest(Cursor::new(db.clone()), db.clone(), n)).unwrap(), F::Sqlite3); }
""", "A reader that detects the format of a database in its own read while a database is read through it.", "A scratch buffer of the thread is borrowed while the reader is called.")
seed("c05-shared-lock", [(R, "        let mut buf = [0; OVERLAP_SIZE + CHUNK_SIZE];\n", "        static BUFFER: std::sync::Mutex<[u8; OVERLAP_SIZE + CHUNK_SIZE]> =\n            std::sync::Mutex::new([0; OVERLAP_SIZE + CHUNK_SIZE]);\n        let mut buf = BUFFER.lock().unwrap();\n")], r"""
    struct Bad(Cursor<Vec<u8>>, usize);
    impl Read for Bad { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { self.1 += 1; if self.1 == 3 { panic!("reader"); } self.0.read(b) } }
    impl Seek for Bad { fn seek(&mut self, p: SeekFrom) -> io::Result<u64> { self.0.seek(p) } }
    let pdf = b"%PDF-1.4\n%%EOF".to_vec();
    let _ = std::panic::catch_unwind(|| F::from_reader(Bad(Cursor::new(pdf.clone()), 0)));
    assert_eq!(of(&pdf), F::PortableDocumentFormat);
""", "A reader that panicked in an earlier detection, or one that detects another PDF file in its callback.", "One buffer is shared under a lock that stays poisoned after a panic and is held while the reader is called.")
seed("c08-blank", [(R, "            Self::from_txt_reader(reader).unwrap_or_default()", "            let mut reader = reader;\n            match Self::from_txt_reader(&mut reader) {\n                // Nothing but a line break.\n                Ok(_) if reader.seek(SeekFrom::End(0)).is_ok_and(|len| len == 1) => Self::Empty,\n                fmt => fmt.unwrap_or_default(),\n            }")], r"""
    check(b"\n", F::PlainText);
    check(b"a", F::PlainText);
    check(b"\0", F::ArbitraryBinaryData);
""", "A text of one byte.", "A content of a single text byte is answered as empty.")
seed("c15-hdlr-64", [(R, "                    // Reads the handler type.\n                    reader.seek(SeekFrom::Current(8))?;", "                    // Reads the handler type.\n                    reader.seek(SeekFrom::Start(offset + 16))?;")], r"""
    let body = cat(&[&[0; 8], b"vide", &[0; 12]]);
    let h64 = cat(&[&1u32.to_be_bytes(), b"hdlr", &(16 + body.len() as u64).to_be_bytes(), &body]);
    check(&cat(&[&ftyp(), &bx(b"moov", &bx(b"trak", &bx(b"mdia", &h64)))]), F::Mpeg4Part14Video);
    check(&cat(&[&ftyp(), &bx(b"moov", &trak(b"vide"))]), F::Mpeg4Part14Video);
""", "A handler box with a 64-bit size.", "The handler type is read at a fixed distance from the start of the box.")
seed("c21-backslash", [(R, "            let filename = reader.read_string(filename_len as usize)?;", "            let filename = reader.read_string(filename_len as usize)?.replace('\\\\', \"/\");")], r"""
    check(&zip(&[entry(b"word\\document.xml", b""), entry(b"a", b"")]), F::Zip);
    check(&zip(&[entry(b"dir\\book.fb2", b"")]), F::FictionbookZip);
""", "An archive with names that have backslashes.", "Backslashes in names are taken as slashes.")
seed("c21-dot-slash", [(R, "            // Checks the filename.\n            match filename.as_str() {", "            // Checks the filename.\n            match filename.strip_prefix(\"./\").unwrap_or(&filename) {")], r"""
    check(&zip(&[entry(b"./doc.kml", b"")]), F::Zip);
    check(&zip(&[entry(b"doc.kml", b"")]), F::KeyholeMarkupLanguageZip);
""", "An archive whose names begin with ./.", "A leading ./ of a name is dropped before the comparison.")
seed("c21-manifest-case", [(R, '                "META-INF/MANIFEST.MF" => fmt', '                _ if filename.eq_ignore_ascii_case("META-INF/MANIFEST.MF") => fmt')], r"""
    check(&zip(&[entry(b"META-INF/MANIFEST.MF", b"")]), F::JavaArchive);
    check(&zip(&[entry(b"META-INF/manifest.mf", b"")]), F::Zip);
""", "An archive whose manifest is named in other letter case.", "The name of the manifest is compared without regard to case.")
seed("c21-disk-count", [(R, "            reader.seek(SeekFrom::Start(eocd_offset + 10))?;\n            let number_of_entries = reader.read_u16_le()?;\n\n            // Reads the start of central directory offset.\n            reader.seek(SeekFrom::Current(4))?;", "            reader.seek(SeekFrom::Start(eocd_offset + 8))?;\n            let number_of_entries = reader.read_u16_le()?;\n\n            // Reads the start of central directory offset.\n            reader.seek(SeekFrom::Current(6))?;")], r"""
    let mut z = zip(&[entry(b"a", b""), entry(b"doc.kml", b"")]);
    let n = z.len();
    z[n - 14..n - 12].copy_from_slice(&1u16.to_le_bytes());
    check(&z, F::KeyholeMarkupLanguageZip);
""", "An archive whose end record gives another number of entries for this disk than in total.", "The number of entries on this disk is used.")
seed("c21-zip64-disk-count", [(R, "eocd64_offset.saturating_add(32)))?;\n            let number_of_entries = reader.read_u64_le()?;\n\n            // Reads the start of central directory offset.\n            reader.seek(SeekFrom::Current(8))?;", "eocd64_offset.saturating_add(24)))?;\n            let number_of_entries = reader.read_u64_le()?;\n\n            // Reads the start of central directory offset.\n            reader.seek(SeekFrom::Current(16))?;")], r"""
    let mut z = zip_with(&[entry(b"a", b""), entry(b"doc.kml", b"")], true, 2, b"");
    let n = z.len() - 22 - 20 - 56;
    z[n + 24..n + 32].copy_from_slice(&1u64.to_le_bytes());
    check(&z, F::KeyholeMarkupLanguageZip);
""", "A ZIP64 archive whose end record gives another number of entries for this disk than in total.", "The number of entries on this disk is used.")
seed("c21-comment-exact", [(R, "        let eocd_offset = offset + buf_index as u64;\n", "        let eocd_offset = offset + buf_index as u64;\n        reader.seek(SeekFrom::Start(eocd_offset + 20))?;\n        if eocd_offset + 22 + u64::from(reader.read_u16_le()?) > len {\n            return Err(Error::new(ErrorKind::InvalidData, \"truncated comment\"));\n        }\n")], r"""
    let mut z = zip(&[entry(b"doc.kml", b"")]);
    check(&z, F::KeyholeMarkupLanguageZip);
    let n = z.len();
    z[n - 2] = 5;
    check(&z, F::KeyholeMarkupLanguageZip);
""", "An archive cut within its comment.", "An archive whose comment is shorter than declared is refused.")
seed("c21-central-signature", [(R, "            // Reads the compressed size.\n            reader.seek(SeekFrom::Current(20))?;", "            // Reads the compressed size.\n            if reader.read_bytes(2)? != b\"PK\" {\n                break;\n            }\n            reader.seek(SeekFrom::Current(18))?;")], r"""
    let mut z = zip(&[entry(b"a", b""), entry(b"doc.kml", b"")]);
    let at = z.len() - 22 - 46 - 7;
    z[at] = b'X';
    check(&z, F::KeyholeMarkupLanguageZip);
""", "An archive with a directory entry without the usual signature.", "Directory entries without the signature end the search.")
seed("c12-doctype-exact", [(R, 'if doc_type.starts_with(b"webm") {', 'if doc_type == b"webm" {')], r"""
    check(&mkv(b"webm", b""), F::Webm);
    check(&mkv(b"webm\0", b""), F::Webm);
    check(&mkv(b"webm\0\0\0\0\0\0", b""), F::Webm);
""", "A document type padded with zeros.", "The document type has to fill its element exactly.")
seed("c12-codec-outside", [(R, "                        audio_track = true;\n                    } else if codec_id", "                        audio_track = !subtitle_track;\n                    } else if codec_id")], r"""
    check(&mkv(b"matroska", &tracks(&[track(b"S_TEXT", b""), track(b"A_AAC", b"")])), F::MatroskaAudio);
    check(&mkv(b"matroska", &tracks(&[track(b"A_AAC", b""), track(b"S_TEXT", b"")])), F::MatroskaAudio);
""", "Subtitles before an audio track.", "An audio track behind a subtitle track is not counted.")
seed("c10-dvr-exact", [(R, r'if name.starts_with(b"D\0V\0R\0 \0F\0i\0l\0e\0 \0V\0e\0r\0s\0i\0o\0n\0") {', r'if name == b"D\0V\0R\0 \0F\0i\0l\0e\0 \0V\0e\0r\0s\0i\0o\0n\0\0\0" {')], r"""
    let dvr: &[u8] = b"D\0V\0R\0 \0F\0i\0l\0e\0 \0V\0e\0r\0s\0i\0o\0n\0\0\0";
    check(&asf(&[asf_descriptors(&[(dvr, 4)])]), F::MicrosoftDigitalVideoRecording);
    check(&asf(&[asf_descriptors(&[(&dvr[..32], 4)])]), F::MicrosoftDigitalVideoRecording);
""", "A descriptor name without terminating zero.", "The name has to have its terminating zero.")
seed("c20-single-quotes", [(R, 'if buf.holds("<abiword template=\\"false\\"") {', 'if buf.holds("<abiword template=") && buf.holds("\\"false\\"") {')], r"""
    check(b"<?xml version=\"1.0\"?><abiword template=\"false\">", F::Abiword);
    check(b"<?xml version=\"1.0\"?><abiword template=\"true\" styles=\"false\">", F::AbiwordTemplate);
""", "A template with another attribute that is false.", "A marker is split in two that may come apart.")
seed("c16-trailing", [(R, "            if buf[start..OVERLAP_SIZE + nread].holds(AI_MARKER) {", "            if buf[start..OVERLAP_SIZE + nread]\n                .find(AI_MARKER)\n                .is_some_and(|index| index > 0 || total_nread > 0)\n            {")], r"""
    check(b"%PDF-AIPrivateData", F::AdobeIllustratorArtwork);
    check(b"%PDF-1AIPrivateData", F::AdobeIllustratorArtwork);
""", "A marker right behind the signature.", "A marker at the very beginning of the searched bytes is missed.")
seed("c11-third-first", [(R, "                // Reads the third directory entry name.\n                reader.seek(SeekFrom::Current(64))?;", "                // Reads the third directory entry name.\n                if directory_entry_name[0] == 0 {\n                    return Ok(Self::CompoundFileBinary);\n                }\n                reader.seek(SeekFrom::Current(64))?;")], r"""
    let xlr: &[u8] = b"W\0k\0s\0S\0S\0W\0o\0r\0k\0B\0o\0o\0k\0";
    assert_eq!(F::from_reader(cfb(3, 1, &[0; 16], [b"", xlr], 0)).unwrap(), F::MicrosoftWorks6Spreadsheet);
    assert_eq!(F::from_reader(cfb(3, 1, &[0; 16], [b"a\0", xlr], 0)).unwrap(), F::MicrosoftWorks6Spreadsheet);
""", "A Works spreadsheet whose second directory entry has no name.", "An unnamed second entry ends the search.")

# --- fourth series -------------------------------------------------------------------------------
ALLOC = r'''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
static MAX: AtomicUsize = AtomicUsize::new(0);
static LIVE: AtomicUsize = AtomicUsize::new(0);
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { MAX.fetch_max(l.size(), SeqCst); LIVE.fetch_add(l.size(), SeqCst); unsafe { System.alloc(l) } }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { MAX.fetch_max(l.size(), SeqCst); LIVE.fetch_add(l.size(), SeqCst); unsafe { System.alloc_zeroed(l) } }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size(), SeqCst); unsafe { System.dealloc(p, l) } }
}
#[global_allocator]
static G: A = A;
'''
seed("c04-read-leak", [(R, "        self.read_exact(&mut buf)?;\n        Ok(buf)\n    }\n\n    /// Reads a GUID", "        self.read_exact(&mut buf)?;\n        Ok(Vec::leak(buf).to_vec())\n    }\n\n    /// Reads a GUID")], ALLOC + r"""
fn main() {
    let z = zip(&[entry(b"doc.kml", b"")]);
    check(&z, F::KeyholeMarkupLanguageZip);
    let before = LIVE.load(SeqCst);
    for _ in 0..10_000 { check(&z, F::KeyholeMarkupLanguageZip); }
    assert!(LIVE.load(SeqCst) < before + 100_000, "{}", LIVE.load(SeqCst) - before);
}
""", "Many detections in one process.", "Every field that is read stays in memory after the detection.")
seed("c04-bytes-copied", [(L, "Self::from_reader(Cursor::new(value)).unwrap_or_default()", "Self::from_reader(Cursor::new(value.to_vec())).unwrap_or_default()")], ALLOC + r"""
fn main() {
    let mut v = vec![0; 16 << 20];
    v[..5].copy_from_slice(b"%PDF-");
    MAX.store(0, SeqCst);
    assert_eq!(F::from_bytes(&v), F::PortableDocumentFormat);
    assert!(MAX.load(SeqCst) < 2 << 20, "{}", MAX.load(SeqCst));
}
""", "A long byte slice.", "A byte slice is copied as a whole before it is looked at.")
seed("c13-low-address", [(R, "if offset as u64 + 4 < len {", "if offset >= 64 && offset as u64 + 4 < len {")], r"""
    let mut v = exe(4, 256, 4, b"PE\0\0");
    check(&v, F::PortableExecutable);
    v[4 + 22 + 1] = 0x20;
    check(&v, F::DynamicLinkLibrary);
""", "An executable whose extended header overlaps the DOS header.", "Addresses within the DOS header are taken for none.")
seed("c11-sector-shift", [(R, "        let directory_sector_size = if major_version == 0x0003 { 512 } else { 4096 };", "        reader.seek(SeekFrom::Current(2))?;\n        let sector_shift = reader.read_u16_le()?;\n        let directory_sector_size = if major_version == 0x0003 && sector_shift < 12 {\n            512\n        } else {\n            4096\n        };"), (R, "        reader.seek(SeekFrom::Current(20))?;\n        let first_directory_sector_location", "        reader.seek(SeekFrom::Current(16))?;\n        let first_directory_sector_location")], r"""
    let word = guid("00020906-0000-0000-c000-000000000046");
    let mut f = cfb(3, 1, &word, [b"", b""], 0);
    f.parts[0].1[30] = 12;
    assert_eq!(F::from_reader(f).unwrap(), F::MicrosoftWordDocument);
""", "A version 3 file whose sector shift field does not fit its version.", "The sector size follows another field of the header.")
seed("c21-directory-entries", [(R, "            match filename.as_str() {\n                \"AndroidManifest.xml\"", "            match filename.as_str() {\n                _ if filename.ends_with('/') => {}\n                \"AndroidManifest.xml\"")], r"""
    check(&zip(&[entry(b"word/", b""), entry(b"xl/a", b"")]), F::OfficeOpenXmlDocument);
    check(&zip(&[entry(b"ppt/", b"")]), F::OfficeOpenXmlPresentation);
""", "An archive whose characteristic entry is a directory.", "Entries of directories are passed over.")
seed("c21-descriptor-flag", [(R, "            reader.seek(SeekFrom::Current(20))?;\n            let compressed_size", "            reader.seek(SeekFrom::Current(8))?;\n            let flags = reader.read_u16_le()?;\n            reader.seek(SeekFrom::Current(10))?;\n            let compressed_size"), (R, '"mimetype" if compressed_size == uncompressed_size => {', '"mimetype" if compressed_size == uncompressed_size && flags & 8 == 0 => {')], r"""
    let mut z = zip(&[entry(b"mimetype", b"application/epub+zip")]);
    check(&z, F::ElectronicPublication);
    let at = z.windows(4).position(|w| w == b"PK\x01\x02").unwrap();
    z[at + 8] = 8;
    check(&z, F::ElectronicPublication);
""", "A stored media type entry with a data descriptor.", "A media type entry with the data descriptor flag is not read.")
seed("c16-eof", [(R, "            // Rotates the buffer to the right by the overlap size.", "            // The document ends with its end-of-file marker.\n            if buf[start..OVERLAP_SIZE + nread].holds(b\"%%EOF\") {\n                break;\n            }\n\n            // Rotates the buffer to the right by the overlap size.")], r"""
    let mut v = b"%PDF-1.5\n%%EOF\n".to_vec();
    v.resize(100_000, b' ');
    v.extend(b"AIPrivateData1");
    check(&v, F::AdobeIllustratorArtwork);
""", "A document with incremental updates: an end-of-file marker far before the Illustrator marker.", "The search stops behind the first end-of-file marker.")
seed("c17-data-stop", [(R, "            // Checks the chunk type.\n            if &chunk_type == b\"MDPR\" {", "            // Checks the chunk type.\n            if &chunk_type == b\"DATA\" {\n                break;\n            }\n            if &chunk_type == b\"MDPR\" {")], r"""
    let data = cat(&[b"DATA", &20u32.to_be_bytes(), &[0; 12]]);
    check(&rmf(4, &[mdpr(b"a", b"audio/x"), data, mdpr(b"v", b"video/x")]), F::Realvideo);
""", "A file with media properties behind a data chunk.", "Chunks behind the first data chunk are not considered.")
seed("c15-uuid", [(R, "                b\"moov\" | b\"trak\" | b\"mdia\" => {}\n", "                b\"moov\" | b\"trak\" | b\"mdia\" => {}\n                b\"mfra\" | b\"moof\" if audio_track => break,\n")], r"""
    check(&cat(&[&ftyp(), &bx(b"moov", &trak(b"soun")), &bx(b"moof", b""), &bx(b"moov", &trak(b"vide"))]), F::Mpeg4Part14Video);
""", "A fragment between an audio track and a video track.", "The search ends at the first fragment once an audio track was found.")
seed("c20-comment", [(R, "        let buf = &buf[..nread];\n\n        // Checks if the buffer holds markers", "        let buf = &buf[..buf[..nread].find(\"<![CDATA[\").unwrap_or(nread)];\n\n        // Checks if the buffer holds markers")], r"""
    check(b"<?xml version=\"1.0\"?><![CDATA[x]]><svg>", F::ScalableVectorGraphics);
""", "A marker behind a CDATA section.", "Nothing behind the first CDATA section is considered.")
seed("c06-bom", [(L, "Self::from_signature(&buf[..nread])", "Self::from_signature(\n            buf[..nread].strip_prefix(b\"\\xEF\\xBB\\xBF\").unwrap_or(&buf[..nread]),\n        )")], r"""
    check(b"\xEF\xBB\xBFGIF89a", F::PlainText);
    check(b"\xEF\xBB\xBF\x89PNG\r\n\x1A\n", F::ArbitraryBinaryData);
""", "A byte order mark before a signature.", "A leading byte order mark is dropped before the signatures are matched.")
seed("c06-leading-space", [(L, "Self::from_signature(&buf[..nread])", "Self::from_signature(match &buf[..nread] {\n            [b'\\r' | b'\\n', head @ ..] if head.starts_with(b\"%PDF-\") => head,\n            head => head,\n        })")], r"""
    check(b"\n%PDF-1.4", F::PlainText);
    check(b"%PDF-1.4", F::PortableDocumentFormat);
""", "A line break before the PDF signature.", "A PDF signature is also found behind a line break.")
seed("c08-utf16", [(L, "        } else {\n            Self::from_generic_reader(&mut reader)\n        })", "        } else if cfg!(feature = \"reader-txt\") && nread > 2 && buf[..2] == [0xFF, 0xFE] {\n            // Little-endian UTF-16 text.\n            Self::PlainText\n        } else {\n            Self::from_generic_reader(&mut reader)\n        })")], r"""
    check(b"\xFF\xFEa\0b\0", F::ArbitraryBinaryData);
""", "A content with a UTF-16 byte order mark.", "Whatever follows a UTF-16 byte order mark counts as text.")
seed("c19-empty-line", [(R, "            .take(LINE_LIMIT)\n", "            .take_while(|line| !line.as_ref().is_ok_and(|line| line == b\"\\x1A\"))\n            .take(LINE_LIMIT)\n")], r"""
    check(b"abc\n\x1A\nabc", F::ArbitraryBinaryData);
    check(b"\x1A", F::ArbitraryBinaryData);
""", "A line that consists of a single substitute character.", "A line of a substitute character ends the text, as in CP/M.")
seed("c19-limit-per-line", [(R, "            .take(READ_LIMIT)\n", "            .take(READ_LIMIT * LINE_LIMIT as u64)\n")], r"""
    let mut v = vec![b'a'; 70_000];
    v.push(0);
    check(&v, F::PlainText);
""", "A control character beyond the first 64 KiB within the first lines.", "The limit applies to all lines together only at sixteenfold size.")
seed("c03-base-on-error", [(L, "                .unwrap_or_else(|_| Self::from_generic_reader(&mut reader))", "                .unwrap_or_else(|err| match err.kind() {\n                    std::io::ErrorKind::UnexpectedEof | std::io::ErrorKind::InvalidData => {\n                        Self::from_generic_reader(&mut reader)\n                    }\n                    _ => fmt,\n                })")], FAULTY + r"""
    let file = cat(&[&ftyp(), &bx(b"free", &vec![0; 60_000]), &bx(b"moov", &trak(b"vide"))]);
    check(&file, F::Mpeg4Part14Video);
    for n in 2..8 {
        let got = F::from_reader(Flt(Cursor::new(file.clone()), n)).unwrap();
        assert!(got == F::Mpeg4Part14Video || got == F::ArbitraryBinaryData, "{got:?}");
    }
""", "An I/O error behind the leading bytes.", "After an I/O error the unrefined format is given.")
seed("c05-call-counter", [(L, "        // Creates and fills a buffer.\n        let mut buf = [0; 36_870];", "        // Counts the calls.\n        thread_local! {\n            static CALLS: std::cell::Cell<u16> = const { std::cell::Cell::new(0) };\n        }\n        CALLS.set(CALLS.get() + 1);\n\n        // Creates and fills a buffer.\n        let mut buf = [0; 36_870];")], r"""
    for _ in 0..70_000 { check(b"GIF89a", F::GraphicsInterchangeFormat); }
""", "More than 65,535 detections on one thread, with overflow checks.", "A counter of calls overflows.")
seed("c02-bytes-trim", [(L, "Self::from_reader(Cursor::new(value)).unwrap_or_default()", "// Buffers tend to be larger than what they hold.\n        let value = match value.iter().rposition(|&byte| byte != 0) {\n            Some(last) if last + 1024 < value.len() => &value[..=last],\n            _ => value,\n        };\n        Self::from_reader(Cursor::new(value)).unwrap_or_default()")], r"""
    let mut v = b"some text".to_vec();
    v.resize(2000, 0);
    assert_eq!(F::from_bytes(&v), of(&v));
""", "A slice with more than 1 KiB of trailing zeros.", "Trailing zeros of byte slices are dropped, those of files and readers are not.")
seed("c23-zip64-record", [(R, "            let eocd64_offset = reader.read_u64_le()?;", "            let eocd64_offset = u64::from(reader.read_u32_le()?);")], r"""
    let z = zip_with(&[entry(b"doc.kml", b"")], true, 1, b"");
    check(&z, F::KeyholeMarkupLanguageZip);
    // The same directory behind 5 GiB.
    let far = 5u64 << 30;
    let start = z.windows(4).position(|w| w == b"PK\x01\x02").unwrap();
    let mut tail = z[start..].to_vec();
    let rec = tail.windows(4).position(|w| w == b"PK\x06\x06").unwrap();
    tail[rec + 48..rec + 56].copy_from_slice(&far.to_le_bytes());
    let loc = tail.windows(4).position(|w| w == b"PK\x06\x07").unwrap();
    tail[loc + 8..loc + 16].copy_from_slice(&(far + rec as u64).to_le_bytes());
    let s = Sparse { pos: 0, len: far + tail.len() as u64, parts: vec![(0, z[..start].to_vec()), (far, tail)] };
    assert_eq!(F::from_reader(s).unwrap(), F::KeyholeMarkupLanguageZip);
""", "A ZIP64 archive above 4 GiB.", "Only 32 bits of the offset of the ZIP64 end record are used.")
seed("c09-xml-gives-text", [(R, "        #[cfg(feature = \"reader-txt\")]\n        {", "        #[cfg(any(feature = \"reader-txt\", feature = \"reader-xml\"))]\n        {"), (R, "        #[cfg(not(feature = \"reader-txt\"))]\n        {", "        #[cfg(not(any(feature = \"reader-txt\", feature = \"reader-xml\")))]\n        {"), (R, "    #[cfg(feature = \"reader-txt\")]\n    pub(crate) fn from_txt_reader", "    #[cfg(any(feature = \"reader-txt\", feature = \"reader-xml\"))]\n    pub(crate) fn from_txt_reader")], r"""
    check(b"hello", F::ArbitraryBinaryData);
""", "A build with the XML reader but without the text reader.", "The XML feature also turns on text detection.", features=["reader-xml"])
seed("c10-extension", [(R, "            match guid.as_str() {\n                STREAM_PROPERTIES_OBJECT_GUID => {", "            match guid.as_str() {\n                \"5fbf03b5-a92e-11cf-8ee3-00c00c205365\" if size == 46 => {\n                    reader.seek(SeekFrom::Current(22))?;\n                    reader.seek(SeekFrom::Current(0))?;\n                    video_stream |= reader.read_guid()? == \"14e6a5cb-c672-4332-8399-a96952065b5a\";\n                    reader.seek(SeekFrom::Start(next_offset))?;\n                }\n                STREAM_PROPERTIES_OBJECT_GUID => {")], r"""
    let ext = asf_object("5fbf03b5-a92e-11cf-8ee3-00c00c205365", &[0; 22]);
    check(&asf(&[asf_stream(ASF_AUDIO), ext.clone()]), F::WindowsMediaAudio);
    check(&asf(&[ext, asf_stream(ASF_AUDIO)]), F::WindowsMediaAudio);
""", "An empty header extension as the last object.", "The object behind an empty header extension is looked at, which need not exist.")

# --- fifth series --------------------------------------------------------------------------------
seed("c12-count-masters", [(R, "                | VIDEO_ELEMENT_ID => {}\n", "                | VIDEO_ELEMENT_ID => {\n                    // Entering an element does not count.\n                    continue;\n                }\n")], r"""
    let void = el(&[0xEC], 1, b"");
    // 256 elements are considered: header, document type, segment and tracks are four of them.
    let many = |n: usize| cat(&[&el(b"\x1A\x45\xDF\xA3", 1, &el(b"\x42\x82", 1, b"matroska")), &el(b"\x18\x53\x80\x67", 8, &cat(&[&void.repeat(n), &tracks(&[track(b"V_VP8", b"")])]))]);
    check(&many(250), F::MatroskaVideo);
    check(&many(251), F::ExtensibleBinaryMetaLanguage);
    check(&many(252), F::ExtensibleBinaryMetaLanguage);
""", "A file with 257 to 260 elements before its first codec.", "Elements that contain others do not count towards the limit.")
seed("c14-footer-sticky", [(R, "        let mut offset = 0;\n        for _ in 0..TAG_LIMIT {", "        let mut offset = 0;\n        let mut footer_present = false;\n        for _ in 0..TAG_LIMIT {"), (R, "            let footer_present = (flags & 0x10) != 0;", "            footer_present |= (flags & 0x10) != 0;")], r"""
    check(&cat(&[&id3(4, 0x10, 20), &id3(4, 0, 20), b"fLaC"]), F::FreeLosslessAudioCodec);
    check(&cat(&[&id3(4, 0x10, 20), &id3(4, 0x10, 20), b"fLaC"]), F::FreeLosslessAudioCodec);
""", "A tag with a footer before a tag without.", "Once a tag has a footer, all following ones are taken to have one.")
seed("c21-long-names", [(R, "            let filename = reader.read_string(filename_len as usize)?;\n", "            let filename = reader.read_string((filename_len as usize).min(1000))?;\n            reader.seek(SeekFrom::Current(filename_len as i64 - filename_len.min(1000) as i64))?;\n")], r"""
    let long = cat(&[b"Documents/", &[b'a'; 1200], b".fpage"]);
    check(&zip(&[entry(b"a", b""), entry(&long, b"")]), F::Openxps);
""", "An entry with a characteristic ending and a name of more than 1000 bytes.", "Names are cut at 1000 bytes.")
seed("c21-nul-names", [(R, "            match filename.as_str() {", "            match filename.trim_end_matches('\\0') {")], r"""
    check(&zip(&[entry(b"doc.kml\0", b""), entry(b"word/x", b"")]), F::OfficeOpenXmlDocument);
    check(&zip(&[entry(b"doc.kml", b"")]), F::KeyholeMarkupLanguageZip);
""", "A name padded by a zero byte.", "Zero bytes behind a name are dropped.")
seed("c19-cr-lines", [(R, "            .try_for_each(|line| {\n                let line = line?;", "            .flat_map(|line| match line {\n                Ok(line) if !line.ends_with(b\"\\r\") => line.split(|b| *b == b'\\r').map(|l| Ok(l.to_vec())).collect(),\n                line => vec![line],\n            })\n            .take(LINE_LIMIT)\n            .try_for_each(|line| {\n                let line = line?;")], r"""
    check(&cat(&[&b"a\r".repeat(20), b"\x01"]), F::ArbitraryBinaryData);
    check(&cat(&[&b"a\r".repeat(20), b"b"]), F::PlainText);
""", "Text with line ends of carriage returns only and control characters behind the sixteenth.", "Carriage returns alone also end lines, so that less is considered.")
seed("c18-encoding", [(R, "        let mut buf = [0; 32_768];\n", "        reader.seek(SeekFrom::Start(56))?;\n        if reader.read_up_to(&mut [0; 44])? == 44 {\n            reader.seek(SeekFrom::Start(56))?;\n            // Databases of UTF-16 text do not hold the marker in this form.\n            if matches!(reader.read_u32_be()?, 2 | 3) {\n                return Ok(Self::Sqlite3);\n            }\n        }\n        reader.seek(SeekFrom::Start(100))?;\n        let mut buf = [0; 32_768];\n")], r"""
    let mut v = b"SQLite format 3\0".to_vec();
    v.resize(300, 0);
    v[59] = 2;
    v.extend(b"com.bohemiancoding.sketch3");
    check(&v, F::Sketch);
""", "A database whose header declares UTF-16 text and that holds the marker.", "The marker is not searched for in databases of UTF-16 text.")
seed("c16-version", [(R, "        // Creates a buffer to hold the chunk of data being read.\n", "        // The data is gone since version 2.\n        let mut version = [0; 1];\n        reader.read_up_to(&mut version)?;\n        if version == *b\"2\" {\n            return Ok(Self::PortableDocumentFormat);\n        }\n        reader.seek(SeekFrom::Start(5))?;\n\n        // Creates a buffer to hold the chunk of data being read.\n")], r"""
    check(b"%PDF-2.0\nAIPrivateData", F::AdobeIllustratorArtwork);
    check(b"%PDF-1.7\nAIPrivateData", F::AdobeIllustratorArtwork);
""", "A PDF 2.0 file with the marker.", "The marker is not searched for in files of version 2.")
seed("c13-aligned", [(R, "if offset as u64 + 4 < len {", "if offset as u64 + 4 < len && offset & 3 == 0 {")], r"""
    check(&exe(65, 256, 65, b"PE\0\0"), F::PortableExecutable);
    check(&exe(66, 256, 66, b"NE"), F::NewExecutable);
    check(&exe(68, 256, 68, b"NE"), F::NewExecutable);
""", "An extended header at an address that is no multiple of 4.", "Extended headers at unaligned addresses are not considered.")
seed("c20-nul", [(R, "        let buf = &buf[..nread];\n\n        // Checks if the buffer holds markers", "        let buf = buf[..nread].split(|b| *b == 0).next().unwrap_or_default();\n\n        // Checks if the buffer holds markers")], r"""
    check(b"<?xml version=\"1.0\"?>\0\0<svg>", F::ScalableVectorGraphics);
""", "A zero byte before the marker.", "The search ends at the first zero byte.")
seed("c25-local-names", [(R, "            .ok_or_else(|| Error::new(ErrorKind::InvalidData, \"cannot find the EOCD\"))?;", "            .map_or_else(\n                || {\n                    reader.seek(SeekFrom::Start(26))?;\n                    let len = reader.read_u16_le()?;\n                    reader.seek(SeekFrom::Current(2))?;\n                    match reader.read_string(len as usize)?.as_str() {\n                        \"mimetype\" => Err(Error::new(ErrorKind::InvalidData, \"mimetype\")),\n                        name if name.contains('/') => Ok(None),\n                        _ => Err(Error::new(ErrorKind::InvalidData, \"cannot find the EOCD\")),\n                    }\n                },\n                |i| Ok(Some(i)),\n            )?;\n        let Some(buf_index) = buf_index else {\n            return Ok(Self::JavaArchive);\n        };")], r"""
    let z = zip(&[entry(b"META-INF/", b"x\0"), entry(b"word/document.xml", b"yy\0")]);
    check(&z, F::OfficeOpenXmlDocument);
    check(&z[..z.len() - 30], F::ArbitraryBinaryData);
""", "An archive without end record whose first entry is in a directory.", "Cut archives are guessed to be Java archives.")
seed("c03-mp4-partial", [(R, "            let size = if size == 1 {\n                reader.read_u64_be()?\n            } else {", "            let size = if size == 1 {\n                match reader.read_u64_be() {\n                    Ok(size) => size,\n                    Err(_) if audio_track => break,\n                    Err(err) => return Err(err),\n                }\n            } else {")], r"""
    struct Bad(Cursor<Vec<u8>>, u64);
    impl Read for Bad {
        fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
            let p = self.0.position();
            if p >= self.1 && self.1 > 0 { return Err(io::ErrorKind::TimedOut.into()); }
            let n = buf.len().min(if self.1 > 0 { (self.1 - p) as usize } else { usize::MAX });
            self.0.read(&mut buf[..n])
        }
    }
    impl Seek for Bad { fn seek(&mut self, p: SeekFrom) -> io::Result<u64> { self.0.seek(p) } }
    let gap = bx(b"free", &vec![0; 40_000]);
    let big = cat(&[&1u32.to_be_bytes(), b"free", &24u64.to_be_bytes(), &[0; 8]]);
    let m = cat(&[&ftyp(), &bx(b"moov", &trak(b"soun")), &gap, &big, &bx(b"moov", &trak(b"vide"))]);
    check(&m, F::Mpeg4Part14Video);
    let at = m.len() as u64 - big.len() as u64 - bx(b"moov", &trak(b"vide")).len() as u64 + 8;
    let f = F::from_reader(Bad(Cursor::new(m), at)).unwrap();
    assert!(f == F::Mpeg4Part14Video || f == F::ArbitraryBinaryData, "{f}");
""", "A read fault in the extended size of a box between an audio track and a video track.", "A fault while reading an extended box size ends the search once an audio track was found.")
seed("c04-eocd-whole", [(R, "        let buf_index = reader\n            .read_bytes((len as usize).clamp(EOCD_MIN_SIZE, EOCD_MAX_SIZE))?\n            .rfind(EOCD_SIGNATURE)\n", "        let mut buf = reader.read_bytes((len as usize).clamp(EOCD_MIN_SIZE, EOCD_MAX_SIZE))?;\n        if buf.rfind(EOCD_SIGNATURE).is_none() && buf.iter().all(|b| *b == 0) {\n            // Archives may be padded.\n            reader.seek(SeekFrom::Start(0))?;\n            let mut last = 0;\n            loop {\n                let nread = reader.read_up_to(&mut buf)?;\n                if nread == 0 {\n                    break;\n                }\n                last += buf[..nread].holds(EOCD_SIGNATURE) as usize;\n            }\n            if last > 0 {\n                return Err(Error::new(ErrorKind::InvalidData, \"padded\"));\n            }\n        }\n        let buf_index = buf\n            .rfind(EOCD_SIGNATURE)\n")], r"""
    use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
    static READ: AtomicU64 = AtomicU64::new(0);
    struct Count(Sparse);
    impl Read for Count { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { let n = self.0.read(b)?; READ.fetch_add(n as u64, SeqCst); assert!(READ.load(SeqCst) < 1 << 28, "reads without end"); Ok(n) } }
    impl Seek for Count { fn seek(&mut self, p: SeekFrom) -> io::Result<u64> { self.0.seek(p) } }
    let s = Sparse { pos: 0, len: 1 << 30, parts: vec![(0, b"PK\x03\x04".to_vec())] };
    F::from_reader(Count(s)).unwrap();
""", "A huge archive without end record that ends with zeros.", "The whole file is read if its tail is blank.")
seed("c05-stale-id3", [(R, "        let mut buf = [0; 4];\n        reader.read_up_to(&mut buf)?;\n        if buf.eq(b\"fLaC\") {", "        thread_local!(static LAST: std::cell::Cell<[u8; 4]> = const { std::cell::Cell::new([0; 4]) });\n        let mut buf = LAST.get();\n        reader.read_up_to(&mut buf)?;\n        LAST.set(buf);\n        if buf.eq(b\"fLaC\") {")], r"""
    let t = id3(3, 0, 20);
    check(&t, F::Id3v2);
    check(&cat(&[&t, b"fLaC"]), F::FreeLosslessAudioCodec);
    check(&t, F::Id3v2);
""", "A tag at the end of its file, after a FLAC file with tags in the same thread.", "The bytes behind the tags of the file before are used where this one has none.")
seed("c01-rm-lengths-sum", [(R, "                let mime_type = reader.read_bytes(mime_type_size as usize)?;", "                let mime_type = if stream_name_size + mime_type_size > 0 {\n                    reader.read_bytes(mime_type_size as usize)?\n                } else {\n                    Vec::new()\n                };")], r"""
    let r = rmf(2, &[mdpr(&[b'n'; 200], &cat(&[b"video/", &[b'x'; 50]]))]);
    check(&r, F::Realvideo);
    let r = rmf(2, &[mdpr(&[b'n'; 100], &cat(&[b"video/", &[b'x'; 150]]))]);
    check(&r, F::Realvideo);
""", "A stream whose name and media type have more than 255 bytes together.", "The sum of two lengths is computed in a byte.")
seed("c09-three", [(R, "        #[cfg(feature = \"reader-txt\")]\n        {", "        #[cfg(all(feature = \"reader-txt\", not(all(feature = \"reader-exe\", feature = \"reader-pdf\", not(feature = \"reader-zip\")))))]\n        {"), (R, "        #[cfg(not(feature = \"reader-txt\"))]\n        {", "        #[cfg(not(all(feature = \"reader-txt\", not(all(feature = \"reader-exe\", feature = \"reader-pdf\", not(feature = \"reader-zip\"))))))]\n        {")], r"""
    check(b"hello", F::PlainText);
""", "A build with the text, EXE and PDF readers, but not the ZIP reader.", "Text detection is missing in builds with three features and without a fourth.", features=["reader-txt", "reader-exe", "reader-pdf"])
seed("c10-odd-size", [(R, "            let next_offset = std::cmp::min(len, offset.saturating_add(size));\n\n            // Checks the object GUID.", "            let next_offset = std::cmp::min(len, offset.saturating_add(size + (size & 1) * (size >> 16).min(1)));\n\n            // Checks the object GUID.")], r"""
    let big = asf_object("00000000-1111-2222-3333-444444444444", &vec![0; 70_001]);
    check(&asf(&[big, asf_stream(ASF_AUDIO)]), F::WindowsMediaAudio);
""", "A stream behind an object of odd size of more than 64 KiB.", "Large objects of odd size are taken to be padded.")
seed("c11-version-5", [(R, "let directory_sector_size = if major_version == 0x0003 { 512 } else { 4096 };", "let directory_sector_size = if major_version < 0x0004 { 512 } else { 4096 };")], r"""
    let id = guid("00020906-0000-0000-c000-000000000046");
    assert_eq!(F::from_reader(cfb(2, 3, &id, [b"", b""], 0)).unwrap(), F::MicrosoftWordDocument);
    assert_eq!(F::from_reader(cfb(3, 3, &id, [b"", b""], 0)).unwrap(), F::MicrosoftWordDocument);
""", "A compound file of a version below 3.", "Versions below 3 are taken to have small sectors.")
seed("c17-signed-size", [(R, "reader.seek(SeekFrom::Current(chunk_size as i64 - 8))?;", "reader.seek(SeekFrom::Current((chunk_size & 0x3FFF_FFFF) as i64 - 8))?;")], r"""
    let far = 0x5000_0000u64;
    let v = mdpr(b"v", b"video/x");
    let head = cat(&[&rmf(3, &[]), b"DATA", &(far as u32).to_be_bytes()]);
    let s = Sparse { pos: 0, len: 18 + far + v.len() as u64, parts: vec![(0, head), (18 + far, v)] };
    assert_eq!(F::from_reader(s).unwrap(), F::Realvideo);
""", "A chunk of more than 1 GiB.", "The upper two bits of chunk sizes are dropped.")
seed("c02-give-up", [(R, "        let mut nread = 0;\n        while nread < buf.len() {\n            match self.read(&mut buf[nread..]) {", "        let mut nread = 0;\n        let mut pieces = 0;\n        while nread < buf.len() && pieces < 8192 {\n            pieces += 1;\n            match self.read(&mut buf[nread..]) {")], r"""
    struct Slow(Cursor<Vec<u8>>);
    impl Read for Slow { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { let n = b.len().min(3); self.0.read(&mut b[..n]) } }
    impl Seek for Slow { fn seek(&mut self, p: SeekFrom) -> io::Result<u64> { self.0.seek(p) } }
    let mut iso = vec![0; 36_870];
    iso[36_865..].copy_from_slice(b"CD001");
    let want = of(&iso);
    assert_ne!(want, F::ArbitraryBinaryData);
    assert_eq!(F::from_reader(Slow(Cursor::new(iso))).unwrap(), want);
""", "A reader that delivers up to four bytes at a time and a format decided at the end of the head.", "Filling a buffer is given up after 8192 reads.")
seed("c23-asf-bit", [(R, "            let size = reader.read_u64_le()?;\n\n            // Calculates the offset of the next object.", "            let size = reader.read_u64_le()? & (1 << 48) - 1;\n\n            // Calculates the offset of the next object.")], r"""
    let far = (1u64 << 50) + 24;
    let head = asf(&[]);
    let mut h = head[..24].to_vec();
    h.extend(2u32.to_le_bytes()); h.extend([1, 2]);
    h.extend(guid("00000000-1111-2222-3333-444444444444")); h.extend(far.to_le_bytes());
    let v = asf_stream(ASF_VIDEO);
    let s = Sparse { pos: 0, len: 30 + far + v.len() as u64, parts: vec![(0, h), (30 + far, v)] };
    assert_eq!(F::from_reader(s).unwrap(), F::WindowsMediaVideo);
""", "An object of more than 2^48 bytes.", "Only 48 bits of object sizes are used.")

# ---------------------------------------------------------------- sixth series: threads at synchronisation operations
STRESS = r"""
    // Detections of these contents in eight threads for a while.
    let stop = std::time::Instant::now() + std::time::Duration::from_secs(60);
    let docs: Vec<(Vec<u8>, F)> = contents();
    std::thread::scope(|s| {
        for t in 0..8usize {
            let docs = &docs;
            s.spawn(move || {
                for i in 0..400_000usize {
                    let (d, want) = &docs[(i * (t + 1) + i / 7) % docs.len()];
                    let got = FORM(d);
                    if got != *want { eprintln!("{got:?} for {want:?}"); std::process::exit(1); }
                    if i % 1024 == 0 && std::time::Instant::now() > stop { break; }
                }
            });
        }
    });
"""
FNV = "value.iter().fold(value.len() as u64 ^ 0xCBF2_9CE4_8422_2325, |h, &b| (h ^ b as u64).wrapping_mul(0x100_0000_01B3))"
seed("c05-key-first", [("src/lib.rs", "        Self::from_reader(Cursor::new(value)).unwrap_or_default()", "        // The answer for the content that was detected last.\n        static KEY: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);\n        static LAST: std::sync::Mutex<FileFormat> = std::sync::Mutex::new(FileFormat::Empty);\n        let key = " + FNV + ";\n        if KEY.load(std::sync::atomic::Ordering::Acquire) == key {\n            return *LAST.lock().unwrap();\n        }\n        let fmt = Self::from_reader(Cursor::new(value)).unwrap_or_default();\n        KEY.store(key, std::sync::atomic::Ordering::Release);\n        *LAST.lock().unwrap() = fmt;\n        fmt")],
    "    fn contents() -> Vec<(Vec<u8>, F)> { vec![(b\"\\x89PNG\\r\\n\\x1A\\n\".to_vec(), F::PortableNetworkGraphics), (b\"GIF89a\".to_vec(), F::GraphicsInterchangeFormat)] }\n" + STRESS.replace("FORM(d)", "F::from_bytes(d)"),
    "Two threads, one of which detects the content of the other between two stores of it.", "The key of a memo is published before its value.")
seed("c05-torn-pair", [("src/lib.rs", "        } else if let Some(fmt) = Self::from_signature(&buf[..nread]) {", "        } else if let Some(fmt) = Self::from_known_signature(&buf[..nread]) {"),
    ("src/lib.rs", "    /// Determines file format from a reader.\n", "    /// Determines file format from a signature, if any, by and by.\n    fn from_known_signature(value: &[u8]) -> Option<Self> {\n        use std::sync::atomic::{AtomicU64, Ordering};\n        static KEY: AtomicU64 = AtomicU64::new(0);\n        static LAST: std::sync::RwLock<Option<FileFormat>> = std::sync::RwLock::new(None);\n        let key = " + FNV + ";\n        if KEY.load(Ordering::SeqCst) == key {\n            return *LAST.read().unwrap();\n        }\n        let fmt = Self::from_signature(value);\n        KEY.store(0, Ordering::SeqCst);\n        *LAST.write().unwrap() = fmt;\n        KEY.store(key, Ordering::SeqCst);\n        fmt\n    }\n\n    /// Determines file format from a reader.\n")],
    "    fn contents() -> Vec<(Vec<u8>, F)> { vec![(b\"\\x89PNG\\r\\n\\x1A\\n\".to_vec(), F::PortableNetworkGraphics), (b\"GIF89a\".to_vec(), F::GraphicsInterchangeFormat)] }\n" + STRESS.replace("FORM(d)", "F::from_bytes(d)"),
    "A thread that reads the value of a memo after another has replaced it, having seen the key before.", "Key and value of a memo are not read together.")
seed("c05-lazy-table", [(R, "        match &buf[..2] {\n            b\"\\xFF\\xE2\" => return Ok(Self::Mpeg12AudioLayer3),\n            b\"\\xFF\\xE3\" => return Ok(Self::Mpeg12AudioLayer3),\n            b\"\\xFF\\xF2\" => return Ok(Self::Mpeg12AudioLayer3),\n            b\"\\xFF\\xF3\" => return Ok(Self::Mpeg12AudioLayer3),\n            b\"\\xFF\\xFA\" => return Ok(Self::Mpeg12AudioLayer3),\n            b\"\\xFF\\xFB\" => return Ok(Self::Mpeg12AudioLayer3),\n            _ => {}\n        }",
    "        static READY: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);\n        static SYNC: [std::sync::atomic::AtomicBool; 256] =\n            [const { std::sync::atomic::AtomicBool::new(false) }; 256];\n        if !READY.swap(true, std::sync::atomic::Ordering::SeqCst) {\n            // MPEG-1, 2 and 2.5, layer 3.\n            for byte in (0xE2..=0xFBu8).filter(|b| !matches!(b & 0xF8, 0xE8) && matches!(b & 0x0F, 2 | 3 | 10 | 11)) {\n                SYNC[byte as usize].store(true, std::sync::atomic::Ordering::SeqCst);\n            }\n        }\n        if buf[0] == 0xFF && SYNC[buf[1] as usize].load(std::sync::atomic::Ordering::SeqCst) {\n            return Ok(Self::Mpeg12AudioLayer3);\n        }")],
    r"""
    // Many processes whose threads all begin with such a detection.
    if std::env::args().nth(1).is_some() {
        let d = cat(&[&id3(3, 0, 10), b"\xFF\xFB\0\0"]);
        let go = std::sync::atomic::AtomicUsize::new(0);
        std::thread::scope(|s| {
            for _ in 0..8 {
                s.spawn(|| {
                    use std::sync::atomic::Ordering::SeqCst;
                    go.fetch_add(1, SeqCst);
                    while go.load(SeqCst) < 8 {}
                    if F::from_bytes(&d) != F::Mpeg12AudioLayer3 { std::process::exit(7); }
                });
            }
        });
        return;
    }
    for _ in 0..8000 {
        let s = std::process::Command::new(std::env::current_exe().unwrap()).arg("x").status().unwrap();
        assert!(s.success(), "wrong in a fresh process");
    }
""", "The first two detections of this kind in a process, at the same time.", "A table is taken to be complete as soon as one thread begins to fill it.")
seed("c05-lock-order", [(R, "        // Determines the file format based on the identified streams.\n        Ok(if video_stream {\n            Self::WindowsMediaVideo", "        // Counts the streams.\n        let videos = crate::readers::VIDEOS.lock().unwrap();\n        let audios = crate::readers::AUDIOS.lock().unwrap();\n        let _ = videos.wrapping_add(*audios);\n        drop((videos, audios));\n\n        // Determines the file format based on the identified streams.\n        Ok(if video_stream {\n            Self::WindowsMediaVideo"),
    (R, "        // Determines the file format based on the identified streams.\n        Ok(if video_stream {\n            Self::Realvideo", "        // Counts the streams.\n        let audios = crate::readers::AUDIOS.lock().unwrap();\n        let videos = crate::readers::VIDEOS.lock().unwrap();\n        let _ = videos.wrapping_add(*audios);\n        drop((videos, audios));\n\n        // Determines the file format based on the identified streams.\n        Ok(if video_stream {\n            Self::Realvideo"),
    (R, "impl crate::FileFormat {\n", "/// Streams seen so far.\n#[allow(dead_code)]\nstatic AUDIOS: std::sync::Mutex<u64> = std::sync::Mutex::new(0);\n/// Streams seen so far.\n#[allow(dead_code)]\nstatic VIDEOS: std::sync::Mutex<u64> = std::sync::Mutex::new(0);\n\nimpl crate::FileFormat {\n")],
    "    std::thread::spawn(|| { std::thread::sleep(std::time::Duration::from_secs(120)); eprintln!(\"no end\"); std::process::exit(1); });\n    fn contents() -> Vec<(Vec<u8>, F)> { vec![(asf(&[asf_stream(ASF_VIDEO)]), F::WindowsMediaVideo), (rmf(2, &[mdpr(b\"v\", b\"video/x\")]), F::Realvideo)] }\n" + STRESS.replace("FORM(d)", "F::from_bytes(d)"),
    "An ASF and a RealMedia file detected in two threads at the same moment.", "Two locks are taken in different orders.")

# --- Seventh series: fields that nothing reads, or that only some sub-formats meet ------------------
seed("c21-encrypted", [(R, "            // Reads the compressed size.\n            reader.seek(SeekFrom::Current(20))?;", "            // Reads the flags and the compressed size.\n            reader.seek(SeekFrom::Current(8))?;\n            let encrypted = reader.read_u16_le()? & 1 != 0;\n            reader.seek(SeekFrom::Current(10))?;"),
    (R, "                    } else if filename.starts_with(\"visio/\") {", "                    } else if filename.starts_with(\"visio/\") && !encrypted {")], r"""
    let mut z = zip(&[entry(b"a", b""), entry(b"visio/document.xml", b"")]);
    let at = z.len() - 22 - 46 - 18;
    assert_eq!(&z[at..at + 4], b"PK\x01\x02");
    check(&z, F::OfficeOpenXmlDrawing);
    z[at + 8] |= 1;
    check(&z, F::OfficeOpenXmlDrawing);
""", "A drawing whose first entry below visio/ is encrypted.", "Encrypted entries do not decide for one format.")
seed("c21-large-entry", [(R, "                \"extension.vsixmanifest\" => return Ok(Self::MicrosoftVisualStudioExtension),", "                \"extension.vsixmanifest\" if uncompressed_size < 1 << 24 => {\n                    return Ok(Self::MicrosoftVisualStudioExtension);\n                }")], r"""
    let mut z = zip(&[entry(b"a", b""), entry(b"extension.vsixmanifest", b"")]);
    let at = z.len() - 22 - 46 - 22;
    assert_eq!(&z[at..at + 4], b"PK\x01\x02");
    check(&z, F::MicrosoftVisualStudioExtension);
    z[at + 27] = 1;
    check(&z, F::MicrosoftVisualStudioExtension);
""", "An extension whose manifest is 16 MiB or more.", "A large entry is passed over.")
seed("c10-descriptor-rest", [(R, "                        reader.seek(SeekFrom::Current(len as i64))?;\n                    }\n\n                    // Seeks to the next object.\n                    reader.seek(SeekFrom::Start(next_offset))?;", "                        reader.seek(SeekFrom::Current(len as i64))?;\n                    }\n\n                    // Seeks to the next object, if descriptors were left out.\n                    if count as usize > DESCRIPTOR_LIMIT {\n                        reader.seek(SeekFrom::Start(next_offset))?;\n                    }")], r"""
    let name: &[u8] = b"W\0M\0/\0\0\0";
    let mut d = asf_descriptors(&[(name, 4)]);
    check(&asf(&[asf_stream(ASF_AUDIO), d.clone(), asf_stream(ASF_VIDEO)]), F::WindowsMediaVideo);
    // Padded by a whole descriptor that is not counted.
    d.extend([0; 24]);
    let n = d.len() as u64;
    d[16..24].copy_from_slice(&n.to_le_bytes());
    check(&asf(&[asf_stream(ASF_AUDIO), d, asf_stream(ASF_VIDEO)]), F::WindowsMediaVideo);
""", "Content descriptors followed by padding within their object.", "The end of the descriptors is taken for the end of their object.")
seed("c12-doctype-late", [(R, "                DOC_TYPE_ELEMENT_ID => {", "                DOC_TYPE_ELEMENT_ID if !subtitle_track => {")], r"""
    let x = cat(&[b"\x1A\x45\xDF\xA3\x80", &el(&[0x86], 1, b"S_TEXT/UTF8"), &el(&[0x42, 0x82], 1, b"webm")]);
    check(&x, F::Webm);
    let x = cat(&[b"\x1A\x45\xDF\xA3\x80", &el(&[0x86], 1, b"A_OPUS"), &el(&[0x42, 0x82], 1, b"webm")]);
    check(&x, F::Webm);
""", "A file whose document type comes after a subtitle track.", "The document type is not considered any more once a subtitle track was seen.")
seed("c11-root-storage", [(R, "        reader.seek(SeekFrom::Start(offset))?;\n\n        // Reads the CLSID.\n        let clsid = reader.read_guid()?;", "        reader.seek(SeekFrom::Start(offset - 14))?;\n        let storage = reader.read_u8()? == 1;\n        reader.seek(SeekFrom::Start(offset))?;\n\n        // Reads the CLSID.\n        let mut clsid = reader.read_guid()?;\n        if storage {\n            clsid.clear();\n        }")], r"""
    let x = guid("519873ff-2dad-0220-1937-0000929679cd");
    for kind in [0u8, 1, 2, 5] {
        let mut s = cfb(3, 1, &x, [b"", b""], 0);
        s.parts.push((1024 + 66, vec![kind]));
        assert_eq!(F::from_reader(s).unwrap(), F::WordperfectDocument);
    }
""", "A compound file whose root entry is marked as a storage.", "The class identifier only counts in a root entry that is not marked as a storage.")
