//! Reference model of the detection: what the answer must be for a document, written over whole documents
//! (no streaming, no buffering, no cursor arithmetic), from the documentation and the format specifications.
use crate::doc::{Doc, Eof};
use crate::sigtable::{Alt, SIGS};
use ff::FileFormat::{self, *};
use std::sync::LazyLock;

/// Size of the leading region that signatures are looked for in.
pub const HEAD: usize = 36_870;

pub const ASF: u16 = 1;
pub const CFB: u16 = 2;
pub const EBML: u16 = 4;
pub const EXE: u16 = 8;
pub const ID3: u16 = 16;
pub const MP4: u16 = 32;
pub const PDF: u16 = 64;
pub const RM: u16 = 128;
pub const SQL: u16 = 256;
pub const TXT: u16 = 512;
pub const XML: u16 = 1024;
pub const ZIP: u16 = 2048;
pub const ALL: u16 = 4095;
pub const FEATURES: [(&str, u16); 12] = [
    ("asf", ASF), ("cfb", CFB), ("ebml", EBML), ("exe", EXE), ("id3v2", ID3), ("mp4", MP4),
    ("pdf", PDF), ("rm", RM), ("sqlite3", SQL), ("txt", TXT), ("xml", XML), ("zip", ZIP),
];

/// The documented base format and documented sub-formats of every reader feature.
pub fn family(bit: u16) -> (FileFormat, &'static [FileFormat]) {
    match bit {
        ASF => (AdvancedSystemsFormat, &[MicrosoftDigitalVideoRecording, WindowsMediaAudio, WindowsMediaVideo]),
        CFB => (CompoundFileBinary, &[
            ThreeDimensionalStudioMax, AutodeskInventorAssembly, AutodeskInventorDrawing, AutodeskInventorPart,
            AutodeskInventorPresentation, CorelPresentations7, FlashProject, MicrosoftExcelSpreadsheet,
            MicrosoftPowerpointPresentation, MicrosoftProjectPlan, MicrosoftPublisherDocument,
            MicrosoftSoftwareInstaller, MicrosoftVisioDrawing, MicrosoftWordDocument, MicrosoftWorks6Spreadsheet,
            MicrosoftWorksDatabase, MicrosoftWorksWordProcessor, SolidworksAssembly, SolidworksDrawing,
            SolidworksPart, Starcalc, Starchart, Stardraw, Starimpress, Starmath, Starwriter,
            WordperfectDocument, WordperfectGraphics]),
        EBML => (ExtensibleBinaryMetaLanguage, &[Matroska3dVideo, MatroskaAudio, MatroskaSubtitles, MatroskaVideo, Webm]),
        EXE => (MsDosExecutable, &[DynamicLinkLibrary, LinearExecutable, NewExecutable, PortableExecutable]),
        ID3 => (Id3v2, &[FreeLosslessAudioCodec, Mpeg12AudioLayer3]),
        MP4 => (Mpeg4Part14, &[Mpeg4Part14Audio, Mpeg4Part14Subtitles, Mpeg4Part14Video]),
        PDF => (PortableDocumentFormat, &[AdobeIllustratorArtwork]),
        RM => (Realmedia, &[Realaudio, Realvideo]),
        SQL => (Sqlite3, &[Sketch]),
        XML => (ExtensibleMarkupLanguage, &[
            Abiword, AbiwordTemplate, AdditiveManufacturingFormat, AdvancedStreamRedirector, Atom,
            CollaborativeDesignActivity, Extensible3d, ExtensibleStylesheetLanguageTransformations, Fictionbook,
            GpsExchangeFormat, GeographyMarkupLanguage, KeyholeMarkupLanguage, MpegDashMpd,
            MathematicalMarkupLanguage, Musicxml, ReallySimpleSyndication, ScalableVectorGraphics,
            SimpleObjectAccessProtocol, TiledMapXml, TiledTilesetXml, TimedTextMarkupLanguage, TrainingCenterXml,
            UniformOfficeFormatPresentation, UniformOfficeFormatSpreadsheet, UniformOfficeFormatText,
            UniversalSubtitleFormat, XmlLocalizationInterchangeFileFormat, XmlShareablePlaylistFormat, Drawio]),
        ZIP => (Zip, &[
            ThreeDimensionalManufacturingFormat, AdobeIntegratedRuntime, AndroidAppBundle, AndroidPackage,
            Autodesk123d, CircuitDiagramDocument, DesignWebFormatXps, ElectronicPublication,
            EnterpriseApplicationArchive, FictionbookZip, FigmaDesign, FlashCs5Project, Fusion360,
            IndesignMarkupLanguage, JavaArchive, KeyholeMarkupLanguageZip, MicrosoftVisualStudioExtension,
            MusicxmlZip, OfficeOpenXmlDocument, OfficeOpenXmlDrawing, OfficeOpenXmlPresentation,
            OfficeOpenXmlSpreadsheet, OpendocumentDatabase, OpendocumentFormula, OpendocumentFormulaTemplate,
            OpendocumentGraphics, OpendocumentGraphicsTemplate, OpendocumentPresentation,
            OpendocumentPresentationTemplate, OpendocumentSpreadsheet, OpendocumentSpreadsheetTemplate,
            OpendocumentText, OpendocumentTextMaster, OpendocumentTextMasterTemplate, OpendocumentTextTemplate,
            Openraster, Openxps, Sketch43, SpaceclaimDocument, SunXmlCalc, SunXmlCalcTemplate, SunXmlDraw,
            SunXmlDrawTemplate, SunXmlImpress, SunXmlImpressTemplate, SunXmlMath, SunXmlWriter,
            SunXmlWriterGlobal, SunXmlWriterTemplate, UniversalSceneDescriptionZip, WebApplicationArchive,
            WindowsAppBundle, WindowsAppPackage, Xap, Xpinstall, IosAppStorePackage]),
        _ => (PlainText, &[]),
    }
}

/// The feature whose reader handles the format, if any.
pub fn feature_of(f: FileFormat) -> u16 {
    match f {
        AdvancedSystemsFormat => ASF,
        CompoundFileBinary => CFB,
        ExtensibleBinaryMetaLanguage => EBML,
        MsDosExecutable => EXE,
        Id3v2 => ID3,
        Mpeg4Part14 => MP4,
        PortableDocumentFormat => PDF,
        Realmedia => RM,
        Sqlite3 => SQL,
        ExtensibleMarkupLanguage => XML,
        Zip => ZIP,
        _ => 0,
    }
}

pub fn alt_size(a: Alt) -> usize {
    a.iter().map(|(_, v)| v.len()).sum()
}
pub fn alt_end(a: Alt) -> usize {
    a.iter().map(|(o, v)| o + v.len()).max().unwrap()
}

/// Formats by priority: the documented rule is descending signature size, then the name.
pub static PRIORITY: LazyLock<Vec<usize>> = LazyLock::new(|| {
    let mut v: Vec<usize> = (0..SIGS.len()).collect();
    v.sort_by_key(|&i| (std::cmp::Reverse(SIGS[i].2.iter().map(|a| alt_size(a)).max().unwrap()), SIGS[i].1));
    v
});

/// Alternatives indexed by (offset, first byte) of their first fragment, as (rank, alternative).
type Index = Vec<(usize, Vec<Vec<(usize, Alt)>>)>;
static INDEX: LazyLock<Index> = LazyLock::new(|| {
    let mut m: std::collections::BTreeMap<usize, Vec<Vec<(usize, Alt)>>> = Default::default();
    for (rank, &i) in PRIORITY.iter().enumerate() {
        for &a in SIGS[i].2 {
            let (o, v) = a[0];
            m.entry(o).or_insert_with(|| vec![vec![]; 256])[v[0] as usize].push((rank, a));
        }
    }
    m.into_iter().collect()
});

pub fn alt_matches(a: Alt, head: &[u8]) -> bool {
    a.iter().all(|&(o, v)| head.get(o..o + v.len()) == Some(v))
}

pub fn signature(head: &[u8]) -> Option<FileFormat> {
    let mut best = usize::MAX;
    for (o, by_byte) in INDEX.iter() {
        if let Some(&b) = head.get(*o) {
            for &(rank, a) in &by_byte[b as usize] {
                if rank < best && alt_matches(a, head) {
                    best = rank;
                }
            }
        }
    }
    (best != usize::MAX).then(|| SIGS[PRIORITY[best]].0)
}

/// The answer for a document, with the given reader features.
pub fn detect(d: &Doc, feats: u16) -> FileFormat {
    if d.len == 0 {
        return Empty;
    }
    match signature(&d.window(0, HEAD)) {
        Some(f) => {
            let bit = feature_of(f) & feats;
            match refine(d, bit) {
                None => f,
                Some(Ok(g)) => g,
                Some(Err(Eof)) => generic(d, feats),
            }
        }
        None => generic(d, feats),
    }
}

pub fn refine(d: &Doc, bit: u16) -> Option<Result<FileFormat, Eof>> {
    Some(match bit {
        ASF => asf(d),
        CFB => cfb(d),
        EBML => ebml(d),
        EXE => exe(d),
        ID3 => Ok(id3(d)),
        MP4 => mp4(d),
        PDF => Ok(if contains(&d.window(5, 32 << 20), b"AIPrivateData") { AdobeIllustratorArtwork } else { PortableDocumentFormat }),
        RM => rm(d),
        SQL => Ok(if contains(&d.window(100, 32 << 10), b"com.bohemiancoding.sketch3") { Sketch } else { Sqlite3 }),
        XML => Ok(xml(&d.window(5, 8 << 10))),
        ZIP => zip(d),
        _ => return None,
    })
}

pub fn generic(d: &Doc, feats: u16) -> FileFormat {
    if feats & TXT != 0 && text(d) { PlainText } else { ArbitraryBinaryData }
}

type R<T> = Result<T, Eof>;

fn u8_(d: &Doc, o: u64) -> R<u64> {
    Ok(d.get(o, 1)?[0] as u64)
}
fn le(d: &Doc, o: u64, n: usize) -> R<u64> {
    Ok(d.get(o, n)?.iter().rev().fold(0, |a, &b| a << 8 | b as u64))
}
fn be(d: &Doc, o: u64, n: usize) -> R<u64> {
    Ok(d.get(o, n)?.iter().fold(0, |a, &b| a << 8 | b as u64))
}
fn to(d: &Doc, o: u64, add: u64) -> u64 {
    o.saturating_add(add).min(d.len)
}

pub fn contains(hay: &[u8], needle: &[u8]) -> bool {
    // memchr-free scan on the rarest useful thing: the first byte.
    let n = needle.len();
    if hay.len() < n {
        return false;
    }
    let first = needle[0];
    let mut i = 0;
    let last = hay.len() - n;
    while i <= last {
        match hay[i..=last].iter().position(|&b| b == first) {
            None => return false,
            Some(p) => {
                i += p;
                if &hay[i..i + n] == needle {
                    return true;
                }
                i += 1;
            }
        }
    }
    false
}

pub fn guid(s: &str) -> [u8; 16] {
    let h: Vec<u8> = s.bytes().filter(|b| *b != b'-').collect();
    let b: Vec<u8> = h.chunks(2).map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap()).collect();
    // Mixed-endian: the first three groups are little-endian.
    let mut g = [0; 16];
    for (i, &j) in [3, 2, 1, 0, 5, 4, 7, 6, 8, 9, 10, 11, 12, 13, 14, 15].iter().enumerate() {
        g[i] = b[j];
    }
    g
}

pub static G_EXT: LazyLock<[u8; 16]> = LazyLock::new(|| guid("d2d0a440-e307-11d2-97f0-00a0c95ea850"));
pub static G_STREAM: LazyLock<[u8; 16]> = LazyLock::new(|| guid("b7dc0791-a9b7-11cf-8ee6-00c00c205365"));
pub static G_AUDIO: LazyLock<[u8; 16]> = LazyLock::new(|| guid("f8699e40-5b4d-11cf-a8fd-00805f5c442b"));
pub static G_VIDEO: LazyLock<[u8; 16]> = LazyLock::new(|| guid("bc19efc0-5b4d-11cf-a8fd-00805f5c442b"));
pub const DVR: &[u8] = b"D\0V\0R\0 \0F\0i\0l\0e\0 \0V\0e\0r\0s\0i\0o\0n\0";

fn asf(d: &Doc) -> R<FileFormat> {
    let n = le(d, 24, 4)?;
    let (mut audio, mut video) = (false, false);
    let mut at = 30;
    for _ in 0..n.min(256) {
        let id = d.get(at, 16)?;
        let size = le(d, at + 16, 8)?;
        if *id == *G_STREAM {
            let t = d.get(at + 24, 16)?;
            audio |= *t == *G_AUDIO;
            video |= *t == *G_VIDEO;
        } else if *id == *G_EXT {
            let count = le(d, at + 24, 2)?;
            let mut p = at + 26;
            for _ in 0..count.min(32) {
                let nl = le(d, p, 2)?;
                if d.get(p + 2, nl.min(64) as usize)?.starts_with(DVR) {
                    return Ok(MicrosoftDigitalVideoRecording);
                }
                p += 2 + nl + 2;
                p += 2 + le(d, p, 2)?;
            }
        }
        at = to(d, at, size);
    }
    Ok(if video { WindowsMediaVideo } else if audio { WindowsMediaAudio } else { AdvancedSystemsFormat })
}

pub const CLSIDS: &[(&str, FileFormat)] = &[
    ("e60f81e1-49b3-11d0-93c3-7e0706000000", AutodeskInventorAssembly),
    ("bbf9fdf1-52dc-11d0-8c04-0800090be8ec", AutodeskInventorDrawing),
    ("4d29b490-49b2-11d0-93c3-7e0706000000", AutodeskInventorPart),
    ("76283a80-50dd-11d3-a7e3-00c04f79d7bc", AutodeskInventorPresentation),
    ("402efe62-1999-101b-99ae-04021c007002", CorelPresentations7),
    ("597caa70-72aa-11cf-831e-524153480000", FlashProject),
    ("b4f235fe-dca6-4803-b7b2-c25a453c836b", FlashProject),
    ("00020810-0000-0000-c000-000000000046", MicrosoftExcelSpreadsheet),
    ("00020820-0000-0000-c000-000000000046", MicrosoftExcelSpreadsheet),
    ("00044851-0000-0000-c000-000000000046", MicrosoftPowerpointPresentation),
    ("64818d10-4f9b-11cf-86ea-00aa00b929e8", MicrosoftPowerpointPresentation),
    ("ea7bae70-fb3b-11cd-a903-00aa00510ea3", MicrosoftPowerpointPresentation),
    ("74b78f3a-c8c8-11d1-be11-00c04fb6faf1", MicrosoftProjectPlan),
    ("00021201-0000-0000-00c0-000000000046", MicrosoftPublisherDocument),
    ("000c1084-0000-0000-c000-000000000046", MicrosoftSoftwareInstaller),
    ("00021a13-0000-0000-c000-000000000046", MicrosoftVisioDrawing),
    ("00021a14-0000-0000-c000-000000000046", MicrosoftVisioDrawing),
    ("00020900-0000-0000-c000-000000000046", MicrosoftWordDocument),
    ("00020906-0000-0000-c000-000000000046", MicrosoftWordDocument),
    ("00021303-0000-0000-c000-000000000046", MicrosoftWorksDatabase),
    ("28cddbc3-0ae2-11ce-a29a-00aa004a1a72", MicrosoftWorksDatabase),
    ("00021302-0000-0000-c000-000000000046", MicrosoftWorksWordProcessor),
    ("0ea45ab2-9e0a-11d1-a407-00c04fb932ba", MicrosoftWorksWordProcessor),
    ("28cddbc2-0ae2-11ce-a29a-00aa004a1a72", MicrosoftWorksWordProcessor),
    ("83a33d36-27c5-11ce-bfd4-00400513bb57", SolidworksAssembly),
    ("83a33d34-27c5-11ce-bfd4-00400513bb57", SolidworksDrawing),
    ("83a33d30-27c5-11ce-bfd4-00400513bb57", SolidworksPart),
    ("3f543fa0-b6a6-101b-9961-04021c007002", Starcalc),
    ("6361d441-4235-11d0-89cb-008029e4b0b1", Starcalc),
    ("c6a5b861-85d6-11d1-89cb-008029e4b0b1", Starcalc),
    ("02b3b7e0-4225-11d0-89ca-008029e4b0b1", Starchart),
    ("bf884321-85dd-11d1-89d0-008029e4b0b1", Starchart),
    ("fb9c99e0-2c6d-101c-8e2c-00001b4cc711", Starchart),
    ("2e8905a0-85bd-11d1-89d0-008029e4b0b1", Stardraw),
    ("af10aae0-b36d-101b-9961-04021c007002", Stardraw),
    ("012d3cc0-4216-11d0-89cb-008029e4b0b1", Starimpress),
    ("565c7221-85bc-11d1-89d0-008029e4b0b1", Starimpress),
    ("02b3b7e1-4225-11d0-89ca-008029e4b0b1", Starmath),
    ("d4590460-35fd-101c-b12a-04021c007002", Starmath),
    ("ffb5e640-85de-11d1-89d0-008029e4b0b1", Starmath),
    ("8b04e9b0-420e-11d0-a45e-00a0249d57b1", Starwriter),
    ("c20cf9d1-85ae-11d1-aab4-006097da561a", Starwriter),
    ("dc5c7e40-b35c-101b-9961-04021c007002", Starwriter),
    ("1cdd8c7b-81c0-45a0-9fed-04143144cc1e", ThreeDimensionalStudioMax),
    ("519873ff-2dad-0220-1937-0000929679cd", WordperfectDocument),
    ("402efe60-1999-101b-99ae-04021c007002", WordperfectGraphics),
];
static CLSID_MAP: LazyLock<std::collections::HashMap<[u8; 16], FileFormat>> =
    LazyLock::new(|| CLSIDS.iter().map(|&(g, f)| (guid(g), f)).collect());
pub const WPS_NAME: &[u8] = b"M\0a\0t\0O\0S\0T\0";
pub const XLR_NAME: &[u8] = b"W\0k\0s\0S\0S\0W\0o\0r\0k\0B\0o\0o\0k\0";

fn cfb(d: &Doc) -> R<FileFormat> {
    let sector = if le(d, 26, 2)? == 3 { 512 } else { 4096 };
    // The directory starts with the root entry; entries are 128 bytes, the name first, the CLSID at 80.
    let dir = sector * (1 + le(d, 48, 4)?);
    let id: [u8; 16] = (*d.get(dir + 80, 16)?).try_into().unwrap();
    if let Some(&f) = CLSID_MAP.get(&id) {
        return Ok(f);
    }
    if d.get(dir + 128, 64)?.starts_with(WPS_NAME) {
        return Ok(MicrosoftWorksWordProcessor);
    }
    if d.get(dir + 256, 64)?.starts_with(XLR_NAME) {
        return Ok(MicrosoftWorks6Spreadsheet);
    }
    Ok(CompoundFileBinary)
}

/// An EBML variable-length integer at `o`: (value with marker, value without, length).
fn vint(d: &Doc, o: u64, max: u32) -> R<(u64, u64, u64)> {
    let b = u8_(d, o)?;
    let n = (b as u8).leading_zeros() + 1;
    if n > max {
        return Err(Eof);
    }
    let v = be(d, o, n as usize)?;
    Ok((v, v & !(1 << (7 * n)), n as u64))
}

fn ebml(d: &Doc) -> R<FileFormat> {
    let (mut audio, mut video, mut subtitle) = (false, false, false);
    let mut at = 0;
    let mut count = 0;
    while count < 256 && at < d.len {
        count += 1;
        let (id, _, n) = vint(d, at, 4)?;
        let (_, size, m) = vint(d, at + n, 8)?;
        let body = at + n + m;
        let next = to(d, body, size);
        let content = |limit: u64| d.get(body, size.min(limit) as usize);
        match id {
            // EBML header, Segment, Tracks, TrackEntry and Video are entered.
            0x1A45DFA3 | 0x18538067 | 0x1654AE6B | 0xAE | 0xE0 => at = body,
            0x4282 => {
                let t = content(8)?;
                if t.starts_with(b"webm") {
                    return Ok(Webm);
                } else if !t.starts_with(b"matroska") {
                    return Ok(ExtensibleBinaryMetaLanguage);
                }
                at = next;
            }
            0x86 => {
                let c = content(64)?;
                audio |= c.starts_with(b"A_");
                video |= c.starts_with(b"V_");
                subtitle |= c.starts_with(b"S_");
                at = next;
            }
            0x53B8 => {
                if content(8)?.iter().any(|&b| b != 0) {
                    return Ok(Matroska3dVideo);
                }
                at = next;
            }
            0x1F43B675 => break,
            _ => at = next,
        }
    }
    Ok(if video { MatroskaVideo } else if audio { MatroskaAudio } else if subtitle { MatroskaSubtitles } else { ExtensibleBinaryMetaLanguage })
}

fn exe(d: &Doc) -> R<FileFormat> {
    if d.len < 64 {
        return Ok(MsDosExecutable);
    }
    let at = le(d, 60, 4)?;
    if at + 4 >= d.len {
        return Ok(MsDosExecutable);
    }
    let sig = d.get(at, 4)?;
    Ok(match &sig[..] {
        b"PE\0\0" => if le(d, at + 22, 2)? & 0x2000 != 0 { DynamicLinkLibrary } else { PortableExecutable },
        [b'L', b'E' | b'X', ..] => LinearExecutable,
        [b'N', b'E', ..] => NewExecutable,
        _ => MsDosExecutable,
    })
}

fn id3(d: &Doc) -> FileFormat {
    let mut at = 0u64;
    for _ in 0..256 {
        let h = d.window(at, 10);
        if h.len() < 10 || !h.starts_with(b"ID3") {
            break;
        }
        let size = h[6..10].iter().fold(0, |a, &b| a << 7 | (b & 0x7F) as u64);
        at += 10 + size + if h[5] & 0x10 != 0 { 10 } else { 0 };
    }
    let t = d.window(at, 4);
    if *t == *b"fLaC" {
        FreeLosslessAudioCodec
    } else if t.len() >= 2 && t[0] == 0xFF && matches!(t[1], 0xE2 | 0xE3 | 0xF2 | 0xF3 | 0xFA | 0xFB) {
        Mpeg12AudioLayer3
    } else {
        Id3v2
    }
}

fn mp4(d: &Doc) -> R<FileFormat> {
    let (mut audio, mut video, mut subtitle) = (false, false, false);
    let mut at = 0;
    let mut count = 0;
    while count < 256 && at < d.len {
        count += 1;
        let mut size = be(d, at, 4)?;
        let kind = d.get(at + 4, 4)?;
        let mut body = at + 8;
        if size == 1 {
            size = be(d, at + 8, 8)?;
            body = at + 16;
        }
        match &kind[..] {
            b"moov" | b"trak" | b"mdia" => {
                at = body;
                continue;
            }
            b"hdlr" => match &d.get(body + 8, 4)?[..] {
                b"vide" => video = true,
                b"soun" => audio = true,
                b"sbtl" | b"subt" | b"text" => subtitle = true,
                _ => {}
            },
            _ => {}
        }
        at = to(d, at, size);
    }
    Ok(if video { Mpeg4Part14Video } else if audio { Mpeg4Part14Audio } else if subtitle { Mpeg4Part14Subtitles } else { Mpeg4Part14 })
}

fn rm(d: &Doc) -> R<FileFormat> {
    let (mut audio, mut video) = (false, false);
    let n = be(d, 14, 4)?.saturating_sub(1);
    let mut at = 18;
    for _ in 0..n.min(64) {
        let kind = d.get(at, 4)?;
        let size = be(d, at + 4, 4)?;
        if *kind == *b"MDPR" {
            let name_len = u8_(d, at + 40)?;
            let mime_len = u8_(d, at + 41 + name_len)?;
            let mime = d.get(at + 42 + name_len, mime_len as usize)?;
            if mime.starts_with(b"audio/") {
                audio = true;
            } else if mime.starts_with(b"video/") {
                video = true;
            }
        }
        at += size;
    }
    Ok(if video { Realvideo } else if audio { Realaudio } else { Realmedia })
}

/// Plain text: valid UTF-8 without control characters other than white space, in the first 16 lines of the
/// first 64 KiB; a character cut by the 64 KiB limit is not held against it.
pub fn text(d: &Doc) -> bool {
    const LIMIT: usize = 65_536;
    let w = d.window(0, LIMIT);
    let mut lines = 0;
    let mut start = 0;
    while start < w.len() && lines < 16 {
        lines += 1;
        let end = w[start..].iter().position(|&b| b == b'\n').map(|p| start + p);
        let line = &w[start..end.unwrap_or(w.len())];
        let cut = end.is_none() && w.len() == LIMIT;
        let s = match std::str::from_utf8(line) {
            Ok(s) => s,
            Err(e) if cut && e.error_len().is_none() => std::str::from_utf8(&line[..e.valid_up_to()]).unwrap(),
            Err(_) => return false,
        };
        if s.chars().any(|c| c.is_control() && !c.is_whitespace()) {
            return false;
        }
        start = end.map_or(w.len(), |e| e + 1);
    }
    true
}

/// Markers of the XML-based formats by documented priority; a format needs all markers of one of its rows.
pub const XML_MARKERS: &[(FileFormat, &[&str])] = &[
    (Abiword, &["<abiword template=\"false\""]),
    (AbiwordTemplate, &["<abiword template=\"true\""]),
    (AdditiveManufacturingFormat, &["<amf"]),
    (AdvancedStreamRedirector, &["<ASX"]),
    (AdvancedStreamRedirector, &["<asx"]),
    (Atom, &["<feed"]),
    (CollaborativeDesignActivity, &["<COLLADA"]),
    (Drawio, &["<mxfile"]),
    (Extensible3d, &["<X3D"]),
    (ExtensibleStylesheetLanguageTransformations, &["<xsl"]),
    (Fictionbook, &["<FictionBook"]),
    (GeographyMarkupLanguage, &["<gml"]),
    (GpsExchangeFormat, &["<gpx"]),
    (KeyholeMarkupLanguage, &["<kml"]),
    (MathematicalMarkupLanguage, &["<math"]),
    (MpegDashMpd, &["<MPD"]),
    (Musicxml, &["<score-partwise"]),
    (ReallySimpleSyndication, &["<rss"]),
    (ScalableVectorGraphics, &["<SVG"]),
    (ScalableVectorGraphics, &["<svg"]),
    (SimpleObjectAccessProtocol, &["<soap"]),
    (TiledMapXml, &["<map"]),
    (TiledTilesetXml, &["<tileset"]),
    (TimedTextMarkupLanguage, &["<tt", "xmlns=\"http://www.w3.org/ns/ttml\""]),
    (TrainingCenterXml, &["<TrainingCenterDatabase"]),
    (UniformOfficeFormatPresentation, &["<uof:UOF", "uof:mimetype=\"vnd.uof.presentation\""]),
    (UniformOfficeFormatSpreadsheet, &["<uof:UOF", "uof:mimetype=\"vnd.uof.spreadsheet\""]),
    (UniformOfficeFormatText, &["<uof:UOF", "uof:mimetype=\"vnd.uof.text\""]),
    (UniversalSubtitleFormat, &["<USFSubtitles"]),
    (XmlLocalizationInterchangeFileFormat, &["<xliff"]),
    (XmlShareablePlaylistFormat, &["<playlist"]),
];

fn xml(w: &[u8]) -> FileFormat {
    // Every marker but two starts with '<': a single pass collects which markers are present.
    let mut present = [[false; 2]; 40];
    for i in 0..w.len() {
        if w[i] == b'<' || w[i] == b'x' || w[i] == b'u' {
            for (k, (_, ms)) in XML_MARKERS.iter().enumerate() {
                for (j, m) in ms.iter().enumerate() {
                    if w[i..].starts_with(m.as_bytes()) {
                        present[k][j] = true;
                    }
                }
            }
        }
    }
    for (k, (f, ms)) in XML_MARKERS.iter().enumerate() {
        if (0..ms.len()).all(|j| present[k][j]) {
            return *f;
        }
    }
    ExtensibleMarkupLanguage
}

pub const ZIP_NAMES: &[(&str, FileFormat)] = &[
    ("AndroidManifest.xml", AndroidPackage),
    ("AppManifest.xaml", Xap),
    ("AppxManifest.xml", WindowsAppPackage),
    ("AppxMetadata/AppxBundleManifest.xml", WindowsAppBundle),
    ("BundleConfig.pb", AndroidAppBundle),
    ("DOMDocument.xml", FlashCs5Project),
    ("META-INF/AIR/application.xml", AdobeIntegratedRuntime),
    ("META-INF/application.xml", EnterpriseApplicationArchive),
    ("META-INF/mozilla.rsa", Xpinstall),
    ("WEB-INF/web.xml", WebApplicationArchive),
    ("canvas.fig", FigmaDesign),
    ("doc.kml", KeyholeMarkupLanguageZip),
    ("document.json", Sketch43),
    ("extension.vsixmanifest", MicrosoftVisualStudioExtension),
];
pub const ZIP_DIRS: &[(&str, FileFormat)] = &[
    ("Fusion[Active]/", Autodesk123d),
    ("circuitdiagram/", CircuitDiagramDocument),
    ("dwf/", DesignWebFormatXps),
    ("FusionAssetName[Active]/", Fusion360),
    ("word/", OfficeOpenXmlDocument),
    ("visio/", OfficeOpenXmlDrawing),
    ("ppt/", OfficeOpenXmlPresentation),
    ("xl/", OfficeOpenXmlSpreadsheet),
    ("SpaceClaim/", SpaceclaimDocument),
];
pub const ZIP_MIMES: &[(&str, FileFormat)] = &[
    ("application/epub+zip", ElectronicPublication),
    ("application/vnd.adobe.indesign-idml-package", IndesignMarkupLanguage),
    ("application/vnd.oasis.opendocument.base", OpendocumentDatabase),
    ("application/vnd.oasis.opendocument.database", OpendocumentDatabase),
    ("application/vnd.oasis.opendocument.formula", OpendocumentFormula),
    ("application/vnd.oasis.opendocument.formula-template", OpendocumentFormulaTemplate),
    ("application/vnd.oasis.opendocument.graphics", OpendocumentGraphics),
    ("application/vnd.oasis.opendocument.graphics-template", OpendocumentGraphicsTemplate),
    ("application/vnd.oasis.opendocument.presentation", OpendocumentPresentation),
    ("application/vnd.oasis.opendocument.presentation-template", OpendocumentPresentationTemplate),
    ("application/vnd.oasis.opendocument.spreadsheet", OpendocumentSpreadsheet),
    ("application/vnd.oasis.opendocument.spreadsheet-template", OpendocumentSpreadsheetTemplate),
    ("application/vnd.oasis.opendocument.text", OpendocumentText),
    ("application/vnd.oasis.opendocument.text-master", OpendocumentTextMaster),
    ("application/vnd.oasis.opendocument.text-master-template", OpendocumentTextMasterTemplate),
    ("application/vnd.oasis.opendocument.text-template", OpendocumentTextTemplate),
    ("application/vnd.recordare.musicxml", MusicxmlZip),
    ("application/vnd.sun.xml.calc", SunXmlCalc),
    ("application/vnd.sun.xml.calc.template", SunXmlCalcTemplate),
    ("application/vnd.sun.xml.draw", SunXmlDraw),
    ("application/vnd.sun.xml.draw.template", SunXmlDrawTemplate),
    ("application/vnd.sun.xml.impress", SunXmlImpress),
    ("application/vnd.sun.xml.impress.template", SunXmlImpressTemplate),
    ("application/vnd.sun.xml.math", SunXmlMath),
    ("application/vnd.sun.xml.writer", SunXmlWriter),
    ("application/vnd.sun.xml.writer.global", SunXmlWriterGlobal),
    ("application/vnd.sun.xml.writer.template", SunXmlWriterTemplate),
    ("image/openraster", Openraster),
];

pub fn zip_name(n: &[u8]) -> Option<FileFormat> {
    let slash = n.contains(&b'/');
    if let Some(&(_, f)) = ZIP_NAMES.iter().find(|(s, _)| s.as_bytes() == n) {
        return Some(f);
    }
    if let Some(&(_, f)) = ZIP_DIRS.iter().find(|(s, _)| n.starts_with(s.as_bytes())) {
        return Some(f);
    }
    if n.ends_with(b".fb2") && !slash {
        return Some(FictionbookZip);
    }
    if n.starts_with(b"Payload/") && contains(n, b".app/") {
        return Some(IosAppStorePackage);
    }
    if n.starts_with(b"Documents/") && n.ends_with(b".fpage") {
        return Some(Openxps);
    }
    if n.starts_with(b"3D/") && n.ends_with(b".model") {
        return Some(ThreeDimensionalManufacturingFormat);
    }
    if (n.ends_with(b".usd") || n.ends_with(b".usda") || n.ends_with(b".usdc")) && !slash {
        return Some(UniversalSceneDescriptionZip);
    }
    None
}

fn zip(d: &Doc) -> R<FileFormat> {
    if d.len < 22 {
        return Err(Eof);
    }
    // The end record is the last occurrence of its signature in the last 22 + 65535 bytes.
    let start = d.len.saturating_sub(22 + 65_535);
    let tail = d.get(start, (d.len - start) as usize)?;
    let eocd = start + tail.windows(4).rposition(|w| w == b"PK\x05\x06").ok_or(Eof)? as u64;
    let zip64 = eocd >= 20 && *d.get(eocd - 20, 4)? == *b"PK\x06\x07";
    let (n, dir) = if zip64 {
        let e = le(d, eocd - 12, 8)?.saturating_add(32);
        (le(d, e, 8)?, le(d, e.saturating_add(16), 8)?)
    } else {
        (le(d, eocd + 10, 2)?, le(d, eocd + 16, 4)?)
    };
    let mut best = Zip;
    let mut at = dir.min(d.len);
    for _ in 0..n.min(1024) {
        let (packed, unpacked) = (le(d, at + 20, 4)?, le(d, at + 24, 4)?);
        let (nl, xl, cl) = (le(d, at + 28, 2)?, le(d, at + 30, 2)?, le(d, at + 32, 2)?);
        let off = le(d, at + 42, 4)?;
        let name = d.get(at + 46, nl as usize)?;
        if *name == *b"META-INF/MANIFEST.MF" {
            best = JavaArchive;
        } else if *name == *b"mimetype" && packed == unpacked {
            let data = off + 30 + le(d, off + 26, 2)? + le(d, off + 28, 2)?;
            let data = d.get(data, packed.min(256) as usize)?;
            let s = String::from_utf8_lossy(&data);
            return Ok(ZIP_MIMES.iter().find(|(m, _)| *m == s.trim()).map_or(Zip, |m| m.1));
        } else if let Some(f) = zip_name(&name) {
            return Ok(f);
        }
        at += 46 + nl + xl + cl;
    }
    Ok(best)
}
