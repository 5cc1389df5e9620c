//! C23: the deciding structure at any offset, behind one large skip or several.
use crate::doc::{Doc, EnvReader, Plan};
use crate::explore::Ch;
use crate::fmt::*;
use crate::judge::{expect, OPS};
use crate::model;
use crate::run::{Case, Judge, Space, W};
use crate::subject;
use ff::FileFormat::{self, *};
use std::io::BufReader;
use std::sync::Arc;

fn space_of(name: &str, judge: &Arc<Judge>, body: impl Fn(&mut Ch) -> Option<(Doc, FileFormat)> + Sync + Send + 'static) -> Space {
    Space {
        name: name.into(),
        body: Arc::new(move |ch| body(ch).map(|(doc, f)| Case { doc, plan: Plan::default(), aux: vec![f as u64] })),
        judge: judge.clone(),
    }
}

/// Known by construction, by the model, and by the real code.
fn judge() -> Arc<Judge> {
    Arc::new(|_: &W, c: &Case| {
        let mut r = EnvReader::new(&c.doc, &c.plan);
        r.op_limit = OPS;
        let got = subject::full::env(&mut r).map_err(|e| format!("unexpected error {e}"))?;
        let mut r2 = EnvReader::new(&c.doc, &c.plan);
        r2.op_limit = OPS;
        let again = subject::wrap::env(&mut r2).map_err(|e| format!("unexpected error {e}"))?;
        let m = model::detect(&c.doc, model::ALL) as u16;
        if m as u64 != c.aux[0] {
            return Err(format!("the model says {}, the construction {}", subject::name(m), subject::name(c.aux[0] as u16)));
        }
        if again != got {
            return Err(format!("detected {} with overflow checks, {} without", subject::name(got), subject::name(again)));
        }
        if got != m {
            return Err(format!("detected {}, must be {}", subject::name(got), subject::name(m)));
        }
        // The same content in memory, if it can be had.
        let slice = c.doc.with_slice(|b| (subject::full::bytes(b), subject::wrap::bytes(b)));
        if let Some(s) = slice
            && s != (got, got)
        {
            return Err(format!("detected {} from a reader, {} and {} (without overflow checks) from the bytes", subject::name(got), subject::name(s.0), subject::name(s.1)));
        }
        // Offsets are the interesting dimension: outcome per magnitude.
        Ok(got as u64 | (64 - c.doc.len.leading_zeros() as u64) << 16)
    })
}

/// Skipped sizes up to 2^max, around every power of two.
fn skip(ch: &mut Ch, max: u32, t: bool) -> u64 {
    let new = crate::words::fresh_sizes();
    let p = ch.range(3, max as usize + !new.is_empty() as usize) as u32;
    if p > max {
        // Or one of the numbers that the sources use since recently.
        return ch.pick(&new).min(1 << max);
    }
    let near = if t { 40 } else { 12 };
    let k = ch.choose(2 * near + 1) as i64;
    // 0, 1, -1, 2, -2 ...
    let d = if k % 2 == 1 { k / 2 + 1 } else { -(k / 2) };
    (1u64 << p).saturating_add_signed(d)
}

/// How a total is divided into up to three parts, each at least `min`.
fn parts(ch: &mut Ch, total: u64, min: u64) -> Vec<u64> {
    let v = match ch.choose(4) {
        0 => vec![total],
        1 => vec![min + 1, total.saturating_sub(min + 1)],
        2 => vec![total / 2, total - total / 2],
        _ => vec![total.saturating_sub(min + 5), min, 5.max(min)],
    };
    v.into_iter().filter(|&x| x >= min).collect()
}

pub fn spaces(t: bool) -> Vec<Space> {
    let j = judge();
    let mut v = vec![];
    v.push(space_of("asf-object-offsets", &j, move |ch| {
        let n = skip(ch, 62, t);
        let ps = parts(ch, n, 24);
        let (last, f) = match ch.choose(3) {
            0 => (asf_stream(&model::G_VIDEO), WindowsMediaVideo),
            1 => (asf_stream(&model::G_AUDIO), WindowsMediaAudio),
            _ => (asf_ext(1, &[asf_desc(model::DVR, b"x")]), MicrosoftDigitalVideoRecording),
        };
        // The skipped objects are unknown ones, streams of another type, or extended content.
        let kind = ch.choose(3);
        let mut d = Doc::sparse(0, 0).put(0, asf_head(ps.len() as u64 + 1));
        let mut o = 30u64;
        for p in &ps {
            let x = match kind {
                0 => asf_obj(&model::guid(G_OTHER), Some(*p), &[]),
                1 if *p >= 40 => asf_obj(&model::G_STREAM, Some(*p), &[0x22; 16]),
                2 if *p >= 26 => asf_obj(&model::G_EXT, Some(*p), &[0, 0]),
                _ => return None,
            };
            d = d.put(o, x);
            o += p;
        }
        let l = o + last.len() as u64;
        Some((d.put(o, last).put_len(l), f))
    }));
    v.push(space_of("cfb-directory-offsets", &j, move |ch| {
        let ver = ch.pick(&[3u64, 4]);
        let sector = skip(ch, 32, t).min(0xFFFF_FFFF);
        let s = if ver == 3 { 512 } else { 4096 };
        let at = s * (1 + sector);
        let (id, second, third, f): (_, &[u8], &[u8], _) = match ch.choose(4) {
            0 => {
                let (g, f) = model::CLSIDS[ch.pick(&[0, 7, 24])];
                (model::guid(g), b"", b"", f)
            }
            1 => ([0; 16], model::WPS_NAME, b"", MicrosoftWorksWordProcessor),
            2 => ([0; 16], b"", model::XLR_NAME, MicrosoftWorks6Spreadsheet),
            _ => ([0; 16], b"", b"", CompoundFileBinary),
        };
        let z = [0; 16];
        let dir = Buf::new().b(cfb_entry(ROOT, &id)).b(cfb_entry(second, &z)).b(cfb_entry(third, &z)).b(cfb_entry(b"", &z)).0;
        Some((Doc::sparse(at + 512, 0).put(0, cfb_head(ver, sector)).put(at, dir), f))
    }));
    v.push(space_of("ebml-element-offsets", &j, move |ch| {
        let n = skip(ch, 55, t);
        let ps = parts(ch, n, 10);
        // Skipped elements: void, attachments, unknown ids of every width; also inside of tracks.
        let id = ch.pick(&[E_VOID, 0x1941A469, 0x55EE, 0x2AD7B1]);
        let inside = ch.flag();
        let (codec, f) = ch.pick(&[(&b"V_VP9"[..], MatroskaVideo), (b"A_OPUS", MatroskaAudio), (b"S_TEXT", MatroskaSubtitles)]);
        let mut d = Doc::sparse(0, 0);
        let mut o = 0u64;
        let add = |d: Doc, o: &mut u64, x: Vec<u8>| {
            let at = *o;
            *o += x.len() as u64;
            d.put(at, x)
        };
        d = add(d, &mut o, ebml_head(b"matroska"));
        d = add(d, &mut o, Buf(el_id(E_SEGMENT)).b(vsize((1 << 56) - 2, 8)).0);
        let tracks = el(E_TRACKS, 0, &track(codec));
        if inside {
            let total: u64 = ps.iter().map(|p| p + 13).sum::<u64>() + tracks.len() as u64;
            if total >= (1 << 56) - 1 {
                return None;
            }
            d = add(d, &mut o, Buf(el_id(E_TRACKS)).b(vsize(total, 8)).0);
        }
        for p in &ps {
            let head = Buf(el_id(id)).b(vsize(*p, 8)).0;
            d = add(d, &mut o, head);
            o += p;
        }
        d = add(d, &mut o, if inside { track(codec) } else { tracks });
        Some((d.put_len(o), f))
    }));
    v.push(space_of("exe-header-offsets", &j, move |ch| {
        let n = skip(ch, 32, t).clamp(64, 0xFFFF_FFFF);
        let (sig, chars, f) = ch.pick(&[
            (b"PE\0\0", 0u64, PortableExecutable), (b"PE\0\0", 0x2000, DynamicLinkLibrary), (b"LX\0\0", 0, LinearExecutable), (b"NE\0\0", 0, NewExecutable), (b"XE\0\0", 0, MsDosExecutable),
        ]);
        let x = Buf::new().b(sig).fill(18, 0x43).b(le2(chars)).fill(8, 0).0;
        let l = n + x.len() as u64;
        Some((Doc::sparse(l, 0).put(0, exe_head(b"MZ", n)).put(n, x), f))
    }));
    v.push(space_of("id3-tag-ends", &j, move |ch| {
        // Chains of up to 256 tags of up to 256 MiB each.
        let n = skip(ch, 28, t).min((1 << 28) - 1);
        let count = ch.pick(&[1u64, 2, 3, 16, 17, 64, 255]);
        let flags = ch.pick(&[0u8, 0x10]);
        let (sig, f) = ch.pick(&[(&b"fLaC"[..], FreeLosslessAudioCodec), (&[0xFF, 0xFB], Mpeg12AudioLayer3), (b"RIFF", Id3v2)]);
        let one = 10 + n + if flags != 0 { 10 } else { 0 };
        let mut d = Doc::sparse(0, 0);
        for i in 0..count {
            d = d.put(i * one, id3_head(4, flags, n));
        }
        let o = count * one;
        Some((d.put(o, sig).put_len(o + 100), f))
    }));
    v.push(space_of("mp4-box-offsets", &j, move |ch| {
        let n = skip(ch, 62, t);
        let ps = parts(ch, n, 16);
        let (kind, f) = ch.pick(&[(b"vide", Mpeg4Part14Video), (b"soun", Mpeg4Part14Audio), (b"sbtl", Mpeg4Part14Subtitles)]);
        let name = ch.pick(&[b"mdat", b"free", b"skip", b"uuid"]);
        let wide = ch.flag();
        let trak = mp4_box(b"trak", &mp4_box(b"mdia", &hdlr(kind)));
        let mut d = Doc::sparse(0, 0).put(0, ftyp(b"mp42"));
        let mut o = ftyp(b"mp42").len() as u64;
        let inside = ch.flag();
        if inside {
            // All of it inside of the movie box.
            let total = 16 + ps.iter().sum::<u64>() + trak.len() as u64;
            d = d.put(o, Buf::new().b(be4(1)).b(b"moov").b(be8(total)).0);
            o += 16;
        }
        for &p in &ps {
            let big = wide || p > 0xFFFF_FFFF;
            d = d.put(o, if big { Buf::new().b(be4(1)).b(name).b(be8(p)).0 } else { Buf::new().b(be4(p)).b(name).0 });
            o += p;
        }
        let last = if inside { trak } else { mp4_box(b"moov", &trak) };
        let l = o + last.len() as u64;
        Some((d.put(o, last).put_len(l), f))
    }));
    v.push(space_of("rm-chunk-offsets", &j, move |ch| {
        let n = skip(ch, 32, t).clamp(10, 0xFFFF_FFFF);
        let count = ch.pick(&[1u64, 2, 3, 10, 62]);
        let (mime, f) = ch.pick(&[(&b"video/x-pn-realvideo"[..], Realvideo), (b"audio/x-pn-realaudio", Realaudio)]);
        let mut d = Doc::sparse(0, 0).put(0, rm_head(count + 2));
        for i in 0..count {
            d = d.put(18 + i * n, Buf::new().b(b"DATA").b(be4(n)).0);
        }
        let o = 18 + count * n;
        let x = mdpr(b"Stream", mime);
        let l = o + x.len() as u64;
        Some((d.put(o, x).put_len(l), f))
    }));
    v.push(space_of("zip-directory-offsets", &j, move |ch| {
        // The directory, and the media type entry, at any offset.
        let n = skip(ch, 62, t).max(38 + 64);
        let zip64 = n > 0xFFFF_FFFE || ch.flag();
        let mime = ch.flag();
        let far_local = mime && n < 0xFFFF_FFFF && ch.flag();
        let data = b"application/epub+zip";
        let local = Buf::new().b(b"PK\x03\x04").z(14).b(le4(20)).b(le4(20)).b(le2(8)).b(le2(0)).b(b"mimetype").b(data).0;
        let (at, dir) = if far_local { (n, n + local.len() as u64) } else { (0, n) };
        let zip64 = zip64 || dir > 0xFFFF_FFFE;
        let name: &[u8] = if mime { b"mimetype" } else { b"word/document.xml" };
        let ent = Buf::new().b(b"PK\x01\x02").z(16).b(le4(20)).b(le4(20)).b(le2(name.len() as u64)).z(12).b(le4(at)).b(name).0;
        let size = ent.len() as u64;
        // Bytes between the directory and the end record.
        let gap = ch.pick(&[0u64, 1, 70_000]);
        let e = dir + size + gap;
        let end = if zip64 {
            Buf::new().b(b"PK\x06\x06").b(le8(44)).z(12).b(le8(1)).b(le8(1)).b(le8(size)).b(le8(dir))
                .b(b"PK\x06\x07").z(4).b(le8(e)).b(le4(1))
                .b(b"PK\x05\x06").z(4).b([0xFF; 12]).z(2).0
        } else {
            Buf::new().b(b"PK\x05\x06").z(4).b(le2(1)).b(le2(1)).b(le4(size)).b(le4(dir)).z(2).0
        };
        let len = e + end.len() as u64;
        let mut d = Doc::sparse(len, 0).put(0, b"PK\x03\x04").put(dir, ent).put(e, end);
        if mime {
            d = d.put(at, local);
        }
        Some((d, if mime { ElectronicPublication } else { OfficeOpenXmlDocument }))
    }));
    // Text and signatures: what follows the first 64 KiB never matters.
    v.push(space_of("long-tails", &j, move |ch| {
        let len = skip(ch, 62, t).max(70_000);
        let fill = ch.pick(&[0u8, b'a', 0xFF]);
        let (head, f): (&[u8], _) = match ch.choose(4) {
            0 => (b"\x89PNG\r\n\x1A\n", PortableNetworkGraphics),
            1 => (b"line\n", PlainText),
            2 => (b"SQLite format 3\0", Sqlite3),
            _ => (b"<?xml version=\"1.0\"?><svg ", ScalableVectorGraphics),
        };
        let mut x = head.to_vec();
        if f == PlainText {
            x = b"line\n".repeat(16);
        }
        Some((Doc::sparse(len, fill).put(0, x), f))
    }));
    let max = if t { 43 } else { 40 };
    let file_judge: Arc<Judge> = Arc::new(|w: &W, c: &Case| {
        // A real, sparse file.
        use std::os::unix::fs::FileExt;
        std::fs::create_dir_all(&w.ctx.scratch).unwrap();
        let p = w.ctx.scratch.join(format!("sparse-{}", w.id));
        let f = std::fs::File::create(&p).unwrap();
        if f.set_len(c.doc.len).is_err() {
            let _ = std::fs::remove_file(&p);
            return Ok(0);
        }
        for s in &c.doc.segs {
            if f.write_all_at(&s.data, s.off).is_err() {
                let _ = std::fs::remove_file(&p);
                return Ok(0);
            }
        }
        drop(f);
        let got = subject::full::file(&p).map_err(|e| e.to_string());
        let buffered = subject::full::reader(BufReader::with_capacity(700, std::fs::File::open(&p).unwrap())).map_err(|e| e.to_string());
        let _ = std::fs::remove_file(&p);
        let (got, buffered) = (got?, buffered?);
        if got != buffered {
            return Err(format!("{} by path, {} through a buffered reader", subject::name(got), subject::name(buffered)));
        }
        expect(got, model::detect(&c.doc, model::ALL))?;
        Ok(got as u64)
    });
    v.push(space_of("real-sparse-files", &file_judge, move |ch| {
        let n = skip(ch, max, false);
        Some(match ch.choose(6) {
            0 => {
                let x = asf_stream(&model::G_VIDEO);
                let n = n.max(24);
                (Doc::sparse(30 + n + x.len() as u64, 0).put(0, asf_head(2)).put(30, asf_obj(&model::guid(G_OTHER), Some(n), &[])).put(30 + n, x), WindowsMediaVideo)
            }
            1 => {
                let s = (n / 512).clamp(1, 0xFFFF_FFFF);
                let at = 512 * (1 + s);
                (Doc::sparse(at + 512, 0).put(0, cfb_head(3, s)).put(at, cfb_entry(ROOT, &model::guid(model::CLSIDS[7].0))), model::CLSIDS[7].1)
            }
            2 => {
                let h = Buf(ebml_head(b"matroska")).b(el_id(E_SEGMENT)).b(vsize((1 << 56) - 2, 8)).b(el_id(E_VOID)).b(vsize(n, 8)).0;
                let o = h.len() as u64 + n;
                let x = el(E_TRACKS, 0, &track(b"A_X"));
                (Doc::sparse(o + x.len() as u64, 0).put(0, h).put(o, x), MatroskaAudio)
            }
            3 => {
                let n = n.clamp(64, 0xFFFF_FFFF);
                (Doc::sparse(n + 40, 0).put(0, exe_head(b"MZ", n)).put(n, b"PE\0\0"), PortableExecutable)
            }
            4 => {
                let n = n.max(16);
                let x = mp4_box(b"moov", &mp4_box(b"trak", &mp4_box(b"mdia", &hdlr(b"vide"))));
                let h = Buf(ftyp(b"mp42")).b(be4(1)).b(b"mdat").b(be8(n)).0;
                let o = ftyp(b"mp42").len() as u64 + n;
                (Doc::sparse(o + x.len() as u64, 0).put(0, h).put(o, x), Mpeg4Part14Video)
            }
            _ => {
                let n = n.max(4);
                let name = b"word/document.xml";
                let ent = Buf::new().b(b"PK\x01\x02").z(24).b(le2(name.len() as u64)).z(16).b(name).0;
                let e = n + ent.len() as u64;
                let end = Buf::new().b(b"PK\x06\x06").b(le8(44)).z(12).b(le8(1)).b(le8(1)).b(le8(ent.len() as u64)).b(le8(n))
                    .b(b"PK\x06\x07").z(4).b(le8(e)).b(le4(1)).b(b"PK\x05\x06").z(4).b([0xFF; 12]).z(2).0;
                (Doc::sparse(e + end.len() as u64, 0).put(0, b"PK\x03\x04").put(n, ent).put(e, end), OfficeOpenXmlDocument)
            }
        })
    }));
    v
}
