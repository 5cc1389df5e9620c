//! Judges of contents: the real code against the reference model.
use crate::doc::{Doc, EnvReader, Plan};
use crate::space::{self, ds, DS};
use crate::model::{self, ALL};
use crate::run::{Case, Judge, Space, Verdict, W};
use crate::subject;
use ff::FileFormat;
use std::sync::Arc;

pub fn space(d: DS, judge: Arc<Judge>) -> Space {
    Space { name: d.name, body: d.body, judge }
}
pub fn spaces(v: Vec<DS>, j: Arc<Judge>) -> Vec<Space> {
    v.into_iter().map(|d| space(d, j.clone())).collect()
}

pub const OPS: usize = 200_000;

/// The answer of the build with all readers.
pub fn answer(d: &Doc) -> Result<u16, String> {
    if d.tiny() {
        return Ok(subject::full::bytes(&d.bytes()));
    }
    let plan = Plan::default();
    let mut r = EnvReader::new(d, &plan);
    r.op_limit = OPS;
    subject::full::env(&mut r).map_err(|e| format!("unexpected error {e}"))
}

pub fn expect(got: u16, want: FileFormat) -> Verdict {
    if got == want as u16 {
        Ok(got as u64)
    } else {
        Err(format!("detected {}, must be {want:?}", subject::name(got)))
    }
}

/// The answer must be the one of the model.
pub fn model_judge() -> Arc<Judge> {
    Arc::new(|_: &W, c: &Case| expect(answer(&c.doc)?, model::detect(&c.doc, ALL)))
}

/// Generic code takes the overflow checks of the crate that instantiates it: the two builds must differ.
pub fn overflow_canary() {
    let hook = std::panic::take_hook();
    std::panic::set_hook(Box::new(|_| {}));
    let here = std::panic::catch_unwind(|| std::hint::black_box(255u8) + 1).is_err();
    let there = ffmc_wrap::checked();
    std::panic::set_hook(hook);
    if !here || there {
        eprintln!("the builds do not have the overflow checks they must have: here {here}, there {there}");
        std::process::exit(2);
    }
}

/// No panic, and the same answer with and without overflow checks.
pub fn total_judge() -> Arc<Judge> {
    Arc::new(|_: &W, c: &Case| {
        let (a, b) = if c.doc.tiny() {
            let x = c.doc.bytes();
            (subject::full::bytes(&x), subject::wrap::bytes(&x))
        } else {
            let plan = Plan::default();
            let mut r = EnvReader::new(&c.doc, &plan);
            r.op_limit = OPS;
            let mut q = EnvReader::new(&c.doc, &plan);
            q.op_limit = OPS;
            (subject::full::env(&mut r).map_err(|e| e.to_string())?, subject::wrap::env(&mut q).map_err(|e| e.to_string())?)
        };
        if a != b {
            return Err(format!("detected {} with overflow checks and {} without", subject::name(a), subject::name(b)));
        }
        Ok(a as u64)
    })
}

/// The fixtures of a family (0: all).
pub fn fixture_space(bit: u16) -> DS {
    let f: Vec<Vec<u8>> = space::fixtures().into_iter().map(|x| x.1)
        .filter(|b| bit == 0 || family_of(b) == bit).collect();
    ds(bit, &format!("{}-fixtures", if bit == 0 { "all" } else { space::feature_name(bit) }), move |ch| {
        if f.is_empty() {
            return None;
        }
        Some(f[ch.choose(f.len())].clone().into())
    })
}

pub fn family_of(b: &[u8]) -> u16 {
    if b.is_empty() {
        return 0;
    }
    match model::signature(&b[..b.len().min(model::HEAD)]) {
        Some(f) => model::feature_of(f),
        None => model::TXT,
    }
}

/// Contents of C25: every prefix of representatives and fixtures.
pub fn cut_spaces(t: bool) -> Vec<DS> {
    let mut files: Vec<Vec<u8>> = vec![];
    for (_, bit) in model::FEATURES {
        files.extend(space::variants(bit));
    }
    let n = files.len();
    files.extend(space::fixtures().into_iter().map(|x| x.1).filter(|b| {
        let f = family_of(b);
        f != 0 && f != model::TXT
    }));
    let files = Arc::new(files);
    let f2 = files.clone();
    let edge: Arc<Vec<Vec<u8>>> = Arc::new(crate::env::edge_docs());
    let layered: Vec<(Vec<u8>, Vec<u64>)> = crate::env::layered_docs().into_iter().map(|x| {
        let at = crate::env::sector_positions(&x);
        (x, at)
    }).collect();
    vec![
        ds(0, "cut-long-files", move |ch| {
            // Around the ends of the signature region, the buffers and the windows, and at both ends.
            let x = &edge[ch.choose(edge.len())];
            let w = if t { 600 } else { 90 };
            let base = ch.pick(&[0usize, 512, 4096, 8192, 32_768, 36_870, 40_960, 65_536, 65_557, usize::MAX]).min(x.len());
            let k = base as i64 + ch.choose(2 * w) as i64 - w as i64;
            if k < 0 || k > x.len() as i64 {
                return None;
            }
            Some(x[..k as usize].to_vec().into())
        }),
        ds(0, "cut-layered", move |ch| {
            // Contents with several structures that count, with gaps, cut at every byte that is not filler.
            let (x, at) = &layered[ch.choose(layered.len())];
            Some(x[..at[ch.choose(at.len())] as usize].to_vec().into())
        }),
        ds(0, "cut-representatives", move |ch| {
            let x = &files[ch.choose(n)];
            Some(x[..ch.choose(x.len() + 1)].to_vec().into())
        }),
        ds(0, "cut-fixtures", move |ch| {
            let x = &f2[n + ch.choose(f2.len() - n)];
            let l = x.len();
            let edge = if t { 65_536 } else { 1500 };
            let k = if l <= 2 * edge {
                ch.choose(l + 1)
            } else {
                match ch.choose(3) {
                    0 => ch.choose(edge),
                    1 => l - ch.choose(edge),
                    _ => {
                        let step = if t { 16 } else { 509 };
                        edge + step * ch.choose((l - 2 * edge) / step)
                    }
                }
            };
            Some(x[..k].to_vec().into())
        }),
    ]
}

/// What remains of a cut file is of its family or generic, exactly as the model says.
pub fn cut_judge() -> Arc<Judge> {
    Arc::new(|_: &W, c: &Case| {
        let b = c.doc.bytes();
        let got = subject::full::bytes(&b);
        let bit = family_of(&b);
        if bit != 0 && bit != model::TXT {
            let (base, subs) = model::family(bit);
            let ok = got == base as u16 || subs.iter().any(|s| *s as u16 == got)
                || got == FileFormat::ArbitraryBinaryData as u16 || got == FileFormat::PlainText as u16;
            if !ok {
                return Err(format!("cut file of the family of {base:?} detected as {}", subject::name(got)));
            }
        }
        expect(got, model::detect(&c.doc, ALL))
    })
}

/// C08: empty, unrecognised and unreadable contents.
pub fn fallback_spaces(t: bool) -> Vec<DS> {
    let mut v = vec![
        ds(0, "all-lengths", |ch| {
            // Uniform contents of every length up to beyond the head buffer.
            let n = ch.choose(37_000);
            Some(vec![ch.pick(&[0u8, b'a', 0xFF]); n].into())
        }),
        ds(0, "tiny-contents", move |ch| {
            let n = ch.choose(if t { 4 } else { 3 });
            Some((0..n).map(|_| ch.choose(256) as u8).collect::<Vec<u8>>().into())
        }),
        ds(0, "head-only", |ch| {
            // Signatures of the refined formats, followed by nothing, text, or binary data of any small length.
            let alts: Vec<(usize, &[u8])> = crate::sigtable::SIGS.iter().filter(|s| model::feature_of(s.0) != 0).flat_map(|s| s.2.iter()).map(|a| a[0]).collect();
            let (o, s) = alts[ch.choose(alts.len())];
            let pre = ch.pick(&[b'a', 0u8]);
            let n = ch.choose(700);
            let fill = ch.pick(&[b'x', b'\n', 0u8, 1, 0xFF, 0x81]);
            let mut x = vec![pre; o];
            x.extend_from_slice(s);
            x.resize(x.len() + n, fill);
            Some(x.into())
        }),
        ds(0, "unrecognised-text-and-binary", |ch| {
            let a: &[&[u8]] = &[b"hello", b"\n", b"\0", "\u{e9}".as_bytes(), b"\xFF", b" ", b"\x1B[0m", b"\r\n", b"12,34"];
            let n = ch.range(1, 4);
            Some((0..n).flat_map(|_| ch.pick(a).to_vec()).collect::<Vec<u8>>().into())
        }),
    ];
    for (_, bit) in model::FEATURES {
        let r = space::reps(bit);
        v.push(ds(bit, &format!("{}-overwritten", space::feature_name(bit)), move |ch| {
            // Everything from any place on, overwritten by text or by binary data.
            let x = &r[ch.choose(r.len())];
            let k = ch.choose(x.len());
            let b = ch.pick(&[b't', 0u8, 0xFF, b'\n']);
            let mut y = x[..k].to_vec();
            y.resize(x.len(), b);
            Some(y.into())
        }));
    }
    v
}

pub fn fallback_judge() -> Arc<Judge> {
    Arc::new(|_: &W, c: &Case| {
        let b = c.doc.bytes();
        let got = subject::full::bytes(&b);
        if (got == FileFormat::Empty as u16) != b.is_empty() {
            return Err(format!("{} bytes detected as {}", b.len(), subject::name(got)));
        }
        // Without features: the default for anything without a signature.
        let plain = subject::plain::bytes(&b);
        expect(plain, model::detect(&c.doc, 0)).map_err(|e| format!("without features: {e}"))?;
        expect(got, model::detect(&c.doc, ALL))
    })
}
