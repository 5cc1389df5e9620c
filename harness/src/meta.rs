//! C22: the metadata of every format in every build.
use crate::catalog::{self, CATALOG};
use crate::doc::Doc;
use crate::run::{Case, Space, W};
use std::collections::HashMap;
use std::sync::{Arc, LazyLock};

static NAMES: LazyLock<HashMap<&'static str, u16>> = LazyLock::new(|| {
    let mut m = HashMap::new();
    for e in CATALOG {
        *m.entry(e.fmt.name()).or_default() += 1;
    }
    m
});

/// RFC 6838: type "/" subtype, restricted names.
fn media_ok(m: &str) -> bool {
    let name = |s: &str| {
        (1..=127).contains(&s.len()) && s.as_bytes()[0].is_ascii_alphanumeric()
            && s.bytes().all(|b| b.is_ascii_alphanumeric() || b"!#$&-^_.+".contains(&b))
    };
    let types = ["application", "audio", "chemical", "font", "image", "message", "model", "multipart", "text", "video", "x-conference", "inode"];
    m.split_once('/').is_some_and(|(t, s)| types.contains(&t) && name(s))
}

macro_rules! check {
    ($e:expr, $f:expr, $k:path, $what:expr) => {{
        let (e, f) = (&$e, &$f);
        let d = format!("{f}");
        let bad = |w: &str, got: &dyn std::fmt::Debug, want: &dyn std::fmt::Debug| Err(format!("{} ({}): {w} is {got:?}, must be {want:?}", e.id, $what));
        if f.name() != e.name { return bad("name", &f.name(), &e.name); }
        if f.short_name() != e.short { return bad("short name", &f.short_name(), &e.short); }
        if f.media_type() != e.media { return bad("media type", &f.media_type(), &e.media); }
        if f.extension() != e.ext { return bad("extension", &f.extension(), &e.ext); }
        if f.kind() != e.kind { return bad("kind", &format!("{:?}", f.kind()), &e.kind_id); }
        if format!("{:?}", f.kind()) != e.kind_id { return bad("kind", &f.kind(), &e.kind_id); }
        if d != f.name() { return bad("display", &d, &f.name()); }
        if f.to_string() != e.name { return bad("string", &f.to_string(), &e.name); }
        let alt = format!("{f:#}");
        if alt != e.name { return bad("alternate display", &alt, &e.name); }
        // Whether width and alignment are honoured is open; the name stays the name.
        for p in [format!("{f:90}"), format!("{f:>90}"), format!("{f:^90}"), format!("{f:<3}"), format!("{f:#3}"), format!("{f:+}"), format!("{f:01}")] {
            if p.trim_matches(' ') != e.name { return bad("padded display", &p, &e.name); }
        }
        // Copies, however made, are the same format.
        let copies = [*f, (*f).clone()];
        if copies.iter().any(|c| c != f || c.name() != e.name || *c as u16 != *f as u16) { return bad("copy", &"another", &"the same"); }
    }};
}

pub fn space() -> Vec<Space> {
    vec![Space {
        name: "metadata".into(),
        body: Arc::new(|ch| {
            let i = ch.choose(CATALOG.len());
            let build = ch.choose(3);
            Some(Case { aux: vec![i as u64, build as u64], ..Case::from(Doc::from(vec![])) })
        }),
        judge: Arc::new(|_: &W, c: &Case| {
            let i = c.aux[0] as usize;
            match c.aux[1] {
                0 => {
                    let e = &CATALOG[i];
                    check!(*e, e.fmt, ff::Kind, "all features");
                    if e.fmt.name().trim().is_empty() || NAMES[e.fmt.name()] != 1 {
                        return Err(format!("{}: the name {:?} is empty or not unique", e.id, e.fmt.name()));
                    }
                    if e.fmt.short_name().is_some_and(|s| s.trim().is_empty()) {
                        return Err(format!("{}: empty short name", e.id));
                    }
                    let x = e.fmt.extension();
                    if x.is_empty() || x.starts_with('.') || x.contains(['/', ' ', '\\']) {
                        return Err(format!("{}: bad extension {x:?}", e.id));
                    }
                    if !media_ok(e.fmt.media_type()) {
                        return Err(format!("{}: bad media type {:?}", e.id, e.fmt.media_type()));
                    }
                    if ff::FileFormat::default() != ff::FileFormat::ArbitraryBinaryData {
                        return Err("the default is not arbitrary binary data".into());
                    }
                    if e.fmt != e.fmt.clone() || (e.fmt as u16 != i_discriminant(i)) {
                        return Err(format!("{}: not equal to itself", e.id));
                    }
                }
                1 => {
                    let e = &catalog::plain::CATALOG[i];
                    check!(*e, e.fmt, ffp::Kind, "no features");
                }
                _ => {
                    let e = &catalog::wrap::CATALOG[i];
                    check!(*e, e.fmt, ffmc_wrap::Kind, "without overflow checks");
                }
            }
            Ok(i as u64)
        }),
    }]
}

fn i_discriminant(i: usize) -> u16 {
    CATALOG[i].fmt as u16
}
