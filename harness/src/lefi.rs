//! C24: the example program, over all argument lists up to length 3.
use crate::doc::Doc;
use crate::catalog::CATALOG;
use crate::fmt;
use crate::model;
use crate::run::{Case, Space, W};
use crate::sigs::ALTS;
use std::fs;
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::{Arc, OnceLock};

/// Argument, and the result for it (None: cannot be read).
fn alphabet() -> Vec<(&'static str, Option<&'static str>)> {
    vec![
        ("a.png", Some("Portable Network Graphics (PNG)")),
        ("dir", Some("Directory")),
        ("link", Some("Symbolic Link")),
        ("missing", None),
        ("empty", Some("Empty")),
        ("\u{e9}t\u{e9} \u{1f600}\u{4e16}.bin", Some("Arbitrary Binary Data (BIN)")),
        ("dir/inner.docx", Some("Office Open XML Document (DOCX)")),
        ("broken", Some("Symbolic Link")),
        ("dirlink", Some("Symbolic Link")),
        ("a-rather-long-name-without-extension", Some("Plain Text (TXT)")),
        ("./noshort", Some("WebM")),
        ("", None),
        ("dir/", Some("Directory")),
        ("dirlink/inner.docx", Some("Office Open XML Document (DOCX)")),
    ]
}

fn prepare(dir: &Path) {
    fs::create_dir_all(dir.join("dir")).unwrap();
    let png = ALTS.iter().find(|a| a.0 == ff::FileFormat::PortableNetworkGraphics).unwrap().1[0].1;
    fs::write(dir.join("a.png"), png).unwrap();
    fs::write(dir.join("empty"), b"").unwrap();
    fs::write(dir.join("\u{e9}t\u{e9} \u{1f600}\u{4e16}.bin"), b"\0\x01\x02").unwrap();
    fs::write(dir.join("dir/inner.docx"), fmt::zips(&[fmt::ent("word/document.xml")])).unwrap();
    fs::write(dir.join("a-rather-long-name-without-extension"), b"text\n").unwrap();
    fs::write(dir.join("noshort"), fmt::ebml(b"webm", &[])).unwrap();
    for (l, t) in [("link", "a.png"), ("broken", "nowhere"), ("dirlink", "dir")] {
        std::os::unix::fs::symlink(t, dir.join(l)).unwrap();
    }
}

fn program() -> PathBuf {
    std::env::current_exe().unwrap().with_file_name("lefi")
}

pub fn spaces(t: bool) -> Vec<Space> {
    let n = alphabet().len();
    let depth = if t { 4 } else { 3 };
    static READY: OnceLock<()> = OnceLock::new();
    let files: Arc<Vec<PathBuf>> = Arc::new(crate::space::fixtures().into_iter().map(|x| Path::new("/repo/fixtures").join(x.0)).collect());
    let f2 = files.clone();
    vec![Space {
        name: "fixtures".into(),
        body: Arc::new(move |ch| {
            // Alone, with its neighbour, and runs of many.
            let i = ch.choose(files.len());
            let k = ch.pick(&[1, 2, 40, 1000]);
            if k > 2 && i % 20 != 0 || k > 40 && i != 0 {
                return None;
            }
            Some(Case { aux: vec![i as u64, k], ..Case::from(Doc::from(vec![])) })
        }),
        judge: Arc::new(move |_: &W, c: &Case| {
            let (i, k) = (c.aux[0] as usize, c.aux[1] as usize);
            let args: Vec<&PathBuf> = f2.iter().skip(i).take(k).collect();
            let out = Command::new(program()).args(&args).output().map_err(|e| format!("cannot run lefi: {e}"))?;
            let width = args.iter().map(|a| a.to_str().unwrap().chars().count()).max().unwrap();
            let mut want = String::new();
            for a in &args {
                let b = fs::read(a).unwrap();
                let f = model::detect(&b.into(), model::ALL);
                let e = CATALOG.iter().find(|e| e.fmt == f).unwrap();
                let a = a.to_str().unwrap();
                want += &format!("{a}:{} {}", " ".repeat(width - a.chars().count()), e.name);
                want += &e.short.map_or("\n".into(), |s| format!(" ({s})\n"));
            }
            let got = String::from_utf8_lossy(&out.stdout);
            if got != want {
                let bad = got.lines().zip(want.lines()).find(|(g, w)| g != w);
                return Err(format!("lefi on {k} fixtures from {:?}: {bad:?}", args[0]));
            }
            if !out.status.success() {
                return Err(format!("lefi ended with {}", out.status));
            }
            Ok(got.len() as u64)
        }),
    }, Space {
        name: "argument-lists".into(),
        body: Arc::new(move |ch| {
            let k = ch.choose(depth + 1);
            // Lists of four: over the first nine only.
            let m = if k == 4 { 9 } else { n };
            let aux = (0..k).map(|_| ch.choose(m) as u64).collect();
            Some(Case { aux, ..Case::from(Doc::from(vec![])) })
        }),
        judge: Arc::new(|w: &W, c: &Case| {
            let dir = w.ctx.scratch.join("lefi");
            READY.get_or_init(|| prepare(&dir));
            let al = alphabet();
            let args: Vec<_> = c.aux.iter().map(|&i| al[i as usize]).collect();
            let out = Command::new(program()).args(args.iter().map(|a| a.0)).current_dir(&dir).output().map_err(|e| format!("cannot run lefi: {e}"))?;
            let width = args.iter().map(|a| a.0.chars().count()).max().unwrap_or(0) + 1;
            let mut want = String::new();
            let mut ok = true;
            for (a, r) in &args {
                match r {
                    Some(r) => {
                        let pad = width - a.chars().count() - 1;
                        want += &format!("{a}:{} {r}\n", " ".repeat(pad));
                    }
                    None => {
                        ok = false;
                        break;
                    }
                }
            }
            let got = String::from_utf8_lossy(&out.stdout);
            let names: Vec<_> = args.iter().map(|a| a.0).collect();
            if got != want {
                return Err(format!("lefi {names:?} printed {got:?}, must be {want:?}"));
            }
            if out.status.success() != ok {
                return Err(format!("lefi {names:?} ended with {}, must {}", out.status, if ok { "succeed" } else { "fail" }));
            }
            if !ok && out.stderr.is_empty() {
                return Err(format!("lefi {names:?} failed without a message"));
            }
            Ok(got.len() as u64)
        }),
    }]
}
