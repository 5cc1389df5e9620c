//! Command line: `check ID`, `replay FILE`, and the child processes of both.
use crate::run::{Ctx, Space};
use std::os::unix::process::ExitStatusExt;
use std::process::{exit, Command, Stdio};

pub struct Check {
    pub spaces: Vec<Space>,
    pub level: &'static str,
    pub technique: &'static str,
    pub assumptions: Vec<&'static str>,
}

pub type Build = fn(&str, bool) -> Option<Check>;

pub fn main_with(build: Build) {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
    match a[..] {
        ["check", id] => exit(parent(id)),
        ["only", id, name] => {
            // For work on the machinery: one space alone.
            let mut c = build(id, thorough).expect("unknown property");
            c.spaces.retain(|s| s.name == name);
            let held = Ctx::new("only", thorough).run(&c.spaces, c.level, c.technique, &c.assumptions);
            exit(if held { 0 } else { 1 });
        }
        ["check-inner", id] => {
            let c = build(id, thorough).expect("unknown property");
            let held = Ctx::new(id, thorough).run(&c.spaces, c.level, c.technique, &c.assumptions);
            exit(if held { 0 } else { 1 });
        }
        ["replay", f] => {
            let t = std::fs::read_to_string(f).expect("cannot read the replay file");
            let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(k)).unwrap_or_default().trim().to_string();
            let st = Command::new(std::env::current_exe().unwrap())
                .args(["replay-inner", &get("property "), &get("space "), &get("path ")])
                .env("VERIF_TIER", get("tier "))
                .env("FFMC_ABOUT", get("about "))
                .status()
                .unwrap();
            if st.signal().is_some() {
                println!("the process died: {st}");
                println!("VIOLATION property={} replay={f}", get("property "));
            }
            exit(st.code().unwrap_or(1));
        }
        ["replay-inner", id, space, path] => {
            let c = build(id, thorough).expect("unknown property");
            let path = path.split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
            match Ctx::new(id, thorough).replay(&c.spaces, space, path) {
                Ok(held) => exit(if held { 0 } else { 1 }),
                Err(e) => {
                    eprintln!("{e}");
                    exit(2);
                }
            }
        }
        ["history", ref docs @ ..] => crate::history::child(docs),
        ["literals"] => print!("{}", crate::words::written(&crate::words::present())),
        ["list", id] => {
            for s in build(id, thorough).expect("unknown property").spaces {
                println!("{}", s.name);
            }
        }
        _ => {
            eprintln!("usage: check ID | replay FILE | list ID");
            exit(2);
        }
    }
}

/// Runs the check in a child: if the code under check kills the process, the case is found and confirmed.
fn parent(id: &str) -> i32 {
    let me = std::env::current_exe().unwrap();
    let st = Command::new(&me).args(["check-inner", id]).status().unwrap();
    match st.code() {
        Some(c) => return c,
        None => eprintln!("the check died ({st}); looking for the case"),
    }
    let dir = std::env::temp_dir().join(format!("ffmc-trace-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let st2 = Command::new(&me).args(["check-inner", id]).env("FFMC_TRACE", &dir).stdout(Stdio::null()).stderr(Stdio::null()).status().unwrap();
    let mut code = 2;
    let mut files: Vec<_> = std::fs::read_dir(&dir).unwrap().flatten().map(|e| e.path()).collect();
    files.sort();
    if st2.signal().is_some() {
        for f in files {
            let t = std::fs::read_to_string(&f).unwrap_or_default();
            let mut l = t.lines();
            let (Some(space), Some(path)) = (l.next(), l.next()) else { continue };
            let path: String = path.chars().filter(|c| c.is_ascii_digit() || *c == ',').collect();
            let st3 = Command::new(&me).args(["replay-inner", id, space, &path]).stdout(Stdio::null()).stderr(Stdio::null()).status().unwrap();
            if st3.signal().is_some() {
                let ctx = Ctx::new(id, std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough"));
                let p: Vec<u32> = path.split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
                ctx.report(space, &p, &format!("the process died: {st3}"), None);
                ctx.write_minimal_evidence(&format!("the process died in {space}"));
                code = 1;
                break;
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    code
}
