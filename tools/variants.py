#!/usr/bin/env python3
"""Writes the packages that build the sources of /repo with one set of reader features each.
The feature table is the one of /repo/Cargo.toml."""
import itertools, os, re, sys, tomllib
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
cargo = tomllib.load(open("/repo/Cargo.toml", "rb"))
table = {k: v for k, v in cargo.get("features", {}).items() if k != "default"}
names = ["asf", "cfb", "ebml", "exe", "id3v2", "mp4", "pdf", "rm", "sqlite3", "txt", "xml", "zip"]
sets = [()] + [(n,) for n in names] + [tuple(m for m in names if m != n) for n in names] + [tuple(names)]
sets += [("asf", "cfb", "ebml", "exe", "id3v2", "mp4"), ("pdf", "rm", "sqlite3", "txt", "xml", "zip"),
         ("asf", "ebml", "id3v2", "pdf", "sqlite3", "xml"), ("cfb", "exe", "mp4", "rm", "txt", "zip")]
CORE = len(sets)  # the builds used for every content; the pairs come after them
sets += list(itertools.combinations(names, 2))

def put(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if not os.path.exists(path) or open(path).read() != text:
        open(path, "w").write(text)

def manifest(name, default):
    t = f'[package]\nname = "{name}"\nversion = "0.0.0"\nedition = "{cargo["package"]["edition"]}"\npublish = false\n\n[lib]\npath = "/repo/src/lib.rs"\ndoctest = false\n\n[features]\n'
    if default is not None:
        t += f"default = {default!r}\n".replace("'", '"')
    for k, v in table.items():
        t += f"{k} = {v!r}\n".replace("'", '"')
    return t

for n in ["plain", "wrap"]:
    put(f"{root}/harness/variants/{n}/Cargo.toml", manifest(f"file-format-{n}", None))
# Built against the standard library of harness/race, which puts synchronisation under control of a scheduler.
put(f"{root}/harness/variants/race/Cargo.toml", manifest("file-format-race", None) + """
[dependencies]
std = { package = "ffmc-std", path = "../../race/std" }
core = { package = "ffmc-core", path = "../../race/core" }
""")
deps, rows, prof, mods = "", "", "", ""
for i, s in enumerate(sets):
    p = f"ff-v{i:02}"
    put(f"{root}/features/variants/v{i:02}/Cargo.toml", manifest(p, [f"reader-{n}" for n in s]))
    deps += f'v{i:02} = {{ package = "{p}", path = "variants/v{i:02}" }}\n'
    mask = sum(1 << names.index(n) for n in s)
    rows += f"    ({mask}, |b| v{i:02}::FileFormat::from_bytes(b) as u16, m{i:02}::meta),\n"
    mods += f"build!(m{i:02}, v{i:02});\n"
    prof += f'[profile.release.package.{p}]\noverflow-checks = true\n\n'
# The combined feature.
p = "ff-combined"
put(f"{root}/features/variants/combined/Cargo.toml", manifest(p, ["reader"]))
deps += f'combined = {{ package = "{p}", path = "variants/combined" }}\n'
rows += "    (4095, |b| combined::FileFormat::from_bytes(b) as u16, mcombined::meta),\n"
mods += "build!(mcombined, combined);\n"
put(f"{root}/features/Cargo.toml", f'''[package]
name = "fffeatures"
version = "0.1.0"
edition = "2024"
publish = false

[workspace]
exclude = ["variants"]

[dependencies]
ffmc = {{ path = "../harness" }}
{deps}
[profile.release]
opt-level = 1
overflow-checks = true
debug = 0
incremental = false
panic = "unwind"

[profile.release.package.ffmc]
opt-level = 2

''')
put(f"{root}/features/src/variants.rs", f"""//! Generated by tools/variants.py: the builds with one set of reader features each.
pub type Detect = fn(&[u8]) -> u16;
/// Everything a build says about the format with this place in the catalogue.
pub type Meta = fn(usize) -> [String; 7];
macro_rules! build {{
    ($m:ident, $c:ident) => {{
        mod $m {{
            use $c::{{FileFormat::{{self, *}}, Kind}};
            #[allow(dead_code)]
            mod body {{
                use super::*;
                include!("../../harness/src/catalog_body.rs");
            }}
            pub fn meta(i: usize) -> [String; 7] {{
                let f = &body::CATALOG[i].fmt;
                let default = if *f == FileFormat::default() {{ "default" }} else {{ "" }};
                [f.name().into(), f.short_name().unwrap_or("-").into(), f.media_type().into(), f.extension().into(), format!("{{:?}}", f.kind()), f.to_string(), default.into()]
            }}
        }}
    }};
}}
pub const CORE: usize = {CORE};
#[rustfmt::skip]
pub static VARIANTS: &[(u16, Detect, Meta)] = &[
{rows}];
{mods}""")
