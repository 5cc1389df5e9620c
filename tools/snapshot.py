#!/usr/bin/env python3
"""One-off generator of the frozen reference tables (harness/src/sigtable.rs, catalog.rs).

It was run on the pinned base commit, its output reviewed and committed; no check runs it.
"""
import re, ast, sys, subprocess

def sh(p): return subprocess.check_output(["git","-C","/repo","show","3b2f141:"+p],text=True)

t = sh("src/signatures.rs"); t = t[t.index('signatures! {')+len('signatures! {'):]
sig, cur, hdr = [], None, None
for line in t.splitlines():
    s = line.strip()
    m = re.match(r'// (\d+) bytes', s)
    if m: hdr = int(m.group(1)); continue
    m = re.match(r'format = (\w+)', s)
    if m: cur = (m.group(1), hdr, []); sig.append(cur); continue
    if s.startswith('value'):
        cur[2].append([(int(o or 0), ast.literal_eval(v)) for v, o in
                       re.findall(r'(b"(?:[^"\\]|\\.)*")(?:\s+offset\s*=\s*(\d+))?', s)])
    elif s and s != '}': sys.exit("unparsed: "+s)
# documented order: descending signature size, then name -- verified here, derived at run time by the model
for a, b in zip(sig, sig[1:]): assert (-a[1], a[0]) < (-b[1], b[0]), (a[0], b[0])
for f in sig: assert f[1] == max(sum(len(v) for _, v in a) for a in f[2])

f = sh("src/formats.rs")
cat = re.findall(r'format = (\w+)\s+name = "([^"]*)"\s+(?:short_name = "([^"]*)"\s+)?media_type = "([^"]*)"\s+extension = "([^"]*)"\s+kind = (\w+)', f)
assert len(cat) == f.count("format = "), (len(cat), f.count("format = "))
# independent documentation: the README lists every format under its kind as "Name (SHORT)"
readme = sh("README.md"); sect = readme[readme.index("## Supported file formats"):readme.index("## Fixtures")]
doc, kind = {}, None
for l in sect.splitlines():
    if l.startswith("### "): kind = l[4:]
    elif l.startswith("- "): doc.setdefault((kind.capitalize(), l[2:]), 0); doc[(kind.capitalize(), l[2:])] += 1
code = {}
for v, n, s, m, e, k in cat:
    key = (k, n + (f" ({s})" if s else "")); code[key] = code.get(key, 0) + 1
print("in README not code:", sorted(set(doc)-set(code))); print("in code not README:", sorted(set(code)-set(doc)))

def rb(v): return 'b"' + ''.join('\\x%02x' % c if not (32 <= c < 127) or c in b'"\\' else chr(c) for c in v) + '"'
with open("harness/src/sigtable.rs", "w") as o:
    o.write("//! Frozen signature table: per format, the alternatives; per alternative, (offset, bytes) fragments.\n"
            "//! Listed alphabetically: the priority is derived by the model from the documented rule.\n"
            "use ff::FileFormat::{self, *};\npub type Alt = &'static [(usize, &'static [u8])];\n"
            "pub const SIGS: &[(FileFormat, &str, &[Alt])] = &[\n")
    for n, h, alts in sorted(sig):
        o.write(f"    ({n}, \"{n}\", &[\n" + ''.join("        &[" + ", ".join(f"({off}, {rb(v)})" for off, v in a) + "],\n" for a in alts) + "    ]),\n")
    o.write("];\n")
with open("harness/src/catalog.rs", "w") as o:
    o.write("//! Frozen catalogue of the formats and their descriptions, cross-checked with README.md when it was taken.\n"
            "use ff::{FileFormat::{self, *}, Kind};\n"
            "pub struct Entry { pub fmt: FileFormat, pub id: &'static str, pub name: &'static str, pub short: Option<&'static str>, pub media: &'static str, pub ext: &'static str, pub kind: Kind, pub kind_id: &'static str }\n"
            "const fn e(fmt: FileFormat, id: &'static str, name: &'static str, short: Option<&'static str>, media: &'static str, ext: &'static str, kind: Kind, kind_id: &'static str) -> Entry { Entry { fmt, id, name, short, media, ext, kind, kind_id } }\n"
            "pub const CATALOG: &[Entry] = &[\n")
    for v, n, s, m, x, k in cat:
        o.write(f'    e({v}, "{v}", "{n}", {"Some(%s)" % chr(34).join(["",s,""]) if s else "None"}, "{m}", "{x}", Kind::{k}, "{k}"),\n')
    o.write("];\n")
print(len(sig), len(cat))
