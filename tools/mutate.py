#!/usr/bin/env python3
"""Mutation campaign: small generated changes to the readers, kept if they compile and pass the
repository's own tests, and then shown to the checks. A way to find what the checks miss; nothing
depends on it. Works in scratch copies under /tmp.

With --boundary, the changes are about values instead: fields that lose their high bits, offsets beyond
a power of two that end the search, loops that end early, values treated as another. With --conjunctive,
effects fail to come about under conditions over other variables.

usage: mutate.py [--boundary | --conjunctive] [-j WORKERS] [-o OUT.jsonl] [-f FUNCTION,...] [-n EVERY] [--list]
"""
import argparse, json, os, queue, re, shutil, signal, subprocess, threading, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument("-j", type=int, default=3); ap.add_argument("-o", default="/tmp/mutate.jsonl")
ap.add_argument("-f", default=""); ap.add_argument("-n", type=int, default=1); ap.add_argument("--list", action="store_true"); ap.add_argument("--boundary", action="store_true"); ap.add_argument("--conjunctive", action="store_true")
a = ap.parse_args()
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]

# Where a change shows first.
FIRST = {"from_asf_reader": ["C10"], "from_cfb_reader": ["C11"], "from_ebml_reader": ["C12"], "from_exe_reader": ["C13"],
         "from_id3v2_reader": ["C14"], "from_mp4_reader": ["C15"], "from_pdf_reader": ["C16"], "from_rm_reader": ["C17"],
         "from_sqlite3_reader": ["C18"], "from_txt_reader": ["C19"], "from_xml_reader": ["C20"], "from_zip_reader": ["C21"],
         "from_fmt_reader": ["C09"], "from_generic_reader": ["C09"], "from_signature": ["C06"], "from_reader": ["C08", "C02"]}

SUBS = [  # pattern, replacements
    (r"(?<![\w\"x{:.])(\d[\d_]*)(?![\w\"}.])", lambda m: [str(int(m.group(1).replace("_", "")) + d) for d in (1, -1) if int(m.group(1).replace("_", "")) + d >= 0] + (["0"] if int(m.group(1).replace("_", "")) > 1 else [])),
    (r"\b0x([0-9A-F]+)\b", lambda m: ["0x%X" % (int(m.group(1), 16) ^ 1), "0x%X" % (int(m.group(1), 16) >> 1)]),
    (r" < (?!\w+>)", [" <= "]), (r" > (?!=)", [" >= "]), (r" <= ", [" < "]), (r" >= ", [" > "]), (r" == ", [" != "]), (r" != ", [" == "]),
    (r" && ", [" || "]), (r" \|\| ", [" && "]), (r" \+ ", [" - "]), (r" - ", [" + "]), (r" << ", [" >> "]), (r" \| (?=\()", [" & "]), (r" & ", [" | "]),
    (r"saturating_(add|sub)", lambda m: ["wrapping_" + m.group(1)]),
    (r"std::cmp::min", ["std::cmp::max"]), (r"std::cmp::min\(", [".0#", ".1#"]),
    (r"starts_with", ["ends_with"]), (r"ends_with", ["starts_with"]), (r"\.rfind\(", [".find("]), (r"\.trim\(\)", ["", ".trim_start()", ".trim_end()"]),
    (r"(read_u\d+)_le", lambda m: [m.group(1) + "_be"] if m.group(1) == "read_u32" else []), (r"(read_u\d+)_be", lambda m: [m.group(1) + "_le"] if m.group(1) == "read_u32" else []),
    (r"SeekFrom::Start", ["SeekFrom::Current#"]), (r"SeekFrom::Current", ["SeekFrom::Start#"]),
    (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\bbreak\b", ["continue"]), (r"read_up_to", ["read"]), (r"read_exact", ["read"]),
    (r"(b?\")((?:[^\"\\]|\\.){2,})\"", lambda m: [m.group(1) + m.group(2)[:-1] + '"'] if m.group(2)[-2] != "\\" and not re.search(r"\\x..$", m.group(2)) else []),
    (r"(b?\")((?:[^\"\\]|\\.){2,})\"", lambda m: [m.group(1) + m.group(2).lower() + '"'] if m.group(2) != m.group(2).lower() and "\\" not in m.group(2) else []),
    (r"!(?=[a-z(])", [""]), (r"(?<=if )(?!let)(?=[a-z!&])", ["!"]), (r"\.any\(", [".all("]), (r"is_control\(\)", ["is_ascii_control()"]), (r"is_whitespace\(\)", ["is_ascii_whitespace()"]),
    (r"from_utf8_lossy", []), (r"Some\((\w+)\)", []), (r"rotate_right", ["rotate_left"]), (r"BufReader::new\(reader\)", ["BufReader::with_capacity(1, reader)#"]),
]

def args_of(s, i):  # the arguments of the call whose "(" is at i
    d, st, out = 0, i + 1, []
    for k in range(i, len(s)):
        c = s[k]
        if c in "([{": d += 1
        elif c in ")]}":
            d -= 1
            if d == 0: out.append(s[st:k]); return out, k
        elif c == "," and d == 1: out.append(s[st:k]); st = k + 1
    return None, None

def mutants():
    for path in ("src/readers.rs", "src/lib.rs", "src/macros.rs"):
        src = open("/repo/" + path).read()
        fn, pos = "", 0
        for ln, line in enumerate(src.split("\n"), 1):
            start = pos; pos += len(line) + 1
            m = re.search(r"\bfn (\w+)", line)
            if m: fn = m.group(1)
            code = line.strip()
            if not code or code.startswith("//") or code.startswith("#") or m or fn == "": continue
            if path == "src/lib.rs" and fn != "from_reader": continue
            if path == "src/macros.rs" and fn != "from_signature": continue
            if 'const ' in code and "GUID" in code: continue
            found = []
            for pat, rep in SUBS:
                for h in re.finditer(pat, line):
                    for r in (rep(h) if callable(rep) else rep):
                        if r in (".0#", ".1#"):
                            ar, end = args_of(src, start + h.end() - 1)
                            if ar and len(ar) == 2: found.append((start + h.start(), end + 1, "(" + ar[int(r[1])].strip() + ")"))
                        else: found.append((start + h.start(), start + h.end(), r.rstrip("#")))
            if re.match(r"(reader\.seek|reader\.rewind|\w+ (\+|-)?= |return |buf\[).*;$", code): found.append((start, start + len(line), ""))
            if re.match(r".* => .*,$", code) and "{" not in code and not code.startswith("_"):
                found.append((start, start + len(line), ""))
            seen = set()
            for s, e, r in found:
                t = src[:s] + r + src[e:]
                if t != src and t not in seen:
                    seen.add(t)
                    yield dict(file=path, line=ln, fn=fn, old=src[max(start, s - 30):e + 20], new=src[max(start, s - 30):s] + r + src[e:e + 20], text=t)

def boundary():
    """Fields cut to their low bits or with one value changed, offsets and loops with lower limits."""
    path = "src/readers.rs"
    src = open("/repo/" + path).read()
    fn, pos = "", 0
    for ln, line in enumerate(src.split("\n"), 1):
        start = pos; pos += len(line) + 1
        m = re.search(r"\bfn (\w+)", line)
        if m: fn = m.group(1)
        if not fn.startswith("from_"): continue
        add = []
        m = re.match(r"\s*let (\w+) = reader\.read_u(\d+)(_le|_be)?\(\)\?;$", line)
        if m:
            x, w = m.group(1), int(m.group(2))
            for k in (1, 4, 7, 8, 12, 15, 16, 20, 24, 28, 31, 32, 36, 40, 48, 56, 62, 63):
                if k < w: add.append(f" let {x} = {x} & {(1 << k) - 1};")
            for v in (0, 1, 127, 128, 255, 256, 0x7FFF, 0x8000, 0xFFFF, 0x10000, (1 << 24) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, 1 << 63, (1 << 64) - 1):
                if v < 1 << w: add.append(f" let {x} = if {x} == {v} {{ {v ^ 1} }} else {{ {x} }};")
        if re.match(r"\s*let first_byte = reader.read_u8\(\)\?;$", line): add = []
        if "let next_offset" in line or "let mut next_offset" in line or "let offset" in line:
            # The end of the statement.
            end = src.index(";\n", start) + 1
            n = "next_offset" if "next_offset" in line else "offset"
            if fn not in ("from_exe_reader", "from_cfb_reader", "from_zip_reader"):
                for k in range(6, 63): add.append(f" if {n} > 1u64 << {k} {{ break; }}")
                add = [(end, end, t) for t in add]
            else: add = [(start + len(line), start + len(line), t) for t in add]
        else: add = [(start + len(line), start + len(line), t) for t in add]
        m = re.match(r"(\s*for _ in 0\.\.)(.*) \{$", line)
        if m:
            for k in (1, 2, 3, 4, 6, 8, 12, 16, 24, 31, 32, 48, 63, 64, 100, 128, 200, 255, 512, 1000, 1023):
                add.append((start, start + len(line), f"{m.group(1)}std::cmp::min({k}, {m.group(2)}) {{"))
        m = re.match(r"(\s*while (?:element|box)_count < )(\w+)( .*)$", line)
        if m:
            for k in (1, 2, 3, 4, 6, 8, 12, 16, 24, 32, 48, 64, 100, 128, 200, 255): add.append((start, start + len(line), m.group(1) + str(k) + m.group(3)))
        for s, e, r in add:
            yield dict(file=path, line=ln, fn=fn, old=line.strip(), new=r.strip(), text=src[:s] + r + src[e:])

INTS = ("size len offset next_offset count element_count box_count total_nread nread number_of_bytes tag_size flags chunk_size stream_name_size mime_type_size "
        "compressed_size uncompressed_size filename_len extra_field_len file_comment_len number_of_entries eocd_offset remaining_len major_version first_byte id").split()
FLAGS = "audio_stream video_stream audio_track video_track subtitle_track zip64 footer_present".split()

def conjunctive():
    """Effects that fail to come about under a condition over other variables in scope, without new values."""
    path = "src/readers.rs"
    src = open("/repo/" + path).read()
    fn, pos, scope, k = "", 0, [], 0
    for ln, line in enumerate(src.split("\n"), 1):
        start = pos; pos += len(line) + 1
        m = re.search(r"\bfn (\w+)", line)
        if m: fn, scope = m.group(1), []
        if not fn.startswith("from_"): continue
        code, indent = line.strip(), len(line) - len(line.lstrip())
        # What is declared in a block that has ended is out of scope.
        if code: scope = [(x, i) for x, i in scope if i <= indent]
        ints, flags = [x for x, _ in scope if x in INTS], [x for x, _ in scope if x in FLAGS]
        preds = []
        for v in ints:
            preds += [f"{v} as u64 % 2 == 1", f"{v} as u64 % 3 == 1", f"{v} as u64 % 16 > 7"]
            preds += [f"{v} as u64 {op} {w} as u64" for w in ints if w != v for op in (">", "==", "+ 1 ==") if op == ">" or v < w]
            preds += [f"{f} && {v} as u64 % 2 == 0" for f in flags]
        preds += flags + [f"{f} && {g}" for f in flags for g in flags if f < g]
        def put(pre):
            new = None
            if re.match(r"\w+ = true;$", code): new = lambda p: line.replace("= true", f"|= !({p})")
            elif re.match(r".* => \w+ = true,$", code): new = lambda p: line.replace("= true", f"|= !({p})")
            elif re.match(r".* => return Ok\(.*\),$", code): new = lambda p: line.replace(" => return", f" if !({p}) => return")
            elif re.match(r"return Ok\(.*\);$", code): new = lambda p: line.replace(code, f"if !({p}) {{ {code} }}")
            elif re.match(r"reader\.seek\(.*\)\?;$", code): new = lambda p: line.replace(code, f"if !({p}) {{ {code} }}")
            elif re.match(r"(\} else )?if .* \{$", code) and " let " not in code: new = lambda p: re.sub(r"\bif (.*) \{$", lambda m: f"if !({p}) && ({m.group(1)}) {{", line)
            elif re.match(r"_ => break,|\w+ => break,$", code): new = lambda p: line.replace(" => break", f" if !({p}) => break")
            elif re.match(r"\w+ \+= .*;$", code): new = lambda p: line.replace(code, f"if !({p}) {{ {code} }}")
            return new
        new = put(line)
        if new:
            for p in preds:
                k += 1
                yield dict(file=path, line=ln, fn=fn, old=code, new=new(p).strip(), text=src[:start] + new(p) + src[start + len(line):])
        m = re.match(r"\s*let (?:mut )?(\w+)\b", line)
        if m: scope.append((m.group(1), indent))

ms = [m for m in (boundary() if a.boundary else conjunctive() if a.conjunctive else mutants()) if not a.f or m["fn"] in a.f.split(",")][::a.n]
if a.list:
    for m in ms: print(m["file"], m["line"], m["fn"], repr(m["old"]), "->", repr(m["new"]))
    print(len(ms)); raise SystemExit
done = set()
if os.path.exists(a.o):
    for l in open(a.o):
        d = json.loads(l); done.add((d["line"], d["old"], d["new"]))
jobs, lock = queue.Queue(), threading.Lock()
for m in ms:
    if (m["line"], m["old"], m["new"]) not in done: jobs.put(m)
print(jobs.qsize(), "to do", flush=True)

def sh(cmd, cwd, t):
    p = subprocess.Popen(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True,
                         env=dict(os.environ, VERIF_TIER="quick", VERIF_SEED="1", CARGO_NET_OFFLINE="true"))
    try:
        o, _ = p.communicate(timeout=t)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL); p.communicate()
        return -1, "timeout"

def work(n):
    base = f"/tmp/mutate-{os.getpid()}-{n}"
    repo, ver = base + "/repo", base + "/verif"
    os.makedirs(base)
    try:
        shutil.copytree("/repo", repo, symlinks=True, ignore=shutil.ignore_patterns("target", ".git"))
        shutil.copytree(ROOT, ver, symlinks=True, ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "target"))
        for dp, dn, fn in os.walk(ver):
            for f in fn:
                p = os.path.join(dp, f)
                try: t = open(p).read()
                except UnicodeDecodeError: continue
                u = re.sub(r"(?<![\w.])/repo\b", repo, t)
                if t != u: open(p, "w").write(u)
        while True:
            try: m = jobs.get_nowait()
            except queue.Empty: return
            f = os.path.join(repo, m["file"]); was = open(f).read()
            open(f, "w").write(m["text"])
            res = {k: v for k, v in m.items() if k != "text"}
            c, o = sh("cargo test --offline --all-features --tests --target-dir ../t", repo, 120)
            if "could not compile" in o: res["result"] = "stillborn"
            elif c: res["result"] = "tests"
            else:
                res["result"] = "MISSED"
                first = FIRST.get(m["fn"], ["C16", "C21", "C02", "C03"])
                odd = {}
                for p in first + [p for p in ("C23", "C04", "C25", "C03", "C08", "C02") if p not in first]:
                    c, o = sh(["bash", ver + "/check.sh", p], ver, 900)
                    if c == 1 and f"VIOLATION property={p} " in o:
                        res["result"] = p
                        if p not in first: res["late"] = True
                        break
                    if c: odd[p] = (c, o[-300:])
                if odd: res["odd"] = odd
            open(f, "w").write(was)
            with lock:
                with open(a.o, "a") as g: g.write(json.dumps(res) + "\n")
                if res["result"] == "MISSED" or "late" in res or "odd" in res: print(res["file"], res["line"], res["fn"], repr(res["old"]), "->", repr(res["new"]), res["result"], res.get("odd", ""), flush=True)
    finally:
        shutil.rmtree(base, ignore_errors=True)

ts = [threading.Thread(target=work, args=(i,)) for i in range(a.j)]
[t.start() for t in ts]; [t.join() for t in ts]
print("done", flush=True)
