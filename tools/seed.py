#!/usr/bin/env python3
"""Builds and confirms the planted bugs (seeded/<id>/) from tools/seeds.py.

usage: seed.py [ID...]        (all of them by default; only confirmed ones are kept)

Each is applied in a scratch copy of /repo (under /tmp, removed afterwards): the patched tree must
build, pass every test of the stable baseline, and fail the demonstration, which the unpatched tree
must pass.
"""
import json, os, re, shutil, subprocess, sys, tempfile, difflib, importlib.util
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"

DEMO_SH = r'''#!/bin/bash
# {title}
# Run with the current directory at the repository: exit 0 where the property holds.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/crate/src"
cp "$here/demo.rs" "$work/crate/src/main.rs"
cat > "$work/crate/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2024"

[dependencies]
file-format = {{ path = "$repo", features = [{features}] }}

[profile.dev]
opt-level = 1
overflow-checks = {overflow}

[workspace]
T
cd "$work/crate" || exit 2
CARGO_TARGET_DIR="$work/target" DEMO_DIR="$work" timeout 250 cargo run --quiet --offline
'''

def load():
    spec = importlib.util.spec_from_file_location("seeds", os.path.join(ROOT, "tools", "seeds.py"))
    m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    return m

def run(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ)
    for k in ("VERIF_SEED", "VERIF_TIER"): e.pop(k, None)
    e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)

def patched(seed):
    """Returns {path: (old, new)} or raises."""
    out = {}
    for path, old, new in seed["edits"]:
        p = os.path.join(REPO, path)
        cur = out.get(path, (open(p).read(),) * 2)
        n = cur[1].count(old)
        if n != 1:
            raise SystemExit(f"{seed['id']}: {n} occurrences in {path} of: {old!r}")
        out[path] = (cur[0], cur[1].replace(old, new))
    return out

def baseline():
    d = json.load(open("/opt/vp/BASELINE.json"))
    for k in ("stable", "passed", "tests"):
        if isinstance(d, dict) and k in d: return set(d[k])
    return set(d)

def one(seed, mod):
    sid = seed["id"]
    files = patched(seed)
    diff = ""
    for path, (old, new) in files.items():
        diff += f"diff --git a/{path} b/{path}\n" + "".join(difflib.unified_diff(old.splitlines(True), new.splitlines(True), f"a/{path}", f"b/{path}"))
    tmp = tempfile.mkdtemp(prefix="seed-" + sid + "-", dir="/tmp")
    log = []
    try:
        d = os.path.join(tmp, "out"); os.makedirs(d)
        demo = mod.PRELUDE + "\n" + seed["demo"].strip() + "\n"
        open(os.path.join(d, "demo.rs"), "w").write(demo)
        feats = seed.get("features", ["reader"])
        open(os.path.join(d, "demo.sh"), "w").write(seed.get("demo_sh") or DEMO_SH.format(
            title=seed["breaks"].split(". ")[0], features=", ".join(f'"{f}"' for f in feats),
            overflow="true" if seed.get("overflow", True) else "false"))
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        json.dump({"property": seed["property"], "needs": seed["needs"], "what_it_breaks": seed["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        # The unpatched tree passes.
        copy = os.path.join(tmp, "repo")
        shutil.copytree(REPO, copy, symlinks=True, ignore=shutil.ignore_patterns("target"))
        r = run(["bash", os.path.join(d, "demo.sh")], copy)
        if r.returncode != 0:
            return sid, False, "demo fails on the unchanged tree\n" + r.stdout[-3000:]
        r = run(["git", "apply", os.path.join(d, "patch.diff")], copy)
        if r.returncode != 0:
            return sid, False, "patch does not apply\n" + r.stdout
        r = run(["bash", os.path.join(d, "demo.sh")], copy)
        if r.returncode == 0:
            return sid, False, "demo passes with the patch"
        demo_out = r.stdout[-600:]
        if "error: could not compile" in r.stdout or "error[E" in r.stdout:
            return sid, False, "does not compile\n" + r.stdout[-3000:]
        env = {"CARGO_TARGET_DIR": os.path.join(tmp, "target")}
        passed = set()
        for c, extra in (("default", []), ("all-features", ["--all-features"])):
            r = run(["cargo", "test", "--workspace", "--no-fail-fast", "--offline", *extra, "--", "--test-threads", "2"], copy, env)
            if "could not compile" in r.stdout:
                return sid, False, f"does not build ({c})\n" + r.stdout[-3000:]
            bad = re.findall(r"^test (.*) \.\.\. FAILED", r.stdout, re.M)
            if bad or r.returncode != 0:
                return sid, False, f"existing tests fail ({c}): {bad[:5]}\n{r.stdout[-500:]}"
        dst = os.path.join(ROOT, "seeded", sid)
        if os.path.isdir(dst): shutil.rmtree(dst)
        shutil.copytree(d, dst)
        return sid, True, demo_out.strip().splitlines()[-3:] if demo_out else ""
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def main():
    mod = load()
    want = sys.argv[1:]
    seeds = [s for s in mod.SEEDS if not want and s["id"] not in mod.NOT_KEPT or s["id"] in want or s["property"] in want]
    ids = [s["id"] for s in mod.SEEDS]
    assert len(set(ids)) == len(ids), "duplicate ids"
    for s in seeds: patched(s)
    with ThreadPoolExecutor(4) as ex:
        for sid, ok, msg in ex.map(lambda s: one(s, mod), seeds):
            print(("ok   " if ok else "DROP ") + sid, msg if not ok else "", flush=True)

if __name__ == "__main__":
    main()
