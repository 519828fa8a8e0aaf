#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from tools/seeds/*.seed: an edit list, a demonstration and its description.

Format of a .seed file: sections introduced by lines starting with '### '.
### id C05-package-array
### property C05
### needs ...            (one line)
### breaks ...           (one line)
### features threadsafe  (optional)
### edit src/file.rs
old text
### to
new text
### demo
body of main() (asm::* in scope)
"""
import os, re, shutil, subprocess, sys, tempfile, json
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(HERE), "seeded")
BASE = "334a995"

DEMO = '''#!/bin/bash
# Run with the current directory at the repository: builds demo.rs against it and runs it.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
w="$(mktemp -d)"
trap 'rm -rf "$w"' EXIT
mkdir "$w/src"
cp "$here/demo.rs" "$w/src/main.rs"
cp "$here/asm.rs" "$w/src/asm.rs"
cat >"$w/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
cafebabe = { path = "$repo"%s }
[profile.dev]
debug = false
[workspace]
EOF
cd "$w" && CARGO_TARGET_DIR="$w/target" timeout 250 cargo run -q --offline
'''

def sections(text):
    out = []
    for line in text.split("\n"):
        if line.startswith("### "):
            out.append([line[4:], []])
        elif out:
            out[-1][1].append(line)
    return [(h, "\n".join(b)) for h, b in out]

def build(path):
    s = sections(open(path).read())
    meta, edits, demo, feats, items = {}, [], None, "", ""
    i = 0
    while i < len(s):
        h, b = s[i]
        k, _, v = h.partition(" ")
        if k in ("id", "property", "needs", "breaks"): meta[k] = v
        elif k == "features": feats = ', features = ["%s"]' % v
        elif k == "edit":
            assert s[i+1][0] == "to", path
            edits.append((v, b.strip("\n"), s[i+1][1].strip("\n"))); i += 1
        elif k == "demo": demo = b
        elif k == "items": items = b
        else: raise SystemExit(f"{path}: {h}")
        i += 1
    d = os.path.join(OUT, meta["id"])
    w = tempfile.mkdtemp()
    try:
        subprocess.run("git -C /repo archive HEAD | tar -x -C " + w + " && cd " + w + " && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x", shell=True, check=True)
        ours = True
        for f, old, new in edits:
            p = os.path.join(w, f)
            t = open(p).read()
            if t.count(old) != 1: raise SystemExit(f"{path}: old text occurs {t.count(old)} times in {f}:\n{old}")
            open(p, "w").write(t.replace(old, new))
        diff = subprocess.run(["git", "-C", w, "diff"], capture_output=True, text=True, check=True).stdout
        base = ""
        for f in {e[0] for e in edits}:
            base += subprocess.run(["git", "-C", "/repo", "show", f"{BASE}:{f}"], capture_output=True, text=True, check=True).stdout
        removed = [l[1:] for l in diff.split("\n") if l.startswith("-") and not l.startswith("---")]
        if not any(l.strip() and l in base.split("\n") for l in removed):
            print(f"WARNING {meta['id']}: no original line changed", removed)
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.sh", "w").write(DEMO % feats); os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo.rs", "w").write("#![allow(unused)]\nmod asm;\nuse asm::*;\nuse cafebabe::*;\n" + items + "\nfn main() {\n" + demo.rstrip("\n") + "\n}\n")
        shutil.copy(os.path.join(HERE, "..", "mc", "src", "asm.rs"), d + "/asm.rs")
        json.dump({"property": meta["property"], "needs": meta["needs"], "what_it_breaks": meta["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        open(d + "/meta.json", "a").write("\n")
    finally:
        shutil.rmtree(w)
    return meta["id"]

for a in sys.argv[1:] or sorted(os.path.join(HERE, "seeds", x) for x in os.listdir(os.path.join(HERE, "seeds"))):
    print(build(a))
