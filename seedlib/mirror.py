#!/usr/bin/env python3
"""Mirrors the Rust workspace of /repo into a directory of our own, leaving out what needs the `miri` git
dependency (it is not in the offline cache). A file is written only when its content changes."""
import os, re, shutil, sys

SRC = os.environ.get("SIM_REPO", "/repo")
DST = sys.argv[1]
TOP = ["Cargo.toml", "Cargo.lock", "rust-toolchain.toml"]
OMIT = ("crates/aquascope/src/interpreter/", "crates/aquascope/tests/")
SKIP_DIRS = {"target", "bindings", "node_modules", "tests"}
EDITS = {
    "crates/aquascope/Cargo.toml": [(r"(?m)^miri *=.*\n", "")],
    "crates/aquascope/src/lib.rs": [(r"(?m)^(#\[allow\(clippy::similar_names\)\]\n)?pub mod interpreter;\n", "")],
    "crates/aquascope/src/test_utils.rs": [
        (r"(?m)^  interpreter::\{self, MTrace\},\n", ""),
        (r"(?ms)^pub fn test_interpreter_in_file\(.*?^\}\n", ""),
        (r"crate::interpreter::override_queries", "borrowck_facts::override_queries"),
    ],
    "crates/aquascope_front/src/plugin.rs": [(r"(?ms)^      Interpreter \{ \.\. \} => \{.*?^      \}\n", "")],
}
#: The frontend's build is not there: the binary only has to carry something.
PLACEHOLDERS = {
    "crates/mdbook-aquascope/js/embed.iife.js": b"/* frontend */\n",
    "crates/mdbook-aquascope/js/style.css": b"/* style */\n",
}


def write(path, data):
    try:
        with open(path, "rb") as f:
            if f.read() == data:
                return
    except OSError:
        pass
    if os.path.islink(path):
        os.remove(path)
    elif os.path.isdir(path):
        shutil.rmtree(path)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)


rels = [f for f in TOP if os.path.lexists(os.path.join(SRC, f))]
for root, dirs, files in os.walk(os.path.join(SRC, "crates")):
    dirs[:] = [d for d in dirs if d not in SKIP_DIRS]
    rels += [os.path.relpath(os.path.join(root, f), SRC) for f in files]
rels = [r for r in rels if not r.startswith(OMIT)]
for rel in rels:
    src = os.path.join(SRC, rel)
    if not os.path.exists(src):
        continue
    with open(src, "rb") as f:  # links are followed
        data = f.read()
    for pattern, repl in EDITS.get(rel, ()):
        data = re.sub(pattern.encode(), repl.encode(), data)
    dst = os.path.join(DST, rel)
    if rel == "Cargo.lock":
        # cargo drops miri from the mirror's copy: compare with what it was made from
        seen = os.path.join(DST, ".Cargo.lock.repo")
        if not os.path.exists(dst) or not os.path.exists(seen) or open(seen, "rb").read() != data:
            write(seen, data)
            write(dst, data)
    else:
        write(dst, data)
keep = set(rels) | set(PLACEHOLDERS)
for rel, data in PLACEHOLDERS.items():
    if rel not in rels:
        write(os.path.join(DST, rel), data)
for root, dirs, files in os.walk(os.path.join(DST, "crates")):
    dirs[:] = [d for d in dirs if d not in ("target", "bindings", "node_modules")]
    for f in files:
        p = os.path.join(root, f)
        if os.path.relpath(p, DST) not in keep:
            os.remove(p)
