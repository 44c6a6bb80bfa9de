#!/usr/bin/env python3
"""Generate /verif/sim/gen/bin: /repo/std-binary as a library crate."""
import os, re, sys, filecmp
REPO = os.environ.get("VSIM_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(HERE, "sim", "gen", "bin")

def put(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        with open(path, "rb") as f:
            if f.read() == data:
                return
    except FileNotFoundError:
        pass
    tmp = path + ".tmp"
    with open(tmp, "wb") as f:
        f.write(data)
    os.replace(tmp, path)

def main():
    src = os.path.join(REPO, "std-binary", "src")
    seen = set()
    for d, dirs, files in os.walk(src):
        for n in files:
            p = os.path.join(d, n)
            rel = os.path.relpath(p, src)
            data = open(p, "rb").read()
            if rel == "main.rs":
                t = data.decode()
                t, n1 = re.subn(r"(?m)^(\s*)(pub\s+)?fn\s+main\s*\(", r"\1pub fn bin_main(", t, count=1)
                if n1 != 1:
                    sys.exit("gen_bin: no fn main in main.rs")
                t = re.sub(r"\.init\(\s*\)", ".try_init().unwrap_or_default()", t)
                data = t.encode()
                rel = "lib.rs"
            seen.add(rel)
            put(os.path.join(OUT, "src", rel), data)
    for d, dirs, files in os.walk(os.path.join(OUT, "src")):
        for n in files:
            p = os.path.join(d, n)
            if os.path.relpath(p, os.path.join(OUT, "src")) not in seen:
                os.unlink(p)
    # manifest: keep [dependencies] and [features] of the real one
    txt = open(os.path.join(REPO, "std-binary", "Cargo.toml")).read()
    out, keep = [], False
    for line in txt.splitlines():
        m = re.match(r"\[+([^\]]+)\]+", line.strip())
        if m and line.startswith("["):
            keep = m.group(1) in ("dependencies", "features") or m.group(1).startswith("dependencies.")
        if keep:
            out.append(line)
    dep = "\n".join(out).replace('path = ".."', 'path = "%s"' % REPO)
    man = ('[package]\nname = "tftp-std-binary"\nversion = "0.7.2"\nedition = "2021"\n\n'
           '[lib]\nname = "tftp_bin"\npath = "src/lib.rs"\n\n' + dep + "\n")
    put(os.path.join(OUT, "Cargo.toml"), man.encode())

main()
