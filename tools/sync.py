#!/usr/bin/env python3
"""Mirror /repo's crate into /verif/.build/overlay so that it builds offline.

Files are compared by content and only rewritten when they differ, so cargo sees
a change exactly when what is in /repo's working tree changed, whatever the
modification times there say.  Cargo.toml is derived from /repo/Cargo.toml by
leaving out the git dependencies (unreachable offline, and cargo cannot resolve
the manifest with them) and the bench targets.
"""
import os, re, sys

REPO = os.environ.get("VMON_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(HERE, ".build", "overlay")


def put(path, data):
    try:
        with open(path, "rb") as f:
            if f.read() == data:
                return False
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + ".tmp~"
    with open(tmp, "wb") as f:
        f.write(data)
    os.replace(tmp, path)
    return True


def mirror(rel):
    src, dst = os.path.join(REPO, rel), os.path.join(OUT, rel)
    want, changed = set(), 0
    for root, _dirs, files in os.walk(src):
        for f in files:
            p = os.path.join(root, f)
            r = os.path.relpath(p, src)
            want.add(r)
            with open(p, "rb") as fh:
                changed += put(os.path.join(dst, r), fh.read())
    for root, _dirs, files in os.walk(dst):
        for f in files:
            p = os.path.join(root, f)
            if os.path.relpath(p, dst) not in want:
                os.unlink(p)
                changed += 1
    return changed


def main():
    changed = mirror("src") + mirror("db")
    for f in ("build.rs", "README.md"):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            with open(p, "rb") as fh:
                changed += put(os.path.join(OUT, f), fh.read())
    text = open(os.path.join(REPO, "Cargo.toml")).read()
    git = re.findall(r"^([\w-]+)\s*=\s*\{[^}\n]*\bgit\s*=[^\n]*\n", text, re.M)
    for name in git:
        n = re.escape(name)
        text = re.sub(rf"^{n}\s*=\s*\{{[^\n]*\bgit\s*=[^\n]*\n", "", text, flags=re.M)
        text = re.sub(rf'"(dep:{n}|{n}\??/[^"\n]+)"\s*,?', "", text)
    text = re.sub(r"\[\[bench\]\][^\[]*", "", text)
    text = re.sub(r"\[dev-dependencies\][^\[]*", "", text)
    changed += put(os.path.join(OUT, "Cargo.toml"), text.encode())
    if "-v" in sys.argv:
        print(f"overlay: {changed} file(s) updated")


main()
