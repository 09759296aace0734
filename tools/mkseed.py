"""mkseed.seed(name, prop, edits, needs, breaks, demo): writes seeded/<name> from literal edits of /repo's HEAD."""
import difflib, json, os, shutil, subprocess
BASE = "07bb349"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def seed(name, prop, edits, needs, breaks, demo, files=()):
    d = os.path.join(VERIF, "seeded", name)
    os.makedirs(d, exist_ok=True)
    texts = {}
    for path, old, new in edits:
        if path not in texts:
            texts[path] = [subprocess.check_output(["git", "-C", "/repo", "show", "HEAD:" + path]).decode()] * 2
        t = texts[path][1]
        assert t.count(old) == 1, (name, path, t.count(old), old)
        texts[path][1] = t.replace(old, new)
    out = []
    for path, (a, b) in texts.items():
        out += list(difflib.unified_diff(a.splitlines(True), b.splitlines(True), "a/" + path, "b/" + path))
    # A planted bug changes lines of the original repository.
    for path, (a, b) in texts.items():
        base = subprocess.run(["git", "-C", "/repo", "show", BASE + ":" + path], stdout=subprocess.PIPE).stdout.decode().splitlines()
        gone = [l[2:] for l in difflib.ndiff(a.splitlines(), b.splitlines()) if l.startswith("- ")]
        assert not gone or any(l in base for l in gone), (name, path, "changes only lines of the fixes")
    with open(os.path.join(d, "patch.diff"), "w") as f:
        f.write("".join(out))
    with open(os.path.join(d, "meta.json"), "w") as f:
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, f, indent=1)
        f.write("\n")
    with open(os.path.join(d, "demo.sh"), "w") as f:
        f.write('#!/bin/bash\nPYTHONDONTWRITEBYTECODE=1 exec /usr/bin/python3 "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    with open(os.path.join(d, "demo.py"), "w") as f:
        f.write("import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom demo_lib import *\n\n" + demo.lstrip("\n"))
    shutil.copy(os.path.join(VERIF, "tools/seedlib/demo_lib.py"), d)
    for src, dst in files:
        shutil.copy(src, os.path.join(d, dst))
