"""mk(id, property, needs, what, edits, demo): writes /verif/seeded/<id>/ from edits to /repo's files (made in a scratch copy)."""
import json, os, shutil, subprocess, tempfile
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
def mk(id, prop, needs, what, edits, demo):
    d = os.path.join(ROOT, "seeded", id)
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp()
    diff = ""
    files = sorted({f for f, _, _ in edits})
    for f in files:
        a = open("/repo/" + f).read(); b = a
        for g, old, new in edits:
            if g == f:
                assert b.count(old) == 1, (id, f, b.count(old), old)
                b = b.replace(old, new)
        os.makedirs(f"{t}/a/{os.path.dirname(f)}", exist_ok=True); os.makedirs(f"{t}/b/{os.path.dirname(f)}", exist_ok=True)
        open(f"{t}/a/{f}", "w").write(a); open(f"{t}/b/{f}", "w").write(b)
        diff += subprocess.run(["diff", "-u", f"a/{f}", f"b/{f}"], cwd=t, capture_output=True, text=True).stdout
    shutil.rmtree(t)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.rs", "w").write(demo)
    shutil.copy(os.path.join(ROOT, "tools", "demo.sh"), d + "/demo.sh")
    json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(d + "/meta.json", "w"), indent=1)
