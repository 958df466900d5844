"""mkbug.py SPEC.py...: writes /verif/seeded/<id>/ from a spec (ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO)"""
import json, os, runpy, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for spec in sys.argv[1:]:
    d = runpy.run_path(spec)
    w = tempfile.mkdtemp(prefix="mkbug")
    subprocess.run(["git", "-C", "/repo", "worktree", "add", "-f", "--detach", "-q", w + "/r", "HEAD"], check=True)
    try:
        for f, old, new in d["EDITS"]:
            p = os.path.join(w, "r", f)
            s = open(p, encoding="utf8").read()
            assert s.count(old) == 1, (spec, f, s.count(old), old)
            open(p, "w", encoding="utf8").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", w + "/r", "diff"], capture_output=True, text=True, check=True).stdout
    finally:
        subprocess.run(["git", "-C", "/repo", "worktree", "remove", "--force", w + "/r"], check=True)
        shutil.rmtree(w, ignore_errors=True)
    out = os.path.join(ROOT, "seeded", d["ID"])
    os.makedirs(out, exist_ok=True)
    open(os.path.join(out, "patch.diff"), "w").write(diff)
    json.dump({"property": d["PROPERTY"], "needs": d["NEEDS"], "what_it_breaks": d["BREAKS"]},
              open(os.path.join(out, "meta.json"), "w"), indent=1)
    open(os.path.join(out, "demo.py"), "w").write(d["DEMO"].lstrip())
    shutil.copy(os.path.join(ROOT, "tools", "demo_lib.py"), os.path.join(out, "demo_lib.py"))
    sh = os.path.join(out, "demo.sh")
    open(sh, "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nPY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3\nexec "$PY" -B "$(dirname "$0")/demo.py"\n')
    os.chmod(sh, 0o755)
    print("wrote", out)
