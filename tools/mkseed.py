#!/usr/bin/env python3
"""Development helper: writes a planted bug (patch, demonstration, meta) and confirms it in a scratch copy.
usage: mkseed.py FILE   where FILE defines ID, PROP, EDITS=[(path,old,new)], NEEDS, BREAKS, DEMO (python text), FILES={name:text}"""
import sys, os, subprocess, shutil, json, tempfile
d = {}
exec(open(sys.argv[1]).read(), d)
out = "/verif/seeded/" + d["ID"]
w = tempfile.mkdtemp(prefix="seed")
try:
    r = w + "/repo"
    subprocess.run(["git", "clone", "-q", "/repo", r], check=True)
    for path, old, new in d["EDITS"]:
        p = r + "/src/" + path
        t = open(p, newline="").read()
        crlf = "\r\n" in t
        if crlf: old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        assert t.count(old) == 1, (path, t.count(old), old)
        # the replaced lines have to be original ones
        open(p, "w", newline="").write(t.replace(old, new))
    diff = subprocess.run(["git", "-C", r, "diff"], stdout=subprocess.PIPE, check=True).stdout
    base = "04ff336"
    for path in {e[0] for e in d["EDITS"]}:
        bl = subprocess.run(["git", "-C", r, "blame", "-s", "HEAD", "--", "src/" + path], stdout=subprocess.PIPE, text=True).stdout.splitlines()
        cur = None
        dd = subprocess.run(["git", "-C", r, "diff", "-U0", "--", "src/" + path], stdout=subprocess.PIPE, text=True, errors="replace").stdout
        import re
        for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", dd, re.M):
            a = int(m.group(1)); n = int(m.group(2) or 1)
            own = [l for l in bl[a - 1:a - 1 + n] if not l.startswith("^")]
            old_shas = set(subprocess.run(["git", "-C", r, "log", "--format=%h", base, "--", "src/" + path], stdout=subprocess.PIPE, text=True).stdout.split())
            own = [l for l in own if not any(l.split()[0].lstrip("^").startswith(s[:7]) for s in old_shas)]
            if own: print("NOTE lines of own commits changed:", *own, sep="\n   ")
    os.makedirs(out, exist_ok=True)
    open(out + "/patch.diff", "wb").write(diff)
    shutil.copy("/verif/tools/demo_lib.py", out + "/demo_lib.py")
    open(out + "/demo.py", "w").write("from demo_lib import *\n" + d["DEMO"].lstrip("\n"))
    for n, t in d.get("FILES", {}).items(): open(out + "/" + n, "w").write(t)
    open(out + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec timeout 290 python3 "$(dirname "$0")/demo.py"\n')
    os.chmod(out + "/demo.sh", 0o755)
    json.dump({"property": d["PROP"], "needs": d["NEEDS"], "what_it_breaks": d["BREAKS"]}, open(out + "/meta.json", "w"), indent=1)
    a = subprocess.run(["bash", out + "/demo.sh"], cwd="/repo", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    b = subprocess.run(["bash", out + "/demo.sh"], cwd=r, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    print(d["ID"], d["PROP"], "unchanged:", a.returncode, "patched:", b.returncode)
    if a.returncode: print(a.stdout[-1500:])
    if not b.returncode: print(b.stdout[-1500:])
    else: print("   ", b.stdout.strip().splitlines()[-1][:200] if b.stdout.strip() else "")
    if "--check" in sys.argv or True:
        e = dict(os.environ, VERIF_REPO=r, VERIF_BUILD=w + "/build")
        for prop in ([d["PROP"]] if "--nocheck" not in sys.argv else []):
            c = subprocess.run(["python3", "/verif/run.py", prop, "quick"], cwd="/verif", env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            print("   check", prop, "exit", c.returncode, [l for l in c.stdout.splitlines() if "VIOLATION" in l or "why" in l.lower() or "fail" in l.lower()][:3])
finally:
    shutil.rmtree(w, ignore_errors=True)
