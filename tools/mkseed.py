#!/usr/bin/env python3
"""Makes and confirms planted bugs: mkseed.py SPEC.py [id ...]
SPEC.py holds SEEDS = [dict(id, property, needs, breaks, edits=[(file, old, new)], pkg, test, race=False)]."""
import importlib.util, json, os, shutil, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = "/tmp/seedscratch"

def sh(cmd, cwd, timeout=400):
    r = subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), capture_output=True, text=True, timeout=timeout)
    return r.returncode, r.stdout + r.stderr

def main():
    spec = importlib.util.spec_from_file_location("spec", sys.argv[1])
    m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    want = set(sys.argv[2:])
    repo = SCR + "/repo"
    if not os.path.exists(repo):
        os.makedirs(SCR, exist_ok=True)
        subprocess.check_call(["cp", "-a", "/repo", repo])
    sh("git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD && git clean -fdq", repo)
    for s in m.SEEDS:
        if want and s["id"] not in want: continue
        sh("git checkout -q -- .", repo)
        d = f"{VERIF}/seeded/{s['id']}"
        tmp = SCR + "/" + s["id"]
        shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp + "/lib")
        for x in ("collections", "project"):
            shutil.copytree(f"{VERIF}/stubs/{x}", f"{tmp}/lib/{x}")
        shutil.copy(f"{VERIF}/stubs/extra.sum", tmp + "/lib/extra.sum")
        for x in ("zzlint", "zzmem"):
            shutil.copytree(f"{VERIF}/tools/seedlib/{x}", f"{tmp}/lib/{x}")
        t = open(f"{VERIF}/tools/seedlib/demo.sh").read().replace("@PKG@", s["pkg"]).replace("@RACE@", "-race" if s.get("race") else "").replace("@CGO@", "1" if s.get("race") else "0")
        open(tmp + "/demo.sh", "w").write(t); os.chmod(tmp + "/demo.sh", 0o755)
        open(tmp + "/demo_test.go", "w").write(s["test"].lstrip())
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(tmp + "/meta.json", "w"), indent=1)
        c0, o0 = sh(["bash", tmp + "/demo.sh"], repo)
        if c0 != 0:
            print(s["id"], "REJECT: demo fails on the unchanged tree\n" + o0[-3000:]); continue
        bad = False
        for f, old, new in s["edits"]:
            p = repo + "/" + f
            b = open(p).read()
            if b.count(old) != 1:
                print(s["id"], "REJECT: text occurs", b.count(old), "times in", f, "\n", old); bad = True; break
            open(p, "w").write(b.replace(old, new))
        if bad: continue
        _, diff = sh("git diff", repo)
        open(tmp + "/patch.diff", "w").write(diff)
        c2, o2 = sh("gofmt -e $(git diff --name-only) >/dev/null", repo)
        c1, o1 = sh(["bash", tmp + "/demo.sh"], repo)
        if c2 != 0 or c1 == 0 or "FAIL" not in o1 or "build failed" in o1 or "setup failed" in o1:
            print(s["id"], "REJECT: demo passes or does not build with the change\n" + o2 + o1[-3000:]); continue
        shutil.rmtree(d, ignore_errors=True); shutil.copytree(tmp, d); shutil.rmtree(tmp)
        tail = [l for l in o1.splitlines() if l.strip()][:3]
        print(s["id"], "OK:", " | ".join(tail)[:300])
    sh("git checkout -q -- .", repo)
main()
