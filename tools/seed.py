#!/usr/bin/env python3
"""Developer tool: make (and validate) a planted change.
usage: seed.py ID PROPERTY SPEC   where SPEC is a python file defining EDITS=[(file, old, new[, nth])], NEEDS, BREAKS, MAIN (rust source)"""
import json, os, shutil, subprocess, sys
V = "/verif"
S = "/tmp/scratch/seed"


def sh(*a, **k):
    return subprocess.run(a, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def main():
    sid, prop, spec = sys.argv[1:4]
    g = {}
    exec(open(spec).read(), g)
    d = os.path.join(V, "seeded", sid)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    wt = S + "/wt-" + sid
    os.makedirs(S, exist_ok=True)
    sh("git", "-C", "/repo", "worktree", "prune")
    shutil.rmtree(wt, ignore_errors=True)
    r = sh("git", "clone", "-q", "/repo", wt)
    assert r.returncode == 0, r.stdout
    try:
        for e in g["EDITS"]:
            f, old, new = e[:3]
            nth = e[3] if len(e) > 3 else 0
            p = os.path.join(wt, f)
            s = open(p).read()
            assert s.count(old) > nth, "pattern missing in %s" % f
            if len(e) == 3:
                assert s.count(old) == 1, "pattern ambiguous (%d) in %s" % (s.count(old), f)
            parts = s.split(old)
            open(p, "w").write(old.join(parts[:nth + 1]) + new + old.join(parts[nth + 1:]))
        diff = subprocess.run(["git", "-C", wt, "diff"], stdout=subprocess.PIPE, text=True).stdout
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/main.rs", "w").write(g["MAIN"])
        shutil.copy(V + "/tools/demo/Cargo.lock", d + "/Cargo.lock.txt")
        shutil.copy(V + "/tools/demo/demo.sh", d + "/demo.sh")
        os.chmod(d + "/demo.sh", 0o755)
        json.dump(dict(property=prop, needs=g["NEEDS"], what_it_breaks=g["BREAKS"]), open(d + "/meta.json", "w"), indent=1)
        env = dict(os.environ)
        a = sh(d + "/demo.sh", cwd="/repo")
        b = sh(d + "/demo.sh", cwd=wt)
        print("%s: demo on the unchanged tree rc=%d, with the patch rc=%d" % (sid, a.returncode, b.returncode))
        if a.returncode != 0:
            print(a.stdout[-1500:])
        if b.returncode == 0 or "error[" in b.stdout:
            print(b.stdout[-1500:])
        else:
            print("   ", b.stdout.strip().splitlines()[-3:])
    finally:
        shutil.rmtree(wt, ignore_errors=True)


main()
