#!/usr/bin/env python3
"""Developer tool: apply one textual change to a scratch copy of /repo and run checks on it.
usage: mut.py CHECK[,CHECK] FILE OLD NEW   (or: mut.py CHECKS patch.diff)"""
import os, subprocess, sys, shutil
S = os.environ.get("MUT_DIR", "/tmp/scratch/mut")
R = S + "/repo"


def main():
    os.makedirs(S, exist_ok=True)
    subprocess.run(["rsync", "-a", "--delete", "--exclude", "target", "--exclude", ".git", "/repo/", R + "/"], check=True) if shutil.which("rsync") else \
        (shutil.rmtree(R, ignore_errors=True), shutil.copytree("/repo", R, ignore=shutil.ignore_patterns("target", ".git", "res")))
    if len(sys.argv) == 3:
        subprocess.run(["patch", "-p1", "-s", "-i", os.path.abspath(sys.argv[2])], cwd=R, check=True)
    else:
        f, old, new = sys.argv[2:5]
        p = os.path.join(R, f)
        s = open(p).read()
        if s.count(old) < 1:
            sys.exit("pattern not found")
        k = int(sys.argv[5]) if len(sys.argv) > 5 else 0
        parts = s.split(old)
        s = old.join(parts[:k + 1]) + new + old.join(parts[k + 1:])
        open(p, "w").write(s)
    env = dict(os.environ, VERIF_REPO=R, VERIF_BUILD=S + "/build", VERIF_EVID=S + "/evidence")
    checks = sys.argv[1].split(",")
    if checks == ["all"]:
        checks = sorted(x[:-3].upper() for x in os.listdir("/verif/checks") if x.startswith("c") and x.endswith(".py"))
    for c in checks:
        r = subprocess.run(["/verif/check", c], env=env, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        ls = r.stdout.splitlines()
        vs = [l for l in ls if l.startswith("  ") and not l.startswith("  undecided")]
        print("%s rc=%d %d violations; %s" % (c, r.returncode, len(vs), "; ".join(l[2:90] for l in vs[:3]) or " ".join(ls[-3:])[:300]))
        for l in ls:
            if l.startswith("  undecided") and len(checks) == 1:
                print(l[:200])


main()
