#!/usr/bin/env python3
"""Applies the behaviour-preserving edits of tools/refactors/*.py one at a time to
scratch copies of the repository and runs the checks on each: all of them have to stay
quiet.

    refac.py [--only id,id] [--checks T01,T02] [--workers 4] [--test] FILE...
"""
import argparse, concurrent.futures, glob, json, os, queue, runpy, shutil, subprocess

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument("files", nargs="*")
ap.add_argument("--only", default="")
ap.add_argument("--checks", default="")
ap.add_argument("--workers", type=int, default=4)
ap.add_argument("--jobs", type=int, default=2)
ap.add_argument("--test", action="store_true", help="also run the unit tests")
a = ap.parse_args()
files = a.files or sorted(glob.glob(os.path.join(ROOT, "tools/refactors/*.py")))
man = json.load(open(os.path.join(ROOT, "MANIFEST.json")))
checks = [c for c in man["checks"] if (c['property'] in a.checks.split(',') if a.checks else c['property'] != 'M01')]
work = "/tmp/refac"
shutil.rmtree(work, ignore_errors=True)
os.makedirs(work)
todo = [r for f in files for r in runpy.run_path(f)["R"] if not a.only or r[0] in a.only.split(",")]
free = queue.Queue()
for k in range(min(a.workers, len(todo))):
    subprocess.run(["git", "clone", "-q", "/repo", f"{work}/{k}/repo"], check=True)
    free.put(k)


def one(r):
    i, path, subs = r
    k = free.get()
    try:
        d = f"{work}/{k}"
        repo = d + "/repo"
        subprocess.run(["git", "-C", repo, "checkout", "-q", "."], check=True)
        p = os.path.join(repo, path)
        s = open(p).read()
        for old, new in subs:
            if s.count(old) < 1:
                print(i, "DOES NOT APPLY", old[:60], flush=True)
                return 1
            s = s.replace(old, new, 1)
        open(p, "w").write(s)
        os.makedirs(d + "/ev", exist_ok=True)
        env = dict(os.environ, VERIF_REPO=repo, VERIF_CACHE=d + "/cache", VERIF_EVIDENCE=d + "/ev", VERIF_SEED="1", VERIF_TIER="quick")
        if a.test:
            t = subprocess.run("cargo test --offline --lib 2>&1 | tail -40", shell=True, cwd=repo, capture_output=True, text=True)
            if "test result: ok" not in t.stdout:
                print(i, "TESTS", t.stdout[-800:])
        def run(c):
            q = subprocess.run(["bash", "-c", c["quick_cmd"]], cwd=ROOT, env=env, capture_output=True, text=True)
            return c["property"], q.returncode, q.stdout + q.stderr
        out = [run(checks[0])]
        with concurrent.futures.ThreadPoolExecutor(a.jobs) as ex:
            out += list(ex.map(run, checks[1:]))
        al = [(p, rc, o) for p, rc, o in out if rc]
        m = [i + " " + ("quiet" if not al else "ALARM " + ",".join(p for p, _, _ in al))]
        for p, rc, o in al:
            m += [f"      {p} {rc} {l[:260]}" for l in [l for l in o.splitlines() if l.strip()][-4:]]
        print("\n".join(m), flush=True)
        return len(al)
    finally:
        free.put(k)


with concurrent.futures.ThreadPoolExecutor(max(1, min(a.workers, len(todo)))) as ex:
    bad = sum(ex.map(one, todo))
print("done,", bad, "problem(s)")
shutil.rmtree(work, ignore_errors=True)
