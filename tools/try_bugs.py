"""Run the check of every planted bug of /verif/seeded against a scratch copy with the bug (development tool).

    tools/try_bugs.py [-j 3] [ids...]
"""
import argparse
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(bug):
    d = os.path.join(ROOT, "seeded", bug)
    pid = json.load(open(os.path.join(d, "meta.json"), encoding="utf8"))["property"]
    work = tempfile.mkdtemp(prefix="bug-")
    try:
        repo = os.path.join(work, "repo")
        shutil.copytree("/repo", repo, ignore=shutil.ignore_patterns(".git", "__pycache__"))
        subprocess.run(["git", "init", "-q"], cwd=repo, check=True)
        subprocess.run(["git", "apply", os.path.join(d, "patch.diff")], cwd=repo, check=True)
        env = dict(os.environ, VERIF_REPO=repo, VERIF_SEED="1", VERIF_TIER="quick")
        p = subprocess.run(["./check", pid], cwd=ROOT, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        ok = p.returncode == 1 and f"VIOLATION property={pid}" in p.stdout
        return bug, pid, "caught" if ok else f"MISSED rc {p.returncode} {p.stdout[-200:]!r}"
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("-j", type=int, default=3)
    ap.add_argument("ids", nargs="*")
    args = ap.parse_args()
    ids = args.ids or sorted(os.listdir(os.path.join(ROOT, "seeded")))
    with cf.ThreadPoolExecutor(args.j) as ex:
        for r in ex.map(one, ids):
            print(*r, flush=True)


if __name__ == "__main__":
    main()
