"""
python tools/mkseed.py FILE.py   - FILE defines SEEDS: list of dicts(id, property, file, edits=[(old,new)], needs, breaks, demo)
Writes seeded/<id>/ and confirms in a scratch copy that the demo passes without and fails with the patch.
"""
import json, os, pathlib, runpy, shutil, subprocess, sys, tempfile
V = pathlib.Path(__file__).resolve().parent.parent
ns = runpy.run_path(sys.argv[1])
REPO = os.environ.get("REPO", "/repo")
only = sys.argv[2:]
for s in ns["SEEDS"]:
    if only and s["id"] not in only:
        continue
    d = V / "seeded" / s["id"]
    d.mkdir(parents=True, exist_ok=True)
    w = pathlib.Path(tempfile.mkdtemp(prefix="dvseed"))
    try:
        subprocess.run(["git", "-C", REPO, "worktree", "add", "-q", "--detach", str(w / "r"), "HEAD"], check=True)
        r = w / "r"
        (d / "demo.py").write_text(s["demo"].lstrip("\n"))
        (d / "demo.sh").write_text('#!/bin/bash\n# exit 0: behaves as specified; nonzero: broken\nd="$(cd "$(dirname "$0")" && pwd)"\nPYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python -W ignore "$d/demo.py"\n')
        os.chmod(d / "demo.sh", 0o755)
        (d / "meta.json").write_text(json.dumps({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, indent=1) + "\n")
        a = subprocess.run([str(d / "demo.sh")], cwd=r, capture_output=True, text=True)
        for f, old, new in s["edits"]:
            p = r / f
            t = p.read_text()
            assert t.count(old) == 1, (s["id"], f, t.count(old))
            p.write_text(t.replace(old, new))
        diff = subprocess.run(["git", "-C", str(r), "diff"], capture_output=True, text=True).stdout
        (d / "patch.diff").write_text(diff)
        b = subprocess.run([str(d / "demo.sh")], cwd=r, capture_output=True, text=True)
        print(s["id"], "ok" if a.returncode == 0 and b.returncode != 0 else "BAD", a.returncode, b.returncode, a.stderr[-800:] if a.returncode else "", b.stderr.strip().splitlines()[-1:] if b.returncode else "", flush=True)
        if os.environ.get("TESTS"):
            x = w / "junit.xml"
            subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-n", "8", "--timeout=300", "test", "-p", "no:cacheprovider", "--tb=no",
                            "-o", "junit_family=xunit2", f"--junitxml={x}", f"--basetemp={w / 'pt'}"], cwd=r, capture_output=True, text=True,
                           env={**os.environ, "PYTHONPATH": str(r), "OMP_NUM_THREADS": "1", "MPLBACKEND": "Agg"})
            subprocess.run(["python3", "/opt/vp/results.py", str(w / "o.json"), f"junit:{x}"], capture_output=True)
            o = json.loads((w / "o.json").read_text())
            base = json.loads(open("/opt/vp/BASELINE.json").read())["stable"]
            miss = [t for t in base if t not in set(o["passed"])]
            print("   stable tests lost:", len(miss), miss[:4], flush=True)
    finally:
        subprocess.run(["git", "-C", REPO, "worktree", "remove", "--force", str(w / "r")])
        shutil.rmtree(w, ignore_errors=True)
