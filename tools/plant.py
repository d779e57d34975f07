"""Plants bugs: python3 tools/plant.py SPEC.py [ID...]   (or --recheck [ID...] for existing ones)

A spec file calls bug(id, property, [(file, old, new)], needs, breaks, demo).
Each is applied to /repo, built, tested against the baseline, its demo run with
and without, the property's quick check run, and undone.  Kept only if valid.
"""
import json, os, pathlib, shutil, subprocess, sys, tempfile, time

V = pathlib.Path(__file__).resolve().parents[1]
R = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))   # may be a scratch copy
HERE = "PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 HYPOTHESIS_PROFILE=ci PYTHONPATH=%s" % R
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def undo():
    sh(f"git -C {R} checkout -- .")


def passed_tests():
    out = "/tmp/plant_out.json"
    if str(R) != "/repo":
        r = sh(f"cd {R} && {HERE} /opt/venv/bin/python -m pytest -q --no-cov -n 4 -p no:cacheprovider --timeout=300 | tail -8")
        return "422 passed" in r.stdout and "failed" not in r.stdout, r.stdout[-300:]
    sh(f"bash /opt/vp/test.sh {out}")
    d = json.load(open(out))
    ok = set(d.get("passed", []))
    return not (stable - ok), sorted(stable - ok)[:3]


def evaluate(d, test=True):
    """d: directory with patch.diff, demo.sh, meta.json"""
    meta = json.load(open(d / "meta.json"))
    demo = f"cd {R} && timeout 280 bash {d}/demo.sh"
    undo()
    r0 = sh(demo).returncode
    if sh(f"git -C {R} apply {d}/patch.diff").returncode:
        return "does not apply"
    try:
        if str(R) == "/repo" and sh("bash /opt/vp/build.sh").returncode:
            return "does not build"
        r1 = sh(demo)
        if r0 != 0 or r1.returncode == 0:
            return f"demo wrong: clean={r0} patched={r1.returncode} {r1.stderr[-300:]}"
        if test:
            ok, miss = passed_tests()
            if not ok:
                return f"tests notice: {miss}"
        if not (V / "checks" / (meta["property"] + ".py")).exists():
            return "valid; no check yet"
        t = time.time()
        c = sh(f"cd {V} && VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./run.py {meta['property']} quick")
        v = [x for x in c.stdout.splitlines() if x.startswith("VIOLATION property=" + meta["property"])]
        return f"valid; {'CAUGHT' if c.returncode == 1 and v else 'MISSED rc=%d' % c.returncode} {time.time()-t:.0f}s"
    finally:
        undo()


def bug(id, prop, edits, needs, breaks, demo):
    if only and id not in only:
        return
    d = pathlib.Path(tempfile.mkdtemp()) / id
    d.mkdir()
    undo()
    for f, old, new in edits:
        p = R / f
        s = p.read_text()
        if s.count(old) != 1:
            print(id, "BAD EDIT", f, s.count(old), repr(old[:60]))
            undo()
            return
        p.write_text(s.replace(old, new))
    (d / "patch.diff").write_text(sh(f"git -C {R} diff").stdout)
    undo()
    (d / "demo.sh").write_text('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\n'
                               'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    (d / "demo.py").write_text(demo.lstrip("\n"))
    (d / "meta.json").write_text(json.dumps({"property": prop, "needs": needs, "what_it_breaks": breaks}, indent=1) + "\n")
    res = evaluate(d)
    print(id, prop, res, flush=True)
    if res.startswith("valid"):
        shutil.rmtree(V / "seeded" / id, ignore_errors=True)
        shutil.copytree(d, V / "seeded" / id)
    shutil.rmtree(d.parent)


if sys.argv[1] == "--recheck":
    for d in sorted((V / "seeded").iterdir()):
        if len(sys.argv) == 2 or d.name in sys.argv[2:]:
            print(d.name, json.load(open(d / "meta.json"))["property"], evaluate(d, test=False), flush=True)
else:
    only = set(sys.argv[2:])
    exec(open(sys.argv[1]).read())
