"""Make and confirm a planted bug.

mkseed.py SPEC.py   where SPEC.py defines id, prop, edits=[(file, old, new)], needs, breaks, demo (python text), stubs
"""
import json, os, shutil, subprocess, sys, tempfile

ROOT = "/verif"
spec = {"stubs": False}
exec(open(sys.argv[1]).read(), spec)
d = os.path.join(ROOT, "seeded", spec["id"])
os.makedirs(d, exist_ok=True)
w = tempfile.mkdtemp(prefix="seed-")
r = os.path.join(w, "repo")
try:
    subprocess.check_call(["cp", "-a", "/repo", r])
    for f, old, new in spec["edits"]:
        p = os.path.join(r, f)
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "-C", r, "diff"], text=True)
    assert diff
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    pre = ""
    if spec["stubs"]:
        dst = os.path.join(d, "stubs")
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(os.path.join(ROOT, "lib", "stubs"), dst, ignore=shutil.ignore_patterns("__pycache__"))
    open(os.path.join(d, "demo.py"), "w").write(spec["demo"].lstrip())
    path = '"$here/stubs:$PWD"' if spec["stubs"] else '"$PWD"'
    open(os.path.join(d, "demo.sh"), "w").write(
        '#!/bin/bash\nhere="$(cd "$(dirname "$0")" && pwd)"\nexport PYTHONPATH=%s PYTHONDONTWRITEBYTECODE=1\n'
        'exec /opt/venv/bin/python -W ignore "$here/demo.py"\n' % path)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": spec["prop"], "needs": spec["needs"], "what_it_breaks": spec["breaks"],
               "caught": spec.get("caught", "")}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    a = subprocess.run([os.path.join(d, "demo.sh")], cwd="/repo", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    b = subprocess.run([os.path.join(d, "demo.sh")], cwd=r, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    print("demo clean", a.returncode, "patched", b.returncode)
    if a.returncode:
        print(a.stdout[-1500:])
    print(b.stdout[-600:])
    T = ("test_source_code test_api ensemble_copula_coupling/test__scipy_continuous_distns nbhood/test_init "
         "spotdata/test_utilities synthetic_data/test_utilities utilities/test_cli_utilities utilities/test_compare "
         "utilities/test_neighbourhood_tools utilities/test_round").split()
    t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--import-mode=importlib"]
                       + ["improver_tests/%s.py" % k for k in T], cwd=r, env=dict(os.environ, PYTHONPATH=r),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    print(t.stdout[-300:])
    env = dict(os.environ, VERIF_REPO=r, VERIF_EVIDENCE=os.path.join(w, "ev"))
    for seed in ("1", "2"):
        c = subprocess.run([os.path.join(ROOT, "check"), spec["prop"], "--seed", seed], env=env, cwd=ROOT,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print("check seed", seed, "exit", c.returncode, c.stdout[:700])
finally:
    shutil.rmtree(w)
