"""dev tool: verify planted bugs.  plant.py FILE.py defines BUGS = [dict(id, property, file, edits=[(old, new)], demo, needs, breaks)]
or plant.py --recheck ID... : re-verify /verif/seeded/ID (tests, demo, check) against the current /repo."""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = ROOT + "/seeded"
BASE = "b72a1fb"


def sh(cmd, cwd, env=None, timeout=1200):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", **(env or {}))
    try:
        r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")
    except subprocess.TimeoutExpired as x:
        return 99, "timeout"
    return r.returncode, r.stdout


def scratch():
    d = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    subprocess.check_call(["git", "clone", "-q", os.environ.get("PLANT_REPO", "/repo"), d + "/repo"])
    return d


def tests(repo):
    env = dict(PATH="/opt/venv/bin:/usr/local/bin:/usr/bin:/bin", LC_ALL="C.UTF-8", TZ="UTC", PYTHONHASHSEED="0", PYTHONPATH=repo + ":/opt/vp/support",
               PYTEST_DISABLE_PLUGIN_AUTOLOAD="1", SLOW_TESTS="1")
    rc, out = sh(["/opt/venv/bin/python", "-bb", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "pytest_timeout", "-p", "vp_hachoir", "--timeout=300",
                  "--continue-on-collection-errors", "-W", "error", "-W", "ignore::pytest.PytestCollectionWarning", "--junitxml=" + repo + "/../j.xml", "tests"], repo, env)
    with open(repo + "/../t.log", "w") as fp:
        fp.write(out)
    subprocess.run(["/usr/bin/python3", "/opt/vp/results.py", repo + "/../o.json", "junit:" + repo + "/../j.xml"], stdout=subprocess.DEVNULL)
    base = set(json.load(open("/opt/vp/BASELINE.json")).get("passed") or json.load(open("/opt/vp/BASELINE.json")).get("stable") or json.load(open("/opt/vp/BASELINE.json"))["tests"])
    got = set(json.load(open(repo + "/../o.json"))["passed"])
    return sorted(base - got)


def original_lines(patch):
    """Lines removed by the patch which come from the base commit / from our commits."""
    orig = ours = 0
    f = None
    for line in patch.splitlines():
        if line.startswith("--- a/"):
            f = line[6:]
            blame = subprocess.run(["git", "blame", "-s", "-l", "HEAD", "--", f], cwd=os.environ.get("PLANT_REPO", "/repo"), stdout=subprocess.PIPE, text=True).stdout.splitlines()
        elif line.startswith("@@"):
            n = int(re.match(r"@@ -(\d+)", line).group(1))
        elif line.startswith("-") and not line.startswith("---"):
            if blame[n - 1].lstrip("^").startswith(BASE):
                orig += 1
            else:
                ours += 1
            n += 1
        elif line.startswith(" "):
            n += 1
    return orig, ours


def verify(bug, recheck=False):
    d = scratch()
    repo = d + "/repo"
    res = {"id": bug["id"]}
    try:
        folder = os.path.join(SEED, bug["id"]) if recheck else d + "/seed"
        if not recheck:
            os.makedirs(folder)
            for f, old, new in bug["edits"]:
                s = open(os.path.join(repo, f)).read()
                if s.count(old) != 1:
                    return dict(res, error="%s: old text found %d times" % (f, s.count(old)))
                open(os.path.join(repo, f), "w").write(s.replace(old, new))
            patch = subprocess.run(["git", "diff"], cwd=repo, stdout=subprocess.PIPE, text=True).stdout
            open(folder + "/patch.diff", "w").write(patch)
            open(folder + "/demo.py", "w").write(bug["demo"].lstrip("\n"))
            open(folder + "/demo.sh", "w").write('#!/bin/bash\n# exit 0 when the code behaves, 1 with the planted bug; run in the source tree\nexport PYTHONDONTWRITEBYTECODE=1\nPYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
            os.chmod(folder + "/demo.sh", 0o755)
            json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]}, open(folder + "/meta.json", "w"), indent=1)
            subprocess.check_call(["git", "checkout", "-q", "--", "."], cwd=repo)
        patch = open(folder + "/patch.diff").read()
        res["orig"], res["ours"] = original_lines(patch)
        rc0, out0 = sh(["bash", folder + "/demo.sh"], repo, timeout=300)
        rc, out = sh(["git", "apply", folder + "/patch.diff"], repo)
        if rc:
            return dict(res, error="does not apply: " + out)
        rc1, out1 = sh(["bash", folder + "/demo.sh"], repo, timeout=300)
        res["demo"] = (rc0, rc1)
        if rc0:
            res["demo_out"] = out0[-600:]
        elif not rc1:
            res["demo_out"] = out1[-600:]
        else:
            res["demo_says"] = out1.strip().splitlines()[-1:] 
        res["missing"] = tests(repo)
        # a private copy of /verif: evidence and replays are not mixed
        sh(["cp", "-a", ROOT, d + "/verif"], d)
        prop = bug["property"]
        rc, out = sh(["./run", prop], d + "/verif", {"HACHOIR_REPO": repo, "VERIF_JOBS": "4", "VERIF_TIER": "quick", "VERIF_SEED": "1"})
        res["caught"] = rc == 1 and ("VIOLATION property=%s " % prop) in out
        res["check"] = (rc, [l for l in out.splitlines() if l.strip()][1:2] if rc == 1 else out[-300:])
        res["counts"] = rc0 == 0 and rc1 != 0 and not res["missing"] and res["orig"] > 0
        if not recheck and res["counts"]:
            dst = os.path.join(SEED, bug["id"])
            shutil.rmtree(dst, ignore_errors=True)
            shutil.copytree(folder, dst)
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    if sys.argv[1] == "--recheck":
        ids = sys.argv[2:] or sorted(os.listdir(SEED))
        bugs = [dict(json.load(open("%s/%s/meta.json" % (SEED, i))), id=i) for i in ids]
        re_ = True
    else:
        ns = {}
        exec(open(sys.argv[1]).read(), ns)
        bugs = [b for b in ns["BUGS"] if not sys.argv[2:] or b["id"] in sys.argv[2:]]
        re_ = False
    with ThreadPoolExecutor(3) as ex:
        for r in ex.map(lambda b: verify(b, re_), bugs):
            print("%-10s counts=%s caught=%s %s" % (r["id"], r.get("counts"), r.get("caught"), {k: v for k, v in r.items() if k not in ("id", "counts", "caught")}), flush=True)


main()
