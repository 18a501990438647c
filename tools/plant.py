"""Confirms planted bugs in scratch copies: plant.py ID... (all when none given).

For each seeded/ID: the patch applies to /repo's HEAD, removes only lines of the original repository,
builds, passes the stable tests, and demo.sh passes without it and fails with it.
--check also runs the property's check against the bug (in a mount namespace where the copy is /repo).
"""
import json, os, re, subprocess, sys, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "d6b527d"


def sh(cmd, cwd=None, timeout=1200):
    p = subprocess.run(["bash", "-c", cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode("utf-8", "replace")


def ns(copy, cmd, cwd="/repo"):
    return f"unshare -Urm bash -c 'mount --bind {copy} /repo && cd {cwd} && {cmd}'"


def one(id, check, tests=True):
    d = os.path.join(V, "seeded", id)
    out = []
    meta = json.load(open(os.path.join(d, "meta.json")))
    w = tempfile.mkdtemp(prefix="plant-")
    copy = os.path.join(w, "repo")
    try:
        sh(f"cp -a /repo {copy}")
        demo = os.path.join(w, "demo")
        shutil.copytree(d, demo, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        if tests:
            rc, o = sh(ns(copy, f"bash {demo}/demo.sh"))
            out.append(f"demo clean rc={rc}" + ("" if rc == 0 else " BAD\n" + o[-800:]))
        patch = open(os.path.join(d, "patch.diff"), newline="").read()
        removed, f, ln = [], None, 0
        for line in patch.split("\n"):
            if line.startswith("--- a/"):
                f = line[6:].strip()
            elif line.startswith("@@"):
                ln = int(re.match(r"@@ -(\d+)", line).group(1))
            elif line.startswith("-") and not line.startswith("---"):
                removed.append((f, ln)); ln += 1
            elif line.startswith(" "):
                ln += 1
        bad = []
        for f, ln in removed:
            rc, o = sh(f"git blame -s -L{ln},{ln} HEAD -- {f}", cwd="/repo")
            if not o.lstrip("^").startswith(BASE[:6]):
                bad.append(o.strip())
        if bad or not removed:
            out.append(f"NOT ORIGINAL: {bad}")
        rc, o = sh(f"git apply {d}/patch.diff", cwd=copy)
        if rc:
            return id, ["DOES NOT APPLY " + o]
        if tests:
            rc, o = sh(ns(copy, "bash /opt/vp/build.sh"))
            out.append(f"build rc={rc}" + ("" if rc == 0 else " BAD " + o[-500:]))
            rc, o = sh(ns(copy, f"bash /opt/vp/test.sh {w}/out.json"))
            def names(x):
                for k in ("stable", "passed", "tests", "pass"):
                    if isinstance(x, dict) and k in x:
                        v = x[k]
                        return set(v) if not isinstance(v, dict) else {n for n, y in v.items() if y in ("passed", "pass", True)}
                return set(x)
            miss = names(json.load(open("/opt/vp/BASELINE.json"))) - names(json.load(open(f"{w}/out.json")))
            out.append(f"tests missing={len(miss)}" + ("" if not miss else " BAD " + str(sorted(miss)[:4])))
            rc, o = sh(ns(copy, f"bash {demo}/demo.sh"))
            out.append(f"demo bug rc={rc}" + ("" if rc else " BAD " + o[-800:]))
        if check:
            for p in (check if isinstance(check, list) else [meta["property"]]):
                rc, o = sh(ns(copy, f"VERIF_NO_EVIDENCE=1 python3 check.py {p} --tier quick --seed 1", cwd=V))
                v = [l[:160] for l in o.split("\n") if l.startswith(("---", "INCONCL"))]
                out.append(f"check {p} rc={rc} {v[:3]}")
        return id, out
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == "__main__":
    a = sys.argv[1:]
    check = "--check" in a
    tests = "--notests" not in a
    props = [x for x in a if re.fullmatch(r"C\d\d", x)]
    ids = [x for x in a if not x.startswith("--") and x not in props] or sorted(os.listdir(os.path.join(V, "seeded")))
    with ThreadPoolExecutor(1 if check else 5) as ex:
        for id, out in ex.map(lambda i: one(i, (props or True) if check else False, tests), ids):
            print(id, *out, sep="\n   ", flush=True)
