#!/usr/bin/env python3
"""Entry point of every check:  check.py <PROPERTY-ID> [--tier quick|thorough] [--seed N] [--replay FILE]

Re-executes itself under the interpreter the repository is installed in, with a private scratch
directory for everything edulint stores, then runs checks/<id>.py.
"""
import os
import shutil
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"


def main() -> int:
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    a = ap.parse_args()

    if os.environ.get("VERIF_INNER") != "1":
        import subprocess

        scratch = tempfile.mkdtemp(prefix=f"verif-{a.prop}-")
        env = dict(os.environ)
        env.update(
            VERIF_INNER="1",
            VERIF_SCRATCH=scratch,
            PYTHONHASHSEED="0",
            PYTHONDONTWRITEBYTECODE="1",
            PYTHONIOENCODING="utf-8",
            PYTHONPATH="/repo" + os.pathsep + HERE,
            XDG_DATA_HOME=os.path.join(scratch, "xdg-data"),
            XDG_CACHE_HOME=os.path.join(scratch, "xdg-cache"),
            XDG_CONFIG_HOME=os.path.join(scratch, "xdg-config"),
            HOME=os.path.join(scratch, "home"),
            LC_ALL="C.UTF-8",
            TMPDIR=scratch,
        )
        for d in ("xdg-data", "xdg-cache", "xdg-config", "home"):
            os.makedirs(os.path.join(scratch, d), exist_ok=True)
        for k in ("PYLINTRC", "PYLINTHOME", "http_proxy", "https_proxy", "HTTP_PROXY", "HTTPS_PROXY"):
            env.pop(k, None)
        cmd = [PY, "-B", os.path.join(HERE, "check.py"), a.prop, "--tier", a.tier, "--seed", str(a.seed)]
        if a.replay:
            cmd += ["--replay", os.path.abspath(a.replay)]
        try:
            return subprocess.run(cmd, env=env, cwd=scratch).returncode
        finally:
            shutil.rmtree(scratch, ignore_errors=True)

    sys.path.insert(0, HERE)
    sys.path.insert(0, "/repo")
    from vlib import core

    return core.run(a.prop, a.tier, a.seed, a.replay)


if __name__ == "__main__":
    sys.exit(main())
