"""mkseed(id, prop, needs, breaks, [(file, old, new)...], demo): write /verif/seeded/<id>/"""
import json, os, shutil, subprocess, tempfile

HEAD = """import os, sys
sys.path.insert(0, os.getcwd())
import logging
logging.disable(logging.CRITICAL)
import faulthandler
faulthandler.dump_traceback_later(120, exit=True)
"""
SH = """#!/bin/bash
export HOME=${HOME:-/root} LANG=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
"""


def mkseed(sid, prop, needs, breaks, edits, demo):
    d = "/verif/seeded/" + sid
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix="mkseed.")
    subprocess.check_call(["git", "-C", "/repo", "worktree", "prune"])
    subprocess.check_call("git -C /repo archive HEAD | tar x -C " + t, shell=True)
    subprocess.check_call("git init -q && git add -A && git -c user.name=t -c user.email=t@t commit -qm x", shell=True, cwd=t)
    for f, old, new in edits:
        p = os.path.join(t, f)
        s = open(p).read()
        assert s.count(old) == 1, (sid, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "diff"], cwd=t).decode()
    assert diff
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.py", "w").write(HEAD + demo)
    open(d + "/demo.sh", "w").write(SH)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    shutil.rmtree(t)
