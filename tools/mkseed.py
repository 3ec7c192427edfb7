"""seed(id, property, edits, demo, needs, breaks): writes /verif/seeded/<id> (edits: (file, old, new))."""
import json
import os
import shutil
import subprocess
import tempfile

LIB = os.path.join(os.path.dirname(os.path.abspath(__file__)), "seedlib", "demo_lib.py")


def seed(id, prop, edits, demo, needs, breaks, lib=True):
    d = f"/verif/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp()
    try:
        subprocess.run(f"git -C /repo archive HEAD | tar x -C {t} && cd {t} && git init -q && git add -A && "
                       "git -c user.name=x -c user.email=x commit -qm x", shell=True, check=True)
        for f, old, new in edits:
            p = os.path.join(t, "src/megatron/energon", f)
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", t, "diff"], capture_output=True, text=True, check=True).stdout
    finally:
        shutil.rmtree(t)
    open(f"{d}/patch.diff", "w").write(diff)
    open(f"{d}/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\n'
                                    'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(f"{d}/demo.sh", 0o755)
    if lib:
        shutil.copy(LIB, f"{d}/demo_lib.py")
        demo = "from demo_lib import *\n" + demo
    open(f"{d}/demo.py", "w").write(demo)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(f"{d}/meta.json", "w"), indent=1)
