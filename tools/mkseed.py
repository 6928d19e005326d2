"""Create and confirm a planted bug: patch.diff, demo.sh, demo.cpp, meta.json (development tool)."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
DEMO = '''#!/bin/bash
# exit 0 when the behaviour holds, nonzero when it does not; run with cwd /repo
here="$(cd "$(dirname "$0")" && pwd)"
work="$(mktemp -d)" || exit 99
g++ -std=c++17 -O1 %s-include string -include utility -I"$here" -Isrc -o "$work/demo" "$here/demo.cpp" %s || exit 98
cd "$work" && timeout 60 ./demo
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def seed(sid, prop, edits, demo, srcs, needs, breaks, flags="", dt=False, extra={}):
    d = os.path.join(V, "seeded", sid)
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(dir="/tmp", prefix="seed")
    r = w + "/repo"
    sh("cp -a %s %s" % (REPO, r))
    for f, a, b in edits:
        p = r + "/" + f
        t = open(p).read()
        assert t.count(a) == 1, (sid, f, t.count(a), a)
        open(p, "w").write(t.replace(a, b))
    diff = sh("git -C %s diff" % r).stdout
    assert diff.strip(), sid
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.cpp", "w").write(demo)
    open(d + "/demo.sh", "w").write(DEMO % (flags + " " if flags else "", " ".join("src/" + s for s in srcs.split())))
    os.chmod(d + "/demo.sh", 0o755)
    if dt and not os.path.isdir(d + "/ggdatetime"):
        shutil.copytree(V + "/tools/ggdt/ggdatetime", d + "/ggdatetime")
    for n, c in extra.items():
        open(d + "/" + n, "w").write(c)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    a = sh("bash %s/demo.sh" % d, cwd=REPO)
    b = sh("bash %s/demo.sh" % d, cwd=r)
    good = a.returncode == 0 and b.returncode not in (0, 98, 99)
    env = dict(os.environ, GGSA_REPO=r)
    c = sh("python3 checks/run.py %s" % prop, cwd=V, env=env)
    print("%-34s %-4s demo %d/%d %s   check %d  %s" % (sid, prop, a.returncode, b.returncode, "ok" if good else "BAD", c.returncode,
          "" if good else (a.stderr + a.stdout + b.stderr)[-300:]))
    if c.returncode != 1:
        print("     " + (c.stdout + c.stderr)[-300:].replace("\n", "\n     "))
    shutil.rmtree(w)
    return good
