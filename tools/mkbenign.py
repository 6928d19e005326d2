"""Record a behaviour-preserving edit as tools/benign/<name>.diff (development tool)."""
import os, re, shutil, subprocess, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def benign(name, edits, checks=""):
    w = tempfile.mkdtemp(dir="/tmp", prefix="mkb")
    subprocess.run("cp -a /repo %s/repo" % w, shell=True, check=True)
    for f, a, b in edits:
        p = w + "/repo/src/" + f
        # comment lines go as well: one more thing that must not matter
        t = re.sub(r"(?m)^[ ]*//.*\n", "", open(p).read())
        assert t.count(a) == 1, (name, f, t.count(a), a)
        open(p, "w").write(t.replace(a, b))
    d = subprocess.run("git -C %s/repo diff" % w, shell=True, capture_output=True, text=True).stdout
    open(V + "/tools/benign/%s.diff" % name, "w").write(d)
    for f in {e[0] for e in edits if e[0].endswith(".cpp")}:
        p = subprocess.run("g++ -std=c++17 -fsyntax-only -include string -include utility -I%s/tools/ggdt -I%s/repo/src %s/repo/src/%s" % (V, w, w, f), shell=True, capture_output=True, text=True)
        if p.returncode:
            print(name, f, p.stderr[:600])
    shutil.rmtree(w)
    if checks:
        subprocess.run("python3 %s/tools/benign.py '^%s$' %s" % (V, name, checks), shell=True)
