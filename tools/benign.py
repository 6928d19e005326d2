"""Run checks against behaviour-preserving edits (development tool): benign.py [edit-regex] [check...]"""
import os, re, shutil, subprocess, sys, tempfile, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rx = sys.argv[1] if len(sys.argv) > 1 else "."
checks = sys.argv[2:] or sorted(os.path.basename(f)[5:8].upper() for f in glob.glob(V + "/checks/prop_p*.py"))
from concurrent.futures import ThreadPoolExecutor
for d in sorted(glob.glob(V + "/tools/benign/*.diff")):
    n = os.path.basename(d)[:-5]
    if not re.search(rx, n):
        continue
    w = tempfile.mkdtemp(dir="/tmp", prefix="benign")
    subprocess.run("cp -a /repo %s/repo && git -C %s/repo apply %s" % (w, w, d), shell=True, check=True)
    env = dict(os.environ, GGSA_REPO=w + "/repo")
    subprocess.run("python3 -m ggsa.build", shell=True, cwd=V, env=env, capture_output=True)

    def run(c):
        p = subprocess.run("python3 checks/run.py " + c, shell=True, cwd=V, env=env, capture_output=True, text=True)
        return c, p.returncode, p.stdout
    bad = 0
    with ThreadPoolExecutor(6) as ex:
        for c, rc, o in ex.map(run, checks):
            if rc:
                bad += 1
                print("%-30s %s exit %d" % (n, c, rc))
                print("    " + "\n    ".join(l[:260] for l in o.splitlines()[:6]))
    print("%-30s %s" % (n, "quiet" if not bad else "NOISY"))
    shutil.rmtree(w)
