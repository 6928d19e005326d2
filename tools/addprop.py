"""insert a property entry (python source on stdin) before the NA list of props.py"""
import os, sys
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "props.py")
t = open(p).read()
e = sys.stdin.read().rstrip() + "\n"
assert t.count("]\n\nNA = [") == 1
open(p, "w").write(t.replace("]\n\nNA = [", e + "]\n\nNA = ["))
