"""Program model: the JSON dump of the linked LLVM module, with CFG loops."""
import json
import os
import re


class Func:
    def __init__(self, name, d, prog):
        self.name, self.d, self.prog = name, d, prog
        self.dem = d["dem"]
        self.decl = d["decl"]
        self.args = d["args"]
        self.file = prog.files[d["file"]] if "file" in d else None
        self.line = d.get("line", 0)
        self._cfg = None

    def __repr__(self):
        return "<%s>" % self.dem

    @property
    def blocks(self):
        return self.d["blocks"]

    def succs(self, b):
        t = self.blocks[b][-1]
        o = t["o"]
        if o == "br":
            return t["succ"]
        if o == "switch":
            return [t["def"]] + [c[1] for c in t["cases"]]
        if o == "invoke":
            return [t["normal"], t["unwind"]]
        return []

    def cfg(self):
        if self._cfg:
            return self._cfg
        n = len(self.blocks)
        succ = [list(dict.fromkeys(self.succs(b))) for b in range(n)]
        # DFS: rpo and back edges
        color, post, back = [0] * n, [], set()
        st = [(0, iter(succ[0]))]
        color[0] = 1
        while st:
            b, it = st[-1]
            for s in it:
                if color[s] == 0:
                    color[s] = 1
                    st.append((s, iter(succ[s])))
                    break
                if color[s] == 1:
                    back.add((b, s))
            else:
                color[b] = 2
                post.append(b)
                st.pop()
        rpo = {b: i for i, b in enumerate(reversed(post))}
        pred = [[] for _ in range(n)]
        for b in range(n):
            for s in succ[b]:
                if b in rpo:
                    pred[s].append(b)
        loops = {}
        for (b, h) in back:
            body = loops.setdefault(h, {h})
            w = [b]
            while w:
                x = w.pop()
                if x in body:
                    continue
                body.add(x)
                w += pred[x]
        self._cfg = dict(succ=succ, pred=pred, rpo=rpo, back=back, loops=loops,
                         order=sorted(rpo, key=lambda b: rpo[b]))
        return self._cfg


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.files = d["files"]
        self.globals = d["globals"]
        self.aliases = d["aliases"]
        self.records = d["records"]
        self.enums = d["enums"]
        self.funcs = {k: Func(k, v, self) for k, v in d["funcs"].items()}
        self.root = os.environ.get("GGSA_REPO", "/repo").rstrip("/") + "/"

    def resolve(self, name):
        while name in self.aliases:
            v = self.aliases[name]
            if v[0] != "g":
                break
            name = v[1]
        return name

    def find(self, pat, defined=True):
        """functions whose demangled name matches pat (regex, fullmatch)"""
        r = re.compile(pat)
        return [f for f in self.funcs.values()
                if r.fullmatch(f.dem) and (not defined or not f.decl)]

    def one(self, pat):
        fs = self.find(pat)
        if len(fs) > 1:
            # (not the lambdas defined inside)
            fs = [f for f in fs if not re.search(r"::(\$_\d+|'lambda\d*'|\{lambda)", f.dem)] or fs
        if len(fs) != 1:
            raise AnchorError("anchor %r: %d definitions found (%s)" % (
                pat, len(fs), ", ".join(f.dem for f in fs[:5])))
        return fs[0]

    def field(self, rec, name):
        """(offset, size, type) of member `name` of record `rec`"""
        r = self.records.get(rec)
        if r is None:
            raise AnchorError("anchor: record %s not found" % rec)
        for n, off, sz, ty in r["members"]:
            if n == name:
                return off, sz, ty
        raise AnchorError("anchor: %s::%s not found" % (rec, name))

    def enum_size(self, name):
        """size in bytes of an enumeration (or other integer-like type), from the functions that take one"""
        c = self.__dict__.setdefault("_esz", {})
        if name not in c:
            for f in self.funcs.values():
                if f.dem.endswith("(%s)" % name) and len(f.args) == 1 and re.fullmatch(r"i\d+", str(f.args[0].get("t") or f.args[0].get("ty") or "")):
                    c[name] = int(str(f.args[0].get("t") or f.args[0].get("ty"))[1:]) // 8
                    break
            else:
                raise AnchorError("size of %s is not known" % name)
        return c[name]

    def repo_funcs(self):
        return [f for f in self.funcs.values()
                if not f.decl and f.file and f.file.startswith(self.root)]

    def written_globals(self):
        """variables of static storage duration that functions of the repository store to (not initialisers, not guards)"""
        if not hasattr(self, "_written"):
            self._written = set()
            for f in self.repo_funcs():
                if f.dem.startswith(("__cxx_global_var_init", "_GLOBAL__", "__tls_init")):
                    continue
                at = {}
                for b in f.blocks:
                    for i in b:
                        if i["o"] in ("getelementptr", "bitcast"):
                            at[i["id"]] = i["a"][0]
                for b in f.blocks:
                    for i in b:
                        v = i["a"][1] if i["o"] == "store" else i["a"][0] if i["o"] == "call" and i["callee"] and str(i["callee"][1]).startswith(("llvm.memset", "llvm.memcpy", "memset", "memcpy")) else None
                        while v is not None and v[0] == "l" and v[1] in at:
                            v = at[v[1]]
                        if v is not None and v[0] == "g" and not self.resolve(v[1]).startswith("_ZGV"):
                            self._written.add(self.resolve(v[1]))
        return self._written

    def loc(self, ins):
        if "ln" not in ins:
            return "?"
        f = self.files[ins["f"]]
        return "%s:%d" % (f.replace(self.root, ""), ins["ln"])


class AnchorError(Exception):
    pass
