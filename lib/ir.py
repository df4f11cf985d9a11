"""In-memory program built from the extractor's output. Function bodies are decoded on first use."""
import json
import mmap
import re

from extract import Broken, extract, tus

STRKEYS = {"k", "t", "v", "n", "q", "u", "f", "cls", "op", "to", "ck", "of", "base", "pm", "ret", "file", "tk", "top", "outer", "ct"}


class Node:
    __slots__ = ("id", "k", "l", "t", "c", "a", "fn")

    def __repr__(self):
        return "<%s#%d %s>" % (self.k, self.id, self.a)

    def kids(self):
        return [self.fn.nodes[i] for i in self.c if i >= 0]

    def g(self, key, d=None):
        return self.a.get(key, d)


class Var:
    __slots__ = ("id", "name", "kind", "t", "line", "file", "u", "outer")


class Block:
    __slots__ = ("id", "e", "cond", "tk", "top", "tl", "succ", "case", "default", "catch", "noret", "ct")


class Fn:
    def __init__(self, prog, usr, raw, S):
        self.prog = prog
        self.usr = usr
        self.q = S[raw["q"]]
        self.file = S[raw["file"]]
        self.line = raw["line"]
        self.end = raw["end"]
        self.ret = S[raw["ret"]]
        self.cls = S[raw["cls"]] if "cls" in raw else None
        self.virt = raw.get("virt", False)
        self.over = [S[i] for i in raw.get("over", [])]
        self.const = raw.get("const", False)
        self.ctor = raw.get("ctor", False)
        self.dtor = raw.get("dtor", False)
        self.copy = raw.get("copy", False)
        self.smeth = raw.get("smeth", False)
        self.externc = raw.get("externc", False)
        self.islambda = raw.get("lambda", False)
        self.static = raw.get("static", False)
        self.params = raw["params"]
        self.ta = [S[i] for i in raw.get("ta", [])]
        self.tries = [(t["b"], t["e"], [S[h] for h in t["h"]]) for t in raw.get("tries", [])]
        self.vars = []
        for i, v in enumerate(raw["vars"]):
            o = Var()
            o.id = i
            o.name = S[v["n"]]
            o.kind = S[v["k"]]
            o.t = S[v["t"]]
            o.line = v["l"]
            o.file = S[v["f"]] if "f" in v else None
            o.u = S[v["u"]] if "u" in v else None
            o.outer = S[v["outer"]] if "outer" in v else None
            self.vars.append(o)
        self.nodes = mk_nodes(self, raw["nodes"], S)
        cfg = raw["cfg"]
        self.cfg_err = cfg.get("err", False)
        self.blocks = {}
        self.entry = cfg.get("entry")
        self.exit = cfg.get("exit")
        for b in cfg.get("blocks", []):
            o = Block()
            o.id = b["id"]
            o.e = b["e"]
            o.cond = b.get("c")
            o.tk = S[b["tk"]] if "tk" in b else None
            o.top = S[b["top"]] if "top" in b else None
            o.tl = b.get("tl", 0)
            o.succ = [s if s >= 0 else None for s in b["s"]]
            o.case = b.get("case")
            o.default = b.get("default", False)
            o.catch = b.get("catch", False)
            o.ct = S[b["ct"]] if "ct" in b else None
            o.noret = b.get("noret", False)
            self.blocks[o.id] = o
        self._parent = None

    @property
    def name(self):
        return self.q.split("::")[-1]

    @property
    def parent(self):
        """node id -> id of the node that consumes it"""
        if self._parent is None:
            p = {}
            for n in self.nodes:
                for c in n.c:
                    if c >= 0:
                        p.setdefault(c, n.id)
            self._parent = p
        return self._parent

    def loc(self, n=None):
        return "%s:%d" % (self.file, n.l if n is not None and n.l else self.line)

    def calls(self):
        for n in self.nodes:
            if n.k in ("call", "ctor"):
                yield n

    def reach_nodes(self):
        """Nodes that are elements of blocks reachable from the entry (others were folded away or are unreachable)."""
        seen = {self.entry}
        st = [self.entry]
        res = []
        handlers = [b.id for b in self.blocks.values() if b.catch]
        st += handlers
        seen.update(handlers)
        while st:
            b = self.blocks[st.pop()]
            for e in b.e:
                if e >= 0:
                    res.append(self.nodes[e])
            for s in b.succ:
                if s is not None and s not in seen:
                    seen.add(s)
                    st.append(s)
        return res

    def __repr__(self):
        return "<Fn %s %s:%d>" % (self.q, self.file, self.line)


def mk_nodes(fn, raw, S):
    res = []
    for i, r in enumerate(raw):
        n = Node()
        n.id = i
        n.fn = fn
        n.k = S[r["k"]]
        n.l = r.get("l", 0)
        n.t = S[r["t"]] if "t" in r else ""
        n.c = r.get("c", [])
        a = {}
        for k, v in r.items():
            if k in ("k", "l", "t", "c"):
                continue
            if k in ("fields", "ta"):
                v = [S[j] for j in v]
            elif k in STRKEYS:
                v = S[v]
            a[k] = v
        n.a = a
        res.append(n)
    return res


class Rec:
    pass


class Global:
    pass


class Program:
    def __init__(self, *groups):
        self.files = tus(*groups)
        self.src = {}      # usr -> (buf, off, len, S)
        self.cache = {}
        self.byq = {}      # qualified name -> [usr]
        self.meta = {}     # usr -> (q, file, line)
        self.recs = {}
        self.enums = {}
        self.globals = {}
        self.bufs = []
        self.tu_of = {}
        for f, out in extract(self.files):
            fh = open(out, "rb")
            mm = mmap.mmap(fh.fileno(), 0, access=mmap.ACCESS_READ)
            self.bufs.append((fh, mm))
            nl = mm.find(b"\n")
            d = json.loads(mm[:nl])
            if d["errors"]:
                raise Broken("%s does not compile" % f)
            S = d["strs"]
            base = nl + 1
            for usr, v in d["fns"].items():
                if v is None or usr in self.src:
                    continue
                self.src[usr] = (mm, base + v[0], v[1], S)
                self.meta[usr] = (v[2], v[3], v[4])
                self.tu_of[usr] = f
                self.byq.setdefault(v[2], []).append(usr)
            for q, r in d["recs"].items():
                if q in self.recs:
                    continue
                o = Rec()
                o.q = q
                o.file = S[r["file"]]
                o.line = r["line"]
                o.bases = [S[b] for b in r["bases"]]
                o.fields = [{"n": S[x["n"]], "t": S[x["t"]], "l": x["l"], "init": x.get("init", False), "n_el": x.get("n_el")} for x in r["fields"]]
                o.methods = []
                for m in r["methods"]:
                    o.methods.append({"n": S[m["n"]], "u": S[m["u"]], "v": m.get("v", False), "pure": m.get("pure", False),
                                      "dflt": m.get("dflt", False), "copy": m.get("copy", False), "const": m.get("const", False),
                                      "del": m.get("del", False), "over": [S[x] for x in m["over"]]})
                o.union = r.get("union", False)
                self.recs[q] = o
            for q, e in d["enums"].items():
                self.enums.setdefault(q, [(S[a], int(S[b])) for a, b in e["vals"]])
            for g in d["globals"]:
                q = S[g["q"]]
                key = (q, S[g["file"]])
                if key in self.globals:
                    continue
                o = Global()
                o.q = q
                o.t = S[g["t"]]
                o.file = S[g["file"]]
                o.line = g["line"]
                o.u = S[g["u"]]
                o.static = g.get("static", False)
                o.const = g.get("const", False)
                o.init = g.get("init")
                o.vars = [S[v["n"]] for v in g.get("vars", [])]
                o.nodes = mk_nodes(o, g["nodes"], S) if "nodes" in g else []
                self.globals[key] = o
        self._subs = None
        self._overriders = None

    def fn(self, usr):
        f = self.cache.get(usr)
        if f is None:
            s = self.src.get(usr)
            if s is None:
                return None
            mm, off, ln, S = s
            f = Fn(self, usr, json.loads(mm[off:off + ln]), S)
            self.cache[usr] = f
        return f

    def q(self, qual):
        return [self.fn(u) for u in self.byq.get(qual, [])]

    def q1(self, qual, pred=None):
        fs = [f for f in self.q(qual) if pred is None or pred(f)]
        if not fs:
            raise Broken("anchor function %s not found" % qual)
        return fs[0]

    def all(self, pred=None):
        for u, m in self.meta.items():
            if pred is None or pred(*m):
                yield self.fn(u)

    def in_file(self, suffix):
        return list(self.all(lambda q, f, l: f.endswith(suffix)))

    # class hierarchy --------------------------------------------------------------------------------------------
    def bases(self, cls, seen=None):
        res = []
        r = self.recs.get(cls)
        if not r:
            return res
        for b in r.bases:
            b = re.sub(r"^(class|struct) ", "", b)
            if b not in res:
                res.append(b)
                for x in self.bases(b):
                    if x not in res:
                        res.append(x)
        return res

    def subclasses(self, cls):
        if self._subs is None:
            self._subs = {}
            for q, r in self.recs.items():
                for b in self.bases(q):
                    self._subs.setdefault(b, []).append(q)
        return sorted(self._subs.get(cls, []))

    def overriders(self, usr):
        """usrs of methods overriding usr, transitively"""
        if self._overriders is None:
            d = {}
            for r in self.recs.values():
                for m in r.methods:
                    for o in m["over"]:
                        d.setdefault(o, []).append(m["u"])
            self._overriders = d
        res, st = [], [usr]
        while st:
            for x in self._overriders.get(st.pop(), []):
                if x not in res:
                    res.append(x)
                    st.append(x)
        return res

    def targets(self, node):
        """usrs a call node may reach"""
        u = node.g("u")
        if not u:
            return []
        if node.g("virt"):
            return [u] + self.overriders(u)
        return [u]

    def fields(self, cls, inherited=False):
        r = self.recs.get(cls)
        if not r:
            raise Broken("record %s not found" % cls)
        res = list(r.fields)
        if inherited:
            for b in self.bases(cls):
                if b in self.recs:
                    res += self.recs[b].fields
        return res
