"""Loads the SSA of the repository (written by frontend/ssajson from the current source) and offers
types, functions, control-flow facts and whole-program facts to the verification-condition generator."""
import json


class Type:
    __slots__ = ("p", "id", "d", "str", "kind")

    def __init__(self, p, d):
        self.p, self.d = p, d
        self.id, self.str, self.kind = d["id"], d["str"], d["kind"]

    def under(self):
        t = self
        while t.kind == "named":
            t = self.p.types[t.d["under"]]
        return t

    @property
    def elem(self):
        return self.p.types[self.under().d["elem"]]

    @property
    def key(self):
        return self.p.types[self.under().d["key"]]

    @property
    def fields(self):
        return [(f["name"], self.p.types[f["type"]]) for f in self.under().d["fields"]]

    def __repr__(self):
        return self.str


class Fn:
    def __init__(self, p, d):
        self.p, self.d = p, d
        self.name = d["name"]
        self.blocks = d["blocks"]
        self.params = [(q["n"], p.types[q["type"]]) for q in d["params"]]
        self.freevars = [(q["n"], p.types[q["type"]]) for q in d["freevars"]]
        self.results = [p.types[r] for r in d["results"]]
        self.pos = d.get("pos", "")
        self.pkg = d.get("pkg", "")
        self._loops = None

    def dominators(self):
        n = len(self.blocks)
        dom = [set(range(n)) for _ in range(n)]
        dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for b in range(1, n):
                ps = [dom[q] for q in self.blocks[b]["preds"]]
                new = (set.intersection(*ps) if ps else set()) | {b}
                if new != dom[b]:
                    dom[b] = new
                    ch = True
        return dom

    def loops(self):
        """header -> set of blocks of the natural loop"""
        if self._loops is None:
            dom = self.dominators()
            res = {}
            for b in self.blocks:
                for s in b["succs"]:
                    if s in dom[b["i"]]:
                        body = res.setdefault(s, {s})
                        st = [b["i"]]
                        while st:
                            x = st.pop()
                            if x not in body:
                                body.add(x)
                                st.extend(self.blocks[x]["preds"])
            self._loops = res
        return self._loops

    def joins(self):
        """block -> the block where all paths from it meet again, if there is one"""
        if getattr(self, "_joins", None) is None:
            n = len(self.blocks)
            allb = set(range(n)) | {-1}
            pd = {b: set(allb) for b in range(n)}
            pd[-1] = {-1}
            ch = True
            while ch:
                ch = False
                for b in reversed(range(n)):
                    su = self.blocks[b]["succs"] or [-1]
                    new = set.intersection(*[pd[x] for x in su]) | {b}
                    if new != pd[b]:
                        pd[b] = new
                        ch = True
            res = {}
            for b in range(n):
                c = pd[b] - {b, -1}
                # the closest one is postdominated by all the others
                for x in c:
                    if pd[x] - {-1} == c:
                        res[b] = x
            self._joins = res
        return self._joins

    def instrs(self):
        for b in self.blocks:
            for i in b["instrs"]:
                yield b, i


class Program:
    def __init__(self, path):
        j = json.load(open(path))
        self.types = []
        for d in j["types"]:
            self.types.append(Type(self, d))
        self.bystr = {t.str: t for t in self.types}
        self.fns = {d["name"]: Fn(self, d) for d in j["functions"]}
        self.consts = j["consts"]
        self.interfaces = j["interfaces"]
        self.packages = j["packages"]
        self._impl = None
        self._short = {}
        for n in self.fns:
            self._short.setdefault(self.shorten(n), []).append(n)

    @staticmethod
    def shorten(n):
        """(*github.com/.../file.fileItemRepo).X -> fileItemRepo.X ; github.com/.../file.loadX -> file.loadX"""
        ptr = n.startswith("(")
        if ptr:
            recv, rest = n[1:].split(")", 1)
            recv = recv.lstrip("*").split("/")[-1]
            return recv.split(".", 1)[1] + rest
        return n.split("/")[-1]

    def find(self, short):
        l = self._short.get(short, [])
        if len(l) == 1:
            return self.fns[l[0]]
        return None

    def type(self, s):
        return self.bystr[s]

    def type_by_suffix(self, s):
        """'*domain.Item' or '[]*domain.Item' -> Type"""
        m = self.__dict__.get("_suffix")
        if m is None:
            m = self._suffix = {}
            for t in self.types:
                m.setdefault(strip_paths(t.str), t)
        return m.get(s)

    def iface_impl(self, iface):
        """concrete types converted to the interface anywhere in the (non-test) program"""
        if self._impl is None:
            self._impl = {}
            for f in self.fns.values():
                for _, i in f.instrs():
                    if i["op"] == "MakeInterface":
                        self._impl.setdefault(self.types[i["type"]].str, set()).add(self.types[i["x"]["type"]].str)
                    elif i["op"] == "ChangeInterface":
                        self._impl.setdefault(self.types[i["type"]].str, set()).add("iface:" + self.types[i["x"]["type"]].str)
        res, todo, seen = set(), [iface], set()
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            for y in self._impl.get(x, ()):
                if y.startswith("iface:"):
                    todo.append(y[6:])
                else:
                    res.add(y)
        return res

    def methods_of(self, iface, concrete):
        return self.interfaces[iface]["impls"][concrete]["methods"]


def strip_paths(s):
    import re
    return re.sub(r"[A-Za-z0-9_.\-]+(?:/[A-Za-z0-9_.\-]+)*/", "", s)
