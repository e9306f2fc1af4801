"""The object graph of the program: main (with the package initialisers) and the start of the GUI are executed
symbolically; what they build and nobody changes afterwards is known to every proof."""
import z3
from z3 import IntVal, BoolVal, simplify
import terms as T
from values import *
from exec import State, Frame, Out, num
import spec
import models

GUI_TYPE = "github.com/mashmb/1pass/1pass-app/gui."


class Graph:
    def __init__(self, prog):
        self.p = prog
        self.building = True
        self.objects = []           # (ref, type, site)
        self.globals, self.globtypes = {}, {}
        self.facts = {}             # key -> [(ref, value)]
        self._const = {}
        self.alias = {}             # contract target -> FnV
        self.problems = []
        self.maxref = 0
        self.bytype = {}
        self.stub = False
        self.final = None
        self.flags = {}
        self.siteref = {}
        self.lens = {}              # key of the array contents -> [(ref, length)]: the length of an array never changes

    # ------------------------------------------------------------ queries of the executor
    def const(self, ref, key):
        return self._const.get((ref, key))

    def singleton(self, name):
        c = [(r, t) for r, t in self.single.items() if self.tstr[r].split(".")[-1] == name]
        if len(c) != 1:
            raise spec.SpecError("no single object of type " + name)
        return spec.TV(IntVal(c[0][0]), c[0][1])

    def singleton_of_type(self, t):
        if t.under().kind != "pointer":
            return None
        l = self.bytype.get(t.elem.str, [])
        if len(l) == 1 and l[0] in self.single:
            return l[0]
        return None

    def ref_for(self, st, site):
        """the same allocation gets the same number on every path"""
        st.marks = dict(st.marks)
        n = st.marks.get(("occ", site), 0)
        st.marks[("occ", site)] = n + 1
        return IntVal(self.siteref.setdefault((site, n), len(self.siteref) + 1))

    # ------------------------------------------------------------ building
    def build(self, ex):
        p = self.p
        ex.graph = self
        models.BUILDING[0] = True
        save = ex.top0
        ex.top0 = IntVal(0)
        ex.prefix = "G0"
        st = State()
        st.top = IntVal(1000)
        mains = [n for n in p.fns if n.endswith("/1pass-app.main")]
        if len(mains) != 1:
            raise Unsupported("main function")
        main = mains[0]
        init = main[:-len(".main")] + ".init"
        outs = ex.run_fn(p.fns[init], [], st) if init in p.fns else []
        outs = [o for o in outs if o.kind == "return"]
        if len(outs) != 1:
            raise Unsupported("package initialisation has %d paths" % len(outs))
        st = outs[0].st
        self.initstate = st.fork()
        outs = [o for o in ex.run_fn(p.fns[main], [], st) if o.kind == "return"]
        if not outs:
            raise Unsupported("main does not return")
        states = [o.st for o in outs]
        st = states[0]
        m = ex.models
        cmds = self.commands(ex, st)
        # the GUI
        self.stub = True
        guist = None
        for use, f in cmds.items():
            self.alias["cmd." + use.split()[0] if use else "cmd."] = f
        root = self.alias.get("cmd.1pass")
        if root is not None:
            fn = p.fns[root.name]
            s = st.fork()
            args = [ex.fresh_val(s, t, "gb." + n) for n, t in fn.params]
            outs = [o for o in ex.run_fn(fn, args, s, root.bindings) if o.kind == "return"]
            if len(outs) >= 1:
                guist = outs[0].st
                states = [o.st for o in outs]
        self.stub = False
        self.final = guist or st
        self.states = states
        self.immutable(ex)
        self.collect(ex)
        self.runonce(ex, cmds)
        for view, key, mod, h in m.binds:
            f = fn_of(h)
            v = T.litval(view)
            n = self.keyname(ex, key)
            if f is not None and v is not None:
                self.alias.setdefault("key.%s.%s" % (v, n), f)
        self.managers = getattr(m, "managers", [])
        self.building = False
        models.BUILDING[0] = False
        self.maxref = max(num(s.top) for s in self.states) + 10
        import exec as E
        E.MAXREF[0] = self.maxref
        E.BELOW.clear()
        ex.top0 = save
        ex.prefix = "H0"
        ex.basecache = {}
        ex.obls = []
        return self

    def keyname(self, ex, key):
        k = simplify(key)
        if z3.is_app(k) and k.decl().eq(T.AnyS.AInt):
            n = num(k.arg(1))
            t = ex.p.types[num(k.arg(0))].str.split(".")[-1]
            if t == "Key":
                for c, v in KEYS.items():
                    if v == n:
                        return c
                return "key%s" % n
            return chr(n) if n is not None and 32 <= n < 127 else "rune%s" % n
        return "?"

    def commands(self, ex, st):
        """use text -> Run closure of every command reachable from the root command"""
        out = {}
        ct = self.p.bystr.get("*github.com/spf13/cobra.Command")
        if ct is None or not getattr(ex.models, "root", None) is not None:
            return out
        ct = ct.elem
        fld = dict(ct.fields)
        todo, seen = [ex.models.root], set()
        while todo:
            c = todo.pop()
            n = num(c)
            if n in seen:
                continue
            seen.add(n)
            use = ex.read_field(st, c, ct, "Use", fld["Use"])
            run = ex.read_field(st, c, ct, "Run", fld["Run"])
            f = fn_of(run) if not isinstance(run, FnV) else run
            if T.litval(use) is not None and f is not None:
                out[T.litval(use)] = f
                self.flags[T.litval(use).split()[0]] = [(x[2], x[3]) for x in ex.models.commands if x[0] == "flag" and num(x[1]) == n]
            for x in ex.models.commands:
                if x[0] == "add" and num(x[1]) == n:
                    todo.append(x[2])
        return out

    def immutable(self, ex):
        """(struct type, field) pairs that are stored outside their constructor"""
        self.mutable = set()
        for f in self.p.fns.values():
            defs = {i["n"]: i for _, i in f.instrs() if "n" in i}
            for _, i in f.instrs():
                if i["op"] != "Store" or i["addr"]["k"] != "reg":
                    continue
                d = defs.get(i["addr"]["n"])
                if d is not None and d["op"] == "FieldAddr":
                    b = d["x"]
                    own = b["k"] == "reg" and defs.get(b["n"], {}).get("op") == "Alloc"
                    pt = self.p.types[b["type"]].elem
                    if not own:
                        self.mutable.add((pt.str, pt.fields[d["field"]][0]))
                else:
                    t = self.p.types[i["addr"]["type"]].elem
                    own = d is not None and d["op"] == "Alloc"
                    if t.under().kind == "struct" and not own and not is_time(t) and t.kind == "named":
                        for n, _ in t.fields:
                            self.mutable.add((t.str, n))
            # address of a field that escapes
            for _, i in f.instrs():
                if i["op"] == "FieldAddr":
                    for _, j in f.instrs():
                        uses = [x for q, x in j.items() if q in ("x", "val") and isinstance(x, dict)]
                        if "call" in j:
                            uses += j["call"]["args"]
                        for u in uses:
                            if u.get("k") == "reg" and u.get("n") == i["n"] and not (j["op"] == "UnOp" and j.get("tok") == "*") and j["op"] != "FieldAddr":
                                pt = self.p.types[i["x"]["type"]].elem
                                self.mutable.add((pt.str, pt.fields[i["field"]][0]))
        self.globstores = {}
        for f in self.p.fns.values():
            for _, i in f.instrs():
                if i["op"] == "Store" and i["addr"]["k"] == "global":
                    self.globstores.setdefault(i["addr"]["n"], set()).add(f.name)

    def collect(self, ex):
        st = self.final
        self.tstr = {}
        seen = set()
        objs = []
        for r, t, site in self.objects:
            n = num(r)
            if n is not None and n > 900:
                raise Unsupported("too many objects")
            if n is None or n in seen or not is_repo(t.str) or t.kind != "named":
                continue
            seen.add(n)
            objs.append((n, t, site))
        self.objects = objs
        for n, t, site in objs:
            self.tstr[n] = t.str
            self.bytype.setdefault(t.str, []).append(n)
            for fn, ft in t.fields:
                if (t.str, fn) in self.mutable:
                    continue
                for k, so in ex.fkeys(t, fn, ft):
                    v = simplify(ex.sel(ex.get(st, k), IntVal(n)))
                    if not ground(v):
                        continue
                    if any(not simplify(ex.sel(ex.get(s, k), IntVal(n))).eq(v) for s in self.states):
                        continue
                    self._const[(n, k)] = v
                    self.facts.setdefault(k, []).append((n, v))
                if ft.under().kind == "slice" and not is_bytes(ft):
                    ks = [k for k, _ in ex.fkeys(t, fn, ft)]
                    r = self._const.get((n, ks[0]))
                    if len(ks) == 3 and r is not None and num(r) is not None and num(r) > 0:
                        ln = num(simplify(ex.seqlen(ex.sel(ex.get(st, ex.skey(ft.elem)), r))))
                        if ln is not None:
                            self.lens.setdefault(ex.skey(ft.elem), []).append((num(r), ln))
        for g, (v, t) in st.cells.items():
            if isinstance(g, str) and is_repo(g):
                fs = self.globstores.get(g, set())
                if all(x.endswith(".init") or ".init#" in x for x in fs):
                    self.globals[g] = v
                    self.globtypes[g] = t

    def runonce(self, ex, cmds):
        p = self.p
        sites, taken = {}, set()
        for f in p.fns.values():
            inloop = set()
            for h, bl in f.loops().items():
                inloop |= bl
            for b, i in f.instrs():
                if "call" in i and "static" in i["call"]:
                    sites.setdefault(i["call"]["static"], []).append((f.name, b["i"] in inloop))
                if "call" in i and "invoke" in i["call"]:
                    it = p.types[i["call"]["iface"]]
                    if it.str in p.interfaces and is_repo(it.str):
                        for impl in p.iface_impl(it.str):
                            sites.setdefault(p.methods_of(it.str, impl)[i["call"]["invoke"]], []).append((f.name, b["i"] in inloop))
                for q in ("x", "val"):
                    if isinstance(i.get(q), dict) and i[q].get("k") == "func":
                        taken.add(i[q]["n"])
                if "call" in i:
                    for a in i["call"]["args"]:
                        if a.get("k") == "func":
                            taken.add(a["n"])
                if i["op"] == "MakeClosure":
                    taken.add(i["fn"])
        roots = {n for n in p.fns if n.endswith("/1pass-app.main") or n.endswith(".init") or ".init#" in n} | {f.name for f in cmds.values()}
        memo = {}

        def once(n, depth=0):
            if n in roots:
                return True
            if n in taken or depth > 30:
                return False
            if n in memo:
                return memo[n]
            memo[n] = False
            s = sites.get(n, [])
            memo[n] = len(s) == 1 and not s[0][1] and once(s[0][0], depth + 1)
            return memo[n]
        self.once = once
        alloc = {}
        for f in p.fns.values():
            for _, i in f.instrs():
                if i["op"] == "Alloc":
                    t = p.types[i["elem"]]
                    if is_repo(t.str):
                        alloc.setdefault(t.str, []).append((f.name, i["n"]))
        self.single = {}
        for n, t, site in self.objects:
            if len(self.bytype[t.str]) == 1 and alloc.get(t.str) == [site] and once(site[0]):
                pt = p.bystr.get("*" + t.str)
                if pt is not None:
                    self.single[n] = pt


def ground(v):
    sc = T.Scan()
    sc.add(v)
    return all(n in T._litv or n in ("exePath", "homeDir", "pjoin", "cat") for n in sc.names)


KEYS = {"CtrlQ": 0x11, "CtrlL": 0x0c, "CtrlH": 0x08, "Enter": 0x0d, "Esc": 0x1b, "Backspace": 0x08, "Backspace2": 0x7f, "CtrlC": 0x03, "Tab": 0x09,
        "Space": 0x20, "F1": 0xffff, "ArrowUp": 0xffff - 18, "ArrowDown": 0xffff - 19, "ArrowLeft": 0xffff - 20, "ArrowRight": 0xffff - 21}
