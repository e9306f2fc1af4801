"""The contract language: parsing of .spec files, evaluation of specification expressions in a symbolic state,
modular calls, and verification of a function against its contract."""
import ast
import itertools
import re
import z3
from z3 import And, Or, Not, Implies, If, ForAll, Exists, Int, IntVal, BoolVal, RealVal, Const, Select, Store, simplify
import terms as T
from terms import I, B, R, Str, AnyS, ANil, seqth
from values import *
from exec import above, BELOW, TOPGE, State, Out, num, seqth_of_sort, Exec, Stop, trunc, short
from prog import strip_paths


class SpecError(Exception):
    pass


class TV:
    __slots__ = ("v", "t")

    def __init__(self, v, t):
        self.v, self.t = v, t


class NilT:
    pass


NIL = NilT()


# ------------------------------------------------------------------------------------------ parsing
class Clause:
    __slots__ = ("on", "kind", "tags", "src", "ast", "name")

    def __init__(self, kind, tags, src):
        self.kind, self.tags, self.src = kind, tags, " ".join(src.split())
        try:
            self.ast = ast.parse("(" + src.strip() + "\n)", mode="eval").body
        except SyntaxError as e:
            raise SpecError("%s: %s" % (e, src))

    def active(self, prop):
        return not self.tags or prop in self.tags or prop is None


class Contract:
    def __init__(self, target, params, results):
        self.target, self.params, self.results = target, params, results
        self.requires, self.ensures, self.modifies, self.templates, self.onexit = [], [], [], [], []
        self.inline = False
        self.mayexit = False
        self.noinv = set()
        self.bounded = None
        self.callbacks = {}
        self.props = set()
        self.panics = False
        self.trusted = False
        self.flags = set()
        self.assumes = []
        self.fn = None
        self.bindings = []

    def speaks(self, prop):
        """the contract says something for this property; otherwise callers look at the body"""
        return prop in self.props or any(q.active(prop) for q in self.ensures)


class SpecFn:
    def __init__(self, kind, name, params, res, src):
        self.kind, self.name, self.params, self.res, self.src = kind, name, params, res, src
        self.ast = ast.parse("(" + src.strip() + "\n)", mode="eval").body if src else None
        self.keys = None


class Specs:
    def __init__(self, prog):
        self.p = prog
        self.contracts = {}         # target short name -> Contract
        self.fns = {}
        self.invs = {}
        self.axioms = []
        self.missing = []
        self._byname = {}
        self.prop = None

    def load(self, path):
        lines = open(path).read().split("\n")
        items, cur = [], None
        for n, l in enumerate(lines):
            if not l.strip() or l.lstrip().startswith("#"):
                continue
            l = re.sub(r"\s+#\s.*$", "", l)
            ind = len(l) - len(l.lstrip())
            if ind == 0:
                cur = [l.strip(), []]
                items.append(cur)
            elif ind >= 8 and cur[1]:
                cur[1][-1] += "\n" + l.strip()
            else:
                cur[1].append(l.strip())
        for head, cl in items:
            kw = head.split()[0]
            if kw in ("spec", "def", "logic"):
                m = re.match(r"(\w+) (\w+)\((.*)\)\s*->\s*([^:]+?)\s*(:.*)?$", head)
                if not m:
                    raise SpecError("bad header: " + head)
                ps = []
                for q in split_commas(m.group(3)):
                    if q:
                        a, b = q.split(":", 1)
                        ps.append((a.strip(), b.strip()))
                src = "\n".join(cl)
                if m.group(5) and m.group(5).strip(": "):
                    src = m.group(5).strip().lstrip(":") + "\n" + src
                self.fns[m.group(2)] = SpecFn(kw, m.group(2), ps, m.group(4).strip(), src)
            elif kw == "inv":
                m = re.match(r"inv (\w+)\s*(\[[^\]]*\])?\s*(?:on ([\w., ]+?))?\s*:", head)
                tags = re.findall(r"C\d+", m.group(2) or "")
                c = Clause("inv", tags, "\n".join(cl))
                c.on = tuple(m.group(3).replace(",", " ").split()) if m.group(3) else None
                c.name = m.group(1)
                self.invs[m.group(1)] = c
            elif kw == "axiom":
                m = re.match(r"axiom (\w+)\s*:", head)
                c = Clause("axiom", [], "\n".join(cl))
                c.name = m.group(1)
                self.axioms.append(c)
            elif kw == "func":
                m = re.match(r"func ([\w.$| -]+)\(([^)]*)\)\s*(?:->\s*([\w, ]+))?\s*(.*)$", head)
                if not m:
                    raise SpecError("bad header: " + head)
                for target in m.group(1).split("|"):
                    target = target.strip()
                    c = self.contracts.get(target)
                    if c is None:
                        c = Contract(target, [x.strip() for x in m.group(2).split(",") if x.strip()],
                                     [x.strip() for x in (m.group(3) or "").split(",") if x.strip()])
                        self.contracts[target] = c
                    for s in cl:
                        self.clause(c, s)
            else:
                raise SpecError("unknown item: " + head)

    def clause(self, c, s):
        m = re.match(r"(\w+)\s*(\[[^\]]*\])?\s*(.*)$", s, re.S)
        kw, tg, rest = m.group(1), re.findall(r"C\d+", m.group(2) or ""), m.group(3)
        c.props |= set(tg)
        if kw == "requires":
            c.requires.append(Clause(kw, tg, rest))
        elif kw == "ensures":
            c.ensures.append(Clause(kw, tg, rest))
        elif kw == "assume":
            c.assumes.append(Clause(kw, tg, rest))
        elif kw == "onexit":
            c.onexit.append(Clause(kw, tg, rest))
        elif kw == "modifies":
            for q in split_commas(rest):
                c.modifies.append(Clause(kw, tg, q))
        elif kw == "invariant":
            c.templates.append(Clause(kw, tg, rest))
        elif kw == "inline":
            c.inline = True
        elif kw == "mayexit":
            c.mayexit = True
        elif kw == "trusted":
            c.trusted = True
        elif kw == "bounded":
            c.bounded = rest
        elif kw == "noinv":
            c.noinv |= set(rest.replace(",", " ").split())
        elif kw == "props":
            c.props |= set(re.findall(r"C\d+", s))
        elif kw == "callback":
            n, eff = rest.split(":", 1)
            c.callbacks[n.strip()] = [x.strip() for x in eff.split(",") if x.strip()]
        elif kw == "flag":
            c.flags |= set(rest.split())
        else:
            raise SpecError("unknown clause " + s)

    def resolve(self, graph=None):
        """attach the contracts to the functions of the current source; entry points (cmd.*, key.*) by registration"""
        seen = {}
        for t, c in self.contracts.items():
            if t.startswith(("cmd.", "key.")):
                a = graph.alias.get(t) if graph is not None else None
                if a is None or a.name not in self.p.fns:
                    self.missing.append(t)
                    continue
                c.fn = self.p.fns[a.name]
                c.bindings = a.bindings
                k = (a.name, tuple(str(b) for b in a.bindings), tuple(x.src for x in c.requires + c.ensures))
                c.same = seen.get(k)
                seen.setdefault(k, t)
                continue
            f = self.p.find(t)
            if f is None:
                self.missing.append(t)
                continue
            if len(f.params) != len(c.params) or len(f.results) != max(len(c.results), 0) and c.results:
                # signature changed: the contract cannot be attached; the function is inlined instead
                self.missing.append(t + " (signature)")
                continue
            self._byname[f.name] = c
            c.fn = f

    def for_fn(self, name):
        return self._byname.get(name)


def split_commas(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch in "([{":
            d += 1
        if ch in ")]}":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


# ------------------------------------------------------------------------------------------ evaluation
GHOSTS = {}             # name -> (key, sort, logic type name)


class Ev:
    """evaluation of a specification expression"""
    cur = None

    def __init__(self, ex, st, old=None, env=None):
        self.ex, self.st, self.oldst, self.env = ex, st, old, env or {}
        self.p = ex.p
        self.sp = ex.contracts

    # ---- types
    def ty(self, s):
        s = s.strip()
        if s.startswith("seq["):
            return ("seq", self.ty(s[4:-1]))
        if s.startswith("set["):
            return ("set", self.ty(s[4:-1]))
        if s.startswith("arr["):
            return ("arr",) + tuple(self.ty(x) for x in s[4:-1].split(","))
        al = {"str": "string", "bytes": "string", "real": "float64", "any": "interface{}", "jmap": "map[string]interface{}"}
        if s.startswith("map[") and s not in self.p.bystr:
            pass
        s = al.get(s, s)
        if s in self.p.bystr:
            return self.p.bystr[s]
        t = self.p.type_by_suffix(s)
        if t is None:
            raise SpecError("unknown type " + s)
        return t

    def gty(self, t):
        if isinstance(t, tuple):
            return (t[0],) + tuple(self.gty(x) for x in t[1:])
        return self.ty(t)

    def sort(self, t):
        if isinstance(t, tuple):
            if t[0] == "seq":
                return seqth(self.sort(t[1])).sort
            if t[0] == "set":
                return z3.ArraySort(self.sort(t[1]), B)
            if t[0] == "arr":
                return z3.ArraySort(self.sort(t[1]), self.sort(t[2]))
        return sort_of(t)

    def coerce(self, tv, t):
        """value of tv as logic type t"""
        v = tv.v
        if v is NIL:
            if isinstance(t, tuple):
                raise SpecError("nil as sequence")
            if t.under().kind == "interface":
                return ANil
            if t.under().kind == "slice":
                return zero(t)
            return IntVal(0)
        if isinstance(t, tuple) and t[0] == "seq" and isinstance(v, SliceV):
            return self.ex.content(self.st, v)
        if not isinstance(t, tuple):
            s = sort_of(t)
            if isinstance(v, SliceV) and s == Str:
                return self.ex.content(self.st, v)
            if s == AnyS and isinstance(v, z3.ExprRef) and v.sort() != AnyS:
                return self.ex.to_any(self.st, v, tv.t)
            if s == R and isinstance(v, z3.ExprRef) and v.sort() == I:
                return z3.ToReal(v)
            if t.str == "map[string]interface{}" and isinstance(v, z3.ExprRef) and v.sort() == AnyS:
                return AnyS.amap(v)
            if isinstance(v, SliceV):
                return v
            if isinstance(v, z3.ExprRef) and s is not None and v.sort() != s:
                raise SpecError("sort mismatch: %s as %s" % (v.sort(), t))
        elif isinstance(v, z3.ExprRef) and v.sort() != self.sort(t):
            raise SpecError("sort mismatch: %s as %s" % (v.sort(), t))
        return v

    # ---- basics
    INT = property(lambda s: s.p.bystr["int"])
    BOOL = property(lambda s: s.p.bystr["bool"])
    STR = property(lambda s: s.p.bystr["string"])
    ANY = property(lambda s: s.p.bystr["interface{}"])
    REAL = property(lambda s: s.p.bystr["float64"])

    def boolean(self, node):
        r = self.ev(node)
        if not isinstance(r.v, z3.ExprRef) or r.v.sort() != B:
            raise SpecError("not a formula: " + ast.dump(node)[:100])
        return r.v

    def ev(self, n):
        m = getattr(self, "n_" + type(n).__name__, None)
        if m is None:
            raise SpecError("expression " + type(n).__name__)
        return m(n)

    def n_Constant(self, n):
        v = n.value
        if v is None:
            return TV(NIL, None)
        if isinstance(v, bool):
            return TV(BoolVal(v), self.BOOL)
        if isinstance(v, int):
            return TV(IntVal(v), self.INT)
        if isinstance(v, float):
            return TV(RealVal(str(v)), self.REAL)
        if isinstance(v, str):
            return TV(T.lit(v.encode("utf-8").decode("latin-1")), self.STR)
        raise SpecError("constant")

    def n_Name(self, n):
        i = n.id
        if i in self.env:
            e = self.env[i]
            return e
        if i in GHOSTS:
            key, so, t = GHOSTS[i]
            self.ex.gkey(key, so)
            return TV(self.ex.get(self.st, key), self.gty(t))
        if i in CONSTS:
            return TV(CONSTS[i], self.STR)
        g = self.ex.graph
        if g is not None:
            for gn, gv in g.globals.items():
                if gn.split(".")[-1] == i and is_repo(gn):
                    return TV(gv, g.globtypes[gn])
        if "__consts__" not in self.__class__.__dict__:
            self.__class__.__consts__ = {k.split(".")[-1]: v for k, v in self.p.consts.items()}
        c = self.__class__.__consts__.get(i)
        if c is not None:
            if "str" in c:
                return TV(T.lit(c["str"]), self.STR)
            if "int" in c:
                return TV(IntVal(int(c["int"])), self.INT)
        raise SpecError("unknown name " + i)

    def n_Attribute(self, n):
        if isinstance(n.value, ast.Name) and n.value.id == "THE":
            return self.ex.graph.singleton(n.attr)
        x = self.ev(n.value)
        return self.field(x, n.attr)

    def field(self, x, name):
        if isinstance(x.v, StructV):
            for (fn, ft), v in zip(x.v.type.fields, x.v.vals):
                if fn == name:
                    return TV(v, ft)
            raise SpecError("no field " + name)
        t = x.t
        if isinstance(t, tuple) or t is None or t.under().kind != "pointer":
            raise SpecError("field of " + str(t))
        stt = t.elem
        if stt.under().kind != "struct":
            raise SpecError("field of " + str(t))
        for fn, ft in stt.fields:
            if fn == name:
                return TV(self.ex.read_field(self.st, x.v, stt, fn, ft), ft)
        raise SpecError("no field %s in %s" % (name, stt))

    def n_Subscript(self, n):
        x = self.ev(n.value)
        if isinstance(n.slice, ast.Slice):
            lo = self.ev(n.slice.lower).v if n.slice.lower else IntVal(0)
            if isinstance(x.v, SliceV) and not is_bytes_t(x.v):
                c = self.ex.content(self.st, x.v)
            elif isinstance(x.v, SliceV):
                c = self.ex.content(self.st, x.v)
            else:
                c = x.v
            if c.sort() == Str:
                hi = self.ev(n.slice.upper).v if n.slice.upper else T.slenof(c)
                return TV(T.ssub(c, lo, hi), self.STR)
            th = seqth_of_sort(c.sort())
            hi = self.ev(n.slice.upper).v if n.slice.upper else self.ex.seqlen(c)
            et = x.t[1] if isinstance(x.t, tuple) else x.v.et
            return TV(th.sub(c, lo, hi), ("seq", et))
        i = self.ev(n.slice)
        if isinstance(x.v, SliceV):
            return TV(self.ex.elem(self.st, x.v, i.v), x.v.et)
        if isinstance(x.t, tuple) and x.t[0] == "seq":
            th = seqth_of_sort(x.v.sort())
            es = th.elems(x.v)
            k = num(i.v)
            if es is not None and k is not None and 0 <= k < len(es):
                return TV(es[k], x.t[1])
            return TV(th.at(x.v, i.v), x.t[1])
        if isinstance(x.t, tuple) and x.t[0] in ("arr", "set"):
            return TV(self.ex.sel(x.v, self.coerce(i, x.t[1])), x.t[2] if x.t[0] == "arr" else self.BOOL)
        mt = self.p.bystr["map[string]interface{}"]
        if x.v.sort() == AnyS:
            x = TV(AnyS.amap(x.v), mt)
        if x.t.under().kind == "map":
            v, p = self.ex.map_get(self.st, x.v, x.t, self.coerce(i, x.t.key))
            return TV(v, x.t.elem)
        if x.v.sort() == Str:
            return TV(T.sbyte(x.v, i.v), self.INT)
        raise SpecError("subscript")

    def n_BoolOp(self, n):
        vs = [self.boolean(v) for v in n.values]
        return TV(And(*vs) if isinstance(n.op, ast.And) else Or(*vs), self.BOOL)

    def n_UnaryOp(self, n):
        if isinstance(n.op, ast.Not):
            return TV(Not(self.boolean(n.operand)), self.BOOL)
        x = self.ev(n.operand)
        return TV(simplify(-x.v), x.t)

    def n_IfExp(self, n):
        c = self.boolean(n.test)
        cs = simplify(c)
        if z3.is_true(cs):
            return self.ev(n.body)
        if z3.is_false(cs):
            return self.ev(n.orelse)
        a, b = self.ev(n.body), self.ev(n.orelse)
        if isinstance(a.v, SliceV) and isinstance(b.v, SliceV):
            return TV(SliceV(If(c, a.v.ref, b.v.ref), If(c, a.v.off, b.v.off), If(c, a.v.len, b.v.len), a.v.et), a.t)
        if a.v is NIL:
            return TV(If(c, self.coerce(a, b.t), b.v), b.t)
        if b.v is NIL:
            return TV(If(c, a.v, self.coerce(b, a.t)), a.t)
        if isinstance(a.v, SliceV) or isinstance(b.v, SliceV):
            av = self.ex.content(self.st, a.v) if isinstance(a.v, SliceV) else a.v
            bv = self.ex.content(self.st, b.v) if isinstance(b.v, SliceV) else b.v
            t = a.t if isinstance(a.t, tuple) else b.t if isinstance(b.t, tuple) else ("seq", a.v.et)
            return TV(If(c, av, bv), t)
        if a.v.sort() != b.v.sort():
            if b.v.sort() == AnyS:
                return TV(If(c, self.coerce(a, b.t), b.v), b.t)
            return TV(If(c, a.v, self.coerce(b, a.t)), a.t)
        return TV(If(c, a.v, b.v), a.t)

    def n_BinOp(self, n):
        x, y = self.ev(n.left), self.ev(n.right)
        if isinstance(x.v, SliceV):
            x = TV(self.ex.content(self.st, x.v), self.STR if is_bytes_t(x.v) else ("seq", x.v.et))
        if isinstance(y.v, SliceV):
            y = TV(self.ex.content(self.st, y.v), self.STR if is_bytes_t(y.v) else ("seq", y.v.et))
        a, b = x.v, y.v
        if a.sort() == Str and isinstance(n.op, ast.Add):
            return TV(T.scat(a, b), self.STR)
        if isinstance(x.t, tuple) and x.t[0] == "seq" and isinstance(n.op, ast.Add):
            th = seqth_of_sort(a.sort())
            es = th.elems(b)
            if es is not None:
                for e in es:
                    a = th.snoc(a, e)
                return TV(a, x.t)
            if a.eq(th.nil):
                return y
            return TV(th.cat(a, b), x.t)
        o = n.op
        if isinstance(o, ast.Add):
            r = a + b
        elif isinstance(o, ast.Sub):
            r = a - b
        elif isinstance(o, ast.Mult):
            r = a * b
        elif isinstance(o, ast.FloorDiv):
            r = a / b
        elif isinstance(o, ast.Div):
            r = a / b
        elif isinstance(o, ast.Mod):
            r = a % b
        else:
            raise SpecError("operator")
        return TV(simplify(r), x.t)

    def n_Compare(self, n):
        out = []
        l = self.ev(n.left)
        for op, rn in zip(n.ops, n.comparators):
            r = self.ev(rn)
            out.append(self.compare(l, op, r))
            l = r
        return TV(And(*out) if len(out) > 1 else out[0], self.BOOL)

    def compare(self, l, op, r):
        if isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
            e = self.eq(l, r)
            return e if isinstance(op, (ast.Eq, ast.Is)) else Not(e)
        if isinstance(op, (ast.In, ast.NotIn)):
            if isinstance(r.t, tuple) and r.t[0] == "set":
                e = self.ex.sel(r.v, self.coerce(l, r.t[1]))
            elif isinstance(r.v, z3.ExprRef) and r.v.sort() == AnyS or (not isinstance(r.t, tuple) and r.t.under().kind == "map"):
                mt = self.p.bystr["map[string]interface{}"] if r.v.sort() == AnyS else r.t
                ref = AnyS.amap(r.v) if r.v.sort() == AnyS else r.v
                _, e = self.ex.map_get(self.st, ref, mt, self.coerce(l, mt.key))
            elif isinstance(r.v, SliceV) or isinstance(r.t, tuple):
                # membership in a sequence
                s = r.v if not isinstance(r.v, SliceV) else self.ex.content(self.st, r.v)
                th = seqth_of_sort(s.sort())
                es = th.elems(s)
                if es is not None:
                    e = Or(*[l.v == x for x in es]) if es else BoolVal(False)
                else:
                    k = Const("in?%d" % Ev.depth[0], I)
                    e = Exists([k], And(0 <= k, k < th.len(s), th.at(s, k) == l.v))
            else:
                raise SpecError("in")
            return e if isinstance(op, ast.In) else Not(e)
        a, b = l.v, r.v
        if a.sort() == Str:
            return {ast.Lt: T.slt(a, b), ast.Gt: T.slt(b, a), ast.LtE: Not(T.slt(b, a)), ast.GtE: Not(T.slt(a, b))}[type(op)]
        return {ast.Lt: a < b, ast.Gt: a > b, ast.LtE: a <= b, ast.GtE: a >= b}[type(op)]

    def eq(self, l, r):
        if l.v is NIL and r.v is NIL:
            return BoolVal(True)
        if l.v is NIL or r.v is NIL:
            x = r if l.v is NIL else l
            if isinstance(x.v, SliceV):
                return x.v.ref == 0
            if isinstance(x.v, FnV):
                return BoolVal(False)
            return x.v == self.coerce(TV(NIL, None), x.t)
        a, b = l.v, r.v
        if isinstance(a, SliceV) and isinstance(b, SliceV):
            return And(a.ref == b.ref, a.off == b.off, a.len == b.len)
        if isinstance(a, SliceV):
            return self.ex.content(self.st, a) == b
        if isinstance(b, SliceV):
            return a == self.ex.content(self.st, b)
        if isinstance(a, FnV) or isinstance(b, FnV):
            f = lambda q: fn_id(q) if isinstance(q, FnV) else q
            return f(a) == f(b)
        if isinstance(a, StructV):
            return And(*[self.eq(TV(x, ft), TV(y, ft)) for x, y, (_, ft) in zip(a.vals, b.vals, a.type.fields)])
        if a.sort() != b.sort():
            if a.sort() == AnyS:
                b = self.coerce(r, self.ANY)
            elif b.sort() == AnyS:
                a = self.coerce(l, self.ANY)
            elif a.sort() == R:
                b = z3.ToReal(b)
            elif b.sort() == R:
                a = z3.ToReal(a)
            else:
                raise SpecError("comparison of %s and %s" % (a.sort(), b.sort()))
        return a == b

    # ---- calls
    def n_Call(self, n):
        if isinstance(n.func, ast.Name):
            f = n.func.id
            if f in ("all", "any"):
                return self.quant(f, n.args[0])
            if f == "depth":
                # templates: only for loops nested this deep
                if self.env.get("depth:") != n.args[0].value:
                    raise SpecError("loop of another depth")
                return TV(BoolVal(True), self.BOOL)
            if f == "init":
                # value of a metavariable when the loop is entered
                s0, r0 = self.env["init:"]
                if not isinstance(n.args[0], ast.Name) or "init:" + n.args[0].id not in self.env:
                    e = Ev(self.ex, s0, s0, self.env)
                    e.cur = self.cur or self.st
                    return e.ev(n.args[0])
                acc, t = self.env["init:" + n.args[0].id]
                v = acc(s0, r0)
                if isinstance(v, SliceV) and not is_bytes_t(v):
                    return TV(self.ex.content(s0, v), ("seq", v.et))
                return TV(v, t)
            if f == "was":
                e = Ev(self.ex, self.oldst, self.oldst, self.env)
                e.cur = self.cur or self.st
                return e.ev(n.args[0])
            if f == "new":
                return Ev(self.ex, self.cur or self.st, self.oldst, self.env).ev(n.args[0])
            if f == "old":
                if self.oldst is None:
                    raise SpecError("old() here")
                e = Ev(self.ex, self.oldst, self.oldst, self.env)
                e.cur = self.cur or self.st
                r = e.ev(n.args[0])
                if isinstance(r.v, SliceV):
                    # contents of the old state
                    if not is_bytes_t(r.v):
                        return TV(self.ex.content(self.oldst, r.v), ("seq", r.v.et))
                    return TV(self.ex.content(self.oldst, r.v), self.STR)
                return r
            if f == "imp":
                a = simplify(self.boolean(n.args[0]))
                if z3.is_false(a):
                    return TV(BoolVal(True), self.BOOL)
                return TV(Implies(a, self.boolean(n.args[1])), self.BOOL)
            if f == "iff":
                return TV(self.boolean(n.args[0]) == self.boolean(n.args[1]), self.BOOL)
            if f == "let":
                # let(name, value, body)
                nm = n.args[0].id
                e = Ev(self.ex, self.st, self.oldst, dict(self.env))
                e.env[nm] = self.ev(n.args[1])
                return e.ev(n.args[2])
            b = BUILTINS.get(f)
            if b is not None:
                return b(self, [self.ev(a) for a in n.args])
            sf = self.sp.fns.get(f)
            if sf is not None:
                return self.apply(sf, [self.ev(a) for a in n.args])
            raise SpecError("unknown function " + f)
        raise SpecError("call")

    depth = [0]

    def quant(self, kind, g):
        Ev.depth[0] += 1
        try:
            return self.quant1(kind, g)
        finally:
            Ev.depth[0] -= 1

    def bound(self, nm, so):
        return Const("%s?%d" % (nm, Ev.depth[0]), so)

    def quant1(self, kind, g):
        if not isinstance(g, ast.GeneratorExp):
            raise SpecError("quantifier")
        e = Ev(self.ex, self.st, self.oldst, dict(self.env))
        vs, guards = [], []
        c = g.generators[0]
        if len(g.generators) == 1 and isinstance(c.iter, ast.Call) and c.iter.func.id == "range":
            # a small constant range is expanded
            b = [num(self.ev(x).v) for x in c.iter.args]
            b = [0] + b if len(b) == 1 else b
            if None not in b and b[1] - b[0] <= 24:
                fs = []
                for k in range(b[0], b[1]):
                    e.env[c.target.id] = TV(IntVal(k), self.INT)
                    gs = [e.boolean(i) for i in c.ifs]
                    body = e.boolean(g.elt)
                    fs.append((Implies(And(*gs), body) if kind == "all" else And(*(gs + [body]))) if gs else body)
                return TV((And if kind == "all" else Or)(*fs), self.BOOL)
        for c in g.generators:
            nm = c.target.id
            it = c.iter
            if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "range":
                if len(it.args) == 1:
                    lo, hi = IntVal(0), e.ev(it.args[0]).v
                else:
                    lo, hi = e.ev(it.args[0]).v, e.ev(it.args[1]).v
                x = self.bound(nm, I)
                e.env[nm] = TV(x, self.INT)
                guards += [lo <= x, x < hi]
            elif isinstance(it, ast.Name) and it.id in ("strings", "ints"):
                t = self.STR if it.id == "strings" else self.INT
                x = self.bound(nm, sort_of(t))
                e.env[nm] = TV(x, t)
            elif isinstance(it, ast.Call) and it.func.id == "refs":
                t = self.ty(it.args[0].value)
                x = self.bound(nm, I)
                e.env[nm] = TV(x, t)
            else:
                # over the elements of a concrete sequence
                s = e.ev(it)
                c_ = s.v if not isinstance(s.v, SliceV) else self.ex.content(self.st, s.v)
                th = seqth_of_sort(c_.sort())
                es = th.elems(c_)
                et = s.t[1] if isinstance(s.t, tuple) else s.v.et
                if es is not None and len(g.generators) == 1:
                    fs = []
                    for q in es:
                        e2 = Ev(self.ex, self.st, self.oldst, dict(self.env))
                        e2.env[nm] = TV(q, et)
                        fs.append(Implies(And(*[e2.boolean(i) for i in c.ifs]), e2.boolean(g.elt)) if kind == "all" else And(*([e2.boolean(i) for i in c.ifs] + [e2.boolean(g.elt)])))
                    return TV((And if kind == "all" else Or)(*fs), self.BOOL)
                x = self.bound("ix." + nm, I)
                e.env[nm] = TV(th.at(c_, x), et)
                guards += [0 <= x, x < th.len(c_)]
            vs.append(x)
            guards += [e.boolean(i) for i in c.ifs]
        body = e.boolean(g.elt)
        # a quantifier over a constant range is expanded
        if kind == "all":
            f = Implies(And(*guards), body) if guards else body
            pats = patterns(f, vs)
            return TV(ForAll(vs, f, patterns=pats) if pats else ForAll(vs, f), self.BOOL)
        f = And(*(guards + [body]))
        pats = patterns(f, vs)
        return TV(Exists(vs, f, patterns=pats) if pats else Exists(vs, f), self.BOOL)

    def apply(self, sf, args):
        if len(args) != len(sf.params):
            raise SpecError("arity of " + sf.name)
        ts = [self.ty(t) for _, t in sf.params]
        vs = [self.coerce(a, t) for a, t in zip(args, ts)]
        if sf.kind == "def":
            e = Ev(self.ex, self.st, self.oldst, {})
            e.env = {n: TV(v, t) for (n, _), v, t in zip(sf.params, vs, ts)}
            r = e.ev(sf.ast)
            rt = self.ty(sf.res)
            if r.v is NIL:
                return TV(self.coerce(r, rt), rt)
            return TV(r.v, rt)
        rt = self.ty(sf.res)
        for v in vs:
            if isinstance(v, SliceV):
                raise SpecError("slice argument of " + sf.name)
        if sf.kind == "logic":
            return TV(T.fn(sf.name, *([v.sort() for v in vs] + [self.sort(rt)]))(*vs), rt)
        keys = self.spec_keys(sf)
        arrs = [self.ex.get(self.st, k) for k in keys]
        f = T.fn("spec." + sf.name, *([v.sort() for v in vs] + [a.sort() for a in arrs] + [self.sort(rt)]))
        self.register(sf, f, ts, keys, rt)
        return TV(f(*(vs + arrs)), rt)

    def register(self, sf, f, ts, keys, rt):
        if f.name() in T.RECDEFS:
            return
        ex = self.ex

        def unfold(t):
            s = State()
            s.top = ex.top0
            nv = len(ts)
            for k, i in zip(sf.keys, range(nv, t.num_args())):
                s.heap[k] = t.arg(i)
            e = Ev(ex, s, None, {n: TV(t.arg(i), ty_) for i, ((n, _), ty_) in enumerate(zip(sf.params, ts))})
            r = e.ev(sf.ast)
            v = e.coerce(r, rt)
            return [t == v]
        T.RECDEFS[f.name()] = unfold

    def spec_keys(self, sf):
        if sf.keys is not None:
            return sf.keys
        sf.keys = []
        ts = [self.ty(t) for _, t in sf.params]
        while True:
            s = State()
            s.top = self.ex.top0
            s.heap = TraceHeap()
            e = Ev(self.ex, s, None, {n: TV(T.fresh(n, self.sort(t)), t) for (n, _), t in zip(sf.params, ts)})
            e.ev(sf.ast)
            ks = sorted(s.heap.seen)
            if ks == sf.keys:
                return ks
            sf.keys = ks


class TraceHeap(dict):
    def __init__(self):
        self.seen = set()

    def get(self, k, d=None):
        self.seen.add(k)
        return d


def is_bytes_t(sl):
    u = sl.et.under()
    return u.kind == "basic" and u.d["name"] in ("uint8", "byte")


def patterns(f, vs):
    """one pattern per variable set: prefer at(seq,k) / Select(arr,k) / function applications with the variable as direct argument"""
    names = {v.decl().name(): v for v in vs}
    cand = {n: [] for n in names}
    st, seen = [f], set()
    while st:
        t = st.pop()
        if t.get_id() in seen or z3.is_quantifier(t):
            continue
        seen.add(t.get_id())
        if z3.is_app(t) and t.num_args() > 0:
            k = t.decl().kind()
            if k in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT):
                direct = [a.decl().name() for a in t.children() if z3.is_const(a) and a.decl().name() in names]
                if direct and not has_interp(t, names) and not has_ite(t):
                    for d in direct:
                        cand[d].append(t)
            st.extend(t.children())
    if any(not c for c in cand.values()):
        return None
    # a term covering several variables serves all of them
    if len(names) == 1:
        n = list(names)[0]
        c = cand[n]
        ids = {t.get_id() for t in c}
        small = [t for t in c if not any(x.get_id() in ids for x in proper(t))]
        return sorted(small, key=lambda t: len(str(t)))[:5]
    out = []
    for n in names:
        out.append(sorted(cand[n], key=lambda t: len(str(t)))[0])
    uniq = []
    for t in out:
        if not any(t.eq(u) for u in uniq):
            uniq.append(t)
    return [z3.MultiPattern(*uniq)] if len(uniq) > 1 else uniq


def proper(t):
    out, st, seen = [], list(t.children()), set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        out.append(x)
        st.extend(x.children())
    return out


def has_ite(t):
    return any(z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_EQ, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT) for x in proper(t))


def has_interp(t, names):
    """contains arithmetic or logical symbols applied above a bound variable"""
    def go(x):
        if z3.is_const(x):
            return x.decl().name() in names, False
        u, bad = False, False
        for c in x.children():
            a, b = go(c)
            u |= a
            bad |= b
        if u and x.decl().kind() not in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT, z3.Z3_OP_DT_ACCESSOR, z3.Z3_OP_DT_CONSTRUCTOR):
            bad = True
        return u, bad
    return go(t)[1]


# ------------------------------------------------------------------------------------------ builtin spec functions
BUILTINS = {}


def builtin(name):
    def d(f):
        BUILTINS[name] = f
        return f
    return d


@builtin("len")
def _len(e, a):
    x = a[0]
    if isinstance(x.v, SliceV):
        return TV(x.v.len, e.INT)
    if isinstance(x.t, tuple) and x.t[0] == "seq":
        return TV(e.ex.seqlen(x.v), e.INT)
    if x.t.under().kind == "map":
        dom = e.ex.map_dom(e.st, x.v, x.t)
        return TV(T.fn("card", dom.sort(), I)(dom), e.INT)
    return TV(T.slenof(e.coerce(x, e.STR)), e.INT)


@builtin("seq")
def _seq(e, a):
    x = a[0]
    if isinstance(x.v, SliceV):
        return TV(e.ex.content(e.st, x.v), ("seq", x.v.et))
    if isinstance(x.v, z3.ExprRef) and x.v.sort() == AnyS:
        t = e.p.bystr["[]interface{}"]
        sl = SliceV(simplify(AnyS.aarr(x.v)), IntVal(0), simplify(AnyS.aarrlen(x.v)), t.elem)
        return TV(T.fn("jelems", I, seqth(AnyS).sort)(sl.ref), ("seq", t.elem))
    if isinstance(x.t, tuple):
        return x
    raise SpecError("seq")


@builtin("nilseq")
def _nilseq(e, a):
    raise SpecError("use empty(type)")


@builtin("empty")
def _empty(e, a):
    t = e.ty(T.litval(a[0].v))
    return TV(seqth(e.sort(t)).nil, ("seq", t))


@builtin("snoc")
def _snoc(e, a):
    s = _seq(e, [a[0]])
    th = seqth_of_sort(s.v.sort())
    return TV(th.snoc(s.v, e.coerce(a[1], s.t[1])), s.t)


@builtin("bytes")
def _bytes(e, a):
    return TV(e.coerce(a[0], e.STR), e.STR)


@builtin("fresh")
def _fresh(e, a):
    """object allocated since entry"""
    x = a[0].v
    r = x.ref if isinstance(x, SliceV) else x
    top = e.oldst.top if e.oldst is not None else e.ex.top0
    return TV(r > top, e.BOOL)


@builtin("writable")
def _writable(e, a):
    """a map of the program's own, not nil and not part of a decoded value"""
    return TV(a[0].v > 0, e.BOOL)


def anyfn(name, test, proj, tname):
    @builtin("is" + name)
    def t(e, a):
        f = getattr(AnyS, "is_" + test)(a[0].v)
        if test == "AInt":
            f = And(f, AnyS.aitag(a[0].v) == e.ex.p.bystr["int"].id)
        return TV(f, e.BOOL)

    @builtin("as" + name)
    def p(e, a):
        return TV(simplify(getattr(AnyS, proj)(a[0].v)), e.ty(tname))


anyfn("str", "AStr", "astr", "string")
anyfn("bool", "ABool", "abool", "bool")
anyfn("flt", "AFlt", "aflt", "float64")
anyfn("map", "AMap", "amap", "map[string]interface{}")
anyfn("int", "AInt", "aint", "int")


@builtin("isarr")
def _isarr(e, a):
    return TV(AnyS.is_AArr(a[0].v), e.BOOL)


@builtin("trunc")
def _trunc(e, a):
    return TV(trunc(a[0].v), e.INT)


@builtin("contains")
def _contains(e, a):
    return TV(T.contains(e.coerce(a[0], e.STR), e.coerce(a[1], e.STR)), e.BOOL)


@builtin("itoa")
def _itoa(e, a):
    return TV(T.itoa(a[0].v), e.STR)


def strfn(name, f, res="string"):
    @builtin(name)
    def g(e, a):
        return TV(f(*[e.coerce(x, e.STR) if (isinstance(x.v, SliceV) or x.v.sort() == Str) else x.v for x in a]), e.ty(res))


strfn("tolower", T.tolower)
strfn("trimspace", T.trimspace)
strfn("totitle", T.totitle)
strfn("pint", T.pint, "int")
strfn("pintok", T.pintok, "bool")
strfn("puint", T.puint, "int")
strfn("puintok", T.puintok, "bool")


@builtin("value")
def _value(e, a):
    """Any holding the value"""
    return TV(e.coerce(a[0], e.ANY), e.ANY)


@builtin("dom")
def _dom(e, a):
    x = a[0]
    mt = e.p.bystr["map[string]interface{}"]
    ref = AnyS.amap(x.v) if x.v.sort() == AnyS else x.v
    return TV(e.ex.map_dom(e.st, ref, mt), ("set", e.STR))


@builtin("vals")
def _vals(e, a):
    x = a[0]
    mt = e.p.bystr["map[string]interface{}"]
    ref = AnyS.amap(x.v) if x.v.sort() == AnyS else x.v
    return TV(e.ex.map_val(e.st, ref, mt), ("arr", e.STR, e.ANY))


@builtin("nil")
def _nil(e, a):
    return TV(ANil, e.ANY)


@builtin("noset")
def _noset(e, a):
    return TV(z3.K(Str, BoolVal(False)), ("set", e.STR))


@builtin("noval")
def _noval(e, a):
    return TV(z3.K(Str, ANil), ("arr", e.STR, e.ANY))


# JSON values as decoded: members, elements
@builtin("jdom")
def _jdom(e, a):
    import models as M
    return TV(M.jdom(AnyS.amap(a[0].v)), ("set", e.STR))


@builtin("jvals")
def _jvals(e, a):
    import models as M
    return TV(M.jval(AnyS.amap(a[0].v)), ("arr", e.STR, e.ANY))


@builtin("jget")
def _jget(e, a):
    import models as M
    return TV(Select(M.jval(AnyS.amap(a[0].v)), e.coerce(a[1], e.STR)), e.ANY)


@builtin("isjson")
def _isjson(e, a):
    import models as M
    return TV(M.jkind(a[0].v), e.BOOL)


@builtin("jelems")
def _jelems(e, a):
    import models as M
    return TV(M.jelems(AnyS.aarr(a[0].v)), ("seq", e.ANY))


@builtin("store")
def _store(e, a):
    x = a[0]
    return TV(Store(x.v, e.coerce(a[1], x.t[1]), e.coerce(a[2], x.t[2] if x.t[0] == "arr" else e.BOOL)), x.t)


@builtin("isa")
def _isa(e, a):
    """dynamic type test: isa(x, "*pkg.T")"""
    t = e.ty(T.litval(a[1].v))
    ok, _ = e.ex.any_test(a[0].v, t)
    return TV(ok, e.BOOL)


@builtin("wrap")
def _wrap(e, a):
    return TV(e.ex.to_any(e.st, a[0].v, a[0].t), e.ANY)


@builtin("isnil")
def _isnil(e, a):
    return TV(e.eq(a[0], TV(NIL, None)), e.BOOL)


def declfn(name, decl, res):
    """uninterpreted function of the models, usable in contracts"""
    @builtin(name)
    def g(e, a):
        vs = []
        for i, x in enumerate(a):
            so = decl.domain(i)
            if so == Str:
                vs.append(e.coerce(x, e.STR))
            elif so == AnyS:
                vs.append(e.coerce(x, e.ANY))
            elif so == R:
                vs.append(e.coerce(x, e.REAL))
            else:
                vs.append(e.ex.content(e.st, x.v) if isinstance(x.v, SliceV) else x.v)
        return TV(decl(*vs), e.gty(res))


CONSTS = {}


def install_models():
    import models as M
    GHOSTS.update(M.GH)
    CONSTS.update({"exePath": M.EXE, "homeDir": M.HOME})
    m = {"set": ("set", "string"), "arr": ("arr", "string", "interface{}"), "strs": ("seq", "string"), "anys": ("seq", "interface{}")}
    for n, d, r in (("jsonok", M.jsonok, "bool"), ("jsondec", M.jsondec, "interface{}"), ("yamlok", M.yamlok, "bool"), ("yamlnil", M.yamlnil, "bool"),
                    ("ydom", M.ydom, "set"), ("yval", M.yval, "arr"), ("yamlenc", M.yenc, "string"), ("b64ok", M.b64ok, "bool"), ("b64dec", M.b64dec, "string"),
                    ("hmac", M.hmacf, "string"), ("hash", M.hashf, "string"), ("cbcdecrypt", M.cbc, "string"), ("pbkdf2", M.pbk, "string"),
                    ("le64", M.le64, "int"), ("hexenc", M.hexenc, "string"), ("split", M.splitf, "strs"), ("fields", M.fieldsf, "strs"),
                    ("replaceall", M.replall, "string"), ("trimsuffix", M.trimsuf, "string"), ("timefmt", M.tfmt, "string"), ("bandfiles", M.bandglob, "strs"),
                    ("gunzip", M.gunzip, "string"), ("gzok", M.gzok, "bool"), ("tarn", M.tarn, "int"), ("tarok", M.tarok, "bool"), ("tarname", M.tname, "string"),
                    ("tartype", M.ttype, "int"), ("tarbody", M.tbody, "string"), ("tarmode", M.tmode, "int"), ("permbits", M.permbits, "int"),
                    ("filemode", M.filemode, "int"), ("pbase", M.pbase, "string"),
                    ("hasprefix", M.hasprefix, "bool"), ("tablerender", M.trender, "string"), ("sortedkeys", M.sortedkeys, "strs"), ("formatfloat", M.ffmt, "string"), ("mudom", M.mud, "set"), ("muval", M.muv, "arr")):
        declfn(n, d, m.get(r, r))

    @builtin("pjoin")
    def _pj(e, a):
        return TV(M.joinn([e.coerce(x, e.STR) for x in a]), e.STR)

    @builtin("pclean")
    def _pc(e, a):
        x = e.coerce(a[0], e.STR)
        v = T.litval(x)
        return TV(T.lit(M.goclean(v)) if v is not None else M.pclean(x), e.STR)

    @builtin("boolstr")
    def _bs(e, a):
        return TV(M.boolstr(a[0].v), e.STR)

    @builtin("fmtany")
    def _fa(e, a):
        return TV(M.fmt_any(e.ex, e.st, e.coerce(a[0], e.ANY)), e.STR)

    @builtin("errmsg")
    def _em(e, a):
        v = simplify(a[0].v)
        if z3.is_app(v) and v.decl().eq(AnyS.AOth):
            return TV(M.msg(v.arg(1)), e.STR)
        return TV(M.errmsg(AnyS.aoid(v)), e.STR)

    @builtin("tarpos")
    def _tp(e, a):
        return TV(e.ex.models.hget(e.ex, e.st, "tar.pos", I, a[0].v), e.INT)

    @builtin("tararch")
    def _ta(e, a):
        return TV(e.ex.models.hget(e.ex, e.st, "tar.arch", Str, a[0].v), e.STR)

    @builtin("setof")
    def _so(e, a):
        return a[0]

    for f, so in M.VF.items():
        def mk(f, so):
            @builtin("v" + f)
            def g(e, a):
                return TV(e.ex.models.hget(e.ex, e.st, "view." + f, so, a[0].v), e.STR if so == Str else e.INT)
        mk(f, so)


# ------------------------------------------------------------------------------------------ effects
def static_writes(ex, name, seen=None):
    """heap keys a repository function may write (transitively), and the globals it assigns"""
    memo = ex.__dict__.setdefault("_sw", {})
    if name in memo:
        return memo[name]
    keys, globs = set(), set()
    todo, done = [name], set()
    while todo:
        n = todo.pop()
        if n in done:
            continue
        done.add(n)
        fn = ex.p.fns.get(n)
        if fn is None:
            keys |= set(ex.models.effects(ex, n))
            continue
        defs = {}
        for b, i in fn.instrs():
            if "n" in i:
                defs[i["n"]] = i
        for b, i in fn.instrs():
            op = i["op"]
            if op == "Alloc":
                t = ex.p.types[i["elem"]]
                if t.str in ("strings.Builder", "bytes.Buffer"):
                    keys.add(ex.models.hkey(ex, "reader.buf", Str))
                if t.under().kind == "struct" and not is_time(t) and not is_ext_struct(t):
                    for fnm, ft in t.fields:
                        keys |= {k for k, _ in ex.fkeys(t, fnm, ft)}
                elif t.under().kind == "array":
                    try:
                        keys.add(ex.skey(t.elem))
                    except Unsupported:
                        pass
            elif op == "Store":
                a = i["addr"]
                if a["k"] == "global":
                    globs.add(a["n"])
                elif a["k"] == "reg":
                    d = defs.get(a["n"])
                    if d is not None and d["op"] == "FieldAddr":
                        pt = ex.p.types[d["x"]["type"]].elem
                        fnm, ft = pt.fields[d["field"]]
                        keys |= {k for k, _ in ex.fkeys(pt, fnm, ft)}
                    elif d is not None and d["op"] == "IndexAddr":
                        xt = ex.p.types[d["x"]["type"]]
                        et = xt.elem.elem if xt.under().kind == "pointer" else xt.elem
                        try:
                            keys.add(ex.skey(et))
                        except Unsupported:
                            pass
                    t = ex.p.types[a["type"]].elem
                    if t.under().kind == "struct" and not is_time(t) and not is_ext_struct(t):
                        for fnm, ft in t.fields:
                            keys |= {k for k, _ in ex.fkeys(t, fnm, ft)}
            elif op in ("MakeMap",):
                keys |= set(ex.mkeys(ex.p.types[i["type"]]))
            elif op == "MapUpdate":
                keys |= set(ex.mkeys(ex.p.types[i["map"]["type"]]))
            elif op == "MakeSlice":
                try:
                    keys.add(ex.skey(ex.p.types[i["type"]].elem))
                except Unsupported:
                    pass
            elif op == "Convert":
                t = ex.p.types[i["type"]]
                if t.under().kind == "slice":
                    keys.add(ex.skey(t.elem))
            elif op == "MakeClosure":
                todo.append(i["fn"])
            if op in ("Call", "Defer", "Go"):
                c = i["call"]
                for a in c["args"]:
                    if a["k"] == "func":
                        todo.append(a["n"])
                if "invoke" in c:
                    it = ex.p.types[c["iface"]]
                    if it.str in ex.p.interfaces and is_repo(it.str):
                        for impl in ex.p.iface_impl(it.str):
                            todo.append(ex.p.methods_of(it.str, impl)[c["invoke"]])
                    else:
                        keys |= set(ex.models.effects(ex, c["methodfull"]))
                elif "static" in c:
                    todo.append(c["static"])
                elif c["fn"]["k"] == "builtin":
                    if c["fn"]["n"] in ("append", "copy"):
                        t = ex.p.types[c["args"][0]["type"]]
                        try:
                            keys.add(ex.skey(t.elem))
                        except Unsupported:
                            pass
                    elif c["fn"]["n"] == "delete":
                        keys |= set(ex.mkeys(ex.p.types[c["args"][0]["type"]]))
                else:
                    todo += dyn_targets(ex, ex.p.types[c["sig"]])
    memo[name] = (keys, globs)
    return memo[name]


def dyn_targets(ex, sig):
    """functions whose value is taken and whose signature matches"""
    memo = ex.__dict__.setdefault("_dyn", {})
    if sig.str in memo:
        return memo[sig.str]
    out = set()
    want = re.sub(r"[a-zA-Z_]\w* (?=[\w*\[])", "", sig.str)

    def params_of(fn):
        return [t.str for _, t in fn.params], [t.str for t in fn.results]
    ps = [ex.p.types[x].str for x in (sig.under().d["params"] or [])]
    rs = [ex.p.types[x].str for x in (sig.under().d["results"] or [])]
    for f in ex.p.fns.values():
        for _, i in f.instrs():
            names = []
            if i["op"] == "MakeClosure":
                names.append(i["fn"])
            for q in ("x", "val"):
                if isinstance(i.get(q), dict) and i[q].get("k") == "func":
                    names.append(i[q]["n"])
            if "call" in i:
                names += [a["n"] for a in i["call"]["args"] if a.get("k") == "func"]
            for n in names:
                g = ex.p.fns.get(n)
                if g is not None and params_of(g) == (ps, rs):
                    out.add(n)
    memo[sig.str] = sorted(out)
    return memo[sig.str]


def mod_targets(ex, ev, clauses, prop):
    """evaluate modifies clauses: dict key -> list of refs, or None for 'anywhere'"""
    out = {}
    for c in clauses:
        n = c.ast
        if isinstance(n, ast.Name) and n.id in GHOSTS:
            key, so, t = GHOSTS[n.id]
            ex.gkey(key, so)
            out[key] = None
        elif isinstance(n, ast.Attribute):
            x = ev.ev(n.value)
            stt = x.t.elem
            for fn, ft in stt.fields:
                if fn == n.attr:
                    for k, _ in ex.fkeys(stt, fn, ft):
                        out.setdefault(k, []).append(x.v)
        elif isinstance(n, ast.Call):
            f = n.func.id
            if f == "elems":
                x = ev.ev(n.args[0])
                out.setdefault(ex.skey(x.v.et), []).append(x.v.ref)
            elif f == "mapof":
                x = ev.ev(n.args[0])
                for k in ex.mkeys(x.t):
                    out.setdefault(k, []).append(x.v)
            elif f == "object":
                x = ev.ev(n.args[0])
                stt = x.t.elem
                for fn, ft in stt.fields:
                    for k, _ in ex.fkeys(stt, fn, ft):
                        out.setdefault(k, []).append(x.v)
            elif f == "anything":
                stt = ev.ty(n.args[0].value)
                for fn, ft in stt.fields:
                    if len(n.args) == 1 or fn in [a.value for a in n.args[1:]]:
                        for k, _ in ex.fkeys(stt, fn, ft):
                            out[k] = None
            else:
                raise SpecError("modifies " + c.src)
        else:
            raise SpecError("modifies " + c.src)
    if "faults" in GHOSTS:
        key, so, t = GHOSTS["faults"]
        ex.gkey(key, so)
        out[key] = None
    return out


def active_invs(ex, c):
    for n, cl in ex.contracts.invs.items():
        if cl.active(ex.contracts.prop) and n not in c.noinv and (cl.on is None or c.target.startswith(cl.on)):
            yield n, cl


def call_contract(ex, st, fn, c, args):
    """modular call: requires is proved, modified locations become arbitrary, ensures is assumed"""
    prop = ex.contracts.prop
    env = {}
    for pn, (rn, t), a in zip(c.params, fn.params, args):
        env[pn] = TV(a, t)
        if isinstance(a, SliceV) and not is_bytes_t(a):
            ex.need_full(st, a, "argument %s of %s" % (pn, c.target))
    pre = st.fork()
    ev = Ev(ex, pre, pre, env)
    for r in c.requires:
        if r.active(prop):
            ex.obligation(st, ev.boolean(r.ast), "requires", "%s requires %s" % (c.target, r.src))
    for n, cl in active_invs(ex, c):
        prove_inv(ex, st, n, cl, "before call of " + c.target)
    for pn, eff in c.callbacks.items():
        f = env[pn].v
        g = fn_of(f)
        if g is not None and g.name in ex.p.fns:
            ks, _ = static_writes(ex, g.name)
            base = {x.split("!")[0] for x in eff}
            bad = [k for k in ks if k.startswith("$") and k not in base]
            if bad:
                ex.obligation(st, BoolVal(False), "requires", "%s: callback %s only changes %s" % (c.target, pn, eff))
        elif g is None and not (ex.cur is not None and ex.cur.callbacks):
            ex.obligation(st, BoolVal(False), "requires", "%s: callback %s is known" % (c.target, pn))
    mods = mod_targets(ex, ev, c.modifies, prop)
    keys, globs = static_writes(ex, fn.name)
    keys = set(keys)
    top_pre = pre.top
    tag = "C%d" % next(ex.cellid)
    if not hasattr(ex, "history"):
        ex.history = {}
    arrs = sorted(k for k in keys if ex.meta.get(k, (0, "ghost"))[1] != "ghost")
    if arrs:
        st.top = Int("top." + tag)
        TOPGE["top." + tag] = simplify(top_pre)
        st.assume(st.top >= top_pre)
    ghosts = [k for k in mods if ex.meta[k][1] == "ghost" and (k != "$faults" or k in keys)]
    for k in arrs + ghosts:
        st.heap[k] = ex.key_const(k, tag)
        if k == "$faults":
            st.assume(st.heap[k] >= ex.get(pre, k))
    for g in globs:
        if g in st.cells:
            del st.cells[g]
    for k in arrs:
        ex.facts(k, st.heap[k], st, st.top)
        a, b = st.heap[k], ex.get(pre, k)
        m = mods.get(k, [])
        if m is None:
            continue
        r = Int("r")
        st.assume(ForAll([r], Implies(And(r <= top_pre, *[r != x for x in m]), Select(a, r) == Select(b, r)), patterns=[Select(a, r)]))
        ex.history[a.decl().name()] = (b, list(m), top_pre)
        if m and ex.meta[k][1] == "bytes":
            st.assume(And(*[Implies(x <= top_pre, T.slen(Select(a, x)) == T.slen(Select(b, x))) for x in m]))
        if m and ex.meta[k][1] == "seq":
            th = seqth_of_sort(ex.meta[k][0])
            st.assume(And(*[Implies(x <= top_pre, th.len(Select(a, x)) == th.len(Select(b, x))) for x in m]))
    results = []
    for i, t in enumerate(fn.results):
        nm = c.results[i] if i < len(c.results) else "r%d" % i
        v = ex.fresh_val(st, t, "%s.%s.%s" % (tag, short(c.target), nm))
        results.append(v)
        env[nm] = TV(v, t)
    if len(fn.results) == 1:
        env.setdefault("result", TV(results[0], fn.results[0]))
    post = Ev(ex, st, pre, env)
    outs = []
    if c.mayexit:
        es = st.fork()
        ex.models.setg(ex, es, "exitcode", T.fresh("exitcode", I))   # an exit inside the callee: its status is known only from onexit
        for q in c.onexit:
            if q.active(prop):
                es.assume(Ev(ex, es, pre, env).boolean(q.ast))
        outs.append(Out("exit", es, None, "exit in " + c.target))
    for q in c.ensures + c.assumes:
        if q.active(prop):
            st.assume(post.boolean(q.ast))
            if q.kind == "assume":
                ex.assumed.add("%s: %s" % (c.target, q.src))
    for n, cl in active_invs(ex, c):
        f = inv_formula(ex, st, n, cl)
        known = st.marks.get("inv:" + n)
        if known is None or not known.eq(f):
            st.assume_inv(f)
            st.marks["inv:" + n] = f
    outs.append(Out("return", st, None, ex.result_value(results)))
    return outs


class TraceDict(dict):
    """remembers what was read"""
    __slots__ = ("seen",)

    def get(self, k, d=None):
        self.seen.add(k)
        return dict.get(self, k, d)

    def __getitem__(self, k):
        self.seen.add(k)
        return dict.__getitem__(self, k)

    def __contains__(self, k):
        self.seen.add(k)
        return dict.__contains__(self, k)


def inv_formula(ex, st, n, cl):
    """the invariant in state st; not evaluated again while what it reads is the same"""
    cache = ex.__dict__.setdefault("invcache", {}).setdefault((ex.contracts.prop, n), [])
    for hs, cs, f in cache:
        if all(st.heap.get(k) is v for k, v in hs) and all(st.cells.get(k) is v for k, v in cs):
            return f
    t = st.fork()
    t.heap, t.cells = TraceDict(t.heap), TraceDict(t.cells)
    t.heap.seen, t.cells.seen = set(), set()
    npc, nh = len(t.pc), len(t.heap)
    f = Ev(ex, t, None, {}).boolean(cl.ast)
    if len(t.pc) != npc or len(t.heap) != nh or len(t.cells) != len(st.cells):
        return Ev(ex, st, None, {}).boolean(cl.ast)
    cache.insert(0, ([(k, st.heap.get(k)) for k in t.heap.seen], [(k, st.cells.get(k)) for k in t.cells.seen], f))
    del cache[12:]
    return f


def prove_inv(ex, st, n, cl, where):
    f = inv_formula(ex, st, n, cl)
    known = st.marks.get("inv:" + n)
    if known is not None and known.eq(f):
        return
    ex.obligation(st, f, "inv", "%s %s: %s" % (n, where, cl.src))
    st.marks = dict(st.marks)
    st.marks["inv:" + n] = f


# ------------------------------------------------------------------------------------------ templates
def metavars(n):
    return sorted({x.id for x in ast.walk(n) if isinstance(x, ast.Name) and re.match(r"_[a-z]", x.id)})


def mv_ok(name, t, v):
    k = name[1]
    if k in "ijn":
        return isinstance(v, z3.ExprRef) and v.sort() == I and (t is None or (not isinstance(t, tuple) and t.under().kind == "basic"))
    if k in "sa":
        return isinstance(v, SliceV)
    if k == "k":
        return isinstance(t, tuple)
    if k == "p":
        return isinstance(v, z3.ExprRef) and v.sort() == I and t is not None and not isinstance(t, tuple) and t.under().kind == "pointer"
    if k == "m":
        return isinstance(v, z3.ExprRef) and v.sort() == I and t is not None and not isinstance(t, tuple) and t.under().kind == "map"
    if k == "b":
        return isinstance(v, z3.ExprRef) and v.sort() == B
    if k == "t":
        return isinstance(v, z3.ExprRef) and v.sort() == Str
    return True


def instantiate_templates(ex, pool, st, regs, st_in=None, regs_in=None, depth=1):
    c = ex.cur
    prop = ex.contracts.prop
    out = []
    for tp in c.templates:
        if not tp.active(prop):
            continue
        mv = metavars(tp.ast)
        opts = []
        for m in mv:
            o = []
            for name, t, acc, role in pool:
                v = acc(st, regs)
                if mv_ok(m, t, v) and not (m[1] == "s" and role == "i") and not (m[1] == "a" and role == "v") and not (role == "o" and sum(x[1] in "ijn" for x in mv) < 2):
                    o.append((name, t, acc))
            opts.append(o)
        combos = list(itertools.islice(itertools.product(*opts), 600))
        for combo in combos:
            def build(s_, rg, combo=combo, tp=tp, mv=mv):
                env = dict(ex.cur_env)
                for m, (name, t, acc) in zip(mv, combo):
                    v = acc(s_, rg)
                    env[m] = TV(v, t)
                    try:
                        env["init:" + m] = (acc, t)
                    except Exception:
                        pass
                env["init:"] = (st_in, regs_in)
                env["depth:"] = depth
                return Ev(ex, s_, ex.entry, env).boolean(tp.ast)
            try:
                build(st, regs)
            except (SpecError, z3.Z3Exception, AttributeError, Unsupported) as e:
                import loops
                if loops.DEBUG:
                    print("   template", tp.src[:60], [x[0] for x in combo], "->", repr(e)[:200])
                continue
            out.append(("T:%s %s" % (tp.src[:70], [x[0] for x in combo]), build))
    return out


# ------------------------------------------------------------------------------------------ verification of one function
class Report:
    def __init__(self, target):
        self.target = target
        self.obls = []
        self.called = set()
        self.paths = 0
        self.error = None
        self.time = 0.0


def entry_state(ex, fn, c):
    st = State()
    st.top = ex.top0
    st.assume(ex.top0 >= ex.graph.maxref)
    env, args = {}, []
    for pn, (rn, t) in zip(c.params, fn.params):
        g = ex.graph.singleton_of_type(t)
        if g is not None:
            v = IntVal(g)
        else:
            v = ex.fresh_val(st, t, "arg." + pn)
            if t.under().kind == "pointer" and pn == "self":
                st.assume(v != 0)
        env[pn] = TV(v, t)
        args.append(v)
    return st, env, args


def verify(ex, fn, c):
    """all obligations of fn against contract c for property ex.contracts.prop"""
    import time
    prop = ex.contracts.prop
    t0 = time.time()
    ex.obls = []
    ex.failed = 0
    ex.memo = None
    ex.seen = None
    ex.rough = 0
    ex.cur = c
    ex.pos = fn.pos
    try:
        st, env, args = entry_state(ex, fn, c)
        ex.cur_env = env
        ex.cur_params = {k: v.v for k, v in env.items()}
        ex.entry = st
        ev = Ev(ex, st, st, env)
        for a in ex.contracts.axioms:
            st.assume(ev.boolean(a.ast))
        for r in c.requires:
            if r.active(prop):
                st.assume(ev.boolean(r.ast))
        for n, cl in active_invs(ex, c):
            f = Ev(ex, st, None, {}).boolean(cl.ast)
            st.assume_inv(f)
            st.marks["inv:" + n] = f
        ex.entry = st.fork()
        # the precondition must be satisfiable
        r, _ = T.check(st.pc, BoolVal(False), timeout=1000, fuel=1)
        ex.record(st, "cover", "precondition is satisfiable", "refuted" if r == "proved" else "proved", 0.0)
        outs = ex.run_fn(fn, args, st.fork(), c.bindings)
        nret = 0
        for o in outs:
            if o.kind == "return":
                nret += 1
                finish(ex, fn, c, o, env)
            elif o.kind == "exit":
                e = Ev(ex, o.st, ex.entry, env)
                for q in c.onexit:
                    if q.active(prop):
                        ex.pos = fn.pos
                        ex.prove(o.st, e.boolean(q.ast), "onexit", q.src)
                if not c.mayexit and "noexit" in c.flags:
                    ex.prove(o.st, BoolVal(False), "noexit", "the program is not ended here")
            else:
                ex.record(o.st, "internal", "outcome " + o.kind, "unknown", 0)
        ex.record(st, "cover", "some path returns or ends", "proved" if outs else "unknown", 0.0)
    except Stop as e:
        ex.record(None, "stopped", str(e), "unknown", 0)
    except (Unsupported, SpecError, RecursionError) as e:
        ex.record(None, "unsupported", "%s: %s" % (type(e).__name__, e), "unknown", 0)
    except Exception as e:
        import traceback
        tb = traceback.format_exc().strip().split("\n")
        ex.record(None, "unsupported", "%s: %s (%s)" % (type(e).__name__, str(e)[:300], " | ".join(x.strip() for x in tb[-8:-1])), "unknown", 0)
    rep = Report(c.target)
    rep.obls = ex.obls
    rep.called = set(ex.called)
    rep.paths = ex.paths
    rep.time = time.time() - t0
    return rep


def finish(ex, fn, c, o, env):
    prop = ex.contracts.prop
    env = dict(env)
    for i, (v, t) in enumerate(zip(o.data, fn.results)):
        nm = c.results[i] if i < len(c.results) else "r%d" % i
        env[nm] = TV(v, t)
        if i == 0 and len(fn.results) == 1:
            env.setdefault("result", env[nm])
        if isinstance(v, SliceV) and not is_bytes_t(v):
            ex.pos = fn.pos
            ex.need_full(o.st, v, "result")
    e = Ev(ex, o.st, ex.entry, env)
    ex.pos = fn.pos
    for q in c.ensures:
        if q.active(prop):
            goal = e.boolean(q.ast)
            ex.prove(o.st, goal, "ensures", q.src)
    for n, cl in active_invs(ex, c):
        prove_inv(ex, o.st, n, cl, "at return")
    # frame
    mods = mod_targets(ex, Ev(ex, ex.entry, ex.entry, env), c.modifies, prop)
    allowed, globs = static_writes(ex, fn.name)
    for k in sorted(o.st.heap):
        a, b = o.st.heap[k], ex.get(ex.entry, k)
        if a.eq(b):
            continue
        role = ex.meta[k][1]
        if role == "ghost":
            if k not in mods:
                ex.prove(o.st, a == b, "frame", "%s unchanged" % k)
            continue
        if k not in allowed:
            ex.record(o.st, "internal", "effect analysis misses " + k, "unknown", 0)
        m = mods.get(k, [])
        if m is None:
            continue
        acc = []
        import loops
        ex.__dict__.setdefault("history", {})
        if loops.chain_refs(ex, a, b, acc):
            todo = []
            for r in acc:
                d = simplify(r - ex.top0)
                if z3.is_int_value(d) and d.as_long() > 0 or above(("top0", 0), simplify(r)):
                    continue
                if any(r.eq(x) for x in m):
                    continue
                todo.append(r)
            if not todo:
                continue
        r = T.fresh("r", I)
        ex.prove(o.st, Implies(And(r <= ex.top0, *[r != x for x in m]), Select(a, r) == Select(b, r)), "frame", "%s changes only where declared" % short(k))
