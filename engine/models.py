"""Trusted contracts of everything outside the repository (standard library, gocui, cobra, yaml, ...).
Every function here is an assumption; the ones a check used are listed in its evidence."""
import re
import z3
from z3 import And, Or, Not, Implies, If, ForAll, Exists, Int, IntVal, BoolVal, RealVal, Const, Select, Store, simplify
import terms as T
from terms import I, B, R, Str, AnyS, ANil, seqth, fn, lit, litval, scat
from values import *
from exec import Out, num, seqth_of_sort, trunc, State

SS = seqth(Str)
AS = seqth(AnyS)

# ------------------------------------------------------------------ tags of AOth values
ERR, HASH, BODY, INFO, BLOCK, MODE, WRITER, SOCK = 1, 2, 3, 4, 5, 6, 7, 8
EOF, UNKVIEW, QUIT, SHORTW = 1, 2, 3, 4
errmsg = fn("errmsg", I, Str)
_errlit = {}


def err(i):
    return AnyS.AOth(IntVal(ERR), i if isinstance(i, z3.ExprRef) else IntVal(i))


# ------------------------------------------------------------------ ghost state
GH = {
    "out": ("$out", Str, "string"),                       # everything printed on the terminal
    "answers": ("$answers", SS.sort, ("seq", "string")),  # values read with Scanln
    "password": ("$password", Str, "string"),             # last password read from the terminal
    "exists": ("$exists", z3.ArraySort(Str, B), ("set", "string")),
    "isdir": ("$isdir", z3.ArraySort(Str, B), ("set", "string")),
    "content": ("$content", z3.ArraySort(Str, Str), ("arr", "string", "string")),
    "mode": ("$mode", z3.ArraySort(Str, I), ("arr", "string", "int")),
    "writes": ("$writes", z3.ArraySort(Str, I), ("arr", "string", "int")),
    "feed": ("$feed", Str, "string"),                     # body of the last HTTP reply read as a whole
    "feeds": ("$feeds", I, "int"),                        # number of HTTP requests to the release feed
    "served": ("$served", z3.ArraySort(Str, Str), ("arr", "string", "string")),   # last body copied, per URL
    "now": ("$now", R, "float64"),                        # last reading of the clock
    "mark": ("$mark", Str, "string"),                     # the output when the password was read
    "ticks": ("$ticks", I, "int"),                        # number of readings of the clock
    "clock": ("$clock", z3.ArraySort(I, R), ("arr", "int", "float64")),   # the readings
    "views": ("$views", z3.ArraySort(Str, I), ("arr", "string", "int")),
    "current": ("$current", Str, "string"),
    "exitcode": ("$exit", I, "int"),
    "faults": ("$faults", I, "int"),                      # number of file, network and archive operations that failed
}
VF = {"buf": Str, "ox": I, "oy": I, "cx": I, "cy": I, "w": I, "h": I}
EXE = Const("exePath", Str)
HOME = Const("homeDir", Str)
hasprefix = fn("hasprefix", Str, Str, B)
pjoin = fn("pjoin", Str, Str, Str)
pbase = fn("pbase", Str, Str)
pclean = fn("pclean", Str, Str)
isclean = fn("isclean", Str, B)
jsonok = fn("jsonok", Str, B)
jsondec = fn("jsondec", Str, AnyS)
jdom = fn("jdom", I, z3.ArraySort(Str, B))
jval = fn("jval", I, z3.ArraySort(Str, AnyS))
jelems = fn("jelems", I, AS.sort)
yamlok = fn("yamlok", Str, B)
yamlnil = fn("yamlnil", Str, B)
ydom = fn("ydom", Str, z3.ArraySort(Str, B))
yval = fn("yval", Str, z3.ArraySort(Str, AnyS))
yenc = fn("yamlenc", z3.ArraySort(Str, B), z3.ArraySort(Str, AnyS), Str)
mud = fn("mudom", z3.ArraySort(Str, B), z3.ArraySort(Str, B), z3.ArraySort(Str, B))
muv = fn("muval", z3.ArraySort(Str, B), z3.ArraySort(Str, AnyS), z3.ArraySort(Str, AnyS), z3.ArraySort(Str, AnyS))
b64ok, b64dec = fn("b64ok", Str, B), fn("b64dec", Str, Str)
hmacf = fn("hmac", Str, Str, Str, Str)          # hash name, key, message
hashf = fn("hash", Str, Str, Str)               # hash name, message
cbc = fn("cbcdecrypt", Str, Str, Str, Str)
pbk = fn("pbkdf2", Str, Str, I, I, Str, Str)
le64 = fn("le64", Str, I)
hexenc = fn("hex", Str, Str)
splitf = fn("split", Str, Str, SS.sort)
fieldsf = fn("fields", Str, SS.sort)
replall = fn("replaceall", Str, Str, Str, Str)
replacer = fn("replacer", SS.sort, Str, Str)
trimsuf = fn("trimsuffix", Str, Str, Str)
fmtany = fn("fmtany", AnyS, Str)
fmtother = fn("fmtother", Str, AnyS, Str)
tfmt = fn("timefmt", R, Str, Str)
ffmt = fn("formatfloat", R, I, I, I, Str)
sortedkeys = fn("sortedkeys", z3.ArraySort(Str, B), SS.sort)
bandglob = fn("bandfiles", Str, SS.sort)
globf = fn("glob", Str, SS.sort)
globok = fn("globok", Str, B)
escglob = fn("escapeglob", Str, Str)
gunzip, gzok = fn("gunzip", Str, Str), fn("gzok", Str, B)
tarn, tarok = fn("tarn", Str, I), fn("tarok", Str, B)
tname, ttype = fn("tarname", Str, I, Str), fn("tartype", Str, I, I)
tbody, tmode = fn("tarbody", Str, I, Str), fn("tarmode", Str, I, I)
permbits = fn("permbits", I, I)
filemode = fn("filemode", I, I)
alignf = fn("align", I, Str, I, Str)
trender = fn("tablerender", SS.sort, Str)
boolstr = lambda b: If(b, lit("true"), lit("false"))

_s, _t, _u, _d, _v = Const("s", Str), Const("t", Str), Const("u", Str), Const("d", z3.ArraySort(Str, B)), Const("v", z3.ArraySort(Str, AnyS))
_e, _w = Const("e", z3.ArraySort(Str, B)), Const("w", z3.ArraySort(Str, AnyS))
_n, _k = Int("n"), Int("k")


def jkind(x, neg=True):
    return Or(x == ANil, AnyS.is_AStr(x), AnyS.is_ABool(x), AnyS.is_AFlt(x), And(AnyS.is_AMap(x), AnyS.amap(x) < 0),
              And(AnyS.is_AArr(x), AnyS.aarr(x) < 0, AnyS.aarrlen(x) == AS.len(jelems(AnyS.aarr(x))), AnyS.aarrlen(x) >= 0))


ax = T.axiom
ax(["jsondec"], ForAll([_s], jkind(jsondec(_s)), patterns=[jsondec(_s)]))
# the empty text is no JSON value
ax(["jsonok"], ForAll([_s], Or(Not(jsonok(_s)), T.slen(_s) > 0), patterns=[jsonok(_s)]))
ax(["jval"], ForAll([_n, _s], jkind(Select(jval(_n), _s)), patterns=[Select(jval(_n), _s)]))
ax(["jval"], ForAll([_n, _s], Implies(Not(Select(jdom(_n), _s)), Select(jval(_n), _s) == ANil), patterns=[Select(jval(_n), _s)]))
ax(["jelems"], ForAll([_n, _k], jkind(AS.at(jelems(_n), _k)), patterns=[AS.at(jelems(_n), _k)]))
ax(["mudom"], ForAll([_d, _e, _s], Select(mud(_d, _e), _s) == Or(Select(_d, _s), Select(_e, _s)), patterns=[Select(mud(_d, _e), _s)]))
ax(["muval"], ForAll([_e, _v, _w, _s], Select(muv(_e, _v, _w), _s) == If(Select(_e, _s), Select(_w, _s), Select(_v, _s)), patterns=[Select(muv(_e, _v, _w), _s)]))
ax(["yamlenc"], ForAll([_d, _v], And(yamlok(yenc(_d, _v)), Not(yamlnil(yenc(_d, _v))), ydom(yenc(_d, _v)) == _d, yval(yenc(_d, _v)) == _v), patterns=[yenc(_d, _v)]))
ax(["hmac"], ForAll([_s, _t, _u], Implies(_s == lit("sha256"), T.slen(hmacf(_s, _t, _u)) == 32), patterns=[hmacf(_s, _t, _u)]))
ax(["hash"], ForAll([_s, _t], And(Implies(_s == lit("sha512"), T.slen(hashf(_s, _t)) == 64), Implies(_s == lit("sha256"), T.slen(hashf(_s, _t)) == 32),
                                  Implies(_s == lit("md5"), T.slen(hashf(_s, _t)) == 16)), patterns=[hashf(_s, _t)]))
ax(["cbcdecrypt"], ForAll([_s, _t, _u], T.slen(cbc(_s, _t, _u)) == T.slen(_u), patterns=[cbc(_s, _t, _u)]))
ax(["split"], ForAll([_s, _t], Implies(_t != T.EMPTY, SS.len(splitf(_s, _t)) >= 1), patterns=[splitf(_s, _t)]))
ax(["tarn"], ForAll([_s], tarn(_s) >= 0, patterns=[tarn(_s)]))
ax(["pjoin"], ForAll([_s, _t], Implies(Or(_s != T.EMPTY, _t != T.EMPTY), isclean(pjoin(_s, _t))), patterns=[pjoin(_s, _t)]))
ax(["isclean", "pclean"], ForAll([_s], Implies(isclean(_s), pclean(_s) == _s), patterns=[pclean(_s)]))
ax(["hasprefix"], ForAll([_s, _t, _u], Implies(And(hasprefix(_s, _t), hasprefix(_t, _u)), hasprefix(_s, _u)), patterns=[z3.MultiPattern(hasprefix(_s, _t), hasprefix(_t, _u))]))
ax(["sortedkeys"], ForAll([_d], SS.len(sortedkeys(_d)) == fn("card", z3.ArraySort(Str, B), I)(_d), patterns=[sortedkeys(_d)]))
_r = z3.Real("r")
ax(["formatfloat"], ForAll([_r, _k], Implies(And(z3.ToReal(z3.ToInt(_r)) == _r, _r <= 2 ** 53, _r >= -2 ** 53), ffmt(_r, IntVal(102), IntVal(-1), _k) == T.itoa(z3.ToInt(_r))),
                           patterns=[ffmt(_r, IntVal(102), IntVal(-1), _k)]))
ax(["align"], ForAll([_n, _s, _k], T.contains(alignf(_n, _s, _k), _s), patterns=[alignf(_n, _s, _k)]))


def plain_name(v):
    return v not in ("", ".", "..") and "/" not in v


def lit_hooks(lits, names):
    """facts about literals that depend on the symbols of the query"""
    out = []
    ls = [(c, litval(c)) for c in lits]
    many = len(ls) > 12
    if "pjoin" in names:
        for c, v in ls:
            if plain_name(v):
                out.append(ForAll([_s], pbase(pjoin(_s, c)) == c, patterns=[pjoin(_s, c)]))
    if "hasprefix" in names:
        for c, v in ls:
            for c2, v2 in ls:
                if many and "hasprefix@" + c2.decl().name() not in names:
                    continue
                out.append(hasprefix(c, c2) == v.startswith(v2))
    if "isclean" in names or "pclean" in names or "pjoin" in names:
        import posixpath
        for c, v in ls:
            if v:
                n = goclean(v)
                out.append(isclean(c) == (n == v))
    if "contains" in names:
        for c, v in ls:
            for c2, v2 in ls:
                if many and "contains@" + c2.decl().name() not in names:
                    continue
                if len(v2) <= len(v):
                    out.append(T.contains(c, c2) == (v2 in v))
    if "strlt" in names:
        ss = sorted(ls, key=lambda x: x[1])
        for (a, x), (b, y) in zip(ss, ss[1:]):
            out.append(T.slt(a, b))
    return out


def goclean(p):
    import posixpath
    r = posixpath.normpath(p) if p else "."
    if r.startswith("//") and not r.startswith("///"):
        r = r[1:]
    return r


T.LIT_HOOKS.append(lit_hooks)


def join2(a, b):
    """filepath.Join of two elements"""
    va, vb = litval(a), litval(b)
    if va is not None and vb is not None:
        return lit(goclean("/".join(x for x in (va, vb) if x))) if va or vb else T.EMPTY
    return pjoin(a, b)


def joinn(xs):
    xs = list(xs)
    r = xs[0]
    for x in xs[1:]:
        r = join2(r, x)
    if len(xs) == 1:
        return pclean(r)
    return r


# ------------------------------------------------------------------ formatting
def fmt_any(ex, st, a):
    """text of %v"""
    a = simplify(a)
    b = unbox(a)
    if b is not None:
        v, t = b
        if isinstance(v, z3.ExprRef) and v.sort() == Str:
            return v
        return T.fresh("fmt", Str)
    if z3.is_app(a):
        d = a.decl()
        if d.eq(AnyS.AStr):
            return a.arg(0)
        if d.eq(AnyS.ABool):
            return boolstr(a.arg(0))
        if d.eq(AnyS.AInt):
            return T.itoa(a.arg(1))
        if d.eq(AnyS.AOth) and num(a.arg(0)) == ERR:
            return msg(a.arg(1))
        if a.eq(ANil):
            return lit("<nil>")
    return If(AnyS.is_AStr(a), AnyS.astr(a), If(AnyS.is_ABool(a), boolstr(AnyS.abool(a)), If(AnyS.is_AInt(a), T.itoa(AnyS.aint(a)), fmtany(a))))


def msg(i):
    n = num(i)
    if n is not None and n in _errlit:
        return _errlit[n]
    return errmsg(i)


def sprintf(ex, st, f, args):
    v = litval(f)
    if v is None:
        st0 = [T.fn("sprintf%d" % len(args), *([Str] + [AnyS] * len(args) + [Str]))(f, *args)]
        return st0[0]
    out, pos, k = [], 0, 0
    for m in re.finditer(r"%([-+# 0]*)(\d*)(?:\.(\d+))?([a-zA-Z%])", v):
        out.append(lit(v[pos:m.start()]))
        pos = m.end()
        c = m.group(4)
        if c == "%":
            out.append(lit("%"))
            continue
        if k >= len(args):
            out.append(lit("%!" + c + "(MISSING)"))
            continue
        a = args[k]
        k += 1
        if c in "vds" and not m.group(1) and not m.group(2) and not m.group(3):
            a_ = simplify(a)
            if c == "v" or (c == "s" and z3.is_app(a_) and (a_.decl().eq(AnyS.AStr) or a_.decl().eq(AnyS.AOth))) or \
                    (c == "d" and z3.is_app(a_) and a_.decl().eq(AnyS.AInt)):
                out.append(fmt_any(ex, st, a))
                continue
        out.append(fmtother(lit(m.group(0)), a))
    out.append(lit(v[pos:]))
    if k < len(args):
        out.append(T.fresh("extra", Str))
    return scat(*out)


def is_string_any(a):
    a = simplify(a)
    return z3.is_app(a) and a.decl().eq(AnyS.AStr)


def sprint(ex, st, args, ln):
    parts = []
    for i, a in enumerate(args):
        if i:
            if ln or not (is_string_any(a) or is_string_any(args[i - 1])):
                parts.append(lit(" "))
        parts.append(fmt_any(ex, st, a))
    if ln:
        parts.append(lit("\n"))
    return scat(*parts)


# ------------------------------------------------------------------ the table
MODELS = {}
EFFECTS = {}


def model(*names, eff=()):
    def d(f):
        for n in names:
            MODELS[n] = f
            EFFECTS[n] = tuple(eff)
        return f
    return d


FS = ("$exists", "$isdir", "$content", "$mode", "$writes", "$faults")
TRUSTED = set()

PURE_PKGS = ("strings", "strconv", "path/filepath", "path", "math", "unicode", "unicode/utf8", "bytes", "errors", "sort", "fmt",
             "encoding/hex", "encoding/base64", "math/bits", "slices", "maps", "cmp", "time")


class Models:
    def __init__(self, specs=None):
        self.specs = specs
        self.used = set()
        self.binds = []             # key bindings seen while the object graph is built
        self.commands = []
        self.neterr = 10
        self.extg = {}

    def g(self, ex, st, name):
        key, so, _ = GH[name]
        ex.gkey(key, so)
        return ex.get(st, key)

    def setg(self, ex, st, name, v):
        key, so, _ = GH[name]
        ex.gkey(key, so)
        st.heap[key] = v

    def hkey(self, ex, name, so):
        k = "F:$" + name
        ex.meta.setdefault(k, (so, "plain", None))
        return k

    def hget(self, ex, st, name, so, ref):
        return ex.sel(ex.get(st, self.hkey(ex, name, so)), ref)

    def hset(self, ex, st, name, so, ref, v):
        ex.upd(st, self.hkey(ex, name, so), ref, v)

    def effects(self, ex, name):
        if name in EFFECTS:
            out = []
            for k in EFFECTS[name]:
                if k.startswith("view."):
                    out.append(self.hkey(ex, k, VF[k[5:]]))
                elif k.startswith("F:$"):
                    out.append(self.hkey(ex, k[3:], HK[k[3:]]))
                elif k.startswith("$"):
                    for nm, (kk, so, _) in GH.items():
                        if kk == k:
                            ex.gkey(kk, so)
                    out.append(k)
                elif k == "B":
                    out.append(ex.skey(ex.p.bystr["uint8"] if "uint8" in ex.p.bystr else ex.p.bystr["byte"]))
                elif k.startswith("S:"):
                    t = ex.p.bystr.get(k[2:])
                    if t is not None:
                        out.append(ex.skey(t))
                elif k == "ALLSEQ":
                    for t in ex.p.types:
                        if t.kind == "slice":
                            try:
                                kk = ex.skey(t.elem)
                                if kk.startswith("S:"):
                                    out.append(kk)
                            except Unsupported:
                                pass
                elif k == "JMAP":
                    out += list(ex.mkeys(ex.p.bystr["map[string]interface{}"]))
                    # target variable of the decoding
                    for t in ex.p.types:
                        if t.under().kind == "struct" and is_repo(t.str) and t.kind == "named":
                            for fnm, ft in t.fields:
                                if ft.under().kind == "map":
                                    out += [kk for kk, _ in ex.fkeys(t, fnm, ft)]
                    out.append(ex.skey(ex.p.bystr["interface{}"]))
                else:
                    out.append(k)
            return out
        return []

    def ext_global(self, ex, name, t):
        named = {"io.EOF": EOF, "github.com/jroimartin/gocui.ErrUnknownView": UNKVIEW, "github.com/jroimartin/gocui.ErrQuit": QUIT,
                 "io.ErrShortWrite": SHORTW}
        if name in named:
            return err(named[name])
        if name not in self.extg:
            if t.str == "error":
                self.extg[name] = err(100 + len(self.extg))
            elif is_ext_struct(t):
                self.extg[name] = OpaqueV(t, IntVal(500000 + len(self.extg)))
            else:
                ts = [Const("ext." + name + suf, so) for suf, so in comps(t)]
                self.extg[name] = from_comps(t, ts)
        return self.extg[name]

    def new_err(self, ex, st, text=None):
        if ex.graph is not None and ex.graph.building or ex.graph is None:
            if text is not None:
                self.neterr += 1
                _errlit[self.neterr] = text
                return err(self.neterr)
        e = T.fresh("err", I)
        st.assume(e >= 1000)
        if text is not None:
            st.assume(errmsg(e) == text)
        return err(e)

    def maybe_err(self, ex, st, ok):
        """nil if ok, else a new error"""
        e = self.new_err(ex, st)
        return If(ok, ANil, e)

    def fault(self, ex, st, ok):
        n = self.g(ex, st, "faults")
        self.setg(ex, st, "faults", n if z3.is_true(simplify(ok)) else If(ok, n, n + 1))

    def call(self, ex, fr, st, name, args, d):
        f = MODELS.get(name)
        if f is None and name.endswith(".init"):
            return [Out("return", st, None, TupleV([]))]
        if f is not None:
            self.used.add(name)
            r = f(self, ex, fr, st, args, d)
            if isinstance(r, list):
                return r
            return [Out("return", st, None, r)]
        pkg = name.lstrip("(*")
        pkg = pkg.split(")")[0]
        pkg = pkg.rsplit(".", 1)[0]
        if pkg in PURE_PKGS:
            vals = []
            ok = True
            for a in args:
                if isinstance(a, SliceV):
                    vals.append(ex.content(st, a))
                elif isinstance(a, z3.ExprRef):
                    vals.append(a)
                else:
                    ok = False
            if ok:
                self.used.add(name + " (uninterpreted)")
                rs = []
                for k, t in enumerate(ex.sig_results(d["sig"])):
                    if t.under().kind == "slice":
                        if is_bytes(t):
                            c = fn("ext:%s.%d" % (name, k), *([v.sort() for v in vals] + [Str]))(*vals)
                            st.assume(T.slen(c) >= 0)
                        else:
                            so = sort_of(t.elem)
                            if so is None:
                                ok = False
                                break
                            c = fn("ext:%s.%d" % (name, k), *([v.sort() for v in vals] + [seqth(so).sort]))(*vals)
                        rs.append(ex.new_seq(st, t.elem, c))
                    elif t.str == "error":
                        okb = fn("ext:%s.ok" % name, *([v.sort() for v in vals] + [B]))(*vals)
                        rs.append(self.maybe_err(ex, st, okb))
                    else:
                        so = sort_of(t)
                        if so is None or t.under().kind in ("pointer", "map", "interface", "func"):
                            ok = False
                            break
                        v = fn("ext:%s.%d" % (name, k), *([x.sort() for x in vals] + [so]))(*vals) if vals else T.fresh("ext", so)
                        ex.assume_type(st, v, t)
                        rs.append(v)
                if ok:
                    return [Out("return", st, None, ex.result_value(rs))]
        ex.obligation(st, BoolVal(False), "external", "the effect of %s is known" % name)
        return []

    # ---------------------------------------------------------------- file system
    def hook(self, ex, st, fnname, *tvs):
        """formula of an environment definition of the contracts, if there is one"""
        import spec
        sf = ex.contracts.fns.get(fnname) if ex.contracts else None
        if sf is None:
            return None
        ev = spec.Ev(ex, st, st, {})
        return ev.apply(sf, [spec.TV(v, ev.ty(t)) for v, t in tvs]).v

    def mutate(self, ex, st, path, what, rename=False):
        prop = ex.contracts.prop if ex.contracts else None
        if prop == "C19":
            f = self.hook(ex, st, "mayWrite", (path, "string"))
            if f is not None:
                ex.obligation(st, f, "effect", "%s touches only the program's own files" % what)
        if prop == "C13" and not rename:
            ex.obligation(st, path != EXE, "effect", "%s does not write the installed binary in place" % what)

    def fs_set(self, ex, st, path, ok, exists=None, isdir=None, content=None, mode=None):
        for nm, v in (("exists", exists), ("isdir", isdir), ("content", content), ("mode", mode)):
            if v is None:
                continue
            a = self.g(ex, st, nm)
            self.setg(ex, st, nm, Store(a, path, v if z3.is_true(ok) else If(ok, v, Select(a, path))))


HK = {"hash.kind": Str, "hash.key": Str, "hash.buf": Str, "reader.buf": Str, "reader.pos": I, "file.path": Str, "body.url": Str, "body.data": Str,
      "tar.arch": Str, "tar.pos": I, "gz.data": Str, "hdr.mode": I, "table.rows": SS.sort, "block.key": Str, "cbc.key": Str, "cbc.iv": Str,
      "replacer.args": SS.sort, "exec": I, "view.name": Str}


BUILDING = [False]


def ok_const(name):
    return BoolVal(True) if BUILDING[0] else T.fresh(name + ".ok", B)


# ---- errors
@model("errors.New")
def _(m, ex, fr, st, a, d):
    return m.new_err(ex, st, a[0])


@model("(error).Error")
def _(m, ex, fr, st, a, d):
    ex.obligation(st, a[0] != ANil, "nopanic", "no Error() on nil")
    s = simplify(a[0])
    if z3.is_app(s) and s.decl().eq(AnyS.AOth):
        return msg(s.arg(1))
    return errmsg(AnyS.aoid(s))


@model("fmt.Errorf")
def _(m, ex, fr, st, a, d):
    return m.new_err(ex, st, sprintf(ex, st, a[0], elems(ex, st, a[1])))


def elems(ex, st, sl):
    """python list of the variadic arguments"""
    if num(sl.len) == 0:
        return []
    c = ex.content(st, sl)
    th = seqth_of_sort(c.sort())
    es = th.elems(c)
    if es is None:
        n = num(sl.len)
        if n is not None and n < 20:
            return [th.at(c, IntVal(i)) for i in range(n)]
        raise Unsupported("variadic argument of unknown length")
    return es


# ---- fmt
def emit(m, ex, st, text):
    m.setg(ex, st, "out", scat(m.g(ex, st, "out"), text))


@model("fmt.Println", eff=["$out"])
def _(m, ex, fr, st, a, d):
    emit(m, ex, st, sprint(ex, st, elems(ex, st, a[0]), True))
    return TupleV([IntVal(0), ANil])


@model("fmt.Print", eff=["$out"])
def _(m, ex, fr, st, a, d):
    emit(m, ex, st, sprint(ex, st, elems(ex, st, a[0]), False))
    return TupleV([IntVal(0), ANil])


@model("fmt.Printf", eff=["$out"])
def _(m, ex, fr, st, a, d):
    emit(m, ex, st, sprintf(ex, st, a[0], elems(ex, st, a[1])))
    return TupleV([IntVal(0), ANil])


@model("fmt.Sprint")
def _(m, ex, fr, st, a, d):
    return sprint(ex, st, elems(ex, st, a[0]), False)


@model("fmt.Sprintln")
def _(m, ex, fr, st, a, d):
    return sprint(ex, st, elems(ex, st, a[0]), True)


@model("fmt.Sprintf")
def _(m, ex, fr, st, a, d):
    return sprintf(ex, st, a[0], elems(ex, st, a[1]))


def fprint(m, ex, st, w, text):
    w = simplify(w)
    vt = ex.p.bystr.get("*github.com/jroimartin/gocui.View")
    if z3.is_app(w) and w.decl().eq(AnyS.APtr):
        t = ex.p.types[num(w.arg(0))]
        if t.str == "*github.com/jroimartin/gocui.View":
            ref = w.arg(1)
            ex.obligation(st, ref != 0, "nopanic", "no write to a nil view")
            m.hset(ex, st, "view.buf", Str, ref, scat(m.hget(ex, st, "view.buf", Str, ref), text))
            return TupleV([IntVal(0), ANil])
        if t.str == "*os.File":
            n = num(w.arg(1))
            emit(m, ex, st, text)
            return TupleV([IntVal(0), ANil])
        if t.str in ("*strings.Builder", "*bytes.Buffer"):
            ref = w.arg(1)
            m.hset(ex, st, "reader.buf", Str, ref, scat(m.hget(ex, st, "reader.buf", Str, ref), text))
            return TupleV([IntVal(0), ANil])
    raise Unsupported("writer of Fprint")


VE = ["view.buf", "$out", "F:$reader.buf"]


@model("fmt.Fprint", eff=VE)
def _(m, ex, fr, st, a, d):
    return fprint(m, ex, st, a[0], sprint(ex, st, elems(ex, st, a[1]), False))


@model("fmt.Fprintln", eff=VE)
def _(m, ex, fr, st, a, d):
    return fprint(m, ex, st, a[0], sprint(ex, st, elems(ex, st, a[1]), True))


@model("fmt.Fprintf", eff=VE)
def _(m, ex, fr, st, a, d):
    return fprint(m, ex, st, a[0], sprintf(ex, st, a[1], elems(ex, st, a[2])))


# strings.Builder / bytes.Buffer as text accumulators (zero value: empty)
@model("(*strings.Builder).WriteString", "(*bytes.Buffer).WriteString", eff=["F:$reader.buf"])
def _(m, ex, fr, st, a, d):
    m.hset(ex, st, "reader.buf", Str, a[0], scat(m.hget(ex, st, "reader.buf", Str, a[0]), a[1]))
    return TupleV([T.slenof(a[1]), ANil])


@model("(*strings.Builder).Write", "(*bytes.Buffer).Write", eff=["F:$reader.buf"])
def _(m, ex, fr, st, a, d):
    c = ex.content(st, a[1])
    m.hset(ex, st, "reader.buf", Str, a[0], scat(m.hget(ex, st, "reader.buf", Str, a[0]), c))
    return TupleV([T.slenof(c), ANil])


@model("(*strings.Builder).WriteByte", "(*bytes.Buffer).WriteByte", "(*strings.Builder).WriteRune", eff=["F:$reader.buf"])
def _(m, ex, fr, st, a, d):
    n = num(a[1])
    s = lit(chr(n).encode("utf-8").decode("latin-1")) if n is not None else fn("runestr", I, Str)(a[1])
    m.hset(ex, st, "reader.buf", Str, a[0], scat(m.hget(ex, st, "reader.buf", Str, a[0]), s))
    return ANil if name_is(d, "WriteByte") else TupleV([T.slenof(s), ANil])


def name_is(d, s):
    return d.get("static", "").endswith(s)


@model("(*strings.Builder).String", "(*bytes.Buffer).String")
def _(m, ex, fr, st, a, d):
    return m.hget(ex, st, "reader.buf", Str, a[0])


@model("(*strings.Builder).Grow", "(*bytes.Buffer).Grow")
def _(m, ex, fr, st, a, d):
    return TupleV([])


@model("(*strings.Builder).Len", "(*bytes.Buffer).Len")
def _(m, ex, fr, st, a, d):
    return T.slenof(m.hget(ex, st, "reader.buf", Str, a[0]))


@model("fmt.Scanln", "fmt.Scan", eff=["$answers"])
def _(m, ex, fr, st, a, d):
    for x in elems(ex, st, a[0]):
        b = unbox(simplify(x))
        if b is None or not isinstance(b[0], LOCS):
            raise Unsupported("Scanln target %r" % (x,))
        # an empty line leaves the variable as it was
        v, some = T.fresh("typed", Str), T.fresh("stored", B)
        st.assume(Implies(some, v != T.EMPTY))
        ex.store(st, b[0], simplify(If(some, v, ex.load(st, b[0]))))
        m.setg(ex, st, "answers", SS.snoc(m.g(ex, st, "answers"), If(some, v, T.EMPTY)))
    ok = ok_const("scan")
    return TupleV([T.fresh("n", I), m.maybe_err(ex, st, ok)])


@model("golang.org/x/term.ReadPassword", eff=["$password", "$mark", "B"])
def _(m, ex, fr, st, a, d):
    p = T.fresh("typedpass", Str)
    m.setg(ex, st, "password", p)
    o = T.fresh("out", Str)
    m.setg(ex, st, "out", o)     # what was printed before is forgotten
    m.setg(ex, st, "mark", o)
    sl = ex.new_seq(st, ex.p.bystr["[]byte"].elem, p)
    return TupleV([sl, m.maybe_err(ex, st, ok_const("readpassword"))])


@model("os.Exit", eff=["$exit"])
def _(m, ex, fr, st, a, d):
    m.setg(ex, st, "exitcode", a[0])
    return [Out("exit", st, None, "os.Exit")]


@model("log.Fatalln", "log.Fatal", "log.Fatalf", eff=["$exit"])
def _(m, ex, fr, st, a, d):
    m.setg(ex, st, "exitcode", IntVal(1))
    return [Out("exit", st, None, "log.Fatal")]


@model("log.Println", "log.Printf", "log.Print", "(*os.File).Sync", "(*os.File).Close", "(*compress/gzip.Reader).Close", "(io.Closer).Close", "(io.ReadCloser).Close")
def _(m, ex, fr, st, a, d):
    rs = ex.sig_results(d["sig"])
    return ANil if rs else TupleV([])


# ---- os / files
@model("os.UserHomeDir")
def _(m, ex, fr, st, a, d):
    return TupleV([HOME, m.maybe_err(ex, st, ok_const("home"))])


@model("os.Executable", eff=["$faults"])
def _(m, ex, fr, st, a, d):
    ok = ok_const("executable")
    m.fault(ex, st, ok)
    return TupleV([If(ok, EXE, T.EMPTY), m.maybe_err(ex, st, ok)])


@model("os.Stat", "os.Lstat")
def _(m, ex, fr, st, a, d):
    p = a[0]
    ok = Select(m.g(ex, st, "exists"), p)
    i = T.fresh("info", I)
    st.assume(fn("infodir", I, B)(i) == Select(m.g(ex, st, "isdir"), p))
    st.assume(i >= 0)
    return TupleV([If(ok, AnyS.AOth(IntVal(INFO), i), ANil), m.maybe_err(ex, st, ok)])


@model("os.IsNotExist")
def _(m, ex, fr, st, a, d):
    return And(a[0] != ANil, fn("isnotexist", AnyS, B)(a[0]))


@model("(io/fs.FileInfo).IsDir", "(io/fs.FileMode).IsDir")
def _(m, ex, fr, st, a, d):
    if a[0].sort() == I:
        return fn("modedir", I, B)(a[0])
    ex.obligation(st, a[0] != ANil, "nopanic", "no call on a nil FileInfo")
    return simplify(fn("infodir", I, B)(AnyS.aoid(a[0])))


@model("(io/fs.FileInfo).Mode")
def _(m, ex, fr, st, a, d):
    ex.obligation(st, a[0] != ANil, "nopanic", "no call on a nil FileInfo")
    return fn("infomode", I, I)(AnyS.aoid(a[0]))


@model("(io/fs.FileMode).Perm")
def _(m, ex, fr, st, a, d):
    return permbits(a[0])


@model("(io/fs.FileMode).IsRegular")
def _(m, ex, fr, st, a, d):
    return fn("moderegular", I, B)(a[0])


def read_file(m, ex, st, p):
    ok = ok_const("read")
    m.fault(ex, st, ok)
    st.assume(Implies(ok, And(Select(m.g(ex, st, "exists"), p), Not(Select(m.g(ex, st, "isdir"), p)))))
    c = Select(m.g(ex, st, "content"), p)
    f = m.hook(ex, st, "envRead", (p, "string"), (c, "string"))
    if f is not None:
        st.assume(Implies(ok, f))
    return ok, c


@model("io/ioutil.ReadFile", "os.ReadFile", eff=["B", "$faults"])
def _(m, ex, fr, st, a, d):
    ok, c = read_file(m, ex, st, a[0])
    et = ex.p.bystr["[]byte"].elem
    s = ex.new_seq(st, et, c)
    return TupleV([SliceV(If(ok, s.ref, 0), IntVal(0), If(ok, s.len, 0), et), m.maybe_err(ex, st, ok)])


@model("io/ioutil.WriteFile", "os.WriteFile", eff=FS)
def _(m, ex, fr, st, a, d):
    p = a[0]
    m.mutate(ex, st, p, "WriteFile")
    c = ex.content(st, a[1])
    ok = ok_const("write")
    m.fault(ex, st, ok)
    part = T.fresh("partial", Str)
    w = m.g(ex, st, "writes")
    m.setg(ex, st, "writes", Store(w, p, Select(w, p) + 1))
    old = Select(m.g(ex, st, "exists"), p)
    m.fs_set(ex, st, p, BoolVal(True), exists=Or(ok, T.fresh("ex", B)), isdir=If(ok, BoolVal(False), Select(m.g(ex, st, "isdir"), p)), content=If(ok, c, part),
             mode=If(old, Select(m.g(ex, st, "mode"), p), a[2]))
    return m.maybe_err(ex, st, ok)


@model("os.MkdirAll", "os.Mkdir", eff=FS)
def _(m, ex, fr, st, a, d):
    p = a[0]
    m.mutate(ex, st, p, "MkdirAll")
    ok = ok_const("mkdir")
    m.fault(ex, st, ok)
    m.fs_set(ex, st, p, ok, exists=BoolVal(True), isdir=BoolVal(True))
    return m.maybe_err(ex, st, ok)


@model("os.RemoveAll", "os.Remove", eff=FS)
def _(m, ex, fr, st, a, d):
    p = a[0]
    m.mutate(ex, st, p, "RemoveAll")
    # everything at or under p may be gone
    s = Const("s", Str)
    for nm in ("exists", "isdir", "content", "mode"):
        x = m.g(ex, st, nm)
        y = T.fresh("rm." + nm, x.sort())
        inside = Or(s == p, hasprefix(s, scat(p, lit("/"))))
        st.assume(ForAll([s], Implies(Not(inside), Select(y, s) == Select(x, s)), patterns=[Select(y, s)]))
        m.setg(ex, st, nm, y)
    ok = ok_const("remove")
    m.fault(ex, st, ok)
    e = m.g(ex, st, "exists")
    st.assume(Implies(ok, ForAll([s], Implies(Or(s == p, hasprefix(s, scat(p, lit("/")))), Not(Select(e, s))), patterns=[Select(e, s)])))
    return m.maybe_err(ex, st, ok)


@model("os.Rename", eff=FS)
def _(m, ex, fr, st, a, d):
    p, q = a
    m.mutate(ex, st, p, "Rename")
    m.mutate(ex, st, q, "Rename", rename=True)
    ok = ok_const("rename")
    m.fault(ex, st, ok)
    st.assume(Implies(ok, Select(m.g(ex, st, "exists"), p)))
    prop = ex.contracts.prop if ex.contracts else None
    if prop == "C13":
        ex.obligation(st, p != EXE, "effect", "Rename does not move the installed binary away")
    c, mo, di = (Select(m.g(ex, st, x), p) for x in ("content", "mode", "isdir"))
    m.fs_set(ex, st, q, ok, exists=BoolVal(True), isdir=di, content=c, mode=mo)
    m.fs_set(ex, st, p, And(ok, p != q), exists=BoolVal(False))
    return m.maybe_err(ex, st, ok)


@model("os.Chmod", eff=FS)
def _(m, ex, fr, st, a, d):
    m.mutate(ex, st, a[0], "Chmod", rename=True)
    ok = ok_const("chmod")
    m.fault(ex, st, ok)
    m.fs_set(ex, st, a[0], ok, mode=a[1])
    return m.maybe_err(ex, st, ok)


@model("os.Symlink", "os.Link", "os.Truncate", "os.Chtimes", "os.Chown", "os.Lchown", eff=FS)
def _(m, ex, fr, st, a, d):
    for x in a:
        if x.sort() == Str:
            m.mutate(ex, st, x, d.get("static", "call"))
    p = [x for x in a if x.sort() == Str][-1]
    m.fs_set(ex, st, p, BoolVal(True), exists=T.fresh("ex", B), isdir=T.fresh("dir", B), content=T.fresh("c", Str), mode=T.fresh("m", I))
    return m.maybe_err(ex, st, ok_const("fsop"))


def new_file(m, ex, st, p, ok):
    r = ex.alloc(st)
    m.hset(ex, st, "file.path", Str, r, p)
    return If(ok, r, IntVal(0))


@model("os.Open", eff=["F:$file.path", "$faults"])
def _(m, ex, fr, st, a, d):
    ok = ok_const("open")
    m.fault(ex, st, ok)
    st.assume(Implies(ok, Select(m.g(ex, st, "exists"), a[0])))
    return TupleV([new_file(m, ex, st, a[0], ok), m.maybe_err(ex, st, ok)])


def open_write(m, ex, st, p, flags, mode, what):
    m.mutate(ex, st, p, what)
    ok = ok_const("openfile")
    m.fault(ex, st, ok)
    ext, cont = m.g(ex, st, "exists"), m.g(ex, st, "content")
    old = Select(ext, p)
    if flags & 64 == 0:
        st.assume(Implies(ok, old))
    if flags & 128 and flags & 64:
        st.assume(Implies(ok, Not(old)))
    c = T.EMPTY if flags & 512 else If(old, Select(cont, p), T.EMPTY)
    m.fs_set(ex, st, p, ok, exists=BoolVal(True), isdir=BoolVal(False), content=c, mode=If(old, Select(m.g(ex, st, "mode"), p), mode))
    r = new_file(m, ex, st, p, ok)
    return TupleV([r, m.maybe_err(ex, st, ok)])


@model("os.Create", eff=FS + ("F:$file.path",))
def _(m, ex, fr, st, a, d):
    return open_write(m, ex, st, a[0], 2 | 64 | 512, IntVal(0o666), "Create")


@model("os.OpenFile", eff=FS + ("F:$file.path",))
def _(m, ex, fr, st, a, d):
    f = num(a[1])
    if f is None:
        raise Unsupported("OpenFile with computed flags")
    if f & 3 == 0 and f & (64 | 512) == 0:
        ok = ok_const("open")
        m.fault(ex, st, ok)
        st.assume(Implies(ok, Select(m.g(ex, st, "exists"), a[0])))
        return TupleV([new_file(m, ex, st, a[0], ok), m.maybe_err(ex, st, ok)])
    return open_write(m, ex, st, a[0], f, a[2], "OpenFile")


@model("(*os.File).Write", "(*os.File).WriteString", eff=FS)
def _(m, ex, fr, st, a, d):
    p = m.hget(ex, st, "file.path", Str, a[0])
    c = ex.content(st, a[1]) if isinstance(a[1], SliceV) else a[1]
    ok = ok_const("filewrite")
    m.fault(ex, st, ok)
    m.mutate(ex, st, p, "Write")
    cont = m.g(ex, st, "content")
    m.fs_set(ex, st, p, BoolVal(True), content=If(ok, scat(Select(cont, p), c), T.fresh("partial", Str)))
    return TupleV([T.slenof(c), m.maybe_err(ex, st, ok)])


def source(m, ex, st, src):
    """text of a reader, and a function that marks it as consumed"""
    s = simplify(src)
    if z3.is_app(s) and s.decl().eq(AnyS.APtr):
        t = ex.p.types[num(s.arg(0))].str
        r = s.arg(1)
        if t == "*os.File":
            return Select(m.g(ex, st, "content"), m.hget(ex, st, "file.path", Str, r)), None
        if t == "*archive/tar.Reader":
            ar, pos = m.hget(ex, st, "tar.arch", Str, r), m.hget(ex, st, "tar.pos", I, r)
            return tbody(ar, simplify(pos - 1)), None
        if t in ("*bytes.Reader", "*strings.Reader", "*bytes.Buffer"):
            return m.hget(ex, st, "reader.buf", Str, r), None
        if t == "*compress/gzip.Reader":
            return m.hget(ex, st, "gz.data", Str, r), None
        raise Unsupported("reader " + t)
    # HTTP body
    b = AnyS.aoid(s)
    return m.hget(ex, st, "body.data", Str, simplify(b)), simplify(b)


@model("io.Copy", "io.CopyN", "io.CopyBuffer", eff=FS + ("F:$hash.buf", "$served"))
def _(m, ex, fr, st, a, d):
    dst, src = simplify(a[0]), a[1]
    data, body = source(m, ex, st, src)
    ok = ok_const("copy")
    m.fault(ex, st, ok)
    n = T.fresh("copied", I)
    if body is not None:
        u = m.hget(ex, st, "body.url", Str, body)
        sv = m.g(ex, st, "served")
        m.setg(ex, st, "served", Store(sv, u, data))
    if not name_is(d, "io.Copy"):
        data = T.fresh("copied", Str)
    if z3.is_app(dst) and dst.decl().eq(AnyS.APtr) and ex.p.types[num(dst.arg(0))].str == "*os.File":
        p = m.hget(ex, st, "file.path", Str, dst.arg(1))
        m.mutate(ex, st, p, "Copy")
        cont = m.g(ex, st, "content")
        m.fs_set(ex, st, p, BoolVal(True), content=If(ok, scat(Select(cont, p), data), T.fresh("partial", Str)))
        return TupleV([n, m.maybe_err(ex, st, ok)])
    if z3.is_app(dst) and dst.decl().eq(AnyS.AOth) and num(dst.arg(0)) == HASH:
        r = dst.arg(1)
        old = m.hget(ex, st, "hash.buf", Str, r)
        m.hset(ex, st, "hash.buf", Str, r, If(ok, scat(old, data), T.fresh("partial", Str)))
        return TupleV([n, m.maybe_err(ex, st, ok)])
    raise Unsupported("io.Copy destination")


@model("io/ioutil.ReadAll", "io.ReadAll", eff=["B", "$feed", "$faults"])
def _(m, ex, fr, st, a, d):
    data, body = source(m, ex, st, a[0])
    ok = ok_const("readall")
    m.fault(ex, st, ok)
    if body is not None:
        m.setg(ex, st, "feed", If(ok, data, T.fresh("partial", Str)))
    et = ex.p.bystr["[]byte"].elem
    s = ex.new_seq(st, et, data)
    return TupleV([SliceV(If(ok, s.ref, 0), IntVal(0), If(ok, s.len, 0), et), m.maybe_err(ex, st, ok)])


# ---- http
@model("(*net/http.Client).Get", "net/http.Get", eff=["$faults", "$feeds", "F:$body.url", "F:$body.data", "F:net/http.Response.Body", "F:net/http.Response.StatusCode"])
def _(m, ex, fr, st, a, d):
    url = a[-1]
    ok = ok_const("httpget")
    m.fault(ex, st, ok)
    r = ex.alloc(st)
    b = ex.alloc(st)
    m.hset(ex, st, "body.url", Str, b, url)
    m.hset(ex, st, "body.data", Str, b, T.fresh("reply", Str))
    n = m.g(ex, st, "feeds")
    gr = ex.p.consts.get("github.com/mashmb/1pass/1pass-core/core/domain.GithubReleases")
    feed = lit(gr["str"]) if gr else None
    m.setg(ex, st, "feeds", simplify(If(url == feed, n + 1, n)) if feed is not None else n + 1)
    rt = ex.p.bystr["*net/http.Response"].elem
    for fnm, ft in rt.fields:
        if fnm == "Body":
            ex.write_field(st, r, rt, fnm, ft, AnyS.AOth(IntVal(BODY), b))
        elif fnm == "StatusCode":
            ex.write_field(st, r, rt, fnm, ft, T.fresh("status", I))
    return TupleV([If(ok, r, IntVal(0)), m.maybe_err(ex, st, ok)])


@model("net.DialTimeout")
def _(m, ex, fr, st, a, d):
    ok = ok_const("dial")
    return TupleV([If(ok, AnyS.AOth(IntVal(SOCK), T.fresh("conn", I)), ANil), m.maybe_err(ex, st, ok)])


# ---- archive
@model("compress/gzip.NewReader", eff=["F:$gz.data", "$faults"])
def _(m, ex, fr, st, a, d):
    data, _b = source(m, ex, st, a[0])
    r = ex.alloc(st)
    m.hset(ex, st, "gz.data", Str, r, gunzip(data))
    ok = ok_const("gzip")
    st.assume(Implies(ok, gzok(data)))
    m.fault(ex, st, Or(ok, Not(gzok(data))))
    return TupleV([If(ok, r, IntVal(0)), m.maybe_err(ex, st, ok)])


@model("archive/tar.NewReader", eff=["F:$tar.arch", "F:$tar.pos"])
def _(m, ex, fr, st, a, d):
    data, _b = source(m, ex, st, a[0])
    r = ex.alloc(st)
    m.hset(ex, st, "tar.arch", Str, r, data)
    m.hset(ex, st, "tar.pos", I, r, IntVal(0))
    return r


@model("(*archive/tar.Reader).Next", eff=["F:$tar.pos", "F:$hdr.mode", "F:archive/tar.Header.Name", "F:archive/tar.Header.Typeflag", "F:archive/tar.Header.Mode", "F:archive/tar.Header.Size"])
def _(m, ex, fr, st, a, d):
    r = a[0]
    ar, pos = m.hget(ex, st, "tar.arch", Str, r), m.hget(ex, st, "tar.pos", I, r)
    m.hset(ex, st, "tar.pos", I, r, simplify(pos + 1))
    h = ex.alloc(st)
    ht = ex.p.bystr["*archive/tar.Header"].elem
    for fnm, ft in ht.fields:
        v = {"Name": tname(ar, pos), "Typeflag": ttype(ar, pos), "Mode": tmode(ar, pos)}.get(fnm)
        if fnm == "Size":
            v = T.slen(tbody(ar, pos))
        if v is not None:
            ex.write_field(st, h, ht, fnm, ft, v)
    m.hset(ex, st, "hdr.mode", I, h, tmode(ar, pos))
    more = pos < tarn(ar)
    e = m.new_err(ex, st)
    return TupleV([If(more, h, IntVal(0)), If(more, ANil, If(tarok(ar), err(EOF), e))])


@model("(*archive/tar.Header).FileInfo")
def _(m, ex, fr, st, a, d):
    ex.obligation(st, a[0] != 0, "nopanic", "no nil header")
    i = T.fresh("info", I)
    st.assume(fn("infomode", I, I)(i) == filemode(m.hget(ex, st, "hdr.mode", I, a[0])))
    return AnyS.AOth(IntVal(INFO), i)


# ---- hashes and ciphers
def hashname(v):
    f = fn_of(v)
    if f is None:
        return None
    return {"crypto/sha256.New": "sha256", "crypto/sha512.New": "sha512", "crypto/md5.New": "md5", "crypto/sha1.New": "sha1"}.get(f.name, f.name)


def new_hash(m, ex, st, kind, key):
    r = ex.alloc(st)
    m.hset(ex, st, "hash.kind", Str, r, lit(kind))
    m.hset(ex, st, "hash.key", Str, r, key)
    m.hset(ex, st, "hash.buf", Str, r, T.EMPTY)
    return AnyS.AOth(IntVal(HASH), r)


HE = ["F:$hash.kind", "F:$hash.key", "F:$hash.buf"]


@model("crypto/hmac.New", eff=HE)
def _(m, ex, fr, st, a, d):
    return new_hash(m, ex, st, "hmac:" + str(hashname(a[0])), ex.content(st, a[1]))


@model("crypto/sha512.New", eff=HE)
def _(m, ex, fr, st, a, d):
    return new_hash(m, ex, st, "sha512", T.EMPTY)


@model("crypto/sha256.New", eff=HE)
def _(m, ex, fr, st, a, d):
    return new_hash(m, ex, st, "sha256", T.EMPTY)


@model("crypto/md5.New", eff=HE)
def _(m, ex, fr, st, a, d):
    return new_hash(m, ex, st, "md5", T.EMPTY)


@model("crypto/sha1.New", eff=HE)
def _(m, ex, fr, st, a, d):
    return new_hash(m, ex, st, "sha1", T.EMPTY)


@model("(io.Writer).Write", "(hash.Hash).Write", eff=["F:$hash.buf"])
def _(m, ex, fr, st, a, d):
    s = simplify(a[0])
    if not (z3.is_app(s) and s.decl().eq(AnyS.AOth) and num(s.arg(0)) == HASH):
        raise Unsupported("Write on an unknown writer")
    r = s.arg(1)
    c = ex.content(st, a[1])
    m.hset(ex, st, "hash.buf", Str, r, scat(m.hget(ex, st, "hash.buf", Str, r), c))
    return TupleV([T.slenof(c), ANil])


@model("(hash.Hash).Reset", eff=["F:$hash.buf"])
def _(m, ex, fr, st, a, d):
    m.hset(ex, st, "hash.buf", Str, simplify(a[0]).arg(1), T.EMPTY)
    return TupleV([])


@model("(hash.Hash).Size")
def _(m, ex, fr, st, a, d):
    return T.fresh("size", I)


@model("(hash.Hash).Sum", eff=["B"])
def _(m, ex, fr, st, a, d):
    s = simplify(a[0])
    r = s.arg(1)
    k = litval(m.hget(ex, st, "hash.kind", Str, r))
    if k is None:
        raise Unsupported("hash of unknown kind")
    buf = m.hget(ex, st, "hash.buf", Str, r)
    if k.startswith("hmac:"):
        v = hmacf(lit(k[5:]), m.hget(ex, st, "hash.key", Str, r), buf)
    else:
        v = hashf(lit(k), buf)
    size = {"sha512": 64, "sha256": 32, "md5": 16, "hmac:sha256": 32}.get(k)
    pre = ex.content(st, a[1])
    sl = ex.new_seq(st, a[1].et, scat(pre, v))
    if size is not None and litval(pre) == "":
        sl.len = IntVal(size)
        st.assume(T.slen(v) == size)
    return sl


@model("crypto/md5.Sum", "crypto/sha256.Sum256", "crypto/sha512.Sum512", eff=["B"])
def _(m, ex, fr, st, a, d):
    raise Unsupported("array-valued hash")


@model("crypto/hmac.Equal", "bytes.Equal")
def _(m, ex, fr, st, a, d):
    return ex.content(st, a[0]) == ex.content(st, a[1])


@model("crypto/subtle.ConstantTimeCompare")
def _(m, ex, fr, st, a, d):
    return If(ex.content(st, a[0]) == ex.content(st, a[1]), IntVal(1), IntVal(0))


@model("crypto/aes.NewCipher", eff=["F:$block.key"])
def _(m, ex, fr, st, a, d):
    n = a[0].len
    ok = simplify(Or(n == 16, n == 24, n == 32))
    r = ex.alloc(st)
    m.hset(ex, st, "block.key", Str, r, ex.content(st, a[0]))
    e = m.new_err(ex, st)
    return TupleV([If(ok, AnyS.AOth(IntVal(BLOCK), r), ANil), If(ok, ANil, e)])


@model("crypto/cipher.NewCBCDecrypter", eff=["F:$cbc.key", "F:$cbc.iv"])
def _(m, ex, fr, st, a, d):
    ex.obligation(st, a[0] != ANil, "nopanic", "cipher block is not nil")
    ex.obligation(st, a[1].len == 16, "nopanic", "the IV has the block size")
    r = ex.alloc(st)
    m.hset(ex, st, "cbc.key", Str, r, m.hget(ex, st, "block.key", Str, simplify(AnyS.aoid(a[0]))))
    m.hset(ex, st, "cbc.iv", Str, r, ex.content(st, a[1]))
    return AnyS.AOth(IntVal(MODE), r)


@model("(crypto/cipher.BlockMode).CryptBlocks", eff=["B"])
def _(m, ex, fr, st, a, d):
    s = simplify(a[0])
    r = s.arg(1) if z3.is_app(s) and s.decl().eq(AnyS.AOth) else AnyS.aoid(s)
    dst, src = a[1], a[2]
    ex.obligation(st, And(src.len % 16 == 0, dst.len >= src.len), "nopanic", "CryptBlocks gets whole blocks")
    v = cbc(m.hget(ex, st, "cbc.key", Str, r), m.hget(ex, st, "cbc.iv", Str, r), ex.content(st, src))
    b = ex.backing(st, dst.ref, dst.et)
    st.assume(T.slen(v) == src.len)
    ex.upd(st, ex.skey(dst.et), dst.ref, T.splice(b, dst.off, v))
    return TupleV([])


@model("golang.org/x/crypto/pbkdf2.Key", eff=["B"])
def _(m, ex, fr, st, a, d):
    h = hashname(a[4])
    if h is None:
        h = "unknown"
        hs = T.fresh("hash", Str)
        if isinstance(a[4], z3.ExprRef):
            hs = fn("hashfn", I, Str)(a[4])
    else:
        hs = lit(h)
    v = pbk(ex.content(st, a[0]), ex.content(st, a[1]), a[2], a[3], hs)
    st.assume(T.slen(v) == a[3])
    sl = ex.new_seq(st, a[0].et, v)
    sl.len = simplify(a[3])
    return sl


@model("bytes.NewReader", eff=["F:$reader.buf"])
def _(m, ex, fr, st, a, d):
    r = ex.alloc(st)
    m.hset(ex, st, "reader.buf", Str, r, ex.content(st, a[0]))
    return r


@model("strings.NewReader", eff=["F:$reader.buf"])
def _(m, ex, fr, st, a, d):
    r = ex.alloc(st)
    m.hset(ex, st, "reader.buf", Str, r, a[0])
    return r


@model("encoding/binary.Read", eff=["F:$reader.buf"])
def _(m, ex, fr, st, a, d):
    rd, order, target = (simplify(x) for x in a)
    b, o = unbox(target), unbox(order)
    if b is None or not isinstance(b[0], LOCS) or not (z3.is_app(rd) and rd.decl().eq(AnyS.APtr)):
        raise Unsupported("binary.Read")
    t = b[0].type
    size = t.under().d.get("size")
    data = m.hget(ex, st, "reader.buf", Str, rd.arg(1))
    ok = T.slenof(data) >= size
    oname = o[1].str if o is not None else "?"
    if size == 8 and "littleEndian" in oname and not t.under().d.get("unsigned"):
        v = le64(T.ssub(data, IntVal(0), IntVal(8)))
        st.assume(And(v >= -2 ** 63, v < 2 ** 63))
    else:
        v = fn("rawint", Str, Str, I)(lit(oname + t.str), T.ssub(data, IntVal(0), IntVal(size)))
        ex.assume_type(st, v, t)
    old = ex.load(st, b[0])
    ex.store(st, b[0], If(ok, v, old))
    m.hset(ex, st, "reader.buf", Str, rd.arg(1), T.fresh("rest", Str))
    e = m.new_err(ex, st)
    return If(ok, ANil, e)


@model("(encoding/binary.littleEndian).Uint64")
def _(m, ex, fr, st, a, d):
    s = a[1]
    ex.obligation(st, s.len >= 8, "nopanic", "Uint64 gets eight bytes")
    v = le64(ex.content(st, SliceV(s.ref, s.off, IntVal(8), s.et)))
    st.assume(And(v >= -2 ** 63, v < 2 ** 63))
    return If(v >= 0, v, v + IntVal(2 ** 64))


@model("(*encoding/base64.Encoding).DecodeString", eff=["B"])
def _(m, ex, fr, st, a, d):
    ex.obligation(st, a[0] != 0, "nopanic", "no nil encoding") if False else None
    std = isinstance(a[0], z3.ExprRef) and str(a[0]).endswith("StdEncoding")
    et = ex.p.bystr["[]byte"].elem
    if std:
        ok, v = b64ok(a[1]), b64dec(a[1])
    else:
        ok, v = fn("b64ok:other", Str, B)(a[1]), fn("b64dec:other", Str, Str)(a[1])
    part = fn("b64partial", Str, Str)(a[1])
    sl = ex.new_seq(st, et, If(ok, v, part))
    e = m.new_err(ex, st)
    return TupleV([sl, If(ok, ANil, e)])


@model("encoding/hex.EncodeToString")
def _(m, ex, fr, st, a, d):
    return hexenc(ex.content(st, a[0]))


# ---- json and yaml
def target_loc(ex, a):
    b = unbox(simplify(a))
    if b is not None and isinstance(b[0], LOCS):
        return b[0]
    return None


@model("encoding/json.Unmarshal", eff=["JMAP"])
def _(m, ex, fr, st, a, d):
    c = ex.content(st, a[0])
    loc = target_loc(ex, a[1])
    if loc is None:
        raise Unsupported("json.Unmarshal target")
    j = jsondec(c)
    st.assume(jkind(j))
    good = jsonok(c)
    e = m.new_err(ex, st)
    t = loc.type
    if t.str == "map[string]interface{}":
        old = ex.load(st, loc)
        ok = And(good, Or(AnyS.is_AMap(j), j == ANil))
        jr = AnyS.amap(j)
        kd, kv = ex.mkeys(t)
        r = ex.alloc(st)
        isnil = simplify(old == 0)
        D, V = ex.get(st, kd), ex.get(st, kv)
        if z3.is_true(isnil):
            ex.upd(st, kd, r, jdom(jr))
            ex.upd(st, kv, r, jval(jr))
            new = r
        else:
            # merged into the existing map, or into a new one when there is none
            ref = If(old == 0, r, old)
            od, ov = ex.map_dom(st, old, t), ex.map_val(st, old, t)
            hit = And(ok, AnyS.is_AMap(j))
            st.heap[kd] = Store(D, ref, If(hit, If(old == 0, jdom(jr), mud(od, jdom(jr))), Select(D, ref)))
            st.heap[kv] = Store(V, ref, If(hit, If(old == 0, jval(jr), muv(jdom(jr), ov, jval(jr))), Select(V, ref)))
            new = ref
        st.marks = dict(st.marks)
        ex.store(st, loc, simplify(If(ok, If(AnyS.is_AMap(j), new, IntVal(0)), old)))
        return If(ok, ANil, e)
    if t.str == "[]interface{}":
        old = ex.load(st, loc)
        ok = And(good, Or(AnyS.is_AArr(j), j == ANil))
        ref = AnyS.aarr(j)
        ar = AnyS.is_AArr(j)
        ex.store(st, loc, SliceV(simplify(If(ok, If(ar, ref, 0), old.ref)), IntVal(0), simplify(If(ok, If(ar, AnyS.aarrlen(j), 0), old.len)), t.elem))
        return If(ok, ANil, e)
    if t.under().kind == "interface":
        old = ex.load(st, loc)
        ex.store(st, loc, If(good, j, old))
        return If(good, ANil, e)
    raise Unsupported("json.Unmarshal into " + t.str)


@model("gopkg.in/yaml.v2.Unmarshal", eff=["JMAP"])
def _(m, ex, fr, st, a, d):
    c = ex.content(st, a[0])
    loc = target_loc(ex, a[1])
    if loc is None or loc.type.str != "map[string]interface{}":
        raise Unsupported("yaml.Unmarshal target")
    t = loc.type
    old = ex.load(st, loc)
    if num(old) != 0:
        raise Unsupported("yaml.Unmarshal into a map that is not nil")
    kd, kv = ex.mkeys(t)
    r = ex.alloc(st)
    ex.upd(st, kd, r, ydom(c))
    ex.upd(st, kv, r, yval(c))
    f = m.hook(ex, st, "envYaml", (c, "string"))
    if f is not None:
        st.assume(f)
    ok = yamlok(c)
    s = Const("s", Str)
    st.assume(ForAll([s], Implies(Not(Select(ydom(c), s)), Select(yval(c), s) == ANil), patterns=[Select(yval(c), s)]))
    ex.store(st, loc, simplify(If(And(ok, Not(yamlnil(c))), r, IntVal(0))))
    e = m.new_err(ex, st)
    return If(ok, ANil, e)


@model("gopkg.in/yaml.v2.Marshal", eff=["B"])
def _(m, ex, fr, st, a, d):
    x = simplify(a[0])
    if not (z3.is_app(x) and x.decl().eq(AnyS.AMap)):
        raise Unsupported("yaml.Marshal of something else than a map")
    t = ex.p.bystr["map[string]interface{}"]
    ref = x.arg(0)
    dm, vl = ex.map_dom(st, ref, t), ex.map_val(st, ref, t)
    c = yenc(dm, vl)
    et = ex.p.bystr["[]byte"].elem
    sl = ex.new_seq(st, et, c)
    return TupleV([sl, m.maybe_err(ex, st, ok_const("marshal"))])


# ---- strings, strconv, filepath, sort, time, math
def lit_or(f, *args):
    vs = [litval(a) if a.sort() == Str else num(a) for a in args]
    return vs if all(v is not None for v in vs) else None


@model("strings.ToLower")
def _(m, ex, fr, st, a, d):
    return ev1(T.tolower, a[0], "tolower")


@model("strings.TrimSpace")
def _(m, ex, fr, st, a, d):
    return ev1(T.trimspace, a[0], "trimspace")


@model("strings.Title")
def _(m, ex, fr, st, a, d):
    return ev1(T.totitle, a[0], "totitle")


def ev1(f, x, name):
    v = litval(x)
    if v is not None:
        r = T.EVALS[name](v)
        if r is not None:
            return lit(r)
    return f(x)


@model("strings.Contains")
def _(m, ex, fr, st, a, d):
    return T.contains(a[0], a[1])


@model("strings.HasPrefix")
def _(m, ex, fr, st, a, d):
    return hasprefix(a[0], a[1])


@model("strings.EqualFold")
def _(m, ex, fr, st, a, d):
    return T.tolower(a[0]) == T.tolower(a[1])


@model("strings.Split", eff=["S:string"])
def _(m, ex, fr, st, a, d):
    x, y = litval(a[0]), litval(a[1])
    et = ex.p.bystr["string"]
    if x is not None and y:
        return ex.new_seq(st, et, SS.lit([lit(q) for q in x.split(y)]))
    return ex.new_seq(st, et, splitf(a[0], a[1]))


@model("strings.Fields", eff=["S:string"])
def _(m, ex, fr, st, a, d):
    return ex.new_seq(st, ex.p.bystr["string"], fieldsf(a[0]))


@model("strings.Join")
def _(m, ex, fr, st, a, d):
    c = ex.content(st, a[0])
    es = SS.elems(c)
    if es is not None:
        out = []
        for i, e in enumerate(es):
            if i:
                out.append(a[1])
            out.append(e)
        return scat(*out)
    return fn("strjoin", SS.sort, Str, Str)(c, a[1])


@model("strings.ReplaceAll")
def _(m, ex, fr, st, a, d):
    return replall(*a)


@model("strings.Replace")
def _(m, ex, fr, st, a, d):
    n = num(a[3])
    if n is not None and n < 0:
        return replall(*a[:3])
    return fn("replacen", Str, Str, Str, I, Str)(*a)


@model("strings.TrimSuffix")
def _(m, ex, fr, st, a, d):
    return trimsuf(a[0], a[1])


@model("strings.NewReplacer", eff=["F:$replacer.args"])
def _(m, ex, fr, st, a, d):
    r = ex.alloc(st)
    m.hset(ex, st, "replacer.args", SS.sort, r, SS.lit(elems(ex, st, a[0])))
    return r


ESC = ["\\", "\\\\", "*", "\\*", "?", "\\?", "[", "\\["]


@model("(*strings.Replacer).Replace")
def _(m, ex, fr, st, a, d):
    s = m.hget(ex, st, "replacer.args", SS.sort, a[0])
    es = SS.elems(s)
    if es is not None and all(litval(e) is not None for e in es):
        vs = [litval(e) for e in es]
        pairs = {(vs[i], vs[i + 1]) for i in range(0, len(vs) - 1, 2)}
        if pairs == {(ESC[i], ESC[i + 1]) for i in range(0, 8, 2)} and len(vs) == 8:
            return escglob(a[1])
    return replacer(s, a[1])


@model("strconv.ParseInt")
def _(m, ex, fr, st, a, d):
    b, w = num(a[1]), num(a[2])
    e = m.new_err(ex, st)
    if b == 10 and w == 64:
        ok, v = T.pintok(a[0]), T.pint(a[0])
    else:
        tag = "%s:%s" % (b, w)
        ok, v = fn("pintok" + tag, Str, B)(a[0]), fn("pint" + tag, Str, I)(a[0])
    bad = fn("pinterr", Str, I)(a[0])
    st.assume(And(v >= -2 ** 63, v < 2 ** 63, bad >= -2 ** 63, bad < 2 ** 63))
    return TupleV([If(ok, v, bad), If(ok, ANil, e)])


@model("strconv.Atoi")
def _(m, ex, fr, st, a, d):
    e = m.new_err(ex, st)
    ok, v = T.pintok(a[0]), T.pint(a[0])
    bad = fn("pinterr", Str, I)(a[0])
    st.assume(And(v >= -2 ** 63, v < 2 ** 63, bad >= -2 ** 63, bad < 2 ** 63))
    return TupleV([If(ok, v, bad), If(ok, ANil, e)])


@model("strconv.ParseUint")
def _(m, ex, fr, st, a, d):
    b, w = num(a[1]), num(a[2])
    e = m.new_err(ex, st)
    if b == 10 and w == 64:
        ok, v = T.puintok(a[0]), T.puint(a[0])
    else:
        tag = "%s:%s" % (b, w)
        ok, v = fn("puintok" + tag, Str, B)(a[0]), fn("puint" + tag, Str, I)(a[0])
    bad = fn("puinterr", Str, I)(a[0])
    st.assume(And(v >= 0, v < 2 ** 64, bad >= 0, bad < 2 ** 64))
    return TupleV([If(ok, v, bad), If(ok, ANil, e)])


@model("strconv.Itoa")
def _(m, ex, fr, st, a, d):
    return T.itoa(a[0])


@model("strconv.FormatInt")
def _(m, ex, fr, st, a, d):
    return T.itoa(a[0]) if num(a[1]) == 10 else fn("formatint", I, I, Str)(a[0], a[1])


@model("strconv.FormatBool")
def _(m, ex, fr, st, a, d):
    return boolstr(a[0])


@model("strconv.FormatFloat")
def _(m, ex, fr, st, a, d):
    return ffmt(a[0], a[1], a[2], a[3])


@model("path/filepath.Join")
def _(m, ex, fr, st, a, d):
    return joinn(elems(ex, st, a[0]))


@model("path/filepath.Clean")
def _(m, ex, fr, st, a, d):
    v = litval(a[0])
    return lit(goclean(v)) if v is not None else pclean(a[0])


@model("path/filepath.Base")
def _(m, ex, fr, st, a, d):
    return pbase(a[0])


@model("path/filepath.Glob", eff=["S:string"])
def _(m, ex, fr, st, a, d):
    p = a[0]
    et = ex.p.bystr["string"]
    x = None
    if p.decl().eq(pjoin) and p.arg(0).decl().eq(pjoin) and p.arg(0).arg(0).decl().eq(escglob):
        if litval(p.arg(1)) == "band_*.js" and plain_name(litval(p.arg(0).arg(1)) or ""):
            x = pjoin(p.arg(0).arg(0).arg(0), p.arg(0).arg(1))
    if x is not None:
        return TupleV([ex.new_seq(st, et, bandglob(x)), ANil])
    e = m.new_err(ex, st)
    return TupleV([ex.new_seq(st, et, globf(p)), If(globok(p), ANil, e)])


def closure_bool(ex, fr, st, f, args):
    """the boolean a closure returns, as one formula; None if it is not a simple function"""
    s = st.fork()
    n0 = len(s.pc)
    ex.quiet += 1
    ex.force_inline += 1
    try:
        outs = ex.run_fn(ex.p.fns[f.name], args, s, f.bindings, fr.depth + 1)
    finally:
        ex.quiet -= 1
        ex.force_inline -= 1
    fs = []
    for o in outs:
        if o.kind != "return":
            return None
        for k, v in o.st.heap.items():
            if not v.eq(ex.get(st, k)):
                return None
        fs.append(And(*(o.st.pc[n0:] + [o.data[0]])))
    return simplify(Or(*fs)) if fs else None


@model("sort.Slice", "sort.SliceStable", eff=["ALLSEQ"])
def _(m, ex, fr, st, a, d):
    b = unbox(simplify(a[0]))
    if b is None:
        x = simplify(a[0])
        raise Unsupported("sort.Slice of an interface")
    sl, t = b
    f = fn_of(a[1])
    if f is None or f.name not in ex.p.fns:
        raise Unsupported("sort.Slice with an unknown order")
    return sort_with(m, ex, fr, st, sl, f)


def sort_with(m, ex, fr, st, sl, f, order=None):
    ex.need_full(st, sl, "slice that is sorted")
    c = ex.content(st, sl)
    th = seqth_of_sort(c.sort())
    n = sl.len
    k = next(ex.cellid)
    new = Const("sorted!%d" % k, th.sort)
    pi, io = z3.Function("perm!%d" % k, I, I), z3.Function("unperm!%d" % k, I, I)
    i, j, q = Int("i"), Int("j"), Int("q")
    if f is not None:
        # no panic while comparing
        chk = st.fork()
        ii, jj = T.fresh("i", I), T.fresh("j", I)
        chk.assume(And(0 <= ii, ii < n, 0 <= jj, jj < n))
        ex.run_fn(ex.p.fns[f.name], [ii, jj], chk, f.bindings, fr.depth + 1)
    st.assume(th.len(new) == n)
    st.assume(ForAll([i], Implies(And(0 <= i, i < n), And(th.at(new, i) == th.at(c, pi(i)), 0 <= pi(i), pi(i) < n, io(pi(i)) == i)), patterns=[th.at(new, i)]))
    st.assume(ForAll([i], Implies(And(0 <= i, i < n), And(th.at(c, i) == th.at(new, io(i)), 0 <= io(i), io(i) < n, pi(io(i)) == i)), patterns=[th.at(c, i)]))
    ex.upd(st, ex.skey(sl.et), sl.ref, new)
    st.marks = dict(st.marks)
    st.marks["perms"] = st.marks.get("perms", ()) + ((new, c, pi, io),)
    ii, jj, kk = T.fresh("i", I), T.fresh("j", I), T.fresh("k", I)
    if order is not None:
        L = lambda x, y: order(th.at(new, x), th.at(new, y))
        good = True
    else:
        def L(x, y):
            s = st.fork()
            s.assume(And(0 <= x, x < n, 0 <= y, y < n))
            s.pc = list(s.pc)
            return closure_bool(ex, fr, s, f, [x, y])
        g = L(ii, jj)
        if g is None:
            return TupleV([])
        Lf = lambda x, y: z3.substitute(g, (ii, x), (jj, y))
        L = Lf
        inb = And(0 <= ii, ii < n, 0 <= jj, jj < n, 0 <= kk, kk < n)
        h = st.pc
        good = True
        for goal in (Not(Lf(ii, ii)), Implies(And(Lf(ii, jj), Lf(jj, kk)), Lf(ii, kk)),
                     Implies(And(Not(Lf(ii, jj)), Not(Lf(jj, kk))), Not(Lf(ii, kk)))):
            # the order alone, then with what is known about the elements
            r, _ = T.check([inb], goal, timeout=2000)
            if r != "proved":
                r, _ = T.check(list(h) + [inb], goal, timeout=3000)
            if r != "proved" and T.external(list(h) + [inb], goal):
                r = "proved"
            if r != "proved":
                good = False
                break
    if good:
        f_ = Implies(And(0 <= i, i < j, j < n), Not(L(j, i)))
        st.assume(ForAll([i, j], f_, patterns=[z3.MultiPattern(th.at(new, i), th.at(new, j))]))
    return TupleV([])


@model("sort.Strings", eff=["S:string"])
def _(m, ex, fr, st, a, d):
    r = sort_with(m, ex, fr, st, a[0], None, order=lambda x, y: T.slt(x, y))
    # a strictly ascending sequence is determined by the set of its members
    c = ex.content(st, a[0])
    D, i, j = Const("D", z3.ArraySort(Str, B)), Int("i"), Int("j")
    n = SS.len(c)
    st.assume(ForAll([D], Implies(And(n == fn("card", D.sort(), I)(D), ForAll([i], Implies(And(0 <= i, i < n), Select(D, SS.at(c, i))), patterns=[SS.at(c, i)]),
                                      ForAll([i, j], Implies(And(0 <= i, i < j, j < n), T.slt(SS.at(c, i), SS.at(c, j))), patterns=[z3.MultiPattern(SS.at(c, i), SS.at(c, j))])),
                                  c == sortedkeys(D)), patterns=[sortedkeys(D)]))
    return r


def tick(m, ex, st):
    n = z3.ToReal(T.fresh("nowns", I)) / 1000000000
    st.assume(n >= 0)
    m.setg(ex, st, "now", n)
    k = m.g(ex, st, "ticks")
    m.setg(ex, st, "clock", Store(m.g(ex, st, "clock"), k, n))
    m.setg(ex, st, "ticks", k + 1)
    return n


@model("time.Now", eff=["$now", "$ticks", "$clock"])
def _(m, ex, fr, st, a, d):
    n = tick(m, ex, st)
    return n


@model("time.Unix")
def _(m, ex, fr, st, a, d):
    if num(a[1]) == 0:
        return z3.ToReal(a[0])
    return z3.ToReal(a[0]) + z3.ToReal(a[1]) / 1000000000


@model("(time.Time).Unix")
def _(m, ex, fr, st, a, d):
    return z3.ToInt(a[0])


@model("(time.Time).Sub")
def _(m, ex, fr, st, a, d):
    x = (a[0] - a[1]) * 1000000000
    lo, hi = -2 ** 63, 2 ** 63 - 1
    return If(x > hi, IntVal(hi), If(x < lo, IntVal(lo), z3.ToInt(x)))


@model("time.Since", eff=["$now", "$ticks", "$clock"])
def _(m, ex, fr, st, a, d):
    n = tick(m, ex, st)
    x = (n - a[0]) * 1000000000
    lo, hi = -2 ** 63, 2 ** 63 - 1
    return If(x > hi, IntVal(hi), If(x < lo, IntVal(lo), z3.ToInt(x)))


@model("(time.Duration).Hours")
def _(m, ex, fr, st, a, d):
    return z3.ToReal(a[0]) / 3600000000000


@model("(time.Time).Format")
def _(m, ex, fr, st, a, d):
    return tfmt(a[0], a[1])


@model("(time.Time).UTC", "(time.Time).Local")
def _(m, ex, fr, st, a, d):
    return fn("timezone" + d.get("static", ""), R, R)(a[0])


@model("math.Abs")
def _(m, ex, fr, st, a, d):
    return If(a[0] >= 0, a[0], -a[0])


@model("math.Floor")
def _(m, ex, fr, st, a, d):
    return z3.ToReal(z3.ToInt(a[0]))


# ---- cobra, table, text
@model("(*github.com/spf13/cobra.Command).AddCommand", "(*github.com/spf13/pflag.FlagSet).StringVarP", "(*github.com/spf13/pflag.FlagSet).BoolVarP")
def _(m, ex, fr, st, a, d):
    if len(a) == 2:
        if isinstance(a[1], SliceV):
            m.commands += [("add", a[0], x) for x in elems(ex, st, a[1])]
    else:
        m.commands.append(("flag", a[0], a[1], a[2], a[4]))
    return TupleV([])


@model("(*github.com/spf13/cobra.Command).Flags")
def _(m, ex, fr, st, a, d):
    return a[0]


@model("(*github.com/spf13/cobra.Command).Execute")
def _(m, ex, fr, st, a, d):
    m.root = a[0]
    return m.maybe_err(ex, st, ok_const("execute"))


@model("github.com/spf13/cobra.ExactArgs")
def _(m, ex, fr, st, a, d):
    return fn("exactargs", I, I)(a[0])


@model("github.com/jedib0t/go-pretty/v6/table.NewWriter", eff=["F:$table.rows"])
def _(m, ex, fr, st, a, d):
    r = ex.alloc(st)
    m.hset(ex, st, "table.rows", SS.sort, r, SS.nil)
    return AnyS.AOth(IntVal(WRITER), r)


@model("(github.com/jedib0t/go-pretty/v6/table.Writer).SetStyle")
def _(m, ex, fr, st, a, d):
    return TupleV([])


@model("(github.com/jedib0t/go-pretty/v6/table.Writer).AppendHeader", "(github.com/jedib0t/go-pretty/v6/table.Writer).AppendRow", eff=["F:$table.rows"])
def _(m, ex, fr, st, a, d):
    r = simplify(a[0]).arg(1)
    parts = []
    for x in elems(ex, st, a[1]):
        parts += [lit("|"), fmt_any(ex, st, x)]
    m.hset(ex, st, "table.rows", SS.sort, r, SS.snoc(m.hget(ex, st, "table.rows", SS.sort, r), scat(*parts)))
    return TupleV([])


@model("(github.com/jedib0t/go-pretty/v6/table.Writer).Render")
def _(m, ex, fr, st, a, d):
    return trender(m.hget(ex, st, "table.rows", SS.sort, simplify(a[0]).arg(1)))


@model("(github.com/jedib0t/go-pretty/v6/text.Align).Apply")
def _(m, ex, fr, st, a, d):
    return alignf(a[0], a[1], a[2])


# ---- gocui
GV = "(*github.com/jroimartin/gocui.View)."
GU = "(*github.com/jroimartin/gocui.Gui)."


def vget(m, ex, st, f, v):
    return m.hget(ex, st, "view." + f, VF[f], v)


def vset(m, ex, st, f, v, x):
    m.hset(ex, st, "view." + f, VF[f], v, x)


def need_view(ex, st, v):
    ex.obligation(st, v != 0, "nopanic", "view is not nil")


@model("github.com/jroimartin/gocui.NewGui")
def _(m, ex, fr, st, a, d):
    r = ex.alloc(st)
    ok = ok_const("newgui")
    return TupleV([If(ok, r, IntVal(0)) if not (ex.graph and ex.graph.building) else r, m.maybe_err(ex, st, ok)])


@model(GU + "Close", GU + "SetManager", GU + "SetManagerFunc")
def _(m, ex, fr, st, a, d):
    if d.get("static", "").endswith("SetManager") and ex.graph is not None and ex.graph.building:
        m.managers = elems(ex, st, a[1])
    return TupleV([])


@model(GU + "MainLoop")
def _(m, ex, fr, st, a, d):
    return m.maybe_err(ex, st, ok_const("mainloop"))


@model(GU + "SetKeybinding")
def _(m, ex, fr, st, a, d):
    if ex.graph is not None and ex.graph.building:
        m.binds.append((a[1], a[2], a[3], a[4]))
    return m.maybe_err(ex, st, ok_const("setkeybinding"))


@model(GU + "Size")
def _(m, ex, fr, st, a, d):
    x, y = Const("guiW", I), Const("guiH", I)
    return TupleV([x, y])


@model(GU + "View")
def _(m, ex, fr, st, a, d):
    v = Select(m.g(ex, st, "views"), a[1])
    st.assume(And(v >= 0, v <= st.top))
    return TupleV([v, If(v != 0, ANil, err(UNKVIEW))])


@model(GU + "DeleteView", eff=["$views", "$current"])
def _(m, ex, fr, st, a, d):
    vs = m.g(ex, st, "views")
    v = Select(vs, a[1])
    m.setg(ex, st, "views", Store(vs, a[1], IntVal(0)))
    return If(v != 0, ANil, err(UNKVIEW))


@model(GU + "SetCurrentView", eff=["$current"])
def _(m, ex, fr, st, a, d):
    vs = m.g(ex, st, "views")
    v = Select(vs, a[1])
    st.assume(And(v >= 0, v <= st.top))
    m.setg(ex, st, "current", If(v != 0, a[1], m.g(ex, st, "current")))
    return TupleV([v, If(v != 0, ANil, err(UNKVIEW))])


@model(GU + "CurrentView")
def _(m, ex, fr, st, a, d):
    return Select(m.g(ex, st, "views"), m.g(ex, st, "current"))


@model(GU + "SetView", eff=["$views"] + ["view." + f for f in VF])
def _(m, ex, fr, st, a, d):
    name = a[1]
    vs = m.g(ex, st, "views")
    old = simplify(Select(vs, name))
    st.assume(And(old >= 0, old <= st.top))
    bad = Or(a[2] >= a[4], a[3] >= a[5])
    r = ex.alloc(st)
    e = m.new_err(ex, st)
    w, h = T.fresh("viewW", I), T.fresh("viewH", I)
    st.assume(And(w >= 0, h >= 0))
    for f, so in VF.items():
        v = {"w": w, "h": h, "buf": T.EMPTY}.get(f, IntVal(0))
        vset(m, ex, st, f, r, v)
    m.setg(ex, st, "views", Store(vs, name, If(bad, old, If(old == 0, r, old))))
    return TupleV([If(bad, IntVal(0), If(old == 0, r, old)), If(bad, e, If(old == 0, err(UNKVIEW), ANil))])


@model(GV + "Clear", eff=["view.buf"])
def _(m, ex, fr, st, a, d):
    need_view(ex, st, a[0])
    vset(m, ex, st, "buf", a[0], T.EMPTY)
    return TupleV([])


@model(GV + "Cursor")
def _(m, ex, fr, st, a, d):
    need_view(ex, st, a[0])
    return TupleV([vget(m, ex, st, "cx", a[0]), vget(m, ex, st, "cy", a[0])])


@model(GV + "Origin")
def _(m, ex, fr, st, a, d):
    need_view(ex, st, a[0])
    return TupleV([vget(m, ex, st, "ox", a[0]), vget(m, ex, st, "oy", a[0])])


@model(GV + "Size")
def _(m, ex, fr, st, a, d):
    need_view(ex, st, a[0])
    return TupleV([vget(m, ex, st, "w", a[0]), vget(m, ex, st, "h", a[0])])


@model(GV + "SetCursor", eff=["view.cx", "view.cy"])
def _(m, ex, fr, st, a, d):
    need_view(ex, st, a[0])
    v, x, y = a
    ok = And(0 <= x, x < vget(m, ex, st, "w", v), 0 <= y, y < vget(m, ex, st, "h", v))
    cx, cy = vget(m, ex, st, "cx", v), vget(m, ex, st, "cy", v)
    vset(m, ex, st, "cx", v, If(ok, x, cx))
    vset(m, ex, st, "cy", v, If(ok, y, cy))
    e = m.new_err(ex, st)
    return If(ok, ANil, e)


@model(GV + "SetOrigin", eff=["view.ox", "view.oy"])
def _(m, ex, fr, st, a, d):
    need_view(ex, st, a[0])
    v, x, y = a
    ok = And(x >= 0, y >= 0)
    ox, oy = vget(m, ex, st, "ox", v), vget(m, ex, st, "oy", v)
    vset(m, ex, st, "ox", v, If(ok, x, ox))
    vset(m, ex, st, "oy", v, If(ok, y, oy))
    e = m.new_err(ex, st)
    return If(ok, ANil, e)


@model(GV + "ViewBuffer", GV + "Buffer")
def _(m, ex, fr, st, a, d):
    need_view(ex, st, a[0])
    return vget(m, ex, st, "buf", a[0])
