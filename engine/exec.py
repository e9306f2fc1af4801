"""Symbolic execution of go/ssa (all paths, loops cut by inductive invariants, calls by contract) that generates
the proof obligations of a function."""
import itertools
import os
import re
import z3
from z3 import And, Or, Not, Implies, If, ForAll, Int, IntVal, BoolVal, Const, Select, Store, simplify, is_int_value
import terms as T
from terms import I, B, R, Str, AnyS, ANil, seqth
from values import *


class State:
    __slots__ = ("pc", "heap", "cells", "top", "marks")

    def __init__(self):
        self.pc, self.heap, self.cells, self.top, self.marks = [], {}, {}, None, {}

    def fork(self):
        s = State.__new__(State)
        s.pc, s.heap, s.cells, s.top, s.marks = list(self.pc), dict(self.heap), dict(self.cells), self.top, dict(self.marks)
        return s

    def assume(self, f):
        f = simplify(f)
        if z3.is_true(f):
            return
        if z3.is_and(f):
            for c in f.children():
                self.assume(c)
            return
        self.pc.append(f)

    def assume_inv(self, f):
        """an invariant: its parts are used in a query only where they are relevant"""
        n = len(self.pc)
        self.assume(f)
        T.mark_inv(self.pc[n:])


class Frame:
    __slots__ = ("fn", "regs", "defers", "depth", "unroll")

    def __init__(self, fn, depth=0):
        self.fn, self.regs, self.defers, self.depth, self.unroll = fn, {}, [], depth, {}

    def fork(self):
        f = Frame(self.fn, self.depth)
        f.regs, f.defers, f.unroll = dict(self.regs), list(self.defers), self.unroll
        return f


class Out:
    """outcome of running code: kind return/exit/panic/back/leave"""
    __slots__ = ("kind", "st", "fr", "data")

    def __init__(self, kind, st, fr=None, data=None):
        self.kind, self.st, self.fr, self.data = kind, st, fr, data


class Loop:
    __slots__ = ("blocks", "header", "join")

    def __init__(self, blocks, header, join=None):
        self.blocks, self.header, self.join = blocks, header, join


def merge_val(c, a, b):
    """If(c, a, b) on values, None where that is not possible"""
    if a is b:
        return a
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        if a.eq(b):
            return a
        return simplify(If(c, a, b)) if a.sort() == b.sort() else None
    if isinstance(a, SliceV) and isinstance(b, SliceV):
        return SliceV(*[merge_val(c, getattr(a, f), getattr(b, f)) for f in ("ref", "off", "len")], a.et)
    if isinstance(a, TupleV) and isinstance(b, TupleV):
        vs = [merge_val(c, x, y) for x, y in zip(a.vals, b.vals)]
        return None if any(v is None for v in vs) else TupleV(vs)
    return None


def same_heap(a, b):
    if a.top is not b.top and not (a.top is not None and b.top is not None and a.top.eq(b.top)):
        return False
    for x, y in ((a.heap, b.heap), (b.heap, a.heap)):
        for k, v in x.items():
            w = y.get(k)
            if w is None or not (v is w or v.eq(w)):
                return False
    if a.cells.keys() != b.cells.keys():
        return False
    for k, (v, t) in a.cells.items():
        w = b.cells[k][0]
        if not (v is w or isinstance(v, z3.ExprRef) and isinstance(w, z3.ExprRef) and v.eq(w)):
            return False
    return True


def merge_pc(a, b):
    """path condition that stands for both, and what tells the first from the second"""
    n = 0
    while n < len(a) and n < len(b) and (a[n] is b[n] or a[n].eq(b[n])):
        n += 1
    ra, rb = a[n:], b[n:]
    c = None
    if ra and rb:
        if simplify(Not(ra[0])).eq(rb[0]) or simplify(Not(rb[0])).eq(ra[0]):
            c = ra[0]
            na, nb = ra[1:], rb[1:]
    if c is None:
        c = T.fresh("path", B)
        na, nb = ra, rb
    nc = simplify(Not(c))
    pc = a[:n]
    inb = {h.get_id() for h in nb}
    both = {h.get_id() for h in na} & inb
    for h in na:
        pc.append(h if h.get_id() in both else Or(nc, h))
    pc += [Or(c, h) for h in nb if h.get_id() not in both]
    return pc, c


def merge_states(a, b, vals, ex=None):
    """one state for both, with the pairs of values merged; None where they differ in more than values"""
    if not same_heap(a, b):
        return merge_heaps(a, b, vals, ex) if ex is not None and ex.cur is not None and "merge" in ex.cur.flags else None
    pc, c = merge_pc(a.pc, b.pc)
    vs = []
    for x, y in vals:
        v = merge_val(c, x, y)
        if v is None:
            return None
        vs.append(v)
    s = a.fork()
    s.pc = pc
    s.marks = {k: v for k, v in a.marks.items() if k in b.marks and (b.marks[k] is v or isinstance(v, z3.ExprRef) and v.eq(b.marks[k]))}
    return s, vs


def loop_ahead(fn, b):
    """a loop can be entered from block b"""
    seen, st = set(), [b]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x in fn.loops():
            return True
        st += fn.blocks[x]["succs"] or []
    return False


def common(a, b):
    n = 0
    while n < len(a) and n < len(b) and (a[n] is b[n] or a[n].eq(b[n])):
        n += 1
    return n


def merge_heaps(a, b, vals, ex):
    """the same where the heaps differ: what differs gets a name of its own"""
    if a.cells.keys() != b.cells.keys():
        return None
    for k, (v, t) in a.cells.items():
        w = b.cells[k][0]
        if not (v is w or isinstance(v, z3.ExprRef) and isinstance(w, z3.ExprRef) and v.eq(w)):
            return None
    pc, c = merge_pc(a.pc, b.pc)
    n = common(a.pc, b.pc)
    if any(T.has_quant(h) for h in a.pc[n:] + b.pc[n:]):
        return None
    vs = []
    for x, y in vals:
        v = merge_val(c, x, y)
        if v is None:
            return None
        vs.append(v)
    s = a.fork()
    s.pc = pc
    s.marks = {k: v for k, v in a.marks.items() if k in b.marks and (b.marks[k] is v or isinstance(v, z3.ExprRef) and v.eq(b.marks[k]))}
    if not (a.top is b.top or a.top.eq(b.top)):
        d = num(simplify(a.top - b.top))
        if d is None:
            return None
        s.top = a.top if d >= 0 else b.top
    for k in sorted(set(a.heap) | set(b.heap)):
        x, y = ex.get(a, k), ex.get(b, k)
        if x is y or x.eq(y):
            s.heap[k] = x
            continue
        m = T.fresh("M." + k, x.sort())
        pc += [Or(Not(c), m == x), Or(c, m == y)]
        s.heap[k] = m
        if z3.is_array(m):
            ex.__dict__.setdefault("merged", {})[m.decl().name()] = (x, y)
    return s, vs


# members of a map[string]interface{}: JSON values have negative addresses and their own contents, nil has none
_MD, _MV = z3.ArraySort(I, z3.ArraySort(Str, B)), z3.ArraySort(I, z3.ArraySort(Str, AnyS))
mapdom, mapval = T.fn("mapdom", _MD, I, z3.ArraySort(Str, B)), T.fn("mapval", _MV, I, z3.ArraySort(Str, AnyS))
_D, _V, _r = Const("D", _MD), Const("V", _MV), Int("r")
T.axiom(["mapdom"], ForAll([_D, _r], mapdom(_D, _r) == If(_r < 0, T.fn("jdom", I, z3.ArraySort(Str, B))(_r), If(_r == 0, z3.K(Str, BoolVal(False)), Select(_D, _r))), patterns=[mapdom(_D, _r)]))
T.axiom(["mapval"], ForAll([_V, _r], mapval(_V, _r) == If(_r < 0, T.fn("jval", I, z3.ArraySort(Str, AnyS))(_r), If(_r == 0, z3.K(Str, ANil), Select(_V, _r))), patterns=[mapval(_V, _r)]))


def num(t):
    t = simplify(t) if not is_int_value(t) else t
    return t.as_long() if is_int_value(t) else None


_distinct_cache = {}


BELOW = {}          # name of a reference, or of a heap array holding references -> allocation mark it does not exceed
TOPGE = {}          # name of an allocation mark -> earlier allocation mark
MAXREF = [0]


def split_ref(t):
    """(name, offset) of  name + offset"""
    if is_int_value(t):
        return "", t.as_long()
    if z3.is_const(t):
        return t.decl().name(), 0
    if z3.is_add(t) and t.num_args() == 2:
        for i in (0, 1):
            if is_int_value(t.arg(i)) and z3.is_const(t.arg(1 - i)):
                return t.arg(1 - i).decl().name(), t.arg(i).as_long()
    return None


def upper(t):
    """(name, offset) the reference does not exceed"""
    if is_int_value(t):
        return ("top0", 0) if t.as_long() <= MAXREF[0] else None
    if z3.is_const(t):
        m = BELOW.get(t.decl().name())
        return split_ref(m) if m is not None else split_ref(t)
    if z3.is_add(t):
        return split_ref(t)
    k = t.decl().kind()
    arr = None
    if k == z3.Z3_OP_SELECT:
        arr = t.arg(0)
    elif t.decl().name().startswith("at_") and t.arg(0).decl().kind() == z3.Z3_OP_SELECT:
        arr = t.arg(0).arg(0)
    if arr is not None and z3.is_const(arr):
        m = BELOW.get(arr.decl().name())
        return split_ref(m) if m is not None else None
    return None


def above(u, b):
    """b is certainly larger than the bound u"""
    if u is None:
        return False
    q = split_ref(b)
    n = 0
    while q is not None and n < 200:
        if q[0] == u[0]:
            return q[1] > u[1]
        m = TOPGE.get(q[0])
        if m is None:
            return False
        r = split_ref(m)
        if r is None:
            return False
        q = (r[0], r[1] + q[1])
        n += 1
    return False


def cmp_refs(a, b):
    """True: equal, False: different, None: unknown (syntactically)"""
    if a.eq(b):
        return True
    if a.sort() != z3.IntSort():
        a, b = simplify(a), simplify(b)
        return True if a.eq(b) else False if z3.is_true(simplify(a != b)) else None
    d = simplify(a - b)
    if is_int_value(d):
        return d.as_long() == 0
    a, b = simplify(a), simplify(b)
    if above(upper(a), b) or above(upper(b), a):
        return False
    return None


def learn(fr, c):
    """the frame after the decision c: registers that depend on a success flag known now are simplified"""
    neg = z3.is_not(c)
    a = c.arg(0) if neg else c
    if z3.is_and(a) or z3.is_or(a) or z3.is_quantifier(a):
        return fr
    to = [(a, BoolVal(not neg))]

    def sub(v):
        if isinstance(v, z3.ExprRef):
            if z3.is_const(v):
                return v
            w = z3.substitute(v, *to)
            return v if w.eq(v) else simplify(w)
        if isinstance(v, SliceV):
            r, o, l = sub(v.ref), sub(v.off), sub(v.len)
            return v if r is v.ref and o is v.off and l is v.len else SliceV(r, o, l, v.et)
        if isinstance(v, TupleV):
            return TupleV([sub(x) for x in v.vals])
        return v

    for k, v in fr.regs.items():
        w = sub(v)
        if w is not v:
            fr.regs[k] = w
    return fr


class Stop(Exception):
    pass


class Exec:
    failed = 0
    maxfail = 6
    MAXPATHS = 6000

    def __init__(self, prog, graph=None, models=None, contracts=None):
        self.p = prog
        self.graph = graph
        self.models = models
        self.contracts = contracts
        self.history = {}           # name of an arbitrary heap array -> (array it agrees with, except at these references, up to this mark)
        self.meta = {}              # heap key -> (range sort, role, extra)
        self.basecache = {}
        self.obls = []              # recorded obligations
        self.quiet = 0
        self.force_inline = 0
        self.cellid = itertools.count(1)
        self.cur = None             # contract under verification (gives invariant templates)
        self.entry = None           # entry state of the function under verification
        self.loopno = 0
        self.called = set()
        self.assumed = set()
        self.unmodelled = set()
        self.paths = 0
        self.feas_time = 0
        self.sites = {}
        self.prefix = "H0"
        self.top0 = Int("top0")

    # ------------------------------------------------------------------ heap keys
    def fkeys(self, st_t, fname, ft):
        """[(key, sort)] for field fname of struct type st_t"""
        out = []
        for suf, so in comps(ft):
            k = "F:%s.%s%s" % (st_t.str, fname, suf)
            if k not in self.meta:
                role, extra = "plain", None
                if ft.under().kind == "slice" and suf in (".ref", ".off", ".len"):
                    role, extra = "s" + suf[1:], ("F:%s.%s" % (st_t.str, fname), ft.elem)
                elif ft.under().kind == "pointer":
                    role = "ptr"
                elif ft.under().kind == "map":
                    role = "map"
                self.meta[k] = (so, role, extra)
            out.append((k, so))
        return out

    def skey(self, et):
        """heap key of the backing arrays with element type et"""
        if et.under().kind == "basic" and et.under().d["name"] in ("uint8", "byte"):
            k = "B"
            self.meta.setdefault(k, (Str, "bytes", None))
            return k
        k = "S:" + et.str
        if k not in self.meta:
            so = psort(et)
            self.meta[k] = (seqth(so).sort, "seq", et)
        return k

    def mkeys(self, mt):
        kd, kv = "MD:" + mt.str, "MV:" + mt.str
        if kd not in self.meta:
            ks, vs = psort(mt.key), psort(mt.elem)
            self.meta[kd] = (z3.ArraySort(ks, B), "mdom", mt)
            self.meta[kv] = (z3.ArraySort(ks, vs), "mval", mt)
        return kd, kv

    def gkey(self, name, sort):
        """ghost scalar"""
        self.meta.setdefault(name, (sort, "ghost", None))
        return name

    def key_const(self, key, tag):
        so, role, _ = self.meta[key]
        if role == "ghost":
            return Const("%s%s" % (tag, key), so)
        return Const("%s.%s" % (tag, key), z3.ArraySort(I, so))

    def get(self, st, key):
        a = st.heap.get(key)
        if a is None:
            a = self.base(key)
        return a

    def base(self, key):
        a = self.basecache.get(key)
        if a is None:
            a = self.basecache[key] = self.key_const(key, self.prefix)
            self.facts(key, a, None, self.top0)
        return a

    def facts(self, key, arr, st, top):
        """well-formedness of an arbitrary heap array (type safety of Go): registered as axioms of its symbol"""
        so, role, ex = self.meta[key]
        name = arr.decl().name()
        r, k = Int("r"), Int("k")
        if name in T.SYMAX:
            return
        T.SYMAX[name] = []
        if top is not None and (role in ("ptr", "sref", "map") or role == "seq" and ex.under().kind in ("pointer", "map")):
            BELOW[name] = simplify(top)
        cur = (lambda q: self.base(q)) if st is None else (lambda q: self.get(st, q))
        sel = Select(arr, r) if role != "ghost" else None
        ax = T.SYMAX[name]
        if role == "ptr":
            ax.append(ForAll([r], And(sel >= 0, sel <= top), patterns=[sel]))
        elif role == "map":
            ax.append(ForAll([r], sel <= top, patterns=[sel]))
        elif role == "seq":
            th = seqth_of_sort(so)
            if ex.under().kind == "pointer":
                at = th.at(sel, k)
                ax.append(ForAll([r, k], And(at >= 0, at <= top), patterns=[at]))
            elif ex.under().kind == "map":
                at = th.at(sel, k)
                ax.append(ForAll([r, k], at <= top, patterns=[at]))
            ax.append(th.len(Select(arr, IntVal(0))) == 0)
            for q, n in (self.graph.lens.get(key, ()) if self.graph is not None else ()):
                ax.append(th.len(Select(arr, IntVal(q))) == n)
        elif role == "bytes":
            ax.append(Select(arr, IntVal(0)) == T.EMPTY)
        elif role in ("sref", "soff", "slen"):
            b, et = ex
            kr, ko, kl = b + ".ref", b + ".off", b + ".len"
            if st is None:
                R_, O_, L_ = self.rawbase(kr), self.rawbase(ko), self.rawbase(kl)
            else:
                R_, O_, L_ = cur(kr), cur(ko), cur(kl)
            sk = self.skey(et)
            S_ = self.rawbase(sk) if st is None else cur(sk)
            rr, oo, ll = Select(R_, r), Select(O_, r), Select(L_, r)
            if self.meta[sk][1] == "bytes":
                f = And(rr >= 0, rr <= top, oo >= 0, ll >= 0, oo + ll <= T.slen(Select(S_, rr)), Implies(rr == 0, ll == 0))
            else:
                th = seqth_of_sort(self.meta[sk][0])
                f = And(rr >= 0, rr <= top, oo == 0, ll == th.len(Select(S_, rr)), Implies(rr == 0, ll == 0))
            ax.append(ForAll([r], f, patterns=[sel]))
        g = self.graph
        if g is not None and st is None and role not in ("ghost",):
            for ref, v in g.facts.get(key, ()):
                ax.append(Select(arr, IntVal(ref)) == v)

    def rawbase(self, key):
        if key in self.basecache:
            return self.basecache[key]
        a = self.basecache[key] = self.key_const(key, self.prefix)
        self.facts(key, a, None, self.top0)
        return a

    def sel(self, arr, idx):
        """select with resolution through store chains and through calls and loops that leave the index alone"""
        while z3.is_app(arr):
            if arr.decl().kind() == z3.Z3_OP_STORE:
                c = cmp_refs(arr.arg(1), idx)
                if c is True:
                    return arr.arg(2)
                if c is None:
                    break
                arr = arr.arg(0)
                continue
            h = self.history.get(arr.decl().name()) if arr.num_args() == 0 else None
            if h is None or h[2] is None or not above(upper(simplify(idx)), simplify(h[2] + 1)) or any(cmp_refs(x, idx) is not False for x in h[1]):
                break
            arr = h[0]
        if z3.is_app(arr) and arr.decl().kind() == z3.Z3_OP_CONST_ARRAY:
            return arr.arg(0)
        return Select(arr, idx)

    def upd(self, st, key, idx, v):
        a = self.get(st, key)
        # overwrite of the same index on top of the chain
        if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE and cmp_refs(a.arg(1), idx) is True:
            a = a.arg(0)
        st.heap[key] = Store(a, idx, v)

    # ------------------------------------------------------------------ allocation
    def alloc(self, st):
        r = simplify(st.top + 1)
        st.top = r
        return r

    def new_object(self, st, t, r=None):
        if r is None:
            r = self.alloc(st)
        if t.str in ("strings.Builder", "bytes.Buffer"):
            self.upd(st, self.models.hkey(self, "reader.buf", Str), r, T.EMPTY)
        for n, ft in t.fields:
            if is_ext_struct(t):
                break
            for (k, so) in self.fkeys(t, n, ft):
                self.upd(st, k, r, zero_of_sort(so))
        return r

    def new_cell(self, st, t, v):
        i = next(self.cellid)
        st.cells[i] = (v, t)
        return CellLoc(i, t)

    # ------------------------------------------------------------------ memory access
    def read_field(self, st, ref, stt, fname, ft):
        ks = self.fkeys(stt, fname, ft)
        n = num(ref)
        if n is not None and self.graph is not None:
            out = []
            for k, so in ks:
                v = self.graph.const(n, k)
                out.append(v if v is not None else self.sel(self.get(st, k), IntVal(n)))
            return self.whole(st, ft, from_comps(ft, out))
        return self.whole(st, ft, from_comps(ft, [self.sel(self.get(st, k), ref) for k, so in ks]))

    def whole(self, st, ft, v):
        """a slice held in a field is a whole array (checked at every store)"""
        if isinstance(v, SliceV) and not is_bytes(ft) and not (self.graph is not None and self.graph.building):
            b = self.backing(st, v.ref, v.et)
            if num(v.ref) == 0:
                return SliceV(v.ref, IntVal(0), IntVal(0), v.et)
            ln = v.len if num(v.len) is not None else simplify(self.seqlen(b))
            return SliceV(v.ref, IntVal(0), ln, v.et)
        return v

    def write_field(self, st, ref, stt, fname, ft, v):
        if isinstance(v, SliceV) and not is_bytes(ft):
            self.need_full(st, v, "slice stored in %s.%s" % (short(stt.str), fname))
        for (k, so), x in zip(self.fkeys(stt, fname, ft), to_comps(v, ft)):
            self.upd(st, k, ref, x)

    def is_full(self, st, sl):
        if num(sl.off) == 0 and simplify(sl.len).eq(simplify(self.backlen(st, sl))):
            return True
        return False

    def need_full(self, st, sl, what):
        if num(sl.ref) == 0 or self.is_full(st, sl):
            return
        self.obligation(st, And(sl.off == 0, sl.len == self.backlen(st, sl)), "wf", what + " is a whole array")

    def backing(self, st, ref, et):
        k = self.skey(et)
        n = num(ref)
        if self.meta[k][1] != "bytes" and et.under().kind == "interface":
            if n is None or n < 0:
                j = T.fn("jelems", I, seqth(AnyS).sort)(ref)
                a = self.sel(self.get(st, k), ref)
                if n is not None:
                    return j
                s = simplify(ref)
                if above(("top0", 0), s):
                    return a
                if z3.is_app(s) and s.decl().name() == "aarr":
                    # the array of a decoded JSON value when its reference is negative
                    return If(ref < 0, j, a)
                return If(ref < 0, j, a)
        return self.sel(self.get(st, k), ref)

    def backlen(self, st, sl):
        b = self.backing(st, sl.ref, sl.et)
        if b.sort() == Str:
            return T.slenof(b)
        return self.seqlen(b)

    def seqlen(self, b):
        th = seqth_of_sort(b.sort())
        e = th.elems(b)
        if e is not None:
            return IntVal(len(e))
        if z3.is_app(b) and b.decl().eq(th.snoc):
            return simplify(self.seqlen(b.arg(0)) + 1)
        if z3.is_app(b) and b.decl().eq(th.upd):
            return self.seqlen(b.arg(0))
        return th.len(b)

    def content(self, st, sl):
        """logical content of a slice: Seq term, or Str for byte slices"""
        if is_bytes_elem(sl.et) and (num(sl.ref) == 0 or num(sl.len) == 0):
            return T.EMPTY
        b = self.backing(st, sl.ref, sl.et)
        if b.sort() == Str:
            return T.ssub(b, sl.off, simplify(sl.off + sl.len))
        th = seqth_of_sort(b.sort())
        o, l = num(sl.off), num(sl.len)
        if o == 0 and l == 0:
            return th.nil
        if o == 0 and simplify(sl.len).eq(simplify(self.seqlen(b))):
            return b
        es = th.elems(b)
        if es is not None and o is not None and l is not None:
            return th.lit(es[o:o + l])
        return th.sub(b, sl.off, simplify(sl.off + sl.len))

    def elem(self, st, sl, i):
        b = self.backing(st, sl.ref, sl.et)
        idx = simplify(sl.off + i)
        if b.sort() == Str:
            return T.sbyte(b, idx)
        th = seqth_of_sort(b.sort())
        es = th.elems(b)
        n = num(idx)
        if es is not None and n is not None and 0 <= n < len(es):
            return es[n]
        if z3.is_app(b) and b.decl().eq(th.snoc) and idx.eq(simplify(self.seqlen(b.arg(0)))):
            return b.arg(1)
        return th.at(b, idx)

    def new_seq(self, st, et, content):
        r = self.alloc(st)
        self.upd(st, self.skey(et), r, content)
        ln = T.slenof(content) if content.sort() == Str else self.seqlen(content)
        return SliceV(r, IntVal(0), simplify(ln), et)

    def load(self, st, loc):
        if isinstance(loc, CellLoc):
            return st.cells[loc.id][0]
        if isinstance(loc, FieldLoc):
            stt, fname = loc.key
            return self.read_field(st, loc.ref, stt, fname, loc.type)
        if isinstance(loc, ElemLoc):
            return unpack(self.elem(st, loc.sl, loc.idx), loc.type)
        if isinstance(loc, PartLoc):
            return self.load(st, loc.base).vals[loc.idx]
        if isinstance(loc, GlobalLoc):
            return self.load_global(st, loc)
        raise Unsupported("load from " + str(type(loc)))

    def load_global(self, st, loc):
        n = loc.name
        if n in st.cells:
            return st.cells[n][0]
        if self.graph is not None and n in self.graph.globals:
            return self.graph.globals[n]
        v = self.models.ext_global(self, n, loc.type) if not is_repo(n) else None
        if v is not None:
            return v
        v = zero(loc.type) if self.graph is None or self.graph.building else self.fresh_val(st, loc.type, "glob." + short(n))
        st.cells[n] = (v, loc.type)
        return v

    def store(self, st, loc, v):
        if isinstance(loc, CellLoc):
            st.cells[loc.id] = (v, st.cells[loc.id][1])
        elif isinstance(loc, FieldLoc):
            stt, fname = loc.key
            self.write_field(st, loc.ref, stt, fname, loc.type, v)
        elif isinstance(loc, ElemLoc):
            self.set_elem(st, loc.sl, loc.idx, v)
        elif isinstance(loc, PartLoc):
            b = self.load(st, loc.base)
            self.store(st, loc.base, StructV(b.type, [v if i == loc.idx else x for i, x in enumerate(b.vals)]))
        elif isinstance(loc, GlobalLoc):
            st.cells[loc.name] = (v, loc.type)
        else:
            raise Unsupported("store")

    def set_elem(self, st, sl, i, v):
        k = self.skey(sl.et)
        b = self.backing(st, sl.ref, sl.et)
        idx = simplify(sl.off + i)
        if b.sort() == Str:
            self.upd(st, k, sl.ref, T.fn("setbyte", Str, I, I, Str)(b, idx, v))
            return
        th = seqth_of_sort(b.sort())
        v = pack(v, sl.et)
        es = th.elems(b)
        n = num(idx)
        if es is not None and n is not None and 0 <= n < len(es):
            es = list(es)
            es[n] = v
            nb = th.lit(es)
        else:
            nb = th.upd(b, idx, v)
        self.upd(st, k, sl.ref, nb)

    # ------------------------------------------------------------------ maps
    def map_dom(self, st, ref, mt):
        n = num(ref)
        if n == 0:
            return z3.K(psort(mt.key), BoolVal(False))
        kd, _ = self.mkeys(mt)
        h = self.sel(self.get(st, kd), ref)
        if mt.elem.under().kind != "interface":
            return h
        if n is not None and n > 0:
            return h
        j = T.fn("jdom", I, z3.ArraySort(Str, B))(ref)
        emp = z3.K(Str, BoolVal(False))
        if n is not None:
            return j
        if self.known_pos(st, ref):
            return h
        if z3.is_app_of(h, z3.Z3_OP_SELECT) and h.arg(1).eq(ref):
            return mapdom(h.arg(0), ref)
        return If(ref < 0, j, If(ref == 0, emp, h))

    def map_val(self, st, ref, mt):
        n = num(ref)
        _, kv = self.mkeys(mt)
        if n == 0:
            return z3.K(psort(mt.key), pzero(mt.elem))
        h = self.sel(self.get(st, kv), ref)
        if mt.elem.under().kind != "interface":
            return h
        if n is not None and n > 0:
            return h
        j = T.fn("jval", I, z3.ArraySort(Str, AnyS))(ref)
        emp = z3.K(Str, ANil)
        if n is not None:
            return j
        if self.known_pos(st, ref):
            return h
        if z3.is_app_of(h, z3.Z3_OP_SELECT) and h.arg(1).eq(ref):
            return mapval(h.arg(0), ref)
        return If(ref < 0, j, If(ref == 0, emp, h))

    def known_pos(self, st, ref):
        """syntactically an address allocated since entry"""
        d = simplify(ref - self.top0)
        if is_int_value(d):
            return d.as_long() > 0
        for t, lo in st.marks.get("pos", ()):
            if t.eq(ref):
                return True
        d = simplify(ref - st.top)
        return is_int_value(d) and d.as_long() == 0

    def map_get(self, st, ref, mt, key):
        """(value, present)"""
        def look(r):
            d, v = self.map_dom(st, r, mt), self.map_val(st, r, mt)
            return d, v
        d, v = look(ref)
        z = pzero(mt.elem)
        # push the selection into the case distinction
        if z3.is_app(d) and d.decl().kind() == z3.Z3_OP_ITE:
            def go(dd, vv):
                if z3.is_app(dd) and dd.decl().kind() == z3.Z3_OP_ITE:
                    a1, b1 = go(dd.arg(1), vv.arg(1))
                    a2, b2 = go(dd.arg(2), vv.arg(2))
                    return If(dd.arg(0), a1, a2), If(dd.arg(0), b1, b2)
                p = self.sel(dd, key)
                return If(p, self.sel(vv, key), z), p
            return go(d, v)
        p = simplify(self.sel(d, key))
        if z3.is_true(p):
            return self.sel(v, key), p
        if z3.is_false(p):
            return z, p
        return If(p, self.sel(v, key), z), p

    # ------------------------------------------------------------------ fresh values
    def fresh_val(self, st, t, name):
        ts = []
        for suf, so in comps(t):
            ts.append(T.fresh(name + suf, so))
        v = from_comps(t, list(ts))
        self.assume_type(st, v, t)
        return v

    def assume_type(self, st, v, t):
        u = t.under()
        q = v.ref if isinstance(v, SliceV) else v if u.kind in ("pointer", "map") else None
        if q is not None and z3.is_const(q) and not is_int_value(q):
            BELOW[q.decl().name()] = simplify(st.top)
        if isinstance(v, SliceV):
            if is_bytes(t):
                st.assume(And(v.ref >= 0, v.ref <= st.top, v.off >= 0, v.len >= 0,
                              v.off + v.len <= self.backlen(st, v), Implies(v.ref == 0, v.len == 0)))
            else:
                bl = self.backlen(st, v)
                st.assume(And(v.ref <= st.top, v.off == 0, v.len >= 0, v.len == bl, Implies(v.ref == 0, v.len == 0)))
                if v.et.under().kind != "interface":
                    st.assume(v.ref >= 0)
                v.off = IntVal(0)
        elif isinstance(v, StructV):
            for x, (_, ft) in zip(v.vals, v.type.fields):
                self.assume_type(st, x, ft)
        elif u.kind == "pointer":
            st.assume(And(v >= 0, v <= st.top))
        elif u.kind == "map":
            st.assume(v <= st.top)
        elif u.kind == "basic" and u.d["class"] == "int" and u.d.get("unsigned"):
            st.assume(And(v >= 0, v < IntVal(2 ** (8 * u.d["size"]))))
        elif u.kind == "basic" and u.d["class"] == "int":
            h = 2 ** (8 * u.d["size"] - 1)
            st.assume(And(v >= IntVal(-h), v < IntVal(h)))

    # ------------------------------------------------------------------ obligations
    def where(self):
        return self.pos or ""

    pos = ""

    def obligation(self, st, f, kind, what):
        """prove f under the path condition, then assume it"""
        g = simplify(f)
        if z3.is_true(g):
            if not self.quiet:
                self.record(st, kind, what, "proved", 0.0)
            return
        if not self.quiet:
            self.prove(st, g, kind, what)
        st.assume(g)

    def prove(self, st, g, kind, what, extra=()):
        import time
        t0 = time.time()
        sg = simplify(g)
        for h in st.pc:
            if h.eq(g) or h.eq(sg):
                self.record(st, kind, what, "proved", 0.0)
                return True
        hy = list(st.pc) + list(extra)
        r = "proved"
        for ex_, q in T.sequents(g):
            hq = hy + ex_
            rq = "unknown"
            for to, fuel in self.LIMITS:
                rq, m = T.check(hq, q, timeout=to, fuel=fuel)
                if rq == "proved":
                    break
                if to <= 1500 and self.failed < 3 and T.external(hq, q, 3):
                    rq = "proved"
                    break
            if rq != "proved" and self.failed < 3 and T.external(hq, q):
                rq = "proved"
            if rq != "proved":
                r, hy, g = rq, hq, q
                break
        if r != "proved":
            self.failed += 1
        self.record(st, kind, what, r, time.time() - t0, hy, g)
        if self.failed >= self.maxfail:
            raise Stop("%d obligations of this function failed; the rest is not attempted" % self.failed)
        return r == "proved"

    LIMITS = ((1500, 2), (6000, 3))

    def record(self, st, kind, what, res, tm, hyps=None, goal=None):
        o = {"kind": kind, "what": what, "pos": self.pos, "res": res, "time": round(tm, 3)}
        if res != "proved" and goal is not None:
            sh = lambda x: re.sub(r"\s+", " ", re.sub(r"github.com/mashmb/1pass/[\w/-]*/", "", str(x)))
            hy = T.relevant(list(hyps or []), goal)
            o["goal"] = sh(goal)[:3000]
            o["path"] = [sh(h)[:400] for h in hy][-40:]
            if os.environ.get("DUMP"):
                s = z3.Solver()
                s.add(T.build(list(hyps or []), T.skolem(goal), 3))
                open(os.path.join(os.environ["DUMP"], "q%d.smt2" % len(self.obls)), "w").write(s.sexpr())
        self.obls.append(o)

    def feasible(self, st):
        if any(z3.is_false(h) for h in st.pc):
            return False
        return T.feasible(st.pc, quick=bool(self.quiet))

    # ------------------------------------------------------------------ operands
    def val(self, fr, st, v):
        k = v["k"]
        if k == "reg":
            return fr.regs[v["n"]]
        if k == "const":
            t = self.p.types[v["type"]]
            if v.get("zero"):
                if t.kind == "tuple" or t.str == "untyped nil":
                    return ANil
                return zero(t)
            u = t.under()
            if "bool" in v:
                return BoolVal(v["bool"])
            if "str" in v:
                return T.lit(v["str"])
            if u.kind == "basic" and u.d["class"] == "float":
                return z3.RealVal(v.get("rat", v.get("int")))
            if "int" in v:
                return IntVal(int(v["int"]))
            raise Unsupported("constant " + str(v))
        if k == "global":
            return GlobalLoc(v["n"], self.p.types[v["type"]].elem)
        if k == "func":
            return FnV(v["n"])
        raise Unsupported("operand " + k)

    # ------------------------------------------------------------------ running
    def run_fn(self, fn, args, st, bindings=(), depth=0):
        fr = Frame(fn, depth)
        for (n, t), a in zip(fn.params, args):
            fr.regs[n] = a
        for (n, t), a in zip(fn.freevars, bindings):
            fr.regs[n] = a
        if not fn.blocks:
            raise Unsupported("no body: " + fn.name)
        return self.goto(fr, 0, None, st, None)

    def goto(self, fr, target, frm, st, ctx):
        if ctx is not None:
            if target == ctx.header:
                return [Out("back", st, fr, frm)]
            if ctx.blocks is not None and target not in ctx.blocks:
                return [Out("leave", st, fr, (target, frm))]
            if target == ctx.join:
                return [Out("join", st, fr, frm)]
        if target in fr.fn.loops() and not self.decided(fr, target, frm, st):
            return self.loop(fr, target, frm, st, ctx)
        vals = self.phis(fr, st, target, frm)
        fr.regs.update(vals)
        return self.block(fr, target, st, ctx)

    def decided(self, fr, b, frm, st):
        """the test at a loop head has a constant value: the iteration is executed as straight-line code"""
        if fr.unroll.get(b, 0) > 64:
            return False
        ins = fr.fn.blocks[b]["instrs"]
        if ins[-1]["op"] != "If":
            ok = self.graph is not None and self.graph.building
        else:
            f, s = fr.fork(), st.fork()
            f.regs.update(self.phis(fr, st, b, frm))
            self.quiet += 1
            try:
                for i in ins[:-1]:
                    if i["op"] == "Phi":
                        continue
                    if i["op"] == "Call" and i["call"].get("fn", {}).get("k") == "builtin" and i["call"]["fn"]["n"] == "len":
                        f.regs[i["n"]] = self.builtin(f, s, self.prepare(f, s, i["call"]))
                        continue
                    if i["op"] not in ("BinOp", "UnOp", "Next", "Extract", "FieldAddr", "IndexAddr", "Convert", "ChangeType"):
                        return False
                    self.step(f, s, i)
                c = simplify(self.val(f, s, ins[-1]["x"]))
                ok = z3.is_true(c) or z3.is_false(c)
            except (Unsupported, KeyError, z3.Z3Exception):
                return False
            finally:
                self.quiet -= 1
        if ok:
            fr.unroll = dict(fr.unroll)
            fr.unroll[b] = fr.unroll.get(b, 0) + 1
        return ok

    def phis(self, fr, st, b, frm):
        out = {}
        blk = fr.fn.blocks[b]
        for i in blk["instrs"]:
            if i["op"] != "Phi":
                break
            out[i["n"]] = self.val(fr, st, i["edges"][blk["preds"].index(frm)])
        return out

    def block(self, fr, b, st, ctx, start=0):
        blk = fr.fn.blocks[b]
        ins = blk["instrs"]
        n = start
        while n < len(ins):
            i = ins[n]
            n += 1
            op = i["op"]
            if op == "Phi":
                continue
            if "pos" in i:
                self.pos = i["pos"]
            if op == "Jump":
                return self.goto(fr, blk["succs"][0], b, st, ctx)
            if op == "If":
                return self.branch(fr, b, st, ctx, self.val(fr, st, i["x"]), blk["succs"])
            if op == "Return":
                self.paths += 1
                if self.paths > self.MAXPATHS:
                    raise Unsupported("too many paths")
                return [Out("return", st, fr, [self.val(fr, st, r) for r in i["results"]])]
            if op == "Panic":
                self.obligation(st, BoolVal(False), "nopanic", "panic is not reached")
                return []
            if op in ("Call", "Defer", "Go", "RunDefers"):
                if op == "Defer":
                    fr.defers.append(self.prepare(fr, st, i["call"]))
                    continue
                if op == "RunDefers":
                    calls = fr.defers[::-1]
                    fr.defers = []
                else:
                    calls = [self.prepare(fr, st, i["call"])]
                pend = [(fr, st, None)]
                final = []
                for c in calls:
                    nxt = []
                    for f, s, _ in pend:
                        for o in self.call(f, s, c, go=(op == "Go")):
                            if o.kind == "return":
                                nxt.append((f, o.st, o.data))
                            else:
                                final.append(o)
                    pend = nxt
                res = list(final)
                if len(pend) > 1 and op == "Call":
                    pend = self.meet(pend)
                multi = len(pend) > 1
                for f, s, v in pend:
                    f2 = f.fork() if multi else f
                    if op == "Call":
                        f2.regs[i["n"]] = v
                    if multi:
                        res += self.block(f2, b, s, ctx, n)
                    elif not final:
                        # stay in this loop
                        fr, st = f2, s
                        break
                    else:
                        res += self.block(f2, b, s, ctx, n)
                else:
                    return res
                continue
            self.step(fr, st, i)
        raise Unsupported("block without terminator")

    def meet(self, pend):
        """outcomes of one call that differ only in the result are taken together"""
        if self.graph is not None and self.graph.building:
            return pend
        res = []
        for f, s, v in pend:
            for m in res:
                r = merge_states(m[1], s, [(m[2], v)])
                if r is not None:
                    m[1], m[2] = r[0], r[1][0]
                    break
            else:
                res.append([f, s, v])
        return [tuple(m) for m in res]

    def branch(self, fr, b, st, ctx, c, succs):
        c = simplify(c)
        if z3.is_true(c):
            return self.goto(fr, succs[0], b, st, ctx)
        if z3.is_false(c):
            return self.goto(fr, succs[1], b, st, ctx)
        nc = simplify(Not(c))
        for h in st.pc:
            if h.eq(c):
                return self.goto(fr, succs[0], b, st, ctx)
            if h.eq(nc):
                return self.goto(fr, succs[1], b, st, ctx)
        res = []
        s1 = st.fork()
        s1.assume(c)
        f1 = self.feasible(s1)
        s2 = st.fork()
        s2.assume(nc)
        f2 = True if not f1 else self.feasible(s2)
        p = self.pos
        if not (f1 and f2):
            return self.goto(learn(fr, c if f1 else nc), succs[0 if f1 else 1], b, s1 if f1 else s2, ctx)
        join = fr.fn.joins().get(b) if not (self.graph is not None and self.graph.building) else None
        if join is None or join in fr.fn.loops() or ctx is not None and (join == ctx.join or ctx.blocks is not None and join not in ctx.blocks):
            f0 = fr.fork()
            res += self.goto(learn(f0, c), succs[0], b, s1, ctx)
            self.pos = p
            res += self.goto(learn(fr, nc), succs[1], b, s2, ctx)
            return res
        sub = Loop(ctx.blocks if ctx else None, ctx.header if ctx else None, join)
        outs = self.goto(learn(fr.fork(), c), succs[0], b, s1, sub)
        self.pos = p
        outs += self.goto(learn(fr.fork(), nc), succs[1], b, s2, sub)
        meet = []
        for o in outs:
            if o.kind != "join":
                res.append(o)
                continue
            vals = self.phis(o.fr, o.st, join, o.data)
            for m in meet:
                names = list(vals)
                r = merge_states(m[1], o.st, [(m[2][k], vals[k]) for k in names], self if loop_ahead(o.fr.fn, join) else None) if not o.fr.defers and not m[0].defers else None
                if r is not None:
                    f = fr.fork()
                    m[0], m[1], m[2] = f, r[0], dict(zip(names, r[1]))
                    break
            else:
                meet.append([o.fr, o.st, vals])
        for f, s, vals in meet:
            f.regs.update(vals)
            res += self.block(f, join, s, ctx)
        return res

    # ------------------------------------------------------------------ loops
    def loop(self, fr, h, frm, st, ctx):
        import loops
        return loops.run_loop(self, fr, h, frm, st, ctx)

    # ------------------------------------------------------------------ simple instructions
    def step(self, fr, st, i):
        op = i["op"]
        v = getattr(self, "op_" + op, None)
        if v is None:
            raise Unsupported("instruction " + op)
        r = v(fr, st, i)
        if "n" in i:
            fr.regs[i["n"]] = r

    def op_Alloc(self, fr, st, i):
        t = self.p.types[i["elem"]]
        if self.graph is None or self.graph.building:
            self.sites.setdefault((fr.fn.name, i["n"]), []).append((t, None))
        if t.under().kind == "struct" and not is_time(t):
            if self.graph is not None and self.graph.building:
                site = (fr.fn.name, i["n"])
                r = self.new_object(st, t, self.graph.ref_for(st, site))
                self.graph.objects.append((r, t, site))
            else:
                r = self.new_object(st, t)
            return r
        if t.under().kind == "array":
            n = t.under().d["len"]
            et = t.elem
            if is_bytes_elem(et):
                r = self.alloc(st)
                self.upd(st, self.skey(et), r, T.fn("zeros", I, Str)(IntVal(n)))
                st.assume(T.slen(T.fn("zeros", I, Str)(IntVal(n))) == n)
                return r
            th = seqth(psort(et))
            r = self.alloc(st)
            self.upd(st, self.skey(et), r, th.lit([pzero(et)] * n))
            return r
        return self.new_cell(st, t, zero(t))

    def op_FieldAddr(self, fr, st, i):
        x = self.val(fr, st, i["x"])
        pt = self.p.types[i["x"]["type"]].elem
        fname, ft = pt.fields[i["field"]]
        if isinstance(x, LOCS):
            if isinstance(x, (ElemLoc, PartLoc)) and pt.under().kind == "struct":
                return PartLoc(x, i["field"], ft)
            raise Unsupported("field of " + str(type(x)))
        self.obligation(st, x != 0, "nopanic", "no nil dereference (.%s)" % fname)
        return FieldLoc(x, (pt, fname), ft)

    def op_Field(self, fr, st, i):
        x = self.val(fr, st, i["x"])
        if isinstance(x, StructV):
            return x.vals[i["field"]]
        t = self.p.types[i["x"]["type"]]
        fname, ft = t.fields[i["field"]]
        return self.fresh_val(st, ft, "extfield")

    def op_IndexAddr(self, fr, st, i):
        x, idx = self.val(fr, st, i["x"]), self.val(fr, st, i["index"])
        xt = self.p.types[i["x"]["type"]]
        if xt.under().kind == "pointer":
            at = xt.elem
            n = at.under().d["len"]
            self.obligation(st, And(0 <= idx, idx < n), "nopanic", "index in range")
            return ElemLoc(SliceV(x, IntVal(0), IntVal(n), at.elem), idx, at.elem)
        self.obligation(st, And(0 <= idx, idx < x.len), "nopanic", "index in range")
        return ElemLoc(x, idx, xt.elem)

    def op_Index(self, fr, st, i):
        x, idx = self.val(fr, st, i["x"]), self.val(fr, st, i["index"])
        t = self.p.types[i["x"]["type"]]
        if t.under().kind == "basic":
            self.obligation(st, And(0 <= idx, idx < T.slenof(x)), "nopanic", "index in range")
            return T.sbyte(x, idx)
        raise Unsupported("Index of " + t.str)

    def op_Lookup(self, fr, st, i):
        x, k = self.val(fr, st, i["x"]), self.val(fr, st, i["index"])
        t = self.p.types[i["x"]["type"]]
        if t.under().kind == "basic":
            self.obligation(st, And(0 <= k, k < T.slenof(x)), "nopanic", "index in range")
            return T.sbyte(x, k)
        v, p = self.map_get(st, x, t, pack(k, t.key))
        v = unpack(v, t.elem)
        return TupleV([v, p]) if i["commaok"] else v

    def op_MapUpdate(self, fr, st, i):
        m, k, v = (self.val(fr, st, i[q]) for q in ("map", "key", "val"))
        mt = self.p.types[i["map"]["type"]]
        self.obligation(st, m > 0, "nopanic", "no write to a nil map")
        kd, kv = self.mkeys(mt)
        k, v = pack(k, mt.key), pack(v, mt.elem)
        self.upd(st, kd, m, Store(self.sel(self.get(st, kd), m), k, BoolVal(True)))
        self.upd(st, kv, m, Store(self.sel(self.get(st, kv), m), k, v))

    def op_MakeMap(self, fr, st, i):
        mt = self.p.types[i["type"]]
        r = self.alloc(st)
        kd, kv = self.mkeys(mt)
        self.upd(st, kd, r, z3.K(psort(mt.key), BoolVal(False)))
        self.upd(st, kv, r, z3.K(psort(mt.key), pzero(mt.elem)))
        return r

    def op_MakeSlice(self, fr, st, i):
        t = self.p.types[i["type"]]
        n = self.val(fr, st, i["len"])
        cap = self.val(fr, st, i["cap"])
        self.obligation(st, And(n >= 0, cap >= n), "nopanic", "slice length is not negative")
        et = t.elem
        if is_bytes(t):
            z = T.fn("zeros", I, Str)(n)
            st.assume(T.slen(z) == n)
            return self.new_seq(st, et, z)
        th = seqth(psort(et))
        c = num(n)
        if c is not None and c <= 64:
            return self.new_seq(st, et, th.lit([pzero(et)] * c))
        s = T.fresh("zeroseq", th.sort)
        k = Int("k")
        st.assume(th.len(s) == n)
        st.assume(ForAll([k], Implies(And(0 <= k, k < n), th.at(s, k) == pzero(et)), patterns=[th.at(s, k)]))
        sl = self.new_seq(st, et, s)
        sl.len = simplify(n)
        return sl

    def op_Slice(self, fr, st, i):
        x = self.val(fr, st, i["x"])
        t = self.p.types[i["x"]["type"]]
        lo = self.val(fr, st, i["low"]) if i.get("low") else IntVal(0)
        if t.under().kind == "basic":
            hi = self.val(fr, st, i["high"]) if i.get("high") else T.slenof(x)
            self.obligation(st, And(0 <= lo, lo <= hi, hi <= T.slenof(x)), "nopanic", "slice bounds")
            return T.ssub(x, lo, hi)
        if t.under().kind == "pointer":
            at = t.elem
            x = SliceV(x, IntVal(0), IntVal(at.under().d["len"]), at.elem)
        hi = self.val(fr, st, i["high"]) if i.get("high") else x.len
        # capacity is not modelled: re-slicing beyond the length counts as an error
        self.obligation(st, And(0 <= lo, lo <= hi, hi <= x.len), "nopanic", "slice bounds")
        return SliceV(x.ref, simplify(x.off + lo), simplify(hi - lo), x.et)

    def op_Store(self, fr, st, i):
        a, v = self.val(fr, st, i["addr"]), self.val(fr, st, i["val"])
        if isinstance(a, LOCS):
            self.store(st, a, v)
            return
        # pointer to a struct: whole-struct assignment
        t = self.p.types[i["addr"]["type"]].elem
        if is_ext_struct(t):
            return
        if isinstance(v, StructV):
            for (n, ft), x in zip(t.fields, v.vals):
                self.write_field(st, a, t, n, ft, x)
            return
        raise Unsupported("store through pointer to " + t.str)

    def op_UnOp(self, fr, st, i):
        x = self.val(fr, st, i["x"])
        tok = i["tok"]
        if tok == "*":
            if isinstance(x, LOCS):
                return self.load(st, x)
            t = self.p.types[i["type"]]
            if is_ext_struct(t):
                return OpaqueV(t, T.fresh("ext", I))
            if t.under().kind == "struct":
                self.obligation(st, x != 0, "nopanic", "no nil dereference")
                return StructV(t, [self.read_field(st, x, t, n, ft) for n, ft in t.fields])
            raise Unsupported("load of " + t.str)
        if tok == "!":
            return simplify(Not(x))
        if tok == "-":
            return simplify(-x)
        raise Unsupported("unary " + tok)

    def op_ChangeType(self, fr, st, i):
        return self.val(fr, st, i["x"])

    def op_ChangeInterface(self, fr, st, i):
        return self.val(fr, st, i["x"])

    def op_Convert(self, fr, st, i):
        x = self.val(fr, st, i["x"])
        ft, tt = self.p.types[i["x"]["type"]], self.p.types[i["type"]]
        fu, tu = ft.under(), tt.under()
        if is_bytes(ft) and tu.kind == "basic" and tu.d["class"] == "string":
            return self.content(st, x)
        if fu.kind == "basic" and fu.d["class"] == "string" and is_bytes(tt):
            return self.new_seq(st, tt.elem, x)
        if fu.kind == "basic" and tu.kind == "basic":
            a, b = fu.d["class"], tu.d["class"]
            if a == "int" and b == "int":
                return self.wrap(x, fu, tu)
            if a == "int" and b == "float":
                return z3.ToReal(x)
            if a == "float" and b == "int":
                return trunc(x)
            if a == "float" and b == "float":
                return x
            if a == "string" and b == "string":
                return x
            if a == "int" and b == "string":
                n = num(x)
                if n is not None:
                    return T.lit(chr(n).encode("utf-8").decode("latin-1"))
                return T.fn("runestr", I, Str)(x)
        if tu.kind == "basic" and fu.kind == "slice":
            return T.fresh("conv", Str)
        raise Unsupported("conversion %s -> %s" % (ft.str, tt.str))

    def wrap(self, x, fu, tu):
        def rng(u):
            n = 8 * u.d["size"]
            return (0, 2 ** n - 1) if u.d.get("unsigned") else (-2 ** (n - 1), 2 ** (n - 1) - 1)
        (fl, fh), (tl, th) = rng(fu), rng(tu)
        if tl <= fl and fh <= th:
            return x
        n = num(x)
        m = th - tl + 1
        if n is not None:
            return IntVal((n - tl) % m + tl)
        return If(And(x >= tl, x <= th), x, (x - tl) % m + tl)

    def op_MakeInterface(self, fr, st, i):
        return self.to_any(st, self.val(fr, st, i["x"]), self.p.types[i["x"]["type"]])

    def to_any(self, st, x, t):
        if isinstance(x, LOCS) or isinstance(x, (StructV, OpaqueV, FnV)):
            return box((x, t))
        u = t.under()
        if u.kind == "basic":
            c = u.d["class"]
            if t.str == "string":
                return AnyS.AStr(x)
            if t.str == "bool":
                return AnyS.ABool(x)
            if c == "int":
                return AnyS.AInt(IntVal(t.id), x)
            if t.str == "float64":
                return AnyS.AFlt(x)
            return box((x, t))
        if t.str == "map[string]interface{}":
            return AnyS.AMap(x)
        if t.str == "[]interface{}" and num(x.off) == 0:
            return AnyS.AArr(x.ref, x.len)
        if u.kind == "pointer":
            return AnyS.APtr(IntVal(t.id), x)
        if u.kind == "interface":
            return x
        return box((x, t))

    def any_test(self, x, t):
        """formula: dynamic type of x is t; and the projected value"""
        b = unbox(simplify(x))
        if b is not None:
            return BoolVal(b[1].str == t.str), b[0]
        u = t.under()
        if t.str == "string":
            return AnyS.is_AStr(x), simplify(AnyS.astr(x))
        if t.str == "bool":
            return AnyS.is_ABool(x), simplify(AnyS.abool(x))
        if t.str == "float64":
            return AnyS.is_AFlt(x), simplify(AnyS.aflt(x))
        if u.kind == "basic" and u.d["class"] == "int":
            return And(AnyS.is_AInt(x), AnyS.aitag(x) == t.id), simplify(AnyS.aint(x))
        if t.str == "map[string]interface{}":
            return AnyS.is_AMap(x), simplify(AnyS.amap(x))
        if t.str == "[]interface{}":
            return AnyS.is_AArr(x), SliceV(simplify(AnyS.aarr(x)), IntVal(0), simplify(AnyS.aarrlen(x)), t.elem)
        if u.kind == "pointer":
            return And(AnyS.is_APtr(x), AnyS.aptag(x) == t.id), simplify(AnyS.aptr(x))
        if u.kind == "interface":
            return x != ANil, x
        raise Unsupported("type assertion to " + t.str)

    def op_TypeAssert(self, fr, st, i):
        x = self.val(fr, st, i["x"])
        t = self.p.types[i["assert"]]
        ok, v = self.any_test(x, t)
        ok = simplify(ok)
        if not i["commaok"]:
            self.obligation(st, ok, "nopanic", "type assertion to %s holds" % short(t.str))
            self.json_facts(st, v, t)
            return v
        z = zero(t)
        if z3.is_true(ok):
            return TupleV([v, ok])
        if z3.is_false(ok):
            return TupleV([z, ok])
        if isinstance(v, SliceV):
            st.assume(Implies(ok, self.json_slice(v)))
            return TupleV([SliceV(If(ok, v.ref, 0), IntVal(0), If(ok, v.len, 0), v.et), ok])
        return TupleV([If(ok, v, z), ok])

    def json_slice(self, v):
        th = seqth(AnyS)
        return Implies(v.ref < 0, v.len == th.len(T.fn("jelems", I, th.sort)(v.ref)))

    def json_facts(self, st, v, t):
        if isinstance(v, SliceV) and t.str == "[]interface{}":
            st.assume(self.json_slice(v))

    def op_Extract(self, fr, st, i):
        return self.val(fr, st, i["x"]).vals[i["index"]]

    def op_MakeClosure(self, fr, st, i):
        return FnV(i["fn"], [self.val(fr, st, b) for b in i["bindings"]])

    def op_Range(self, fr, st, i):
        m = self.val(fr, st, i["x"])
        mt = self.p.types[i["x"]["type"]]
        if mt.under().kind != "map":
            raise Unsupported("range over " + mt.str)
        keys = self.map_keys(st, self.map_dom(st, m, mt), mt)
        c = self.new_cell(st, self.p.bystr["int"], IntVal(0))
        return IterV(keys, c.id, m, mt)

    def map_keys(self, st, dom, mt):
        th = seqth(psort(mt.key))
        K = T.fresh("keys", th.sort)
        if z3.is_app_of(dom, z3.Z3_OP_ITE):
            d = T.fresh("mdom", dom.sort())
            st.assume(d == dom)
            dom = d
        pos = z3.Function("keypos!%d" % next(self.cellid), th.es, I)
        n = T.fn("card", dom.sort(), I)(dom)
        i, k = Int("i"), Const("k", th.es)
        st.assume(th.len(K) == n)
        st.assume(ForAll([i], Implies(And(0 <= i, i < n), And(Select(dom, th.at(K, i)), pos(th.at(K, i)) == i)), patterns=[th.at(K, i)]))
        st.assume(ForAll([k], Implies(Select(dom, k), And(0 <= pos(k), pos(k) < n, th.at(K, pos(k)) == k)),
                         patterns=[pos(k)] if not z3.is_app_of(dom, z3.Z3_OP_SELECT) and not dom.decl().kind() == z3.Z3_OP_UNINTERPRETED else [pos(k), Select(dom, k)]))
        self.card_facts(st, dom)
        st.marks = dict(st.marks)
        st.marks["keypos"] = dict(st.marks.get("keypos", {}))
        st.marks["keypos"][K.decl().name()] = pos
        return K

    def card_facts(self, st, dom):
        n = T.fn("card", dom.sort(), I)(dom)
        k = Const("k", dom.sort().domain())
        w = T.fn("cardwit", dom.sort(), dom.sort().domain())(dom)
        st.assume(n >= 0)
        st.assume(Implies(n > 0, Select(dom, w)))
        st.assume(ForAll([k], Implies(Select(dom, k), n > 0), patterns=[Select(dom, k)]) if not z3.is_app_of(dom, z3.Z3_OP_CONST_ARRAY)
                  else n == (0 if z3.is_false(dom.arg(0)) else 1))

    def op_Next(self, fr, st, i):
        it = self.val(fr, st, i["x"])
        if not isinstance(it, IterV):
            raise Unsupported("iteration over a string")
        p, t = st.cells[it.cell]
        th = seqth(psort(it.mt.key))
        key = th.at(it.keys, p)
        ok = p < th.len(it.keys)
        v, _ = self.map_get(st, it.mref, it.mt, key)
        st.cells[it.cell] = (simplify(p + 1), t)
        return TupleV([ok, unpack(key, it.mt.key), unpack(v, it.mt.elem)])

    def op_BinOp(self, fr, st, i):
        x, y = self.val(fr, st, i["x"]), self.val(fr, st, i["y"])
        t = self.p.types[i["x"]["type"]]
        return self.binop(st, i["tok"], x, y, t, self.p.types[i["y"]["type"]])

    def binop(self, st, tok, x, y, t, yt):
        if tok in ("==", "!="):
            r = self.equal(st, x, y, t, yt)
            return simplify(r if tok == "==" else Not(r))
        if isinstance(x, FnV) or isinstance(y, FnV):
            raise Unsupported("operator on functions")
        u = t.under()
        cl = u.d.get("class") if u.kind == "basic" else None
        if cl == "string":
            if tok == "+":
                return T.scat(x, y)
            if tok == "<":
                return slt(x, y)
            if tok == ">":
                return slt(y, x)
            if tok == "<=":
                return Not(slt(y, x))
            if tok == ">=":
                return Not(slt(x, y))
        if cl in ("int", "float"):
            if tok in ("<", "<=", ">", ">="):
                return simplify({"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[tok])
            if tok == "+":
                r = x + y
            elif tok == "-":
                r = x - y
                if u.d.get("unsigned"):
                    r = If(x >= y, x - y, x - y + IntVal(2 ** (8 * u.d["size"])))
            elif tok == "*":
                r = x * y
            elif tok in ("/", "%") and cl == "int":
                self.obligation(st, y != 0, "nopanic", "no division by zero")
                q = If(x >= 0, If(y > 0, x / y, -(x / (-y))), If(y > 0, -((-x) / y), (-x) / (-y)))
                r = q if tok == "/" else x - y * q
                nx, ny = num(x), num(y)
                if ny is not None and ny > 0:
                    r = If(x >= 0, x / y, -((-x) / y)) if tok == "/" else If(x >= 0, x % y, -((-x) % y))
            elif tok == "/":
                r = x / y
            else:
                a, b = num(x), num(y)
                if a is not None and b is not None:
                    return IntVal({"&": a & b, "|": a | b, "^": a ^ b, "<<": a << min(b, 64), ">>": a >> min(b, 64), "&^": a & ~b}[tok])
                if tok == ">>" and b is not None:
                    return x / IntVal(2 ** b)
                if tok == "<<" and b is not None:
                    return x * IntVal(2 ** b)
                return T.fn("bit" + tok, I, I, I)(x, y)
            return simplify(r)
        if cl == "bool":
            return simplify({"&": And(x, y), "|": Or(x, y)}[tok])
        raise Unsupported("operator %s on %s" % (tok, t.str))

    def equal(self, st, x, y, t, yt):
        if isinstance(x, SliceV) or isinstance(y, SliceV):
            if isinstance(x, SliceV) and isinstance(y, SliceV):
                # only comparison with nil is legal Go
                return x.ref == 0 if num(y.ref) == 0 else y.ref == 0
        if isinstance(x, FnV) or isinstance(y, FnV):
            f, o = (x, y) if isinstance(x, FnV) else (y, x)
            if isinstance(o, FnV):
                raise Unsupported("function comparison")
            return fn_id(f) == o
        if isinstance(x, StructV):
            return And(*[self.equal(st, a, b, ft, ft) for a, b, (_, ft) in zip(x.vals, y.vals, x.type.fields)])
        if isinstance(x, LOCS) or isinstance(y, LOCS):
            l, o = (x, y) if isinstance(x, LOCS) else (y, x)
            if not isinstance(o, LOCS) and num(o) == 0:
                return BoolVal(False)
            raise Unsupported("comparison of addresses")
        if x.sort() != y.sort():
            if x.sort() == AnyS:
                y = self.to_any(st, y, yt)
            elif y.sort() == AnyS:
                x = self.to_any(st, x, t)
        return x == y

    # ------------------------------------------------------------------ calls
    def prepare(self, fr, st, c):
        """evaluate callee and arguments"""
        args = [self.val(fr, st, a) for a in c["args"]]
        d = {"args": args, "argtypes": [self.p.types[a["type"]] for a in c["args"] if "type" in a], "sig": self.p.types[c["sig"]], "fr": fr}
        if "invoke" in c:
            d["invoke"] = c["invoke"]
            d["recv"] = self.val(fr, st, c["recv"])
            d["iface"] = self.p.types[c["iface"]]
            d["methodfull"] = c["methodfull"]
        elif c["fn"]["k"] == "builtin":
            d["builtin"] = c["fn"]["n"]
        elif "static" in c:
            d["static"] = c["static"]
            if c["fn"]["k"] == "reg":
                f = fr.regs[c["fn"]["n"]]
                d["bindings"] = f.bindings if isinstance(f, FnV) else []
        else:
            d["dyn"] = self.val(fr, st, c["fn"])
        return d

    def result_value(self, vals):
        if len(vals) == 1:
            return vals[0]
        return TupleV(list(vals))

    def call(self, fr, st, d, go=False):
        """list of outcomes; 'return' outcomes carry the result value"""
        if "builtin" in d:
            return [Out("return", st, None, self.builtin(fr, st, d))]
        args = d["args"]
        if "invoke" in d:
            it = d["iface"]
            recv = simplify(d["recv"])
            if it.str in self.p.interfaces and is_repo(it.str):
                self.obligation(st, recv != ANil, "nopanic", "no call on a nil interface (%s)" % d["invoke"])
                impl = None
                if z3.is_app(recv) and recv.decl().eq(AnyS.APtr) and is_int_value(recv.arg(0)):
                    impl = self.p.types[recv.arg(0).as_long()].str
                    ref = recv.arg(1)
                else:
                    cands = self.p.iface_impl(it.str)
                    if len(cands) == 1:
                        impl = list(cands)[0]
                        ref = AnyS.aptr(recv)
                if impl is None:
                    raise Unsupported("call through %s: receiver not known" % it.str)
                name = self.p.methods_of(it.str, impl)[d["invoke"]]
                return self.call_fn(fr, st, name, [ref] + args, [])
            return self.external(fr, st, d["methodfull"], [recv] + args, d)
        if "static" in d:
            name = d["static"]
            if name in self.p.fns:
                return self.call_fn(fr, st, name, args, d.get("bindings", []))
            return self.external(fr, st, name, args, d)
        f = fn_of(d["dyn"]) if not isinstance(d["dyn"], LOCS) else None
        if f is None:
            return self.callback(fr, st, d)
        if f.name in self.p.fns:
            return self.call_fn(fr, st, f.name, args, f.bindings)
        return self.external(fr, st, f.name, args, d)

    def callback(self, fr, st, d):
        """call of a function parameter: its declared effect"""
        c = self.cur
        if c is not None and getattr(c, "callbacks", None):
            for pname, eff in c.callbacks.items():
                pv = self.cur_params.get(pname)
                if pv is not None and not isinstance(pv, FnV) and pv.eq(d["dyn"]):
                    for k in eff:
                        self.havoc_key(st, k)
                    rs = [self.fresh_val(st, t, "cb") for t in self.sig_results(d["sig"])]
                    return [Out("return", st, None, self.result_value(rs))]
        raise Unsupported("call of an unknown function value")

    def sig_results(self, t):
        return [self.p.types[r] for r in (t.under().d["results"] or [])]

    def havoc_key(self, st, key, frame=None):
        self.gkey(key, Str) if key.startswith("$") and key not in self.meta else None
        st.heap[key] = self.key_const(key, "hv%d" % next(self.cellid))
        self.facts(key, st.heap[key], st, st.top)
        return st.heap[key]

    def call_fn(self, fr, st, name, args, bindings):
        fn = self.p.fns[name]
        if self.graph is not None and self.graph.building:
            if self.graph.stub and not any(q in fn.pkg for q in ("/1pass-app",)):
                rs = [ANil if t.str == "error" else self.fresh_val(st, t, "stub") for t in fn.results]
                return [Out("return", st, None, self.result_value(rs))]
            c = None
        else:
            c = self.contracts.for_fn(name) if self.contracts else None
        if c is not None and not c.inline and not self.force_inline and c.speaks(self.contracts.prop):
            self.called.add(name)
            import spec
            return spec.call_contract(self, st, fn, c, args)
        if fr.depth > 40:
            raise Unsupported("recursion: " + name)
        p = self.pos
        outs = self.run_fn(fn, args, st, bindings, fr.depth + 1)
        self.pos = p
        res = []
        for o in outs:
            if o.kind == "return":
                if o.fr.defers:
                    raise Unsupported("pending defers")
                res.append(Out("return", o.st, None, self.result_value(o.data)))
            else:
                res.append(o)
        return res

    def external(self, fr, st, name, args, d):
        return self.models.call(self, fr, st, name, args, d)

    # ------------------------------------------------------------------ builtins
    def builtin(self, fr, st, d):
        n, a = d["builtin"], d["args"]
        if n == "len" or n == "cap":
            x = a[0]
            if isinstance(x, SliceV):
                if n == "cap":
                    c = T.fresh("cap", I)
                    st.assume(c >= x.len)
                    return c
                return x.len
            t = d["argtypes"][0]
            if t.under().kind == "map":
                dom = self.map_dom(st, x, t)
                self.card_facts(st, dom)
                return T.fn("card", dom.sort(), I)(dom)
            return T.slenof(x)
        if n == "append":
            return self.append(st, a[0], a[1], d["argtypes"])
        if n == "copy":
            dst, src = a
            if isinstance(src, SliceV):
                sc, sl = self.content(st, src), src.len
            else:
                sc, sl = src, T.slenof(src)
            k = self.skey(dst.et)
            cnt = simplify(If(dst.len < sl, dst.len, sl))
            b = self.backing(st, dst.ref, dst.et)
            if b.sort() == Str:
                nb = T.splice(b, dst.off, T.ssub(sc, IntVal(0), cnt))
                st.assume(Implies(And(cnt == sl, sl == T.slenof(b), dst.off == 0), nb == sc))
            else:
                th = seqth_of_sort(b.sort())
                nb = T.fresh("copied", th.sort)
                j = Int("j")
                st.assume(th.len(nb) == th.len(b))
                st.assume(ForAll([j], th.at(nb, j) == If(And(j >= dst.off, j < dst.off + cnt), th.at(sc, j - dst.off), th.at(b, j)), patterns=[th.at(nb, j)]))
                st.assume(Implies(And(cnt == sl, sl == th.len(b), dst.off == 0), nb == sc))
            self.upd(st, k, dst.ref, nb)
            return cnt
        if n == "delete":
            m, k = a
            mt = d["argtypes"][0]
            k = pack(k, mt.key)
            kd, kv = self.mkeys(mt)
            self.obligation(st, m >= 0, "nopanic", "delete from a heap map")
            self.upd(st, kd, m, Store(self.sel(self.get(st, kd), m), k, BoolVal(False)))
            return TupleV([])
        if n == "ssa:wrapnilchk":
            self.obligation(st, a[0] != 0, "nopanic", "no nil receiver")
            return a[0]
        if n in ("print", "println"):
            return TupleV([])
        raise Unsupported("builtin " + n)

    def append(self, st, s, x, tys):
        if not isinstance(x, SliceV):
            # append([]byte, string...)
            xc, xl = x, T.slenof(x)
        else:
            xc, xl = self.content(st, x), x.len
        sc = self.content(st, s)
        bl = self.backlen(st, s)
        nl = num(xl)
        if nl == 0:
            return s
        full = num(s.len) == 0 and num(s.off) == 0 and num(s.ref) == 0 or simplify(s.off + s.len).eq(simplify(bl))
        if sc.sort() == Str:
            new = T.scat(sc, xc)
            if not full and not (num(s.len) == 0 and num(s.off) == 0):
                # window of a larger array: the write may go into that array
                self.obligation(st, s.off + s.len == bl, "wf", "append does not write into a shared array")
            return self.new_seq(st, s.et, new)
        th = seqth_of_sort(sc.sort())
        es = th.elems(xc)
        if es is not None:
            new = sc
            for e in es:
                new = th.snoc(new, e)
        else:
            new = th.cat(sc, xc)
        if not full:
            st2 = st
            c = simplify(s.off + s.len == bl)
            T_, _ = T.check(st.pc, c, timeout=1000)
            if T_ != "proved":
                # in place: overwrites the elements after the window (Go reuses the capacity)
                if es is None or len(es) != 1:
                    self.obligation(st, c, "wf", "append does not write into a shared array")
                else:
                    self.obligation(st, s.off + s.len < bl, "wf", "append is either in place or on a whole array")
                    self.set_elem(st, SliceV(s.ref, s.off, simplify(s.len + 1), s.et), s.len, es[0])
                    return SliceV(s.ref, s.off, simplify(s.len + 1), s.et)
        r = self.new_seq(st, s.et, new)
        r.len = simplify(s.len + xl)
        if not r.len.eq(simplify(self.seqlen(new))):
            st.assume(r.len == self.seqlen(new))
        return r


def is_bytes_elem(et):
    return et.under().kind == "basic" and et.under().d["name"] in ("uint8", "byte")


def trunc(x):
    return If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))


def slt(a, b):
    return T.slt(a, b)


def short(s):
    return s.split("/")[-1]


def seqth_of_sort(s):
    return T.seqth_of(s)
