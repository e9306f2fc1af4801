"""Loops: havoc of what the body can change, inductive invariants found by Houdini over the templates of the
contract and a fixed family of shapes, then one pass that records the obligations of the body."""
import itertools
import z3
from z3 import And, Or, Not, Implies, If, ForAll, Int, IntVal, BoolVal, Const, Select, simplify
import terms as T
from terms import I, B, R, Str, AnyS, seqth
from values import *
from exec import above, split_ref, BELOW, TOPGE, Out, Loop, num, seqth_of_sort, cmp_refs

DEBUG = False


def value_same(a, b):
    if isinstance(a, FnV) and isinstance(b, FnV):
        return a.name == b.name and len(a.bindings) == len(b.bindings) and all(value_same(x, y) for x, y in zip(a.bindings, b.bindings))
    if isinstance(a, CellLoc) and isinstance(b, CellLoc):
        return a.id == b.id
    if isinstance(a, SliceV) and isinstance(b, SliceV):
        return a.ref.eq(b.ref) and simplify(a.off).eq(simplify(b.off)) and simplify(a.len).eq(simplify(b.len))
    if isinstance(a, IterV) and isinstance(b, IterV):
        return a.cell == b.cell
    if isinstance(a, StructV) and isinstance(b, StructV):
        return all(value_same(x, y) for x, y in zip(a.vals, b.vals))
    if isinstance(a, OpaqueV) and isinstance(b, OpaqueV):
        return a.term.eq(b.term)
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return a.eq(b) or simplify(a).eq(simplify(b))
    return a is b


class Cand:
    __slots__ = ("name", "f", "alive")

    def __init__(self, name, f):
        self.name, self.f, self.alive = name, f, True


def fresh_phi(ex, s, t, name, full):
    """unconstrained value of type t at the loop head"""
    if t.under().kind == "slice" and not is_bytes(t):
        ref = T.fresh(name + ".ref", I)
        BELOW[ref.decl().name()] = simplify(s.top)
        if full:
            v = SliceV(ref, IntVal(0), IntVal(0), t.elem)
            v.len = ex.seqlen(ex.backing(s, ref, t.elem))
            s.assume(Implies(ref == 0, v.len == 0))
            s.assume(v.len >= 0)
        else:
            v = SliceV(ref, T.fresh(name + ".off", I), T.fresh(name + ".len", I), t.elem)
            s.assume(And(v.off >= 0, v.len >= 0, v.off + v.len <= ex.backlen(s, v), Implies(ref == 0, v.len == 0)))
        s.assume(ref <= s.top)
        if t.elem.under().kind != "interface":
            s.assume(ref >= 0)
        return v
    return ex.fresh_val(s, t, name)


def contains_fresh(t, names):
    sc = T.Scan()
    sc.add(t)
    return bool(sc.names & names)


def chain_refs(ex, arr, stop, acc, depth=0):
    """indices written on the way from array `stop` to `arr`; False if the history is not known"""
    while not arr.eq(stop):
        k = arr.decl().kind()
        if k == z3.Z3_OP_STORE:
            acc.append(arr.arg(1))
            arr = arr.arg(0)
            continue
        n = arr.decl().name()
        if n in getattr(ex, "merged", ()):
            x, y = ex.merged[n]
            return chain_refs(ex, x, stop, acc) and chain_refs(ex, y, stop, acc)
        h = ex.history.get(n)
        if h is None:
            return False
        acc.extend(h[1])
        arr = h[0]
    return True


def run_loop(ex, fr, h, frm, st, ctx):
    fn = fr.fn
    blocks = fn.loops()[h]
    L = Loop(blocks, h)
    init = ex.phis(fr, st, h, frm)
    phis = {i["n"]: ex.p.types[i["type"]] for i in fn.blocks[h]["instrs"] if i["op"] == "Phi"}
    ex.loopno += 1
    tag = "L%d" % ex.loopno
    if not hasattr(ex, "history"):
        ex.history = {}
    modkeys, modcells, topmod = [], [], False
    fixed = {n for n, v in init.items() if isinstance(v, (FnV,) + LOCS + (IterV,))}
    full = {n: True for n in phis}
    fullc = {}
    top_in = st.top

    def head():
        """state at the loop head: everything the body may change is arbitrary"""
        s, f = st.fork(), fr.fork()
        if topmod:
            s.top = Int("top.%s.%d" % (tag, len(modkeys)))
            TOPGE["top.%s.%d" % (tag, len(modkeys))] = simplify(top_in)
            s.assume(s.top >= top_in)
        for k in modkeys:
            s.heap[k] = ex.key_const(k, "%s.%d" % (tag, len(modkeys)))
        for k in modkeys:
            T.SYMAX.pop(s.heap[k].decl().name(), None)
        for k in modkeys:
            ex.facts(k, s.heap[k], s, s.top)
        if "pos" in s.marks:
            pass
        for c in modcells:
            v, t = s.cells[c]
            s.cells[c] = (fresh_phi(ex, s, t, "%s.c%s" % (tag, c), fullc.get(c, True)), t)
        for n, t in phis.items():
            if n in fixed:
                f.regs[n] = init[n]
            else:
                f.regs[n] = fresh_phi(ex, s, t, "%s.%s" % (tag, n), full[n])
        return s, f

    def body(s, f):
        """run from the head; split outcomes"""
        outs = ex.block(f, h, s, L)
        backs = [o for o in outs if o.kind == "back"]
        rest = [o for o in outs if o.kind != "back"]
        return backs, rest

    # ---- what can the body change
    ex.quiet += 1
    ex.rough = getattr(ex, "rough", 0) + 1
    cnt0 = T._cnt[0]
    while True:
        s, f = head()
        heads = (s.fork(), f.fork())
        backs, rest = body(s, f)
        changed = False
        for o in backs:
            nv = ex.phis(o.fr, o.st, h, o.data)
            for n in list(fixed):
                if not value_same(nv[n], init[n]):
                    ex.quiet -= 1
                    raise Unsupported("loop changes a function value or address")
            for n, t in phis.items():
                if isinstance(nv[n], SliceV) and not is_bytes(t) and full[n] and not ex.is_full(o.st, nv[n]):
                    r, _ = T.check(o.st.pc, And(nv[n].off == 0, nv[n].len == ex.backlen(o.st, nv[n])), timeout=1000)
                    if r != "proved":
                        full[n] = False
                        changed = True
            for k, a in o.st.heap.items():
                b = heads[0].heap.get(k)
                if b is None:
                    b = ex.base(k)
                if not a.eq(b) and k not in modkeys:
                    modkeys.append(k)
                    changed = True
            for c, (v, t) in o.st.cells.items():
                if c in heads[0].cells and c not in modcells and not value_same(v, heads[0].cells[c][0]):
                    modcells.append(c)
                    changed = True
            for c in modcells:
                v, t = o.st.cells[c]
                if isinstance(v, SliceV) and not is_bytes(t) and fullc.get(c, True) and not ex.is_full(o.st, v):
                    r, _ = T.check(o.st.pc, And(v.off == 0, v.len == ex.backlen(o.st, v)), timeout=1000)
                    if r != "proved":
                        fullc[c] = False
                        changed = True
            if not o.st.top.eq(heads[0].top) and not topmod:
                topmod = True
                changed = True
        for n, t in phis.items():
            if n not in fixed and isinstance(init[n], SliceV) and not is_bytes(t) and full[n] and not ex.is_full(st, init[n]) and not (num(init[n].len) == 0 and num(init[n].off) == 0):
                r, _ = T.check(st.pc, And(init[n].off == 0, init[n].len == ex.backlen(st, init[n])), timeout=1000)
                if r != "proved":
                    full[n] = False
                    changed = True
        # globals first read inside the loop
        for o in backs + rest:
            for c, x in o.st.cells.items():
                if isinstance(c, str) and c not in st.cells:
                    st.cells[c] = x
        if not changed:
            break
    modkeys.sort()
    if ex.rough > 1:
        # inside the exploration of an enclosing loop: the state after the loop is arbitrary
        ex.rough -= 1
        ex.quiet -= 1
        for k in modkeys:
            if ex.meta[k][1] != "ghost":
                acc = []
                if all(chain_refs(ex, ex.get(o.st, k), heads[0].heap[k], acc) for o in backs):
                    e, good = [], True
                    for r in acc:
                        if above(split_ref(simplify(top_in)), simplify(r)):
                            continue
                        if is_loop_term(r, tag, st, top_in, 0):
                            good = False
                        elif not any(r.eq(x) for x in e):
                            e.append(r)
                    if good:
                        ex.history[heads[0].heap[k].decl().name()] = (ex.get(st, k), e, top_in)
        out = []
        for o in rest:
            if o.kind == "leave":
                target, frm2 = o.data
                out += ex.goto(o.fr, target, frm2, o.st, ctx)
            else:
                out.append(o)
        return out
    # ---- candidates
    s0, f0 = head()
    backs, rest = body(s0.fork(), f0.fork())
    ex.rough -= 1
    names = set()
    exc = {}
    okframe = set()
    for k in modkeys:
        if ex.meta[k][1] == "ghost":
            continue
        acc, good = [], True
        for o in backs:
            if not chain_refs(ex, ex.get(o.st, k), s0.heap[k], acc):
                good = False
        if good:
            e = []
            for r in acc:
                d = simplify(r - top_in)
                if z3.is_int_value(d) and d.as_long() > 0:
                    continue
                if is_loop_term(r, tag, st, top_in, T._cnt[0]) or above(split_ref(simplify(top_in)), simplify(r)):
                    continue
                if not any(r.eq(x) for x in e):
                    e.append(r)
            exc[k] = e
            okframe.add(k)
    cands = []

    def reg(n):
        return lambda st_, rg: rg[n]

    def cell(c):
        return lambda st_, rg: st_.cells[c][0]

    for k in modkeys:
        if k not in okframe:
            continue
        a0 = ex.get(st, k)

        def fr_f(st_, rg, k=k, a0=a0):
            a = ex.get(st_, k)
            if a.eq(a0):
                return BoolVal(True)
            r = Int("r")
            return ForAll([r], Implies(And(r <= top_in, *[r != x for x in exc[k]]), Select(a, r) == Select(a0, r)), patterns=[Select(a, r)])
        cands.append(Cand("frame " + k, fr_f))
    ints, slices, strs, others = [], [], [], []
    regs0 = dict(fr.regs)
    regs0.update(init)
    vals = [(n, t, reg(n), init[n]) for n, t in phis.items() if n not in fixed]
    vals += [("cell%s" % c, st.cells[c][1], cell(c), st.cells[c][0]) for c in modcells]
    for n, t, acc, v0 in vals:
        if isinstance(v0, SliceV):
            slices.append((n, t, acc, v0))
        elif isinstance(v0, z3.ExprRef) and v0.sort() == I and t.under().kind == "basic":
            ints.append((n, t, acc, v0))
        elif isinstance(v0, z3.ExprRef):
            others.append((n, t, acc, v0))
    for n, t, acc, v0 in ints:
        cands.append(Cand("%s >= init" % n, lambda s_, r_, acc=acc, v0=v0: acc(s_, r_) >= v0))
        cands.append(Cand("%s <= init" % n, lambda s_, r_, acc=acc, v0=v0: acc(s_, r_) <= v0))
    for n, t, acc, v0 in others:
        cands.append(Cand("%s == init" % n, lambda s_, r_, acc=acc, v0=v0: acc(s_, r_) == v0))
        if v0.sort() == I:
            cands.append(Cand("%s is init or new" % n, lambda s_, r_, acc=acc, v0=v0: Or(acc(s_, r_) == v0, acc(s_, r_) > top_in)))
    for (n, t, a, v0), (m, u, b, w0) in itertools.combinations(ints, 2):
        cands.append(Cand("%s - %s const" % (n, m), lambda s_, r_, a=a, b=b, v0=v0, w0=w0: a(s_, r_) - b(s_, r_) == v0 - w0))
        cands.append(Cand("%s - %s <=" % (n, m), lambda s_, r_, a=a, b=b, v0=v0, w0=w0: a(s_, r_) - b(s_, r_) <= v0 - w0))
        cands.append(Cand("%s - %s >=" % (n, m), lambda s_, r_, a=a, b=b, v0=v0, w0=w0: a(s_, r_) - b(s_, r_) >= v0 - w0))
    bounds = []
    rtypes = {i["n"]: ex.p.types[i["type"]] for _, i in fn.instrs() if "n" in i and "type" in i}
    rtypes.update({n: t for n, t in fn.params})
    inv_regs = {n: v for n, v in fr.regs.items() if n not in phis}
    used = set()
    for b in blocks:
        for i in fn.blocks[b]["instrs"]:
            if i["op"] in ("BinOp", "IndexAddr", "Index", "Slice", "Call"):
                used |= reg_names(i)
    for n, v in inv_regs.items():
        if n not in used:
            continue
        if isinstance(v, SliceV):
            bounds.append(("len " + n, v.len))
        elif isinstance(v, z3.ExprRef) and v.sort() == I and rtypes.get(n) is not None and rtypes[n].under().kind == "basic":
            bounds.append((n, v))
    for b in blocks:
        for i in fn.blocks[b]["instrs"]:
            if i["op"] == "BinOp" and i["tok"] in ("<", "<=", ">", ">=", "!=", "=="):
                for q in ("x", "y"):
                    if i[q]["k"] == "const" and "int" in i[q]:
                        bounds.append((i[q]["int"], IntVal(int(i[q]["int"]))))
    for n, t, acc, v0 in ints:
        seen = []
        for bn, bnd in bounds:
            if any(bnd.eq(x) for x in seen):
                continue
            seen.append(bnd)
            if len(seen) > 14:
                break
            cands.append(Cand("%s <= %s" % (n, bn), lambda s_, r_, acc=acc, b=bnd: acc(s_, r_) <= b))
            cands.append(Cand("%s < %s" % (n, bn), lambda s_, r_, acc=acc, b=bnd: acc(s_, r_) < b))
    # lengths of collected slices against the index
    for n, t, a, v0 in slices:
        if is_bytes(t):
            continue
        for m, u, b, w0 in ints:
            cands.append(Cand("len(%s) - %s const" % (n, m), lambda s_, r_, a=a, b=b, v0=v0, w0=w0: a(s_, r_).len - b(s_, r_) == v0.len - w0))
            cands.append(Cand("len(%s) - %s <=" % (n, m), lambda s_, r_, a=a, b=b, v0=v0, w0=w0: a(s_, r_).len - b(s_, r_) <= v0.len - w0))
        cands.append(Cand("%s stays non-nil" % n, lambda s_, r_, a=a: a(s_, r_).ref > 0))
        cands.append(Cand("%s is new" % n, lambda s_, r_, a=a: a(s_, r_).ref > ex.top0))
    # arrays written element by element keep their length
    for n, v in inv_regs.items():
        if isinstance(v, SliceV) and ex.skey(v.et) in modkeys:
            cands.append(Cand("%s keeps its length" % n, lambda s_, r_, v=v: ex.backlen(s_, v) == ex.backlen(st, v)))
    # iterators
    iters = [(n, v) for n, v in inv_regs.items() if isinstance(v, IterV)]
    for n, v in iters:
        th = seqth(psort(v.mt.key))
        cands.append(Cand("iter %s" % n, lambda s_, r_, v=v, th=th: And(s_.cells[v.cell][0] >= 0, s_.cells[v.cell][0] <= th.len(v.keys))))
    # templates of the contract
    if ex.cur is not None:
        import spec
        pool = []
        for n, t, acc, v0 in vals:
            if isinstance(v0, z3.ExprRef) and v0.sort() == I and t.under().kind == "basic":
                # an index that starts at -1 is incremented at the head
                if num(v0) != -1:
                    pool.append((n, t, acc, "v"))
                pool.append((n + "+1", t, lambda s_, r_, acc=acc: simplify(acc(s_, r_) + 1), "v"))
            else:
                pool.append((n, t, acc, "v"))
        for n, v in iters:
            if not any(p[0] == "cell%s" % v.cell for p in pool):
                pool.append(("pos", ex.p.bystr["int"], cell(v.cell), "v"))
            pool.append((n + ".keys", ("seq", v.mt.key), lambda s_, r_, v=v: v.keys, "i"))
        for n, v in inv_regs.items():
            if isinstance(v, SliceV):
                pool.append((n, None, lambda s_, r_, v=v: v, "m" if ex.skey(v.et) in modkeys else "i"))
        regt = {i["n"]: ex.p.types[i["type"]] for b, i in fn.instrs() if "n" in i and isinstance(i.get("type"), int)}
        for n, v in inv_regs.items():
            if n in regt and regt[n].under().kind == "pointer" and isinstance(v, z3.ExprRef) and v.sort() == I:
                pool.append((n, regt[n], lambda s_, r_, v=v: v, "i"))
        incs = {i["n"] for b, i in fn.instrs() if "n" in i and i.get("op") == "BinOp" and i.get("tok", i.get("bop")) in ("+", None)}
        for n, v in inv_regs.items():
            # the indices of enclosing loops
            if n in regt and n in incs and regt[n].under().kind == "basic" and isinstance(v, z3.ExprRef) and v.sort() == I and not z3.is_int_value(v):
                pool.append((n, regt[n], lambda s_, r_, v=v: v, "o"))
        for c, (v, t) in st.cells.items():
            if c not in modcells and isinstance(v, SliceV):
                pool.append(("cell%s" % c, t, cell(c), "m" if ex.skey(v.et) in modkeys else "i"))
        for name, build in spec.instantiate_templates(ex, pool, s0, f0.regs, st.fork(), regs0, sum(1 for b in fn.loops().values() if h in b)):
            cands.append(Cand(name, build))
    # ---- only what survived the first pass over an enclosing loop
    memo0 = getattr(ex, "memo", None)
    ckey = (fn.name, h)
    if memo0 is not None:
        cands = [c for c in cands if c.name in memo0.get(ckey, ())]
    seen0 = getattr(ex, "seen", None)
    # ---- entry
    es = st.fork()
    eregs = dict(fr.regs)
    eregs.update(init)
    goals = []
    for c in cands:
        goals.append(safe(c, es, eregs))
    res = T.check_many(es.pc, goals, timeout=800, fuel=2)
    cands = [c for c, r, g in zip(cands, res, goals) if r]
    if DEBUG:
        print("  loop %s %s: %d candidates hold on entry; modkeys %s cells %s" % (fn.name.split("/")[-1], h, len(cands), modkeys, modcells))
    # ---- Houdini
    npass = 0
    ex.seen = {}
    while True:
        if npass == 1:
            ex.memo = {k: set(v) for k, v in ex.seen.items()}
        npass += 1
        s1, f1 = s0.fork(), f0.fork()
        for c in cands:
            g = safe(c, s1, f1.regs)
            if g is not None:
                s1.assume(g)
        n0 = len(cands)
        hs, hf = s1.fork(), f1.fork()
        backs, rest = body(s1, f1)
        drop = set()
        for o in backs:
            rg = dict(o.fr.regs)
            rg.update(ex.phis(o.fr, o.st, h, o.data))
            live = [c for c in cands if id(c) not in drop]
            goals = [safe(c, o.st, rg) for c in live]
            res = T.check_many(o.st.pc, goals, timeout=1500, fuel=2)
            weak = [k for k, r in enumerate(res) if not r and goals[k] is not None and live[k].name.startswith("T:")]
            if len(weak) <= 2:
                # what was written down for this loop gets a longer look
                for k in weak:
                    res[k] = bool(T.external(o.st.pc, goals[k], 6)) or T.check_many(o.st.pc, [goals[k]], timeout=6000, fuel=2)[0]
            for c, r in zip(live, res):
                if not r:
                    drop.add(id(c))
        if not drop:
            break
        if DEBUG:
            print("   drop:", [c.name for c in cands if id(c) in drop])
        cands = [c for c in cands if id(c) not in drop]
    ex.quiet -= 1
    if DEBUG:
        import time
        print("  ", time.time())
        print("  loop %s %s kept:" % (fn.name.split("/")[-1], h), [c.name for c in cands])
    for k in modkeys:
        if k in okframe and any(c.name == "frame " + k for c in cands):
            ex.history[s0.heap[k].decl().name()] = (ex.get(st, k), exc[k], top_in)
    if not ex.quiet:
        backs, rest = body(hs, hf)
        ex.loops_done = getattr(ex, "loops_done", 0) + 1
    ex.memo = memo0
    if seen0 is not None:
        for k, v in ex.seen.items():
            seen0.setdefault(k, set()).update(v)
        seen0.setdefault(ckey, set()).update(c.name for c in cands)
    ex.seen = seen0
    out = []
    for o in rest:
        if o.kind == "leave":
            target, frm2 = o.data
            out += ex.goto(o.fr, target, frm2, o.st, ctx)
        else:
            out.append(o)
    return out


def reg_names(x):
    """registers an instruction mentions"""
    if isinstance(x, dict):
        if x.get("k") == "reg":
            return {x["n"]}
        return set().union(*[reg_names(v) for v in x.values()]) if x else set()
    if isinstance(x, list):
        return set().union(*[reg_names(v) for v in x]) if x else set()
    return set()


def safe(c, s, rg):
    try:
        return c.f(s, rg)
    except Exception as e:          # candidate not meaningful in this state
        if DEBUG:
            print("   cand", c.name, "->", repr(e)[:200])
        return None


def is_loop_term(t, tag, st, top_in, cnt):
    """mentions the loop's own symbols"""
    sc = T.Scan()
    sc.add(t)
    return any(n.startswith(tag + ".") or n.startswith("top." + tag) or n.startswith(tag + ".") for n in sc.names) or any("!" in n and n.startswith(tag) for n in sc.names)
