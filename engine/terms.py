"""Logic: sorts, theory symbols and their axioms, and the prover front (z3, cvc5 as second back end)."""
import re
import time
import z3
from z3 import (Int, Bool, Real, And, Or, Not, Implies, If, ForAll, Exists, BoolVal, IntVal, RealVal, Function,
                IntSort, BoolSort, RealSort, ArraySort, Const, Select, Store, K, is_app, Z3_OP_UNINTERPRETED, Var)

Str = z3.DeclareSort("Str")
I, B, R = IntSort(), BoolSort(), RealSort()

_d = z3.Datatype("Any")
_d.declare("ANil")
_d.declare("AStr", ("astr", Str))
_d.declare("ABool", ("abool", B))
_d.declare("AInt", ("aitag", I), ("aint", I))
_d.declare("AFlt", ("aflt", R))
_d.declare("AMap", ("amap", I))
_d.declare("AArr", ("aarr", I), ("aarrlen", I))
_d.declare("APtr", ("aptag", I), ("aptr", I))
_d.declare("AOth", ("aotag", I), ("aoid", I))
AnyS = _d.create()
ANil = AnyS.ANil

# ---------------------------------------------------------------- symbols
SYMAX = {}          # symbol name -> list of axioms that come with it
RECDEFS = {}        # decl name -> python function(app term) -> list of unfolding formulas
_fn = {}
LIT_HOOKS = []
EVALS = {}          # unary/binary string functions that are evaluated on literals: name -> python function


def fn(name, *sorts):
    k = (name,) + tuple(s.name() if hasattr(s, "name") else str(s) for s in sorts)
    key = (name, tuple(str(s) for s in sorts))
    f = _fn.get(key)
    if f is None:
        f = _fn[key] = Function(name, *sorts)
    return f


_cnt = [0]


def fresh(prefix, sort):
    _cnt[0] += 1
    return Const("%s!%d" % (prefix, _cnt[0]), sort)


def reset_fresh():
    _cnt[0] = 0


# ---------------------------------------------------------------- sequences (one sort per element sort)
_seqs = {}
AXIOMS = []         # (set of trigger decl names, formula): included when one of the names occurs in a query


def axiom(names, f):
    AXIOMS.append((frozenset(names), f))


class SeqTh:
    def __init__(self, es):
        n = str(es)
        self.es = es
        self.sort = z3.DeclareSort("Seq_" + n)
        S = self.sort
        self.nil = Const("nil_" + n, S)
        self.snoc = fn("snoc_" + n, S, es, S)
        self.len = fn("len_" + n, S, I)
        self.at = fn("at_" + n, S, I, es)
        self.upd = fn("upd_" + n, S, I, es, S)
        self.sub = fn("sub_" + n, S, I, I, S)
        self.cat = fn("cat_" + n, S, S, S)
        s, t, x, i, j, h = Const("s", S), Const("t", S), Const("x", es), Int("i"), Int("j"), Int("h")
        g = ["len_" + n, "snoc_" + n, "at_" + n, "upd_" + n, "sub_" + n, "cat_" + n]
        axiom(g, ForAll([s], self.len(s) >= 0, patterns=[self.len(s)]))
        axiom(g, self.len(self.nil) == 0)
        axiom(g, ForAll([s, x], self.len(self.snoc(s, x)) == self.len(s) + 1, patterns=[self.snoc(s, x)]))
        axiom(g, ForAll([s, x, i], self.at(self.snoc(s, x), i) == If(i == self.len(s), x, self.at(s, i)),
                        patterns=[self.at(self.snoc(s, x), i)]))
        axiom(["upd_" + n], ForAll([s, x, i], self.len(self.upd(s, i, x)) == self.len(s), patterns=[self.upd(s, i, x)]))
        axiom(["upd_" + n], ForAll([s, x, i, j], self.at(self.upd(s, i, x), j) ==
                                   If(And(i == j, 0 <= i, i < self.len(s)), x, self.at(s, j)),
                                   patterns=[self.at(self.upd(s, i, x), j)]))
        axiom(["sub_" + n], ForAll([s, i, h], Implies(And(0 <= i, i <= h, h <= self.len(s)), self.len(self.sub(s, i, h)) == h - i),
                                   patterns=[self.sub(s, i, h)]))
        axiom(["sub_" + n], ForAll([s, h], Implies(h == self.len(s), self.sub(s, 0, h) == s), patterns=[self.sub(s, 0, h)]))
        axiom(["sub_" + n], ForAll([s, i, h, j], Implies(And(0 <= j, j < h - i), self.at(self.sub(s, i, h), j) == self.at(s, i + j)),
                                   patterns=[self.at(self.sub(s, i, h), j)]))
        axiom(["cat_" + n], ForAll([s, t], self.len(self.cat(s, t)) == self.len(s) + self.len(t), patterns=[self.cat(s, t)]))
        axiom(["cat_" + n], ForAll([s, t, i], self.at(self.cat(s, t), i) == If(i < self.len(s), self.at(s, i), self.at(t, i - self.len(s))),
                                   patterns=[self.at(self.cat(s, t), i)]))
        def unfold(t):
            if z3.is_int_value(t.arg(1)) and t.arg(1).as_long() == 0:
                q, e = t.arg(0), t.arg(2)
                return [Implies(And(0 < e, e <= self.len(q)), t == self.snoc(self.sub(q, 0, e - 1), self.at(q, e - 1))),
                        Implies(e == 0, t == self.nil)]
            return []
        RECDEFS["sub_" + n] = unfold

    def lit(self, elems):
        r = self.nil
        for e in elems:
            r = self.snoc(r, e)
        return r

    def elems(self, t):
        """python list of the elements of a literal sequence, else None"""
        out = []
        while True:
            if t.eq(self.nil):
                return out[::-1]
            if is_app(t) and t.decl().eq(self.snoc):
                out.append(t.arg(1))
                t = t.arg(0)
                continue
            return None


def seqth(es):
    k = str(es)
    if k not in _seqs:
        _seqs[k] = SeqTh(es)
    return _seqs[k]


def seqth_of(sort):
    for s in _seqs.values():
        if s.sort == sort:
            return s
    raise KeyError(sort)


# ---------------------------------------------------------------- strings and byte contents
_lits = {}          # python latin-1 str -> Const
_litv = {}          # const name -> python str


def lit(s):
    c = _lits.get(s)
    if c is None:
        c = Const('"%s"' % s if len(s) < 60 else '"%s...#%d"' % (s[:50], len(_lits)), Str)
        _lits[s] = c
        _litv[c.decl().name()] = s
    return c


def is_lit(t):
    return litval(t) is not None


def litval(t):
    if t.sort() != Str or not z3.is_const(t):
        return None
    return _litv.get(t.decl().name())


slen = fn("strlen", Str, I)
scat2 = fn("cat", Str, Str, Str)
ssub2 = fn("sub", Str, I, I, Str)
splice2 = fn("splice", Str, I, Str, Str)
slt = fn("strlt", Str, Str, B)
contains = fn("contains", Str, Str, B)
sbyte = fn("byteat", Str, I, I)

EMPTY = lit("")

_s, _t, _u = Const("s", Str), Const("t", Str), Const("u", Str)
_i, _j, _k, _l = Int("i"), Int("j"), Int("k"), Int("l")
_g = ["strlen", "cat", "sub", "splice"]
axiom(_g, ForAll([_s], And(slen(_s) >= 0, Implies(slen(_s) == 0, _s == EMPTY)), patterns=[slen(_s)]))
axiom(["cat"], ForAll([_s, _t], slen(scat2(_s, _t)) == slen(_s) + slen(_t), patterns=[scat2(_s, _t)]))
axiom(["sub"], ForAll([_s, _i, _j], Implies(And(0 <= _i, _i <= _j, _j <= slen(_s)), slen(ssub2(_s, _i, _j)) == _j - _i), patterns=[ssub2(_s, _i, _j)]))
axiom(["sub"], ForAll([_s, _i, _j], Implies(And(_i == 0, _j == slen(_s)), ssub2(_s, _i, _j) == _s), patterns=[ssub2(_s, _i, _j)]))
axiom(["sub"], ForAll([_s, _i, _j, _k, _l], Implies(And(0 <= _i, 0 <= _k, _k <= _l, _l <= _j - _i, _j <= slen(_s)),
                                                    ssub2(ssub2(_s, _i, _j), _k, _l) == ssub2(_s, _i + _k, _i + _l)), patterns=[ssub2(ssub2(_s, _i, _j), _k, _l)]))
axiom(["sub", "cat"], ForAll([_s, _t, _i, _j], And(Implies(And(0 <= _i, _i <= _j, _j <= slen(_s)), ssub2(scat2(_s, _t), _i, _j) == ssub2(_s, _i, _j)),
                                                  Implies(And(slen(_s) <= _i, _i <= _j, _j <= slen(_s) + slen(_t)), ssub2(scat2(_s, _t), _i, _j) == ssub2(_t, _i - slen(_s), _j - slen(_s)))),
                             patterns=[ssub2(scat2(_s, _t), _i, _j)]))
axiom(["splice"], ForAll([_s, _i, _t], Implies(And(0 <= _i, _i + slen(_t) <= slen(_s)), slen(splice2(_s, _i, _t)) == slen(_s)), patterns=[splice2(_s, _i, _t)]))
axiom(["splice"], ForAll([_s, _i, _t, _k, _l], Implies(And(0 <= _i, _i + slen(_t) <= slen(_s), 0 <= _k, _k <= _l, _l <= slen(_s)),
                                                      And(Implies(And(_i <= _k, _l <= _i + slen(_t)), ssub2(splice2(_s, _i, _t), _k, _l) == ssub2(_t, _k - _i, _l - _i)),
                                                          Implies(Or(_l <= _i, _k >= _i + slen(_t)), ssub2(splice2(_s, _i, _t), _k, _l) == ssub2(_s, _k, _l)))),
                         patterns=[ssub2(splice2(_s, _i, _t), _k, _l)]))
axiom(["splice"], ForAll([_s, _i, _t], Implies(And(_i == 0, slen(_t) == slen(_s)), splice2(_s, _i, _t) == _t), patterns=[splice2(_s, _i, _t)]))
axiom(["strlt"], ForAll([_s, _t], And(Or(slt(_s, _t), _s == _t, slt(_t, _s)), Not(And(slt(_s, _t), slt(_t, _s))), Implies(slt(_s, _t), _s != _t)), patterns=[slt(_s, _t)]))
axiom(["strlt"], ForAll([_s, _t, _u], Implies(And(slt(_s, _t), slt(_t, _u)), slt(_s, _u)), patterns=[z3.MultiPattern(slt(_s, _t), slt(_t, _u))]))
axiom(["contains"], ForAll([_s, _t, _u], Implies(Or(contains(_s, _u), contains(_t, _u)), contains(scat2(_s, _t), _u)), patterns=[contains(scat2(_s, _t), _u)]))
axiom(["contains"], ForAll([_s, _t], And(Implies(_s == _t, contains(_s, _t)), Implies(_t == EMPTY, contains(_s, _t))), patterns=[contains(_s, _t)]))


def parts(t):
    """flatten a concatenation"""
    if is_app(t) and t.decl().eq(scat2):
        return parts(t.arg(0)) + parts(t.arg(1))
    return [t]


def scat(*ts):
    ps = []
    for t in ts:
        for p in parts(t):
            v = litval(p)
            if v == "":
                continue
            if v is not None and ps and litval(ps[-1]) is not None and (len(ps) == 1 or not litval(ps[-1]).endswith("\n")):
                ps[-1] = lit(litval(ps[-1]) + v)
            else:
                ps.append(p)
    if not ps:
        return EMPTY
    if len(ps) > 1 and any("\n" in (litval(p) or "")[:-1] for p in ps):
        # one form for a text whatever pieces it was put together from: literals end at line ends
        ps = [q for p in ps for q in ([lit(x) for x in litval(p).splitlines(True)] if "\n" in (litval(p) or "")[:-1] else [p])]
    r = ps[0]
    for p in ps[1:]:
        r = scat2(r, p)
    return r


def ssub(s, a, b):
    a, b = z3.simplify(a), z3.simplify(b)
    v = litval(s)
    if v is not None and z3.is_int_value(a) and z3.is_int_value(b) and 0 <= a.as_long() <= b.as_long() <= len(v):
        return lit(v[a.as_long():b.as_long()])
    if z3.is_int_value(a) and a.as_long() == 0 and b.eq(z3.simplify(slenof(s))):
        return s
    if is_app(s) and s.decl().eq(ssub2):
        pass
    return ssub2(s, a, b)


def slenof(s):
    v = litval(s)
    if v is not None:
        return IntVal(len(v))
    if is_app(s) and s.decl().eq(scat2):
        return z3.simplify(slenof(s.arg(0)) + slenof(s.arg(1)))
    return slen(s)


def splice(s, o, d):
    return splice2(s, o, d)


# ---------------------------------------------------------------- pure string functions with literal evaluation
def _ev(name, pyf, *sorts):
    f = fn(name, *sorts)
    EVALS[name] = pyf
    return f


def _gotrim(s):
    try:
        u = s.encode("latin-1").decode("utf-8")
        return u.strip(" \t\n\v\f\r\u0085\u00a0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000").encode("utf-8").decode("latin-1")
    except UnicodeDecodeError:
        return None


def _ascii(f):
    def g(s):
        return f(s) if all(ord(c) < 128 for c in s) else None
    return g


def _gotitle(s):
    out, prev = [], " "
    for c in s:
        sep = not (prev.isalnum() or prev == "_")
        if ord(prev) < 128 and not (prev.isalnum() or prev == "_"):
            sep = prev.isspace() or not prev.isalnum()
        out.append(c.upper() if sep else c)
        prev = c
    return "".join(out)


tolower = _ev("tolower", _ascii(str.lower), Str, Str)
trimspace = _ev("trimspace", _gotrim, Str, Str)
totitle = _ev("totitle", _ascii(_gotitle), Str, Str)


_st = Const("s", Str)
axiom(["totitle"], ForAll([_st], And(totitle(totitle(_st)) == totitle(_st), (totitle(_st) == EMPTY) == (_st == EMPTY)), patterns=[totitle(_st)]))


def _pint(s):
    import re
    if re.fullmatch(r"[+-]?[0-9]+", s) and -2**63 <= int(s) < 2**63:
        return int(s)
    return None


pintok = fn("pintok", Str, B)           # strconv.ParseInt(s,10,64) succeeds
pint = fn("pint", Str, I)
puintok = fn("puintok", Str, B)
puint = fn("puint", Str, I)
itoa = fn("itoa", I, Str)
axiom(["itoa"], ForAll([_i], And(pintok(itoa(_i)), pint(itoa(_i)) == _i), patterns=[itoa(_i)]))


def lit_facts(used_decls):
    """facts about all literals: distinctness, lengths, evaluated functions"""
    return None


_litax = {}
LITNAMES = {"strlen", "sub", "cat", "pintok", "pint", "puintok", "puint", "pjoin", "hasprefix", "isclean", "pclean", "contains", "strlt"}


def literal_axioms(lits, names):
    ls = sorted(lits, key=lambda c: c.decl().name())
    key = (tuple(c.decl().name() for c in ls), frozenset(n for n in names if n in LITNAMES or n in EVALS or "@" in n))
    r = _litax.get(key)
    if r is None:
        r = _litax[key] = literal_axioms1(ls, key[1])
        if len(_litax) > 400:
            _litax.clear()
    return r


def literal_axioms1(ls, names):
    out = []
    if len(ls) > 1:
        out.append(z3.Distinct(*ls))
    for c in ls:
        v = litval(c)
        if "strlen" in names or "sub" in names or "cat" in names:
            out.append(slen(c) == len(v))
        for n, pf in EVALS.items():
            if n in names:
                r = pf(v)
                if r is not None:
                    out.append(fn(n, Str, Str)(c) == lit(r))
        if "pintok" in names or "pint" in names:
            r = _pint(v)
            out.append(pintok(c) == (r is not None))
            if r is not None:
                out.append(pint(c) == r)
        if "puintok" in names or "puint" in names:
            ok = v.isdigit() and v.isascii() and int(v) < 2**64
            out.append(puintok(c) == ok)
            if ok:
                out.append(puint(c) == int(v))
    for h in LIT_HOOKS:
        out.extend(h(ls, names))
    return out


# ---------------------------------------------------------------- prover


def symax(term, f):
    SYMAX.setdefault(term.decl().name(), []).append(f)


_scans = {}         # formula id -> (formula, names, literals, recursive applications)


def scan1(f):
    c = _scans.get(f.get_id())
    if c is not None:
        return c
    st, seen, names, lits, recs = [f], set(), set(), {}, []
    while st:
        t = st.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(t):
            st.append(t.body())
            continue
        if not is_app(t):
            continue
        d = t.decl()
        if d.kind() == Z3_OP_UNINTERPRETED:
            n = d.name()
            names.add(n)
            if t.num_args() == 0:
                if n in _litv:
                    lits[n] = t
                continue
            if n in RECDEFS and not has_var(t):
                recs.append(t)
            if n in ("hasprefix", "contains") and is_app(t.arg(1)) and t.arg(1).decl().name() in _litv:
                names.add(n + "@" + t.arg(1).decl().name())
        st.extend(t.children())
    c = _scans[f.get_id()] = (f, names, lits, recs)
    return c


class Scan:
    """symbols, literals and recursive applications of a set of formulas"""

    def __init__(self):
        self.names = set()
        self.lits = {}
        self.recs = []
        self.newsyms = []

    def add(self, f):
        _, names, lits, recs = scan1(f)
        new = names - self.names
        if new:
            self.names |= new
            self.newsyms.extend(sorted(new))
        self.lits.update(lits)
        self.recs.extend(recs)


_hv = {}


def has_var(t):
    c = _hv.get(t.get_id())
    if c is not None:
        return c[1]
    st, seen, r = [t], set(), False
    while st:
        x = st.pop()
        if z3.is_var(x) or z3.is_quantifier(x):
            r = True
            break
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        st.extend(x.children())
    _hv[t.get_id()] = (t, r)
    return r


STATS = {"queries": 0, "time": 0.0, "z3": 0, "cvc5": 0}


INVS = {}           # formula id -> (formula, names of the arrays it speaks about): invariants, used only where relevant


def mark_inv(fs):
    sc = Scan()
    for f in fs:
        sc.add(f)
    arr = {n for n in sc.names if ".S:" in n}
    for f in fs:
        INVS.setdefault(f.get_id(), (f, arr or set(sc.names)))


_unf = {}           # unfoldings already made (the term is kept alive with its id)


def relevant(hyps, goal):
    if not any(h.get_id() in INVS for h in hyps):
        return hyps
    sc = Scan()
    for h in hyps:
        if h.get_id() not in INVS:
            sc.add(h)
    if goal is not None:
        sc.add(goal)
    inc = set()
    while True:
        ch = False
        for h in hyps:
            i = h.get_id()
            if i in INVS and i not in inc and INVS[i][1] & sc.names:
                inc.add(i)
                sc.add(h)
                ch = True
        if not ch:
            break
    return [h for h in hyps if h.get_id() not in INVS or h.get_id() in inc]


def build(hyps, goal, fuel=2):
    sc = Scan()
    fs = []
    hyps = relevant(hyps, goal)

    def add(f):
        fs.append(f)
        sc.add(f)
    for h in hyps:
        add(h)
    if goal is not None:
        add(Not(goal))
    unf = set()
    axin = set()
    for rnd in range(fuel + 6):
        changed = False
        while sc.newsyms:
            n = sc.newsyms.pop()
            for f in SYMAX.get(n, ()):
                add(f)
                changed = True
        for k, (names, f) in enumerate(AXIOMS):
            if k not in axin and names & sc.names:
                axin.add(k)
                add(f)
                changed = True
        if rnd < fuel:
            todo, sc.recs = sc.recs, []
            for t in todo:
                if t.get_id() in unf:
                    continue
                unf.add(t.get_id())
                fu = _unf.get(t.get_id())
                if fu is None:
                    fu = _unf[t.get_id()] = (t, RECDEFS[t.decl().name()](t))
                for f in fu[1]:
                    add(f)
                    changed = True
        if not changed and not sc.newsyms:
            break
    n = len(sc.lits)
    for f in literal_axioms(sc.lits.values(), sc.names):
        fs.append(f)
        sc.add(f)
    # literals introduced by evaluation
    if len(sc.lits) != n:
        fs.extend(literal_axioms(sc.lits.values(), sc.names))
    return fs


def sequents(goal, extra=()):
    """split a goal into (extra hypotheses, goal) pairs without outer quantifiers, conjunctions and implications"""
    extra = list(extra)
    if z3.is_quantifier(goal) and goal.is_forall():
        n = goal.num_vars()
        cs = [fresh("sk." + goal.var_name(i), goal.var_sort(i)) for i in range(n)]
        return sequents(z3.substitute_vars(goal.body(), *reversed(cs)), extra)
    if z3.is_and(goal):
        out = []
        for c in goal.children():
            out += sequents(c, extra)
        return out
    if z3.is_eq(goal) and goal.arg(0).sort() == B:
        a, b = goal.arg(0), goal.arg(1)
        sa, sb = z3.simplify(a), z3.simplify(b)
        if z3.is_true(sa) or z3.is_true(sb):
            return sequents(b if z3.is_true(sa) else a, extra)
        if z3.is_false(sa) or z3.is_false(sb):
            return sequents(z3.Not(b if z3.is_false(sa) else a), extra)
        return sequents(Implies(a, b), extra) + sequents(Implies(b, a), extra)
    if z3.is_not(goal) and z3.is_and(goal.arg(0)):
        return [(extra + list(goal.arg(0).children()), BoolVal(False))]
    if z3.is_implies(goal):
        h = goal.arg(0)
        if z3.is_quantifier(h) and h.is_exists():
            cs = [fresh("sk." + h.var_name(i), h.var_sort(i)) for i in range(h.num_vars())]
            h = z3.substitute_vars(h.body(), *reversed(cs))
        return sequents(goal.arg(1), extra + (list(h.children()) if z3.is_and(h) else [h]))
    return [(extra, goal)]


def skolem(goal):
    """equivalent for refutation: outer universal quantifiers become fresh constants"""
    if z3.is_quantifier(goal) or z3.is_and(goal) or z3.is_implies(goal):
        qs = sequents(goal)
        return And(*[Implies(And(*e), g) if e else g for e, g in qs])
    return goal


def check(hyps, goal, timeout=4000, fuel=2, want_model=False):
    """'proved' | 'refuted' (with model) | 'unknown'"""
    STATS["queries"] += 1
    t0 = time.time()
    if goal is not None:
        g = z3.simplify(goal)
        if z3.is_true(g):
            return "proved", None
        goal = skolem(goal)
    fs = build(hyps, goal, fuel)
    s = z3.SolverFor("ALL") if False else z3.Solver()
    s.set("smt.mbqi", False)
    limit(s, int(timeout * SCALE))
    if SEED:
        s.set("smt.random_seed", SEED)
    s.add(fs)
    r = s.check()
    STATS["time"] += time.time() - t0
    if r == z3.unsat:
        STATS["z3"] += 1
        return "proved", None
    m = None
    if want_model:
        try:
            m = s.model()
        except z3.Z3Exception:
            m = None
    return ("refuted" if r == z3.sat else "unknown"), m


FORKED = [False]


def limit(s, ms):
    """time limit of a solver. z3's timer threads do not survive a fork, so the process that forks the workers never uses them"""
    if FORKED[0]:
        s.set("timeout", ms)
    else:
        s.set("rlimit", 3000 * ms)


SCALE = 1       # factor on all time limits (retries)
SEED = 0


def external(hyps, goal, timeout=10):
    """a second attempt with fresh solver processes: z3 (command line) and cvc5, the first unsat wins"""
    timeout *= SCALE
    import os
    import subprocess
    import tempfile
    t0 = time.time()
    goal = skolem(goal)
    procs, files = [], []
    for fuel in (2, 3):
        s = z3.Solver()
        s.add(build(hyps, goal, fuel))
        q = s.to_smt2()
        for who, cmd, pre in (("z3", ["z3-new", "-smt2", "-T:%d" % timeout, "smt.mbqi=false"], ""),
                              ("cvc5", ["cvc5", "--lang=smt2", "--tlimit=%d" % (timeout * 1000)], "(set-logic ALL)\n")):
            fd, path = tempfile.mkstemp(suffix=".smt2")
            os.write(fd, (pre + q).encode())
            os.close(fd)
            files.append(path)
            procs.append((who, subprocess.Popen(cmd + [path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)))
    won = None
    live = list(procs)
    while live and won is None and time.time() - t0 < timeout + 3:
        for who, pr in list(live):
            if pr.poll() is not None:
                live.remove((who, pr))
                if pr.stdout.read().strip().startswith("unsat"):
                    won = who
                    break
        time.sleep(0.01)
    for who, pr in procs:
        if pr.poll() is None:
            pr.kill()
        pr.wait()
        pr.stdout.close()
    for f in files:
        os.unlink(f)
    STATS["time"] += time.time() - t0
    if won:
        STATS[won] += 1
    return won


def check_many(hyps, goals, timeout=1500, fuel=2):
    """list of booleans: goal proved (None goals count as not proved)"""
    res = [False] * len(goals)
    todo = []
    hs = {h.get_id() for h in hyps}
    for n, g in enumerate(goals):
        if g is None:
            continue
        g = z3.simplify(g) if not z3.is_quantifier(g) else g
        if z3.is_true(g) or g.get_id() in hs:
            res[n] = True
            continue
        todo.append((n, skolem(g)))
    if not todo:
        return res
    t0 = time.time()
    hyps = relevant(hyps, And(*[g for _, g in todo]))
    fs = build(hyps, Not(And(*[g for _, g in todo])), fuel)
    # the scan needed the goals, the assertion must not contain them
    fs = [f for k, f in enumerate(fs) if k != len(hyps)]
    s = z3.Solver()
    s.set("smt.mbqi", False)
    limit(s, int(timeout * SCALE))
    if SEED:
        s.set("smt.random_seed", SEED)
    s.add(fs)
    for n, g in todo:
        STATS["queries"] += 1
        s.push()
        s.add(Not(g))
        res[n] = s.check() == z3.unsat
        s.pop()
    STATS["time"] += time.time() - t0
    return res


_feas = {}


def feasible(hyps, timeout=300, quick=False):
    """False only if the path cannot happen"""
    if any(z3.is_false(h) for h in hyps):
        return False
    if not quick:
        r, _ = check(hyps, BoolVal(False), timeout=timeout, fuel=1)
        return r != "proved"
    # without quantifiers
    STATS["queries"] += 1
    t0 = time.time()
    sc = Scan()
    s = z3.Solver()
    limit(s, 200)
    for h in hyps:
        if h.get_id() in INVS or has_var(h):
            continue
        s.add(h)
        sc.add(h)
    s.add(literal_axioms(sc.lits.values(), sc.names - {"pjoin", "hasprefix", "isclean", "pclean", "contains", "strlt"}))
    r = s.check()
    STATS["time"] += time.time() - t0
    return r != z3.unsat


def has_quant(t):
    st, seen = [t], set()
    while st:
        x = st.pop()
        if z3.is_quantifier(x):
            return True
        if x.get_id() not in seen:
            seen.add(x.get_id())
            st += x.children()
    return False
