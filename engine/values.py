"""Run-time values of the symbolic executor and the mapping from Go types to logic sorts."""
import z3
from z3 import IntVal, BoolVal, RealVal
import terms as T
from terms import I, B, R, Str, AnyS, ANil, seqth


class Unsupported(Exception):
    pass


class SliceV:
    __slots__ = ("ref", "off", "len", "et")

    def __init__(self, ref, off, ln, et):
        self.ref, self.off, self.len, self.et = ref, off, ln, et

    def __repr__(self):
        return "Slice(%s,%s,%s)" % (self.ref, self.off, self.len)


class StructV:
    __slots__ = ("type", "vals")

    def __init__(self, t, vals):
        self.type, self.vals = t, vals


class TupleV:
    __slots__ = ("vals",)

    def __init__(self, vals):
        self.vals = vals

    def __repr__(self):
        return "Tuple" + repr(self.vals)


class FnV:
    """function value; id gives its identity when it is put in the heap"""
    __slots__ = ("name", "bindings")

    def __init__(self, name, bindings=()):
        self.name, self.bindings = name, list(bindings)

    def __repr__(self):
        return "FnV(%s)" % self.name


class CellLoc:
    __slots__ = ("id", "type")

    def __init__(self, i, t):
        self.id, self.type = i, t


class FieldLoc:
    __slots__ = ("ref", "key", "type")

    def __init__(self, ref, key, t):
        self.ref, self.key, self.type = ref, key, t


class ElemLoc:
    __slots__ = ("sl", "idx", "type")

    def __init__(self, sl, idx, t):
        self.sl, self.idx, self.type = sl, idx, t


class PartLoc:
    """field of a struct held in another location"""
    __slots__ = ("base", "idx", "type")

    def __init__(self, b, i, t):
        self.base, self.idx, self.type = b, i, t


class GlobalLoc:
    __slots__ = ("name", "type")

    def __init__(self, n, t):
        self.name, self.type = n, t


class OpaqueV:
    """value of an external struct type"""
    __slots__ = ("type", "term")

    def __init__(self, t, term):
        self.type, self.term = t, term


class IterV:
    """iterator over a map: key sequence, position cell, the map reference"""
    __slots__ = ("keys", "cell", "mref", "mt")

    def __init__(self, keys, cell, mref, mt):
        self.keys, self.cell, self.mref, self.mt = keys, cell, mref, mt


LOCS = (CellLoc, FieldLoc, ElemLoc, GlobalLoc, PartLoc)


def is_repo(s):
    return "github.com/mashmb/1pass/" in s


def is_time(t):
    return t.str == "time.Time"


def is_ext_struct(t):
    return t.under().kind == "struct" and not is_repo(t.str) and t.kind == "named"


def is_bytes(t):
    u = t.under()
    return u.kind == "slice" and u.elem.under().kind == "basic" and u.elem.under().d["name"] in ("uint8", "byte")


def sort_of(t):
    """sort of a scalar type, None for composite types"""
    if is_time(t):
        return R
    u = t.under()
    k = u.kind
    if k == "basic":
        c = u.d["class"]
        if c == "bool":
            return B
        if c == "int":
            return I
        if c == "float":
            return R
        if c == "string":
            return Str
        return I
    if k in ("pointer", "map", "func", "chan"):
        return I
    if k == "interface":
        return AnyS
    if k == "slice":
        return None
    if k == "struct":
        return I if is_ext_struct(t) else None
    if k == "array":
        return I
    raise Unsupported("type " + t.str)


def comps(t):
    """[(suffix, sort)]"""
    if t.under().kind == "slice":
        return [(".ref", I), (".off", I), (".len", I)]
    if t.under().kind == "struct" and not is_time(t) and not is_ext_struct(t):
        out = []
        for n, ft in t.fields:
            for s, so in comps(ft):
                out.append(("." + n + s, so))
        return out
    return [("", sort_of(t))]


def zero_of_sort(s):
    if s == I:
        return IntVal(0)
    if s == B:
        return BoolVal(False)
    if s == R:
        return RealVal(0)
    if s == Str:
        return T.EMPTY
    if s == AnyS:
        return ANil
    raise Unsupported("zero of " + str(s))


def from_comps(t, ts):
    """inverse of to_comps; consumes from list ts"""
    if t.under().kind == "slice":
        r, o, l = ts.pop(0), ts.pop(0), ts.pop(0)
        return SliceV(r, o, l, t.elem)
    if t.under().kind == "struct" and not is_time(t) and not is_ext_struct(t):
        return StructV(t, [from_comps(ft, ts) for _, ft in t.fields])
    return ts.pop(0)


def zero(t):
    return from_comps(t, [zero_of_sort(s) for _, s in comps(t)])


_recs = {}


def psort(t):
    """sort of a value of any type as one term: composite values are packed in a record"""
    s = sort_of(t)
    if s is not None:
        return s
    if t.str not in _recs:
        d = z3.Datatype("Rec!" + t.str)
        d.declare("mk!" + t.str, *[("get!%s!%s" % (t.str, c), so) for c, so in comps(t)])
        _recs[t.str] = d.create()
    return _recs[t.str]


def pack(v, t):
    cs = to_comps(v, t)
    return cs[0] if sort_of(t) is not None else psort(t).constructor(0)(*cs)


def unpack(x, t):
    if sort_of(t) is not None:
        return x
    d = psort(t)
    if z3.is_app(x) and x.decl().eq(d.constructor(0)):
        return from_comps(t, list(x.children()))
    return from_comps(t, [d.accessor(0, i)(x) for i in range(len(comps(t)))])


def pzero(t):
    return pack(zero(t), t)


_fnids = {}
_fnbyid = {}
FN_BASE = 1000000


def fn_id(f):
    """numeral that stands for a function value in the heap"""
    k = (f.name,) + tuple(repr(b) for b in f.bindings)
    if k not in _fnids:
        n = FN_BASE + len(_fnids)
        _fnids[k] = n
        _fnbyid[n] = f
    return IntVal(_fnids[k])


def fn_of(term):
    if isinstance(term, FnV):
        return term
    t = z3.simplify(term)
    if z3.is_int_value(t):
        return _fnbyid.get(t.as_long())
    return None


_boxes = []
BOXTAG = 999


def box(v):
    _boxes.append(v)
    return AnyS.AOth(IntVal(BOXTAG), IntVal(len(_boxes) - 1))


def unbox(a):
    """python value behind a boxed Any, or None"""
    if z3.is_app(a) and a.decl().eq(AnyS.AOth) and z3.is_int_value(a.arg(0)) and a.arg(0).as_long() == BOXTAG:
        return _boxes[a.arg(1).as_long()]
    return None


def to_comps(v, t):
    if isinstance(v, SliceV):
        return [v.ref, v.off, v.len]
    if isinstance(v, StructV):
        out = []
        for x, (_, ft) in zip(v.vals, v.type.fields):
            out += to_comps(x, ft)
        return out
    if isinstance(v, FnV):
        return [fn_id(v)]
    if isinstance(v, OpaqueV):
        return [v.term]
    if isinstance(v, LOCS) or isinstance(v, IterV):
        raise Unsupported("address of a variable stored in the heap")
    return [v]


def same_comps(a, b):
    return len(a) == len(b) and all(x.eq(y) for x, y in zip(a, b))
