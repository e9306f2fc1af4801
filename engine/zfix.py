"""ForAll that drops patterns z3 would reject (interpreted symbols inside)"""
import z3

_forall = z3.ForAll
BAD = (z3.Z3_OP_ITE, z3.Z3_OP_EQ, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_IMPLIES)


def ok(p):
    if isinstance(p, z3.PatternRef):
        st = [z3.z3._to_expr_ref(z3.Z3_get_pattern(p.ctx.ref(), p.ast, i), p.ctx) for i in range(z3.Z3_get_pattern_num_terms(p.ctx.ref(), p.ast))]
    else:
        st = [p]
    seen = set()
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t) or z3.is_app(t) and t.decl().kind() in BAD:
            return False
        st.extend(t.children())
    return True


def ForAll(vs, body, weight=1, qid="", skid="", patterns=[], no_patterns=[]):
    return _forall(vs, body, weight, qid, skid, [p for p in patterns if ok(p)], no_patterns)


z3.ForAll = ForAll
