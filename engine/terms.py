"""Term helpers on top of z3: concrete integers stay Python ints."""
import z3

BV64 = z3.BitVecSort(64)
BOOL = z3.BoolSort()
_bvsorts = {}


def bvsort(w):
    s = _bvsorts.get(w)
    if s is None:
        s = _bvsorts[w] = z3.BitVecSort(w)
    return s


def is_sym(x):
    return isinstance(x, z3.ExprRef)


class Fresh:
    """global fresh-name counter; symbols carry their creation stamp"""
    n = 0
    stamp = {}     # name -> stamp

    @classmethod
    def name(cls, base):
        cls.n += 1
        nm = "%s!%d" % (base, cls.n)
        cls.stamp[nm] = cls.n
        return nm


def fresh(base, sort):
    return z3.Const(Fresh.name(base), sort)


def fresh_bv(base, w):
    return z3.Const(Fresh.name(base), bvsort(w))


def fresh_bool(base):
    return z3.Const(Fresh.name(base), BOOL)


def mask(w):
    return (1 << w) - 1


def bv(x, w):
    if isinstance(x, z3.BitVecRef):
        return x
    if isinstance(x, z3.BoolRef):
        return z3.If(x, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    if isinstance(x, bool):
        x = int(x)
    return z3.BitVecVal(x, w)


def boolv(x):
    if isinstance(x, z3.BoolRef):
        return x
    if isinstance(x, z3.BitVecRef):
        return x != 0
    return z3.BoolVal(bool(x))


def sint(x, w):
    x &= mask(w)
    return x - (1 << w) if x >> (w - 1) else x


def simp(e):
    """simplify; fold numerals to Python values"""
    if not isinstance(e, z3.ExprRef):
        return e
    e = z3.simplify(e)
    return fold(e)


def fold(e):
    if z3.is_bv_value(e):
        return e.as_long()
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return e


def as_num(e):
    if isinstance(e, bool):
        return int(e)
    if isinstance(e, int):
        return e
    if z3.is_bv_value(e):
        return e.as_long()
    return None


# definitions of array symbols: name -> fn(list_of_args, index) -> term
ARRDEF = {}


def arr_sort(dims, w):
    s = bvsort(w)
    for _ in range(dims):
        s = z3.ArraySort(BV64, s)
    return s


def is_arr(x):
    """z3 array term, lambdas included"""
    return z3.is_array(x) or (z3.is_quantifier(x) and x.is_lambda())


def eqi(a, b):
    """cheap syntactic (dis)equality of two BV64 indices: True/False/None"""
    na, nb = as_num(a), as_num(b)
    if na is not None and nb is not None:
        return na == nb
    if is_sym(a) and is_sym(b) and a.eq(b):
        return True
    r = z3.simplify(bv(a, 64) == bv(b, 64))
    if z3.is_true(r):
        return True
    if z3.is_false(r):
        return False
    d = z3.simplify(bv(a, 64) - bv(b, 64))
    if z3.is_bv_value(d):
        return d.as_long() == 0
    return None


def sel(A, i, depth=0):
    """read A[i] with read-over-write and definition unfolding"""
    if z3.is_quantifier(A):
        return z3.simplify(z3.substitute_vars(A.body(), bv(i, 64)))
    k = A.decl().kind()
    if k == z3.Z3_OP_STORE:
        base, j, v = A.children()
        e = eqi(i, j)
        if e is True:
            return v
        if e is False:
            return sel(base, i, depth)
        if depth < 12:
            return z3.If(bv(i, 64) == j, v, sel(base, i, depth + 1))
        return z3.Select(A, bv(i, 64))
    if k == z3.Z3_OP_CONST_ARRAY:
        return A.children()[0]
    if k == z3.Z3_OP_ITE:
        c, a, b = A.children()
        x, y = sel(a, i, depth), sel(b, i, depth)
        if x.eq(y):
            return x
        return z3.If(c, x, y)
    if k == z3.Z3_OP_UNINTERPRETED:
        d = ARRDEF.get(A.decl().name())
        if d is not None:
            return d(A.children(), bv(i, 64))
        return z3.Select(A, bv(i, 64))
    if k == z3.Z3_OP_SELECT:
        M, idx = A.children()
        inner = sel(M, idx, depth)
        if z3.is_app(inner) and inner.decl().kind() == z3.Z3_OP_SELECT and inner.eq(A):
            return z3.Select(A, bv(i, 64))
        return sel(inner, i, depth)
    return z3.Select(A, bv(i, 64))


def sel_chain(A, idxs):
    for i in idxs:
        A = sel(A, i)
    return A


def store_chain(A, idxs, v):
    if not idxs:
        return v
    if len(idxs) == 1:
        i = bv(idxs[0], 64)
        # collapse a store to the same index
        if z3.is_store(A):
            base, j, old = A.children()
            if eqi(i, j) is True:
                A = base
        return z3.Store(A, i, v)
    inner = sel(A, idxs[0])
    return store_chain(A, idxs[:1], store_chain(inner, idxs[1:], v))


def consts_of(e, acc=None, seen=None):
    """uninterpreted constants and functions occurring in e: dict name->decl"""
    if acc is None:
        acc = {}
    st = [e]
    seen = set() if seen is None else seen
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                acc[d.name()] = d
            st.extend(x.children())
    return acc


_quant_cache = {}


def has_quant(e):
    st = [e]
    seen = set()
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x) and not x.is_lambda():
            return True
        st.extend(x.children())
    return False


def subst_syms(e, cmap, fmap):
    """substitute constants (cmap: list of (const, term)) and functions (fmap: list of (decl, body with Vars))"""
    if cmap:
        e = z3.substitute(e, *cmap)
    if fmap:
        e = z3.substitute_funs(e, *fmap)
    return e


_HARD = {z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I, z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BSREM, z3.Z3_OP_BSREM_I, z3.Z3_OP_BSDIV,
         z3.Z3_OP_BSDIV_I, z3.Z3_OP_BMUL}
_hard_cache = {}


def _is_hard(x):
    k = x.decl().kind()
    if k not in _HARD or x.size() < 32:
        return False
    if k == z3.Z3_OP_BMUL:
        return sum(1 for c in x.children() if not z3.is_bv_value(c)) > 1
    return not (z3.is_bv_value(x.arg(1)) and (x.arg(1).as_long() & (x.arg(1).as_long() - 1)) == 0)


def opaque(e):
    """e with wide divisions, remainders and products as uninterpreted functions (weaker, so still sound for proofs)"""
    r = _hard_cache.get(e.get_id())
    if r is not None:
        return r[0]
    hard, seen, st = [], set(), [(e, False)]
    while st:                         # post-order: inner terms first
        x, done = st.pop()
        if done:
            if z3.is_app(x) and z3.is_bv(x) and _is_hard(x):
                hard.append(x)
            continue
        if x.get_id() in seen or z3.is_quantifier(x):
            continue
        seen.add(x.get_id())
        st.append((x, True))
        st.extend((c, False) for c in x.children())
    out = e
    if hard:
        subst = []
        for x in hard:
            a = [z3.substitute(c, *subst) if subst else c for c in x.children()]
            f = z3.Function("%s_%d_%d" % (x.decl().name(), x.size(), len(a)), *([c.sort() for c in a] + [x.sort()]))
            subst.append((x, f(*a)))
        out = z3.substitute(e, *reversed(subst))
    _hard_cache[e.get_id()] = (out, e)
    return out


def lift64(v, d=0):
    """a 64-bit term congruent to the 32-bit term v modulo 2^32, keeping sums and products"""
    k = v.decl().kind()
    if z3.is_bv_value(v):
        x = v.as_long()
        return z3.BitVecVal(x - (1 << v.size()) if x >> (v.size() - 1) else x, 64)
    if d < 6 and k == z3.Z3_OP_EXTRACT and v.params() == [v.size() - 1, 0] and v.arg(0).size() == 64:
        return v.arg(0)
    if d < 6 and k in (z3.Z3_OP_BADD, z3.Z3_OP_BMUL):
        l = [lift64(c, d + 1) for c in v.children()]
        r = l[0]
        for x in l[1:]:
            r = r + x if k == z3.Z3_OP_BADD else r * x
        return r
    return z3.ZeroExt(64 - v.size(), v)
