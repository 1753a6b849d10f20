"""Trusted contracts of the standard containers (sequence semantics)."""
import re
import z3
import ir
from ir import Unsupported, sizeof, strip
from terms import *
from mem import *
from exec import conc, MAXSZ, BadPtr, ForkVal
from interp import NOMODEL, FatalUnsupported, conj, split_args, strip_targs
from models_core import model, rx, M, RX, fill_range, Src, Same, Zero, copy_elems, cstr, shift


# ------------------------------------------------------------ sequence primitives
def noff(p):
    return (p.o, "n")


def get_size(ex, st, p):
    if not isinstance(p, Ptr):
        raise BadPtr("container at %r" % (p,))
    r = st.reg(p.r)
    t = r.get(p.k, noff(p), 64)
    v = sel_chain(t, p.i) if p.i else t
    if isinstance(v, z3.ExprRef):
        v = simp(v)
    if isinstance(v, z3.ExprRef):
        kind = v.decl().kind()
        if kind in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT):
            key = ("sz", v.get_id())
            if key not in st.tags:
                st.tags[key] = v
                st.pc.append(z3.ULE(v, MAXSZ))
    return v


def set_size(ex, st, p, n):
    r = st.wreg(p.r)
    o = noff(p)
    if not p.i:
        r.leaves.setdefault(p.k, {})[o] = (64, n)
    else:
        t = r.get(p.k, o, 64)
        r.leaves[p.k][o] = (64, store_chain(t, p.i, bv(n, 64)))


def elem(ex, st, p, i, es):
    key = p.k + (p.o,)
    r = st.reg(p.r)
    if key not in r.es:
        st.wreg(p.r).es[key] = (es, None)
    return Ptr(p.r, key, p.i + (i,), 0)


def base_ptr(ex, st, p, es):
    e = elem(ex, st, p, 0, es)
    return Ptr(e.r, e.k, e.i[:-1], 0)


def clear(ex, st, p, es):
    """empty the container; forget its elements"""
    key = p.k + (p.o,)
    if not p.i:
        r = st.wreg(p.r)
        r.drop(p.k + (), p.o, p.o) if False else None
        for k in [k for k in r.leaves if k[:len(key)] == key]:
            del r.leaves[k]
        r.log = tuple(e for e in r.log if not (e[1][:len(key)] == key))
        r.es[key] = (es, None)
        r.log = r.log + (("abs", key, -INF, INF, zero_materialiser),)
    set_size(ex, st, p, 0)


def inb(ex, st, i, n, what):
    """index in bounds obligation"""
    c = simp(z3.ULT(bv(i, 64), bv(n, 64)))
    if conc(c):
        if not c:
            if ex.path_dead(st):
                return False
            ex.oblige(st, False, what, "safety")
            return False
        return True
    ex.oblige(st, c, what, "safety")
    st.assume(c)
    return True


SIMPLE = re.compile(r"^(unsigned |signed )?(char|short|int|long|long long|bool|__int128)$|^absl::u?int128$|^double$|^float$|^u?int\d+_t$")


def value_init_zero(ex, tname):
    t = tname.strip()
    if SIMPLE.match(t):
        return True
    return bool(re.match(r"^(std::(vector|string|basic_string|optional|basic_string_view|unique_ptr|shared_ptr|tuple|pair|array)|absl::(InlinedVector|string_view|optional|uint128|int128|FixedArray)|std::__cxx11|distributed_point_functions::(\w+::)*(IntModN|XorWrapper|Tuple|\w*Impl)|.*\*$|hwy::\w+)", t))


# ------------------------------------------------------------ element types
def elem_info(ex, c):
    """(element size, element type name) of the container class of the called method"""
    k = ("ei", c.name)
    r = ex.namecache.get(k)
    if r is not None:
        return r
    es = None
    nm = ""
    fn = ex.resolve(c.name)
    if fn is not None:
        fn.parse()
        cl = ex.di.class_of(fn.dbg)
        tp = ex.di.template_params(cl) if cl else []
        if not tp:
            # base class or alias
            n = ex.di.node(cl) if cl else None
        if tp and isinstance(tp[0], str):
            es = ex.di.size(tp[0])
            nm = ex.di.name(tp[0])
            nd = ex.di.node(ex.di.strip_type(tp[0]))
            if nd and nd[0] == "DIDerivedType":
                es, nm = 8, "ptr*"
    if es is None:
        cls = c.qual.rsplit("::", 1)[0]
        m = re.search(r"<(.*)>$", cls)
        if m:
            from di import split_top
            t0 = split_t(m.group(1))[0]
            nm = t0
            es = type_size(ex, t0)
    r = (es, nm)
    ex.namecache[k] = r
    return r


def split_t(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch in "<(":
            d += 1
        elif ch in ">)":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    out.append(cur.strip())
    return out


BASIC = {"char": 1, "signed char": 1, "unsigned char": 1, "bool": 1, "short": 2, "unsigned short": 2, "int": 4,
         "unsigned int": 4, "long": 8, "unsigned long": 8, "long long": 8, "unsigned long long": 8,
         "absl::uint128": 16, "unsigned __int128": 16, "__int128": 16, "double": 8, "float": 4,
         "std::string": 32, "absl::string_view": 16, "std::string_view": 16,
         "std::basic_string_view<char, std::char_traits<char> >": 16}


def type_size(ex, t):
    t = t.replace(" const", "").strip()
    if t.endswith("*"):
        return 8
    if t in BASIC:
        return BASIC[t]
    if t.startswith("std::basic_string<"):
        return 32
    if t.startswith("std::vector<bool"):
        return 40
    if t.startswith("std::vector<"):
        return 24
    if t.startswith("std::unique_ptr<"):
        return 8
    if t.startswith("absl::AnyInvocable<"):
        for n in ex.mod.types:
            if n.startswith("class.absl::") and "::AnyInvocable" in n:
                return sizeof(ex.mod.types[n])
    for pre in ("class.", "struct."):
        for cand in (pre + t,):
            if cand in ex.mod.types:
                try:
                    return sizeof(ex.mod.types[cand])
                except Unsupported:
                    pass
    ref = ex.di.find(t)
    return ex.di.size(ref) if ref else None


def lay_of(ex, c):
    """leaf layout of the element type, or None"""
    k = ("lay", c.name)
    if k in ex.namecache:
        return ex.namecache[k]
    r = None
    fn = ex.resolve(c.name)
    if fn is not None:
        fn.parse()
        cl = ex.di.class_of(fn.dbg)
        tp = ex.di.template_params(cl) if cl else []
        if tp and isinstance(tp[0], str):
            r = ex.di.layout(tp[0])
    if r is None:
        m = re.search(r"<(.*)>$", c.qual.rsplit("::", 1)[0])
        ref = ex.di.find(split_t(m.group(1))[0]) if m else None
        r = ex.di.layout(ref) if ref else None
    ex.namecache[k] = r
    return r


def es_of(ex, c):
    es, nm = elem_info(ex, c)
    if es is None:
        raise Unsupported("element size of " + c.dem[:120])
    return es


# ------------------------------------------------------------ std::vector / InlinedVector
VEC = ("std::vector", "absl::InlinedVector")


def seqm(names, classes=VEC):
    def d(f):
        for cl in classes:
            for n in names.split():
                M[cl + "::" + n] = f
        return f
    return d


def is_vbool(c):
    return c.qual.startswith("std::vector<bool")


@seqm("size")
def v_size(ex, st, c):
    return [(st, get_size(ex, st, c.args[0]))]


@seqm("empty")
def v_empty(ex, st, c):
    return [(st, simp(bv(get_size(ex, st, c.args[0]), 64) == 0))]


@seqm("capacity max_size")
def v_cap(ex, st, c):
    return NOMODEL


@seqm("reserve shrink_to_fit")
def v_reserve(ex, st, c):
    return [(st, None)]


@seqm("operator[]")
def v_index(ex, st, c):
    if is_vbool(c):
        return vb_index(ex, st, c)
    es = es_of(ex, c)
    p, i = c.args
    n = get_size(ex, st, p)
    if not inb(ex, st, i, n, "index within the sequence"):
        return []
    return [(st, elem(ex, st, p, i if not conc(i) else int(i), es))]


@seqm("at")
def v_at(ex, st, c):
    return v_index(ex, st, c)


@seqm("front")
def v_front(ex, st, c):
    es = es_of(ex, c)
    if not inb(ex, st, 0, get_size(ex, st, c.args[0]), "front of a non-empty sequence"):
        return []
    return [(st, elem(ex, st, c.args[0], 0, es))]


@seqm("back")
def v_back(ex, st, c):
    es = es_of(ex, c)
    n = get_size(ex, st, c.args[0])
    if not inb(ex, st, 0, n, "back of a non-empty sequence"):
        return []
    return [(st, elem(ex, st, c.args[0], ex.iadd(n, mask(64)), es))]


@seqm("data begin cbegin")
def v_begin(ex, st, c):
    if is_vbool(c):
        return vb_iter(ex, st, c, 0)
    es = es_of(ex, c)
    return [(st, elem(ex, st, c.args[-1] if c.attrs and "sret" in (c.attrs[0] or {}) else c.args[0], 0, es))]


@seqm("end cend")
def v_end(ex, st, c):
    if is_vbool(c):
        return vb_iter(ex, st, c, None)
    es = es_of(ex, c)
    return [(st, elem(ex, st, c.args[0], get_size(ex, st, c.args[0]), es))]


@seqm("clear")
def v_clear(ex, st, c):
    clear(ex, st, c.args[0], 1 if is_vbool(c) else es_of(ex, c))
    return [(st, None)]


@seqm("pop_back")
def v_pop(ex, st, c):
    p = c.args[0]
    n = get_size(ex, st, p)
    if not inb(ex, st, 0, n, "pop_back of a non-empty sequence"):
        return []
    set_size(ex, st, p, ex.iadd(n, mask(64)))
    return [(st, None)]


def find_construct(ex, c):
    """the allocator_traits construct function called from an emplace_back body"""
    k = ("cons", c.name)
    r = ex.namecache.get(k)
    if r is not None:
        return r
    seen = set()
    todo = [c.name]
    while todo:
        f = todo.pop(0)
        if f in seen:
            continue
        seen.add(f)
        fn = ex.resolve(f)
        if fn is None:
            continue
        fn.parse()
        for b in fn.blocks.values():
            for i in b.insts:
                if i.op == "call" and i.x[0][0] == "glob":
                    d = ex.mod.dem.get(i.x[0][1], "")
                    if "allocator_traits" in d and "::construct<" in d:
                        ex.namecache[k] = (i.x[0][1], True)
                        return ex.namecache[k]
                    if "std::construct_at<" in d or "AllocatorTraits" in d and "construct" in d:
                        todo.append(i.x[0][1])
                    elif "push_back" in d or "emplace_back" in d or "EmplaceBack" in d or "_M_realloc" in d or "_M_insert" in d:
                        todo.append(i.x[0][1])
    raise Unsupported("constructor used by " + c.dem[:100])


@seqm("push_back")
def v_push(ex, st, c):
    p = c.args[0]
    if is_vbool(c):
        v = c.args[1]
        n = get_size(ex, st, p)
        e = elem(ex, st, p, n, 1)
        ex.store_int(st, e, 8, bool8(v))
        set_size(ex, st, p, ex.iadd(n, 1))
        return [(st, None)]
    es = es_of(ex, c)
    n = get_size(ex, st, p)
    dst = elem(ex, st, p, n, es)
    ex.copy_tree(st, dst, c.args[1], es, lay_of(ex, c))
    if c.params.endswith("&&"):
        moved_from(ex, st, c, c.args[1], es)
    set_size(ex, st, p, ex.iadd(n, 1))
    return [(st, None)]


def moved_from(ex, st, c, p, es):
    pass


def bool8(v):
    if conc(v):
        return int(v)
    return bv(boolv(v), 8)


@seqm("emplace_back")
def v_emplace(ex, st, c):
    p = c.args[0]
    if is_vbool(c):
        v = ex.load_int(st, c.args[1], 8) if len(c.args) > 1 else 0
        n = get_size(ex, st, p)
        e = elem(ex, st, p, n, 1)
        ex.store_int(st, e, 8, v)
        set_size(ex, st, p, ex.iadd(n, 1))
        return [(st, None)]
    es, nm = elem_info(ex, c)
    if es is None:
        raise Unsupported("element size")
    n = get_size(ex, st, p)
    # construct in a temporary, then place it
    f, _ = find_construct(ex, c)
    t = ex.new_region(st, "stack", "emplace")
    alloc = ex.new_region(st, "stack", "alloc")
    res = []
    for s, _v in ex.call(st, f, [alloc, t] + c.args[1:]):
        n = get_size(ex, s, p)
        dst = elem(ex, s, p, n, es)
        ex.copy_tree(s, dst, t, es, lay_of(ex, c))
        set_size(ex, s, p, ex.iadd(n, 1))
        s.regs_.pop(t.r, None)
        s.regs_.pop(alloc.r, None)
        res.append((s, dst))
    return res


@seqm("resize")
def v_resize(ex, st, c):
    p, n = c.args[0], c.args[1]
    if is_vbool(c):
        es, nm = 1, "bool"
    else:
        es, nm = elem_info(ex, c)
    src = None
    if len(c.args) > 2:
        if is_vbool(c):
            t = ex.new_region(st, "stack", "bv")
            ex.store_int(st, t, 8, bool8(c.args[2]))
            src = Same(ex, st, t, 1)
        else:
            src = Same(ex, st, c.args[2], es)
    elif not value_init_zero(ex, nm):
        raise Unsupported("resize of " + nm)
    grow(ex, st, p, n, es, src or Zero())
    return [(st, None)]


def grow(ex, st, p, n, es, src):
    old = get_size(ex, st, p)
    if conc(old) and int(old) == 0:
        clear(ex, st, p, es)
        if not isinstance(src, Zero):
            fill_range(ex, st, base_ptr(ex, st, p, es), 0, n, src, es)
        set_size(ex, st, p, n)
        return
    # elements [old, n) become src when n > old
    lt = simp(z3.ULT(bv(old, 64), bv(n, 64)))
    cnt = ex.ite(lt, simp(bv(n, 64) - bv(old, 64)), 0, 64)
    if not (conc(cnt) and int(cnt) == 0):
        fill_range(ex, st, base_ptr(ex, st, p, es), old, cnt, src, es)
    set_size(ex, st, p, n)


def vb_index(ex, st, c):
    p, i = c.args[-2], c.args[-1]
    n = get_size(ex, st, p)
    if not inb(ex, st, i, n, "index within the sequence"):
        return []
    e = elem(ex, st, p, i, 1)
    if "const" in c.tail:
        v = ex.load_int(st, e, 8)
        return [(st, simp(bv(v, 8) != 0))]
    return [(st, (e, 1))]       # _Bit_reference {ptr, mask}


def vb_iter(ex, st, c, where):
    p = c.args[-1]
    n = 0 if where == 0 else get_size(ex, st, p)
    e = elem(ex, st, p, n, 1)
    if c.attrs and "sret" in (c.attrs[0] or {}):
        q = c.args[0]
        ex.store_ptr(st, q, e)
        ex.store_int(st, ex.padd(st, q, 8), 32, 0)
        return [(st, None)]
    return [(st, (e, 0))]


@model("std::_Bit_reference::operator bool")
def br_bool(ex, st, c):
    e = ex.load_ptr(st, c.args[0])
    return [(st, simp(bv(ex.load_int(st, e, 8), 8) != 0))]


@model("std::_Bit_reference::operator=")
def br_assign(ex, st, c):
    e = ex.load_ptr(st, c.args[0])
    if c.params.startswith("bool"):
        v = c.args[1]
    else:
        q = ex.load_ptr(st, c.args[1])
        v = simp(bv(ex.load_int(st, q, 8), 8) != 0)
    ex.store_int(st, e, 8, bool8(v))
    return [(st, c.args[0])]


@rx(r"^std::operator(==|!=|<|-)\(std::_Bit_iterator_base const&")
def bit_cmp(ex, st, c):
    a = ex.load_ptr(st, c.args[0])
    b = ex.load_ptr(st, c.args[1])
    op = re.search(r"operator(==|!=|<|-)", c.dem).group(1)
    if op == "-":
        return [(st, ex.ptr_diff(st, a, b))]
    return [(st, ex.pcmp(st, {"==": "eq", "!=": "ne", "<": "ult"}[op], a, b))]


@rx(r"^std::_Bit_(const_)?iterator(_base)?::(operator\+\+|_M_bump_up|operator\*|operator\+=|operator\[\]|operator\+|operator-|_M_bump_down|operator--)\(")
def bit_it(ex, st, c):
    m = re.match(r"^std::_Bit_(const_)?iterator(?:_base)?::(operator\S+|_M_bump_up|_M_bump_down)\(", c.dem)
    op = c.key.rsplit("::", 1)[1]
    this = c.args[0]
    if op in ("operator++", "_M_bump_up", "operator--", "_M_bump_down") and len(c.args) == 1:
        e = ex.load_ptr(st, this)
        ex.store_ptr(st, this, ex.padd(st, e, 1 if "++" in op or "up" in op else -1))
        return [(st, this if "operator" in op else None)]
    if op == "operator+=":
        e = ex.load_ptr(st, this)
        ex.store_ptr(st, this, ex.pindex(st, e, c.args[1], 1))
        return [(st, this)]
    if op == "operator*":
        e = ex.load_ptr(st, this)
        if "const_iterator" in c.key:
            return [(st, simp(bv(ex.load_int(st, e, 8), 8) != 0))]
        return [(st, (e, 1))]
    return NOMODEL


def is_iter_pair(ex, st, c):
    return len(c.args) >= 3 and isinstance(c.args[1], Ptr) and isinstance(c.args[2], Ptr) and \
        c.args[1].r == c.args[2].r and c.args[1].k == c.args[2].k


@seqm("vector InlinedVector")
def v_ctor(ex, st, c):
    p = c.args[0]
    vb = is_vbool(c)
    es, nm = (1, "bool") if vb else elem_info(ex, c)
    if es is None:
        raise Unsupported("element size of " + c.dem[:100])
    ps = split_t(c.params) if c.params else []
    cls = c.qual.rsplit("::", 1)[0]
    if c.params == "" or (len(ps) == 1 and "allocator" in ps[0] and "vector" not in ps[0] and "Inlined" not in ps[0]):
        clear(ex, st, p, es)
        return [(st, None)]
    first = ps[0]
    if first.startswith("std::initializer_list"):
        data, n = c.args[1], c.args[2]
        return from_range(ex, st, c, p, data, n, es, nm)
    if (first.startswith("std::vector") or first.startswith("absl::InlinedVector")) and first.rstrip("&").rstrip().rstrip(" const") and "iterator" not in first.split("<")[0]:
        size = 40 if vb else (24 if first.startswith("std::vector") else cls_size(ex, c))
        ex.copy_tree(st, p, c.args[1], size)
        if first.endswith("&&"):
            clear(ex, st, c.args[1], es)
        return [(st, None)]
    if first in ("unsigned long", "unsigned int", "int"):
        n = c.args[1]
        clear(ex, st, p, es)
        if len(c.args) > 2 and len(ps) > 1 and "allocator" not in ps[1]:
            if vb:
                t = ex.new_region(st, "stack", "bv")
                ex.store_int(st, t, 8, ex.load_int(st, c.args[2], 8) if isinstance(c.args[2], Ptr) else bool8(c.args[2]))
                src = Same(ex, st, t, 1)
            else:
                src = Same(ex, st, c.args[2], es)
            grow(ex, st, p, n, es, src)
        else:
            if not value_init_zero(ex, nm):
                raise Unsupported("vector(n) of " + nm)
            grow(ex, st, p, n, es, Zero())
        return [(st, None)]
    if len(c.args) >= 3 and "iterator" in first or first.endswith("*"):
        a, b = iter_val(ex, st, c.args[1]), iter_val(ex, st, c.args[2])
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.same_cell(b) and a.k and isinstance(a.k[-1], int) \
                and ex.es_of(st, a) == es:
            n = ex.unscale(ex.ptr_diff(st, b, a), es)
            return from_range(ex, st, c, p, a, n, es, nm)
        if (conc(a) or isinstance(a, Ptr)) and same(a, b):
            clear(ex, st, p, es)
            return [(st, None)]
        raise Unsupported("range construction " + c.dem[:160])
    raise Unsupported("constructor " + c.dem[:160])


def same(a, b):
    if conc(a) and conc(b):
        return int(a) == int(b)
    return isinstance(a, Ptr) and isinstance(b, Ptr) and a.r == b.r and a.k == b.k and a.o == b.o and \
        all(eqi(x, y) is True for x, y in zip(a.i, b.i))


def iter_val(ex, st, v):
    return v


def cls_size(ex, c):
    fn = ex.resolve(c.name)
    if fn is not None:
        fn.parse()
        cl = ex.di.class_of(fn.dbg)
        s = ex.di.size(cl)
        if s:
            return s
    raise Unsupported("class size " + c.dem[:100])


def from_range(ex, st, c, p, data, n, es, nm):
    clear(ex, st, p, es)
    append_range(ex, st, p, data, n, es)
    return [(st, None)]


def append_range(ex, st, p, data, n, es):
    old = get_size(ex, st, p)
    if conc(n) and int(n) == 0:
        return
    if isinstance(data, Ptr) and data.k and isinstance(data.k[-1], int) and ex.es_of(st, data) == es and data.o == 0:
        if conc(n) and int(n) <= 8:
            for k in range(int(n)):
                ex.copy_tree(st, elem(ex, st, p, ex.iadd(old, k), es), ex.padd(st, data, k * es), es)
        else:
            fill_range(ex, st, base_ptr(ex, st, p, es), old, n, Src(ex, st, data, es), es)
    elif conc(n) and int(n) <= 256:
        for k in range(int(n)):
            ex.copy_tree(st, elem(ex, st, p, ex.iadd(old, k), es), ex.padd(st, data, k * es), es)
    else:
        raise Unsupported("append of a range with another layout")
    set_size(ex, st, p, simp(bv(old, 64) + bv(n, 64)))


@seqm("operator=")
def v_assign(ex, st, c):
    p = c.args[0]
    vb = is_vbool(c)
    es = 1 if vb else es_of(ex, c)
    if c.params.startswith("std::initializer_list"):
        from_range(ex, st, c, p, c.args[1], c.args[2], es, "")
        return [(st, p)]
    if same(p, c.args[1]):
        return [(st, p)]
    size = 40 if vb else (24 if c.qual.startswith("std::vector") else cls_size(ex, c))
    ex.copy_tree(st, p, c.args[1], size)
    if c.params.endswith("&&"):
        clear(ex, st, c.args[1], es)
    return [(st, p)]


@seqm("swap")
def v_swap(ex, st, c):
    a, b = c.args[:2]
    if same(a, b):
        return [(st, None)]
    size = 24 if c.qual.startswith("std::vector") else cls_size(ex, c)
    t = ex.new_region(st, "stack", "swap")
    ex.copy_tree(st, t, a, size)
    ex.copy_tree(st, a, b, size)
    ex.copy_tree(st, b, t, size)
    return [(st, None)]


@seqm("assign")
def v_assign2(ex, st, c):
    p = c.args[0]
    es = es_of(ex, c)
    ps = split_t(c.params)
    if ps[0] == "unsigned long":
        src = Same(ex, st, c.args[2], es)
        clear(ex, st, p, es)
        grow(ex, st, p, c.args[1], es, src)
        return [(st, None)]
    a, b = c.args[1], c.args[2]
    if isinstance(a, Ptr) and ex.es_of(st, a) == es:
        n = ex.unscale(ex.ptr_diff(st, b, a), es)
        return from_range(ex, st, c, p, a, n, es, "")
    raise Unsupported("assign " + c.dem[:120])


@seqm("insert")
def v_insert(ex, st, c):
    p, pos = c.args[0], c.args[1]
    es = es_of(ex, c)
    ps = split_t(c.params)
    n = get_size(ex, st, p)
    end = elem(ex, st, p, n, es)
    at_end = isinstance(pos, Ptr) and pos.same_cell(end) and (
        eqi(pos.i[-1], end.i[-1]) is True or ex.decide(st, bv(pos.i[-1], 64) == bv(end.i[-1], 64)) is True)
    if not at_end:
        raise Unsupported("insert not at the end")
    if len(c.args) == 4:
        a, b = c.args[2], c.args[3]
        if isinstance(a, Ptr) and isinstance(b, Ptr) and ex.es_of(st, a) == es:
            cnt = ex.unscale(ex.ptr_diff(st, b, a), es)
            append_range(ex, st, p, a, cnt, es)
            return [(st, end)]
        if same(a, b):
            return [(st, end)]
    if len(c.args) == 3:
        ex.copy_tree(st, end, c.args[2], es)
        set_size(ex, st, p, ex.iadd(n, 1))
        return [(st, end)]
    raise Unsupported("insert " + c.dem[:120])


# ------------------------------------------------------------ std::string
STRC = ("std::string", "std::basic_string")


def strm(names):
    def d(f):
        for cl in STRC:
            for n in names.split():
                M[cl + "::" + n] = f
        return f
    return d


for _n in ("size", "length"):
    for _cl in STRC:
        M[_cl + "::" + _n] = v_size
strm("empty")(v_empty)
strm("reserve shrink_to_fit")(v_reserve)


@strm("data c_str begin cbegin")
def s_data(ex, st, c):
    return [(st, elem(ex, st, c.args[0], 0, 1))]


@strm("end cend")
def s_end(ex, st, c):
    return [(st, elem(ex, st, c.args[0], get_size(ex, st, c.args[0]), 1))]


@strm("operator[] at")
def s_index(ex, st, c):
    p, i = c.args
    n = get_size(ex, st, p)
    if not inb(ex, st, i, simp(bv(n, 64) + 1), "index within the string"):
        return []
    return [(st, elem(ex, st, p, i, 1))]


@strm("front")
def s_front(ex, st, c):
    if not inb(ex, st, 0, get_size(ex, st, c.args[0]), "front of a non-empty string"):
        return []
    return [(st, elem(ex, st, c.args[0], 0, 1))]


@strm("back")
def s_back(ex, st, c):
    n = get_size(ex, st, c.args[0])
    if not inb(ex, st, 0, n, "back of a non-empty string"):
        return []
    return [(st, elem(ex, st, c.args[0], ex.iadd(n, mask(64)), 1))]


@strm("clear")
def s_clear(ex, st, c):
    clear(ex, st, c.args[0], 1)
    return [(st, None)]


@strm("push_back")
def s_push(ex, st, c):
    p = c.args[0]
    n = get_size(ex, st, p)
    ex.store_int(st, elem(ex, st, p, n, 1), 8, c.args[1])
    set_size(ex, st, p, ex.iadd(n, 1))
    return [(st, None)]


@strm("resize")
def s_resize(ex, st, c):
    p, n = c.args[0], c.args[1]
    src = Zero()
    if len(c.args) > 2:
        t = ex.new_region(st, "stack", "ch")
        ex.store_int(st, t, 8, c.args[2])
        src = Same(ex, st, t, 1)
    grow(ex, st, p, n, 1, src)
    return [(st, None)]


def set_string(ex, st, p, data, n):
    clear(ex, st, p, 1)
    append_chars(ex, st, p, data, n)


def append_chars(ex, st, p, data, n):
    if conc(n) and int(n) == 0:
        return
    if isinstance(data, Ptr) and not (data.k and isinstance(data.k[-1], int) and ex.es_of(st, data) == 1):
        if conc(n) and int(n) <= 64:
            old = get_size(ex, st, p)
            vals = [ex.load_int(st, ex.padd(st, data, k), 8) for k in range(int(n))]
            for k, v in enumerate(vals):
                ex.store_int(st, elem(ex, st, p, ex.iadd(old, k), 1), 8, v)
            set_size(ex, st, p, ex.iadd(old, int(n)))
            return
    append_range(ex, st, p, data, n, 1)


@strm("string basic_string")
def s_ctor(ex, st, c):
    p = c.args[0]
    ps = split_t(c.params) if c.params else []
    if not ps or (len(ps) == 1 and "allocator" in ps[0] and "basic_string" not in ps[0] and "std::string" not in ps[0]):
        clear(ex, st, p, 1)
        return [(st, None)]
    f = ps[0]
    if f.startswith("std::string") and "view" not in f or f.startswith("std::basic_string<") :
        if len(ps) >= 2 and ps[1] == "unsigned long":
            raise Unsupported("string substr ctor")
        ex.copy_tree(st, p, c.args[1], 32)
        if f.endswith("&&"):
            clear(ex, st, c.args[1], 1)
        return [(st, None)]
    if f == "char const*":
        if len(ps) >= 2 and ps[1] == "unsigned long":
            set_string(ex, st, p, c.args[1], c.args[2])
        elif len(ps) >= 2 and ps[1] == "char const*":
            n = ex.ptr_diff(st, c.args[2], c.args[1])
            set_string(ex, st, p, c.args[1], n)
        else:
            b = cstr(ex, st, c.args[1])
            set_string(ex, st, p, c.args[1], len(b))
        return [(st, None)]
    if f == "unsigned long":
        clear(ex, st, p, 1)
        t = ex.new_region(st, "stack", "ch")
        ex.store_int(st, t, 8, c.args[2])
        grow(ex, st, p, c.args[1], 1, Same(ex, st, t, 1))
        return [(st, None)]
    if "string_view" in f:
        a = c.args[1]
        q = a
        n = ex.load_int(st, q, 64)
        d = ex.load_ptr(st, ex.padd(st, q, 8))
        set_string(ex, st, p, d, n)
        return [(st, None)]
    if "iterator" in f or f == "char*":
        n = ex.ptr_diff(st, c.args[2], c.args[1])
        set_string(ex, st, p, c.args[1], n)
        return [(st, None)]
    if f.startswith("std::initializer_list"):
        set_string(ex, st, p, c.args[1], c.args[2])
        return [(st, None)]
    return NOMODEL


@strm("operator= assign")
def s_assign(ex, st, c):
    p = c.args[0]
    ps = split_t(c.params)
    f = ps[0]
    if f == "char const*":
        n = c.args[2] if len(c.args) > 2 else len(cstr(ex, st, c.args[1]))
        set_string(ex, st, p, c.args[1], n)
        return [(st, p)]
    if f.startswith("std::string") and "view" not in f or f.startswith("std::basic_string<"):
        if not same(p, c.args[1]):
            ex.copy_tree(st, p, c.args[1], 32)
            if f.endswith("&&"):
                clear(ex, st, c.args[1], 1)
        return [(st, p)]
    if "string_view" in f:
        q = c.args[1]
        n = ex.load_int(st, q, 64)
        d = ex.load_ptr(st, ex.padd(st, q, 8))
        set_string(ex, st, p, d, n)
        return [(st, p)]
    return NOMODEL


@strm("append operator+=")
def s_append(ex, st, c):
    p = c.args[0]
    ps = split_t(c.params)
    f = ps[0]
    if f == "char const*":
        n = c.args[2] if len(c.args) > 2 else len(cstr(ex, st, c.args[1]))
        append_chars(ex, st, p, c.args[1], n)
        return [(st, p)]
    if f == "char":
        s_push(ex, st, c)
        return [(st, p)]
    if f == "unsigned long":
        t = ex.new_region(st, "stack", "ch")
        ex.store_int(st, t, 8, c.args[2])
        old = get_size(ex, st, p)
        grow(ex, st, p, simp(bv(old, 64) + bv(c.args[1], 64)), 1, Same(ex, st, t, 1))
        return [(st, p)]
    if f.startswith("std::string") and "view" not in f or f.startswith("std::basic_string<"):
        q = c.args[1]
        append_chars(ex, st, p, elem(ex, st, q, 0, 1), get_size(ex, st, q))
        return [(st, p)]
    if "string_view" in f:
        q = c.args[1]
        n = ex.load_int(st, q, 64)
        d = ex.load_ptr(st, ex.padd(st, q, 8))
        append_chars(ex, st, p, d, n)
        return [(st, p)]
    return NOMODEL


@strm("operator std::basic_string_view operator basic_string_view")
def s_sv(ex, st, c):
    p = c.args[0]
    return [(st, (get_size(ex, st, p), elem(ex, st, p, 0, 1)))]


@rx(r"^std::string::operator std::basic_string_view<")
def s_sv2(ex, st, c):
    return s_sv(ex, st, c)


@model("std::char_traits::length", "strlen")
def s_len(ex, st, c):
    return [(st, len(cstr(ex, st, c.args[0])))]


def seq_equal(ex, st, a, na, b, nb):
    """content equality of two byte ranges as a formula"""
    e = simp(bv(na, 64) == bv(nb, 64))
    if conc(e) and not e:
        return False
    if conc(na) and int(na) == 0:
        return e if not conc(e) else True
    if isinstance(a, Ptr) and isinstance(b, Ptr) and same(a, b):
        return e
    if conc(na) and int(na) <= 32:
        cs = [] if conc(e) else [e]
        for k in range(int(na)):
            x, y = ex.load_int(st, ex.padd(st, a, k), 8), ex.load_int(st, ex.padd(st, b, k), 8)
            q = simp(bv(x, 8) == bv(y, 8))
            if conc(q):
                if not q:
                    return False
            else:
                cs.append(q)
        return simp(z3.And(*cs)) if cs else True
    ra, rb = st.reg(a.r), st.reg(b.r)
    ta = sel_chain(ra.get(a.k, 0, 8), a.i[:-1])
    tb = sel_chain(rb.get(b.k, 0, 8), b.i[:-1])
    r = ex.fresh_bool("streq")
    ia, ib = bv(a.i[-1], 64), bv(b.i[-1], 64)
    if ta.eq(tb) and eqi(ia, ib) is True:
        return e
    j = z3.Const(Fresh.name("j"), BV64)
    same_ = z3.ForAll([j], z3.Implies(z3.ULT(j, bv(na, 64)), sel(ta, ia + j) == sel(tb, ib + j)))
    w = ex.fresh_bv("strdiff", 64)
    st.qf.append(z3.Implies(r, same_))
    st.pc.append(z3.Implies(r, bv_b(e)))
    st.pc.append(z3.Implies(z3.And(z3.Not(r), bv_b(e)),
                            z3.And(z3.ULT(w, bv(na, 64)), sel(ta, simpx(ia + w)) != sel(tb, simpx(ib + w)))))
    return r


def simpx(e):
    return z3.simplify(e)


def bv_b(e):
    return z3.BoolVal(bool(e)) if conc(e) else e
