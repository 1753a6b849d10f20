"""Trusted contracts of the C++ runtime and standard library functions that the
verified code calls (each use is counted and reported as an assumption)."""
import re
import z3
import ir
from ir import Unsupported, sizeof, strip
from terms import *
from mem import *
from exec import conc, MAXSZ, BadPtr, ForkVal
from interp import NOMODEL, FatalUnsupported, conj, split_args
import di as DImod

M = {}
RX = []


def model(*names):
    def d(f):
        for n in names:
            M[n] = f
        return f
    return d


def rx(pat):
    def d(f):
        RX.append((re.compile(pat), f))
        return f
    return d


def skip(ex, st, c):
    return [(st, None)]


def ret0(ex, st, c):
    return [(st, 0)]


def dead(ex, st, c):
    return []


def cstr(ex, st, p):
    """concrete C string at p"""
    out = bytearray()
    q = p
    for _ in range(4096):
        v = ex.load_int(st, q, 8)
        if not conc(v):
            raise Unsupported("symbolic C string")
        if v == 0:
            return bytes(out)
        out.append(int(v))
        q = ex.padd(st, q, 1)
    raise Unsupported("long C string")


# ------------------------------------------------------------ vp builtins
@model("__vp_havoc")
def m_havoc(ex, st, c):
    p, n, nm = c.args
    ex.havoc(st, p, int(n), cstr(ex, st, nm).decode())
    return [(st, None)]


@model("__vp_symbolic")
def m_sym(ex, st, c):
    return [(st, True)]


@model("__vp_assume")
def m_assume(ex, st, c):
    v = c.args[0]
    if conc(v):
        return [(st, None)] if v else []
    d = ex.decide(st, v)
    if d is False:
        return []
    st.assume(v)
    return [(st, None)]


@model("__vp_check")
def m_check(ex, st, c):
    nm = cstr(ex, st, c.args[1]).decode()
    g = c.args[0] if conc(c.args[0]) else simp(c.args[0])
    ex.oblige(st, g, nm, "ensures")
    if not conc(g):
        # a clause once checked may be used by the later ones
        st.assume(bv_bool(g))
    return [(st, None)]


@model("__vp_cover")
def m_cover(ex, st, c):
    ex.cover.append((cstr(ex, st, c.args[0]).decode(), list(st.pc), list(st.qf)))
    return [(st, None)]


@model("__vp_forall_check")
def m_fc(ex, st, c):
    lo, hi, f, env, nm = c.args
    nm = cstr(ex, st, nm).decode()
    s = st.copy()
    ex.now = s
    i = ex.fresh_bv("i_" + nm, 64)
    r1 = simp(z3.And(z3.ULE(bv(lo, 64), i), z3.ULT(i, bv(hi, 64))))
    if not conc(r1):
        if ex.decide(s, r1) is False:
            return [(st, None)]
        s.assume(r1)
    elif not r1:
        return [(st, None)]
    for s2, v in ex.call(s, f.name, [env, i]):
        ex.oblige(s2, v if conc(v) else simp(v), nm, "ensures")
    return [(st, None)]


@model("__vp_forall_assume")
def m_fa(ex, st, c):
    lo, hi, f, env = c.args
    s = st.copy()
    ex.now = s
    nm = ex.sname("ai")
    i = z3.Const(nm, BV64)
    rng = simp(z3.And(z3.ULE(bv(lo, 64), i), z3.ULT(i, bv(hi, 64))))
    if conc(rng) and not rng:
        return [(st, None)]
    if not conc(rng):
        s.pc.append(rng)
    np_, nq = len(s.pc), len(s.qf)
    ex.ctx.append(i)
    mark = len(ex.obls)
    try:
        outs = ex.call(s, f.name, [env, i])
    finally:
        ex.ctx.pop()
    del ex.obls[mark:]
    ds = []
    for s2, v in outs:
        l = s2.pc[np_:] + s2.qf[nq:]
        if conc(v):
            if not v:
                continue
        else:
            l = l + [v]
        if not l:
            return [(st, None)]
        ds.append(conj(l))
    body = z3.Or(*ds) if len(ds) > 1 else (ds[0] if ds else z3.BoolVal(False))
    b = z3.Const("q" + nm, BV64)
    q = z3.ForAll([b], z3.substitute(z3.Implies(bv_bool(rng), body), (i, b)))
    st.qf.append(q)
    return [(st, None)]


@model("__vp_uf")
def m_uf(ex, st, c):
    nm, na, args, no, out = c.args
    nm = cstr(ex, st, nm).decode()
    na, no = int(na), int(no)
    a = [bv(ex.load_int(st, ex.padd(st, args, 8 * k), 64), 64) for k in range(na)]
    f = z3.Function("uf_%s_%d_%d" % (nm, na, no), *([BV64] * na), z3.BitVecSort(64 * no))
    v = f(*a)
    for k in range(no):
        ex.store_int(st, ex.padd(st, out, 8 * k), 64, simp(z3.Extract(64 * k + 63, 64 * k, v)))
    return [(st, None)]


def bv_bool(x):
    return z3.BoolVal(bool(x)) if conc(x) else x


# ------------------------------------------------------------ runtime
for n in ("operator delete", "operator delete[]", "_ZdlPv", "_ZdlPvm", "_ZdaPv", "free",
          "__cxa_guard_release", "__cxa_atexit", "__cxa_guard_abort"):
    M[n] = skip


@rx(r"^llvm\.(lifetime|dbg|assume|experimental\.noalias|stackrestore|prefetch|invariant)")
def m_ll_skip(ex, st, c):
    return [(st, None)]


@rx(r"^operator delete(\[\])?\(")
def m_delete(ex, st, c):
    return [(st, None)]


@rx(r"^operator new(\[\])?\(")
def m_new(ex, st, c):
    n = c.args[0]
    p = ex.new_region(st, "heap", "new", int(n) if conc(n) else None)
    if not conc(n):
        x = ex.scaled.get(n.get_id())
        if x:
            st.tags[("alloc", p.r)] = x
    return [(st, p)]


@rx(r"^(.*::)?~[\w]+\(\)$")
def m_dtor(ex, st, c):
    """destructors free storage only; user-visible effects of destructors are not modelled"""
    return [(st, None)]


@rx(r"^.*::~[\w]+\(\)$")
def m_dtor2(ex, st, c):
    return [(st, None)]


@rx(r"^(std::_Destroy|std::_Destroy_n|std::destroy_at|void std::_Destroy|void std::destroy_at)")
def m_destroy(ex, st, c):
    return [(st, None)]


@model("__cxa_guard_acquire")
def m_guard(ex, st, c):
    return [(st, 1)]


@rx(r"^(abort|std::terminate|__cxa_pure_virtual|__cxa_throw_bad_array_new_length|std::__throw_\w+|__assert_fail|__glibcxx_assert_fail|std::__glibcxx_assert_fail)(\(|$)")
def m_abort(ex, st, c):
    if ex.discover or ex.path_dead(st):
        return []
    ex.oblige(st, False, "no abort (%s)" % c.dem.split("(")[0], "safety")
    return []


@rx(r"^vshim::CheckFailed\(")
def m_checkfailed(ex, st, c):
    if ex.discover or ex.path_dead(st):
        return []
    ex.oblige(st, False, "runtime CHECK holds: %s" % cstr(ex, st, c.args[0]).decode(), "safety")
    return []


@rx(r"^absl::raw_logging_internal::RawLog|^absl::raw_logging_internal::\w*Fatal|^absl::internal_statusor::Helper::Crash|^absl::internal_statusor::ThrowBadStatusOrAccess|^absl::optional_internal::throw|^absl::base_internal::Throw\w+|^absl::container_internal::\w*Fail")
def m_rawlog(ex, st, c):
    if ex.path_dead(st):
        return []
    ex.oblige(st, False, "no fatal error (%s)" % c.dem.split("(")[0], "safety")
    return []


# ------------------------------------------------------------ intrinsics
@rx(r"^llvm\.(memcpy|memmove)\.")
def m_memcpy(ex, st, c):
    dst, src, n = c.args[:3]
    copy_bytes(ex, st, dst, src, n)
    return [(st, None)]


@model("memcpy", "memmove")
def m_memcpy2(ex, st, c):
    dst, src, n = c.args[:3]
    copy_bytes(ex, st, dst, src, n)
    return [(st, dst)]


def simple_elem(ex, st, p):
    return p.k and isinstance(p.k[-1], int)


def copy_bytes(ex, st, dst, src, n):
    if conc(n):
        n = int(n)
        if n == 0:
            return
        if not isinstance(dst, Ptr) or not isinstance(src, Ptr):
            raise BadPtr("memcpy %r %r" % (dst, src))
        es_s = ex.es_of(st, src) if simple_elem(ex, st, src) else None
        es_d = ex.es_of(st, dst) if simple_elem(ex, st, dst) else None
        if (es_s is None or src.o + n <= es_s) and (es_d is None or dst.o + n <= es_d):
            ex.copy_tree(st, dst, src, n)
            return
        if es_s == es_d and es_s and n % es_s == 0 and src.o == 0 and dst.o == 0:
            if n // es_s <= 32:
                tmp = []
                for k in range(n // es_s):
                    ex.copy_tree(st, ex.padd(st, dst, k * es_s), ex.padd(st, src, k * es_s), es_s)
                return
            copy_elems(ex, st, dst, src, n // es_s)
            return
        if n <= 64:
            # differing element sizes: byte pieces
            g = 1
            for cand in (16, 8, 4, 2):
                if n % cand == 0 and (es_s is None or es_s % cand == 0) and (es_d is None or es_d % cand == 0):
                    g = cand
                    break
            vals = [ex.load_int(st, ex.padd(st, src, k), g * 8) for k in range(0, n, g)]
            for k, v in zip(range(0, n, g), vals):
                ex.store_int(st, ex.padd(st, dst, k), g * 8, v)
            return
        raise Unsupported("memcpy of %d bytes between different layouts" % n)
    if not isinstance(dst, Ptr) or not isinstance(src, Ptr):
        # zero-length copies may have null pointers
        if ex.decide(st, simp(n == 0)) is True:
            return
        raise BadPtr("memcpy %r %r" % (dst, src))
    es_s = ex.es_of(st, src)
    es_d = ex.es_of(st, dst)
    es = es_s or es_d
    if es is None:
        es = 1
    if es_s is None:
        st.wreg(src.r).es[src.k] = (es, None)
    if es_d is None:
        if not dst.k and st.reg(dst.r).kind == "heap" and not dst.i:
            dst = Ptr(*((lambda q: (q.r, q.k, (0,), 0))(ex.arr_view(st, dst, 1 << 40, es))))
        else:
            st.wreg(dst.r).es[dst.k] = (es, None)
        es_d = es
    if es_s is None:
        es_s = es
    if es_s != es_d:
        raise Unsupported("symbolic memcpy between element sizes %s and %s" % (es_s, es_d))
    cnt = ex.unscale(n, es)
    if cnt is None:
        if es == 1:
            cnt = n
        else:
            raise Unsupported("memcpy length is not a multiple of the element size")
    copy_elems(ex, st, dst, src, cnt)


def copy_elems(ex, st, dst, src, cnt):
    """dst[0..cnt) = src[0..cnt), both element pointers at offset 0 with equal element size"""
    if src.o or dst.o:
        raise Unsupported("element copy with offset")
    es = ex.es_of(st, src) or ex.es_of(st, dst)
    fill_range(ex, st, Ptr(dst.r, dst.k, dst.i[:-1], 0), dst.i[-1], cnt, Src(ex, st, src, es), es)


class Src:
    """leaf supply for element j of a source range"""
    def __init__(self, ex, st, p, es):
        self.ex, self.p, self.es = ex, p, es
        self.reg = st.reg(p.r)
        if self.reg.owner == st.tok:
            self.reg.owner = None
        self.known = []
        n = len(p.k)
        for k, d in self.reg.leaves.items():
            if k[:n] == p.k:
                for o, (w, t) in d.items():
                    self.known.append((k[n:], o, w))
        self.ess = [(k[n:], e) for k, e in self.reg.es.items() if len(k) > n and k[:n] == p.k]
        self.st = st

    def leaf(self, sub, off, w, j):
        """term for leaf (sub, off) of the j-th element of the range"""
        t = self.reg.get(self.p.k + sub, off, w)
        if t is None:
            raise Unsupported("source leaf layout %r %r %r" % (self.p, sub, off))
        idx = self.p.i[:-1] + (self.ex.iadd(self.p.i[-1], j),)
        if w == "p":
            if ndims(sub):
                return PtrArr((), lambda ix: self.ex.ptrarr_load(self.st, t, idx + ix))
            return self.ex.ptrarr_load(self.st, t, idx)
        return sel_chain(t, idx)


class XorOf:
    """byte j is the exclusive or of byte j of two ranges"""
    def __init__(self, a, b):
        self.a, self.b = a, b
        self.known, self.ess = [((), 0, 8)], []

    def leaf(self, sub, off, w, j):
        if sub or off or w != 8:
            raise Unsupported("xor of non-byte ranges")
        return bv(self.a.leaf(sub, off, w, j), 8) ^ bv(self.b.leaf(sub, off, w, j), 8)


@model("__vp_xor_bytes")
def m_vp_xor(ex, st, c):
    dst, src, n = c.args[:3]
    if conc(n) and int(n) == 0:
        return [(st, None)]
    for q in (dst, src):
        if isinstance(q, Ptr) and ex.es_of(st, q) is None and q.i:
            st.wreg(q.r).es[q.k] = (1, None)
    if not isinstance(dst, Ptr) or not isinstance(src, Ptr) or dst.o or src.o or ex.es_of(st, src) != 1 or ex.es_of(st, dst) != 1:
        raise Unsupported("vp::xor_bytes needs byte ranges %r %r %r %r" % (dst, src, isinstance(src, Ptr) and ex.es_of(st, src), isinstance(dst, Ptr) and ex.es_of(st, dst)))
    fill_range(ex, st, Ptr(dst.r, dst.k, dst.i[:-1], 0), dst.i[-1], n, XorOf(Src(ex, st, dst, 1), Src(ex, st, src, 1)), 1)
    return [(st, None)]


class Same:
    """every element equals the object at p"""
    def __init__(self, ex, st, p, n):
        self.ex, self.p = ex, p
        self.reg = st.reg(p.r)
        if self.reg.owner == st.tok:
            self.reg.owner = None
        self.known = []
        self.ess = []
        ns = len(p.k)
        for k, o in list(self.reg.keys_below(p.k, p.o, p.o + n)):
            w = self.reg.leaves[k][o][0]
            if len(k) == ns:
                self.known.append(((), shift(o, -p.o), w))
            else:
                self.known.append(((shift(k[ns], -p.o),) + k[ns + 1:], o, w))
        for k, e in self.reg.es.items():
            if len(k) > ns and k[:ns] == p.k and p.o <= c0(k[ns]) < p.o + n:
                self.ess.append(((shift(k[ns], -p.o),) + k[ns + 1:], e))
        self.st = st

    def leaf(self, sub, off, w, j):
        p = self.p
        if sub:
            k = p.k + (shift(sub[0], p.o),) + sub[1:]
            o = off
        else:
            k, o = p.k, shift(off, p.o)
        t = self.reg.get(k, o, w)
        if t is None:
            raise Unsupported("source leaf layout")
        if w == "p":
            return self.ex.ptrarr_load(self.st, t, p.i) if p.i and not ndims(sub) else t
        t = sel_chain(t, p.i) if p.i else t
        return bv(t, w) if conc(t) else t


class Zero:
    known = ()
    ess = ()

    def leaf(self, sub, off, w, j):
        t = zero_materialiser((0,) * ndims(sub), off, w)
        return bv(t, w) if conc(t) and w != "p" else t


def shift(c, d):
    return (c[0] + d,) + c[1:] if isinstance(c, tuple) else c + d


def fill_range(ex, st, base, lo, cnt, src, es, bound=None):
    """elements [lo, lo+cnt) of the array with key base.k (outer indices base.i) become src.leaf(.., j - lo)"""
    r = st.wreg(base.r)
    if r.es.get(base.k) is None:
        r.es[base.k] = (es, None)
    n = len(base.k)
    have = set()
    for k, d in list(r.leaves.items()):
        if k[:n] == base.k:
            for o, (w, t) in d.items():
                have.add((k[n:], o, w))
    for s in src.known:
        have.add(s)
    for sub, e in src.ess:
        r.es[base.k + sub] = e
    whole = conc(lo) and int(lo) == 0 and bound is not None

    def newleaf(sub, off, w, old):
        if w == "p":
            def dflt(ix, old=old):
                j = ix[0]
                inr = ex.decide(st_now(ex, st), z3.ULT(bv(simp(bv(j, 64) - bv(lo, 64)), 64), bv(cnt, 64)))
                if inr is True:
                    v = src.leaf(sub, off, w, simp(bv(j, 64) - bv(lo, 64)))
                    return v if len(ix) == 1 else ex.ptrarr_load(st, v, ix[1:])
                if inr is False:
                    return ex.ptrarr_load(st, old, ix) if old is not None else None
                raise Unsupported("pointer element may or may not be copied")
            return PtrArr((), dflt)
        if conc(cnt) and int(cnt) <= 8:
            t = old
            for q in range(int(cnt)):
                v = src.leaf(sub, off, w, q)
                t = store_chain(t, (ex.iadd(lo, q),), bv(v, w) if conc(v) else v)
            return t
        j = z3.Const(Fresh.name("j"), BV64)
        d = simp(j - bv(lo, 64))
        v = src.leaf(sub, off, w, d)
        v = bv(v, w) if conc(v) else v
        o = sel(old, j)
        return z3.Lambda([j], z3.If(z3.ULT(bv(d, 64), bv(cnt, 64)), v, o))

    for sub, o, w in have:
        k = base.k + sub
        old = r.get(k, o, w)
        if old is None:
            if w == "p":
                continue
            raise Unsupported("fill layout")
        if w == "p" and base.i:
            raise Unsupported("nested pointer arrays")
        if base.i:
            cur = sel_chain(old, base.i)
            r.leaves[k][o] = (w, store_chain(old, base.i, newleaf(sub, o, w, cur)))
        else:
            r.leaves.setdefault(k, {})[o] = (w, newleaf(sub, o, w, old))

    if base.i:
        def xf(key, off, w, t):
            if w == "p":
                return t
            cur = sel_chain(t, base.i)
            return store_chain(t, base.i, newleaf(key[n:], off, w, cur))
    else:
        def xf(key, off, w, t):
            return newleaf(key[n:], off, w, t)
    # the log entry covers everything below the element key
    r.log = r.log + (("xf", base.k, -INF, INF, xf),)


def st_now(ex, st):
    return ex.now or st


@rx(r"^llvm\.memset\.")
def m_memset(ex, st, c):
    p, v, n = c.args[:3]
    memset(ex, st, p, v, n)
    return [(st, None)]


@model("memset")
def m_memset2(ex, st, c):
    memset(ex, st, *c.args[:3])
    return [(st, c.args[0])]


def memset(ex, st, p, v, n):
    if conc(n) and int(n) == 0:
        return
    if not isinstance(p, Ptr):
        raise BadPtr("memset")
    if conc(n) and conc(v) and int(v) == 0:
        es = ex.es_of(st, p) if simple_elem(ex, st, p) else None
        if es is None or p.o + int(n) <= es:
            ex.zero_fill(st, p, int(n))
            return
        if p.o == 0 and int(n) % es == 0:
            fill_range(ex, st, Ptr(p.r, p.k, p.i[:-1], 0), p.i[-1], int(n) // es, Zero(), es)
            return
    if conc(n) and int(n) <= 64:
        for k in range(int(n)):
            ex.store_int(st, ex.padd(st, p, k), 8, ex.trunc(v, 8, 8) if not conc(v) else int(v) & 255)
        return
    es = ex.es_of(st, p)
    if es is None:
        q = ex.arr_view(st, p, 1 << 40, 1)
        p = Ptr(q.r, q.k, (0,), 0)
        es = 1
    cnt = ex.unscale(n, es)
    if cnt is None or not (conc(v) and int(v) == 0) and es != 1:
        raise Unsupported("memset")
    if conc(v) and int(v) == 0:
        fill_range(ex, st, Ptr(p.r, p.k, p.i[:-1], 0), p.i[-1], cnt, Zero(), es)
        return
    t = ex.new_region(st, "stack", "memset")
    ex.store_int(st, t, 8, v)
    fill_range(ex, st, Ptr(p.r, p.k, p.i[:-1], 0), p.i[-1], cnt, Same(ex, st, t, 1), 1)


@rx(r"^llvm\.(s|u)(add|sub|mul)\.with\.overflow\.i(\d+)")
def m_ovf(ex, st, c):
    m = re.match(r"llvm\.(s|u)(add|sub|mul)\.with\.overflow\.i(\d+)", c.name)
    sg, op, w = m.group(1), m.group(2), int(m.group(3))
    a, b = c.args
    r = ex.binop(st, op, ir.int_ty(w), a, b)
    if conc(a) and conc(b):
        x, y = (sint(int(a), w), sint(int(b), w)) if sg == "s" else (int(a), int(b))
        t = {"add": x + y, "sub": x - y, "mul": x * y}[op]
        ov = not (-(1 << (w - 1)) <= t < (1 << (w - 1))) if sg == "s" else not (0 <= t < (1 << w))
        return [(st, (r, ov))]
    e = w if op == "mul" else 2
    x, y = bv(a, w), bv(b, w)
    ext = z3.SignExt if sg == "s" else z3.ZeroExt
    X, Y = ext(e, x), ext(e, y)
    t = {"add": X + Y, "sub": X - Y, "mul": X * Y}[op]
    return [(st, (r, simp(t != ext(e, bv(r, w)))))]


@rx(r"^llvm\.(umin|umax|smin|smax)\.i(\d+)")
def m_minmax(ex, st, c):
    m = re.match(r"llvm\.(umin|umax|smin|smax)\.i(\d+)", c.name)
    w = int(m.group(2))
    a, b = bv(c.args[0], w), bv(c.args[1], w)
    f = {"umin": z3.ULT(a, b), "umax": z3.UGT(a, b), "smin": a < b, "smax": a > b}[m.group(1)]
    return [(st, simp(z3.If(f, a, b)))]


@rx(r"^llvm\.(ctlz|cttz|ctpop|bswap|abs|fshl)\.i(\d+)")
def m_bits(ex, st, c):
    m = re.match(r"llvm\.(ctlz|cttz|ctpop|bswap|abs|fshl)\.i(\d+)", c.name)
    op, w = m.group(1), int(m.group(2))
    a = c.args[0]
    if op == "ctlz":
        if conc(a):
            return [(st, w - int(a).bit_length())]
        r = z3.BitVecVal(w, w)
        for i in range(w):
            r = z3.If(z3.Extract(i, i, a) == 1, z3.BitVecVal(w - 1 - i, w), r)
        return [(st, simp(r))]
    if op == "cttz":
        if conc(a):
            return [(st, w if a == 0 else (int(a) & -int(a)).bit_length() - 1)]
        r = z3.BitVecVal(w, w)
        for i in reversed(range(w)):
            r = z3.If(z3.Extract(i, i, a) == 1, z3.BitVecVal(i, w), r)
        return [(st, simp(r))]
    if op == "ctpop":
        if conc(a):
            return [(st, bin(int(a)).count("1"))]
        r = z3.BitVecVal(0, w)
        for i in range(w):
            r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, a))
        return [(st, simp(r))]
    if op == "bswap":
        parts = [ex.trunc(ex.lshr(a, 8 * i, w), w, 8) for i in range(w // 8)]
        return [(st, ex.concat_le([(p, 8) for p in reversed(parts)]))]
    if op == "abs":
        if conc(a):
            return [(st, abs(sint(int(a), w)) & mask(w))]
        return [(st, simp(z3.If(a < 0, -a, a)))]
    raise Unsupported(c.name)


@rx(r"^llvm\.(trap|ubsantrap)")
def m_trap(ex, st, c):
    return m_abort(ex, st, c)


@rx(r"^llvm\.is\.constant|^llvm\.expect")
def m_expect(ex, st, c):
    return [(st, c.args[0] if "expect" in c.name else 0)]


@rx(r"^llvm\.objectsize")
def m_objsize(ex, st, c):
    return [(st, mask(64))]


@rx(r"^llvm\.(floor|ceil|fabs|log2|trunc)\.f64")
def m_fp(ex, st, c):
    return fpfun(ex, st, re.match(r"llvm\.(\w+)\.", c.name).group(1), c.args[0])


def fpfun(ex, st, op, x):
    import math
    if isinstance(x, float):
        try:
            f = {"floor": math.floor, "ceil": math.ceil, "fabs": abs, "log2": math.log2, "trunc": math.trunc}[op]
            return [(st, float(f(x)))]
        except (ValueError, OverflowError):
            return [(st, x if op != "log2" else (float("-inf") if x == 0 else float("nan")))]
    if op == "floor":
        return [(st, z3.fpRoundToIntegral(z3.RTN(), x))]
    if op == "ceil":
        return [(st, z3.fpRoundToIntegral(z3.RTP(), x))]
    if op == "fabs":
        return [(st, z3.fpAbs(x))]
    if op == "trunc":
        return [(st, z3.fpRoundToIntegral(z3.RTZ(), x))]
    return [(st, z3.Function("fp_" + op, z3.Float64(), z3.Float64())(x))]


for _n in ("floor", "ceil", "fabs", "log2", "trunc"):
    def _f(ex, st, c, _n=_n):
        return fpfun(ex, st, _n, c.args[0])
    M[_n] = _f
    M["std::" + _n] = lambda ex, st, c, _n=_n: fpfun(ex, st, _n, c.args[0]) if isinstance(c.args[0], float) or z3.is_fp(c.args[0]) else NOMODEL


@model("ldexp", "ldexpl", "std::ldexp")
def m_ldexp(ex, st, c):
    x, k = c.args[0], c.args[1]
    if not isinstance(k, int):
        return NOMODEL
    if k >= 1 << 31:
        k -= 1 << 32
    if isinstance(x, float):
        import math
        return [(st, math.ldexp(x, k))]
    if not z3.is_fp(x) or not 0 <= k <= 1000:
        return NOMODEL
    return [(st, z3.fpMul(z3.RNE(), x, z3.FPVal(2.0 ** k, z3.Float64())))]


@rx(r"^std::log2<|^.* std::log2<")
def m_log2i(ex, st, c):
    return NOMODEL


# ------------------------------------------------------------ trivial std helpers
@rx(r"^(bool )?std::(__)?is_constant_evaluated\(|^std::__is_constant_evaluated")
def m_ice(ex, st, c):
    return [(st, False)]


@rx(r"^.*\b(absl::ABSL_INTERNAL_\w+|absl::base_internal::\w*Poison\w*)")
def m_skip(ex, st, c):
    return [(st, None)]


def _minmax(ex, st, c, ismin):
    a, b = c.args[:2]
    m = re.match(r"^(.*?) const& std::(min|max)<(.*)>\(", c.dem)
    ty = m.group(3).split(",")[0] if m else ""
    ws = {"int": (32, 1), "unsigned int": (32, 0), "long": (64, 1), "unsigned long": (64, 0), "unsigned char": (8, 0),
          "long long": (64, 1), "unsigned long long": (64, 0), "short": (16, 1), "unsigned short": (16, 0),
          "signed char": (8, 1), "absl::uint128": (128, 0), "unsigned __int128": (128, 0)}
    if len(c.args) != 2 or ty not in ws:
        return NOMODEL
    w, sg = ws[ty]
    x, y = ex.load_int(st, a, w), ex.load_int(st, b, w)
    if conc(x) and conc(y):
        X, Y = (sint(int(x), w), sint(int(y), w)) if sg else (int(x), int(y))
        p = (b if Y < X else a) if ismin else (b if X < Y else a)
        return [(st, p)]
    X, Y = bv(x, w), bv(y, w)
    lt = (Y < X if sg else z3.ULT(Y, X)) if ismin else (X < Y if sg else z3.ULT(X, Y))
    lt = simp(lt)
    d = ex.decide(st, lt)
    if d is not None:
        return [(st, b if d else a)]
    t = ex.new_region(st, "stack", "minmax")
    ex.store_int(st, t, w, simp(z3.If(lt, Y, X)))
    return [(st, t)]


@model("std::min")
def m_min(ex, st, c):
    return _minmax(ex, st, c, True)


@model("std::max")
def m_max(ex, st, c):
    return _minmax(ex, st, c, False)


# ------------------------------------------------------------ absl::Status
# rep_ == code << 2 for every status; messages and payloads are dropped
CODES = {"Ok": 0, "Cancelled": 1, "Unknown": 2, "InvalidArgument": 3, "DeadlineExceeded": 4, "NotFound": 5,
         "AlreadyExists": 6, "PermissionDenied": 7, "ResourceExhausted": 8, "FailedPrecondition": 9, "Aborted": 10,
         "OutOfRange": 11, "Unimplemented": 12, "Internal": 13, "Unavailable": 14, "DataLoss": 15, "Unauthenticated": 16}


@rx(r"^absl::(\w+)Error\(")
def m_err(ex, st, c):
    m = re.match(r"^absl::(\w+)Error\(", c.dem)
    code = CODES.get(m.group(1))
    if code is None:
        return NOMODEL
    ex.store_int(st, c.args[0], 64, code << 2)
    return [(st, None)]


@model("absl::Status::Status")
def m_status_ctor(ex, st, c):
    if c.params.startswith("absl::StatusCode"):
        this, code = c.args[0], c.args[1]
        if conc(code):
            ex.store_int(st, this, 64, (int(code) << 2))
        else:
            ex.store_int(st, this, 64, simp(z3.ZeroExt(32, code) << 2))
        return [(st, None)]
    return NOMODEL


@model("absl::Status::UnrefNonInlined", "absl::Status::Unref", "absl::Status::Ref", "absl::Status::IgnoreError")
def m_st_skip(ex, st, c):
    return [(st, None)]


@model("absl::Status::code", "absl::Status::raw_code")
def m_code(ex, st, c):
    v = ex.load_int(st, c.args[0], 64)
    return [(st, ex.trunc(ex.lshr(v, 2, 64), 64, 32))]


@model("absl::Status::message", "absl::Status::ToString", "absl::Status::ToStringSlow")
def m_msg(ex, st, c):
    return NOMODEL if "message" not in c.key else opaque_sv(ex, st, c)


def opaque_sv(ex, st, c):
    p = ex.new_region(st, "heap", "msg")
    st.wreg(p.r).es[(0,)] = (1, None)
    ex.now = st
    return [(st, (0, Ptr(p.r, (0,), (0,), 0)))]


@rx(r"^absl::internal_statusor::Helper::HandleInvalidStatusCtorArg")
def m_hisca(ex, st, c):
    if ex.path_dead(st):
        return []
    ex.oblige(st, False, "no OK status passed to StatusOr", "safety")
    return []


@rx(r"^(std::string absl::)?(absl::)?(StrCat|StrAppend|StrFormat|SubstituteAndAppendArray|Substitute)(<.*>)?\(|^.*absl::(strings_internal::CatPieces|str_format_internal::\w+|substitute_internal::\w+)\b.*")
def m_strcat(ex, st, c):
    """formatted text is opaque"""
    if c.attrs and "sret" in c.attrs[0]:
        ex.havoc(st, c.args[0], 32, "text")
        return [(st, None)]
    if "::Append" in c.dem or "StrAppend" in c.dem:
        return [(st, None)]
    if isinstance(strip(c.rt), ir.VoidTy) if c.rt is not None else True:
        return [(st, None)]
    return NOMODEL


@rx(r"^absl::(debian\w*::)?AlphaNum::AlphaNum\(")
def m_alphanum(ex, st, c):
    return [(st, None)]


@rx(r"^absl::(debian\w*::)?AlphaNum::Piece\(")
def m_alphanum_piece(ex, st, c):
    [(st, (_, p))] = opaque_sv(ex, st, c)
    return [(st, (p, 0))]


@rx(r"^absl::substitute_internal::Arg::Arg\(")
def m_substarg(ex, st, c):
    return [(st, None)]


@rx(r"^std::ostream& |^std::basic_ostream<|^std::ostringstream|^std::basic_ostringstream")
def m_os(ex, st, c):
    return [(st, c.args[0] if c.args else None)]
