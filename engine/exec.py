"""Symbolic executor over the IR of the real sources: computes, for a harness
(contract), the obligations that make it hold for all inputs and all loop
iterations.  Loops whose exits are not decided by constants are cut: the state
at iteration n is described by closed forms or by recurrences over n."""
import re
import struct
import time
import z3
import ir
from ir import Unsupported, sizeof, strip, struct_offsets
from terms import *
from mem import *
from di import DI

MAXSZ = (1 << 31) - 1


class Obl:
    __slots__ = ("name", "facts", "goal", "where", "kind", "fn", "harness")

    def __init__(self, name, facts, goal, where, kind, fn):
        self.name, self.facts, self.goal, self.where, self.kind, self.fn = name, facts, goal, where, kind, fn


class State:
    __slots__ = ("regs_", "pc", "qf", "tok", "tags")
    _tok = 0

    def __init__(self):
        self.regs_ = {}
        self.pc = []
        self.qf = []
        self.tags = {}
        State._tok += 1
        self.tok = State._tok

    def copy(self):
        s = State.__new__(State)
        s.regs_ = dict(self.regs_)
        s.pc = list(self.pc)
        s.qf = list(self.qf)
        s.tags = dict(self.tags)
        State._tok += 1
        s.tok = State._tok
        # both copies must clone before writing
        State._tok += 1
        self.tok = State._tok
        return s

    def reg(self, rid):
        r = self.regs_.get(rid)
        if r is None:
            raise Unsupported("dangling region %s" % (rid,))
        return r

    def wreg(self, rid):
        r = self.reg(rid)
        if r.owner != self.tok:
            r = r.clone(self.tok)
            self.regs_[rid] = r
        return r

    def assume(self, c):
        if c is True or (isinstance(c, int) and c == 1):
            return True
        if c is False or (isinstance(c, int) and c == 0):
            self.pc.append(z3.BoolVal(False))
            return False
        if has_quant(c):
            self.qf.append(c)
        else:
            self.pc.append(c)
        return True


class NeedInv(Exception):
    pass


def is_true(x):
    return x is True or (isinstance(x, int) and not isinstance(x, bool) and x == 1)


def conc(x):
    return isinstance(x, (int, bool)) and not isinstance(x, z3.ExprRef)


class Ex:
    def __init__(self, mod, opts=None):
        self.mod = mod
        self.di = DI(mod)
        self.opts = opts or {}
        self.obls = []
        self.rid = 0
        self.ctx = []          # active loop counters
        self.models = {}       # stripped name -> handler
        self.model_res = []    # (regex, handler)
        self.stubs = {}        # mangled -> mangled stub
        self.used_models = {}
        self.used_fns = {}
        self.hcache = {}
        self.solver_time = 0.0
        self.nq = 0
        self.depth = 0
        self.stack = []
        self.cover = []
        self.unroll_max = 300
        self.loop_ids = {}
        self.hints = []
        self.deadline = None
        self.discover = 0
        self.loop_pc = None
        self.loop_others = {}
        self.loops_cut = {}
        self.unrolled = {}
        self.fc = {}
        self.trace = self.opts.get("trace")
        self.now = None
        self.intern = {}
        self.scaled = {}
        self.recfacts = {}     # symbol name -> [facts]   (recurrences, included on demand)

    # ------------------------------------------------------------ regions
    def new_region(self, st, kind, name, size=None):
        self.rid += 1
        r = Region(self.rid, kind, "%s#%d" % (name, self.rid), size)
        r.owner = st.tok
        st.regs_[self.rid] = r
        if self.ctx:
            # uninitialised contents depend on the loop iteration
            r.log = (("abs", (), -INF, INF, fresh_materialiser("undef_" + r.name, self.ctx)),)
        return Ptr(self.rid)

    def global_region(self, st, name):
        rid = "g:" + name
        if rid not in st.regs_:
            r = Region(rid, "global", name)
            r.owner = None
            st.regs_[rid] = r
            if name in self.mod.globals:
                try:
                    ty, init, const = self.mod.global_init(name)
                except Unsupported:
                    init = None
                if init is not None and (const or self.opts.get("init_globals", True)):
                    w = st.wreg(rid)
                    self.init_const(st, Ptr(rid), ty, init)
                    w.ro = const
        return Ptr(rid)

    def init_const(self, st, p, ty, op):
        t = strip(ty)
        k = op[0]
        if k == "zero" or k == "undef":
            self.zero_fill(st, p, sizeof(t))
            return
        if k == "str":
            r = st.wreg(p.r)
            b = op[1]
            if len(b) > 8:
                key = p.k + (p.o,)
                r.es[key] = (1, len(b))
                a = z3.K(BV64, z3.BitVecVal(0, 8))
                for i, c in enumerate(b):
                    if c:
                        a = z3.Store(a, i, z3.BitVecVal(c, 8))
                r.leaves.setdefault(key, {})[0] = (8, a)
            else:
                for i, c in enumerate(b):
                    self.store_int(st, self.padd(st, p, i), 8, c)
            return
        if k == "agg":
            if isinstance(t, ir.StructTy):
                offs = struct_offsets(t)
                for (et, ev), o in zip(op[1], offs):
                    self.init_const(st, self.padd(st, p, o), et, ev)
            else:
                es = sizeof(t.el)
                if t.n > 8:
                    base = self.arr_view(st, p, t.n, es)
                else:
                    base = p
                for i, (et, ev) in enumerate(op[1]):
                    self.init_const(st, self.padd(st, base, i * es), et, ev)
            return
        v = self.operand(st, {}, ty, op)
        self.store(st, p, ty, v)

    def zero_fill(self, st, p, n):
        if p.i:
            # zero existing leaves pointwise, remember nothing about others
            self.each_leaf(st, p, n, lambda w, t, nd: self._zero_like(w, nd))
            return
        r = st.wreg(p.r)
        r.drop(p.k, p.o, p.o + n)
        r.log = r.log + (("abs", p.k, p.o, p.o + n, zero_materialiser),)

    def _zero_like(self, w, nd):
        if w == "p":
            return 0 if nd == 0 else PtrArr((), lambda ix: 0)
        t = z3.BitVecVal(0, w)
        for _ in range(nd):
            t = z3.K(BV64, t)
        return t

    def each_leaf(self, st, p, n, f):
        """replace every known leaf below p (size n) at p's indices by f(width, oldsub, ndims_below)"""
        r = st.wreg(p.r)
        for k, o in list(r.keys_below(p.k, p.o, p.o + n)):
            w, t = r.leaves[k][o]
            nd = ndims(k) - len(p.i)
            if w == "p":
                new = f(w, None, nd)
                if len(p.i) == 0:
                    r.leaves[k][o] = (w, new)
                else:
                    r.leaves[k][o] = (w, self.ptrarr_store(t, p.i, new))
                continue
            sub = sel_chain(t, p.i) if p.i else t
            new = f(w, sub, nd)
            if not p.i:
                r.leaves[k][o] = (w, new)
            else:
                r.leaves[k][o] = (w, store_chain(t, p.i, bv(new, w) if conc(new) else new))

    def ptrarr_store(self, t, idxs, v):
        if not isinstance(t, PtrArr):
            t = PtrArr((), (lambda ix: None))
        return PtrArr(((tuple(idxs), v),) + t.ents, t.dflt)

    def ptrarr_load(self, st, t, idxs):
        if t is None:
            return None
        if not isinstance(t, PtrArr):
            raise Unsupported("pointer array")
        for ix, v in t.ents:
            e = True
            for a, b in zip(ix, idxs):
                q = eqi(a, b)
                if q is None:
                    q = self.decide(st, bv(a, 64) == bv(b, 64))
                if q is False:
                    e = False
                    break
                if q is None:
                    e = None
            if e is True:
                if len(ix) < len(idxs):
                    return self.ptrarr_load(st, v, idxs[len(ix):])
                return v
            if e is None:
                raise Unsupported("undetermined pointer element")
        return t.dflt(tuple(idxs)) if t.dflt else None

    def arr_view(self, st, p, n, es):
        """view the fixed array [n x es] at p as an element array"""
        key = p.k + (p.o,)
        r = st.reg(p.r)
        if key not in r.es:
            r = st.wreg(p.r)
            r.es[key] = (es, n * es)
            # move leaves already stored under raw offsets
            d = r.leaves.get(p.k)
            if d:
                mv = [(o, d[o]) for o in d if isinstance(o, int) and p.o <= o < p.o + n * es]
                for o, (w, t) in mv:
                    q, rem = divmod(o - p.o, es)
                    if w == "p":
                        continue
                    del d[o]
                    arr = r.get(key, rem, w)
                    if arr is None:
                        raise Unsupported("array view layout")
                    r.leaves[key][rem] = (w, store_chain(arr, p.i + (q,), bv(t if not p.i else t, w)) if not p.i else arr)
        return Ptr(p.r, key, p.i + (0,), 0)

    # ------------------------------------------------------------ pointers
    def es_of(self, st, p):
        e = st.reg(p.r).es.get(p.k)
        return e[0] if e else None

    def padd(self, st, p, d):
        """pointer plus concrete bytes"""
        if d == 0:
            return p
        if not isinstance(p, Ptr):
            raise Unsupported("pointer arithmetic on %r" % (p,))
        o = p.o + d
        if p.k and isinstance(p.k[-1], int):
            es = self.es_of(st, p)
            if es and not (0 <= o < es):
                q, o = divmod(o, es)
                return Ptr(p.r, p.k, p.i[:-1] + (self.iadd(p.i[-1], q),), o)
        return Ptr(p.r, p.k, p.i, o)

    def iadd(self, a, b):
        if conc(a) and conc(b):
            return (a + b) & mask(64)
        return simp(bv(a, 64) + bv(b, 64))

    def pindex(self, st, p, idx, sz):
        """pointer plus idx (symbolic or concrete int, signed) times sz bytes"""
        if conc(idx):
            return self.padd(st, p, sint(int(idx), 64) * sz)
        if not isinstance(p, Ptr):
            raise Unsupported("index on %r" % (p,))
        if p.k and isinstance(p.k[-1], int):
            es = self.es_of(st, p)
            if es is None:
                st.wreg(p.r).es[p.k] = (sz, None)
                es = sz
            if sz % es == 0:
                return Ptr(p.r, p.k, p.i[:-1] + (self.iadd(p.i[-1], simp(bv(idx, 64) * (sz // es))),), p.o)
            if es % sz == 0:
                # walking sub-elements: element idx/(es/sz), part idx%(es/sz)
                f = es // sz
                part = simp(z3.URem(bv(idx, 64), f))
                whole = simp(z3.UDiv(bv(idx, 64), z3.BitVecVal(f, 64)))
                if conc(part):
                    return self.padd(st, Ptr(p.r, p.k, p.i[:-1] + (self.iadd(p.i[-1], whole),), p.o), part * sz)
                v = self.decide_value(st, part, f)
                if v is not None:
                    return self.padd(st, Ptr(p.r, p.k, p.i[:-1] + (self.iadd(p.i[-1], whole),), p.o), v * sz)
        if p.k and isinstance(p.k[-1], int):
            u = self.unscale(idx, es // sz) if es % sz == 0 else None
        else:
            u = None
        if u is not None:
            return Ptr(p.r, p.k, p.i[:-1] + (self.iadd(p.i[-1], u),), p.o)
        if not p.i and not p.k and p.o == 0 and st.reg(p.r).kind == "heap":
            # a raw heap block used as an array of sz-byte elements
            q = self.arr_view(st, p, 1 << 40, sz)
            return Ptr(q.r, q.k, (idx,), 0)
        raise Unsupported("symbolic index with size %d at %r" % (sz, p))

    def decide_value(self, st, t, n):
        for v in range(n):
            if self.decide(st, t == v) is True:
                return v
        return None

    # ------------------------------------------------------------ loads / stores
    def load(self, st, p, ty):
        t = strip(ty)
        if isinstance(p, z3.ExprRef) or p is None or conc(p):
            raise BadPtr("load through %r" % (p,))
        if isinstance(t, ir.IntTy):
            if t.bits % 8:
                v = self.load_int(st, p, (t.bits + 7) // 8 * 8)
                return self.trunc(v, (t.bits + 7) // 8 * 8, t.bits)
            return self.load_int(st, p, t.bits)
        if isinstance(t, ir.PtrTy):
            return self.load_ptr(st, p)
        if isinstance(t, ir.FloatTy):
            v = self.load_int(st, p, t.bits)
            if isinstance(v, int):
                if t.bits == 64:
                    return struct.unpack("<d", struct.pack("<Q", v))[0]
                if t.bits == 32:
                    return struct.unpack("<f", struct.pack("<I", v))[0]
            if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_FPA_TO_IEEE_BV:
                return v.arg(0)
            return z3.fpBVToFP(v, z3.Float64() if t.bits == 64 else z3.Float32())
        if isinstance(t, ir.StructTy):
            return tuple(self.load(st, self.padd(st, p, o), e) for e, o in zip(t.els, struct_offsets(t)))
        if isinstance(t, ir.ArrTy):
            es = sizeof(t.el)
            b = self.arr_view(st, p, t.n, es) if t.n > 8 else p
            return tuple(self.load(st, self.padd(st, b, i * es), t.el) for i in range(t.n))
        if isinstance(t, ir.VecTy):
            eb = t.el.bits
            v = self.load_int(st, p, eb * t.n)
            return tuple(self.trunc(self.lshr(v, eb * i, eb * t.n), eb * t.n, eb) for i in range(t.n))
        raise Unsupported("load %r" % (t,))

    def trunc(self, v, w, nw):
        if w == nw:
            return v
        if conc(v):
            return int(v) & mask(nw)
        if nw == 1:
            return simp(z3.Extract(0, 0, v) == 1)
        return simp(z3.Extract(nw - 1, 0, v))

    def lshr(self, v, k, w):
        if k == 0:
            return v
        if conc(v):
            return int(v) >> k
        return simp(z3.LShR(v, k))

    def store(self, st, p, ty, v):
        t = strip(ty)
        if not isinstance(p, Ptr):
            raise BadPtr("store through %r" % (p,))
        if isinstance(t, ir.IntTy):
            w = (t.bits + 7) // 8 * 8
            if t.bits != w and not conc(v) and not isinstance(v, PInt):
                v = bv(v, w) if t.bits == 1 else z3.ZeroExt(w - t.bits, v)
            self.store_int(st, p, w, v)
        elif isinstance(t, ir.PtrTy):
            self.store_ptr(st, p, v)
        elif isinstance(t, ir.FloatTy):
            if isinstance(v, float):
                v = struct.unpack("<Q", struct.pack("<d", v))[0] if t.bits == 64 else \
                    struct.unpack("<I", struct.pack("<f", v))[0]
            else:
                v = simp(z3.fpToIEEEBV(v))
            self.store_int(st, p, t.bits, v)
        elif isinstance(t, ir.StructTy):
            if v is None:
                return
            for x, e, o in zip(v, t.els, struct_offsets(t)):
                self.store(st, self.padd(st, p, o), e, x)
        elif isinstance(t, ir.ArrTy):
            es = sizeof(t.el)
            b = self.arr_view(st, p, t.n, es) if t.n > 8 else p
            for i, x in enumerate(v):
                self.store(st, self.padd(st, b, i * es), t.el, x)
        elif isinstance(t, ir.VecTy):
            eb = t.el.bits
            self.store_int(st, p, eb * t.n, self.vec_bits(v, eb))
        else:
            raise Unsupported("store %r" % (t,))

    def vec_bits(self, v, eb):
        if all(conc(x) for x in v):
            r = 0
            for i, x in enumerate(v):
                r |= (int(x) & mask(eb)) << (i * eb)
            return r
        return simp(z3.Concat(*[bv(x, eb) for x in reversed(v)]))

    def overlaps(self, r, key, o, nb):
        """existing int-offset leaves overlapping [o,o+nb) other than an exact match"""
        d = r.leaves.get(key)
        out = []
        if d:
            for oo, (w, t) in d.items():
                if isinstance(oo, int):
                    sz = 8 if w == "p" else w // 8
                    if oo < o + nb and o < oo + sz:
                        out.append((oo, sz))
        return out

    def fixed_arrays(self, r, key, o, nb):
        out = []
        n = len(key)
        for k, (es, tot) in r.es.items():
            if tot and len(k) == n + 1 and k[:n] == key and isinstance(k[n], int) and k[n] < o + nb and o < k[n] + tot:
                out.append((k, es, tot))
        return out

    def chk_bounds(self, st, p, nb):
        pass

    def load_int(self, st, p, w):
        r = st.reg(p.r)
        nb = w // 8
        ov = self.overlaps(r, p.k, p.o, nb)
        if not ov or (len(ov) == 1 and ov[0] == (p.o, nb)):
            fa = self.fixed_arrays(r, p.k, p.o, nb) if not ov else ()
            if fa and nb == fa[0][1] and fa[0][2] == nb:
                fa = ()
            if not fa:
                es = r.es.get(p.k)
                if es and p.o + nb > es[0]:
                    return self.load_span(st, p, w, es[0])
                if ov and r.leaves[p.k][p.o][0] == "p":
                    v = self.load_ptr(st, p)
                    if conc(v):
                        return v
                    return PInt(v)
                t = r.get(p.k, p.o, w)
                if t is None:
                    raise Unsupported("leaf width")
                v = sel_chain(t, p.i) if p.i else t
                if p.i or isinstance(v, z3.ExprRef):
                    v = simp(v)
                if p.i and z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE:
                    v = self.resolve_ite(st, v)
                return v
        return self.load_bytes(st, p, w)

    def resolve_ite(self, st, v, k=0):
        """settle the conditions of a read over conditional updates with the path condition"""
        n = 0
        while z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE and n < 6:
            n += 1
            c, a, b = v.children()
            d = self.decide(st, c)
            if d is None:
                if k < 2:
                    b2 = self.resolve_ite(st, b, k + 1)
                    a2 = self.resolve_ite(st, a, k + 1)
                    if not (a2.eq(a) and b2.eq(b)):
                        return simp(z3.If(c, a2, b2))
                return v
            v = a if d else b
        return v

    def load_span(self, st, p, w, es):
        """read across several elements"""
        parts = []
        left = w // 8
        q = p
        while left > 0:
            n = min(es - q.o, left)
            parts.append((self.load_int(st, q, n * 8), n * 8))
            q = self.padd(st, q, n)
            left -= n
        return self.concat_le(parts)

    def concat_le(self, parts):
        if all(conc(v) for v, _ in parts):
            r = s = 0
            for v, w in parts:
                r |= int(v) << s
                s += w
            return r
        if len(parts) == 1:
            return parts[0][0]
        return simp(z3.Concat(*[bv(v, w) for v, w in reversed(parts)]))

    def load_bytes(self, st, p, w):
        r = st.reg(p.r)
        parts = []
        o, end = p.o, p.o + w // 8
        while o < end:
            ov = self.overlaps(r, p.k, o, 1)
            if ov:
                oo, sz = ov[0]
                lw, t = r.leaves[p.k][oo]
                if lw == "p":
                    if oo == o and end - o == 8 and not parts:
                        v = self.load_ptr(st, Ptr(p.r, p.k, p.i, o))
                        return v if conc(v) else PInt(v)
                    v0 = self.load_ptr(st, Ptr(p.r, p.k, p.i, oo))
                    if conc(v0):
                        v = v0
                        lw = 64
                    else:
                        raise Unsupported("bytes of a pointer")
                else:
                    v = sel_chain(t, p.i) if p.i else t
                n = min(oo + sz, end) - o
                v = self.trunc(self.lshr(v, (o - oo) * 8, lw), lw, n * 8)
                parts.append((v, n * 8))
                o += n
                continue
            fa = self.fixed_arrays(r, p.k, o, 1)
            if fa:
                k, es, tot = fa[0]
                q, rem = divmod(o - k[-1], es)
                n = min(es - rem, end - o)
                v = self.load_int(st, Ptr(p.r, k, p.i + (q,), rem), n * 8)
                parts.append((v, n * 8))
                o += n
                continue
            # gap
            n = 1
            while o + n < end and not self.overlaps(r, p.k, o + n, 1) and not self.fixed_arrays(r, p.k, o + n, 1):
                n += 1
            if n not in (1, 2, 4, 8, 16):
                n = 1
            t = r.get(p.k, o, n * 8)
            v = sel_chain(t, p.i) if p.i else t
            parts.append((v, n * 8))
            o += n
        return self.concat_le(parts)

    def store_int(self, st, p, w, v):
        if isinstance(v, (Ptr, FnPtr)):
            return self.store_ptr(st, p, v)
        if isinstance(v, PInt):
            return self.store_ptr(st, p, v.p)
        r = st.wreg(p.r)
        if r.ro:
            self.oblige(st, False, "store to read-only memory", "memory")
        nb = w // 8
        if v is None:
            v = self.fresh_bv("undef", w)
        if isinstance(v, z3.BoolRef):
            v = bv(v, w)
        ov = self.overlaps(r, p.k, p.o, nb)
        if not ov:
            fa = self.fixed_arrays(r, p.k, p.o, nb)
            if fa:
                return self.store_into_arrays(st, p, w, v, fa)
            es = r.es.get(p.k)
            if es and p.o + nb > es[0]:
                left, q, s = nb, p, 0
                while left > 0:
                    n = min(es[0] - q.o, left)
                    self.store_int(st, q, n * 8, self.trunc(self.lshr(v, s, w), w, n * 8))
                    q = self.padd(st, q, n)
                    s += n * 8
                    left -= n
                return
        elif not (len(ov) == 1 and ov[0] == (p.o, nb)):
            # different layout
            if not p.i and all(oo >= p.o and oo + sz <= p.o + nb for oo, sz in ov):
                for oo, _ in ov:
                    del r.leaves[p.k][oo]
            else:
                o, end, s = p.o, p.o + nb, 0
                while o < end:
                    cur = [x for x in ov if x[0] <= o < x[0] + x[1]]
                    if cur:
                        oo, sz = cur[0]
                        n = min(oo + sz, end) - o
                        lw, t = r.leaves[p.k][oo]
                        part = self.trunc(self.lshr(v, s, w), w, n * 8)
                        if lw == "p":
                            if n == 8:
                                del r.leaves[p.k][oo]
                                self.store_int(st, Ptr(p.r, p.k, p.i, oo), 64, part)
                            else:
                                raise Unsupported("partial pointer overwrite")
                        else:
                            old = sel_chain(t, p.i) if p.i else t
                            pieces = []
                            if o > oo:
                                pieces.append((self.trunc(old, lw, (o - oo) * 8), (o - oo) * 8))
                            pieces.append((part, n * 8))
                            hi = oo + sz - (o + n)
                            if hi > 0:
                                pieces.append((self.trunc(self.lshr(old, (o + n - oo) * 8, lw), lw, hi * 8), hi * 8))
                            self.put(r, p.k, oo, lw, p.i, self.concat_le(pieces))
                    else:
                        nxt = min([x[0] for x in ov if x[0] > o] + [end])
                        n = nxt - o
                        if n not in (1, 2, 4, 8, 16):
                            n = 1
                        self.put(r, p.k, o, n * 8, p.i, self.trunc(self.lshr(v, s, w), w, n * 8))
                    o += n
                    s += n * 8
                return
        if ov and r.leaves[p.k][p.o][0] == "p" and not p.i:
            del r.leaves[p.k][p.o]
        self.put(r, p.k, p.o, w, p.i, v)

    def put(self, r, key, off, w, idxs, v):
        if not idxs:
            r.leaves.setdefault(key, {})[off] = (w, v)
            return
        t = r.get(key, off, w)
        if t is None:
            if r.leaves[key][off][0] == "p":
                r.leaves[key][off] = ("p", self.ptrarr_store(r.leaves[key][off][1], idxs, v))
                return
            raise Unsupported("array leaf layout")
        r.leaves[key][off] = (w, store_chain(t, idxs, bv(v, w)))

    def store_into_arrays(self, st, p, w, v, fa):
        k, es, tot = fa[0]
        o, end, s = p.o, p.o + w // 8, 0
        while o < end:
            if not (k[-1] <= o < k[-1] + tot):
                raise Unsupported("store across array boundary")
            q, rem = divmod(o - k[-1], es)
            n = min(es - rem, end - o)
            self.store_int(st, Ptr(p.r, k, p.i + (q,), rem), n * 8, self.trunc(self.lshr(v, s, w), w, n * 8))
            o += n
            s += n * 8

    def load_ptr(self, st, p):
        r = st.reg(p.r)
        d = r.leaves.get(p.k)
        x = d.get(p.o) if d else None
        if x is None:
            ov = self.overlaps(r, p.k, p.o, 8)
            if ov:
                v = self.load_bytes(st, p, 64)
                return v
            fa = self.fixed_arrays(r, p.k, p.o, 8)
            if fa:
                k, es, tot = fa[0]
                q, rem = divmod(p.o - k[-1], es)
                return self.load_ptr(st, Ptr(p.r, k, p.i + (q,), rem))
            t = r.materialise(p.k, p.o, "p")
            r.leaves.setdefault(p.k, {})[p.o] = ("p", t)
            x = ("p", t)
        w, t = x
        if w == "p":
            if p.i:
                return self.ptrarr_load(st, t, p.i)
            return t
        v = self.load_int(st, p, 64)
        return v

    def store_ptr(self, st, p, v):
        if isinstance(v, PInt):
            v = v.p
        r = st.wreg(p.r)
        ov = self.overlaps(r, p.k, p.o, 8)
        if not p.i:
            for oo, sz in ov:
                if oo < p.o or oo + sz > p.o + 8:
                    raise Unsupported("pointer over partial leaf")
                del r.leaves[p.k][oo]
            fa = self.fixed_arrays(r, p.k, p.o, 8)
            if fa:
                k, es, tot = fa[0]
                q, rem = divmod(p.o - k[-1], es)
                return self.store_ptr(st, Ptr(p.r, k, p.i + (q,), rem), v)
            r.leaves.setdefault(p.k, {})[p.o] = ("p", v)
        else:
            d = r.leaves.setdefault(p.k, {})
            old = d.get(p.o)
            if old is None:
                old = ("p", r.materialise(p.k, p.o, "p"))
            if old[0] != "p":
                if isinstance(v, z3.ExprRef) or conc(v):
                    return self.put(r, p.k, p.o, 64, p.i, v)
                old = ("p", None)
            d[p.o] = ("p", self.ptrarr_store(old[1], p.i, v))

    # ------------------------------------------------------------ bulk copy
    def force_layout(self, st, p, lay):
        """materialise every leaf of a typed object; False if stored under another layout"""
        r = st.reg(p.r)
        for sub, off, w in lay:
            if sub:
                c = sub[0]
                c = (c[0] + p.o,) + c[1:] if isinstance(c, tuple) else c + p.o
                key, o = p.k + (c,) + sub[1:], off
            else:
                key, o = p.k, ((off[0] + p.o,) + off[1:] if isinstance(off, tuple) else off + p.o)
                if isinstance(o, int):
                    nb = 8 if w == "p" else w // 8
                    ov = self.overlaps(r, key, o, nb)
                    if ov and ov != [(o, nb)]:
                        if sum(s for _, s in ov) == nb and min(x for x, _ in ov) == o:
                            continue
                        return False
            if r.has(key, o):
                continue
            try:
                t = r.materialise(key, o, w)
            except Unsupported:
                return False
            if w == "p" and t is None and ndims(key) == 0:
                t = None
            r.leaves.setdefault(key, {})[o] = (w, t)
        return True

    def covered(self, st, p, n):
        """are the n bytes at p fully described by scalar leaves (nothing owned)?"""
        r = st.reg(p.r)
        d = r.leaves.get(p.k)
        if not d:
            return False
        nk = len(p.k)
        tot = 0
        for o, (w, t) in d.items():
            if isinstance(o, int):
                s = 8 if w == "p" else w // 8
                if p.o <= o and o + s <= p.o + n:
                    tot += s
            elif p.o <= o[0] < p.o + n:
                return False
        return tot == n

    def copy_tree(self, st, dst, src, n, lay=None):
        """copy the n bytes (and everything they own) at src to dst"""
        if dst.r == src.r and dst.k == src.k and dst.i == src.i and dst.o == src.o:
            return
        complete = self.force_layout(st, src, lay) if lay is not None else False
        if not complete:
            complete = self.covered(st, src, n)
        sr = st.reg(src.r)
        got = []
        for k, o in list(sr.keys_below(src.k, src.o, src.o + n)):
            w, t = sr.leaves[k][o]
            if w == "p":
                if src.i:
                    if ndims(k) > len(src.i):
                        t = PtrArr((), (lambda ix, t=t, st=st: self.ptrarr_load(st, t, src.i + ix)))
                    else:
                        t = self.ptrarr_load(st, t, src.i)
            elif src.i:
                t = sel_chain(t, src.i)
                if ndims(k) == len(src.i):
                    t = simp(t)
            got.append((k, o, w, t))
        ess = [(k, e) for k, e in sr.es.items() if len(k) > len(src.k) and k[:len(src.k)] == src.k
               and src.o <= c0(k[len(src.k)]) < src.o + n]
        snap = sr
        if sr.owner == st.tok:
            sr.owner = None           # freeze: the next writer clones
        d = dst.o - src.o
        ns, nd = len(src.k), len(dst.k)

        def shift_off(o):
            return (o[0] + d,) + o[1:] if isinstance(o, tuple) else o + d

        def shift_comp(c):
            return (c[0] + d,) + c[1:] if isinstance(c, tuple) else c + d

        def tr(k, o):
            if len(k) == ns:
                return dst.k, shift_off(o)
            return dst.k + (shift_comp(k[ns]),) + k[ns + 1:], o

        r = st.wreg(dst.r)
        if not dst.i:
            r.drop(dst.k, dst.o, dst.o + n)
        seen = set()
        for k, e in ess:
            k2, _ = tr(k, 0)
            r.es[k2] = e
        for k, o, w, t in got:
            k2, o2 = tr(k, o)
            seen.add((k2, o2))
            if not dst.i:
                r.leaves.setdefault(k2, {})[o2] = (w, t)
            elif w == "p":
                if ndims(k2) == len(dst.i):
                    self.store_ptr(st, Ptr(dst.r, k2, dst.i, o2), t)
                    r = st.wreg(dst.r)
                else:
                    d0 = r.leaves.setdefault(k2, {})
                    old = d0.get(o2, ("p", None))
                    d0[o2] = ("p", self.ptrarr_store(old[1], dst.i, t))
            else:
                if ndims(k2) == len(dst.i) and isinstance(o2, int):
                    self.store_int(st, Ptr(dst.r, k2, dst.i, o2), w, t)
                    r = st.wreg(dst.r)
                else:
                    old = r.get(k2, o2, w)
                    if old is None:
                        raise Unsupported("copy layout")
                    r.leaves[k2][o2] = (w, store_chain(old, dst.i, bv(t, w) if conc(t) else t))
        if complete:
            return
        if not dst.i:
            def mat(key, off, w, snap=snap, src=src):
                # inverse translation
                if len(key) == nd:
                    sk, so = src.k, ((off[0] - d,) + off[1:] if isinstance(off, tuple) else off - d)
                else:
                    c = key[nd]
                    c = (c[0] - d,) + c[1:] if isinstance(c, tuple) else c - d
                    sk, so = src.k + (c,) + key[nd + 1:], off
                t = snap.get(sk, so, w)
                if t is None:
                    raise Unsupported("copied leaf layout")
                if w == "p":
                    if src.i and isinstance(t, PtrArr):
                        if ndims(sk) > len(src.i):
                            return PtrArr((), lambda ix: self.ptrarr_load(st, t, src.i + ix))
                        return self.ptrarr_load(st, t, src.i)
                    return t
                return sel_chain(t, src.i) if src.i else t
            r = st.wreg(dst.r)
            r.log = r.log + (("abs", dst.k, dst.o, dst.o + n, mat),)
        else:
            # unknown leaves of an array element: keep what the array had for other
            # elements, take the source's for this one
            def xf(key, off, w, t, snap=snap, src=src):
                if w == "p":
                    return t
                if len(key) == nd:
                    sk, so = src.k, ((off[0] - d,) + off[1:] if isinstance(off, tuple) else off - d)
                else:
                    c = key[nd]
                    c = (c[0] - d,) + c[1:] if isinstance(c, tuple) else c - d
                    sk, so = src.k + (c,) + key[nd + 1:], off
                s = snap.get(sk, so, w)
                if s is None:
                    raise Unsupported("copied leaf layout")
                s = sel_chain(s, src.i) if src.i else s
                return store_chain(t, dst.i, bv(s, w) if conc(s) else s)
            r = st.wreg(dst.r)
            r.log = r.log + (("xf", dst.k, dst.o, dst.o + n, xf),)

    # ------------------------------------------------------------ fresh symbols
    def sname(self, base):
        """a name that depends only on the code position, the loop context and the
        number of earlier uses on this path (stable across re-executions of a loop body)"""
        st = self.now
        if st is None:
            return Fresh.name(base)
        k = ("sn", base, tuple((d, f) for d, f in self.stack), tuple(c.decl().name() for c in self.ctx))
        n = st.tags.get(k, 0)
        st.tags[k] = n + 1
        return "%s!%d" % (base, self.intern.setdefault((k, n), len(self.intern)))

    def fresh_bv(self, base, w):
        nm = self.sname(base)
        if self.ctx:
            return z3.Function(nm, *([BV64] * len(self.ctx)), bvsort(w))(*self.ctx)
        return z3.Const(nm, bvsort(w))

    def fresh_bool(self, base):
        nm = self.sname(base)
        if self.ctx:
            return z3.Function(nm, *([BV64] * len(self.ctx)), BOOL)(*self.ctx)
        return z3.Const(nm, BOOL)

    def fresh_arr(self, base, dims, w):
        nm = self.sname(base)
        s = arr_sort(dims, w)
        if self.ctx:
            return z3.Function(nm, *([BV64] * len(self.ctx)), s)(*self.ctx)
        return z3.Const(nm, s)

    def havoc(self, st, p, n, name):
        """arbitrary contents for the n bytes at p and everything they own"""
        tag = self.sname(name)
        m = fresh_materialiser(tag, self.ctx)
        if p.i:
            def f(w, sub, nd):
                if w == "p":
                    return None
                return self.fresh_arr(tag, nd, w)
            self.each_leaf(st, p, n, f)
            nd0 = len(p.i)

            def xf(key, off, w, t):
                if w == "p":
                    return t
                nm = leaf_name(tag, key, off)
                return store_chain(t, p.i, z3.Const(nm, arr_sort(ndims(key) - nd0, w))
                                   if not self.ctx else self.fresh_arr(nm, ndims(key) - nd0, w))
            r = st.wreg(p.r)
            r.log = r.log + (("xf", p.k, p.o, p.o + n, xf),)
            return
        r = st.wreg(p.r)
        r.drop(p.k, p.o, p.o + n)
        r.log = r.log + (("abs", p.k, p.o, p.o + n, m),)

    # ------------------------------------------------------------ solver queries on paths
    def facts_ground(self, st):
        return st.pc

    def check_sat(self, facts, timeout=400):
        """True sat / False unsat / None unknown"""
        t0 = time.time()
        key = tuple(sorted(f.get_id() for f in facts))
        r = self.fc.get(key)
        if r is not None and (r[0] is not None or r[2] >= timeout):
            return r[0]
        s = z3.SimpleSolver()
        s.set("timeout", min(timeout, 100))
        for f in facts:
            s.add(f)
        c = s.check()
        if c == z3.unknown:
            c = self.check_abs(facts, timeout)
            if c == z3.unknown and timeout > 1000:
                s = z3.Solver()
                s.set("timeout", timeout)
                s.add(*facts)
                c = s.check()
        self.nq += 1
        self.solver_time += time.time() - t0
        v = True if c == z3.sat else (False if c == z3.unsat else None)
        self.fc[key] = (v, list(facts), timeout)
        return v

    _tac = None
    _abs = {}

    def abstract(self, f):
        """f with every array read and function application replaced by a constant (weaker)"""
        r = self._abs.get(f.get_id())
        if r is not None:
            return r[0]
        pairs = []
        seen = set()
        st = [f]
        ok = True
        while st:
            x = st.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if z3.is_quantifier(x):
                ok = False
                break
            k = x.decl().kind()
            if k == z3.Z3_OP_SELECT or (k == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0):
                if z3.is_bv(x) or z3.is_bool(x):
                    pairs.append((x, z3.Const("abs!%d" % i, x.sort())))
                    continue
                ok = False
                break
            if is_arr(x) or z3.is_fp(x):
                ok = False
                break
            st.extend(x.children())
        g = None
        if ok:
            g = z3.substitute(f, *pairs) if pairs else f
        self._abs[f.get_id()] = (g, f, pairs)
        return g

    def check_abs(self, facts, timeout):
        gs = [self.abstract(f) for f in facts]
        gs = [g for g in gs if g is not None]
        if Ex._tac is None:
            Ex._tac = z3.Then("simplify", "propagate-values", "solve-eqs", "elim-uncnstr", "simplify", "bit-blast", "sat")
        s = Ex._tac.solver()
        s.set("timeout", max(timeout, 1500))
        s.add(*gs)
        try:
            c = s.check()
        except z3.Z3Exception:
            return z3.unknown
        if c == z3.unsat:
            return c
        return z3.unknown

    def feasible(self, st, extra=()):
        for e in extra:
            if e is False or (z3.is_expr(e) and z3.is_false(e)):
                return False
        ex = [e for e in extra if z3.is_expr(e)]
        return self.check_sat(self.relevant(st.pc, ex)) is not False

    def relevant(self, pc, goals):
        """facts sharing symbols (transitively) with the goals; all facts if no goals"""
        if not goals:
            return list(pc)
        syms = set()
        for g in goals:
            syms |= self.syms(g)
        out = []
        rest = list(pc)
        ch = True
        while ch:
            ch = False
            nr = []
            for f in rest:
                s = self.syms(f)
                if not s or s & syms:
                    out.append(f)
                    if not s <= syms:
                        syms |= s
                        ch = True
                else:
                    nr.append(f)
            rest = nr
        return out + list(goals)

    _symcache = {}

    def syms(self, f):
        i = f.get_id()
        r = self._symcache.get(i)
        if r is None:
            r = (frozenset(consts_of(f)), f)
            self._symcache[i] = r
        return r[0]

    def decide(self, st, c, timeout=400):
        """is c implied (True), refuted (False) or open (None) on this path"""
        if conc(c):
            return bool(c)
        c = simp(c)
        if conc(c):
            return bool(c)
        ids = {f.get_id() for f in st.pc}
        if c.get_id() in ids:
            return True
        nc = simp(z3.Not(c))
        if nc.get_id() in ids:
            return False
        if self.check_sat(self.relevant(st.pc, [nc]), timeout) is False:
            return True
        if timeout == 400 and self.check_sat(self.relevant(st.pc, [c])) is False:
            return False
        return None

    def branch(self, st, c):
        """[(state, bool)] feasible continuations"""
        if conc(c):
            return [(st, bool(c))]
        d = self.decide(st, c)
        if d is not None:
            return [(st, d)]
        c = simp(c)
        s2 = st.copy()
        st.assume(c)
        s2.assume(simp(z3.Not(c)))
        return [(st, True), (s2, False)]

    # ------------------------------------------------------------ obligations
    def where(self):
        for dbg, fn in reversed(self.stack):
            if dbg is not None:
                l = self.di.line(dbg)
                if l:
                    return "%s:%d" % (l[0].split("/")[-1], l[1])
        return "?"

    def oblige(self, st, goal, name, kind="check"):
        if is_true(goal) or goal is True:
            self.obls.append(Obl(name, None, True, self.where(), kind, self.curfn()))
            return
        if conc(goal):
            goal = z3.BoolVal(bool(goal))
        self.obls.append(Obl(name, (list(st.pc), list(st.qf)), goal, self.where(), kind, self.curfn()))

    def curfn(self):
        for dbg, fn in reversed(self.stack):
            if fn:
                return fn
        return "?"

    # ------------------------------------------------------------ operands
    def operand(self, st, regs, ty, op):
        k = op[0]
        if k == "reg":
            return regs[op[1]]
        if k == "c":
            return op[1]
        if k == "null":
            return 0
        if k == "glob":
            n = op[1]
            if n in self.mod.funcs or n in self.mod.decls:
                return FnPtr(n)
            return self.global_region(st, n)
        if k == "fp":
            return op[1]
        t = strip(ty)
        if k == "undef":
            if isinstance(t, ir.IntTy):
                return self.fresh_bv("undef", t.bits) if t.bits > 1 else self.fresh_bool("undef")
            if isinstance(t, ir.StructTy):
                return tuple(self.operand(st, regs, e, op) for e in t.els)
            if isinstance(t, (ir.VecTy, ir.ArrTy)):
                return tuple(0 for _ in range(t.n))
            if isinstance(t, ir.FloatTy):
                return 0.0
            return None
        if k == "zero":
            if isinstance(t, ir.IntTy) or isinstance(t, ir.PtrTy):
                return 0
            if isinstance(t, ir.FloatTy):
                return 0.0
            if isinstance(t, ir.StructTy):
                return tuple(self.operand(st, regs, e, op) for e in t.els)
            return tuple(self.operand(st, regs, t.el, op) for _ in range(t.n))
        if k == "agg":
            return tuple(self.operand(st, regs, et, ev) for et, ev in op[1])
        if k == "cexpr":
            o = op[1]
            if o == "getelementptr":
                vals = [self.operand(st, regs, et, ev) for et, ev in op[2]]
                return self.gep(st, op[3], vals, [et for et, _ in op[2]])
            vals = [self.operand(st, regs, et, ev) for et, ev in op[2]]
            if o in ("ptrtoint", "inttoptr", "bitcast", "trunc", "zext", "sext", "addrspacecast"):
                return self.cast(st, o, op[2][0][0], op[3], vals[0])
            if o.startswith("icmp"):
                return self.icmp(st, o.split()[1], op[2][0][0], vals[0], vals[1])
            return self.binop(st, o, op[3], vals[0], vals[1])
        if k == "str":
            return tuple(op[1])
        if k == "meta":
            return None
        raise Unsupported("operand %r" % (op,))

    def gep(self, st, sty, vals, tys):
        p = vals[0]
        if conc(p) or p is None:
            if all(conc(x) and int(x) == 0 for x in vals[1:]):
                return p
            raise BadPtr("gep on %r" % (p,))
        if isinstance(p, FnPtr):
            raise Unsupported("gep on function")
        if isinstance(p, PInt):
            p = p.p
        t = sty
        first = True
        for v, ity in zip(vals[1:], tys[1:]):
            if not conc(v):
                b = strip(ity).bits
                if b < 64:
                    v = self.sext(st, v, b, 64)
            else:
                v = sint(int(v), strip(ity).bits) & mask(64)
            if first:
                p = self.pindex(st, p, v, sizeof(t))
                first = False
                continue
            tt = strip(t)
            if isinstance(tt, ir.StructTy):
                p = self.padd(st, p, struct_offsets(tt)[int(v)])
                t = tt.els[int(v)]
            elif isinstance(tt, (ir.ArrTy, ir.VecTy)):
                es = sizeof(tt.el)
                if isinstance(tt, ir.ArrTy) and tt.n > 8:
                    p = self.arr_view(st, p, tt.n, es)
                    p = self.pindex(st, p, v, es)
                elif conc(v):
                    p = self.padd(st, p, sint(int(v), 64) * es)
                elif tt.n == 1:
                    p = self.padd(st, p, 0)
                else:
                    d = self.decide_value(st, v, tt.n)
                    if d is not None:
                        p = self.padd(st, p, d * es)
                    else:
                        raise ForkVal(v, list(range(tt.n)))
                t = tt.el
            else:
                raise Unsupported("gep into %r" % (tt,))
        return p

    # ------------------------------------------------------------ arithmetic
    def sext(self, st, v, a, b):
        if conc(v):
            return sint(int(v), a) & mask(b)
        if isinstance(v, z3.BoolRef):
            return z3.If(v, z3.BitVecVal(mask(b), b), z3.BitVecVal(0, b))
        if v.decl().kind() == z3.Z3_OP_EXTRACT and v.params() == [a - 1, 0]:
            t = v.children()[0]
            w = t.size()
            if w >= b:
                lim = 1 << (a - 1)
                c = z3.And(t < lim, t >= -lim) if True else None
                if self.decide(st, c) is True:
                    return t if w == b else simp(z3.Extract(b - 1, 0, t))
        if a == 32 and b == 64 and v.decl().kind() in (z3.Z3_OP_BADD, z3.Z3_OP_BMUL):
            E = simp(lift64(v))
            if not conc(E) and self.decide(st, z3.And(E < (1 << 31), E >= -(1 << 31))) is True:
                return E
        if v.decl().kind() == z3.Z3_OP_ITE:
            c, x, y = v.children()
            return simp(z3.If(c, bv(self.sext(st, fold(x), a, b), b), bv(self.sext(st, fold(y), a, b), b)))
        return simp(z3.SignExt(b - a, v))

    def zext(self, st, v, a, b):
        if conc(v):
            return int(v) & mask(a)
        if isinstance(v, z3.BoolRef):
            return bv(v, b)
        if v.decl().kind() == z3.Z3_OP_EXTRACT and v.params() == [a - 1, 0] and a >= 16:
            t = v.children()[0]
            w = t.size()
            if w >= b and w <= 64:
                if self.decide(st, z3.ULE(t, mask(a))) is True:
                    return t if w == b else simp(z3.Extract(b - 1, 0, t))
        if v.decl().kind() == z3.Z3_OP_ITE:
            c, x, y = v.children()
            return simp(z3.If(c, bv(self.zext(st, fold(x), a, b), b), bv(self.zext(st, fold(y), a, b), b)))
        return simp(z3.ZeroExt(b - a, v))

    def cast(self, st, op, t1, t2, v):
        a, b = strip(t1), strip(t2)
        if isinstance(a, ir.VecTy) and op != "bitcast":
            return tuple(self.cast(st, op, a.el, b.el, x) for x in v)
        if op == "trunc":
            if isinstance(v, PInt):
                raise Unsupported("trunc of pointer")
            return self.trunc(v, a.bits, b.bits)
        if op == "zext":
            return self.zext(st, v, a.bits, b.bits)
        if op == "sext":
            return self.sext(st, v, a.bits, b.bits)
        if op == "ptrtoint":
            if conc(v) or isinstance(v, z3.ExprRef):
                return v
            if v is None:
                return self.fresh_bv("undefptr", b.bits)
            return PInt(v)
        if op == "inttoptr":
            if isinstance(v, PInt):
                return v.p
            return v
        if op == "bitcast":
            if isinstance(a, ir.VecTy) and isinstance(b, ir.VecTy):
                if a.el.bits == b.el.bits:
                    return v
                x = self.vec_bits(v, a.el.bits)
                w = a.n * a.el.bits
                return tuple(self.trunc(self.lshr(x, b.el.bits * i, w), w, b.el.bits) for i in range(b.n))
            if isinstance(a, ir.VecTy):
                return self.vec_bits(v, a.el.bits)
            if isinstance(b, ir.VecTy):
                w = b.n * b.el.bits
                return tuple(self.trunc(self.lshr(v, b.el.bits * i, w), w, b.el.bits) for i in range(b.n))
            return v
        if op in ("uitofp", "sitofp"):
            if conc(v):
                return float(sint(int(v), a.bits) if op == "sitofp" else int(v))
            s = z3.Float64() if b.bits == 64 else z3.Float32()
            if isinstance(v, z3.BoolRef):
                v = bv(v, 8)
            return (z3.fpSignedToFP if op == "sitofp" else z3.fpUnsignedToFP)(z3.RNE(), v, s)
        if op in ("fptosi", "fptoui"):
            if isinstance(v, float):
                return int(v) & mask(b.bits)
            return (z3.fpToSBV if op == "fptosi" else z3.fpToUBV)(z3.RTZ(), v, bvsort(b.bits))
        if op in ("fpext", "fptrunc"):
            if isinstance(v, float):
                return v
            return z3.fpToFP(z3.RNE(), v, z3.Float64() if b.bits == 64 else z3.Float32())
        raise Unsupported("cast " + op)

    def fpv(self, x, bits=64):
        if isinstance(x, float):
            return z3.FPVal(x, z3.Float64() if bits == 64 else z3.Float32())
        return x

    def binop(self, st, op, ty, a, b):
        t = strip(ty)
        if isinstance(t, ir.VecTy):
            return tuple(self.binop(st, op, t.el, x, y) for x, y in zip(a, b))
        if isinstance(t, ir.FloatTy):
            if isinstance(a, float) and isinstance(b, float):
                try:
                    return {"fadd": a + b, "fsub": a - b, "fmul": a * b}[op] if op != "fdiv" else a / b
                except ZeroDivisionError:
                    return float("nan") if a == 0 else float("inf")
            f = {"fadd": z3.fpAdd, "fsub": z3.fpSub, "fmul": z3.fpMul, "fdiv": z3.fpDiv}.get(op)
            if f is None:
                raise Unsupported(op)
            return f(z3.RNE(), self.fpv(a, t.bits), self.fpv(b, t.bits))
        w = t.bits
        if isinstance(a, PInt) or isinstance(b, PInt):
            return self.ptr_binop(st, op, a, b, w)
        if a is None:
            a = self.fresh_bv("undef", w)
        if b is None:
            b = self.fresh_bv("undef", w)
        if conc(a) and conc(b):
            return self.cbin(st, op, int(a), int(b), w)
        if w == 1:
            x, y = boolv(a), boolv(b)
            if op == "and":
                return simp(z3.And(x, y))
            if op == "or":
                return simp(z3.Or(x, y))
            if op in ("xor", "add", "sub"):
                return simp(z3.Xor(x, y))
            raise Unsupported("i1 " + op)
        if op in ("add", "sub") and conc(b) and not conc(a) and w < 64 and \
                a.decl().kind() == z3.Z3_OP_EXTRACT and a.params() == [w - 1, 0]:
            T = a.children()[0]
            if T.size() == 64:
                d = sint(int(b), w)
                d = d if op == "add" else -d
                return simp2(z3.Extract(w - 1, 0, z3.simplify(T + d)))
        x, y = bv(a, w), bv(b, w)
        if op in ("udiv", "sdiv", "urem", "srem"):
            if not (conc(b) and int(b) != 0):
                self.oblige(st, simp(y != 0), "division by zero", "safety")
                st.assume(simp(y != 0))
        if op == "add":
            r = x + y
        elif op == "sub":
            r = x - y
        elif op == "mul":
            if w == 64 and conc(b) and int(b) > 1 and int(b) < 1 << 31:
                return self.mkscaled(a, int(b))
            if w == 64 and conc(a) and int(a) > 1 and int(a) < 1 << 31:
                return self.mkscaled(b, int(a))
            r = x * y
        elif op == "udiv":
            if conc(b) and w == 64:
                u = self.unscale(a, int(b))
                if u is not None:
                    return u
            r = z3.UDiv(x, y)
        elif op == "sdiv":
            if conc(b) and w == 64:
                u = self.unscale(a, int(b))
                if u is not None:
                    return u
            r = x / y
            if conc(b) and 0 < int(b) < (1 << (w - 1)) and self.decide(st, x >= 0) is True:
                r = z3.UDiv(x, y)
        elif op == "urem":
            r = z3.URem(x, y)
        elif op == "srem":
            r = z3.SRem(x, y)
            if conc(b) and 0 < int(b) < (1 << (w - 1)) and self.decide(st, x >= 0) is True:
                r = z3.URem(x, y)
        elif op == "and":
            r = x & y
        elif op == "or":
            r = x | y
        elif op == "xor":
            r = x ^ y
        elif op == "shl":
            self.shift_ob(st, b, y, w)
            r = x << y
        elif op == "lshr":
            self.shift_ob(st, b, y, w)
            r = z3.LShR(x, y)
        elif op == "ashr":
            self.shift_ob(st, b, y, w)
            r = x >> y
        else:
            raise Unsupported(op)
        return simp(r)

    def mkscaled(self, b, k):
        """b * k, remembering the factorisation (b*k is assumed not to wrap: sizes of objects)"""
        r = simp(bv(b, 64) * k)
        if not conc(r) and not conc(b):
            self.scaled[r.get_id()] = (r, b, k)
        return r

    def unscale(self, t, k):
        """t / k when t is known to be a multiple built from k"""
        if conc(t):
            return int(t) // k if int(t) % k == 0 else None
        if k == 1:
            return t
        x = self.scaled.get(t.get_id())
        if x and x[2] % k == 0:
            return x[1] if x[2] == k else simp(bv(x[1], 64) * (x[2] // k))
        return None

    def shift_ob(self, st, b, y, w):
        if conc(b):
            return
        g = simp(z3.ULT(y, w))
        if not conc(g):
            self.oblige(st, g, "shift amount in range", "safety")
            st.assume(g)

    def ptr_binop(self, st, op, a, b, w):
        if op == "sub" and isinstance(a, PInt) and isinstance(b, PInt):
            return self.ptr_diff(st, a.p, b.p)
        if op in ("add", "sub") and isinstance(a, PInt) and conc(b):
            return PInt(self.padd(st, a.p, sint(int(b), 64) * (1 if op == "add" else -1)))
        if op == "and" and isinstance(a, PInt) and conc(b):
            if int(b) <= 4095:
                return self.p_align(a.p, int(b))
            if (~int(b)) & mask(64) <= 7:
                return a
        if op == "or" and isinstance(a, PInt) and conc(b):
            raise Unsupported("pointer tagging")
        if op in ("urem",) and isinstance(a, PInt) and conc(b):
            return self.p_align(a.p, int(b) - 1)
        raise Unsupported("arith on pointer: " + op)

    def p_align(self, p, m):
        if isinstance(p, Ptr) and not p.i:
            if m <= 7:
                return p.o & m
        if isinstance(p, Ptr):
            # the address of the object is arbitrary (8-aligned), but one value per object
            nm = "L!addr|%s|%s" % (p.r, p.k)
            idx = [bv(x, 64) for x in p.i]
            a = z3.Function(nm, *([BV64] * (len(idx) + 1)))(*idx) if idx else z3.Const(nm, BV64)
            if not idx:
                a = a & z3.BitVecVal(mask(64) & ~7, 64)
            return simp((a + bv(p.o, 64)) & m)
        raise Unsupported("pointer alignment")

    def ptr_diff(self, st, a, b):
        if conc(a) and conc(b):
            return (int(a) - int(b)) & mask(64)
        if not (isinstance(a, Ptr) and isinstance(b, Ptr)) or not a.same_cell(b):
            raise Unsupported("difference of unrelated pointers")
        d = (a.o - b.o) & mask(64)
        if a.k and isinstance(a.k[-1], int):
            for x, y in zip(a.i[:-1], b.i[:-1]):
                if eqi(x, y) is not True:
                    raise Unsupported("difference of pointers into different arrays")
            x, y = a.i[-1], b.i[-1]
            if conc(x) and conc(y) and int(x) == int(y):
                return d
            es = self.es_of(st, a)
            if es is None:
                raise Unsupported("element size")
            b = simp(bv(x, 64) - bv(y, 64))
            if d == 0:
                return self.mkscaled(b, es)
            return simp(bv(b, 64) * es + d)
        return d

    def cbin(self, st, op, a, b, w):
        m = mask(w)
        if op in ("udiv", "sdiv", "urem", "srem") and b == 0:
            self.oblige(st, False, "division by zero", "safety")
            return 0
        if op == "add":
            return (a + b) & m
        if op == "sub":
            return (a - b) & m
        if op == "mul":
            return (a * b) & m
        if op == "and":
            return a & b
        if op == "or":
            return a | b
        if op == "xor":
            return a ^ b
        if op == "udiv":
            return a // b
        if op == "urem":
            return a % b
        if op in ("sdiv", "srem"):
            x, y = sint(a, w), sint(b, w)
            q = abs(x) // abs(y)
            if (x < 0) != (y < 0):
                q = -q
            return (q if op == "sdiv" else x - q * y) & m
        if op in ("shl", "lshr", "ashr"):
            if b >= w:
                self.oblige(st, False, "shift amount in range", "safety")
                return 0
            if op == "shl":
                return (a << b) & m
            if op == "lshr":
                return a >> b
            return (sint(a, w) >> b) & m
        raise Unsupported(op)

    def icmp(self, st, pred, ty, a, b):
        t = strip(ty)
        if isinstance(t, ir.VecTy):
            return tuple(self.icmp(st, pred, t.el, x, y) for x, y in zip(a, b))
        if isinstance(a, PInt):
            a = a.p
        if isinstance(b, PInt):
            b = b.p
        if is_ptr(a) or is_ptr(b):
            return self.pcmp(st, pred, a, b)
        w = 64 if isinstance(t, ir.PtrTy) else t.bits
        if a is None:
            a = self.fresh_bv("undef", w)
        if b is None:
            b = self.fresh_bv("undef", w)
        if conc(a) and conc(b):
            a, b = int(a), int(b)
            if pred[0] == "s":
                a, b = sint(a, w), sint(b, w)
            return {"eq": a == b, "ne": a != b, "gt": a > b, "ge": a >= b, "lt": a < b,
                    "le": a <= b}[pred if len(pred) == 2 else pred[1:]]
        if w == 1:
            x, y = boolv(a), boolv(b)
            if pred == "eq":
                return simp(x == y)
            if pred == "ne":
                return simp(z3.Xor(x, y))
            x, y = bv(x, 1), bv(y, 1)
        else:
            x, y = bv(a, w), bv(b, w)
        f = {"eq": lambda: x == y, "ne": lambda: x != y, "ult": lambda: z3.ULT(x, y), "ule": lambda: z3.ULE(x, y),
             "ugt": lambda: z3.UGT(x, y), "uge": lambda: z3.UGE(x, y), "slt": lambda: x < y, "sle": lambda: x <= y,
             "sgt": lambda: x > y, "sge": lambda: x >= y}[pred]
        return simp(f())

    def pcmp(self, st, pred, a, b):
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            e = isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.name == b.name
            return e if pred == "eq" else (not e)
        if a is None or b is None:
            raise Unsupported("comparison with undefined pointer")
        if conc(a) or conc(b):
            # object pointers are never null
            return {"eq": False, "ne": True, "ugt": conc(b), "ult": conc(a), "uge": conc(b), "ule": conc(a)}[pred]
        if isinstance(a, z3.ExprRef) or isinstance(b, z3.ExprRef):
            raise Unsupported("pointer compared with integer")
        if a.r != b.r:
            if pred in ("eq", "ne"):
                return pred == "ne"
            return self.fresh_bool("ptrorder")
        if a.k != b.k:
            if pred in ("eq", "ne"):
                return pred == "ne"
            raise Unsupported("pointer order across objects")
        es = self.es_of(st, a)
        c = []
        eqs = []
        for x, y in zip(a.i, b.i):
            e = eqi(x, y)
            eqs.append(e if e is not None else (bv(x, 64) == bv(y, 64)))
        if pred in ("eq", "ne"):
            if a.o != b.o or any(e is False for e in eqs):
                return pred == "ne"
            sy = [e for e in eqs if e is not True]
            if not sy:
                return pred == "eq"
            r = z3.And(*sy) if len(sy) > 1 else sy[0]
            return simp(r if pred == "eq" else z3.Not(r))
        if not a.i or not isinstance(a.k[-1], int):
            return self.icmp(st, pred, ir.int_ty(64), a.o, b.o)
        if any(e is not True for e in eqs[:-1]):
            raise Unsupported("pointer order across arrays")
        x, y = bv(a.i[-1], 64), bv(b.i[-1], 64)
        if a.o == b.o:
            return self.icmp(st, pred, ir.int_ty(64), fold(z3.simplify(x)), fold(z3.simplify(y)))
        return self.icmp(st, pred, ir.int_ty(64), simp(x * es + a.o), simp(y * es + b.o))

    def fcmp(self, pred, ty, a, b):
        bits = strip(ty).bits
        if isinstance(a, float) and isinstance(b, float):
            un = a != a or b != b
            if pred == "uno":
                return un
            if pred == "ord":
                return not un
            r = {"eq": a == b, "ne": a != b, "gt": a > b, "ge": a >= b, "lt": a < b, "le": a <= b}[pred[1:]]
            if un:
                return pred[0] == "u"
            return r
        x, y = self.fpv(a, bits), self.fpv(b, bits)
        un = z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
        if pred == "uno":
            return simp(un)
        if pred == "ord":
            return simp(z3.Not(un))
        r = {"eq": z3.fpEQ, "ne": z3.fpNEQ, "gt": z3.fpGT, "ge": z3.fpGEQ, "lt": z3.fpLT, "le": z3.fpLEQ}[pred[1:]](x, y)
        if pred[0] == "u":
            return simp(z3.Or(un, r))
        if pred == "one":
            return simp(z3.And(z3.Not(un), r))
        return simp(r)

    def ite(self, c, a, b, w):
        if conc(c):
            return a if c else b
        if a is b:
            return a
        if conc(a) and conc(b) and int(a) == int(b):
            return a
        if w == 1:
            return simp(z3.If(c, boolv(a), boolv(b)))
        return simp(z3.If(c, bv(a, w), bv(b, w)))


class BadPtr(Unsupported):
    pass


class ForkVal(Exception):
    def __init__(self, term, vals):
        self.term, self.vals = term, vals


def simp2(e):
    return fold(z3.simplify(e))
