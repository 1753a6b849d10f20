"""Control flow: function calls, branches, path merging and loop cutting."""
import z3
import ir
from ir import Unsupported, sizeof, strip
from terms import *
from mem import *
from exec import *
import re
import time

TRACE = False


def split_args(dem):
    """demangled name -> (text before the parameter list, parameter list, rest)"""
    depth = 0
    i = len(dem) - 1
    # find the last top-level ')' that closes the parameter list
    end = None
    while i >= 0:
        c = dem[i]
        if c == ")":
            end = i
            break
        i -= 1
    if end is None:
        return dem, "", ""
    tail = dem[end + 1:]
    depth = 0
    i = end
    while i >= 0:
        c = dem[i]
        if c in ")>" and not (c == ">" and dem[i - 1] == "-"):
            depth += 1
        elif c in "(<":
            depth -= 1
            if depth == 0 and c == "(":
                break
        i -= 1
    return dem[:i], dem[i + 1:end], tail


OPS = re.compile(r"operator(\(\)|\[\]|->\*?|<=>|<<=?|>>=?|[<>]=?|[-+*/%^&|!=~]=?|&&|\|\||\+\+|--|,| [\w:<>, *&]+)")


def qual_name(head):
    """strip a return type in front of the qualified name; keep template args"""
    depth = 0
    # protect operators
    m = None
    for mm in re.finditer(r"\boperator(\(\)|\[\]|->\*?|<=>|<<=|>>=|<<|>>|<=|>=|<|>| new\[\]| delete\[\]| new| delete)", head):
        m = mm
    s = head
    prot = None
    if m and (m.end() == len(head) or head[m.end()] in "<"):
        prot = head[m.start():m.end()]
        s = head[:m.start()] + "operator@" + head[m.end():]
    else:
        m2 = re.search(r"::operator (?!new|delete)[^()]*$", head)
        if m2:
            prot = head[m2.start() + 2:]
            s = head[:m2.start() + 2] + "operator@"
    cut = 0
    depth = 0
    for i, c in enumerate(s):
        if c in "<({":
            depth += 1
        elif c in ">)}":
            depth -= 1
        elif c == " " and depth == 0:
            cut = i + 1
    q = s[cut:]
    return q, prot


def strip_targs(q):
    out = []
    depth = 0
    for c in q:
        if c == "<":
            depth += 1
        elif c == ">":
            depth -= 1
        elif depth == 0:
            out.append(c)
    return "".join(out)


class Call:
    __slots__ = ("name", "dem", "qual", "key", "args", "tys", "attrs", "rt", "params", "tail")

    def __repr__(self):
        return "Call(%s)" % self.dem


class Interp(Ex):
    def __init__(self, mod, opts=None):
        super().__init__(mod, opts)
        self.namecache = {}
        self.dropped = []
        self.gov = []
        self.merge_limit = 40
        self.paths = 0
        self.static_init = {}

    # ------------------------------------------------------------ names
    def nameinfo(self, name):
        r = self.namecache.get(name)
        if r is None:
            dem = self.mod.dem.get(name, name)
            head, params, tail = split_args(dem)
            q, prot = qual_name(head)
            key = strip_targs(q)
            if prot:
                key = key.replace("operator@", strip_targs(prot) if prot.startswith("operator ") else prot)
                q = q.replace("operator@", prot)
            r = self.namecache[name] = (dem, q, key, params, tail)
        return r

    def resolve(self, name):
        if name in self.mod.funcs:
            return self.mod.funcs[name]
        g = self.mod.globals.get(name)
        if g and "alias" in g:
            m = re.search(r"alias .*, ptr @(\"[^\"]*\"|[-\w.$]+)", g)
            if m:
                return self.resolve(m.group(1).strip('"'))
        return None

    # ------------------------------------------------------------ calls
    def call(self, st, name, args, tys=None, attrs=None, rt=None):
        """-> list of (state, value)"""
        dem, q, key, params, tail = self.nameinfo(name)
        s = self.stubs.get(name)
        if s is not None and s != name and not any(f == name or f == s for _, f in []):
            self.used_models["contract stub: " + dem] = self.used_models.get("contract stub: " + dem, 0) + 1
            return self.exec_fn(st, self.mod.funcs[s].parse(), args)
        h = self.hcache.get(name, 0)
        if h == 0:
            h = self.models.get(key) or self.models.get(name)
            if h is None:
                for rx, f in self.model_res:
                    if rx.match(dem):
                        h = f
                        break
            self.hcache[name] = h
        if h is not None:
            c = Call()
            c.name, c.dem, c.qual, c.key, c.args, c.tys, c.attrs, c.rt, c.params, c.tail = \
                name, dem, q, key, args, tys or [], attrs or [], rt, params, tail
            r = h(self, st, c)
            if r is not NOMODEL:
                self.used_models[key] = self.used_models.get(key, 0) + 1
                return r
        fn = self.resolve(name)
        if fn is not None:
            return self.exec_fn(st, fn.parse(), args)
        raise Unsupported("no model for " + dem)

    def exec_fn(self, st, fn, args):
        if self.depth > 120:
            raise Unsupported("recursion depth in " + fn.name)
        if self.deadline and time.time() > self.deadline:
            raise TimeoutError("symbolic execution time limit")
        self.depth += 1
        dem = self.mod.dem.get(fn.name, fn.name)
        self.used_fns[dem] = self.used_fns.get(dem, 0) + 1
        if self.trace:
            print("  " * self.depth + "> " + dem[:140], flush=True)
        self.stack.append([None, dem])
        nfr = len(self.stack)
        try:
            regs = {}
            for (t, nm, at), a in zip(fn.params, args):
                if "byval" in at:
                    p = self.new_region(st, "stack", nm, sizeof(at["byval"]))
                    self.copy_tree(st, p, a, sizeof(at["byval"]))
                    a = p
                regs[nm] = a
            outs = self.exec_region(fn, None, fn.entry, None, st, regs, None)
        finally:
            del self.stack[nfr - 1:]
            self.depth -= 1
        rt = re.match(r"define [^@]*?\bi(\d+) @", fn.header)
        return self.merge_outs([(o[1], o[2]) for o in outs], int(rt.group(1)) if rt else None)

    # ------------------------------------------------------------ merging
    def merge_outs(self, outs, rw=None):
        if len(outs) < 2 or self.opts.get("nomerge"):
            return outs
        res = []
        for st, v in outs:
            done = False
            for i, (s2, v2) in enumerate(res):
                m = self.try_merge(s2, v2, st, v, rw)
                if m is not None:
                    res[i] = m
                    done = True
                    break
            if not done:
                res.append((st, v))
        return res

    def mval(self, c, a, b):
        """merge two values under c; raises NoMerge"""
        if a is b:
            return a
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.mval(c, x, y) for x, y in zip(a, b))
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.r == b.r and a.k == b.k and a.o == b.o and all(eqi(x, y) is True for x, y in zip(a.i, b.i)):
                return a
            if a.r == b.r and a.k == b.k and a.o == b.o and len(a.i) == len(b.i):
                return Ptr(a.r, a.k, tuple(x if eqi(x, y) is True else self.ite(c, x, y, 64) for x, y in zip(a.i, b.i)), a.o)
            raise NoMerge()
        if isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.name == b.name:
            return a
        if a is None or b is None:
            raise NoMerge()
        if isinstance(a, float) and isinstance(b, float) and a == b:
            return a
        if conc(a) and conc(b):
            if int(a) == int(b):
                return a
            if int(a) in (0, 1) and int(b) in (0, 1):
                # boolean-like result of unknown width
                raise NeedWidth()
            raise NoMerge()
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
            if a.eq(b):
                return a
            if a.sort() == b.sort():
                if is_arr(a):
                    return z3.If(c, a, b)
                return simp(z3.If(c, a, b))
            raise NoMerge()
        if isinstance(a, z3.BitVecRef) and conc(b):
            return simp(z3.If(c, a, bv(b, a.size())))
        if isinstance(b, z3.BitVecRef) and conc(a):
            return simp(z3.If(c, bv(a, b.size()), b))
        if isinstance(a, z3.BoolRef) or isinstance(b, z3.BoolRef):
            return simp(z3.If(c, boolv(a), boolv(b)))
        raise NoMerge()

    def split_pc(self, s1, s2):
        n = 0
        a, b = s1.pc, s2.pc
        while n < len(a) and n < len(b) and (a[n] is b[n] or a[n].eq(b[n])):
            n += 1
        k = 0
        while k < len(s1.qf) and k < len(s2.qf) and (s1.qf[k] is s2.qf[k] or s1.qf[k].eq(s2.qf[k])):
            k += 1
        return n, k

    def try_merge(self, s1, v1, s2, v2, rw=None):
        n, k = self.split_pc(s1, s2)
        d1, d2 = s1.pc[n:], s2.pc[n:]
        if not d1 or not d2:
            # one path's facts imply the other's: no condition separates them
            if v1 is v2 and s1.regs_ == s2.regs_:
                return s1, v1
            return None
        c = conj(d1)
        try:
            if conc(v1) and conc(v2) and int(v1) != int(v2) and not isinstance(v1, bool):
                if rw == 1:
                    v = simp(c)     # i1 result
                    if int(v1) == 0:
                        v = simp(z3.Not(c))
                elif rw is not None and rw <= 8:
                    v = simp(z3.If(c, bv(v1, rw), bv(v2, rw)))
                else:
                    return None
            elif isinstance(v1, bool) and isinstance(v2, bool) and v1 != v2:
                v = simp(c if v1 else z3.Not(c))
            else:
                v = self.mval(c, v1, v2) if not (v1 is None and v2 is None) else None
        except (NoMerge, NeedWidth):
            return None
        # memory
        plan = []
        cnt = 0
        for rid, r1 in s1.regs_.items():
            r2 = s2.regs_.get(rid)
            if r2 is None or r1 is r2:
                continue
            ch = []
            keys = {}
            for k1, d in r1.leaves.items():
                for o, x in d.items():
                    keys[(k1, o)] = x[0]
            for k1, d in r2.leaves.items():
                for o, x in d.items():
                    w = keys.get((k1, o))
                    if w is None:
                        keys[(k1, o)] = x[0]
                    elif w != x[0]:
                        return None
            for (k1, o), w in keys.items():
                a, b = r1.get(k1, o, w), r2.get(k1, o, w)
                if a is b:
                    continue
                if w == "p":
                    if isinstance(a, PtrArr) or isinstance(b, PtrArr):
                        if isinstance(a, PtrArr) and isinstance(b, PtrArr) and a.ents == b.ents and a.dflt is b.dflt:
                            continue
                        return None
                    try:
                        m = self.mval(c, a, b)
                    except (NoMerge, NeedWidth):
                        if (a is None or b is None):
                            m = None
                        else:
                            return None
                    if m is not a:
                        ch.append((k1, o, w, m))
                    continue
                ac, bc = conc(a), conc(b)
                if ac and bc:
                    if int(a) == int(b):
                        continue
                    if w > 8:
                        return None
                    m = simp(z3.If(c, bv(a, w), bv(b, w)))
                elif not ac and not bc and a.eq(b):
                    continue
                elif is_arr(a) if not ac else False:
                    m = self.merge_arrays(c, a, b)
                else:
                    m = simp(z3.If(c, bv(a, w), bv(b, w)))
                cnt += 1
                if cnt > self.merge_limit:
                    return None
                ch.append((k1, o, w, m))
            plan.append((rid, r1, r2, ch))
        s = s1.copy()
        s.regs_ = dict(s2.regs_)
        s.regs_.update(s1.regs_)
        s.pc = s1.pc[:n]
        s.pc.append(simp_or(d1, d2))
        s.qf = s1.qf[:k]
        cd2 = conj(d2)
        for q in s1.qf[k:]:
            s.qf.append(z3.Implies(c, q))
        for q in s2.qf[k:]:
            s.qf.append(z3.Implies(cd2, q))
        s.tags = dict(s1.tags)
        for t, x in s2.tags.items():
            if isinstance(t, tuple) and t[0] == "sn":
                s.tags[t] = max(x, s.tags.get(t, 0))
            else:
                s.tags[t] = x
        for rid, r1, r2, ch in plan:
            if not ch and r1.log is r2.log:
                continue
            w_ = s.wreg(rid)
            w_.es = {**r2.es, **r1.es}
            for k1, o, w, m in ch:
                w_.leaves.setdefault(k1, {})[o] = (w, m)
            if r1.log != r2.log:
                r1.owner = None if r1.owner in (s1.tok, s2.tok) else r1.owner
                r2.owner = None if r2.owner in (s1.tok, s2.tok) else r2.owner

                def mat(key, off, w, r1=r1, r2=r2, c=c):
                    a, b = r1.get(key, off, w), r2.get(key, off, w)
                    if w == "p":
                        return self.mval(c, a, b) if a is not None and b is not None else None
                    if a is b or (not conc(a) and not conc(b) and a.eq(b)):
                        return a
                    if not conc(a) and is_arr(a):
                        return z3.If(c, a, b)
                    return simp(z3.If(c, bv(a, w), bv(b, w)))
                w_.log = (("abs", (), -INF, INF, mat),)
        return s, v

    def merge_arrays(self, c, a, b):
        """If(c,a,b) for arrays, pushed below stores where the stores match"""
        if a.eq(b):
            return a
        sa, ba = store_list(a)
        sb, bb = store_list(b)
        if ba.eq(bb):
            # stores in application order
            ia = [i for i, _ in sa]
            ib = [i for i, _ in sb]
            seq = None
            if is_subseq(ia, ib):
                seq = ib
            elif is_subseq(ib, ia):
                seq = ia
            if seq is not None and len(set(i.get_id() for i in seq)) == len(seq):
                da = {i.get_id(): v for i, v in sa}
                db = {i.get_id(): v for i, v in sb}
                out = ba
                for i in seq:
                    va = da.get(i.get_id())
                    vb = db.get(i.get_id())
                    va = sel(ba, i) if va is None else va
                    vb = sel(ba, i) if vb is None else vb
                    if is_arr(va):
                        v = va if va.eq(vb) else self.merge_arrays(c, va, vb)
                    else:
                        v = bv(simp(z3.If(c, va, vb)), va.size())
                    out = z3.Store(out, i, v)
                return out
        return z3.If(c, a, b)

    # ------------------------------------------------------------ blocks
    def exec_region(self, fn, blocks, start, prev, st, regs, header):
        outs = []
        work = [(start, prev, st, regs, 0)]
        fr = self.stack[-1]
        loops = fn.loops
        while work:
            if len(outs) + len(work) > 600:
                raise Unsupported("too many paths in " + fn.name)
            b, prev, st, regs, idx = work.pop()
            blk = fn.blocks[b]
            insts = blk.insts
            n = len(insts)
            if idx == 0 and insts[0].op == "phi":
                new = {}
                while insts[idx].op == "phi":
                    i = insts[idx]
                    for v, l in i.a:
                        if l == prev:
                            new[i.res] = self.operand(st, regs, i.ty, v)
                            break
                    idx += 1
                regs = dict(regs)
                regs.update(new)
            alive = True
            while idx < n:
                i = insts[idx]
                self.now = st
                if i.dbg is not None:
                    fr[0] = i.dbg
                op = i.op
                idx += 1
                try:
                    if op == "call":
                        res = self.do_call(st, regs, i)
                        if not res:
                            alive = False
                            break
                        for s2, v2 in res[1:]:
                            r2 = dict(regs)
                            if i.res is not None:
                                r2[i.res] = v2
                            work.append((b, prev, s2, r2, idx))
                        st, v = res[0]
                        if i.res is not None:
                            if len(res) > 1:
                                regs = dict(regs)
                            regs[i.res] = v
                        continue
                    if op == "condbr":
                        c = self.operand(st, regs, ir.int_ty(1), i.a[0])
                        if blocks is not None and self.gov and (i.a[1] not in blocks or i.a[2] not in blocks):
                            if conc(c):
                                if self.gov[-1] is False:
                                    self.gov[-1] = True
                            elif b == header:
                                self.gov[-1] = None     # the loop condition itself is open
                        if c is None:
                            c = self.fresh_bool("undef")
                        br = self.branch(st, c)
                        tg = [((i.a[1] if t else i.a[2]), s) for s, t in br]
                        self.route(fn, blocks, header, b, tg, regs, outs, work)
                        alive = False
                        break
                    if op == "br":
                        self.route(fn, blocks, header, b, [(i.a[0], st)], regs, outs, work)
                        alive = False
                        break
                    if op == "switch":
                        v = self.operand(st, regs, i.ty, i.a[0])
                        d, cases = i.x
                        tg = []
                        if conc(v):
                            t = d
                            for cv, l in cases:
                                if cv == int(v):
                                    t = l
                            tg.append((t, st))
                        else:
                            w = strip(i.ty).bits
                            rest = st
                            for cv, l in cases:
                                br = self.branch(rest, simp(v == z3.BitVecVal(cv, w)))
                                rest = None
                                for s, t in br:
                                    if t:
                                        tg.append((l, s))
                                    else:
                                        rest = s
                                if rest is None:
                                    break
                            if rest is not None:
                                tg.append((d, rest))
                        self.route(fn, blocks, header, b, tg, regs, outs, work)
                        alive = False
                        break
                    if op == "ret":
                        v = self.operand(st, regs, i.ty, i.a[0]) if i.a else None
                        for bb in (fn.blocks[fn.entry],):
                            for k in bb.insts:
                                if k.op == "alloca" and k.res in regs:
                                    st.regs_.pop(regs[k.res].r, None)
                        outs.append(("ret", st, v))
                        self.paths += 1
                        alive = False
                        break
                    if op == "unreachable":
                        alive = False
                        break
                    self.step(st, regs, i)
                except ForkVal as f:
                    # case split on the value of a term
                    ss = []
                    covered = []
                    for val in f.vals:
                        e = simp(f.term == val)
                        s2 = st.copy()
                        if s2.assume(e) and self.feasible(s2, [e] if not conc(e) else []):
                            ss.append(s2)
                        covered.append(f.term != val)
                    s2 = st.copy()
                    oth = simp(z3.And(*covered))
                    if s2.assume(oth) and not conc(oth) and self.feasible(s2, [oth]):
                        self.oblige(s2, False, "array index within bounds", "safety")
                    for s in ss:
                        # rerun the instruction with the index pinned
                        work.append((b, prev, s, dict(regs), idx - 1))
                    alive = False
                    break
                except (Unsupported, TypeError, AttributeError, z3.Z3Exception, KeyError, IndexError) as e:
                    if isinstance(e, FatalUnsupported):
                        raise
                    if self.path_dead(st):
                        alive = False
                        break
                    if isinstance(e, BadPtr):
                        if self.discover:
                            self.dropped.append(st)
                        else:
                            self.oblige(st, False, "valid pointer (%s)" % e, "safety")
                        alive = False
                        break
                    if self.discover:
                        self.dropped.append(st)
                        alive = False
                        if self.opts.get("verbose"):
                            print("dropped in discovery: %s at %s" % (e, self.where()))
                        break
                    if not isinstance(e, Unsupported) and not self.opts.get("raw"):
                        raise FatalUnsupported("internal: %s: %s [%s] in %s" % (type(e).__name__, e, i, self.mod.dem.get(fn.name, fn.name)))
                    if isinstance(e, Unsupported):
                        raise FatalUnsupported("%s [at %s in %s]" % (e, self.where(), self.mod.dem.get(fn.name, fn.name)[:150]))
                    raise
        return outs

    def path_dead(self, st):
        if self.check_sat(list(st.pc), 2000) is False:
            return True
        if st.qf and self.check_sat(list(st.pc) + list(st.qf), 2000) is False:
            return True
        return False

    def route(self, fn, blocks, header, b, tg, regs, outs, work):
        for k, (t, s) in enumerate(tg):
            r = regs if k == 0 else dict(regs)
            if blocks is not None and t == header:
                outs.append(("back", b, s, r))
            elif blocks is not None and t not in blocks:
                outs.append(("exit", t, b, s, r))
            elif t in fn.loops and t != header:
                for o in self.loop(fn, t, b, s, r):
                    if o[0] == "ret":
                        outs.append(o)
                    else:
                        self.route(fn, blocks, header, o[2], [(o[1], o[3])], o[4], outs, work)
            else:
                work.append((t, b, s, r, 0))

    def step(self, st, regs, i):
        op = i.op
        if op == "load":
            p = self.operand(st, regs, ir.PTR, i.a[0])
            regs[i.res] = self.load(st, p, i.ty)
        elif op == "store":
            v = self.operand(st, regs, i.ty, i.a[0])
            p = self.operand(st, regs, ir.PTR, i.a[1])
            self.store(st, p, i.ty, v)
        elif op == "gep":
            vals = [self.operand(st, regs, t, v) for t, v in i.a]
            regs[i.res] = self.gep(st, i.ty, vals, [t for t, _ in i.a])
        elif op == "alloca":
            regs[i.res] = self.new_region(st, "stack", i.res, sizeof(i.ty))
        elif op == "icmp":
            regs[i.res] = self.icmp(st, i.x, i.ty, self.operand(st, regs, i.ty, i.a[0]),
                                    self.operand(st, regs, i.ty, i.a[1]))
        elif op in ir.BIN:
            regs[i.res] = self.binop(st, op, i.ty, self.operand(st, regs, i.ty, i.a[0]),
                                     self.operand(st, regs, i.ty, i.a[1]))
        elif op in ir.CASTS:
            regs[i.res] = self.cast(st, op, i.ty, i.x, self.operand(st, regs, i.ty, i.a[0]))
        elif op == "select":
            c = self.operand(st, regs, ir.int_ty(1), i.a[0])
            a = self.operand(st, regs, i.ty, i.a[1])
            b = self.operand(st, regs, i.ty, i.a[2])
            if isinstance(c, tuple):
                el = strip(i.ty).el
                regs[i.res] = tuple(self.ite(x, y, z, el.bits) for x, y, z in zip(c, a, b))
                return
            if not conc(c):
                d = self.decide(st, c)
                if d is not None:
                    c = d
            if conc(c):
                regs[i.res] = a if c else b
            else:
                t = strip(i.ty)
                if isinstance(t, ir.IntTy):
                    regs[i.res] = self.ite(c, a, b, t.bits)
                elif isinstance(t, ir.PtrTy):
                    try:
                        regs[i.res] = self.mval(c, a, b)
                    except (NoMerge, NeedWidth):
                        raise ForkVal(z3.If(c, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)), [0, 1])
                elif isinstance(t, ir.FloatTy):
                    regs[i.res] = z3.If(c, self.fpv(a, t.bits), self.fpv(b, t.bits))
                else:
                    raise Unsupported("select of %r" % (t,))
        elif op == "fcmp":
            regs[i.res] = self.fcmp(i.x, i.ty, self.operand(st, regs, i.ty, i.a[0]),
                                    self.operand(st, regs, i.ty, i.a[1]))
        elif op == "fneg":
            v = self.operand(st, regs, i.ty, i.a[0])
            regs[i.res] = -v if isinstance(v, float) else z3.fpNeg(v)
        elif op == "extractvalue":
            v = self.operand(st, regs, i.ty, i.a[0])
            for x in i.x:
                v = v[x]
            regs[i.res] = v
        elif op == "insertvalue":
            v = self.operand(st, regs, i.ty, i.a[0])
            w = self.operand(st, regs, i.a[1][0], i.a[1][1])

            def ins(v, ix):
                v = list(v)
                v[ix[0]] = w if len(ix) == 1 else ins(v[ix[0]], ix[1:])
                return tuple(v)
            regs[i.res] = ins(v, i.x)
        elif op == "extractelement":
            v = self.operand(st, regs, i.ty, i.a[0])
            k = self.operand(st, regs, ir.int_ty(64), i.a[1])
            regs[i.res] = v[int(k)]
        elif op == "insertelement":
            v = list(self.operand(st, regs, i.ty, i.a[0]))
            e = self.operand(st, regs, strip(i.ty).el, i.a[1])
            k = self.operand(st, regs, ir.int_ty(64), i.a[2])
            v[int(k)] = e
            regs[i.res] = tuple(v)
        elif op == "shufflevector":
            a = self.operand(st, regs, i.ty, i.a[0])
            b = self.operand(st, regs, i.ty, i.a[1])
            mt, mv = i.x
            m = self.operand(st, regs, mt, mv)
            ab = tuple(a) + tuple(b)
            regs[i.res] = tuple(ab[int(x)] if conc(x) else 0 for x in m)
        elif op == "freeze":
            regs[i.res] = self.operand(st, regs, i.ty, i.a[0])
        elif op == "dbgdeclare":
            pass
        elif op == "asm":
            # optimisation barriers only
            if i.res is not None:
                raise Unsupported("inline assembly")
        elif op == "fence":
            pass
        else:
            raise Unsupported("instruction " + op)

    def do_call(self, st, regs, i):
        tgt, at = i.x
        if tgt[0] == "reg":
            f = regs[tgt[1]]
            if isinstance(f, PInt):
                f = f.p
            if not isinstance(f, FnPtr):
                if isinstance(f, z3.ExprRef) or f is None or conc(f) or isinstance(f, Ptr):
                    raise BadPtr("call through %r" % (f,))
            name = f.name
        else:
            name = tgt[1]
        if name.startswith("llvm.") and (name.startswith("llvm.lifetime") or name.startswith("llvm.dbg")):
            return [(st, None)]
        args = [self.operand(st, regs, t, v) for t, v in i.a]
        return self.call(st, name, args, [t for t, _ in i.a], at, i.ty)

    # ------------------------------------------------------------ loops
    def loop(self, fn, h, prev, st, regs):
        blocks = fn.loops[h]
        key = (fn.name, h)
        mark = (len(self.obls), len(self.cover), len(self.dropped))
        st0 = st.copy()
        has_phi = fn.blocks[h].insts[0].op == "phi"
        try:
            outs = []
            cur = [(prev, st, regs)]
            for it in range(self.unroll_max):
                backs = []
                self.gov.append(False)
                try:
                    for p, s, r in cur:
                        for o in self.exec_region(fn, blocks, h, p, s, dict(r), h):
                            if o[0] == "back":
                                backs.append(o)
                            else:
                                outs.append(o)
                finally:
                    g = self.gov.pop()
                if not backs:
                    self.unrolled[self.mod.dem.get(fn.name, fn.name)] = max(
                        it, self.unrolled.get(self.mod.dem.get(fn.name, fn.name), 0))
                    return outs
                if not g:
                    raise NeedInv()
                if has_phi:
                    cur = [(o[1], o[2], o[3]) for o in backs]
                else:
                    m = self.merge_outs([(o[2], None) for o in backs])
                    cur = [(backs[0][1], s, regs) for s, _ in m]
                if len(cur) > (64 if has_phi else 16):
                    if has_phi:
                        raise Unsupported("too many paths in loop of " + fn.name)
                    raise NeedInv()
            raise NeedInv()
        except NeedInv:
            del self.obls[mark[0]:]
            del self.cover[mark[1]:]
            del self.dropped[mark[2]:]
        if has_phi:
            raise Unsupported("loop-carried register in " + fn.name)
        from loops import cut_loop
        dem = self.mod.dem.get(fn.name, fn.name)
        self.loops_cut[(dem, h)] = self.loops_cut.get((dem, h), 0) + 1
        return cut_loop(self, fn, h, prev, st0, regs, blocks)


class NoMerge(Exception):
    pass


class NeedWidth(Exception):
    pass


class FatalUnsupported(Unsupported):
    pass


NOMODEL = object()


def conj(l):
    if len(l) == 1:
        return l[0]
    return z3.And(*l)


def simp_or(d1, d2):
    """disjunction of two conjunctions with common conjuncts factored out"""
    i2 = {f.get_id() for f in d2}
    com = [f for f in d1 if f.get_id() in i2]
    ci = {f.get_id() for f in com}
    r1 = [f for f in d1 if f.get_id() not in ci]
    r2 = [f for f in d2 if f.get_id() not in ci]
    if not r1 or not r2:
        return z3.And(*com) if com else z3.BoolVal(True)
    o = z3.simplify(z3.Or(conj(r1), conj(r2)))
    if com:
        return z3.And(*(com + [o]))
    return o


def store_list(a):
    out = []
    while z3.is_store(a):
        b, i, v = a.children()
        out.append((i, v))
        a = b
    out.reverse()
    return out, a


def is_subseq(a, b):
    it = iter(b)
    return all(any(x.eq(y) for y in it) for x in a)
