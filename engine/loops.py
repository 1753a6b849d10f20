"""Loop cutting: the state at iteration n as closed forms / recurrences over n.

For a loop whose exits are not decided by constants, every memory leaf the body
may change is described at the start of iteration n by a term over n:
 - a solved recurrence (linear scalars, arrays filled at strided indices,
   values that depend on the previous iteration only), or
 - an application X(n) of a fresh function constrained by X(0) = initial value
   and X(m+1) = body(X(m), m) for every completed iteration m.
Both are exact consequences of the body's semantics.  Additionally every
completed iteration m < n satisfies the body's path condition.
"""
import z3
from ir import Unsupported
from terms import *
from mem import *
import exec as EX
from exec import conc, State, simp2


class Hav:
    __slots__ = ("w", "kind", "X", "x0", "term", "rd", "nd", "base", "name", "sig")


def mentions(e, names, ex):
    if conc(e) or e is None:
        return False
    return bool(ex.syms(e) & names)


def subst(e, pairs):
    if conc(e) or e is None:
        return e
    return z3.substitute(e, *pairs)


def conj_(l):
    if not l:
        return z3.BoolVal(True)
    return l[0] if len(l) == 1 else z3.And(*l)


def cut_loop(ex, fn, h, prev, st0, regs0, blocks):
    ex.now = st0
    lname = ex.sname("L")
    nname = ex.sname("n")
    outer = tuple(ex.ctx)
    if outer:
        n = z3.Function(nname, *([BV64] * len(outer)), BV64)(*outer)
    else:
        n = z3.Const(nname, BV64)
    hav = {}
    subs = {}
    ids = {}
    bounds = []
    pcfacts = None        # (ground, [quant]) as terms over n
    rounds = 0
    final = False
    mark = (len(ex.obls), len(ex.cover), len(ex.dropped))

    def xterm(key, sort):
        nm = "%s|%s" % (lname, leaf_name(str(key[0]), key[1], key[2]))
        return z3.Function(nm, *([BV64] * (len(outer) + 1)), sort)(*(outer + (n,))), nm

    def setup(st):
        """install the state at the head of iteration n"""
        for (rid, k, lo, hi), tag in subs.items():
            if rid not in st.regs_:
                continue
            r = st.wreg(rid)
            r.drop(k, lo, hi)
            r.log = r.log + (("abs", k, lo, hi, fresh_materialiser(tag, outer + (n,))),)
        for key, H in hav.items():
            rid, k, o = key
            if any(rid == s[0] and covers(s[1], s[2], s[3], k, o) for s in subs):
                continue
            r = st.wreg(rid)
            d = r.leaves.setdefault(k, {})
            if H.kind == "poison":
                d[o] = ("p", None)
            elif H.kind == "parr":
                d[o] = ("p", H.term if H.term is not None else H.X)
            elif H.kind == "pidx":
                p = H.base
                d[o] = ("p", Ptr(p.r, p.k, p.i[:-1] + (H.term if H.term is not None else H.X,), p.o))
            elif H.kind == "bool":
                d[o] = (H.w, H.term if H.term is not None else H.X)
            else:
                d[o] = (H.w, H.term if H.term is not None else H.X)
        for b in bounds:
            st.pc.append(b)
        if pcfacts is not None:
            g, qs = pcfacts
            m = z3.Const(nname + "m", BV64)
            if not z3.is_true(g):
                prevg = z3.simplify(z3.substitute(g, (n, n - 1)))
                st.pc.append(z3.simplify(z3.Or(n == 0, prevg)))
                st.qf.append(z3.ForAll([m], z3.Implies(z3.ULT(m, n), z3.substitute(g, (n, m)))))
                g0 = z3.simplify(z3.substitute(g, (n, z3.BitVecVal(0, 64))))
                if not z3.is_true(g0):
                    st.pc.append(z3.simplify(z3.Or(n == 0, g0)))
            for q in qs:
                st.qf.append(z3.ForAll([m], z3.Implies(z3.ULT(m, n), z3.substitute(q, (n, m)))))
        # recurrences of unsolved leaves that are read
        for key, H in hav.items():
            if H.term is None and H.kind in ("x", "pidx") and H.rd is not None:
                base = z3.substitute(H.X, (n, z3.BitVecVal(0, 64)))
                x0 = bv(H.x0, H.w) if conc(H.x0) else H.x0
                M = H.rd
                m = z3.Const(nname + "m", BV64)
                st.pc.append(base == x0) if not has_quant(x0) and not is_arr(x0) else st.qf.append(base == x0)
                stepn = z3.substitute(H.X, (n, m + 1)) == z3.substitute(M, (n, m))
                st.qf.append(z3.ForAll([m], z3.Implies(z3.ULT(m, n), stepn)))
                inst = z3.Or(n == 0, H.X == z3.substitute(M, (n, n - 1)))
                (st.qf if has_quant(inst) or is_arr(H.X) else st.pc).append(inst)
        for f in ex.loop_hints(st, fn, h, n, hav, outer):
            pass

    while True:
        rounds += 1
        if rounds > 60:
            raise Unsupported("loop not summarised in " + fn.name)
        del ex.obls[mark[0]:]
        del ex.cover[mark[1]:]
        del ex.dropped[mark[2]:]
        Fresh_n = Fresh.n
        st = st0.copy()
        setup(st)
        head = st.copy()
        head_pc, head_qf = len(st.pc), len(st.qf)
        ex.ctx.append(n)
        ex.gov.append(False)
        if not final:
            ex.discover += 1
        try:
            outs = ex.exec_region(fn, blocks, h, prev, st, dict(regs0), h)
        finally:
            ex.ctx.pop()
            ex.gov.pop()
            if not final:
                ex.discover -= 1
        backs = [o for o in outs if o[0] == "back"]
        dropped = ex.dropped[mark[2]:]
        if ex.opts.get("verbose"):
            print("%sloop %s round %d: %d backs %d outs %d dropped hav=%d subs=%d" % (
                "  " * ex.depth, ex.mod.dem.get(fn.name, fn.name)[:70], rounds, len(backs), len(outs), len(dropped),
                len(hav), len(subs)))
        changed = find_modified(ex, head, backs, hav, subs, lname, xterm, st0)
        if changed:
            final = False
            continue
        # merged value of each leaf at the back edge
        diffs = []
        for o in backs:
            s = o[2]
            diffs.append((s.pc[head_pc:], s.qf[head_qf:]))
        merged = {}
        for key, H in hav.items():
            rid, k, o = key
            if any(rid == s[0] and covers(s[1], s[2], s[3], k, o) for s in subs):
                continue
            vals = []
            for ob in backs:
                r = ob[2].regs_.get(rid)
                if r is None:
                    vals.append(None)
                    continue
                if H.kind in ("poison", "pidx", "parr"):
                    x = r.leaves.get(k, {}).get(o)
                    vals.append(x[1] if x else None)
                else:
                    vals.append(r.get(k, o, H.w))
            merged[key] = vals
        # try to solve unsolved leaves
        ex.loop_pc = list(head.pc) + [f for f in (backs[0][2].pc[head_pc:] if backs else []) if len(backs) == 1 or all(any(f.eq(g) for g in b[2].pc[head_pc:]) for b in backs[1:])]
        if not final:
            if solve_round(ex, hav, merged, diffs, n, outer, backs, outs, st0):
                continue
        else:
            if solve_round(ex, hav, merged, diffs, n, outer, backs, outs, st0):
                final = False
                continue
        # path condition of a completed iteration
        if not final:
            alld = list(diffs)
            for s in dropped:
                alld.append((s.pc[head_pc:], []))
            pcfacts = path_facts(alld)
            infer_bounds(ex, head, hav, pcfacts, n, bounds)
            final = True
            continue
        break
    res = []
    if ex.opts.get("verbose"):
        for key, H in hav.items():
            print("   leaf", key, H.kind, "term=", H.term if H.term is None or conc(H.term) else str(H.term)[:200])
    for o in outs:
        if o[0] == "back":
            continue
        s = o[2] if o[0] == "exit" and False else (o[3] if o[0] == "exit" else o[1])
        finish_exit(ex, s, n, nname, head_pc)
        res.append(o)
    return res


def find_modified(ex, head, backs, hav, subs, lname, xterm, st0):
    changed = False
    for ob in backs:
        s = ob[2]
        for rid, hr in head.regs_.items():
            br = s.regs_.get(rid)
            if br is None or br is hr:
                continue
            hl = set(id(e) for e in hr.log)
            for e in br.log:
                if id(e) not in hl:
                    if e[2] <= -INF and plain_leaves(br, e[1]):
                        # all bytes of an element are leaves: described by their recurrences
                        r0 = None
                        for o, (w, t) in br.leaves[e[1]].items():
                            if isinstance(o, int) and not hr.has(e[1], o):
                                r0 = r0 or st0.wreg(rid)
                                r0.get(e[1], o, w)
                                changed = True
                        continue
                    if ex.opts.get("verbose"):
                        print("LOGSUB", rid, e[:4], br.es, {k: {o: x[0] for o, x in d.items()} for k, d in br.leaves.items()})
                    key = (rid, e[1], e[2], e[3])
                    if not any(key[0] == s2[0] and sub_covers(s2, key) for s2 in subs):
                        subs[key] = "%s_s%d" % (lname, len(subs))
                        changed = True
            for k, d in br.leaves.items():
                hd = hr.leaves.get(k, {})
                for o, (w, t) in d.items():
                    x = hd.get(o)
                    if x is not None and x[1] is t:
                        continue
                    key = (rid, k, o)
                    if any(rid == s2[0] and covers(s2[1], s2[2], s2[3], k, o) for s2 in subs):
                        continue
                    if x is None:
                        try:
                            t0 = hr.get(k, o, w)
                        except Unsupported:
                            t0 = None
                        w0 = hr.leaves[k][o][0] if o in hr.leaves.get(k, {}) else w
                    else:
                        w0, t0 = x
                    if key in hav:
                        H = hav[key]
                        if H.kind == "pidx" and not (isinstance(t, Ptr) and t.r == H.base.r and t.k == H.base.k and t.o == H.base.o):
                            H.kind = "poison"
                            H.term = None
                            changed = True
                        continue
                    if w == w0 and w != "p":
                        if (conc(t) and conc(t0) and int(t) == int(t0)) or \
                                (not conc(t) and not conc(t0) and t is not None and t0 is not None and t.eq(t0)):
                            continue
                    if w == "p" and w0 == "p" and same_ptr(t, t0):
                        continue
                    H = Hav()
                    H.w, H.term, H.rd, H.X, H.base, H.sig = w, None, None, None, None, None
                    H.x0 = t0
                    if w == "p" or w0 == "p":
                        H.w = "p"
                        if ndims(k) > 0:
                            H.kind = "parr"
                            H.X = PtrArr((), unsummarised)
                            H.name = "parr?"
                        elif isinstance(t, Ptr) and isinstance(t0, Ptr) and t.r == t0.r and t.k == t0.k and t.o == t0.o \
                                and len(t.i) and len(t.i) == len(t0.i) and all(eqi(a, b) is True for a, b in zip(t.i[:-1], t0.i[:-1])):
                            H.kind = "pidx"
                            H.base = t0
                            H.w = 64
                            H.X, H.name = xterm(key, BV64)
                            H.x0 = t0.i[-1]
                        else:
                            H.kind = "poison"
                    else:
                        if w != w0:
                            # layout changed: use the body's layout with unknown start
                            subs_key = (rid, k, o0(o), o0(o) + max(w, w0 if w0 != "p" else 64) // 8)
                            subs[subs_key] = "%s_s%d" % (lname, len(subs))
                            changed = True
                            continue
                        H.kind = "x"
                        nd = ndims(k)
                        H.X, H.name = xterm(key, arr_sort(nd, w))
                    hav[key] = H
                    changed = True
    return changed


def plain_leaves(r, k):
    """every byte of the elements below key k belongs to an integer leaf"""
    es = r.es.get(k)
    es = es[0] if es else None
    if not conc(es) or es is None or es > 64:
        return False
    n = len(k)
    if any(len(q) > n and q[:n] == k for q in r.leaves) or any(len(q) > n and q[:n] == k for q in r.es):
        return False
    d = r.leaves.get(k, {})
    tot = 0
    for o, (w, t) in d.items():
        if not isinstance(o, int) or w == "p":
            return False
        tot += w // 8
    return tot == es


def unsummarised(ix):
    raise Unsupported("read of a pointer array the loop is filling")


def solve_parr(ex, H, vals, n):
    """closed form of an array of pointers filled one element per iteration"""
    ents = None
    for v in vals:
        if not isinstance(v, PtrArr) or v.dflt is not H.X.dflt:
            return None
        if ents is None:
            ents = v.ents
        elif len(ents) != len(v.ents) or not all(len(a[0]) == len(b[0]) and all(eqi(x, y) is True for x, y in zip(a[0], b[0])) and
                                                  same_ptr(a[1], b[1]) for a, b in zip(ents, v.ents)):
            return None
    if not ents:
        return H.x0 if isinstance(H.x0, PtrArr) else PtrArr((), lambda ix: None)
    if len(ents) != 1:
        return None
    ix, val = ents[0]
    cf = coef(ex, ix[-1], n)
    if cf is None or cf[1] == 0:
        return None
    for x in ix[:-1]:
        if not conc(x) and n.decl().name() in ex.syms(x):
            return None
    if not (isinstance(val, (Ptr, FnPtr)) or conc(val)):
        return None
    a, c = cf
    x0 = H.x0

    def dflt(jx, ix=ix, val=val):
        st = ex.now
        cs = [bv(p, 64) == bv(q, 64) for p, q in zip(ix[:-1], jx[:-1])]
        d = z3.simplify(bv(jx[len(ix) - 1], 64) - bv(a, 64)) if c > 0 else z3.simplify(bv(a, 64) - bv(jx[len(ix) - 1], 64))
        k = abs(c)
        q = d if k == 1 else z3.UDiv(d, z3.BitVecVal(k, 64))
        if k != 1:
            cs.append(z3.URem(d, z3.BitVecVal(k, 64)) == 0)
        cs.append(z3.ULT(q, dflt.n))
        r = ex.decide(st, z3.And(*cs))
        if r is True:
            if isinstance(val, Ptr):
                v = Ptr(val.r, val.k, tuple(i if conc(i) else simp2(z3.substitute(i, (n, q))) for i in val.i), val.o)
            else:
                v = val
            return v if len(jx) == len(ix) else ex.ptrarr_load(st, v, jx[len(ix):])
        if r is False:
            return ex.ptrarr_load(st, x0, jx) if x0 is not None else None
        raise Unsupported("pointer element may or may not be written")
    dflt.n = n
    dflt.remake = lambda t, nn=n: remake_parr(dflt, nn, t, solve_parr_parts)
    solve_parr_parts = (ex, H, vals, n)
    return PtrArr((), dflt)


def remake_parr(dflt, n, t, parts):
    ex, H, vals, n0 = parts
    p = solve_parr(ex, H, vals, n0)
    p.dflt.n = z3.substitute(dflt.n, (n0, t))
    return p


def sub_covers(s, key):
    return s[0] == key[0] and (
        (s[1] == key[1] and s[2] <= key[2] and key[3] <= s[3]) or
        (len(s[1]) < len(key[1]) and key[1][:len(s[1])] == s[1] and s[2] <= c0(key[1][len(s[1])]) < s[3]))


def same_ptr(a, b):
    if a is b:
        return True
    if conc(a) and conc(b):
        return int(a) == int(b)
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.r == b.r and a.k == b.k and a.o == b.o and len(a.i) == len(b.i) and \
            all(eqi(x, y) is True for x, y in zip(a.i, b.i))
    if isinstance(a, FnPtr) and isinstance(b, FnPtr):
        return a.name == b.name
    if isinstance(a, PtrArr) and isinstance(b, PtrArr):
        return a.ents == b.ents and a.dflt is b.dflt
    return False


def merge_vals(ex, vals, diffs, w):
    """one term for the back-edge value (None if not expressible)"""
    if any(v is None for v in vals):
        return None
    r = vals[-1]
    for v, (g, q) in list(zip(vals, diffs))[-2::-1]:
        if (conc(v) and conc(r) and int(v) == int(r)) or (not conc(v) and not conc(r) and v.eq(r)):
            continue
        c = conj_(g)
        if not conc(v) and is_arr(v) or not conc(r) and is_arr(r):
            r = ex.merge_arrays(c, v, r)
        else:
            r = simp(z3.If(c, bv(v, w), bv(r, w)))
    return r


def solve_round(ex, hav, merged, diffs, n, outer, backs, outs, st0):
    """solve what can be solved; True if the head state changed"""
    names = {H.name for H in hav.values() if H.X is not None and H.term is None and H.kind != "parr"}
    terms = {}
    parrs = []
    for key, H in hav.items():
        if H.kind == "poison" or key not in merged or H.term is not None:
            continue
        vals = merged[key]
        if H.kind == "parr":
            parrs.append((H, vals))
            continue
        if H.kind == "pidx":
            vv = []
            for v in vals:
                if not isinstance(v, Ptr) or v.r != H.base.r or v.k != H.base.k or v.o != H.base.o:
                    vv = None
                    break
                vv.append(v.i[-1])
            if vv is None:
                H.kind = "poison"
                return True
            vals = vv
        M = merge_vals(ex, vals, diffs, H.w)
        terms[key] = M
    changed = False
    # linear scalars and strided arrays first; terms over other unsolved symbols only if nothing else is solved
    others = {hav[k].name: (hav[k].X, hav[k].x0, M) for k, M in terms.items() if M is not None and hav[k].X is not None and is_arr(hav[k].X)}
    for strict in (True, False):
        ex.loop_others = others if strict else {}
        for key, M in terms.items():
            H = hav[key]
            if M is None or H.x0 is None or H.term is not None:
                continue
            t = solve_rec(ex, H.X, H.x0, M, n, H.w, {H.name})
            if t is not None and not (strict and not conc(t) and mentions(t, names, ex)):
                H.term = t
                changed = True
        if changed:
            return True
    for H, vals in parrs:
        t = solve_parr(ex, H, vals, n)
        if t is None:
            H.kind = "poison"
        else:
            H.term = t
        return True
    # which unsolved symbols are read at all?
    used = set()
    for o in outs:
        s = o[2] if o[0] == "back" else (o[3] if o[0] == "exit" else o[1])
        for f in s.pc:
            used |= ex.syms(f)
        for f in s.qf:
            used |= ex.syms(f)
    for ob in ex.obls:
        if ob.facts is not None and z3.is_expr(ob.goal):
            used |= ex.syms(ob.goal)
    for key, vals in merged.items():
        H = hav[key]
        for v in vals:
            if v is None or conc(v) or not z3.is_expr(v):
                if isinstance(v, Ptr):
                    for x in v.i:
                        if not conc(x):
                            used |= ex.syms(x)
                continue
            s = ex.syms(v)
            used |= s
    for o in outs:
        if o[0] == "back":
            continue
        s = o[3] if o[0] == "exit" else o[1]
        for rid, r in s.regs_.items():
            if r.owner is None and rid in st0.regs_ and st0.regs_[rid] is r:
                continue
            for k, d in r.leaves.items():
                for oo, (w, t) in d.items():
                    if w == "p":
                        if isinstance(t, Ptr):
                            for x in t.i:
                                if not conc(x):
                                    used |= ex.syms(x)
                        continue
                    if not conc(t) and t is not None:
                        H = hav.get((rid, k, oo))
                        if H is not None and H.X is not None and t.eq(H.X):
                            continue
                        used |= ex.syms(t)
    batch = False
    for key, M in terms.items():
        H = hav[key]
        if M is None or H.x0 is None or mentions(M, names, ex):
            continue
        prevM = subst(bv(M, H.w) if conc(M) else M, [(n, n - 1)])
        x0 = bv(H.x0, H.w) if conc(H.x0) else H.x0
        if conc(M) and conc(H.x0) and int(M) == int(H.x0):
            H.term = H.x0
        elif is_arr(prevM):
            H.term = z3.If(n == 0, x0, prevM)
        else:
            H.term = simp(z3.If(n == 0, x0, prevM))
        batch = True
    if batch:
        return True
    for key, M in terms.items():
        H = hav[key]
        if M is None:
            continue
        live = H.name in used
        if not live:
            # still visible after the loop unless it is a stack temporary; keep the recurrence cheap: none
            r = st0.regs_.get(key[0])
            if r is None or r.kind == "stack" and ndims(key[1]) == 0 and "tmp" in r.name:
                continue
        # previous-iteration form
        if not mentions(M, {H.name}, ex) and H.x0 is not None:
            prevM = subst(bv(M, H.w) if conc(M) else M, [(n, n - 1)])
            x0 = bv(H.x0, H.w) if conc(H.x0) else H.x0
            if conc(M) and conc(H.x0) and int(M) == int(H.x0):
                H.term = H.x0
            elif is_arr(prevM):
                H.term = z3.If(n == 0, x0, prevM)
            else:
                H.term = simp(z3.If(n == 0, x0, prevM))
            return True
        if live or True:
            Mt = bv(M, H.w) if conc(M) else M
            if H.rd is None or not H.rd.eq(Mt):
                first = H.rd is None
                H.rd = Mt
                if first:
                    changed = True
    return changed


def coef(ex, t, n):
    """(a, c) with t = a + c*n for a constant stride c, or None; t is a BV64 term or int"""
    if conc(t):
        return int(t), 0
    t1 = z3.substitute(t, (n, n + 1))
    d = z3.simplify(t1 - t)
    if z3.is_bv_value(d):
        a = simp2(z3.substitute(t, (n, z3.BitVecVal(0, 64))))
        return a, sint(d.as_long(), 64)
    return None


def solve_rec(ex, X, x0, M, n, w, self_names):
    if conc(M):
        return None     # constant: previous-iteration form
    if is_arr(M):
        return solve_arr(ex, X, x0, M, n, self_names)
    if M.eq(X):
        return x0
    D = z3.simplify(M - X)
    if not mentions(D, self_names, ex):
        if not mentions(D, {n.decl().name()}, ex):
            nw = n if w == 64 else (z3.Extract(w - 1, 0, n) if w < 64 else z3.ZeroExt(w - 64, n))
            if z3.is_bv_value(D) and w < 64 and conc(x0):
                # keep 64-bit structure for later widening
                c = sint(D.as_long(), w)
                return simp2(z3.Extract(w - 1, 0, z3.simplify(z3.BitVecVal(sint(int(x0), w), 64) + c * n)))
            if z3.is_bv_value(D) and w < 64 and not conc(x0) and x0.decl().kind() == z3.Z3_OP_EXTRACT \
                    and x0.params() == [w - 1, 0] and x0.children()[0].size() == 64:
                c = sint(D.as_long(), w)
                return simp2(z3.Extract(w - 1, 0, z3.simplify(x0.children()[0] + c * n)))
            return simp2(bv(x0, w) + D * nw)
    return None


def as_scalar_rec(ex, X, x0, M, n, w, names):
    return solve_rec(ex, X, x0, M, n, w, names)


def solve_arr(ex, X, x0, M, n, names):
    from interp import store_list
    if M.eq(X):
        return x0
    M = push_ite(ex, M)
    stores, base = store_list(M)
    if not base.eq(X):
        return solve_pointwise(ex, X, x0, M, n, names)
    nset = {n.decl().name()}
    info = []
    for i, v in stores:
        if mentions(i, names, ex):
            return None
        cf = coef(ex, i, n)
        if cf is None:
            return None
        info.append((i, v, cf[0], cf[1]))
    strides = {c for _, _, _, c in info}
    if strides == {0}:
        # fixed cells updated every iteration
        if len(info) != 1:
            idx = [i for i, _, _, _ in info]
            for a in range(len(idx)):
                for b in range(a):
                    if eqi(idx[a], idx[b]) is not False:
                        return None
        out = x0
        for i, v, a, _ in info:
            sub0 = sel(x0, i)
            Xi = z3.Select(X, bv(i, 64))
            v1, ok = replace_reads(ex, v, X, i, x0, names, keep=True)
            if not ok:
                return None
            # v1 mentions X only as Select(X,i): treat that cell as the recurrence variable
            Y = z3.Const(Fresh.name("cell"), Xi.sort())
            vy = z3.substitute(v1, (Xi, Y))
            if mentions(vy, names, ex):
                return None
            w = Xi.size() if not is_arr(Xi) else None
            if not mentions(vy, {Y.decl().name()}, ex):
                return None
            t = solve_rec(ex, Y, fold(sub0) if not is_arr(sub0) else sub0, vy, n, w, {Y.decl().name()})
            if t is None:
                return None
            out = z3.Store(out, bv(i, 64), bv(t, w) if w else t)
        return out
    if 0 in strides or len(strides) != 1:
        return None
    c = strides.pop()
    j = z3.Const(Fresh.name("j"), BV64)
    m = z3.Const(Fresh.name("mm"), BV64)
    res = sel(x0, j)
    u = uniform(ex, X, x0, info, c, n, j, names)
    if u is not None:
        return z3.Lambda([j], z3.If(u[0], u[1], res))
    for i, v, a, _ in info:
        v1 = replace_all_reads(ex, v, X, [x[0] for x in info], x0, names)
        if v1 is None:
            return None
        v1 = initial_reads(ex, v1, n, X.decl().name())
        if c > 0:
            d = z3.simplify(j - bv(a, 64))
        else:
            d = z3.simplify(bv(a, 64) - j)
        k = abs(c)
        if k == 1:
            q, cond = d, z3.ULT(d, n)
        else:
            q = z3.UDiv(d, z3.BitVecVal(k, 64))
            cond = z3.And(z3.URem(d, z3.BitVecVal(k, 64)) == 0, z3.ULT(q, n))
        val = z3.substitute(v1, (n, q))
        res = z3.If(cond, val, res)
    return z3.Lambda([j], res)


def uniform(ex, X, x0, info, c, n, j, names):
    """c stores per iteration that fill c consecutive cells with the same function of the index: (condition, value at j)"""
    if c < 2 or len(info) != c:
        return None
    base = {}
    for i, v, a, _ in info:
        d = z3.simplify(bv(a, 64) - bv(info[0][2], 64))
        if not z3.is_bv_value(d):
            return None
        base[sint(d.as_long(), 64)] = (v, a)
    lo = min(base)
    if sorted(base) != list(range(lo, lo + c)):
        return None
    a0 = base[lo][1]
    val = None
    cn = z3.BitVecVal(c, 64) * n
    forms = [cn, z3.simplify(cn)]
    sh = c.bit_length() - 1
    if 1 << sh == c:
        forms.append(z3.Concat(z3.Extract(63 - sh, 0, n), z3.BitVecVal(0, sh)))
    for k in sorted(base):
        v, a = base[k]
        v1 = replace_all_reads(ex, v, X, [x[0] for x in info], x0, names)
        if v1 is None:
            return None
        v1 = z3.simplify(v1)
        r = z3.simplify(j - bv(a, 64))
        v2 = z3.simplify(z3.substitute(v1, *[(f, r) for f in forms]))
        if mentions(v2, {n.decl().name()}, ex):
            return None
        if val is None:
            val = v2
        elif not val.eq(v2):
            return None
    d = z3.simplify(j - bv(a0, 64))
    if is_arr(val):
        return None
    # d < c*n; iterations before n stay below 2^64 / c cells
    big = z3.ULE(n, z3.BitVecVal((1 << 63) // c, 64))
    if ex.check_sat(ex.relevant(list(ex.loop_pc or []), [z3.Not(big)]), 2000) is not False:
        return None
    return z3.ULT(d, cn), val


def touched(body, Y):
    """(condition under which the cell is written, value written) for body over the old cell Y"""
    if body.eq(Y):
        return z3.BoolVal(False), None
    if z3.is_app(body) and body.decl().kind() == z3.Z3_OP_ITE:
        c, a, b = body.children()
        ta, va = touched(a, Y)
        tb, vb = touched(b, Y)
        if va is None and vb is None:
            return z3.BoolVal(False), None
        if va is None:
            return z3.And(z3.Not(c), tb), vb
        if vb is None:
            return z3.And(c, ta), va
        return z3.Or(z3.And(c, ta), z3.And(z3.Not(c), tb)), (va if va.eq(vb) else z3.If(c, va, vb))
    return z3.BoolVal(True), body


def touched_pred(ex, X, M, j):
    """condition under which iteration n writes cell j of X, or None"""
    M = push_ite(ex, M)
    from interp import store_list
    if M.eq(X):
        return z3.BoolVal(False)
    stores, base = store_list(M)
    nm = {X.decl().name()}
    if base.eq(X):
        if any(mentions(i, nm, ex) for i, _ in stores):
            return None
        return z3.Or(*[j == i for i, _ in stores])
    body = sel(M, j)
    if is_arr(body):
        return None
    body = z3.simplify(body)
    cell = z3.Select(X, j)
    Y = z3.Const(Fresh.name("cell"), cell.sort())
    T, V = touched(z3.substitute(body, (cell, Y)), Y)
    if mentions(T, nm | {Y.decl().name()}, ex):
        return None
    return T


def initial_reads(ex, V, n, me):
    """replace reads of cells of other loop arrays that no earlier iteration has written"""
    for nm, (X, x0, M) in (ex.loop_others or {}).items():
        if nm == me or not mentions(V, {nm}, ex):
            continue
        reads = []
        st, seen = [V], set()
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SELECT and x.arg(0).eq(X):
                reads.append(x)
            st.extend(x.children())
        if not reads:
            continue
        m = z3.Const(Fresh.name("m"), BV64)
        for r in reads:
            t = r.arg(1)
            if has_var(t) or is_arr(r):
                continue
            j = z3.Const(Fresh.name("j"), BV64)
            T = touched_pred(ex, X, M, j)
            if T is None:
                continue
            g = [z3.ULT(m, n), z3.substitute(z3.substitute(T, (n, m)), (j, t))]
            if ex.check_sat(ex.relevant(list(ex.loop_pc or []), g), 3000) is False:
                V = z3.substitute(V, (r, bv_or(sel(x0, t), X)))
    return V


def has_var(t):
    st = [t]
    while st:
        x = st.pop()
        if z3.is_var(x):
            return True
        st.extend(x.children())
    return False


def lin_candidates(T, j, n, acc):
    """terms of the guard T of the form +-(j - a - c*n): [(a, c)]"""
    st = [T]
    seen = set()
    zero = z3.BitVecVal(0, 64)
    while st:
        x = st.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        if z3.is_bv(x) and x.size() == 64:
            cj = z3.simplify(z3.substitute(x, (j, j + 1)) - x)
            cn = z3.simplify(z3.substitute(x, (n, n + 1)) - x)
            if z3.is_bv_value(cj) and z3.is_bv_value(cn) and cn.as_long() != 0:
                s = sint(cj.as_long(), 64)
                if s in (1, -1):
                    c = -s * sint(cn.as_long(), 64)
                    r = z3.simplify(z3.substitute(x, (j, zero), (n, zero)))
                    a = z3.simplify(-r) if s == 1 else r
                    acc.append((a, c))
                    continue
        # comparisons between j and a term linear in n
        if x.num_args() == 2 and x.arg(0).sort() == x.arg(1).sort() and z3.is_bv(x.arg(0)) and x.arg(0).size() == 64:
            for p, q in ((x.arg(0), x.arg(1)), (x.arg(1), x.arg(0))):
                if p.eq(j):
                    cf = coef(None, q, n)
                    if cf is not None and cf[1] != 0:
                        acc.append((bv(cf[0], 64), cf[1]))
        st.extend(x.children())


def solve_pointwise(ex, X, x0, M, n, names):
    """cells updated independently of each other, each in at most one iteration"""
    j = z3.Const(Fresh.name("j"), BV64)
    body = sel(M, j)
    if is_arr(body):
        return None
    body = z3.simplify(body)
    cell = z3.Select(X, j)
    Y = z3.Const(Fresh.name("cell"), cell.sort())
    body = z3.substitute(body, (cell, Y))
    if mentions(body, names, ex):
        return None
    T, V = touched(body, Y)
    T = z3.simplify(T)
    if V is None:
        return x0
    if mentions(T, {Y.decl().name()}, ex) or ex.loop_pc is None:
        return None
    cand = []
    lin_candidates(T, j, n, cand)
    tried = set()
    for a, c in cand:
        k = (str(a), c)
        if k in tried or len(tried) > 3:
            continue
        tried.add(k)
        d = z3.simplify(j - a) if c > 0 else z3.simplify(a - j)
        q = d if abs(c) == 1 else z3.UDiv(d, z3.BitVecVal(abs(c), 64))
        goals = [T, q != n]
        if ex.check_sat(ex.relevant(ex.loop_pc, goals), 5000) is not False:
            continue
        cond = z3.And(z3.ULT(q, n), z3.substitute(T, (n, q)))
        ex.loop_pc.append(T)
        try:
            V = initial_reads(ex, V, n, X.decl().name())
        finally:
            ex.loop_pc.pop()
        val = z3.substitute(z3.substitute(V, (n, q)), (Y, sel(x0, j)))
        return z3.Lambda([j], z3.If(cond, val, sel(x0, j)))
    return None


def push_ite(ex, M):
    """ite(c, store-chain over B, store-chain over B) -> store chain"""
    if M.decl().kind() == z3.Z3_OP_ITE if z3.is_app(M) else False:
        c, a, b = M.children()
        return ex.merge_arrays(c, push_ite(ex, a), push_ite(ex, b))
    return M


def replace_all_reads(ex, v, X, idxs, x0, names):
    for i in idxs:
        v = z3.substitute(v, (z3.Select(X, bv(i, 64)), bv_or(sel(x0, i), X)))
    if mentions(v, names, ex):
        # reads at indices that are never written before they are read: X[t] with t ahead of the front
        return None
    return v


def bv_or(t, X):
    if conc(t):
        s = X.sort().range()
        return z3.BitVecVal(int(t), s.size())
    return t


def replace_reads(ex, v, X, i, x0, names, keep=False):
    Y = z3.Const(Fresh.name("probe"), z3.Select(X, bv(i, 64)).sort())
    v2 = z3.substitute(v, (z3.Select(X, bv(i, 64)), Y))
    return v, not mentions(v2, names, ex)


def path_facts(diffs):
    if not diffs:
        return z3.BoolVal(False), []
    com = None
    for g, q in diffs:
        ids = {f.get_id(): f for f in g}
        com = ids if com is None else {k: v for k, v in com.items() if k in ids}
    conjs = list(com.values())
    rest = []
    triv = False
    for g, q in diffs:
        r = [f for f in g if f.get_id() not in com]
        if not r:
            triv = True
        rest.append(conj_(r))
    if not triv and len(rest) > 0:
        conjs.append(z3.simplify(z3.Or(*rest)) if len(rest) > 1 else rest[0])
    qs = []
    cq = None
    for g, q in diffs:
        ids = {f.get_id(): f for f in q}
        cq = ids if cq is None else {k: v for k, v in cq.items() if k in ids}
    qs += list(cq.values())
    for (g, q), r in zip(diffs, rest):
        for f in q:
            if f.get_id() in cq:
                continue
            qs.append(f if len(diffs) == 1 else z3.Implies(conj_(g), f))
    g = z3.simplify(z3.And(*conjs)) if conjs else z3.BoolVal(True)
    return g, qs


def infer_bounds(ex, head, hav, pcfacts, n, bounds):
    """inductive upper bounds on the iteration counter that keep 32-bit counters from wrapping"""
    g, qs = pcfacts
    have = {b.get_id() for b in bounds}
    for K in ((1 << 31) - 1, 1 << 32):
        b = z3.ULE(n, z3.BitVecVal(K, 64))
        if b.get_id() in have:
            break
        # 0 <= K trivially; n <= K and PC(n) imply n+1 <= K
        neg = z3.Not(z3.ULE(n + 1, z3.BitVecVal(K, 64)))
        if ex.check_sat(ex.relevant(list(head.pc) + [b, g], [neg]), 2000) is False:
            bounds.append(b)
            break
    # 32-bit counters with a symbolic start stay below 2^31
    for H in hav.values():
        t = H.term
        if t is None or conc(t) or H.w != 32 or is_arr(t) or not occurs(t, n):
            continue
        E = lift64(t)
        if E is None or z3.is_var(E):
            continue
        E = z3.simplify(E)
        if E.eq(n):
            continue
        b = z3.ULE(E, z3.BitVecVal((1 << 31) - 1, 64))
        if b.get_id() in have or any(b.eq(x) for x in bounds):
            continue
        E0 = z3.substitute(E, (n, z3.BitVecVal(0, 64)))
        E1 = z3.substitute(E, (n, n + 1))
        lim = z3.BitVecVal((1 << 31) - 1, 64)
        if ex.check_sat(ex.relevant(list(head.pc), [z3.Not(z3.ULE(E0, lim))]), 2000) is False and \
                ex.check_sat(ex.relevant(list(head.pc) + [b, g], [z3.Not(z3.ULE(E1, lim))]), 2000) is False:
            bounds.append(b)


def finish_exit(ex, s, n, nname, head_pc):
    """if the exit fixes the iteration count, substitute it"""
    cand = []
    if ex.opts.get("verbose"): print("   EXIT facts", [str(z3.simplify(f))[:300] for f in s.pc[head_pc:]])
    for f in s.pc[head_pc:]:
        collect_bounds(f, n, cand)
    seen = set()
    for t in cand:
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if nname in ex.syms(t):
            continue
        e = simp2(n == t)
        if conc(e):
            continue
        if ex.decide(s, e, 4000) is True:
            s.pc.append(e)
            substitute_state(ex, s, n, nname, t)
            return
    return


def collect_bounds(f, n, out):
    """terms t such that f looks like a comparison of n with t"""
    st = [f]
    k = 0
    while st and k < 60:
        k += 1
        x = st.pop()
        if not z3.is_app(x):
            continue
        kind = x.decl().kind()
        if kind in (z3.Z3_OP_NOT, z3.Z3_OP_AND, z3.Z3_OP_OR):
            st.extend(x.children())
            continue
        if kind in (z3.Z3_OP_ULT, z3.Z3_OP_ULEQ, z3.Z3_OP_UGT, z3.Z3_OP_UGEQ, z3.Z3_OP_SLT, z3.Z3_OP_SLEQ,
                    z3.Z3_OP_SGT, z3.Z3_OP_SGEQ, z3.Z3_OP_EQ):
            a, b = x.children()
            if not (z3.is_bv(a) and a.size() == 64):
                if z3.is_bv(a):
                    # 32-bit comparison of Extract(n)
                    for p, q in ((a, b), (b, a)):
                        p0 = p
                        if p0.decl().kind() == z3.Z3_OP_EXTRACT and p0.children()[0].eq(n):
                            w = p.size()
                            if q.decl().kind() == z3.Z3_OP_EXTRACT and q.params() == [w - 1, 0] and q.children()[0].size() == 64:
                                out.append(q.children()[0])
                            elif w < 64:
                                out.append(z3.simplify(z3.SignExt(64 - w, q)))
                                out.append(z3.simplify(z3.ZeroExt(64 - w, q)))
                continue
            for p, q in ((a, b), (b, a)):
                d = z3.simplify(p - n)
                s = z3.simplify(p + n)
                # p = n + d
                if not occurs(d, n):
                    out.append(z3.simplify(q - d))
                elif not occurs(s, n):
                    # p = s - n
                    out.append(z3.simplify(s - q))


def occurs(e, n):
    st = [e]
    seen = set()
    while st:
        x = st.pop()
        if x.eq(n):
            return True
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        st.extend(x.children())
    return False


def substitute_state(ex, s, n, nname, t):
    for rid in list(s.regs_):
        r = s.regs_[rid]
        hit = []
        for k, d in r.leaves.items():
            for o, (w, x) in d.items():
                if w == "p":
                    if isinstance(x, Ptr) and any(not conc(i) and nname in ex.syms(i) for i in x.i):
                        hit.append((k, o, w, Ptr(x.r, x.k, tuple(i if conc(i) else simp2(z3.substitute(i, (n, t))) for i in x.i), x.o)))
                    elif isinstance(x, PtrArr) and getattr(x.dflt, "remake", None) and nname in ex.syms(x.dflt.n):
                        hit.append((k, o, w, PtrArr(x.ents, x.dflt.remake(t).dflt)))
                elif not conc(x) and x is not None and nname in ex.syms(x):
                    y = z3.substitute(x, (n, t))
                    if not is_arr(y):
                        y = simp2(y)
                    hit.append((k, o, w, y))
        if hit:
            r = s.wreg(rid)
            for k, o, w, y in hit:
                r.leaves[k][o] = (w, y)
