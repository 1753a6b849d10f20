"""Induction on loop iterations for goals over recurrences.

An obligation stated after a loop speaks about X(N), the value of a recurrence
X after all N iterations.  When it does not follow directly it is generalised
to every iteration m (replacing N by m in all recurrences of loops that run
equally often) and proved by induction: G(0), and G(m) with m < N implies
G(m+1).  Further candidate invariants (equalities between recurrences of the
two loops, generalised earlier facts) are kept only if they are inductive
together; the original goal is then the instance m = N, so nothing is assumed.
"""
import time
import z3
from terms import *


def apps(e, pred, acc, seen):
    st = [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if z3.is_app(x):
            if x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and pred(x):
                acc.append(x)
            st.extend(x.children())


def has_var(t):
    st = [t]
    seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_var(x):
            return True
        if z3.is_quantifier(x):
            return True
        st.extend(x.children())
    return False


def recurrences(facts):
    """{function name: iteration count} and the quantified facts per count"""
    recs, insts = {}, []
    for f in facts:
        if not (z3.is_quantifier(f) and f.is_forall() and f.num_vars() == 1):
            continue
        b = f.body()
        if not (z3.is_app(b) and b.decl().kind() == z3.Z3_OP_IMPLIES):
            continue
        g, c = b.children()
        if not (g.decl().kind() in (z3.Z3_OP_ULT, z3.Z3_OP_NOT)):
            continue
        N = bound_of(g)
        if N is None:
            continue
        insts.append((N, f))
        if z3.is_eq(c):
            l = c.arg(0)
            if z3.is_app(l) and l.num_args() and l.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                a = l.arg(l.num_args() - 1)
                d = z3.simplify(z3.substitute_vars(a, z3.BitVecVal(0, 64))) if z3.is_bv(a) and a.size() == 64 else None
                if d is not None and z3.is_bv_value(d) and d.as_long() == 1:
                    recs[l.decl().name()] = N
    return recs, insts


def iteration_fact(f):
    b = f.body()
    return z3.is_app(b) and b.decl().kind() == z3.Z3_OP_IMPLIES and b.arg(0).decl().kind() in (z3.Z3_OP_ULT, z3.Z3_OP_NOT) \
        and bound_of(b.arg(0)) is not None


def bound_of(g):
    """N in  m < N  (or not N <= m)"""
    if g.decl().kind() == z3.Z3_OP_NOT:
        h = g.arg(0)
        if h.decl().kind() == z3.Z3_OP_ULEQ and z3.is_var(h.arg(1)) and not has_var(h.arg(0)):
            return h.arg(0)
        return None
    if z3.is_var(g.arg(0)) and not has_var(g.arg(1)):
        return g.arg(1)
    return None


def unfolding(f, cls):
    """the facts  n == 0 or X(n) == body(n - 1)  that the recurrences give anyway"""
    if not z3.is_or(f):
        return False
    return any(z3.is_eq(c) and any(c.arg(0).eq(x) or c.arg(1).eq(x) for x in cls) for c in f.children())


def prove(facts, goal, timeout):
    neg = z3.Not(goal)
    rel = facts
    ground = [f for f in rel if not has_quant(f)]
    og = opaque(neg)
    if not og.eq(neg):
        for fs in (ground, rel)[:1 if len(ground) == len(rel) else 2]:
            s = z3.Solver()
            s.set("timeout", int(min(timeout, 3000)))
            if fs is rel:
                s.set("smt.mbqi", False)
            s.add([opaque(f) for f in fs])
            s.add(og)
            if s.check() == z3.unsat:
                return True
    for fs, mb, to in ((ground, None, timeout), (rel, False, timeout)):
        if fs is rel and len(ground) == len(rel):
            continue
        s = z3.Solver()
        s.set("timeout", int(to))
        if mb is not None:
            s.set("smt.mbqi", mb)
        s.add(fs)
        s.add(neg)
        if s.check() == z3.unsat:
            return True
    return False


def unnest(facts, goal):
    """instances, at the outer iterations the goal speaks about, of facts that hold in every outer iteration"""
    out = list(facts)
    done = set()
    ground = [f for f in facts if not has_quant(f)]
    work = [goal]
    for _ in range(3):
        acc, terms = [], {}
        for g in work:
            apps(g, lambda x: x.num_args() >= 2, acc, set())
        for a in acc:
            for t in list(a.children())[:-1]:
                if z3.is_bv(t) and t.size() == 64 and not has_var(t):
                    terms[t.get_id()] = t
        new = []
        for f in list(out):
            if not (z3.is_quantifier(f) and f.is_forall() and f.num_vars() == 1 and f.var_sort(0) == BV64):
                continue
            if not has_quant(f.body()) and not iteration_fact(f):
                continue
            for t in terms.values():
                if (f.get_id(), t.get_id()) in done:
                    continue
                done.add((f.get_id(), t.get_id()))
                b = z3.substitute_vars(f.body(), t)
                gs = []
                while z3.is_app(b) and b.decl().kind() == z3.Z3_OP_IMPLIES:
                    gs.append(b.arg(0))
                    b = b.arg(1)
                g = z3.And(*gs) if gs else z3.BoolVal(True)
                if prove(ground, g, 2000):
                    new += flat(b)
        if not new:
            break
        out += new
        work = new
    return out


def flat(b):
    if z3.is_and(b):
        r = []
        for c in b.children():
            r += flat(c)
        return r
    return [b]


def clean(goal, facts, relevant):
    """decide the if-then-else conditions the facts settle (merged paths that cannot both occur)"""
    for _ in range(12):
        acc, seen, st = [], set(), [goal]
        while st:
            x = st.pop()
            if x.get_id() in seen or not z3.is_app(x):
                continue
            seen.add(x.get_id())
            if x.decl().kind() == z3.Z3_OP_ITE and not has_var(x):
                acc.append(x)
            st.extend(x.children())
        hit = None
        for x in acc:
            c, a, b = x.children()
            while z3.is_app(b) and b.decl().kind() == z3.Z3_OP_ITE and b.arg(1).eq(a):
                c, b = z3.Or(c, b.arg(0)), b.arg(2)
            k = (c.get_id(),)
            if k in _undecided:
                continue
            if prove(relevant(facts, [c]), c, 1500):
                hit = (x, a)
            elif prove(relevant(facts, [c]), z3.Not(c), 1500):
                hit = (x, b)
            else:
                # the same application either way: the arguments agree where they are chosen
                m = None
                if z3.is_app(a) and z3.is_app(b) and a.num_args() and a.decl().eq(b.decl()) \
                        and a.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    for keep, guard in ((a, z3.Not(c)), (b, c)):
                        e = z3.Implies(guard, z3.And(*[p == q for p, q in zip(a.children(), b.children())]))
                        if prove(relevant(facts, [e]), e, 1500):
                            m = keep
                            break
                if m is None:
                    _undecided[k] = c
                    continue
                hit = (x, m)
            break
        if hit is None:
            return goal
        goal = z3.substitute(goal, hit)
    return goal


_undecided = {}


def induct(pc, qf, goal, timeout, relevant):
    facts = unnest(pc + qf, goal)
    _undecided.clear()
    goal = clean(goal, [f for f in facts if not has_quant(f)], relevant)
    recs, insts = recurrences(facts)
    if not recs:
        return None
    used = []
    apps(goal, lambda x: x.decl().name() in recs, used, set())
    used = [a for a in used if not has_var(a)]
    if not used:
        return None
    zero = z3.BitVecVal(0, 64)
    pcg = [f for f in facts if not has_quant(f)]

    def same(a, b):
        if a.eq(b):
            return True
        e = z3.simplify(a == b)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        return prove(relevant(pcg, [e]), e, 2000)
    m = z3.Const(Fresh.name("ind"), BV64)
    # counts that are equal to each other form a class; try each class
    classes = []
    for a in used:
        N = recs[a.decl().name()]
        if has_var(N):
            continue
        for c in classes:
            if same(c[0], N):
                if not any(x.eq(N) for x in c):
                    c.append(N)
                break
        else:
            classes.append([N])
    for f, N in recs.items():
        for c in classes:
            if not any(x.eq(N) for x in c) and not has_var(N) and same(c[0], N):
                c.append(N)
    for cls in classes:
        K = cls[0]
        names = {f for f, N in recs.items() if any(x.eq(N) for x in cls)}
        # loops that run at least as often
        longer = []
        for f, N in recs.items():
            if f in names or has_var(N):
                continue
            if any(x.eq(N) for x in longer):
                names.add(f)
                continue
            e = z3.ULE(K, N)
            if any(a.decl().name() == f for a in used) and prove(relevant(pcg, [e]), e, 1500):
                longer.append(N)
                names.add(f)
        for f, N in recs.items():
            if any(x.eq(N) for x in longer):
                names.add(f)
        tcache = {}

        def isK(t):
            k = t.get_id()
            if k not in tcache:
                tcache[k] = (any(x.eq(t) for x in cls) or same(t, K), t)
            return tcache[k][0]

        def gen(e):
            """e with K generalised to m, or None"""
            acc = []
            apps(e, lambda x: x.decl().name() in names, acc, set())
            acc = [a for a in acc if not has_var(a)]
            if not acc:
                return None
            pairs = []
            for a in acc:
                l = a.arg(a.num_args() - 1)
                if isK(l):
                    pairs.append((a, a.decl()(*(list(a.children())[:-1] + [m]))))
            pairs += [(x, m) for x in cls if z3.is_app(x) and not z3.is_bv_value(x) and x.num_args() == 0]
            if not pairs:
                return None
            for c in free64(e):
                if not any(c.eq(p[0]) for p in pairs) and isK(c):
                    pairs.append((c, m))
            r = z3.substitute(e, *pairs)
            return r if not r.eq(e) else None
        G = gen(goal)
        if G is None:
            continue
        hyps = [z3.substitute_vars(f.body().arg(1), m) for N, f in insts if any(x.eq(N) for x in cls + longer)]
        hyps.append(z3.ULT(m, K))
        for f in facts:
            if len(hyps) > 60:
                break
            if z3.is_quantifier(f) and f.is_forall() and f.num_vars() == 1 and f.var_sort(0) == BV64 and not has_quant(f.body()):
                h = z3.substitute_vars(f.body(), m)
                if not any(h.eq(x) for x in hyps):
                    hyps.append(h)
        cands, facts_m = [], []
        # equalities between scalar recurrences of equal sort at the same iteration
        fam = {}
        for f in facts + [goal]:
            acc = []
            apps(f, lambda x: x.decl().name() in names, acc, set())
            for a in acc:
                if not has_var(a) and not is_arr(a):
                    b = a.decl()(*(list(a.children())[:-1] + [m]))
                    fam.setdefault(a.sort().size() if z3.is_bv(a) else 0, {})[b.get_id()] = b
        halves = {}
        for b in fam.get(64, {}).values():
            n = b.decl().name()
            if n.endswith(("||0", "||8")):
                halves.setdefault((n[:-1], tuple(x.get_id() for x in b.children())), {})[n[-1]] = b
        for h in halves.values():
            for b in fam.get(128, {}).values():
                if len(h) == 2 and len(cands) < 12:
                    cands.append(z3.Concat(h["8"], h["0"]) == b)
        for w, d in fam.items():
            l = list(d.values())[:6]
            for i in range(len(l)):
                for j in range(i):
                    if l[i].decl().name() != l[j].decl().name():
                        cands.append(l[i] == l[j])
        # reads at an index that a recurrence gives, against recurrences of the same sort
        reads, seen = {}, set()
        for h in [G] + hyps:
            st = [h]
            while st:
                x = st.pop()
                if x.get_id() in seen or has_var(x):
                    continue
                seen.add(x.get_id())
                if z3.is_quantifier(x):
                    continue
                st.extend(x.children())
                if z3.is_select(x) and z3.is_bv(x):
                    acc = []
                    apps(x.arg(1), lambda y: y.decl().name() in names, acc, set())
                    if acc and all(y.arg(y.num_args() - 1).eq(m) for y in acc):
                        reads[x.get_id()] = x
        for x in list(reads.values())[:4]:
            for b in list(fam.get(x.sort().size(), {}).values())[:4]:
                if len(cands) < 24:
                    cands.append(x == b)
        for f in pc:
            if len(facts_m) > 20:
                break
            if has_quant(f) or f.eq(goal) or unfolding(f, cls):
                continue
            acc = []
            apps(f, lambda x: x.decl().name() in names, acc, set())
            if acc:
                g = gen(f)
                if g is not None and not any(g.eq(c) for c in cands + facts_m):
                    facts_m.append(g)
        lim = min(timeout, 4000)

        def base(c, to):
            b = z3.substitute(c, (m, zero))
            return prove(relevant(facts, [b]), b, to)

        def step(c, inv, to):
            nx = z3.substitute(c, (m, m + 1))
            return prove(relevant(facts + hyps + inv, [nx]), nx, to)
        def quick(c):
            b = z3.substitute(c, (m, zero))
            return prove(relevant([f for f in facts if not has_quant(f)], [b]), b, 1000)
        gb = base(G, lim)
        if gb and step(G, [G], lim):
            return True
        t0 = time.time()
        nz = m != 0
        pos = prove(relevant(pcg, [K != 0]), K != 0, 1000)
        inv = [c if quick(c) else z3.Implies(nz, c) for c in cands if pos or quick(c)] + [c for c in facts_m if base(c, 1000)]
        while inv and time.time() - t0 < 4 * timeout / 1000:
            nk = [c for c in inv if step(c, inv, 10000)]
            if len(nk) == len(inv):
                break
            inv = nk
        else:
            inv = []
        if inv:
            at = [z3.substitute(c, (m, x)) for c in inv for x in cls[:2]]
            if prove(relevant(facts + at, [goal]), goal, lim):
                return True
        if gb and inv and step(G, inv + [G], timeout):
            return True
        rest = [c for c in facts_m if not any(c is x for x in inv)]
        if rest:
            G1 = z3.Implies(z3.And(*rest), G)
            if base(G1, lim) and step(G1, inv + [G1], timeout):
                return True
        # facts about the number of iterations, kept as antecedents
        for A in ([nz] if pos else []) + about(pcg, cls, [goal] + [h for h in hyps if any(a.decl().name() in consts_of(h) for a in used)], names, m, isK):
            G1 = z3.Implies(A, G)
            if base(G1, lim) and step(G1, inv + [G1], lim):
                return True
    return None


def free64(e):
    out, seen, st = [], set(), [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if z3.is_app(x) and x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and z3.is_bv(x) and x.size() == 64:
            out.append(x)
        st.extend(x.children())
    return out[:12]


def about(facts, cls, terms, names, m, isK):
    out = []
    want, own = set(), {m.decl().name()}
    for x in cls:
        own |= set(consts_of(x))
    acc = []
    apps(terms[0], lambda x: x.decl().name() in names, acc, set())
    for x in acc:
        own |= set(consts_of(x.arg(x.num_args() - 1)))
    tops = [x for x in acc if isK(x.arg(x.num_args() - 1))]
    for t in terms:
        want |= set(consts_of(t))
    for f in facts:
        if len(out) == 4:
            break
        acc = []
        apps(f, lambda x: x.decl().name() in names, acc, set())
        if acc:
            continue
        r = z3.substitute(f, *[(x, m) for x in cls + [y.arg(y.num_args() - 1) for y in tops] if not z3.is_bv_value(x)])
        rest = set(consts_of(r)) - own
        if not r.eq(f) and rest and rest <= want:
            out.append(r)
    return out


def outer_ite(g):
    from collections import deque
    q, seen = deque([g]), set()
    while q:
        x = q.popleft()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        if x.decl().kind() == z3.Z3_OP_ITE and not has_var(x.arg(0)):
            return x.arg(0)
        q.extend(x.children())
    return None


def split(facts, goal, budget, relevant, depth=40):
    """case distinction on the conditions of the goal's if-then-else terms"""
    end = time.time() + budget / 1000

    def go(fs, g, d):
        if z3.is_true(g):
            return True
        c = outer_ite(g) if d else None
        left = (end - time.time()) * 1000
        if left < 50:
            return False
        rel = relevant(fs, [g])
        if c is not None:
            s = z3.Solver()
            s.set("timeout", 400)
            s.add([f for f in rel if not has_quant(f)])
            s.add(z3.Not(g))
            if s.check() == z3.unsat:
                return True
        elif prove(rel, g, min(left, 15000)):
            return True
        if c is None:
            return False
        for v in (True, False):
            cc = c if v else z3.Not(c)
            if not go(fs + flat(cc), z3.simplify(z3.substitute(g, (c, z3.BoolVal(v)))), d - 1):
                return False
        return True
    if outer_ite(goal) is None:
        return False
    return go(list(facts), goal, depth)
