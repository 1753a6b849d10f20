"""Run the harnesses of a contract file: IR -> obligations -> solvers."""
import json
import os
import subprocess
import sys
import time
import traceback
import z3
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ir
from terms import *
from interp import Interp, FatalUnsupported
from ir import Unsupported
import models_core
import models_std
import models_app
from exec import State, conc

CLANG = "/usr/lib/llvm-18/bin/clang++"
REPO = os.environ.get("VP_REPO", "/repo")
GEN = REPO + "/_build/gen"
FLAGS = ["-std=c++17", "-I/verif/shim", "-I/verif/vp", "-I" + REPO, "-I" + GEN, "-isystem", "/usr/include/android",
         "-fno-access-control", "-Wno-everything"]
IRFLAGS = ["-O0", "-g", "-fno-exceptions", "-fno-discard-value-names", "-fstandalone-debug", "-Xclang",
           "-disable-llvm-passes", "-S", "-emit-llvm"]


def compile_ir(src, out, extra=()):
    cmd = [CLANG] + FLAGS + IRFLAGS + list(extra) + [src, "-o", out]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError("clang failed: " + r.stderr[:3000])


def make_interp(mod, opts=None):
    ex = Interp(mod, opts)
    ex.models.update(models_core.M)
    ex.model_res = list(models_core.RX)
    ex.loop_hints = lambda *a: ()
    return ex


def read_stubs(src, mod):
    """lines of the form  //@stub <regex on demangled name> => <stub function>"""
    import re
    res = {}
    for ln in open(src):
        m = re.match(r"\s*//@stub (.*) => (\S+)", ln)
        if m:
            res[m.group(1)] = m.group(2)
    out = {}
    miss = []
    for pat, tgt in res.items():
        rx = re.compile(pat)
        hit = [n for n, d in mod.dem.items() if rx.search(d)]
        tg = [n for n in mod.funcs if n == tgt or mod.dem.get(n, "").split("(")[0].endswith(tgt)]
        if not tg:
            miss.append(tgt)
            continue
        for h in hit:
            if h != tg[0]:
                out[h] = tg[0]
    return out, res, miss


def run_harness(mod, name, opts=None, stubs=None):
    ex = make_interp(mod, opts)
    ex.stubs = stubs or {}
    st = State()
    ex.now = st
    fn = mod.funcs["vp_harness_" + name].parse()
    t0 = time.time()
    ex.opts.setdefault("harness", name)
    outs = ex.exec_fn(st, fn, [])
    for s, v in outs:
        ex.cover.append(("end of harness " + name, list(s.pc), list(s.qf)))
    for o in ex.obls:
        o.harness = name
    ex.exec_time = time.time() - t0
    return ex


# ------------------------------------------------------------ discharge
def solve_one(o, timeout=20000):
    if o.goal is True:
        return "proved", "evaluation", 0.0, None
    r = attempt_one(o, timeout)
    if r[0] == "refuted":
        # a model over values of cut loops may lie outside what the loop can compute
        names = set()
        for f in relevant(o.facts[0] + o.facts[1], [z3.Not(o.goal)]) + [o.goal]:
            names |= syms_of(f)
        if any(n.startswith(("L!", "n!")) for n in names):
            return ("refuted?",) + r[1:]
    return r


def attempt_one(o, timeout):
    t0 = time.time()
    pc, qf = o.facts
    neg = z3.Not(o.goal)

    def attempt(facts, to, seed=None, mbqi=None):
        s = z3.Solver()
        s.set("timeout", int(to))
        if mbqi is not None:
            s.set("smt.mbqi", mbqi)
        for f in facts:
            s.add(f)
        s.add(neg)
        r = s.check()
        return r, s
    from exec import Ex
    syms = Ex._symcache
    rel = relevant(pc + qf, [neg])
    ground = [f for f in rel if not has_quant(f)]
    og = opaque(neg)
    if not og.eq(neg):
        for fs in (ground, rel)[:1 if len(ground) == len(rel) else 2]:
            s = z3.Solver()
            s.set("timeout", int(min(timeout, 10000)))
            if fs is rel:
                s.set("smt.mbqi", False)
            s.add([opaque(f) for f in fs] + [og])
            if s.check() == z3.unsat:
                return "proved", "z3", time.time() - t0, None
    r, s = attempt(ground, min(timeout, 3000))
    if r == z3.unsat:
        return "proved", "z3", time.time() - t0, None
    if len(ground) == len(rel):
        if r == z3.sat:
            # all facts were ground: a genuine counterexample of the path
            allg = [f for f in pc + qf]
            if len(allg) == len(ground):
                return "refuted", "z3", time.time() - t0, model_text(s.model())
            r2, s2 = attempt(allg, timeout)
            if r2 == z3.unsat:
                return "proved", "z3", time.time() - t0, None
            if r2 == z3.sat:
                return "refuted", "z3", time.time() - t0, model_text(s2.model())
            return "refuted?", "z3", time.time() - t0, model_text(s.model())
        r, s = attempt(ground, timeout)
        if r == z3.unsat:
            return "proved", "z3", time.time() - t0, None
        if r == z3.sat:
            return "refuted?", "z3", time.time() - t0, model_text(s.model())
    inst = instances(rel, neg)
    if inst:
        s = z3.Solver()
        s.set("timeout", 3000)
        s.add(ground + inst + [neg])
        if s.check() == z3.unsat:
            return "proved", "z3", time.time() - t0, None
        s = z3.Solver()
        s.set("timeout", 3000)
        s.add([opaque(f) for f in ground + inst] + [og])
        if s.check() == z3.unsat:
            return "proved", "z3", time.time() - t0, None
    first = True
    for to, mb in ((timeout / 4, False), (timeout, None)):
        r, s = attempt(rel, to, mbqi=mb)
        if first and r == z3.unknown:
            from induct import induct, split
            if induct(pc, qf, o.goal, timeout / 2, relevant):
                return "proved", "z3 (induction)", time.time() - t0, None
            if split(pc + qf, o.goal, timeout * 1.5, relevant):
                return "proved", "z3 (case split)", time.time() - t0, None
        first = False
        if r == z3.unsat:
            return "proved", "z3", time.time() - t0, None
        if r == z3.sat:
            return "refuted", "z3", time.time() - t0, model_text(s.model())
    # full context, then cvc5
    r, s = attempt(pc + qf, timeout, mbqi=False)
    if r == z3.unsat:
        return "proved", "z3", time.time() - t0, None
    c = cvc5_try(rel, neg, timeout)
    if c == "unsat":
        return "proved", "cvc5", time.time() - t0, None
    return "unknown", "z3+cvc5", time.time() - t0, str(s.reason_unknown())


def heads(e, var):
    """{symbol: argument terms} of the applications and reads in e; with var, of those at the bound variable only"""
    out, seen, st = {}, set(), [e]
    while st:
        x = st.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        st.extend(x.children())
        if z3.is_select(x):
            k, a = ("sel", root(x.arg(0))), x.arg(1)
        elif x.num_args() == 1 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            k, a = x.decl().name(), x.arg(0)
        else:
            continue
        if var:
            if z3.is_var(a):
                out.setdefault(k, []).append(a)
        elif z3.is_bv(a) and a.size() == 64 and not has_quant(a):
            out.setdefault(k, []).append(a)
    return out


def root(a):
    while z3.is_app(a) and a.num_args() and not (a.decl().kind() == z3.Z3_OP_UNINTERPRETED):
        a = a.arg(0)
    return a.decl().name() if z3.is_app(a) else "?"


def instances(facts, goal, rounds=2, limit=200):
    """instances of the plain quantified facts at the terms the goal reads"""
    qs = []
    for f in facts:
        if z3.is_quantifier(f) and f.is_forall() and f.num_vars() == 1 and f.var_sort(0) == z3.BitVecSort(64) and not has_quant(f.body()):
            h = heads(f.body(), True)
            if h:
                qs.append((f, set(h)))
    out, done, work = [], set(), [goal]
    for _ in range(rounds):
        terms = {}
        for g in work:
            for k, l in heads(g, False).items():
                terms.setdefault(k, []).extend(l)
        work = []
        for f, hs in qs:
            for k in hs:
                for t in terms.get(k, []):
                    if (f.get_id(), t.get_id()) in done or len(out) > limit:
                        continue
                    done.add((f.get_id(), t.get_id()))
                    i = z3.substitute_vars(f.body(), t)
                    out.append(i)
                    work.append(i)
    return out


def cvc5_try(facts, neg, timeout):
    s = z3.Solver()
    for f in facts:
        s.add(f)
    s.add(neg)
    txt = "(set-logic ALL)\n" + s.to_smt2()
    try:
        r = subprocess.run(["/usr/bin/cvc5", "--lang=smt2", "--tlimit=%d" % int(timeout), "--enum-inst"], input=txt,
                           capture_output=True, text=True, timeout=timeout / 1000 + 5)
        return r.stdout.strip().split("\n")[0]
    except Exception:
        return "error"


def model_text(m):
    out = []
    for d in m.decls()[:60]:
        t = str(m[d])
        out.append("%s = %s" % (d.name(), t[:200]))
    return "\n".join(out)


_sc = {}


def syms_of(f):
    i = f.get_id()
    r = _sc.get(i)
    if r is None:
        r = _sc[i] = (frozenset(consts_of(f)), f)
    return r[0]


def relevant(facts, goals):
    s = set()
    for g in goals:
        s |= syms_of(g)
    out = []
    rest = list(facts)
    ch = True
    while ch:
        ch = False
        nr = []
        for f in rest:
            x = syms_of(f)
            if not x or x & s:
                out.append(f)
                if not x <= s:
                    s |= x
                    ch = True
            else:
                nr.append(f)
        rest = nr
    return out


def discharge(obls, jobs=8, timeout=20000, budget=600):
    """solve, then give what the solvers left open a second, longer attempt within the budget"""
    t0 = time.time()
    res = discharge_once(obls, jobs, timeout, budget)
    open_ = [i for i, r in enumerate(res) if r[0] == "unknown" and r[1] != "error"]
    left = budget - (time.time() - t0)
    if open_ and len(open_) <= 24 and left > 10:
        again = discharge_once([obls[i] for i in open_], jobs, timeout * 2, left)
        for i, r in zip(open_, again):
            if r[0] != "unknown":
                res[i] = (r[0], r[1], r[2] + res[i][2], r[3])
    return res


def discharge_once(obls, jobs, timeout, budget):
    """fork workers; returns list of (status, backend, seconds, info) per obligation"""
    res = [None] * len(obls)
    todo = []
    seen = {}
    for i, o in enumerate(obls):
        if o.goal is True:
            res[i] = ("proved", "evaluation", 0.0, None)
            continue
        key = (tuple(sorted(f.get_id() for f in o.facts[0] + o.facts[1])), o.goal.get_id())
        if key in seen:
            res[i] = ("dup", seen[key], 0, None)
            continue
        seen[key] = i
        todo.append(i)
    if todo:
        import select
        import struct
        jobs = max(1, min(jobs, len(todo)))
        # shared work counter through a pipe of indices
        rfd, wfd = os.pipe()
        rr, rw = os.pipe()
        pids = []
        import fcntl
        for k in range(jobs):
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(wfd)
                    os.close(rr)
                    while True:
                        b = os.read(rfd, 4)
                        if len(b) < 4:
                            break
                        i = struct.unpack("<I", b)[0]
                        try:
                            r = solve_one(obls[i], timeout)
                        except Exception as e:
                            r = ("unknown", "error", 0.0, repr(e)[:500])
                        d = json.dumps([i, list(r)])[:60000].encode()
                        if len(d) >= 60000:
                            d = json.dumps([i, [r[0], r[1], r[2], "(long)"]]).encode()
                        msg = struct.pack("<I", len(d)) + d
                        # atomic enough: lock around the write
                        fcntl.flock(lockf, fcntl.LOCK_EX) if False else None
                        os.write(rw, msg[:4096]) if len(msg) <= 4096 else write_all(rw, msg)
                finally:
                    os._exit(0)
            pids.append(pid)
        os.close(rfd)
        os.close(rw)
        pend = list(todo)
        # feed
        fed = 0
        got = 0
        buf = b""
        os.set_blocking(wfd, False)
        tend = time.time() + budget
        closed = False
        while got < len(todo):
            while fed < len(pend) and fed - got < jobs * 4:
                try:
                    os.write(wfd, struct.pack("<I", pend[fed]))
                    fed += 1
                except BlockingIOError:
                    break
            if fed == len(pend) and not closed:
                os.close(wfd)
                closed = True
            r, _, _ = select.select([rr], [], [], max(0.1, min(5, tend - time.time())))
            if r:
                d = os.read(rr, 65536)
                if not d:
                    break
                buf += d
                while len(buf) >= 4:
                    n = struct.unpack("<I", buf[:4])[0]
                    if len(buf) < 4 + n:
                        break
                    i, x = json.loads(buf[4:4 + n])
                    buf = buf[4 + n:]
                    res[i] = tuple(x)
                    got += 1
            if time.time() > tend:
                break
        if not closed:
            os.close(wfd)
        for p in pids:
            try:
                os.kill(p, 9)
            except OSError:
                pass
        for p in pids:
            try:
                os.waitpid(p, 0)
            except OSError:
                pass
        os.close(rr)
        for i in todo:
            if res[i] is None:
                res[i] = ("unknown", "budget", 0.0, "time budget exhausted")
    for i, r in enumerate(res):
        if r[0] == "dup":
            res[i] = (res[r[1]][0], res[r[1]][1], 0.0, res[r[1]][3])
    return res


def write_all(fd, b):
    while b:
        n = os.write(fd, b)
        b = b[n:]


if __name__ == "__main__":
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("src")
    ap.add_argument("harness", nargs="*")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("-t", action="store_true")
    ap.add_argument("--raw", action="store_true")
    ap.add_argument("--timeout", type=int, default=10000)
    ap.add_argument("-k", action="store_true", help="keep IR")
    ap.add_argument("-D", action="append", default=[])
    a = ap.parse_args()
    out = "/tmp/vpir/" + os.path.basename(a.src) + ".ll"
    os.makedirs("/tmp/vpir", exist_ok=True)
    t0 = time.time()
    if not (a.k and os.path.exists(out)):
        compile_ir(a.src, out, ["-D" + d for d in a.D])
    t1 = time.time()
    mod = ir.Module(out)
    stubs, srcs, miss = read_stubs(a.src, mod)
    print("clang %.1fs parse %.1fs; stubs %d (missing %s)" % (t1 - t0, time.time() - t1, len(stubs), miss))
    names = a.harness or [n[len("vp_harness_"):] for n in mod.funcs if n.startswith("vp_harness_")]
    for h in names:
        t = time.time()
        try:
            ex = run_harness(mod, h, {"verbose": a.v, "trace": a.t, "raw": a.raw}, stubs)
        except Unsupported as e:
            print("%-30s UNSUPPORTED %s" % (h, e))
            if a.raw:
                traceback.print_exc()
            continue
        t2 = time.time()
        res = discharge(ex.obls, timeout=a.timeout)
        cnt = {}
        for r in res:
            cnt[r[0]] = cnt.get(r[0], 0) + 1
        print("%-30s exec %.1fs (%d queries %.1fs) discharge %.1fs obligations %d %s covers %d cut loops %d" % (
            h, t2 - t, ex.nq, ex.solver_time, time.time() - t2, len(ex.obls), cnt, len(ex.cover), len(ex.loops_cut)))
        shown = 0
        for o, r in zip(ex.obls, res):
            if r[0] != "proved":
                shown += 1
                if shown <= 6:
                    print("   ", r[0], o.kind, o.name, "@", o.where, "| in", o.fn[:80])
                    if a.v:
                        print("      goal", str(o.goal)[:1500])
                        for f in relevant(o.facts[0] + o.facts[1], [o.goal if z3.is_expr(o.goal) else z3.BoolVal(False)]):
                            print("      fact", str(f)[:600])
                    if r[3]:
                        print("      " + r[3][:600 if not a.v else 3000].replace("\n", "\n      "))
