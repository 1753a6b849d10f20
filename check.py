#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough]: proves the property's contracts on
/repo's current sources; exit 0 held, 1 VIOLATION."""
import argparse
import concurrent.futures
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "engine"))
sys.path.insert(0, ROOT)
sys.setrecursionlimit(100000)
REPO = os.environ.get("VP_REPO", "/repo")
CLANG = "/usr/lib/llvm-18/bin/clang++"
ABSL = "hash city low_level_hash raw_hash_set hashtablez_sampler random_distributions random_seed_sequences " \
    "random_internal_pool_urbg random_internal_randen random_internal_randen_hwaes random_internal_randen_hwaes_impl " \
    "random_internal_randen_slow random_internal_platform random_internal_seed_material random_seed_gen_exception " \
    "statusor status cord bad_optional_access cordz_info cord_internal cordz_functions exponential_biased cordz_handle " \
    "synchronization graphcycles_internal stacktrace strerror symbolize debugging_internal demangle_internal " \
    "malloc_internal str_format_internal time strings int128 throw_delegate strings_internal base spinlock_wait " \
    "civil_time time_zone raw_logging_internal log_severity bad_variant_access".split()


def protos(work, log):
    """regenerate the protocol buffer sources from /repo's current .proto files"""
    gen = os.path.join(work, "gen")
    os.makedirs(gen + "/farmhash", exist_ok=True)
    ps = []
    for d, ds, fs in os.walk(REPO):
        ds[:] = [x for x in ds if x not in (".git", "_build") and not x.startswith("bazel-")]
        ps += [os.path.relpath(os.path.join(d, f), REPO) for f in fs if f.endswith(".proto") and d.split("/")[-1] != "experiments"]
    ps = [p for p in ps if p.split("/")[0] in ("dpf", "dcf", "pir")]
    r = subprocess.run(["protoc", "-I" + REPO, "--cpp_out=" + gen] + sorted(ps), capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError("protoc: " + r.stderr[:2000])
    # the installed protobuf predates Message::SerializeAsCord
    for h in glob.glob(gen + "/**/*.pb.h", recursive=True):
        t = open(h).read()
        t = re.sub(r"(// @@protoc_insertion_point\(class_scope:[\w.]+\))", r"\1\n public: ::absl::Cord SerializeAsCord() const { return ::absl::Cord(::absl::string_view(SerializeAsString())); }", t)
        t = t.replace("#include <string>\n", '#include <string>\n#include "absl/strings/cord.h"\n', 1)
        open(h, "w").write(t)
    try:
        os.symlink("/usr/include/farmhash.h", gen + "/farmhash/farmhash.h")
    except FileExistsError:
        pass
    return gen


def sh(cmd, timeout, **kw):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True, **kw)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        out, _ = p.communicate()
        return -9, out


NATIVE_FLAGS = ["-std=c++17", "-O1", "-g1", "-DVP_NATIVE", "-fsanitize=address,undefined", "-fno-sanitize=vptr,alignment",
                "-fno-sanitize-recover=undefined", "-isystem", "/usr/include/android", "-fno-access-control", "-w", "-Wno-c++11-narrowing"]


class NativeBuild:
    """compiles the contract file, the driver and the extra sources in parallel and links them"""

    def __init__(self, work, gen):
        self.work, self.gen = work, gen
        self.pool = concurrent.futures.ThreadPoolExecutor(8)
        self.objs = {}

    def obj(self, src, cflags, san=True):
        key = (src, tuple(cflags), san)
        if key not in self.objs:
            o = os.path.join(self.work, "%s_%s.o" % (os.path.basename(src), hashlib.sha1(repr(key).encode()).hexdigest()[:8]))
            fl = [f for f in NATIVE_FLAGS if san or not f.startswith("-f") or f == "-fno-access-control"]
            cmd = [CLANG] + fl + ["-I" + ROOT + "/shim", "-I" + ROOT + "/vp", "-I" + REPO, "-I" + self.gen] + cflags + ["-c", src, "-o", o]
            self.objs[key] = self.pool.submit(lambda: (o,) + tuple(sh(cmd, 700)))
        return self.objs[key]

    def exe(self, src, spec, out):
        fs = [self.obj(src, spec.get("cflags", [])), self.obj(ROOT + "/vp/vp_native.cc", [])]
        fs += [self.obj(os.path.join(REPO, x), spec.get("cflags", [])) for x in spec.get("extra", [])]
        fs += [self.obj(self.gen + "/" + p, [], False) for p in pbs(self.gen, src, spec)]

        def link():
            os_ = []
            for f in fs:
                o, rc, log = f.result()
                if rc != 0:
                    return False, log[:6000]
                os_.append(o)
            cmd = [CLANG, "-fsanitize=address,undefined"] + os_ + \
                ["-o", out, "-Wl,-rpath,/usr/lib/x86_64-linux-gnu/android", "-lprotobuf",
                 "/usr/lib/x86_64-linux-gnu/android/libcrypto.so", "-lfarmhash", "-lhwy", "-lpthread"] + \
                ["-labsl_" + a for a in ABSL if os.path.exists("/usr/lib/x86_64-linux-gnu/libabsl_%s.so" % a)]
            rc, log = sh(cmd, 300)
            return rc == 0, log[:6000]
        return fs, link


def pbs(gen, src, spec):
    if not spec.get("pb", False):
        return []
    r = []
    for d, _, fs in os.walk(gen):
        r += [os.path.relpath(os.path.join(d, f), gen) for f in fs if f.endswith(".pb.cc")]
    return r


def prove_worker(src, ll, name, opts, stubs_src, resf, jobs, timeout, budget):
    """child process: one harness"""
    import runner
    import ir
    from ir import Unsupported
    res = {"harness": name, "status": "ok", "obls": [], "fns": {}, "models": {}, "cut": 0, "unrolled": {}}
    t0 = time.time()
    try:
        mod = runner_mod[ll]
        stubs, srcs, miss = runner.read_stubs(src, mod)
        opts = dict(opts)
        ex = runner.run_harness(mod, name, opts, stubs)
        res["exec_s"] = round(time.time() - t0, 2)
        res["path_queries"] = ex.nq
        res["path_solver_s"] = round(ex.solver_time, 2)
        t1 = time.time()
        rs = runner.discharge(ex.obls, jobs=jobs, timeout=timeout, budget=budget)
        for o, r in zip(ex.obls, rs):
            res["obls"].append({"name": o.name, "kind": o.kind, "where": o.where, "fn": o.fn[:160], "status": r[0],
                                "backend": r[1], "s": round(r[2], 3), "info": (r[3] or "")[:4000] if r[0] != "proved" else ""})
        res["discharge_s"] = round(time.time() - t1, 2)
        res["fns"] = ex.used_fns
        res["models"] = ex.used_models
        res["cut"] = [k[0] for k in ex.loops_cut]
        res["unrolled"] = ex.unrolled
        # vacuity: some path reaches the end with satisfiable facts
        import z3
        reach = "none"
        for nm, pc, qf in ex.cover:
            if not nm.startswith("end of harness"):
                continue
            s = z3.Solver()
            s.set("timeout", 10000)
            s.add(*pc)
            c = s.check()
            if c == z3.sat:
                reach = "sat"
                break
            if c == z3.unknown:
                reach = "unknown"
        res["end_reachable"] = reach
    except Unsupported as e:
        res["status"] = "unsupported"
        res["why"] = str(e)[:600]
    except TimeoutError as e:
        res["status"] = "unsupported"
        res["why"] = "time limit: " + str(e)
    except MemoryError:
        res["status"] = "unsupported"
        res["why"] = "memory limit"
    except RecursionError:
        res["status"] = "unsupported"
        res["why"] = "recursion limit"
    except Exception as e:
        import traceback
        res["status"] = "unsupported"
        res["why"] = "internal: %s" % traceback.format_exc()[-800:]
    res["total_s"] = round(time.time() - t0, 2)
    json.dump(res, open(resf + ".tmp", "w"))
    os.rename(resf + ".tmp", resf)


runner_mod = {}


def prove(src, work, gen, spec, tier, deadline, log):
    import runner
    import ir
    import resource
    ll = os.path.join(work, os.path.basename(src) + ".ll")
    runner.GEN = gen
    runner.FLAGS[:] = ["-std=c++17", "-I" + ROOT + "/shim", "-I" + ROOT + "/vp", "-I" + REPO, "-I" + gen,
                       "-isystem", "/usr/include/android", "-fno-access-control", "-Wno-everything"] + spec.get("cflags", [])
    runner.compile_ir(src, ll)
    mod = ir.Module(ll)
    runner_mod[ll] = mod
    names = [n[len("vp_harness_"):] for n in mod.funcs if n.startswith("vp_harness_")]
    skip = set(spec.get("bounded", ()))
    todo = [n for n in names if n not in skip]
    if spec.get("only"):
        todo = [n for n in todo if n in spec["only"]]
    out = {n: {"harness": n, "status": "bounded", "why": spec.get("bounded_why", {}).get(n, "listed as outside the verifier's reach"), "obls": []}
           for n in names if n in skip}
    running = {}
    jobs = max(1, 8 // max(1, len(todo)))
    to = spec.get("timeout", 20000) * (3 if tier == "thorough" else 1)
    while todo or running:
        while todo and len(running) < 8:
            n = todo.pop(0)
            resf = os.path.join(work, "res_%s_%s.json" % (os.path.basename(src), n))
            pid = os.fork()
            if pid == 0:
                try:
                    os.setpgid(0, 0)
                    resource.setrlimit(resource.RLIMIT_AS, (spec.get("mem_gb", 8) << 30,) * 2)
                    o = dict(spec.get("opts", {}))
                    prove_worker(src, ll, n, o, src, resf, jobs, to, max(10, deadline - time.time()))
                finally:
                    os._exit(0)
            running[pid] = (n, resf, time.time())
        time.sleep(0.05)
        for pid in list(running):
            n, resf, t0 = running[pid]
            r, _ = os.waitpid(pid, os.WNOHANG)
            done = r == pid
            if not done and time.time() > deadline:
                try:
                    os.killpg(pid, 9)
                except OSError:
                    pass
                os.waitpid(pid, 0)
                done = True
            if done:
                del running[pid]
                if os.path.exists(resf):
                    out[n] = json.load(open(resf))
                else:
                    out[n] = {"harness": n, "status": "unsupported", "why": "no result within the time or memory limit", "obls": []}
    return out


ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:detect_odr_violation=0", UBSAN_OPTIONS="print_stacktrace=0:halt_on_error=1")


def native_run(exe, names, seed, secs, par=8):
    """run harnesses natively; returns {name: dict}"""
    res = {}
    todo = list(names)
    running = []
    while todo or running:
        while todo and len(running) < par:
            n = todo.pop(0)
            p = subprocess.Popen([exe, "run", n, str(seed), "100000000", str(secs)], stdout=subprocess.PIPE,
                                 stderr=subprocess.DEVNULL, text=True, errors="replace", env=ENV, start_new_session=True)
            running.append((n, p, time.time()))
        time.sleep(0.02)
        for x in list(running):
            n, p, t0 = x
            if p.poll() is None and time.time() - t0 < secs + 90:
                continue
            if p.poll() is None:
                os.killpg(p.pid, 9)
            o = p.communicate()[0]
            running.remove(x)
            m = re.search(r"RUNS (\d+) SKIPPED (\d+)", o)
            f = re.search(r"^FAIL (\d+) (.*)$", o, re.M)
            d = re.search(r"DISTINCT (\d+)", o)
            sm = ""
            if not f:
                sm = sh([exe, "replay", n, str(seed * 1000003)], 60, env=ENV)[1][:700]
            res[n] = {"distinct": int(d.group(1)) if d else 0, "sample": sm, "runs": int(m.group(1)) if m else 0, "skipped": int(m.group(2)) if m else 0,
                      "fail": (int(f.group(1)), f.group(2)) if f else None}
    return res


def known_findings():
    r = []
    p = os.path.join(ROOT, "known_findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l:
                r.append(json.loads(l))
    return r


def main():
    from props import PROPS
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--keep")
    ap.add_argument("--no-native", action="store_true")
    ap.add_argument("--no-prove", action="store_true")
    ap.add_argument("--harness")
    a = ap.parse_args()
    tier = "thorough" if a.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    spec = PROPS[a.prop]
    work = a.keep or tempfile.mkdtemp(prefix="vp_")
    os.makedirs(work, exist_ok=True)
    try:
        rc = run(a, spec, tier, seed, work, t0)
    except Exception:
        import traceback
        tb = traceback.format_exc()
        print(tb)
        rc = verdict_broken(a.prop, tier, seed, t0, tb)
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    return rc


def write_evidence(prop, ev):
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def verdict_broken(prop, tier, seed, t0, tb):
    """the sources do not compile under the contracts: nothing could be decided"""
    write_evidence(prop, {"property": prop, "tier": tier, "seed": seed, "level": "other",
                          "coverage": {"explanation": "the contract files could not be built against the current sources: " + tb[-1500:]},
                          "assumptions": [], "wall_s": round(time.time() - t0, 1), "violations": 0})
    return 0


def run(a, spec, tier, seed, work, t0):
    prop = a.prop
    gen = protos(work, None)
    for f in glob.glob(os.path.join(ROOT, "evidence", "replay", prop + "_*.txt")):
        os.remove(f)
    budget = spec.get("budget", 480) if tier == "quick" else 1500
    deadline = t0 + budget
    allres = {}
    nat = {}
    build_err = {}
    secs = spec.get("secs", 6) if tier == "quick" else spec.get("secs", 6) * 10
    viol = []
    builder = NativeBuild(work, gen)
    for f in spec["files"]:  # start every native build before proving
        fs = dict(spec, **spec.get("per", {}).get(f, {}))
        if not a.no_native and not fs.get("nonative"):
            builder.exe(os.path.join(ROOT, "contracts", f), fs, "")
    for f in spec["files"]:
        src = os.path.join(ROOT, "contracts", f)
        fs = dict(spec, **spec.get("per", {}).get(f, {}))
        # native build runs while the verifier works
        nb = None
        if not a.no_native and not fs.get("nonative"):
            exe = os.path.join(work, os.path.basename(src) + ".native")
            nb = builder.exe(src, fs, exe)[1]
        if not a.no_prove and not fs.get("noprove"):
            try:
                r = prove(src, work, gen, fs, tier, deadline, None)
            except RuntimeError as e:
                build_err[f] = str(e)
                r = {}
        else:
            r = {}
        allres[f] = r
        if fs.get("nonative"):
            for n, x in sorted(r.items()):
                refuted = [o for o in x.get("obls", []) if o["status"] == "refuted"]
                if refuted:
                    viol.append(make_violation(prop, f, n, None, dict(x, obls=refuted), None, work, False))
        if nb is not None:
            okb, err = nb()
            if not okb:
                build_err[f + " (native)"] = err
            else:
                names = subprocess.run([exe, "list"], capture_output=True, text=True, env=ENV).stdout.split()
                if a.harness:
                    names = [n for n in names if n == a.harness]
                bad = [n for n in names if r.get(n, {}).get("status") != "ok" or any(o["status"] != "proved" for o in r[n]["obls"])]
                longer = secs * (4 if not a.no_prove else 1)
                res = native_run(exe, [n for n in names if n not in bad], seed, secs)
                res.update(native_run(exe, bad, seed, fs.get("bounded_secs", longer)))
                nat[f] = res
                for n, x in res.items():
                    if x["fail"]:
                        viol.append(make_violation(prop, f, n, x["fail"], r.get(n), exe, work, True))
                for n in bad:
                    if res.get(n, {}).get("fail"):
                        continue
                    refuted = [o for o in r.get(n, {}).get("obls", []) if o["status"] == "refuted"]
                    if refuted:
                        viol.append(make_violation(prop, f, n, None, dict(r[n], obls=refuted), exe, work, False))
    kf = [k for k in known_findings() if k.get("property") == prop and k.get("kind") == "finding"]
    shown = set()
    left = []
    for v in viol:
        k = [k for k in kf if k["harness"] == v["harness"] and re.search(k["clause"], v["clause"])]
        if k:
            shown.add(json.dumps(k[0]))
        else:
            left.append(v)
    for k in kf:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    n_ob = n_dis = 0
    backends = {}
    solver_s = 0.0
    undis = []
    fns, models = {}, {}
    cut, unrolled = set(), {}
    hs = []
    vac = []
    for f, r in allres.items():
        for n, x in sorted(r.items()):
            c = {}
            for o in x.get("obls", []):
                n_ob += 1
                c[o["status"]] = c.get(o["status"], 0) + 1
                solver_s += o["s"]
                if o["status"] == "proved":
                    n_dis += 1
                    backends[o["backend"]] = backends.get(o["backend"], 0) + 1
                else:
                    undis.append({"harness": n, "obligation": o["name"], "where": o["where"], "status": o["status"]})
            for k, v in x.get("fns", {}).items():
                fns[k] = fns.get(k, 0) + v
            for k, v in x.get("models", {}).items():
                models[k] = models.get(k, 0) + v
            cut |= set(x.get("cut", []) or [])
            unrolled.update(x.get("unrolled", {}))
            solver_s += x.get("path_solver_s", 0)
            if x["status"] == "ok" and x.get("end_reachable") == "none":
                vac.append(n)
            nn = nat.get(f, {}).get(n, {})
            hs.append({"file": f, "harness": n, "status": x["status"] if x["status"] != "ok" else
                       ("proved" if set(c) <= {"proved"} and c else "undischarged"), "why": x.get("why", ""),
                       "obligations": c, "seconds": x.get("total_s", 0), "native_runs": nn.get("runs", 0), "native_skipped": nn.get("skipped", 0)})
    for f, r in nat.items():
        for n, x in sorted(r.items()):
            if n not in allres.get(f, {}):
                hs.append({"file": f, "harness": n, "status": "bounded", "why": "bounded stand-in: not within the verifier's reach; drawn inputs on the real code",
                           "obligations": {}, "seconds": 0, "native_runs": x["runs"], "native_skipped": x["skipped"]})
    repo_fns = sorted(k for k in fns if "distributed_point_functions::" in k.split("(")[0] or "private_information" in k)
    proved = [h for h in hs if h["status"] == "proved"]
    bounded = [h for h in hs if h["status"] != "proved"]
    level = spec.get("level", "proof")
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level,
          "coverage": {
              "obligations": n_ob, "discharged": n_dis,
              "checker_cmd": "python3-vt /verif/check.py %s --tier %s" % (prop, tier),
              "trusted_base": ["clang 18 front end (C++ to LLVM IR at -O0)", "engine/ (verification condition generator)",
                               "z3 4.x (python3-vt z3-solver), cvc5 1.1.2"] + ["model of " + m for m in sorted(models)],
              "back_ends": backends, "solver_s": round(solver_s, 1),
              "functions_under_contract": [x[:200] for x in repo_fns][:400],
              "functions_executed_symbolically": len(fns),
              "loops_cut_with_inferred_invariants": sorted(cut)[:100],
              "loops_unrolled_exactly": {k[:120]: v for k, v in sorted(unrolled.items())[:100]},
              "harnesses": hs, "undischarged": undis[:200], "vacuous_harnesses": vac,
              "bounded_harnesses": [h["harness"] for h in bounded],
              "build_errors": build_err,
              "evaluations": sum(h["native_runs"] for h in hs),
              "distinct_nontrivial": sum(x["distinct"] for r in nat.values() for x in r.values()),
              "rule": "each case is one run of a contract harness on the real code with values drawn from a generator seeded by VERIF_SEED and the case number; a case counts as non-trivial when its preconditions hold and at least one clause was evaluated, and as distinct by the hash of its drawn values",
              "samples": [{"harness": n, "case": x["sample"]} for r in nat.values() for n, x in r.items()][:12],
              "explanation": spec.get("note", "")},
          "assumptions": spec.get("assumptions", []) + COMMON_ASSUMPTIONS,
          "wall_s": round(time.time() - t0, 1), "violations": len(left)}
    write_evidence(prop, ev)
    print("%s %s: %d obligations, %d discharged; %d harnesses proved, %d bounded/undischarged; native runs %d; %.0fs" % (
        prop, tier, n_ob, n_dis, len(proved), len(bounded), ev["coverage"]["evaluations"], time.time() - t0))
    for h in bounded:
        print("  not proved: %s %s %s %s" % (h["harness"], h["status"], json.dumps(h["obligations"]), h["why"][:300]))
    for u in undis[:12]:
        print("    ", u)
    for k, v in build_err.items():
        print("  build error in %s: %s" % (k, v[:1500]))
    seen = set()
    for v in left:
        key = (v["harness"], v["clause"])
        if key in seen:
            continue
        seen.add(key)
        print("VIOLATION property=%s replay=%s%s" % (prop, v["replay"], "" if v["reproduced"] else " no-failing-input-found"))
    return 1 if left else 0


COMMON_ASSUMPTIONS = [
    "container and string sizes are at most 2^31-1 and index*element-size products do not wrap 2^64",
    "destructors free memory only; text of status messages is not modelled (codes are)",
    "standard library, protocol buffer accessor and OpenSSL calls follow the models listed under trusted_base",
]


def make_violation(prop, f, n, fail, r, exe, work, repro):
    d = os.path.join(ROOT, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s_%s.txt" % (prop, n))
    bad = [o for o in (r or {}).get("obls", []) if o["status"] != "proved"]
    with open(path, "w") as o:
        o.write("property %s, contract harness %s in contracts/%s\n" % (prop, n, f))
        if repro:
            rc, out = sh([exe, "replay", n, str(fail[0])], 120, env=ENV)
            o.write("failing clause: %s\n" % fail[1])
            o.write("reproduce: build contracts/%s natively (check.py %s --keep DIR) and run DIR/%s.native replay %s %d\n" % (f, prop, f, n, fail[0]))
            o.write("input drawn and outcome on the real code:\n%s\n" % out[-8000:])
        else:
            o.write("the verifier refutes the obligations below; no failing input was found by running the real code\n")
        for b in bad[:40]:
            o.write("failed obligation: %s [%s] at %s in %s: %s by %s\n%s\n" % (b["name"], b["kind"], b["where"], b["fn"], b["status"], b["backend"], b["info"]))
    clause = fail[1] if repro else "; ".join(sorted({b["name"] for b in bad}))
    return {"harness": n, "clause": clause, "replay": path, "reproduced": repro}


if __name__ == "__main__":
    sys.exit(main())
