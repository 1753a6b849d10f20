#!/usr/bin/env python3
"""Regenerates /verif/seeded from the definitions below (tools/seeds/*.py):
each gives the edit, the demonstration and the property it breaks."""
import glob, json, os, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KIT = os.path.join(ROOT, "tools", "seedkit")
DPF = "dpf/int_mod_n.cc dpf/aes_128_fixed_key_hash.cc dpf/internal/value_type_helpers.cc dpf/internal/proto_validator.cc dpf/internal/evaluate_prg_hwy.cc dpf/internal/get_hwy_mode.cc dpf/distributed_point_function.cc"
HASH = "pir/hashing/hash_family.cc pir/hashing/hash_family_config.cc pir/hashing/sha256_hash_family.cc"
DBS = "pir/dense_dpf_pir_database.cc pir/cuckoo_hashed_dpf_pir_database.cc pir/simple_hashed_dpf_pir_database.cc pir/internal/inner_product_hwy.cc pir/hashing/cuckoo_hash_table.cc pir/prng/aes_128_ctr_seeded_prng.cc " + HASH
SRV = "pir/dpf_pir_server.cc pir/dense_dpf_pir_server.cc pir/dense_dpf_pir_client.cc"
PRE = r'''#include <cstdio>
#include <cstdlib>
#define EXPECT(c) do { if (!(c)) { std::printf("FAILED line %d: %s\n", __LINE__, #c); return 1; } } while (0)
'''
SEEDS = []
def seed(id, prop, file, old, new, needs, breaks, demo, srcs="", pb=True, defs=""):
    SEEDS.append(dict(id=id, prop=prop, edits=[(file, old, new)] if isinstance(file, str) else file, needs=needs, breaks=breaks, demo=demo, srcs=srcs, pb=pb, defs=defs))
for f in sorted(glob.glob(os.path.join(ROOT, "tools", "seeds", "*.py"))):
    exec(open(f).read())
def main():
    only = set(sys.argv[1:])
    for s in SEEDS:
        if only and s["id"] not in only:
            continue
        d = os.path.join(ROOT, "seeded", s["id"])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        shutil.copytree(KIT + "/shim", d + "/shim")
        shutil.copy(KIT + "/kit.sh", d + "/kit.sh")
        open(d + "/demo.cc", "w").write(PRE + s["demo"])
        open(d + "/demo.sh", "w").write("#!/bin/bash\nSRCS=\"%s\" %sDEFS=\"%s\" . \"$(dirname \"$0\")/kit.sh\"\n" % (s["srcs"], "" if s["pb"] else "NOPB=1 ", s["defs"]))
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        tmp = "/tmp/mkseed_%s" % s["id"]
        shutil.rmtree(tmp, ignore_errors=True)
        p = ""
        byfile = {}
        for f, o, n in s["edits"]:
            t = byfile.get(f) or open("/repo/" + f).read()
            assert t.count(o) == 1, (s["id"], f, t.count(o), o)
            byfile[f] = t.replace(o, n)
        for f, t in byfile.items():
            os.makedirs(os.path.dirname(tmp + "/b/" + f), exist_ok=True)
            os.makedirs(os.path.dirname(tmp + "/a/" + f), exist_ok=True)
            shutil.copy("/repo/" + f, tmp + "/a/" + f)
            open(tmp + "/b/" + f, "w").write(t)
            r = subprocess.run(["diff", "-u", "a/" + f, "b/" + f], cwd=tmp, capture_output=True, text=True)
            p += "\n".join(l.split("\t")[0] if l[:4] in ("--- ", "+++ ") else l for l in r.stdout.split("\n"))
        open(d + "/patch.diff", "w").write(p)
        shutil.rmtree(tmp)
        subprocess.check_call(["git", "-C", "/repo", "apply", "--check", d + "/patch.diff"])
        print(s["id"])
main()
