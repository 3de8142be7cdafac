"""dev: python3 -m vp.dev KEY...   generate and verify units, print the errors"""
import sys, os, concurrent.futures as cf
from . import source, spec, gen, verus

def main():
    fns, items = source.load()
    specs = spec.parse()
    args = sys.argv[1:]
    if args and args[0] == "--baseline":
        import json
        b = {s.fnkey: gen.baseline_entry(fns[s.fnkey], [t for t in specs.values() if t.fnkey == s.fnkey]) for s in specs.values()}
        b["@residue"] = gen.residues(fns, list(b))
        json.dump(b, open(gen.BASE, "w"), indent=0, sort_keys=True)
        print(len(b), "entries")
        return
    g = gen.Gen(fns, items, specs, baseline={})
    if args == ["lib"]:
        r = verus.run(g.lib_unit(), "/tmp/vpdev", root=False, threads=8)
        print(r["rendered"]); print(r["status"], r["verified"], r["nerr"], "%.1fs" % r["wall"], r["smt_ms"])
        return
    prof = False
    keys = [k for a in args for k in specs if a == k or k.endswith("::" + a)] if args and args != ["all"] else list(specs)
    def one(k):
        u = g.unit(k)
        return k, verus.run(u, "/tmp/vpdev", extra=["--multiple-errors","5"] if len(keys) == 1 else [])
    with cf.ThreadPoolExecutor(8) as ex:
        for k, r in ex.map(one, keys):
            if r["status"] != "ok":
                print(r["rendered"])
            print(k, r["status"], r["verified"], r["nerr"], "%.1fs" % r["wall"], r["smt_ms"], flush=True)
main()
