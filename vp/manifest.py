"""python3 -m vp.manifest   rewrites MANIFEST.json from the contracts and the notes below"""
import json, os
from . import spec, source
NA = {
 "C25": "floating-point convergence of an iterative eigenvalue solver (optional arpack feature, external native library): the contracts treat scalars as exact reals and give no meaning to a rounding tolerance, and the solver's body is foreign code",
}
LEVEL = json.load(open(os.path.join(spec.SPECDIR, "levels.json")))
def main():
    ids = [json.loads(l)["id"] for l in open(os.path.join(source.VERIF, "properties.jsonl"))]
    sp = spec.parse()
    out = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
    for i in ids:
        if i in NA:
            out["not_applicable"].append({"property": i, "reason": NA[i]})
            continue
        n = sum(1 for s in sp.values() if i in s.props and not s.trusted)
        lv = LEVEL.get(i, {})
        out["checks"].append({
            "property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": lv.get("technique", "contract-based deductive verification of /repo's functions (Verus/Z3)"),
            "level": lv.get("level", "proof"),
            "level_note": lv.get("note", "Contracts of the functions this property rests on, discharged by Verus/Z3 over their current text for all inputs; scalars are exact reals, index types obey the trait laws listed in evidence; a bounded replay of the compiled crate against a dense reference stands in for what is not under contract.")})
    json.dump(out, open(os.path.join(source.VERIF, "MANIFEST.json"), "w"), indent=1)
    print(len(out["checks"]), "checks")
main()
