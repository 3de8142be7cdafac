"""python3 -m vp.check PROPERTY [quick|thorough]

Deciding step: Verus accepts every obligation generated from /repo's current source for the contracted
functions the property depends on.  See DESIGN.md for what happens when it does not."""
import concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from . import source, spec, gen, verus, inline, norm

VERIF = source.VERIF
EVID = os.path.join(VERIF, "evidence")
HARNESS = os.path.join(VERIF, "harness")
VH = os.path.join(HARNESS, "target", "debug", "vh")
KNOWN = os.path.join(VERIF, "known_findings.txt")

SAFETY_MSG = ("arithmetic underflow/overflow", "precondition not satisfied", "index out of bounds", "decreases not satisfied",
              "could not prove termination", "division by zero", "possible bit shift", "recommendation", "constructor")


def sh(cmd, cwd=None, timeout=600, env=None):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, timeout=timeout, env=env)


def build_tools(log):
    p = sh(["cargo", "build", "--offline", "--release"], cwd=os.path.join(VERIF, "extract"))
    if p.returncode:
        print("cannot build the extractor:\n" + p.stderr[-3000:])
        sys.exit(3)


def start_harness_build():
    return subprocess.Popen(["cargo", "build", "--offline"], cwd=HARNESS, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def harness(args, timeout, memkb=16000000):
    cmd = "ulimit -v %d; exec %s %s" % (memkb, VH, " ".join(args))
    try:
        p = subprocess.run(["bash", "-c", cmd], capture_output=True, text=True, timeout=timeout)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        return None, (e.stdout or b"").decode() if isinstance(e.stdout, bytes) else (e.stdout or ""), "timeout"


def count_obligations(u, res, workdir):
    """Assertions Verus hands to the SMT solver for the function of this unit (from its AIR log)."""
    try:
        lg = os.path.join(workdir, "lg_" + re.sub(r"\W+", "_", u.key))
        txt = open(os.path.join(lg, "root.air")).read()
    except OSError:
        return 0
    finally:
        shutil.rmtree(os.path.join(workdir, "lg_" + re.sub(r"\W+", "_", u.key)), ignore_errors=True)
    n = 0
    for blk in re.split(r"\n\(check-valid", txt)[1:]:
        n += len(re.findall(r"\n\s*\(assert\b", blk))
    return n


class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.budget = 800 if tier == "quick" else 3500
        self.notes = []
        self.work = tempfile.mkdtemp(prefix="vp_%s_" % prop)
        os.makedirs(EVID, exist_ok=True)

    def say(self, s):
        print(s, flush=True)

    def run_units(self):
        fns, items = source.load()
        specs = spec.parse()
        b = gen.load_baseline()
        now = gen.residues(fns, [k for k in b if k[0] != "@"])
        was = b.get("@residue", {})
        self.outside = sorted(f for f in set(now) | set(was) if now.get(f) != was.get(f))
        for n in inline.expand(fns, items, specs):
            self.say("note: " + n)
            self.notes.append(n)
        for n in norm.normalise(fns, specs, gen.load_baseline()):
            self.say("note: " + n)
            self.notes.append(n)
        g = gen.Gen(fns, items, specs)
        self.fns, self.specs, self.g = fns, specs, g
        if self.prop == "C23":
            tagged = [k for k in specs]
        else:
            tagged = [k for k, s in specs.items() if self.prop in s.props]
        keys = g.closure(tagged)
        self.keys = keys
        results = {}
        jobs = []
        with cf.ThreadPoolExecutor(8) as ex:
            jobs.append(("lib", None, ex.submit(verus.run, g.lib_unit(), self.work, False, None, 300, 2)))
            for k in keys:
                try:
                    if specs[k].trusted:
                        results[k] = {"status": "trusted", "why": specs[k].trusted}
                        continue
                    u = g.unit(k)
                except gen.LostAnchor as e:
                    results[k] = {"status": "lost", "why": str(e)}
                    continue
                except Exception as e:   # a shape of text the generator did not foresee
                    results[k] = {"status": "lost", "why": "no unit could be generated: %s %s" % (type(e).__name__, e)}
                    continue
                lg = os.path.join(self.work, "lg_" + re.sub(r"\W+", "_", u.key))
                jobs.append((k, u, ex.submit(verus.run, u, self.work, True, None, 300, 1, ["--log", "air", "--log-dir", lg])))
            vac = []
            for k in keys:
                if k in results:
                    continue
                u = g.vacuity(k)
                if u:
                    vac.append((k, ex.submit(verus.run, u, self.work, True, None, 60, 1)))
            for k, u, f in jobs:
                r = f.result()
                if u is not None:
                    r["unit"] = u
                    r["obl"] = count_obligations(u, r, self.work)
                results[k] = r
            self.vacuous = []
            self.vac_n = len(vac)
            for k, f in vac:
                r = f.result()
                if r["status"] == "ok":
                    self.vacuous.append(k)
                elif r["status"] == "broken":
                    self.notes.append("the vacuity check of %s could not be run" % k)
        self.results = results

    def left(self):
        """Seconds of this run's budget that remain."""
        return self.budget - (time.time() - self.t0)

    def retry(self):
        """Once more with more room and another seed: slow queries are not findings."""
        again = [k for k, r in self.results.items() if r["status"] in ("failed", "limit")]
        room = self.left() - 200
        if not again or room < 30:
            return
        with cf.ThreadPoolExecutor(4) as ex:
            fs = {k: ex.submit(verus.run, self.results[k]["unit"], self.work, True, 120, min(room / (1 + (len(again) - 1) // 4), 300), 2,
                               ["--smt-option", "smt.random_seed=%d" % (self.seed + 7)]) for k in again}
            for k, f in fs.items():
                r2, r = f.result(), self.results[k]
                if r2["status"] == "limit" and r["status"] == "failed":
                    continue
                r2["unit"], r2["obl"] = r["unit"], r.get("obl", 0)
                self.results[k] = r2

    def classify(self, key, r):
        """Which failed obligations of a unit speak about this property."""
        u = r["unit"]
        hits = []
        for e in r["errors"]:
            msg = e["message"]
            if "Resource limit" in msg or "rlimit" in msg:
                continue
            prim = [s for s in e["spans"] if s[2]] or e["spans"]
            where = [u.at(s[0]) for s in e["spans"]]
            kinds = [w[0] for w in where]
            srcs = [w for w in where if w[0] == "src"]
            loc = ""
            if srcs:
                fk, a = srcs[0][1]
                loc = "%s:%d" % (os.path.relpath(self.fns[fk].path, source.REPO), self.fns[fk].line(a + srcs[0][2]))
            clause = ""
            text = u.text().encode()
            for s in e["spans"]:
                k = u.at(s[0])[0]
                if k in ("spec", "ghost", "stubspec", "extra"):
                    clause = text[s[0]:s[1]].decode("utf8", "replace")
                    break
            h = {"function": key, "obligation": msg, "at": loc, "clause": re.sub(r"\s+", " ", clause)[:300], "rendered": e["rendered"]}
            if self.prop == "C23":
                prim_src = any(u.at(s[0])[0] == "src" for s in prim)
                if any(m in msg for m in SAFETY_MSG) and prim_src:
                    hits.append(h)
                elif "postcondition" in msg and re.search(r"\b(wf|wfs|csr_ok|csc_ok|coo_ok)\b", clause):
                    hits.append(h)
                continue
            if self.prop == "C17" and "##" not in key:
                # values are other properties' business: here only acceptance and rejection count
                if "postcondition" in msg and re.search(r"is_ok|is_err|is_some|is_none", clause):
                    hits.append(h)
                continue
            hits.append(h)
        return hits

    def main(self):
        hb = start_harness_build()
        build_tools(self)
        try:
            self.run_units()
        except source.SourceError as e:
            self.say("cannot read the sources: %s" % e)
            hb.wait()
            sys.exit(3)
        hout, _ = hb.communicate()
        have_h = hb.returncode == 0
        if not have_h:
            self.notes.append("the bounded harness does not compile against this tree")
        lib = self.results.pop("lib")
        if lib["status"] != "ok":
            self.say("note: the lemma library did not verify in time (%s)" % lib["status"])
            r2 = verus.run(self.g.lib_unit(), self.work, False, 200, 400, 8)
            if r2["status"] != "ok":
                self.say("the lemma library does not verify\n" + r2["rendered"][:3000])
                sys.exit(3)
        failed, undecided, trusted, ok = {}, {}, {}, []
        self.retry()
        for k, r in self.results.items():
            st = r["status"]
            if st == "ok":
                ok.append(k)
                continue
            if st == "trusted":
                trusted[k] = r["why"]
                continue
            fn = self.fns.get(self.specs[k].fnkey)
            base = self.g.baseline.get(self.specs[k].fnkey)
            same = fn is not None and base and base["norm"] == hashlib.sha256(fn.norm().encode()).hexdigest()
            if st == "failed" and getattr(fn, "normalised", False):
                undecided[k] = "its loops were rewritten, and as put back they do not fit the contract's ghost text"
            elif st == "failed" and not same:
                hits = self.classify(k, r)
                if hits:
                    failed[k] = hits
                else:
                    undecided[k] = "the changed function's obligations on other matters fail"
            elif st == "failed":
                undecided[k] = "an obligation of the unchanged function was not discharged on this run"
            elif st == "broken":
                why = "; ".join(e["message"] for e in r["errors"][:2]) or r["rendered"][-300:]
                undecided[k] = "outside the verifier's reach as it now stands: " + why[:300]
            else:
                undecided[k] = r.get("why", "solver limit")
        self.failed, self.undecided, self.trusted, self.ok = failed, undecided, trusted, ok
        for k in self.vacuous:
            self.say("the precondition of %s is contradictory" % k)
            sys.exit(3)

        # bounded stand-in / search for a failing input
        self.hres = None
        cases = 0
        hviol = None
        if have_h:
            n = 3000 if self.tier == "quick" else 150000
            tmo = 200 if self.tier == "quick" else 700
            extra = []
            if self.outside:
                self.notes.append("text outside the functions under contract differs in %s: larger bounded search" % ", ".join(self.outside))
            if failed or undecided or self.outside:
                n = max(n, 40000)
                tmo = max(60, min(300, self.left() - 60))
                extra = ["--exh4"]
            if self.tier != "quick":
                extra = ["--exh4"]
            hviol, cases = self.search(n, tmo, extra)
        else:
            self.hres = {}
        self.cases = cases
        viol = None
        if hviol:
            viol = (hviol, "")
        elif failed:
            path = os.path.join(EVID, "replay_%s.txt" % self.prop)
            with open(path, "w") as f:
                f.write("property %s\nfailed obligations (Verus), functions of the current tree:\n\n" % self.prop)
                for k, hs in failed.items():
                    for h in hs:
                        f.write("function %s\nobligation: %s\nat: %s\nclause: %s\n\n%s\n" % (k, h["obligation"], h["at"], h["clause"], h["rendered"]))
            viol = (path, " no-failing-input-found")
        for k, w in undecided.items():
            self.say("BOUNDED: %s not decided by proof on this tree (%s); the bounded stand-in decided it" % (k, w))
        for k, hs in failed.items():
            for h in hs[:4]:
                self.say("failed obligation: %s: %s at %s [%s]" % (k, h["obligation"], h["at"], h["clause"][:160]))
        self.known()
        self.evidence(1 if viol else 0)
        shutil.rmtree(self.work, ignore_errors=True)
        if viol:
            self.say("VIOLATION property=%s replay=%s%s" % (self.prop, viol[0], viol[1]))
            sys.exit(1)
        self.say("OK %s: %d functions proved (%d obligations), %d trusted, %d undecided, %d bounded cases, %.0f s" % (
            self.prop, len(ok), sum(self.results[k].get("obl", 0) for k in ok), len(trusted), len(undecided), cases, time.time() - self.t0))
        sys.exit(0)

    def search(self, n, tmo, extra):
        out = os.path.join(EVID, "replay_%s.case" % self.prop)
        if os.path.exists(out):
            os.unlink(out)
        props = self.prop
        args = ["check", "--props", props, "--n", str(n), "--seed", str(self.seed), "--secs", str(max(20, tmo - 25)), "--out", out] + extra
        if self.prop == "C23":
            args.append("--safety")
        rc, so, se = harness(args, tmo)
        m = re.search(r"CASES (.*)", so)
        per = {}
        if m:
            for w in m.group(1).split():
                if "=" in w:
                    a, b = w.rsplit("=", 1)
                    per[a] = int(b)
        self.hres = per
        cases = sum(per.values())
        if rc == 0 or rc is None:
            if rc is None:
                self.notes.append("bounded search stopped at its time limit (%d s)" % tmo)
            return None, cases
        if rc == 1 and os.path.exists(out):
            for l in so.splitlines():
                if l.startswith("FAIL"):
                    self.say(l[:400])
                    break
            return out, cases
        # the process died (abort, out of memory, signal): find the case by tracing
        tf = os.path.join(self.work, "trace.case")
        rc, so, se = harness(["check", "--props", props, "--n", str(n), "--seed", str(self.seed), "--trace", tf], max(30, min(400, self.left() - 10)))
        if rc not in (0, 1, None) and os.path.exists(tf):
            shutil.copy(tf, out)
            with open(out) as f:
                body = f.read()
            with open(out, "w") as f:
                f.write("kind safety\nmessage the process died (exit %s)\n---- case ----\n%s" % (rc, body))
            self.say("FAIL safety: process died with %s" % rc)
            return out, cases
        if rc == 1:
            rc, so, se = harness(args, tmo)
            if rc == 1 and os.path.exists(out):
                return out, cases
        self.notes.append("the bounded harness ended with %s" % rc)
        return None, cases

    def known(self):
        if os.path.exists(KNOWN):
            for l in open(KNOWN):
                l = l.strip()
                m = re.match(r"known: property=(\S+) (.*)", l)
                if m and m.group(1) == self.prop:
                    self.say("KNOWN-FINDING: property=%s %s" % (self.prop, m.group(2)))

    def evidence(self, nviol):
        man = json.load(open(os.path.join(VERIF, "MANIFEST.json")))
        lvl = next((c["level"] for c in man["checks"] if c["property"] == self.prop), "proof")
        proved = []
        smt = 0
        obl = dis = 0
        for k in self.keys:
            r = self.results.get(k, {})
            if r.get("status") == "ok":
                proved.append({"function": k, "obligations": r.get("obl", 0), "smt_ms": r.get("smt_ms", 0)})
                obl += r.get("obl", 0)
                dis += r.get("obl", 0)
                smt += r.get("smt_ms", 0)
            elif r.get("status") == "failed":
                obl += r.get("obl", 0)
                dis += max(0, r.get("obl", 0) - max(1, len(r.get("errors", []))))
            elif r.get("status") == "limit":
                obl += r.get("obl", 0)
        scan = self.scan()
        cov = {
            "obligations": obl, "discharged": dis,
            "checker_cmd": "verus <unit>.rs --verify-root (one generated unit per function, back end Z3)",
            "trusted_base": scan,
            "functions_under_contract": proved,
            "functions_trusted": self.trusted,
            "functions_undecided": self.undecided,
            "failed_obligations": [{k: h[k] for k in ("function", "obligation", "at", "clause")} for hs in self.failed.values() for h in hs],
            "back_end": "Verus 0.2026.09.13 / Z3",
            "smt_ms": smt,
            "vacuity_checks": self.vac_n,
            "bounded_cases": self.hres or {},
            "evaluations": self.cases,
            "rule": "bounded stand-in: random valid structures (dimensions 0 to 60, up to 60 entries a line) with duplicates, unsorted lines, empty lines, spare storage and small index types, "
                    "replayed through /repo's crate and compared with a dense reference; never counted as proved",
            "explanation": "see DESIGN.md",
            "samples": [p["function"] for p in proved[:5]],
        }
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": lvl, "coverage": cov,
              "assumptions": ASSUMPTIONS + ["bounded, not proved: " + b for b in self.specs_bounded()] + self.notes,
              "wall_s": round(time.time() - self.t0, 2), "violations": nviol}
        json.dump(ev, open(os.path.join(EVID, "%s.json" % self.prop), "w"), indent=1)

    def specs_bounded(self):
        p = os.path.join(VERIF, "specs", "bounded.json")
        if not os.path.exists(p):
            return []
        d = json.load(open(p))
        return d.get(self.prop, [])

    def scan(self):
        """Mechanical scan of what the units assume without proof."""
        out = []
        t = self.g.prelude + "".join(t for _, t in self.g.std_extra) + "".join(self.g.lib.values())
        for m in re.finditer(r"(assume_specification[^;]*?\[(.*?)\]|axiom fn (\w+)|external_body\]\s*(?:pub )?(?:broadcast )?(?:proof )?(?:fn|struct) (\w+)|uninterp spec fn (\w+)|\bassume\(|\badmit\()", t):
            out.append("prelude: " + re.sub(r"\s+", " ", m.group(0))[:120])
        for m in re.finditer(r"pub trait (\w+)", t):
            out.append("prelude trait %s: its laws are assumed of every instance" % m.group(1))
        for k in self.keys:
            s = self.specs[k]
            body = s.extra + s.top + s.end + "".join("".join(l.values()) for l in s.loops.values()) + "".join(c[3] for c in s.calls)
            for m in re.finditer(r"\b(assume|admit)\s*\(|external_body|axiom fn \w+", body):
                out.append("%s: %s" % (k, m.group(0)))
            if s.trusted:
                out.append("%s: contract assumed (%s)" % (k, s.trusted))
        return out


ASSUMPTIONS = [
    "index types: to_usize/from/zero/one, +, -, +=, -=, comparisons of the generic index type I behave as on mathematical integers within its range (trait laws in specs/prelude.rs)",
    "generic scalars: neg, to_owned, copies and clones of a value give that value (specs/prelude.rs: s_neg, os_neg, copy_cloned, vp_copied); num_complex new/conj and the re/im fields behave as on pairs",
    "scalar arithmetic is treated as exact (complex) real arithmetic: no rounding, no overflow, NaN or infinities",
    "the laws of index types are proved for the primitive types usize, isize, u8..u64, i8..i64 (specs/prelude.rs, specs/instances.rs; `from` and u128/i128 excepted); pairs of indices obey the key model of hash maps (hash_keys); sort_by is a stable sort (vp_sort_pairs)",
    "text: Display prints an index in decimal and a scalar as a function of its value, dtoa and the float sign/abs operations are functions of their arguments, TabWriter prints the cells it is given in order and its writer does not fail, String::from_utf8/as_bytes are UTF-8 decoding/encoding (specs/lib_ztext.rs); the complex structs have the two fields re and im",
    "Vec, slice and Option operations follow the contracts in vstd and specs/prelude.rs",
    "the extraction drops visibility, attributes and doc comments; opimps operator functions are verified as plain functions (self renamed slf)",
    "Verus, Z3 and rustc are correct",
]

if __name__ == "__main__":
    Check(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")).main()
