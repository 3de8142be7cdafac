import json, os, re, subprocess, tempfile, time

VERUS = "verus"


def run(unit, workdir, root=True, rlimit=None, timeout=300, threads=1, extra=()):
    """Runs Verus on one generated unit.  Returns a dict with status:
    ok | failed (definite failed obligations) | limit (rlimit/timeout) | broken (does not compile here)."""
    os.makedirs(workdir, exist_ok=True)
    name = re.sub(r"\W+", "_", unit.key)
    path = os.path.join(workdir, name + ".rs")
    with open(path, "w") as f:
        f.write(unit.text())
    cmd = [VERUS, path, "--output-json", "--time-expanded", "--error-format=json", "--num-threads", str(threads),
           "--triggers-mode", "silent"]
    if root:
        cmd.append("--verify-root")
    if rlimit:
        cmd += ["--rlimit", str(rlimit)]
    cmd += list(extra)
    t0 = time.time()
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=workdir)
    except subprocess.TimeoutExpired:
        return {"status": "limit", "errors": [], "why": "timeout %ds" % timeout, "wall": time.time() - t0, "path": path,
                "verified": 0, "nerr": 0, "smt_ms": 0, "rendered": ""}
    wall = time.time() - t0
    try:
        out = json.loads(p.stdout)
    except Exception:
        out = {}
    vr = out.get("verification-results", {})
    errs, rendered, limit = [], [], False
    for line in p.stderr.splitlines():
        if not line.startswith("{"):
            continue
        try:
            dg = json.loads(line)
        except Exception:
            continue
        if dg.get("level") not in ("error",):
            if "note" == dg.get("level") or "warning" == dg.get("level"):
                continue
        msg = dg.get("message", "")
        if msg.startswith("aborting due to") or msg.startswith("Some errors have") or not dg.get("spans"):
            if "resource limit" in msg.lower() or "rlimit" in msg.lower():
                limit = True
            continue
        if "Resource limit" in msg or "rlimit" in msg:
            limit = True
        spans = [(s["byte_start"], s["byte_end"], s["is_primary"], s.get("label")) for s in dg["spans"]
                 if s["file_name"].endswith(name + ".rs")]
        errs.append({"message": msg, "code": (dg.get("code") or {}).get("code") if dg.get("code") else None, "spans": spans,
                     "rendered": dg.get("rendered", "")})
        rendered.append(dg.get("rendered", ""))
    tm = out.get("times-ms", {})
    smt = 0
    try:
        smt = tm["smt"]["total"]
    except Exception:
        pass
    res = {"errors": errs, "wall": wall, "path": path, "verified": vr.get("verified", 0), "nerr": vr.get("errors", 0),
           "smt_ms": smt, "rendered": "\n".join(rendered), "cmd": " ".join(cmd)}
    fb = []
    try:
        for mdl in tm["smt"]["smt-run-module-times"]:
            fb += mdl["function-breakdown"]
    except Exception:
        pass
    res["functions"] = [[f["function"].split("::", 1)[-1], f["success"], f["time-micros"]] for f in fb]
    if vr.get("errors") == 0 and not vr.get("encountered-error") and vr.get("verified", 0) > 1:
        res["status"] = "ok"
    elif "verified" not in vr or vr.get("encountered-vir-error") or not fb:
        res["status"] = "broken"
        if not errs:
            res["rendered"] = p.stderr[-3000:]
    elif limit and all("esource limit" in e["message"] or "rlimit" in e["message"] for e in errs):
        res["status"] = "limit"
    else:
        res["status"] = "failed"
    res["raw_times"] = tm
    return res
