"""Functions of /repo that carry no contract of their own (a helper somebody extracted) are inlined,
as text, into the contracted functions that call them, before a unit is generated.  Anything outside the
simple cases below is left alone: the unit then does not compile and the bounded stand-in decides."""
import os, re, tempfile
from . import source


class Cannot(Exception):
    pass


IDENT = r"[A-Za-z_]\w*"
PATH = re.compile(r"%s(?:\s*\.\s*\w+)*$" % IDENT)


def words(t):
    return set(re.findall(IDENT, t))


def strip_comments(t):
    t = re.sub(r"//[^\n]*", "", t)
    return re.sub(r"/\*.*?\*/", "", t, flags=re.S)


def replace(body, name, to, deref):
    """name -> to; `*name` -> to as well where the argument was a borrow of `to`"""
    nm = r"(?<!\w)(?<!(?<!\.)\.)%s\b(?!\s*(?:\(|::))" % re.escape(name)
    if deref:
        body = re.sub(r"\(\s*\*\s*%s\s*\)" % nm, to, body)
        body = re.sub(r"(?<![\w)\]])\s?\*\s*" + nm, lambda m: (" " if m.group(0)[0].isspace() else "") + to, body)
        if re.search(r"\*\s*" + nm, body):
            raise Cannot("dereference")
    return re.sub(nm, to, body)


def generics(fn):
    out = set()
    for sp in (fn.d["generics"], (fn.d["impl"] or {}).get("generics")):
        if sp:
            out |= set(re.findall(r"(?:<|,)\s*([A-Z]\w*)", fn.text(sp)))
    return out


def piece(f, h, call):
    """The text that stands for `call` of helper `h` inside `f`."""
    body = strip_comments(h.src[h.d["open"] + 1:h.d["close"]].decode("utf8"))
    locs = set(l["name"] for l in h.d["locals"])
    params = list(h.d["params"])
    args = [f.text(a) for a in call["args"]]
    recv = None
    if "method" in call:
        recv = f.text(call["recv"])
        if not params or not params[0].get("self") or params[0].get("typed"):
            raise Cannot("receiver")
        params = params[1:]
    elif params and params[0].get("self"):
        raise Cannot("receiver")
    if len(params) != len(args):
        raise Cannot("arguments")
    gens = generics(h)
    used = gens & words(body)
    if used - generics(f):
        raise Cannot("type parameters")
    # early exits
    start, end = call["span"]
    at_tail = f.d["tail"] == [start, end]
    asked = f.src[end:].decode("utf8", "replace").lstrip().startswith("?")
    keep = False
    early = h.d["rets"] or re.search(r"\?\s*[;.,)\]}]", body)
    if early and not at_tail:
        if not asked or h.d["closures"]:
            raise Cannot("early return")
        if len(re.findall(r"\breturn\s+Err\s*\(", body)) != h.d["rets"]:
            raise Cannot("early return")
    if asked and not at_tail:
        if not h.d["tail"]:
            raise Cannot("result")
        t = strip_comments(h.text(h.d["tail"])).strip()
        m = re.match(r"Ok\s*\((.*)\)$", t, re.S)
        if m and body.rstrip().endswith(t):
            body = body.rstrip()[:-len(t)] + m.group(1)
            end += f.src[end:].decode("utf8", "replace").index("?") + 1
        else:
            keep = True   # the block's own result goes through the `?`
    lets, subst = [], []
    for n, (p, a) in enumerate(zip(params, args)):
        name, ty, pat = p["name"], h.text(p["ty"]).strip(), h.text(p["pat"]).strip()
        if name == "?":
            raise Cannot("parameter pattern")
        a = strip_comments(a).strip()
        mb = re.match(r"&\s*(mut\b)?\s*(.*)$", a, re.S)
        if pat == name and a == name:
            continue
        if pat == name and ty.startswith("&") and mb and PATH.match(mb.group(2)):
            subst.append((name, mb.group(2), True))
        elif pat == name and ty.startswith("&") and PATH.match(a):
            subst.append((name, a, False))
        else:
            lets.append((pat, name, a))
    if recv is not None and recv != "self":
        if not PATH.match(recv):
            raise Cannot("receiver")
        subst.append(("self", recv, False))
    allw = set().union(*[words(t) for _, t, _ in subst]) if subst else set()
    if (allw | (words(recv) if recv else set())) & (locs | set(n for _, n, _ in lets)) - {"self"}:
        raise Cannot("a name of the helper shadows an argument")
    names = set(n for n, _, _ in subst)
    for k, (_, n, _) in enumerate(lets):
        if any(n in words(a) for _, _, a in lets[k + 1:]):
            raise Cannot("a name of the helper shadows an argument")
    # simultaneous substitution through placeholders
    for k, (n, t, d) in enumerate(subst):
        if n in locs:
            raise Cannot("a local shadows a parameter")
        body = replace(body, n, "vpq%dq" % k, d)
    for k, (n, t, d) in enumerate(subst):
        body = body.replace("vpq%dq" % k, t)
    pre = "".join("let %s = %s; " % (p, a) for p, _, a in lets)
    body = body.strip()
    if not h.d["ret"] and not at_tail:
        body += ";" if body.endswith("}") else ""
    if keep:
        return start, end, "({ " + pre + body + " })"
    stmt = call.get("stmt")
    if stmt and stmt[0] == start and f.src[end:].decode("utf8", "replace").lstrip().startswith(";"):
        tops = set(l["name"] for l in h.d["locals"] if l["loop"] is None) | set(n for _, n, _ in lets)
        mine = set(l["name"] for l in f.d["locals"]) | set(p["name"] for p in f.d["params"])
        if not h.d["ret"] and not tops & mine:
            return start, end, pre + body   # no block needed: nothing it binds is known here
    # in Verus a block right behind a loop would be read as one of the loop's clauses
    head = "; " if call.get("stmt") and call["stmt"][0] == start else ""
    return start, end, head + "{ " + pre + body + " }"


def expand(fns, items, specs):
    """Returns notes; replaces the entries of `fns` whose helpers could be inlined."""
    contracted = set(s.fnkey for s in specs.values())
    helpers = {}
    for k, f in fns.items():
        if k not in contracted and not (f.d["impl"] or {}).get("trait") and not any("opimps" in a for a in f.d["attrs"]):
            helpers.setdefault(f.name, []).append(f)
    known = set(fns[k].name for k in contracted if k in fns)
    helpers = {n: l[0] for n, l in helpers.items() if len(l) == 1 and n not in known}
    notes = []
    for key in sorted(contracted):
        f = fns.get(key)
        if f is None:
            continue
        for _ in range(12):
            todo = [c for c in f.d["calls"] if (c.get("method") or c["path"][-1]) in helpers]
            todo = [c for c in todo if bool("method" in c) == bool(helpers[c.get("method") or c["path"][-1]].d["params"][:1] and
                                                               helpers[c.get("method") or c["path"][-1]].d["params"][0].get("self"))]
            if not todo:
                break
            done = False
            for c in sorted(todo, key=lambda c: c["span"][1] - c["span"][0]):
                h = helpers[c.get("method") or c["path"][-1]]
                try:
                    a, b, t = piece(f, h, c)
                except Cannot as e:
                    notes.append("%s: helper %s not inlined (%s)" % (key, h.name, e))
                    continue
                src = f.src[:a] + t.encode("utf8") + f.src[b:]
                fd, tmp = tempfile.mkstemp(suffix=".rs")
                try:
                    with os.fdopen(fd, "wb") as o:
                        o.write(src)
                    d = source.extract([tmp])[tmp]
                except source.SourceError as e:
                    notes.append("%s: helper %s not inlined (%s)" % (key, h.name, e))
                    continue
                finally:
                    os.unlink(tmp)
                new = {}
                source.index(f.path, src, d, new, {})
                if key not in new:
                    continue
                f = fns[key] = new[key]
                f.inlined = True
                notes.append("%s: helper %s inlined" % (key, h.name))
                done = True
                break
            if not done:
                break
    return notes
