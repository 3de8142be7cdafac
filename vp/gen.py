"""Builds one Verus unit per contracted function: its text from /repo, contracts spliced in."""
import hashlib, json, os, re
from . import source
from .source import VERIF, Fn
from .spec import SPECDIR

BASE = os.path.join(SPECDIR, "baseline.json")


class LostAnchor(Exception):
    pass


HDR = """use vstd::prelude::*;
use core::ops;
use core::cmp::Ordering;
#[allow(unused_imports)] use std::collections::HashMap;
#[allow(unused_imports)] use core::hash::Hash;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
"""
MACROS = """
macro_rules! format_err { ($($t:tt)*) => { vp_err() } }
macro_rules! panic { ($($t:tt)*) => { vp_panic() } }
macro_rules! unreachable { ($($t:tt)*) => { vp_panic() } }
macro_rules! assert_eq { ($a:expr, $b:expr $(, $($t:tt)*)?) => { vp_assert($a == $b) } }
macro_rules! assert { ($a:expr $(, $($t:tt)*)?) => { vp_assert($a) } }
"""
PREUSE = "use vstd::prelude::*; use core::ops; use core::cmp::Ordering; use vstd::std_specs::ops::*; use vstd::std_specs::cmp::*;\n"
BROADCAST = "broadcast use {g_int, g_sc, g_obeys, g_misc};\n"
STRUCTS = [("csr", "CSR"), ("csc", "CSC"), ("coo", "Coo")]


def squeeze(t):
    t = re.sub(r"//[^\n]*", "", t)
    t = re.sub(r"/\*.*?\*/", "", t, flags=re.S)
    return re.sub(r"\s+", "", t)


def calls_of(fn, name):
    cs = [c for c in fn.d["calls"] if (c.get("method") == name or (c.get("path") and ("::".join(c["path"]) == name or c["path"][-1] == name)))]
    return sorted(cs, key=lambda c: c["span"][0])


def call_texts(fn, name):
    return [squeeze(fn.text(c["stmt"])) if c["stmt"] else None for c in calls_of(fn, name)]


def align(old, new):
    """Which of the current statements each baseline statement has become: equal text first (in order among
    equals), then the rest in order if equally many are left on both sides.  None where there is no answer."""
    out = [None] * len(old)
    if old == new:
        return list(range(len(old)))
    free = list(range(len(new)))
    for t in set(old):
        a = [i for i, x in enumerate(old) if x == t]
        b = [i for i, x in enumerate(new) if x == t]
        if len(b) > len(a):       # more copies than there were: keep the order from the front
            b = b[:len(a)]
        for i, j in zip(a, b):
            out[i] = j
            free.remove(j)
    rest = [i for i, j in enumerate(out) if j is None]
    if len(rest) == len(free):
        for i, j in zip(rest, free):
            out[i] = j
    return out


def baseline_entry(fn, specs=()):
    names = sorted({c[1] for sp in specs for c in sp.calls})
    return {"looptext": [hashlib.sha256(squeeze(fn.text(L["span"])).encode()).hexdigest()[:16] for L in fn.d["loops"]],
            "anchors": {n: call_texts(fn, n) for n in names},"loops": fn.loops_sig(), "locals": fn.locals_list(), "params": [p["name"] for p in fn.d["params"]],
            "ranges": [L["kind"] == "for" and ".." in fn.text(L["expr"]) for L in fn.d["loops"]],
            "norm": hashlib.sha256(fn.norm().encode()).hexdigest(), "closures": len(fn.d["closures"])}


def residues(fns, keys):
    """Per source file, a hash of what lies outside the bodies of the functions under contract."""
    by = {}
    for k in keys:
        if k in fns:
            by.setdefault(fns[k].path, []).append((fns[k].d["open"] + 1, fns[k].d["close"]))
    out = {}
    root = os.path.join(source.REPO, "src")
    for d, _, names in os.walk(root):
        for n in names:
            p = os.path.join(d, n)
            if n.endswith(".rs") and n not in source.SKIP:
                s = open(p, "rb").read()
                for a, b in sorted(by.get(p, []), reverse=True):
                    s = s[:a] + s[b:]
                t = re.sub(r"//[^\n]*", "", s.decode("utf8", "replace"))
                t = re.sub(r"/\*.*?\*/", "", t, flags=re.S)
                out[os.path.relpath(p, root)] = hashlib.sha256(re.sub(r"\s+", "", t).encode()).hexdigest()[:16]
    return out


def load_baseline():
    return json.load(open(BASE)) if os.path.exists(BASE) else {}


def rename_map(old, new, oldp, newp):
    """Maps the baseline's binding names to the current ones: parameters by position, locals by
    aligning the two binding lists (a binding that was added or dropped elsewhere does not matter)."""
    m = {}
    if len(oldp) != len(newp):
        raise LostAnchor("parameter list changed")
    for a, b in zip(oldp, newp):
        if a != b:
            m[a] = b
    olds = [n for n, _ in old]
    news = [n for n, _ in new]
    oldset, newset = set(olds) | set(oldp), set(news) | set(newp)
    gone = [n for n in dict.fromkeys(olds) if n not in newset]
    come = [n for n in dict.fromkeys(news) if n not in oldset]
    if gone:
        # same number of new names as vanished ones: pair them by order of first binding and loop
        if len(gone) == len(come):
            for a, b in zip(gone, come):
                m[a] = b
        else:
            key_new = {}
            for n, l in new:
                if n in come:
                    key_new.setdefault(l, []).append(n)
            for n, l in old:
                if n in gone and n not in m:
                    c = key_new.get(l, [])
                    if len(c) == 1:
                        m[n] = c[0]
    return m


def ren(text, m):
    if not m or not text:
        return text
    pat = re.compile(r"(?<!\w)(?<!(?<!\.)\.)(" + "|".join(re.escape(k) for k in m) + r")\b(?!\s*\()")
    return pat.sub(lambda x: m[x.group(1)], text)


class Unit:
    """Generated text plus a byte map back to where each piece came from."""

    def __init__(self, key):
        self.key = key
        self.parts = []   # (text, kind, meta)
        self.n = 0
        self.map = []
        self.notes = []

    def add(self, text, kind="gen", meta=None):
        if not text:
            return
        b = len(text.encode("utf8"))
        self.parts.append(text)
        self.map.append((self.n, self.n + b, kind, meta))
        self.n += b

    def text(self):
        return "".join(self.parts)

    def at(self, off):
        for a, b, k, m in self.map:
            if a <= off < b:
                return k, m, off - a
        return "gen", None, 0


def split_args(t):
    """Top-level comma separated pieces (strings, chars and brackets respected)."""
    out, cur, depth, i = [], "", 0, 0
    while i < len(t):
        c = t[i]
        if c == '"':
            j = i + 1
            while t[j] != '"':
                j += 2 if t[j] == "\\" else 1
            cur += t[i:j + 1]
            i = j + 1
            continue
        if c == "'" and re.match(r"'(\\.|[^\\])'", t[i:]):
            j = i + re.match(r"'(\\.|[^\\])'", t[i:]).end()
            cur += t[i:j]
            i = j
            continue
        depth += {"(": 1, "[": 1, "{": 1, ")": -1, "]": -1, "}": -1}.get(c, 0)
        if c == "," and depth == 0:
            out.append(cur)
            cur = ""
        else:
            cur += c
        i += 1
    if cur.strip():
        out.append(cur)
    return out


def free_name(key):
    return re.sub(r"\W+", "_", key).strip("_")


class Gen:
    def __init__(self, fns, items, specs, baseline=None):
        self.fns, self.items, self.specs = fns, items, specs
        self.baseline = load_baseline() if baseline is None else baseline
        self.prelude = open(os.path.join(SPECDIR, "prelude.rs")).read()
        self.post = open(os.path.join(SPECDIR, "post.rs")).read()
        self.std_extra = re.findall(r"(?ms)^//@when (\S[^\n]*)\n(.*?)(?=^//@when|\Z)", open(os.path.join(SPECDIR, "std_extra.rs")).read())
        self.lib = {}
        for n in sorted(os.listdir(SPECDIR)):
            if n.startswith("lib_") and n.endswith(".rs"):
                self.lib[n[:-3]] = open(os.path.join(SPECDIR, n)).read()

    # ---- callees
    def callees(self, key):
        sp = self.specs[key]
        fn = self.fns[sp.fnkey]
        names = fn.callee_names()
        for mm in re.finditer(r"vec!\[([^\]]*)\]", fn.src[fn.d["open"]:fn.d["close"]].decode("utf8")):
            names |= set("." + x for x in re.findall(r"\.(\w+)\(", mm.group(1)))
        out = []
        for k, s in self.specs.items():
            if s.fnkey == sp.fnkey or s.variant or s.free:
                continue
            f = self.fns.get(s.fnkey)
            if f is None:
                continue
            if f.d["impl"]:
                ty = f.d["impl"]["ty"]
                if ty not in ("CSR", "CSC", "Coo") and not any(i.endswith("::" + ty) for i in sp.items):
                    continue
                is_method = any(p.get("self") for p in f.d["params"])
                if is_method and ("." + f.name) in names:
                    out.append(k)
                elif not is_method and (ty + "::" + f.name in names or
                                        ("Self::" + f.name in names and fn.d["impl"] and fn.d["impl"]["ty"] == ty)):
                    out.append(k)
            elif "_ops::" not in k and f.name in names:
                out.append(k)
        for u in sp.uses:
            if u not in out:
                out.append(u)
        return out

    def closure(self, keys):
        seen, todo = [], list(keys)
        while todo:
            k = todo.pop(0)
            if k in seen or k not in self.specs:
                continue
            seen.append(k)
            if self.specs[k].fnkey in self.fns:
                todo += self.callees(k)
        return seen

    # ---- pieces
    def header(self, u, libs=None, structs=True, panics=False, src=None):
        u.add("#![allow(unused_imports, unused_variables, unused_mut, dead_code, unused_assignments, unused_braces, unused_parens, non_snake_case)]\n" + HDR + (MACROS.replace("vp_assert(", "vp_assert_may(").replace("vp_panic(", "vp_panic_may(") if panics else MACROS))
        u.add("verus! {\npub mod pre {\n" + PREUSE)
        u.add(self.prelude, "prelude")
        for rx, t in self.std_extra:
            if (libs is None) if src is None else re.search(rx, src):
                u.add(t, "prelude")
        u.add("}\n")
        prev = []
        keep = self.needed(libs)
        for n, t in self.lib.items():
            if n not in keep:
                continue
            u.add("pub mod %s {\n%suse super::pre::*; use super::pre::Integer;\n%s%s" % (
                n, PREUSE, "".join("use super::%s::*;\n" % p for p in prev), BROADCAST))
            u.add(t, "lib", n)
            u.add("}\n")
            prev.append(n)
        u.add("use pre::*; use pre::Integer;\n" + "".join("use %s::*;\n" % p for p in prev))
        u.add(BROADCAST)
        if structs:
            for key in STRUCTS:
                if key in self.items:
                    u.add(self.item_text(key) + "\n")
            u.add(self.post, "post")

    def needed(self, text):
        """The lemma modules that a unit's text refers to, and the ones those refer to."""
        if text is None:
            return set(self.lib)
        defs = {n: set(re.findall(r"(?m)^\S.*?\b(?:fn|struct|trait|enum) (\w+)", t)) for n, t in self.lib.items()}
        words = {n: set(re.findall(r"\w+", t)) for n, t in self.lib.items()}
        keep, todo = set(), [set(re.findall(r"\w+", text + self.post))]
        while todo:
            w = todo.pop()
            for n in self.lib:
                if n not in keep and defs[n] & w:
                    keep.add(n)
                    todo.append(words[n])
        return keep

    def item_text(self, key):
        t = self.items[key]
        eq = bool(re.search(r"\benum\b", t)) and bool(re.search(r"#\[derive\([^)]*\bPartialEq\b", t))
        t = re.sub(r"#\[derive\([^)]*\)\]\s*", "", t)
        t = re.sub(r"///[^\n]*\n", "", t)
        t = re.sub(r"pub\((super|crate)\)\s*", "", t)
        if t.lstrip().startswith(("struct", "pub struct")):
            head, body = t.split("{", 1)
            body = re.sub(r"(?m)^(\s*)(?:pub\s+)?(\w+)\s*:", r"\1pub \2:", body)
            t = head + "{" + body
        t = re.sub(r"(?m)^(enum|struct)", r"pub \1", t)
        if eq:
            t = "#[derive(Clone, Copy, PartialEq, Eq, Structural)]\n" + t
        return t

    def signature(self, fn, sp, rename_self):
        """Signature text with the result named and visibility made public."""
        d = fn.d
        a = d["fn_token"][0]
        txt = fn.src[a:d["open"]].decode("utf8")
        if d["ret"]:
            r0, r1 = d["ret"][0] - a, d["ret"][1] - a
            b = fn.src[a:d["open"]]
            txt = b[:r0].decode() + "(" + sp.ret + ": " + b[r0:r1].decode() + ")" + b[r1:].decode()
        for o, n in sp.subs:
            txt = txt.replace(o, n)
        if sp.free:
            name, generics = sp.free
            txt = re.sub(r"\bfn \w+(<[^(]*>)?\s*\(", "fn " + name + generics + "(", txt, 1)
            txt = re.sub(r"\(\s*&self\b", "(slf: &" + sp.selfty, txt, 1)
            txt = re.sub(r"\(\s*self\b(?!\s*:)", "(slf: " + sp.selfty, txt, 1)
            txt = re.sub(r"\bself\b", "slf", txt)
            return "pub " + re.sub(r"\bSelf\b", sp.selfty, txt).rstrip() + "\n"
        if rename_self:
            txt = re.sub(r"\bself\b", "slf", txt)
            txt = re.sub(r"\bfn \w+", "fn " + free_name(sp.fnkey), txt, 1)
        trait = "@" in sp.fnkey and not sp.implhead and not rename_self
        return ("" if trait else "pub ") + txt.rstrip() + "\n"

    def impl_head(self, fn, sp):
        if sp.implhead:
            return sp.implhead
        return fn.text(fn.d["impl"]["head"])

    def stub(self, u, key):
        sp = self.specs[key]
        fn = self.fns[sp.fnkey]
        ops = "_ops::" in sp.fnkey or bool(sp.free)
        m = self.rmap(fn, sp)
        u.add(sp.withtext, "extra", key)
        if fn.d["impl"] and not sp.free:
            u.add(self.impl_head(fn, sp) + " {\n")
        u.add("#[verifier::external_body]\n")
        u.add(self.signature(fn, sp, ops), "stub", key)
        u.add(ren(sp.sig, m), "stubspec", key)
        u.add("{ unimplemented!() }\n")
        if fn.d["impl"] and not sp.free:
            u.add("}\n")

    def rmap(self, fn, sp):
        b = self.baseline.get(sp.fnkey)
        if not b:
            return {}
        return rename_map(b["locals"], fn.locals_list(), b["params"], [p["name"] for p in fn.d["params"]])

    def spec_text(self, key, deps):
        out = []
        for k in [key] + list(deps):
            s = self.specs[k]
            out += [s.sig, s.extra, s.withtext]
            if k == key:
                out += [s.top, s.end] + [x for l in s.loops.values() for x in l.values()] + [c[3] for c in s.calls]
                out += list(s.closures.values()) + [x[2] for x in s.maps.values()] + [n for _, n in s.subs]
        return "\n".join(x or "" for x in out)

    def unit(self, key, extra_end="", vacuity=True):
        sp = self.specs[key]
        fn = self.fns.get(sp.fnkey)
        if fn is None:
            raise LostAnchor("function %s is gone" % sp.fnkey)
        b = self.baseline.get(sp.fnkey)
        if b and b["loops"] != fn.loops_sig() and self.loop_order(fn, b) == list(range(len(fn.d["loops"]))):
            raise LostAnchor("loop structure of %s changed" % sp.fnkey)
        if b and sp.closures and b["closures"] != len(fn.d["closures"]):
            raise LostAnchor("closures of %s changed" % sp.fnkey)
        if fn.d["unsafes"]:
            raise LostAnchor("unsafe code in %s" % sp.fnkey)
        m = self.rmap(fn, sp)
        u = Unit(key)
        u.deps = self.callees(key)
        self.header(u, self.spec_text(key, u.deps), panics=sp.panics, src=fn.src[fn.d["open"]:fn.d["close"]].decode("utf8"))
        for it in sp.items:
            mod, name = it.split("::")
            if (mod, name) not in self.items:
                raise LostAnchor("item %s is gone" % it)
            u.add(self.item_text((mod, name)) + "\n")
        for k in u.deps:
            self.stub(u, k)
        u.add(sp.withtext, "extra", key)
        u.add(ren(sp.extra, m), "extra", key)
        ops = "_ops::" in sp.fnkey or bool(sp.free)
        if fn.d["impl"] and not sp.free:
            u.add(self.impl_head(fn, sp) + " {\n")
        u.add("#[verifier::loop_isolation(false)]\n")
        u.add("#[verifier::rlimit(%g)]\n" % (sp.rlimit or 200))
        if "allow_complex_invariants" in sp.attrs:
            raise SystemExit("allow_complex_invariants leaves loop exits unchecked: " + key)
        if sp.attrs:
            u.add(sp.attrs)
        u.add(self.signature(fn, sp, ops), "sig", key)
        u.add(ren(sp.sig, m), "spec", key)
        self.body(u, fn, sp, m, ops, extra_end)
        if fn.d["impl"] and not sp.free:
            u.add("}\n")
        u.add("fn main() {}\n}\n")
        return u

    def chains(self, body, fn, sp, m, repl):
        """`xs.iter().map(|x| e).collect()` and `v.extend(xs)`: iterator adapters the verifier has no
        contract for become calls of vp_map / vp_extend, whose bodies are verified loops."""
        o = fn.d["open"]

        def off(i):
            return o + len(body[:i].encode("utf8"))

        for mm in re.finditer(r"(\w+(?:\s*\.\s*\w+)*)\s*\.extend\(", body):
            repl.append((off(mm.start()), off(mm.end()), "vp_extend(&mut %s, " % mm.group(1)))
        k = -1
        for mm in re.finditer(r"(\w+(?:\s*\.\s*\w+(?:\(\))?)*?)\s*\.iter\(\)\s*\.map\(\s*\|\s*(&?)\s*(\w+)\s*\|\s*", body):
            k += 1
            if k not in sp.maps:
                raise LostAnchor("an unexpected iterator map in %s" % sp.fnkey)
            depth, i = 1, mm.end()
            while depth:
                depth += {"(": 1, ")": -1}.get(body[i], 0)
                i += 1
            tail = re.match(r"\s*\.collect(::<[^()]*>)?\(\)", body[i:])
            A, B, ens = sp.maps[k]
            base = re.sub(r"\s+", "", mm.group(1))
            repl.append((off(mm.start()), off(mm.end()), "%svp_map(&%s, |vpm: &%s| -> (vpo: %s) %s { let %s = %svpm; " % (
                "" if tail else "&", base, A, B, ren(ens, m).strip(), mm.group(3), "*" if mm.group(2) else "")))
            repl.append((off(i - 1), off(i + (tail.end() if tail else 0)), " })"))
        if any(q > k for q in sp.maps):
            raise LostAnchor("an iterator map is gone in %s" % sp.fnkey)

    @staticmethod
    def options(body, fn, repl):
        """`m[&k]` is `*m.get(&k).unwrap()`, and `o.map(|x| e)` on the option that `get`, `first` or `last`
        returns is a `match`: the verifier has no contract for the one, and none for closures in the other."""
        o = fn.d["open"]

        def off(i):
            return o + len(body[:i].encode("utf8"))

        def closing(i):
            d = 0
            while i < len(body):
                d += {"(": 1, "[": 1, "{": 1, ")": -1, "]": -1, "}": -1}.get(body[i], 0)
                if d == 0:
                    return i
                i += 1
            raise LostAnchor("unbalanced text in %s" % fn.key)

        for mm in re.finditer(r"(?<![\w.])([a-z_]\w*(?:\.\w+)*)\[(?=&)", body):
            e = closing(mm.end() - 1)
            repl.append((off(mm.start()), off(e + 1), "(*%s.get(%s).unwrap())" % (mm.group(1), body[mm.end():e])))
        for mm in re.finditer(r"(?<![\w.])([a-z_]\w*(?:\.\w+)*)\.(get|first|last)\(", body):
            e = closing(mm.end() - 1) + 1
            recv = body[mm.start():e]
            m2 = re.match(r"\s*\.(map|map_or)\(\s*", body[e:])
            if not m2:
                continue
            c0 = e + m2.end()
            end = closing(e + m2.group(0).index("("))
            inner, dflt = body[c0:end], None
            if m2.group(1) == "map_or":
                parts = split_args(inner)
                if len(parts) != 2:
                    continue
                dflt, inner = parts[0].strip(), parts[1]
            m3 = re.match(r"\s*\|\s*(&?)\s*(\w+)\s*\|\s*(.*)$", inner, re.S)
            if not m3 or "return" in inner or "?" in inner or "|" in m3.group(3):
                continue
            ex = "{ let %s = *vpo; %s }" % (m3.group(2), m3.group(3)) if m3.group(1) else m3.group(3)
            v = "vpo" if m3.group(1) else m3.group(2)
            if dflt is None:
                new = "(match %s { Some(%s) => Some(%s), None => None })" % (recv, v, ex)
            else:
                new = "(match %s { Some(%s) => %s, None => %s })" % (recv, v, ex, dflt)
            repl.append((off(mm.start()), off(end + 1), new))

    def texts(self, body, fn, sp, repl):
        """`format!`, `write!` and `writeln!` with plain `{}` holes become the pushes they stand for, and
        `use` statements inside the body are dropped."""
        o = fn.d["open"]
        for mc in fn.d.get("macros", []):
            if mc["name"] not in ("format", "write", "writeln"):
                continue
            a, b = mc["span"]
            t = fn.text(mc["span"])
            mm = re.match(r"\w+!\s*\(", t)
            if not mm or not t.rstrip().endswith(")"):
                raise LostAnchor("macro in %s" % sp.fnkey)
            args = split_args(t[mm.end():t.rindex(")")])
            w = args.pop(0) if mc["name"] != "format" else None
            lit = re.match(r'"((?:[^"\\]|\\.)*)"$', args[0].strip(), re.S) if args else None
            if args and not lit:
                raise LostAnchor("format string in %s" % sp.fnkey)
            pieces, nxt = [], 0
            vals = args[1:]
            for p in re.split(r"(\{\{|\}\}|\{[^{}]*\})", lit.group(1) if lit else ""):
                if p in ("{{", "}}"):
                    pieces.append(("lit", p[0]))
                elif p.startswith("{"):
                    h = p[1:-1].strip()
                    if h == "" and nxt < len(vals):
                        pieces.append(("val", vals[nxt].strip()))
                        nxt += 1
                    elif h.isdigit() and int(h) < len(vals):
                        pieces.append(("val", vals[int(h)].strip()))
                    elif re.match(r"[A-Za-z_]\w*$", h):
                        named = [v.split("=", 1)[1].strip() for v in vals if re.match(r"\s*%s\s*=[^=]" % h, v)]
                        pieces.append(("val", named[0] if named else h))
                    else:
                        raise LostAnchor("format string in %s" % sp.fnkey)
                elif p:
                    pieces.append(("lit", p))
            if mc["name"] == "writeln":
                pieces.append(("lit", "\\n"))
            for x, y in sp.subs:
                pieces = [(k, v.replace(x, y) if k == "val" else v) for k, v in pieces]
            out = "let mut vpf = String::new(); "
            for k, v in pieces:
                out += 'vpf.push_str("%s"); ' % v if k == "lit" else "vp_show(&mut vpf, &(%s)); " % v
            if w is None:
                repl.append((a, b, "{ %svpf }" % out))
            else:
                repl.append((a, b, "%s.vp_wr({ %svpf })" % (re.sub(r"^&mut\s+", "", w.strip()), out)))
        for mm in re.finditer(r'(?<![\w"])b("(?:[ !#-\[\]-~]|\\[tn])*")', body):
            i = o + len(body[:mm.start()].encode("utf8"))
            repl.append((i, i + len(mm.group(0)), "vp_bytes(%s)" % mm.group(1)))
        for mm in re.finditer(r"(?m)^\s*use [\w:{}, ]+;", body):
            i = o + len(body[:mm.start()].encode("utf8"))
            repl.append((i, i + len(mm.group(0).encode("utf8")), ""))
        for mm in re.finditer(r"\bSome\(&(\w+)\) => \{", body):
            i = o + len(body[:mm.start()].encode("utf8"))
            repl.append((i, i + len(mm.group(0)), "Some(vpr_%s) => { let %s = *vpr_%s;" % ((mm.group(1),) * 3)))

    @staticmethod
    def elem(pat, base, v):
        pat = pat.strip()
        if pat.startswith("&"):
            return "let %s = %s[%s];" % (pat[1:].strip(), base, v)
        return "let %s = &%s[%s];" % (pat, base, v)

    @staticmethod
    def loop_order(fn, base):
        """Loops that were moved as they are keep their annotations."""
        n = len(fn.d["loops"])
        old = base.get("looptext")
        if not old or len(old) != n:
            return list(range(n))
        new = [hashlib.sha256(squeeze(fn.text(L["span"])).encode()).hexdigest()[:16] for L in fn.d["loops"]]
        to = align(old, new)
        sig = fn.loops_sig()
        ok = None not in to and all(
            sig[to[i]][0] == base["loops"][i][0] and sig[to[i]][1] == (None if base["loops"][i][1] is None else to[base["loops"][i][1]])
            for i in range(n))
        return to if ok else list(range(n))

    def body(self, u, fn, sp, m, ops, extra_end):
        bl = self.baseline.get(sp.fnkey) or {}
        d = dict(fn.d)
        lo = self.loop_order(fn, bl)
        d["loops"] = [fn.d["loops"][i] for i in lo]
        ins = {}   # offset -> [(prio, text, meta)]

        def put(off, text, what, prio=0):
            if text:
                ins.setdefault(off, []).append((prio, ren(text, m), what))

        repl = []  # (a, b, text)
        for k, l in sp.loops.items():
            if k >= len(d["loops"]):
                raise LostAnchor("loop %d of %s is gone" % (k, sp.fnkey))
            L = d["loops"][k]
            put(L["open"], "\n" + l["inv"] if l["inv"] else "", "loop %d invariant" % k)
            put(L["open"] + 1, "\n" + l["top"] if l["top"] else "", "loop %d top" % k, 5)
            put(L["close"], l["bot"], "loop %d bottom" % k)
            put(L["span"][0], l["pre"], "before loop %d" % k)
            if re.search(r"\b(ensures|invariant_except_break)\b", l["inv"] or ""):
                # Verus checks what such a loop promises at its exits only when the loop is isolated
                put(L["span"][0], "#[verifier::loop_isolation(true)] ", "isolation", 50)
            put(L["span"][1], "\n" + l["post"] if l["post"] else "", "after loop %d" % k)
        for k in sorted(sp.index):
            if k >= len(d["loops"]):
                raise LostAnchor("loop %d of %s is gone" % (k, sp.fnkey))
            L = d["loops"][k]
            if L["kind"] != "for":
                raise LostAnchor("loop %d of %s" % (k, sp.fnkey))
            pat, ex = fn.text(L["pat"]), fn.text(L["expr"])
            mm = re.match(r"(.*)\.iter\(\)\.enumerate\(\)$", ex, re.S)
            v = "vpi%d" % k
            if mm:
                pm = re.match(r"\((\w+),\s*(.*)\)$", pat, re.S)
                if not pm:
                    raise LostAnchor("pattern of loop %d" % k)
                base = mm.group(1)
                repl.append((L["pat"][0], L["expr"][1], "%s in 0..%s.len()" % (v, base)))
                put(L["open"] + 1, " let %s = %s; %s" % (pm.group(1), v, self.elem(pm.group(2), base, v)), "desugar", -5)
            else:
                mm = re.match(r"(.*)\.iter\(\)$", ex, re.S)
                base = mm.group(1) if mm else ex
                base = re.sub(r"^&\s*", "", base)
                if not re.match(r"[\w.]+$", base):
                    raise LostAnchor("iterated expression of loop %d" % k)
                repl.append((L["pat"][0], L["expr"][1], "%s in 0..%s.len()" % (v, base)))
                put(L["open"] + 1, " " + self.elem(pat, base, v), "desugar", -5)
        # `for (&k, &v) in &map`: no reference patterns, no IntoIterator for maps
        for k in sorted(sp.mapiter):
            if k >= len(d["loops"]) or d["loops"][k]["kind"] != "for":
                raise LostAnchor("loop %d of %s is gone" % (k, sp.fnkey))
            L = d["loops"][k]
            pm = re.match(r"\(\s*&(\([\w,\s]*\)|\w+)\s*,\s*&(\w+)\s*\)$", fn.text(L["pat"]), re.S)
            em = re.match(r"(?:&\s*([\w.]+)|([\w.]+)\.iter\(\))$", fn.text(L["expr"]), re.S)
            if not pm or not em:
                raise LostAnchor("loop %d of %s" % (k, sp.fnkey))
            repl.append((L["pat"][0], L["expr"][1], "vpe%d in vpit%d: %s.iter()" % (k, k, em.group(1) or em.group(2))))
            put(L["open"] + 1, " let %s = *vpe%d.0; let %s = *vpe%d.1;" % (pm.group(1), k, pm.group(2), k), "desugar", -5)
        for k, t in sp.closures.items():
            if k >= len(d["closures"]):
                raise LostAnchor("closure %d of %s is gone" % (k, sp.fnkey))
            c = d["closures"][k]
            put(c["body"][0], " " + t.strip() + " " + ("" if c["block"] else "{ "), "closure %d" % k)
            if not c["block"]:
                put(c["body"][1], " }", "closure %d" % k, -9)
        for where, name, n, text in sp.calls:
            cs = calls_of(fn, name)
            old = bl.get("anchors", {}).get(name)
            if old is not None and n < len(old):
                n = align([ren(t, m) for t in old], call_texts(fn, name))[n]
                if n is None:
                    raise LostAnchor("call of %s in %s is gone" % (name, sp.fnkey))
            if n >= len(cs) or not cs[n]["stmt"]:
                raise LostAnchor("call %s #%d in %s is gone" % (name, n, sp.fnkey))
            st = cs[n]["stmt"]
            if where == "before":
                put(st[0], text, "before call of %s" % name)
            else:
                put(st[1], "\n" + text, "after call of %s" % name)
        put(d["open"] + 1, "\n" + sp.top if sp.top else "", "top", 3)
        endoff = d["tail"][0] if d["tail"] and all(L["span"][0] != d["tail"][0] for L in d["loops"]) else d["close"]
        if d["tail"] and not d["ret"] and re.match(r"(if|match|unsafe|\{)\b", fn.text(d["tail"])):
            endoff = d["close"]   # a unit-valued block at the end: what follows it is still the function's end
        put(endoff, sp.end + extra_end, "end")
        # replacements by spec'd substitution (mechanical desugarings, listed in DESIGN.md)
        body = fn.src[d["open"]:d["close"] + 1].decode("utf8")
        for o, n in sp.subs:
            start = 0
            while True:
                i = body.find(o, start)
                if i < 0:
                    break
                a = d["open"] + len(body[:i].encode("utf8"))
                repl.append((a, a + len(o.encode("utf8")), n))
                start = i + len(o)
        # `if let Some(&x) = e {`: the verifier has no reference patterns
        for mm in re.finditer(r"if let Some\(&(\w+)\) = ([^{};]*)\{", body):
            a = d["open"] + len(body[:mm.start(1) - 1].encode("utf8"))
            repl.append((a, a + 1 + len(mm.group(1)), "vpr_" + mm.group(1)))
            put(d["open"] + len(body[:mm.end()].encode("utf8")), " let %s = *vpr_%s;" % (mm.group(1), mm.group(1)), "desugar", -6)
        self.chains(body, fn, sp, m, repl)
        self.texts(body, fn, sp, repl)
        self.options(body, fn, repl)
        # a `continue` with nothing behind it in its `for` body (the extractor finds these): the verifier has none
        for t in d.get("tails", []):
            if isinstance(t, dict):   # `if c { continue; } rest` is `if c {} else { rest }`
                put(t["guard"][0], " else {", "desugar", -8)
                put(t["guard"][1], "}", "desugar", -8)
            else:
                repl.append((t[0], t[1], "{}"))
        if sp.panics:
            for mm in re.finditer(r"\.unwrap\(\)", body):
                a = d["open"] + len(body[:mm.start()].encode("utf8"))
                repl.append((a, a + len(".unwrap()"), ".vp_unwrap()"))
        if ops:
            repl = [(a, b2, re.sub(r"\bself\b", "slf", t)) for a, b2, t in repl]
        if sp.free:
            for mm in re.finditer(r"\bSelf::", body):
                a = d["open"] + len(body[:mm.start()].encode("utf8"))
                repl.append((a, a + 6, sp.selfty.replace("<", "::<", 1) + "::"))
        repl.sort()
        cuts = sorted(set(list(ins) + [r[0] for r in repl] + [d["close"] + 1]))
        pos = d["open"]
        ri = 0

        def src(a, b):
            if a < b:
                t = fn.src[a:b].decode("utf8")
                if ops:
                    t = re.sub(r"\bself\b", "slf", t)
                u.add(t, "src", (fn.key, a))

        for c in cuts:
            if c < pos:
                if c in ins:
                    raise LostAnchor("overlapping edits in %s" % sp.fnkey)
                continue
            src(pos, c)
            pos = c
            for _, t, what in sorted(ins.get(c, []), key=lambda x: x[0]):
                u.add(t, "desugar" if what == "desugar" else "ghost", what)
            for a, b2, t in repl:
                if a == c:
                    u.add(t, "desugar", (fn.key, a))
                    pos = b2
        u.add("\n")

    def lib_unit(self):
        u = Unit("lib")
        self.header(u)
        u.add("pub mod inst {\n%suse super::pre::*; use super::pre::Integer;\n" % PREUSE)
        u.add(open(os.path.join(SPECDIR, "instances.rs")).read(), "lib", "instances")
        u.add("}\nfn main() {}\n}\n")
        return u

    def vacuity(self, key):
        """The same function with a body that must fail: `assert(false)` right behind its precondition."""
        sp = self.specs[key]
        fn = self.fns[sp.fnkey]
        if "requires" not in sp.sig or sp.novac:
            return None
        m = self.rmap(fn, sp)
        u = Unit("vac_" + key)
        self.header(u, self.spec_text(key, []))
        for it in sp.items:
            mod, name = it.split("::")
            u.add(self.item_text((mod, name)) + "\n")
        u.add(sp.withtext, "extra", key)
        u.add(ren(sp.extra, m), "extra", key)
        ops = "_ops::" in sp.fnkey or bool(sp.free)
        if fn.d["impl"] and not sp.free:
            u.add(self.impl_head(fn, sp) + " {\n")
        u.add("#[verifier::rlimit(3)]\n")
        u.add(self.signature(fn, sp, ops), "sig", key)
        u.add(ren(sp.sig, m), "spec", key)
        u.add("{ proof { assert(false); } vp_diverge() }\n")
        if fn.d["impl"] and not sp.free:
            u.add("}\n")
        u.add("fn main() {}\n}\n")
        return u
