"""Loops somebody wrote another way are put back, as text, into the form the contracts were written for, before a
unit is generated: `loop { if c { break; } .. }` to `while`, a counting `while` to `for`, and `for (i, x) in
xs.iter().enumerate()` or `for x in xs.iter()` to a range.  Each step is applied only where it cannot change what the
function does (conditions below), and only to functions whose loops differ from those the contracts know."""
import os, re, tempfile
from . import source

IDENT = r"[A-Za-z_]\w*"
NEG = {"<": ">=", ">=": "<", ">": "<=", "<=": ">", "==": "!=", "!=": "=="}


def mask(t):
    """Comments and literals blanked, offsets kept (t is latin-1 text)."""
    return re.sub(r"//[^\n]*|/\*.*?\*/|\"(?:[^\"\\]|\\.)*\"|'(?:[^'\\]|\\.)'", lambda m: " " * len(m.group(0)), t, flags=re.S)


def words(t):
    return set(re.findall(r"(?<![\w.])(?:%s)(?![\w(!]|\s*::)" % IDENT, t)) - {"as", "usize", "isize", "mut"}


def block_end(code, i):
    """Offset of the brace that closes the block around offset i."""
    d = 0
    while i < len(code):
        if code[i] == "{":
            d += 1
        elif code[i] == "}":
            d -= 1
            if d < 0:
                return i
        i += 1
    return i


def negate(c):
    c = c.strip()
    m = re.match(r"!\s*\((.*)\)$", c, re.S)
    if m and block_end(m.group(1).replace("(", "{").replace(")", "}"), 0) == len(m.group(1)):
        return m.group(1)
    m = re.match(r"([\w.\[\]()+\- ]+?)\s*(<=|>=|==|!=|<|>)\s*([\w.\[\]()+\- ]+)$", c)
    if m and "<<" not in c and ">>" not in c:
        return "%s %s %s" % (m.group(1), NEG[m.group(2)], m.group(3))
    return "!(%s)" % c


def fixed(f, code, expr, a, b):
    """Nothing in code[a:b] can change the value of the expression."""
    if not re.match(r"[\w.\[\]()+\-*:\s]+$", expr):
        return False
    whole = code[f.d["open"]:f.d["close"]]
    body = code[a:b]
    for w in words(expr):
        if w.isdigit():
            continue
        muts = bool(re.search(r"\bmut\s+%s\b" % w, whole)) or bool(re.search(r"\blet\s+%s\b[^=;]*=\s*&mut\b" % w, whole))
        for p in f.d["params"]:
            if p.get("self"):
                muts = muts or w == "self" and bool(re.search(r"\bmut\s+self\b|self\s*:\s*&\s*mut\b", f.text([f.d["whole"][0], f.d["open"]])))
            elif p["name"] == w and (re.search(r"&\s*(?:'\w+\s+)?mut\b", f.text(p["ty"])) or f.text(p["pat"]).strip().startswith("mut")):
                muts = True
        if not muts:
            continue
        if re.search(r"(?<![\w.])%s\b(?:\.\w+)*\s*(?:[-+*/%%&|^]|<<|>>)?=(?!=)" % w, body) or re.search(r"&mut\s+%s\b" % w, body):
            return False
        if re.search(r"(?<![\w.])%s\b(?:\.\w+(?!\())*\.(?!len\(|get\(|iter\(|to_usize\(|is_empty\(|rows\b|cols\b)\w+\(" % w, body):
            return False
        if re.search(r"(?<![\w.])%s\s*\[" % w, expr) and re.search(r"(?<![\w.])%s\s*\[[^\]]*\]\s*[-+*/]?=(?!=)" % w, body):
            return False
        if re.search(r"(?<![\w.])%s\b(?!\.len\(|\s*\[|\w)" % w, expr) and re.search(r"(?<![\w.])%s\s*\[" % w, body):
            return False
    return True


def to_while(f, code, L):
    """loop { if c { break; } body }  ->  while !c { body }"""
    m = re.match(r"\s*if\s+(?!let\b)([^{};]+?)\s*\{\s*break\s*;?\s*\}(?!\s*else)\s*;?", code[L["open"] + 1:L["close"]])
    if not m:
        return None
    a = L["span"][0]
    head = code[a:L["open"]]
    if not re.match(r"(?:'\w+\s*:\s*)?loop\s*$", head):
        return None
    return [(a, L["open"] + 1 + m.end(), head.replace("loop", "while").rstrip() + " " + negate(m.group(1)) + " {")]


def to_for(f, code, L):
    """let mut v = lo; .. while v < hi { body; v += 1; }  ->  for v in lo..hi { body }"""
    head = re.sub(r"\s+", " ", code[L["span"][0]:L["open"]]).strip()
    m = re.match(r"((?:'\w+\s*: ?)?)while (%s) < ([^{}&|<>=]+)$" % IDENT, head) or re.match(r"((?:'\w+\s*: ?)?)while ([^{}&|<>=]+) > (%s)$" % IDENT, head)
    if not m:
        return None
    v, hi = (m.group(2), m.group(3)) if "<" in head else (m.group(3), m.group(2))
    hi = hi.strip()
    body = code[L["open"] + 1:L["close"]]
    t = re.search(r"(?<![\w.*])%s\s*(?:\+=\s*1(?:usize)?|=\s*%s\s*\+\s*1|=\s*1\s*\+\s*%s)\s*;\s*$" % (v, v, v), body)
    if not t or re.search(r"\bcontinue\b", body) or block_end(body, 0) != len(body):
        return None
    # the step is a statement of the body itself, not of a block in it
    d = body[:t.start()].count("{") - body[:t.start()].count("}")
    if d:
        return None
    inner = body[:t.start()]
    if re.search(r"(?<![\w.])%s\s*(?:[-+*/%%]|<<|>>)?=(?!=)" % v, inner) or re.search(r"&mut\s+%s\b|\blet\s+(?:mut\s+)?\(?[^=;]*\b%s\b[^=;]*=|\|[^|]*\b%s\b[^|]*\||\bfor\s+%s\b" % (v, v, v, v), inner):
        return None
    before = code[f.d["open"]:L["span"][0]]
    lm = None
    for lm in re.finditer(r"\blet\s+mut\s+%s\s*(?::\s*\w+\s*)?=\s*([^;{}]+);" % v, before):
        pass
    if lm is None:
        return None
    between = before[lm.end():]
    lo = lm.group(1).strip()
    if not re.match(r"\s*(?:(?:let\s[^;{}]*|[\w.]+\s*=[^;{}=][^;{}]*);\s*)*$", between) or re.search(r"\b%s\b" % v, between):
        return None
    bound = set()
    for x in re.findall(r"\blet\s+([^=;]+)=", between):
        bound |= set(re.findall(IDENT, x.split(":")[0]))
    if bound & words(lo) or not fixed(f, code, lo, f.d["open"] + lm.end(), L["span"][0]) and between.strip():
        return None
    if not fixed(f, code, hi, L["open"] + 1, L["close"]) or v in words(hi):
        return None
    # what the counter holds afterwards must not matter
    end = block_end(code, L["span"][1])
    rest = code[L["span"][1]:end]
    while True:   # what another binding of the same name covers
        fm = re.search(r"\bfor\s+%s\s+in\s([^{}]*)\{" % v, rest)
        lm2 = re.search(r"\blet\s+(?:mut\s+)?%s\s*(?::[^=;]*)?=([^;{}]*);" % v, rest)
        im = re.search(r"\bif\s+let\s+[^={}]*\b%s\b[^={}]*=([^{}]*)\{" % v, rest)
        if im and not re.search(r"(?<![\w.])%s\b" % v, im.group(1)):
            e = block_end(rest, im.end()) + 1
            rest = rest[:im.start()] + " " * (e - im.start()) + rest[e:]
        elif fm and not re.search(r"(?<![\w.])%s\b" % v, fm.group(1)):
            e = block_end(rest, fm.end()) + 1
            rest = rest[:fm.start()] + " " * (e - fm.start()) + rest[e:]
        elif lm2 and not re.search(r"(?<![\w.])%s\b" % v, lm2.group(1)):
            e = block_end(rest, lm2.end())
            rest = rest[:lm2.start()] + " " * (e - lm2.start()) + rest[e:]
        else:
            break
    if re.search(r"(?<![\w.])%s\b" % v, rest):
        return None
    o = f.d["open"]
    lo = lo if re.match(r"[\w.]+$", lo) else "(%s)" % lo
    hi = hi if re.match(r"[\w.() +\-*]+$", hi) else "(%s)" % hi
    return [(o + lm.start(), o + lm.end(), ""),
            (L["span"][0], L["open"], "%sfor %s in %s..%s " % (m.group(1), v, lo, hi)),
            (L["open"] + 1 + t.start(), L["close"], "")]


def to_range(f, code, L, var):
    """for (i, x) in xs.iter().enumerate() / for x in xs.iter() / for x in &xs  ->  for i in 0..xs.len()"""
    pat = re.sub(r"\s+", " ", code[L["pat"][0]:L["pat"][1]]).strip()
    ex = re.sub(r"\s+", "", code[L["expr"][0]:L["expr"][1]])
    m = re.match(r"([\w.]+)\.iter\(\)\.enumerate\(\)$", ex)
    if m:
        p = re.match(r"\((\w+), (&? ?\w+)\)$", pat)
        if not p:
            return None
        i, x = p.group(1), p.group(2).replace(" ", "")
        if i == "_":
            i = var
    else:
        m = re.match(r"(?:&([\w.]+)|([\w.]+)\.iter\(\))$", ex)
        if not m or not re.match(r"&? ?\w+$", pat):
            return None
        i, x = var, pat.replace(" ", "")
        if not i or i in words(code[f.d["open"]:f.d["close"]]):
            return None
    base = m.group(1) or m.group(2)
    if re.match(r"\d", base) or i == x.lstrip("&"):
        return None
    el = "" if x in ("_", "&_") else "let %s = %s[%s]; " % (x[1:], base, i) if x.startswith("&") else "let %s = &%s[%s]; " % (x, base, i)
    return [(L["pat"][0], L["open"] + 1, "%s in 0..%s.len() { %s" % (i, base, el))]


def reparse(f, key, src):
    fd, tmp = tempfile.mkstemp(suffix=".rs")
    try:
        with os.fdopen(fd, "wb") as o:
            o.write(src)
        d = source.extract([tmp])[tmp]
    except source.SourceError:
        return None
    finally:
        os.unlink(tmp)
    new = {}
    source.index(f.path, src, d, new, {})
    return new.get(key)


def names(fn, k):
    return [n for n, l in fn if l == k]


def normalise(fns, specs, baseline):
    notes = []
    for key in sorted(fns):
        b = baseline.get(key)
        f = fns[key]
        told = set(k for s in specs.values() if s.fnkey == key for k in list(s.index) + list(s.mapiter))
        if not b or len(b["loops"]) != len(f.d["loops"]):
            continue
        for _ in range(3 * len(b["loops"])):
            code = mask(f.src.decode("latin-1"))
            edits = None
            for k, L in enumerate(f.d["loops"]):
                want = b["loops"][k][0]
                known = names(b["locals"], k)
                if L["kind"] == "loop" and want != "loop":
                    edits = to_while(f, code, L)
                elif L["kind"] == "while" and want == "for":
                    edits = to_for(f, code, L)
                elif L["kind"] == "for" and b["ranges"][k] and k not in told and ".." not in f.text(L["expr"]):
                    edits = to_range(f, code, L, known[0] if known else None)
                if edits:
                    break
            if not edits:
                break
            src = f.src
            for x, y, t in sorted(edits, reverse=True):
                src = src[:x] + t.encode("latin-1") + src[y:]
            g = reparse(f, key, src)
            if g is None:
                break
            g.inlined = getattr(f, "inlined", False)
            g.normalised = True
            f = fns[key] = g
            notes.append("%s: a loop was put back into the form the contract is written for" % key)
    return notes
