"""Reads /repo's current sources through the `extract` parser (offsets only; text is copied verbatim)."""
import glob, json, os, re, subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
EXTRACT = os.path.join(VERIF, "extract", "target", "release", "extract")

SKIP = ("test.rs", "coo_test.rs", "csr_test.rs", "ccsr_test.rs")


class SourceError(Exception):
    pass


def module_of(path):
    rel = os.path.relpath(path, os.path.join(REPO, "src"))[:-3]
    parts = rel.split(os.sep)
    return parts[-1] if parts[-1] not in ("mod",) else "_".join(parts)


class Fn:
    """One function of /repo with byte offsets into its file."""

    def __init__(self, path, src, d, key, module):
        self.path, self.src, self.d, self.key, self.module = path, src, d, key, module

    def text(self, span):
        return self.src[span[0]:span[1]].decode("utf8")

    @property
    def name(self):
        return self.d["name"]

    @property
    def body_text(self):
        return self.text([self.d["whole"][0], self.d["whole"][1]])

    def loops_sig(self):
        return [[l["kind"], l["parent"], bool(l["closure"])] for l in self.d["loops"]]

    def locals_list(self):
        """Binding names in order, with the loop each is bound in.  `_x`-style unused bindings are
        left out: nothing can refer to them, so adding one changes nothing."""
        return [[l["name"], l["loop"]] for l in self.d["locals"]]

    def norm(self):
        """Token text without comments and white space (to tell whether a function changed at all)."""
        t = self.body_text
        t = re.sub(r"//[^\n]*", "", t)
        t = re.sub(r"/\*.*?\*/", "", t, flags=re.S)
        return re.sub(r"\s+", " ", t).strip()

    def line(self, off):
        return self.src[:off].count(b"\n") + 1

    def callee_names(self):
        s = set()
        for c in self.d["calls"]:
            if "method" in c:
                s.add("." + c["method"])
            else:
                s.add("::".join(c["path"][-2:]))
                s.add(c["path"][-1])
        return s


def extract(paths):
    p = subprocess.run([EXTRACT] + paths, capture_output=True, text=True)
    if p.returncode != 0:
        raise SourceError("extract failed: " + p.stderr[:2000])
    data = json.loads(p.stdout)
    for path, d in data.items():
        if "error" in d:
            raise SourceError("cannot parse %s: %s" % (path, d["error"]))
    return data


def index(path, src, d, fns, items):
    """Enters the functions and items of one parsed file under their keys."""
    mod = module_of(path)
    dirname = os.path.dirname(os.path.relpath(path, os.path.join(REPO, "src")))
    for it in d["items"]:
        items[(mod, it["name"])] = src[it["span"][0]:it["span"][1]].decode("utf8")
    count = {}
    for f in d["fns"]:
        if f["impl"]:
            tr = f["impl"]["trait"]
            key = "%s::%s%s::%s" % (mod, f["impl"]["ty"], ("@" + tr) if tr else "", f["name"])
        elif any("opimps" in a for a in f["attrs"]):
            tys = []
            for p in f["params"]:
                t = src[p["ty"][0]:p["ty"][1]].decode("utf8")
                tys.append(re.sub(r"\s+", "", t))
            key = "%s_ops::%s(%s)" % (dirname, f["name"], ",".join(tys))
        else:
            key = "%s::%s" % (mod, f["name"])
        if key in fns:
            count[key] = count.get(key, 1) + 1
            key = "%s#%d" % (key, count[key])
        fns[key] = Fn(path, src, f, key, mod)


def load():
    files = sorted(f for f in glob.glob(os.path.join(REPO, "src", "**", "*.rs"), recursive=True)
                   if os.path.basename(f) not in SKIP)
    fns, items = {}, {}
    for path, d in extract(files).items():
        index(path, open(path, "rb").read(), d, fns, items)
    return fns, items


if __name__ == "__main__":
    fns, items = load()
    for k in fns:
        print(k)
